# sleepers are woken only if the first event has changed: nobody waits for any other
edits = [
("big/scheduler.py", '''            self.heap.append(event)
            self.regulator.wake()
''', '''            self.heap.append(event)
            if self.heap[0] is event:
                self.regulator.wake()
'''),
("big/scheduler.py", '''            self.heap.remove(event)
            self.regulator.wake()
''', '''            first = self.heap[0] if self.heap else None
            self.heap.remove(event)
            if first is event:
                self.regulator.wake()
'''),
]
