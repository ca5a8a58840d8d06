# wakes the sleepers only if what they wait for has changed
edits = [("big/scheduler.py", """            self.heap.append(event)
            self.regulator.wake()
""", """            self.heap.append(event)
            if self.heap[0] is event:
                self.regulator.wake()
"""), ("big/scheduler.py", """            self.heap.remove(event)
            self.regulator.wake()
""", """            first = bool(self.heap) and self.heap[0] is event
            self.heap.remove(event)
            if first:
                self.regulator.wake()
""")]
