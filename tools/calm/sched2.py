# a sorted list instead of the heap, tuples as sort keys, a generation count and a condition in the regulator
edits = [
("big/scheduler.py", "        self.heap = Heap()\n", "        self._events = []\n"),
("big/scheduler.py", "from .heap import Heap\n", "import bisect\nimport functools\n"),
("big/scheduler.py", '''            self.heap.append(event)
''', '''            bisect.insort(self._events, event)
'''),
("big/scheduler.py", '''            self.heap.remove(event)
''', '''            self._events.remove(event)
'''),
("big/scheduler.py", '''            return bool(self.heap)
''', '''            return len(self._events) != 0
'''),
("big/scheduler.py", '''            return self.heap.queue
''', '''            return self._events[:]
'''),
("big/scheduler.py", '''                if not self.heap:
                    raise StopIteration
''', '''                if not self._events:
                    raise StopIteration
'''),
("big/scheduler.py", '''                ev = self.heap[0]
                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    self.heap.popleft()
                    return ev.event
''', '''                ev = self._events[0]
                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    del self._events[0]
                    return ev.event

                if not blocking:
                    raise StopIteration
'''),
("big/scheduler.py", '''            if not blocking:
                raise StopIteration

            # assert''', '''            # assert'''),
("big/scheduler.py", '''        if self.time < other.time:
            return True
        if self.time > other.time:
            return False

        if self.priority < other.priority:
            return True
        if self.priority > other.priority:
            return False

        if self.sequence < other.sequence:
            return True

        return False
''', '''        return (self.time, self.priority, self.sequence) < (other.time, other.priority, other.sequence)
'''),
("big/scheduler.py", '''        self.event = threading.Event()
        self.lock = threading.Lock()
''', '''        self.lock = threading.Lock()
        self.generation = 0
        self.changed = threading.Condition(threading.Lock())
'''),
("big/scheduler.py", '''        return f"<ThreadSafeRegulator event={self.event} lock={self.lock}>"''', '''        return f"<ThreadSafeRegulator generation={self.generation} lock={self.lock}>"'''),
("big/scheduler.py", '''        event = self.event
        self.event = threading.Event()
        event.set()
''', '''        with self.changed:
            self.generation += 1
            self.changed.notify_all()
'''),
("big/scheduler.py", '''        return self.event.wait
''', '''        return functools.partial(self._sleep, self.generation)

    def _sleep(self, generation, interval):
        with self.changed:
            if self.generation == generation:
                self.changed.wait(interval)
'''),
]
