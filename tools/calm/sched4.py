# wakes only when it matters: a new first event, or the first event cancelled; clocks in nanoseconds
edits = [
("big/scheduler.py", '''            self.heap.append(event)
            self.regulator.wake()
        return event''', '''            self.heap.append(event)
            if self.heap[0] is event:
                self.regulator.wake()
        return event'''),
("big/scheduler.py", '''            self.heap.remove(event)
            self.regulator.wake()
''', '''            first = bool(self.heap) and self.heap[0] is event
            self.heap.remove(event)
            if first:
                self.regulator.wake()
'''),
("big/scheduler.py", '''    def now(self):
        return time.monotonic()

    def wake(self):
        pass

    def sleep(self, interval):
        time.sleep(interval)
''', '''    def now(self):
        return time.monotonic_ns() / 1_000_000_000

    def wake(self):
        pass

    def sleep(self, interval):
        # in slices, like some operating systems do
        while interval > 60:
            time.sleep(60)
            interval -= 60
        time.sleep(interval)
'''),
]
