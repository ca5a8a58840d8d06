# the loop body in a helper; wake only if the head changes; cancel wakes only if the head goes
edits = [
("big/scheduler.py", '''            self.heap.append(event)
            self.regulator.wake()
        return event''', '''            self.heap.append(event)
            if self.heap[0] is event:
                # only an event that is now first changes what anybody waits for
                self.regulator.wake()
        return event'''),
("big/scheduler.py", '''            self.heap.remove(event)
            self.regulator.wake()''', '''            first = bool(self.heap) and self.heap[0] is event
            self.heap.remove(event)
            if first:
                self.regulator.wake()'''),
("big/scheduler.py", '''        while True:

            with self.regulator.lock:
                if not self.heap:
                    raise StopIteration

                now = self.regulator.now()
                ev = self.heap[0]
                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    self.heap.popleft()
                    return ev.event

                # Don't sleep while holding the lock!
                #
                # Do this instead:
                #   * Fetch the sleep method while
                #     holding the lock, then
                #   * Release the lock, then
                #   * Sleep.
                sleep = self.regulator.sleep

            if not blocking:
                raise StopIteration

            # assert time_to_next_event > 0
            sleep(time_to_next_event)
''', '''        regulator = self.regulator
        while True:
            with regulator.lock:
                due, value, sleep = self._due()
            if due:
                return value
            if not blocking:
                raise StopIteration
            sleep(value)

    def _due(self):
        "Called with the lock held.  Returns (True, event, None) or (False, interval, sleep)."
        if not self.heap:
            raise StopIteration
        first = self.heap[0]
        interval = first.time - self.regulator.now()
        if interval > 0:
            return False, interval, self.regulator.sleep
        popped = self.heap.popleft()
        assert popped is first
        return True, popped.event, None
'''),
]
