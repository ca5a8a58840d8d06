# the single-threaded regulator sleeps in slices; the loop is cut in two
edits = [
("big/scheduler.py", '''    def sleep(self, interval):
        time.sleep(interval)
''', '''    def sleep(self, interval):
        half = interval / 2
        time.sleep(half)
        time.sleep(interval - half)
'''),
("big/scheduler.py", '''        while True:

            with self.regulator.lock:
                if not self.heap:
                    raise StopIteration

                now = self.regulator.now()
                ev = self.heap[0]
                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    self.heap.popleft()
                    return ev.event

                # Don't sleep while holding the lock!
                #
                # Do this instead:
                #   * Fetch the sleep method while
                #     holding the lock, then
                #   * Release the lock, then
                #   * Sleep.
                sleep = self.regulator.sleep

            if not blocking:
                raise StopIteration

            # assert time_to_next_event > 0
            sleep(time_to_next_event)
''', '''        ready, event, sleep, interval = self._poll()
        while not ready:
            if not blocking:
                raise StopIteration
            sleep(interval)
            ready, event, sleep, interval = self._poll()
        return event

    def _poll(self):
        regulator = self.regulator
        with regulator.lock:
            if not self.heap:
                raise StopIteration
            interval = self.heap[0].time - regulator.now()
            if interval <= 0:
                return True, self.heap.popleft().event, None, None
            return False, None, regulator.sleep, interval
'''),
]
