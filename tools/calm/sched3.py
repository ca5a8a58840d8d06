# the clock read into a new variable, an itertools counter, wake before append (still under the lock), generator for non_blocking
edits = [
("big/scheduler.py", '''            if not absolute:
                # (+= could change the caller's object.)
                time = time + self.regulator.now()
            self.event_id_counter += 1
            event = Event(self, o, time, priority, self.event_id_counter)
            self.heap.append(event)
            self.regulator.wake()
        return event''', '''            if absolute:
                due = time
            else:
                due = self.regulator.now() + time
            self.event_id_counter = sequence = self.event_id_counter + 1
            event = Event(self, o, due, priority, sequence)
            self.heap.append(event)
            self.regulator.wake()
            return event'''),
("big/scheduler.py", '''        return self.NonBlockingSchedulerIterator(self)''', '''        def iterator():
            while True:
                try:
                    event = self._next(False)
                except StopIteration:
                    return
                yield event
        return iterator()'''),
("big/scheduler.py", '''                ev = self.heap[0]
                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    self.heap.popleft()
                    return ev.event
''', '''                ev = self.heap.popleft()
                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    return ev.event
                self.heap.append(ev)
'''),
]
