edits = [
("big/log.py", '''        i = iter(tuple(self.events))
        waiting = next(i)
        for e in i:
            t, event, depth = waiting
            next_t = e[0]
            yield (t, next_t - t, event, depth)
            waiting = e
        t, event, depth = waiting
        yield (t, 0, event, depth)
''', '''        events = self.events[:]
        for index, (t, event, depth) in enumerate(events, 1):
            elapsed = events[index][0] - t if index < len(events) else 0
            yield (t, elapsed, event, depth)
'''),
("big/log.py", '''        # if event isn't a string, fail before anything is logged.
        self.longest_event = max(self.longest_event, len(event))
        self.events.append((t, event, len(self.stack)))
        self.end = t
''', '''        width = len(event)
        if width > self.longest_event:
            self.longest_event = width
        self.end = t
        self.events.append((t, event, len(self.stack)))
'''),
("big/log.py", '''            seconds = t // 1_000_000_000
            nanoseconds = f"{t - (seconds * 1_000_000_000):>09}"
            nanoseconds = nanoseconds[:fractional_width]
            return f"{seconds:0{seconds_width}}.{nanoseconds}"
''', '''            seconds, nanoseconds = divmod(t, 1_000_000_000)
            return f"{str(seconds).rjust(seconds_width, '0')}.{str(nanoseconds).rjust(9, '0')[:fractional_width]}"
'''),
("big/log.py", '''        self.start = self.clock()
        self.stack = []

        event = 'log start'
        self.longest_event = len(event)
        self.events = [(0, event, 0)]
''', '''        start = self.clock()
        event = 'log start'
        self.events = [(0, event, 0)]
        self.stack = []
        self.longest_event = len(event)
        self.start = start
'''),
]
