# one list per column
edits = [
("big/log.py", '''        self.events = [(0, event, 0)]
''', '''        self._columns = [0], [event], [0]
'''),
("big/log.py", '''        self.events.append((t, event, len(self.stack)))
        self.end = t
''', '''        depth = len(self.stack)
        times, events, depths = self._columns
        # (the times last: iterating looks at them first)
        events.append(event)
        depths.append(depth)
        times.append(t)
        self.end = t
'''),
("big/log.py", '''        i = iter(tuple(self.events))
        waiting = next(i)
        for e in i:
            t, event, depth = waiting
            next_t = e[0]
            yield (t, next_t - t, event, depth)
            waiting = e
        t, event, depth = waiting
        yield (t, 0, event, depth)
''', '''        times, events, depths = self._columns
        times = list(times)
        ends = times[1:] + times[-1:]
        for row in list(zip(times, (b - a for a, b in zip(times, ends)), events, depths)):
            yield row
'''),
]
