# iteration over the live list: events logged meanwhile are seen too
edits = [
("big/log.py", "        i = iter(tuple(self.events))\n", "        i = iter(self.events)\n"),
("big/log.py", '''    def enter(self, subsystem):''', '''    def _now(self):
        return self.clock() - self.start

    def enter(self, subsystem):'''),
("big/log.py", '''        t = self.clock() - self.start
        # if event isn't a string, fail before anything is logged.
        self.longest_event = max(self.longest_event, len(event))
        self.events.append((t, event, len(self.stack)))
        self.end = t
''', '''        t = self._now()
        self.longest_event = max(self.longest_event, len(event))
        self.end = t
        self.events.append((t, event, len(self.stack)))
'''),
]
