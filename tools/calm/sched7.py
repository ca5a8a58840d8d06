# the non-blocking iterator as a generator behind a class
edits = [
("big/scheduler.py", '''        def __init__(self, scheduler):
            self.s = scheduler

        def __iter__(self):
            return self

        def __next__(self):
            return self.s._next(blocking=False)
''', '''        def __init__(self, scheduler):
            self.s = scheduler
            self.i = None

        def _events(self):
            while True:
                try:
                    event = self.s._next(blocking=False)
                except StopIteration:
                    return
                yield event

        def __iter__(self):
            return self

        def __next__(self):
            if self.i is None:
                self.i = self._events()
            try:
                return next(self.i)
            except BaseException:
                self.i = None
                raise
'''),
]
