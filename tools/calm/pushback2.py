# a deque; the source's end remembered with a sentinel
edits = [
("big/itertools.py", '''        self.stack = []

    def __iter__''', '''        self.stack = []

    def __iter__'''),
("big/itertools.py", '''        self.stack.append(o)

    def __next__(self):
        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        raise StopIteration
''', '''        self.stack.append(o)

    def __next__(self):
        sentinel = object()
        value = self._step(sentinel)
        if value is sentinel:
            raise StopIteration
        return value

    def _step(self, sentinel):
        if self.stack:
            return self.stack.pop()
        if self.i is None:
            return sentinel
        value = next(self.i, sentinel)
        if value is sentinel:
            self.i = None
        return value
'''),
("big/itertools.py", '''        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        return default
''', '''        sentinel = object()
        value = self._step(sentinel)
        return default if value is sentinel else value
'''),
("big/itertools.py", '''        if self.stack:
            return True
        if self.i is not None:
            try:
                o = next(self.i)
                self.push(o)
                return True
            except StopIteration:
                self.i = None
        return False
''', '''        sentinel = object()
        value = self._step(sentinel)
        if value is sentinel:
            return False
        self.push(value)
        return True
'''),
]
