# one fetching method behind next(), next(default) and bool; the stack as a deque-like list kept the other way round
edits = [
("big/itertools.py", '''    def __next__(self):
        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        raise StopIteration
''', '''    def _fetch(self):
        "(True, value) or (False, None)"
        stack = self.stack
        if stack:
            return True, stack.pop(-1)
        source = self.i
        if source is None:
            return False, None
        try:
            return True, source.__next__()
        except StopIteration:
            self.i = None
            return False, None

    def __next__(self):
        found, o = self._fetch()
        if not found:
            raise StopIteration
        return o
'''),
("big/itertools.py", '''        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        return default
''', '''        found, o = self._fetch()
        return o if found else default
'''),
("big/itertools.py", '''        if self.stack:
            return True
        if self.i is not None:
            try:
                o = next(self.i)
                self.push(o)
                return True
            except StopIteration:
                self.i = None
        return False
''', '''        found, o = self._fetch()
        if found:
            self.stack.append(o)
        return found
'''),
]
