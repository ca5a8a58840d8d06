edits = [
("big/itertools.py", '''        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        raise StopIteration

    def next''', '''        if not self.stack:
            self._fill()
        if not self.stack:
            raise StopIteration
        return self.stack.pop()

    def _fill(self):
        if self.i is None:
            return
        try:
            value = next(self.i)
        except StopIteration:
            self.i = None
        else:
            self.stack.append(value)

    def next'''),
("big/itertools.py", '''        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        return default
''', '''        try:
            return self.__next__()
        except StopIteration:
            return default
'''),
("big/itertools.py", '''        if self.stack:
            return True
        if self.i is not None:
            try:
                o = next(self.i)
                self.push(o)
                return True
            except StopIteration:
                self.i = None
        return False
''', '''        if not self.stack:
            self._fill()
        return len(self.stack) > 0
'''),
]
