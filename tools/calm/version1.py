# the ordering tuple made on first use and kept; equality by identity first; text joined from a generator
edits = [
("big/version.py", '''        if epoch is None:
            epoch = 0
        release_level = _release_level_to_integer[release_level]
        if serial is None:
            serial = 0
        if dev is None:
            dev = math.inf
        if post is None:
            post = -1
        self._tuple = (epoch, release, release_level, serial, post, dev, compare_local)
''', '''        self._compare_local = compare_local
        self._key = None

    @property
    def _tuple(self):
        key = self._key
        if key is None:
            key = (
                self._epoch or 0,
                self._release,
                _release_level_to_integer[self._release_level],
                self._serial or 0,
                -1 if self._post is None else self._post,
                math.inf if self._dev is None else self._dev,
                self._compare_local,
                )
            self._key = key
        return key
'''),
("big/version.py", '''        if not isinstance(other, Version):
            return False
        return self._tuple == other._tuple
''', '''        if not isinstance(other, Version):
            return False
        return (self is other) or (self._tuple == other._tuple)
'''),
("big/version.py", '''        return (
            hash(self._epoch)
            ^ hash(self._release)
            ^ hash(self._release_level)
            ^ hash(self._serial)
            ^ hash(self._post)
            ^ hash(self._dev)
            ^ hash(self._local)
            )
''', '''        h = 0
        for field in (self._epoch, self._release, self._release_level, self._serial, self._post, self._dev, self._local):
            h ^= hash(field)
        return h
'''),
]
