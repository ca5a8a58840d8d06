# a lock around the creation, the cache as a tuple of id and class kept in a WeakKeyDictionary-free attribute
edits = [
("big/boundinnerclass.py", '''        wrapper_bases = [self.cls]

''', '''        with _cache_lock:
            return self._make(outer, name)

    def _make(self, outer, name):
        cached = self._cached(outer)
        if cached is not None:
            return cached

        wrapper_bases = [self.cls]

'''),
("big/boundinnerclass.py", '''        with _cache_lock:
            cached = self._cached(outer)
            if cached is None:
                cached = Wrapper
                outer.__dict__[self._cache_key] = (weakref.ref(outer), cached)
        return cached
''', '''        outer.__dict__[self._cache_key] = (weakref.ref(outer), Wrapper)
        return Wrapper
'''),
]
