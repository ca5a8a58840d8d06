# the bases are found first, and the class is made with them
edits = [
("big/boundinnerclass.py", '''        multiply_inherit = False
        for base in self.cls.__bases__:''', '''        for base in self.cls.__bases__:'''),
("big/boundinnerclass.py", '''                        inherit_from = bound_inner_base
                        multiply_inherit = True
''', '''                        inherit_from = bound_inner_base
'''),
("big/boundinnerclass.py", '''        Wrapper = self._wrap(outer, wrapper_bases[0])
        Wrapper.__name__ = name

        # Assigning to __bases__ is startling, but it's the only way to get
        # this code working simultaneously in both Python 2 and Python 3.
        if multiply_inherit:
            Wrapper.__bases__ = tuple(wrapper_bases)
''', '''        if wrapper_bases[1:] == list(self.cls.__bases__):
            # nothing bound among them
            del wrapper_bases[1:]
        Wrapper = self._wrap(outer, tuple(wrapper_bases))
'''),
("big/boundinnerclass.py", '''    def _wrap(self, outer, base):
        wrapper_self = self
        assert outer is not None
        outer_weakref = weakref.ref(outer)
        class Wrapper(base):
''', '''    def _wrap(self, outer, bases):
        wrapper_self = self
        assert outer is not None
        outer_weakref = weakref.ref(outer)
        class Wrapper(*bases):
'''),
("big/boundinnerclass.py", '''    def _wrap(self, outer, base):
        class Wrapper(base):
            pass
''', '''    def _wrap(self, outer, bases):
        class Wrapper(*bases):
            pass
'''),
]
