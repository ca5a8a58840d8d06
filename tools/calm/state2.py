edits = [
("big/state.py", '''        self.__next = state
        # as of this moment we are "transitioning" to a new state.

        try:
            if self.on_exit:
                on_exit = getattr(self.__state, self.on_exit, None)
                if on_exit is not None:
                    on_exit()
            if self.observers:
                # iterate over a copy, observers may modify the list
                for o in tuple(self.observers):
                    o(self)
        except BaseException:
            # the transition failed.  we're still in the old state,
            # and we're not transitioning to anything anymore.
            self.__next = None
            raise

        self.__state = state
        self.__next = None
''', '''        arrived = False
        self.__next = state
        try:
            self.__hook(self.on_exit)
            observers = self.observers[:]
            while observers:
                observers.pop(0)(self)
            arrived = True
        finally:
            if arrived:
                self.__state, self.__next = self.__next, None
            else:
                self.__next = None
'''),
("big/state.py", '''        if self.on_enter:
            on_enter = getattr(self.__state, self.on_enter, None)
            if on_enter is not None:
                on_enter()
''', '''        self.__hook(self.on_enter)

    def __hook(self, name):
        if not name:
            return
        hook = getattr(self.__state, name, None)
        if hook is None:
            return
        hook()
'''),
("big/state.py", '''        def getter(self):
            i = getattr(self, state_manager)
            return getattr(i, 'state')
        def setter(self, value):
            i = getattr(self, state_manager)
            setattr(i, 'state', value)
        setattr(cls, attribute, property(getter, setter))
''', '''        class Accessor:
            def __get__(self, machine, owner=None):
                if machine is None:
                    return self
                return getattr(machine, state_manager).state
            def __set__(self, machine, value):
                getattr(machine, state_manager).state = value
        setattr(cls, attribute, Accessor())
'''),
]
