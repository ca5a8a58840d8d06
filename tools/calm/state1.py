# the hooks in a helper, try/finally, checks in another order, observers by index over a copy
edits = [
("big/state.py", '''        self.__next = state
        # as of this moment we are "transitioning" to a new state.

        try:
            if self.on_exit:
                on_exit = getattr(self.__state, self.on_exit, None)
                if on_exit is not None:
                    on_exit()
            if self.observers:
                # iterate over a copy, observers may modify the list
                for o in tuple(self.observers):
                    o(self)
        except BaseException:
            # the transition failed.  we're still in the old state,
            # and we're not transitioning to anything anymore.
            self.__next = None
            raise

        self.__state = state
        self.__next = None
        # as of this moment we are "in" our new state, the transition is over.
        # (it's explicitly permitted to start a new state transition from inside enter().)

        if self.on_enter:
            on_enter = getattr(self.__state, self.on_enter, None)
            if on_enter is not None:
                on_enter()
''', '''        self.__next = state
        finished = False
        try:
            self.__call_hook(self.on_exit)
            observers = list(self.observers)
            while observers:
                observers.pop(0)(self)
            finished = True
        finally:
            if finished:
                self.__state = state
            self.__next = None
        self.__call_hook(self.on_enter)

    def __call_hook(self, name):
        if not name:
            return
        try:
            hook = getattr(self.__state, name)
        except AttributeError:
            return
        if hook is None:
            return
        hook()
'''),
("big/state.py", '''        def getter(self):
            i = getattr(self, state_manager)
            return getattr(i, 'state')
        def setter(self, value):
            i = getattr(self, state_manager)
            setattr(i, 'state', value)
        setattr(cls, attribute, property(getter, setter))
        return cls
''', '''        import operator
        get = operator.attrgetter(state_manager + ".state")
        def setter(self, value):
            getattr(self, state_manager).state = value
        setattr(cls, attribute, property(lambda self: get(self), setter))
        return cls
'''),
("big/state.py", '''            i = getattr(self, state_manager)
            method = getattr(i.state, f'{prefix}{fn.__name__}{suffix}')
            return method(*args, **kwargs)
''', '''            current = getattr(self, state_manager).state
            return getattr(current, name)(*args, **kwargs)
'''),
("big/state.py", '''    def dispatch(fn):
        def wrapper''', '''    def dispatch(fn):
        name = ''.join((prefix, fn.__name__, suffix))
        def wrapper'''),
]
