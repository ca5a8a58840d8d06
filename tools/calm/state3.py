# the transition in small methods
edits = [
("big/state.py", '''        try:
            if self.on_exit:
                on_exit = getattr(self.__state, self.on_exit, None)
                if on_exit is not None:
                    on_exit()
            if self.observers:
                # iterate over a copy, observers may modify the list
                for o in tuple(self.observers):
                    o(self)
        except BaseException:
            # the transition failed.  we're still in the old state,
            # and we're not transitioning to anything anymore.
            self.__next = None
            raise

        self.__state = state
        self.__next = None
        # as of this moment we are "in" our new state, the transition is over.
        # (it's explicitly permitted to start a new state transition from inside enter().)

        if self.on_enter:
            on_enter = getattr(self.__state, self.on_enter, None)
            if on_enter is not None:
                on_enter()
''', '''        arrived = False
        try:
            self.__hook(self.on_exit)
            for observer in list(self.observers or ()):
                observer(self)
            arrived = True
        finally:
            if arrived:
                self.__state = state
            self.__next = None

        self.__hook(self.on_enter)

    def __hook(self, name):
        if not name:
            return
        hook = getattr(self.__state, name, None)
        if hook is None:
            return
        hook()
'''),
]
