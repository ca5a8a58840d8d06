# pathlib, exist_ok=True, file descriptors
edits = [
("big/file.py", '''    if os.path.exists(path):
        os.utime(path)
    else:
        # append mode never truncates: if someone else creates
        # the file first, we mustn't destroy what they wrote.
        with open(path, "ab") as f:
            pass
        os.utime(path)
''', '''    if not os.path.lexists(path) or not os.path.exists(path):
        # (pathlib's touch hides a failing utime: it is not the same)
        pathlib.Path(os.fsdecode(path)).open("ab").close()
    os.utime(path, None)
'''),
("big/file.py", '''    if os.path.isfile(path):
        try:
            os.unlink(path)
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            # someone else got there first, there's no file here anymore.
            pass
''', '''    if not os.path.isfile(path):
        return
    with contextlib.suppress(FileNotFoundError, IsADirectoryError, NotADirectoryError):
        os.remove(path)
'''),
("big/file.py", '''    safe_unlink(path)
    os.makedirs(path, exist_ok=True)
''', '''    safe_unlink(path)
    pathlib.Path(os.fsdecode(path)).mkdir(parents=True, exist_ok=True)
'''),
("big/file.py", "import pathlib\n", "import contextlib\nimport pathlib\n"),
("big/file.py", '''    def __init__(self, path):
        self.path = path
        self.cwds = []
    def __enter__(self):
        cwd = os.getcwd()
        os.chdir(self.path)
        self.cwds.append(cwd)
    def __exit__(self, exc_type, exc_value, traceback):
        os.chdir(self.cwds.pop())
''', '''    def __init__(self, path):
        self.path = path
        self.stack = ()
    def __enter__(self):
        before = os.getcwd()
        os.chdir(self.path)
        self.stack = (before, self.stack)
    def __exit__(self, exc_type, exc_value, traceback):
        before, self.stack = self.stack
        os.chdir(before)
        return False
'''),
]
