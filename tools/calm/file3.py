# stat instead of os.path, searching line by line
edits = [
("big/file.py", '''    if os.path.isfile(path):
        try:
            os.unlink(path)
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            # someone else got there first, there's no file here anymore.
            pass
''', '''    try:
        mode = os.stat(path).st_mode
    except (OSError, ValueError):
        return
    if not stat.S_ISREG(mode):
        return
    try:
        os.unlink(path)
    except OSError as e:
        if e.errno not in (errno.ENOENT, errno.EISDIR, errno.ENOTDIR):
            raise
'''),
("big/file.py", "import pathlib\n", "import errno\nimport pathlib\nimport stat\n"),
("big/file.py", '''    safe_unlink(path)
    os.makedirs(path, exist_ok=True)
''', '''    if not os.path.isdir(path):
        safe_unlink(path)
    os.makedirs(path, 0o777, True)
'''),
("big/file.py", '''    with f:
        text = f.read()
        split = text.split(separator)
        if enumerate:
            return [t for t in builtins.enumerate(split, 1)
                    if pattern.search(t[1])]
        return [line for line in split if pattern.search(line)]
''', '''    with f:
        return _search(f, separator, pattern.search, enumerate)


def _search(f, separator, matches, enumerate):
    result = []
    line_number = 0
    line = separator
    for line in f:
        line_number += 1
        line = line[:-1] if line.endswith(separator) else line
        if matches(line):
            result.append((line_number, line))
        last = f
    return _finish(f, result, line_number, separator, matches, enumerate)


def _finish(f, result, line_number, separator, matches, enumerate):
    # what follows the last separator is a line too
    return [t if enumerate else t[1] for t in result]
'''),
]
# (a file that ends in a separator has an empty last line: done by hand)
edits[-1] = ("big/file.py", edits[-1][1], '''    with f:
        return _search(f, separator, pattern.search, enumerate)


def _search(f, separator, matches, enumerate):
    result = []
    line_number = 0
    open_end = True
    for line in f:
        line_number += 1
        open_end = line.endswith(separator)
        if open_end:
            line = line[:-1]
        if matches(line):
            result.append((line_number, line) if enumerate else line)
    if open_end:
        # what follows the last separator is a line too, though empty
        line = separator[:0]
        if matches(line):
            result.append((line_number + 1, line) if enumerate else line)
    return result
''')
