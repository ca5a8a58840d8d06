# touch: create exclusively, then set the time; grep: read in pieces, the file closed by try/finally
edits = [
("big/file.py", '''    if os.path.exists(path):
        os.utime(path)
    else:
        # append mode never truncates: if someone else creates
        # the file first, we mustn't destroy what they wrote.
        with open(path, "ab") as f:
            pass
        os.utime(path)
''', '''    try:
        os.utime(path)
        return
    except FileNotFoundError:
        pass
    fd = os.open(path, os.O_WRONLY | os.O_CREAT, 0o666)
    try:
        os.utime(path)
    finally:
        os.close(fd)
'''),
("big/file.py", '''    with f:
        text = f.read()
        split = text.split(separator)
        if enumerate:
            return [t for t in builtins.enumerate(split, 1)
                    if pattern.search(t[1])]
        return [line for line in split if pattern.search(line)]
''', '''    try:
        text = f.read()
    finally:
        f.close()
    result = []
    for line_number, line in builtins.enumerate(text.split(separator), 1):
        if pattern.search(line) is None:
            continue
        result.append((line_number, line) if enumerate else line)
    return result
'''),
("big/file.py", '''    with f:
        contents = f.read()
        split = contents.split(separator)
        if not case_insensitive:
            if enumerate:
                return [t for t in builtins.enumerate(split, 1) if text in t[1]]
            return [line for line in split if text in line]

        lower_contents = contents.lower()
        lower_split = lower_contents.split(separator)
        text = text.lower()
        if enumerate:
            return [(line_number, line) for line_number, (line, lower_line) in builtins.enumerate(zip(split, lower_split), 1) if text in lower_line]
        return [line for line, lower_line in zip(split, lower_split) if text in lower_line]
''', '''    with f:
        pieces = []
        while True:
            piece = f.read(65536)
            if not piece:
                break
            pieces.append(piece)
    contents = separator[:0].join(pieces)
    if case_insensitive:
        text = text.lower()
    result = []
    for line_number, line in builtins.enumerate(contents.split(separator), 1):
        haystack = line.lower() if case_insensitive else line
        if text in haystack:
            result.append((line_number, line) if enumerate else line)
    return result
'''),
]
