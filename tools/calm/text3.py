# the modifier functions pull with next() and share helpers; containing and grep as filters
edits = [
("big/text.py", '''    if invert:
        for t in li:
            if not s in t[1]:
                yield t
        return

    for t in li:
        if s in t[1]:
            yield t
''', '''    invert = bool(invert)
    for t in li:
        if (s in t[1]) != invert:
            yield t
'''),
("big/text.py", '''    if invert:
        for t in li:
            info, line = t
            m = search(line)
            if not m:
                setattr(info, match, None)
                yield t
        return

    for t in li:
        info, line = t
        m = search(line)
        if m:
            setattr(info, match, m)
            yield t
''', '''    li = iter(li)
    while True:
        try:
            info, line = t = next(li)
        except StopIteration:
            return
        m = search(line)
        if invert:
            if m is not None:
                continue
        elif m is None:
            continue
        setattr(info, match, m)
        yield t
'''),
("big/text.py", '''    if separators is None:
        for info, line in li:
            rstripped = line.rstrip()
            if rstripped != line:
                line = info.clip_trailing(line, -len(rstripped))
            yield (info, line)
        return

    for info, line in li:
        rstripped = multistrip(line, separators, left=False, right=True)
        if rstripped != line:
            line = info.clip_trailing(line, -len(rstripped))
        yield (info, rstripped)
''', '''    def strip(line):
        if separators is None:
            return line.rstrip()
        return multistrip(line, separators, left=False, right=True)

    for info, line in li:
        rstripped = strip(line)
        if len(rstripped) < len(line):
            line = info.clip_trailing(line, line[len(rstripped):])
        yield info, line
'''),
("big/text.py", '''        if line:
            lstripped = line.lstrip()
            if not lstripped:
                # line was all whitespace.
                trailing = line
            else:
                if len(line) != len(lstripped):
                    # we stripped leading whitespace, preserve it
                    leading = line[:len(line) - len(lstripped)]

                rstripped = lstripped.rstrip()
                if len(lstripped) != len(rstripped):
                    trailing = lstripped[len(rstripped):]

            if leading:
                line = info.clip_leading(line, leading)

            if trailing:
                line = info.clip_trailing(line, trailing)
''', '''        if line:
            end = len(line.rstrip())
            trailing = line[end:]
            if end:
                kept = line[:end]
                leading = kept[:end - len(kept.lstrip())]
            if trailing:
                line = info.clip_trailing(line, trailing)
            if leading:
                line = info.clip_leading(line, leading)
'''),
("big/text.py", '''    lines.sort(key=fn, reverse=reverse)
    yield from iter(lines)
''', '''    lines.sort(key=fn, reverse=reverse)
    lines.reverse()
    while lines:
        yield lines.pop()
'''),
]
