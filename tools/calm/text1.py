# multisplit yields straight from lists, no pattern cache, quotes by an inner helper
edits = [
("big/text.py", '''    buffer = []

    quote = state
    # print(f"    >> {state=}")
''', '''    buffer = []

    def check(text, quote):
        if quote and text and (quote not in multiline_quotes):
            if (len(text.splitlines()) > 1) or (len( (text[-1:] + laden).splitlines()) > 1):
                raise SyntaxError("unterminated quoted string, {s!r}")

    quote = state
'''),
("big/text.py", '''        text = empty.join(buffer)
        if quote or text:
            if quote and text and (quote not in multiline_quotes):
                # see treatise above
                if (len(text.splitlines()) > 1) or (len( (text[-1:] + laden).splitlines()) > 1):
                    raise SyntaxError("unterminated quoted string, {s!r}")
            if state:
                state = None
                # print(f"    <<1 empty, {text=}, {quote=}")
                yield (empty, text, quote)
            else:
                # print(f"    <<2 {quote=}, {text=}, {quote=}")
                yield (quote, text, quote)
        buffer.clear()
        quote = empty
''', '''        text = empty.join(buffer)
        buffer = []
        closing, quote = quote, empty
        check(text, closing)
        opening = empty if state else closing
        state = None
        yield (opening, text, closing)
'''),
("big/text.py", '''        text = empty.join(buffer)
        if text or quote:
            if quote and text and (quote not in multiline_quotes):
                # see treatise above
                if (len(text.splitlines()) > 1) or (len( (text[-1:] + laden).splitlines()) > 1):
                    raise SyntaxError("unterminated quoted string, {s!r}")
            if state:
                state = None
                quote = empty
            # print(f"    <<3 {quote=}, {text=}, empty")
            yield (quote, text, empty)
''', '''        text = empty.join(buffer)
        if not (text or quote):
            return
        check(text, quote)
        yield (empty if state else quote, text, empty)
'''),
("big/text.py", '''    if not keep:
        ##
        ##''', '''    if not keep:
        ##
        ##''') if False else
("big/text.py", '''    previous = None
    while l:
        o = l.pop()
        if previous is None:
            previous = o
            continue
        if keep == AS_PAIRS:
            yield (previous, o)
        else:
            yield previous + o
        previous = None
''', '''    l.reverse()
    for index in range(0, len(l) - 1, 2):
        first, second = l[index], l[index + 1]
        if keep == AS_PAIRS:
            yield (first, second)
        else:
            yield first + second
'''),
("big/text.py", '''    try:
        hash(separators)
    except TypeError:
        separators = tuple(separators)
    return __separators_to_re(separators''', '''    separators = tuple(separators)
    return __separators_to_re(separators'''),
("big/text.py", '''        if self.is_pairs and end:
            original_line = line + end
        else:
            original_line = line
        return_value = (LineInfo(self, original_line, self.line_number, self.column_number, end=end), line)
        self.line_number += 1
        return return_value
''', '''        number = self.line_number
        self.line_number = number + 1
        original_line = (line + end) if end else line
        return LineInfo(self, original_line, number, self.column_number, end=end), line
'''),
("big/text.py", '''        if blank_lines:
            # print(f"BL+ {blank_lines=}")
            for pair in blank_lines:
                pair[0].indent = indent # don't overwrite "info" or "line"! derp!
                yield pair
            blank_lines.clear()
''', '''        pending, blank_lines = blank_lines, []
        for blank_info, blank_line in pending:
            blank_info.indent = indent
            yield (blank_info, blank_line)
'''),
("big/text.py", '''    # flush trailing blank lines
    if blank_lines:
        for pair in blank_lines:
            info, line = pair
            info.indent = 0
            yield pair
''', '''    while blank_lines:
        pair = blank_lines.pop(0)
        pair[0].indent = 0
        yield pair
'''),
("big/text.py", '''    lines = list(li)
    if key == None:
        fn = lambda t: t[1]
    else:
        fn = lambda t: key(t)
    lines.sort(key=fn, reverse=reverse)
    yield from iter(lines)
''', '''    if key is None:
        def key(t):
            return t[1]
    for t in sorted(li, key=key, reverse=reverse):
        yield t
'''),
]
