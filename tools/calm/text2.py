# split_delimiters: always look at the rest of the text again after a token; strip comments by position
edits = [
("big/text.py", '''                # and push
                push((current, open))
                open = delimiter
                current = action
                continue
''', '''                # and push
                push((current, open))
                open = delimiter
                current = action
                i = multisplit(text[consumed:], all_tokens, keep=AS_PAIRS, separate=True)
                break
'''),
("big/text.py", '''                # and pop
                current, open = pop()
            elif''', '''                # and pop
                current, open = pop()
                resplit = True
            elif'''),
("big/text.py", '''            # exhaust i, draining it to line_comment_segments
            for triplet in i:
                line_comment_segments.extend(triplet)
            assert line_comment_segments
            line = info.clip_trailing(line, empty_join(line_comment_segments))
''', '''            rest = list(i)
            for triplet in rest:
                line_comment_segments += triplet
            comment = empty_join(line_comment_segments)
            line = info.clip_trailing(line, comment)
'''),
("big/text.py", '''@functools.lru_cache(maxsize=None)
def _delimiters_to_state_and_tokens''', '''def _delimiters_to_state_and_tokens'''),
("big/text.py", '''    for info, line in li:
        if match(line):
            continue
        yield (info, line)
''', '''    yield from (t for t in li if not match(t[1]))
'''),
("big/text.py", '''    for t in li:
        if not t[1]:
            continue
        yield t
''', '''    return filter(lambda t: t[1], li)
'''),
]
