edits = [
("big/time.py", '''    if t is None:
        t = datetime.now()
    elif''', '''    if t is None:
        t = datetime.now(timezone.utc).astimezone().replace(tzinfo=None)
    elif'''),
("big/time.py", '''        t = datetime.now(timezone.utc)
    elif''', '''        t = datetime.fromtimestamp(time.time(), timezone.utc)
    elif'''),
("big/time.py", '''    s = t.strftime(_timestamp_human_format)
    if want_microseconds:
        s = f"{s}.{t.microsecond:06d}"
    return s
''', '''    if want_microseconds:
        return t.strftime(_timestamp_human_format + ".%f")
    return t.strftime(_timestamp_human_format)
'''),
]
