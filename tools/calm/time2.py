edits = [
("big/time.py", '''        t = datetime.now(timezone.utc)
    elif''', '''        us = time.time_ns() // 1000
        from datetime import timedelta
        t = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    elif'''),
("big/time.py", '''    if want_microseconds:
        f = _timestamp_3339Z_microseconds_format
    else:
        f = _timestamp_3339Z_format

    return t.strftime(f)
''', '''    t = t.replace(tzinfo=None)
    return t.isoformat(timespec="microseconds" if want_microseconds else "seconds") + "Z"
'''),
("big/time.py", '''    if t is None:
        t = datetime.now()
    elif''', '''    if t is None:
        t = datetime.today()
    elif'''),
]
