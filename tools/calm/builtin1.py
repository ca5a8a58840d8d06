# shared conversions; the defaults looked at before converting
edits = [
("big/builtin.py", '''    try:
        float(o)
        return True
    except (TypeError, ValueError):
        return False
''', '''    return _converts(float, o)
'''),
("big/builtin.py", '''    try:
        int(o)
        return True
    except (TypeError, ValueError):
        return False
''', '''    return _converts(int, o)
'''),
("big/builtin.py", '''@export
def try_float(o):
''', '''def _converts(to, o):
    converted = True
    try:
        to(o)
    except TypeError:
        converted = False
    except ValueError:
        converted = False
    return converted

@export
def try_float(o):
'''),
("big/builtin.py", '''        return float(o)
    except (TypeError, ValueError):
        if default != _sentinel:
            return default
        return o
''', '''        result = float(o)
    except (TypeError, ValueError):
        result = o if default is _sentinel else default
    return result
'''),
("big/builtin.py", '''            raise NotImplementedError(f"pure virtual method {fn.__name__} called")
''', '''            message = "pure virtual method {} called".format(fn.__name__)
            raise NotImplementedError(message)
'''),
]
