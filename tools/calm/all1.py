edits = [
("big/all.py", '''from . import file
__all__.extend(file.__all__)
from .file import *

from . import graph
__all__.extend(graph.__all__)
from .graph import *

from . import heap
__all__.extend(heap.__all__)
from .heap import *
''', '''from . import file, graph, heap

def _splat(module):
    for name in module.__all__:
        __all__.append(name)
        globals()[name] = getattr(module, name)

for _module in (file, graph, heap):
    _splat(_module)
'''),
("big/builtin.py", '''    try:
        float(o)
        return True
    except (TypeError, ValueError):
        return False
''', '''    try:
        float(o)
    except (TypeError, ValueError):
        return False
    else:
        return True
'''),
("big/version.py", '''        return self._tuple == other._tuple
''', '''        return not (self._tuple != other._tuple)
'''),
("big/deprecated.py", '''lines_filter_comment_lines = text.lines_filter_line_comment_lines
''', '''from .text import lines_filter_line_comment_lines as lines_filter_comment_lines
'''),
]
