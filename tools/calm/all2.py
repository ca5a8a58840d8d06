# big.all collecting names in a helper
edits = [
("big/all.py", '''from . import boundinnerclass
__all__.extend(boundinnerclass.__all__)
from .boundinnerclass import *
''', '''def _publish(module):
    for name in module.__all__:
        globals()[name] = getattr(module, name)
    __all__.extend(module.__all__)

from . import boundinnerclass
_publish(boundinnerclass)
'''),
("big/all.py", '''__all__.extend(graph.__all__)
from .graph import *
''', '''_publish(graph)
'''),
("big/all.py", '''from . import itertools
__all__.extend(itertools.__all__)
from .itertools import *

from . import log
__all__.extend(log.__all__)
from .log import *
''', '''from . import log
_publish(log)

from . import itertools
_publish(itertools)
'''),
]
