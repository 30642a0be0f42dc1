"""Classes of types as a user of the library defines them (C28)."""
from . import terms as t
from datashape import coretypes as T

MEASURE, DIMENSION = T.MEASURE, T.DIMENSION


def text(o):
    """name[argument, ...]"""
    args = ', '.join(str(p) if isinstance(p, T.Mono) else t._val(p) for p in o.parameters)
    return type(o).__name__.lower() + ('[%s]' % args if o.parameters else '')


class Plain(T.Unit):
    cls = MEASURE
    __slots__ = ()


class Other(T.Unit):
    cls = MEASURE
    __slots__ = ()


class Nearer(Plain):
    """derived from a class of the user's"""
    __slots__ = ()


class Day(T.Date):
    """derived from a class of the library"""
    __slots__ = ()


class Size(T.Unit):
    cls = MEASURE
    __slots__ = 'n',

    def __init__(self, n=1):
        self.n = n
    __str__ = text


class Heir(Size):
    """derived from a class with parameters, adding nothing"""


class Label(T.Unit):
    cls = MEASURE
    __slots__ = 'text', 'n'

    def __init__(self, text, n=0):
        self.text, self.n = text, n
    __str__ = text


class Box(T.Mono):
    cls = MEASURE
    __slots__ = 'item',

    def __init__(self, item):
        self.item = item
    __str__ = text


class Pair(T.Mono):
    """without named slots: the parameters are those given to the constructor"""
    cls = MEASURE

    def __init__(self, a, b):
        super(Pair, self).__init__(a, b)
    __str__ = text


class Many(T.Mono):
    cls = MEASURE
    __str__ = text


class Ring(T.Unit):
    cls = DIMENSION
    __slots__ = ()


class Block(T.Unit):
    cls = DIMENSION
    __slots__ = 'n', 'order'

    def __init__(self, n, order='C'):
        self.n, self.order = n, order
    __str__ = text


class Stack(T.Mono):
    """a dimension without named slots"""
    cls = DIMENSION
    __str__ = text


CLASSES = [Plain, Other, Nearer, Day, Size, Heir, Label, Box, Pair, Many, Ring, Block, Stack]
t.USER.update((c.__name__, c) for c in CLASSES)


def enter(sym):
    """make them readable in a symbol table"""
    for c in CLASSES:
        n = c.__name__.lower()
        const = sym.dim if c.cls == DIMENSION else sym.dtype
        constr = sym.dim_constr if c.cls == DIMENSION else sym.dtype_constr
        if c in (Plain, Other, Nearer, Day, Ring):
            const[n] = c()
        else:
            constr[n] = c
        if c in (Many, Stack):
            const[n] = c()
