"""Plain-data descriptions of Structured classes.

Everything is a NamedTuple-like frozen dataclass whose repr can be evaluated in
this module's namespace, so that a case is data which can be stored, replayed
and shrunk.
"""
from __future__ import annotations

from dataclasses import dataclass, fields, is_dataclass
from typing import Any, Optional


def node(cls):
    cls = dataclass(frozen=True, repr=False)(cls)

    def __repr__(self):
        vals = [getattr(self, f.name) for f in fields(self)]
        return f'{type(self).__name__}({", ".join(map(repr, vals))})'

    cls.__repr__ = __repr__
    return cls


# --- basic hints (one struct format each) ---------------------------------
@node
class Int:
    code: str  # one of bBhHiIqQ


@node
class Bool:
    pass


@node
class Flt:
    code: str  # e f d


@node
class Chr:
    n: int


@node
class Pas:
    n: int


@node
class Pad:
    n: int


@node
class Cust:
    """A custom type serialized as `base`. how: A or B (two types, converted by
    their initializer), f or g (two factories)."""
    base: Any
    how: str


BASIC = (Int, Bool, Flt, Chr, Pas, Pad, Cust)


class Key(int):
    """A key of a union's decider which is of a custom type."""

    def __repr__(self):
        return f'{type(self).__name__}({int(self)})'


class IA(Key):
    pass


class IB(Key):
    pass


class mkIf(Key):
    pass


KEY_TYPES = {'A': IA, 'B': IB, 'f': mkIf}


# --- strings ---------------------------------------------------------------
@node
class Dyn:
    code: str  # BHIQ


@node
class Term:
    t: int  # terminator byte


@node
class Net:
    pass


@node
class Cons:
    pass


@node
class Uni:
    style: Any  # Chr, Dyn, Term, Net, Cons
    enc: str  # codec name, or custom:cls / custom:obj


@node
class Usr:
    """A serializer defined by the user, see render.PRELUDE.  Only in tuples n
    may differ from 1."""
    n: int  # number of values
    pre: str  # none, self, new (what prepack and preunpack return) or join
    ret: str  # what unpacking returns: tuple, list, gen, iter
    order: bool  # has a byte order
    rest: bool  # consumes everything
    spot: Any = None  # (class, field, attrs) for spies


# --- containers --------------------------------------------------------------
@node
class Tup:
    items: tuple


@node
class Arr:
    count: Any  # int or code
    size: Optional[str]  # None or code
    item: Any


@node
class Ref:
    cls: Any  # ClassSpec


@node
class SelfRef:
    pass


@node
class Sel:
    """What a decider or condition computes from an object.

    kinds: attr (o.f), mod (o.f % arg), and (o.f & arg), ge (o.f >= arg),
    lenmod (len(o.f) % arg), sub (o.f.arg), idx (o.f[arg]), const (arg),
    has (hasattr(o, f)), tag (the value o.f starts with), spy (records what can be
    seen of the object; arg is (Sel, class, attrs)), map (a value for each result of
    the selector (arg[0], f, arg[1]); arg[2] is ((result, value), ...))
    """
    kind: str
    field: str
    arg: Any = None


@node
class Cond:
    inner: Any
    sel: Sel
    default: tuple


@node
class Look:
    sel: Sel
    alts: tuple  # ((key, hint), ...)
    default: Any  # hint or None


@node
class Ahead:
    ra: Any  # hint read ahead
    sel: Sel  # write decider
    alts: tuple
    default: Any


@node
class Noise:
    """An annotation that is not serialized."""
    text: str


@node
class ClassSpec:
    name: str
    bo: str  # a ByteOrder value
    fields: tuple  # ((name, hint), ...); pads may be named _


@node
class TV:
    """A type variable: a hint, or the code of an integer type."""
    name: str


@node
class GRef:
    """A generic class (by name) with type arguments, used as a hint."""
    cls: str
    args: tuple


# --- values -------------------------------------------------------------------
@node
class Obj:
    """An instance: class name and one value per serialized member."""
    cls: str
    vals: tuple


@node
class Raw:
    """A Python object which is given to the library as it is."""
    v: Any


BYTE_ORDERS = ('', '<', '>', '=', '@', '!')
INT_RANGES = {
    c: (0, 256 ** n - 1) if c.isupper() else (-(256 ** n) // 2, 256 ** n // 2 - 1)
    for c, n in zip('bBhHiIqQ', (1, 1, 2, 2, 4, 4, 8, 8))
}
INT_NAMES = dict(zip('bBhHiIqQ', ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64')))
FLT_NAMES = {'e': 'float16', 'f': 'float32', 'd': 'float64'}


def basic_fmt(h) -> str:
    if isinstance(h, (Int, Flt)):
        return h.code
    if isinstance(h, Bool):
        return '?'
    if isinstance(h, Chr):
        return f'{h.n}s'
    if isinstance(h, Pas):
        return f'{h.n}p'
    if isinstance(h, Pad):
        return f'{h.n}x'
    return basic_fmt(h.base)


def is_pad(h) -> bool:
    return isinstance(h, Pad) or (isinstance(h, Cond) and is_pad(h.inner))


def width(h) -> int:
    """How many values of a tuple belong to one of its elements."""
    if isinstance(h, Usr):
        return h.n
    if isinstance(h, Cond):
        return width(h.inner)
    return int(not isinstance(h, Pad))


def split(items, values):
    """Pair the elements of a tuple hint with their values: (hint, value), where
    the value is a tuple unless the width is 1.  Surplus values have no hint."""
    i = 0
    out = []
    for h in items:
        n = width(h)
        if n == 1:
            if i < len(values):
                out.append((h, values[i]))
        else:
            out.append((h, tuple(values[i:i + n])))
        i += n
    return out + [(None, v) for v in values[i:]]


def members(cls: ClassSpec):
    """(name, hint) of everything serialized, pads included."""
    return [(n, h) for n, h in cls.fields if not isinstance(h, Noise)]


def attrs(cls: ClassSpec):
    return [(n, h) for n, h in members(cls) if not is_pad(h)]


def children(h):
    if isinstance(h, Cust):
        yield h.base
    elif isinstance(h, Uni):
        yield h.style
    elif isinstance(h, Tup):
        yield from h.items
    elif isinstance(h, Arr):
        yield h.item
    elif isinstance(h, Ref):
        for _, x in h.cls.fields:
            yield x
    elif isinstance(h, Cond):
        yield h.inner
    elif isinstance(h, (Look, Ahead)):
        for _, x in h.alts:
            yield x
        if h.default is not None:
            yield h.default


def bare(ra):
    """What is read ahead, without unions and conditions around it (which all
    come to the same hint)."""
    while True:
        if isinstance(ra, Cond):
            ra = ra.inner
        elif isinstance(ra, Look):
            ra = ra.alts[-1][1]
        elif isinstance(ra, Ahead):
            ra = ra.ra
        else:
            return ra


def walk(h):
    yield h
    for c in children(h):
        yield from walk(c)


def walk_class(c: ClassSpec):
    for _, h in c.fields:
        yield from walk(h)


def contains(h, kinds) -> bool:
    return any(isinstance(x, kinds) for x in walk(h))


def is_final(h) -> bool:
    """Does the hint contain a consume-everything string?"""
    return any(isinstance(x, Cons) or isinstance(x, Usr) and x.rest for x in walk(h))


def classes_of(c: ClassSpec):
    """All classes used by c, dependencies first, c last."""
    out: dict[str, ClassSpec] = {}

    def visit(cls):
        for _, h in cls.fields:
            for x in walk_shallow(h):
                if isinstance(x, Ref):
                    visit(x.cls)
        if cls.name not in out:
            out[cls.name] = cls

    visit(c)
    return out


def walk_shallow(h):
    """walk, without entering nested classes."""
    yield h
    if not isinstance(h, Ref):
        for c in children(h):
            yield from walk_shallow(c)


def depth(h) -> int:
    return 1 + max((depth(c) for c in children(h)), default=0)


def parse(text: str):
    """Inverse of repr."""
    return eval(text, {**globals(), 'inf': float('inf'), 'nan': float('nan')})
