"""Print specs as the Python source a user of the library would write."""
from __future__ import annotations

from .spec import *

PRELUDE = '''\
import math
import struct
from copy import copy
from operator import attrgetter
from typing import Annotated, Any, ClassVar, Generic, Optional, Self, Tuple, TypeVar, Union

from structured import *
from structured import Serializer

LOG = []
HOOK = []


def hook(where, obj=None):
    if HOOK:
        HOOK[0](where, obj)


class _W:
    def __init__(self, v):
        LOG.append((type(self).__name__, v))
        hook('factory')
        self.raw = v

    def __eq__(self, other):
        return type(other) is type(self) and other.raw == self.raw

    def __hash__(self):
        return hash(self.raw)

    def __repr__(self):
        return f'{type(self).__name__}({self.raw!r})'


class IA(_W):
    def __index__(self):
        return self.raw


class IB(int):
    def __new__(cls, v):
        LOG.append(('IB', v))
        hook('factory')
        self = int.__new__(cls, v)
        self.raw = v
        return self


class FA(_W):
    def __float__(self):
        return self.raw


class FB(float):
    def __new__(cls, v):
        LOG.append(('FB', v))
        hook('factory')
        self = float.__new__(cls, v)
        self.raw = v
        return self


class TA(_W):
    def __bool__(self):
        return self.raw


class TB(TA):
    pass


class SA(bytes):
    def __new__(cls, v):
        LOG.append((cls.__name__, v))
        hook('factory')
        self = bytes.__new__(cls, v)
        self.raw = v
        return self


class SB(SA):
    pass


def _mk(name, base, how):
    if base is _W:
        cls = type(name, (_W,), {'__index__': lambda s: s.raw, '__float__': lambda s: s.raw,
                                 '__bool__': lambda s: s.raw,
                                 '__init__': lambda s, a, b, c: None})

        def make(v):
            LOG.append((name + how, v))
            hook('factory')
            self = cls.__new__(cls)
            self.raw, self.how = v, how
            return self
    else:
        cls = type(name, (base,), {'__new__': lambda c, a, b, d: base.__new__(c, a)})

        def make(v):
            LOG.append((name + how, v))
            hook('factory')
            self = cls(v, 0, 0)
            self.raw, self.how = v, how
            return self
    make.cls = cls
    return make


mkIf, mkFf, mkTf, mkSf = _mk('If', _W, 'f'), _mk('Ff', _W, 'f'), _mk('Tf', _W, 'f'), _mk('Sf', bytes, 'f')
mkIg, mkFg, mkTg, mkSg = _mk('Ig', int, 'g'), _mk('Fg', float, 'g'), _mk('Tg', _W, 'g'), _mk('Sg', bytes, 'g')
If, Ff, Tf, Sf, Ig, Fg, Tg, Sg = (m.cls for m in (mkIf, mkFf, mkTf, mkSf, mkIg, mkFg, mkTg, mkSg))


class XorText(EncoderDecoder):
    @classmethod
    def encode(cls, strng):
        hook('encode')
        return bytes(b ^ 0x55 for b in strng.encode('utf-16-be'))

    @classmethod
    def decode(cls, byts):
        hook('decode')
        return bytes(x ^ 0x55 for x in byts).decode('utf-16-be')


def _twin():
    class XorText(EncoderDecoder):  # of the same name
        encode = lambda strng: XorTextObj(0x33).encode(strng)
        decode = lambda byts: XorTextObj(0x33).decode(byts)
    XorText.__qualname__ = 'XorText'
    return XorText


XorTextTwin = _twin()


class XorTextObj(EncoderDecoder):
    def __init__(self, key):
        self.key = key

    def encode(self, strng):
        hook('encode')
        return bytes(b ^ self.key for b in strng.encode('utf-16-be'))

    def decode(self, byts):
        hook('decode')
        return bytes(x ^ self.key for x in byts).decode('utf-16-be')


def tag_of(v):
    if isinstance(v, Structured):
        return tag_of(getattr(v, v.attrs[0]))
    if isinstance(v, (tuple, list)):
        return tag_of(v[0])
    return v


def const(v):
    return lambda o: v


def tag_from(name):
    return lambda o: tag_of(getattr(o, name))


SPY = []
BOMB = []


class Boom(Exception):
    pass


def spy(fn, cls, field, names):
    def decide(o):
        SPY.append((cls, field, [(n, getattr(o, n)) for n in names if hasattr(o, n)]))
        if BOMB:
            BOMB[0] -= 1
            if not BOMB[0]:
                raise Boom
        hook('decider')
        return fn(o)

    return decide


class Misuse(AttributeError):
    """The library does not do what the documented API of serializers asks for."""


class UsrPlain(Serializer[bytes]):
    """Every value is packed as its length and its bytes xor 0x3C."""

    partial = None
    mode = ''
    bo = ''
    _size = None

    def __init__(self, n, pre, ret, order, rest, spot):
        self.num_values, self.pre, self.ret, self.rest, self.spot = n, pre, ret, rest, spot
        self.orders = (order,) * n

    def __repr__(self):
        return f'{type(self).__name__}({self.num_values}, {self.spot})'

    @property
    def size(self):
        if self._size is None:
            raise Misuse(f'size of {self} read before an operation is completed')
        return self._size

    @size.setter
    def size(self, size):
        self._size = size

    def with_byte_order(self, byte_order):
        new = copy(self)
        new.bo = byte_order.value
        return new

    def get_final(self):
        return self if self.rest else None

    def fmt(self, order):
        return f'{self.bo}H' if order else 'B'

    # packing
    def using(self, mode):
        pass

    def data(self, values):
        if type(values) is not tuple or len(values) != self.num_values:
            raise Misuse(f'{self} is given {values!r}')
        self.using('pack')
        if any(type(v) is not bytes for v in values):
            raise Misuse(f'{self} is given {values!r}')
        self.check(values)
        res = b''.join((b'' if self.rest else struct.pack(self.fmt(o), len(v))) + bytes(b ^ 0x3C for b in v)
                       for o, v in zip(self.orders, values))
        self._size = None
        return res

    def check(self, values):
        pass

    def pack(self, *values):
        data = self.data(values)
        self._size = len(data)
        return data

    def pack_into(self, buffer, offset, *values):
        if type(offset) is not int or offset < 0:
            raise Misuse(f'{self} is given the offset {offset!r}')
        data = self.data(values)
        struct.pack_into(f'{len(data)}s', buffer, offset, data)
        self._size = len(data)

    def pack_write(self, writable, *values):
        data = self.data(values)
        writable.write(data)
        self._size = len(data)

    # unpacking
    def parse(self, take):
        total = 0
        for o in self.orders:
            if self.rest:
                data = take(None)
            else:
                fmt = self.fmt(o)
                head = take(struct.calcsize(fmt))
                if len(head) != struct.calcsize(fmt):
                    raise ValueError('not enough data')
                total += len(head)
                (n,) = struct.unpack(fmt, head)
                data = take(n)
                if len(data) != n:
                    raise ValueError('not enough data')
            total += len(data)
            yield bytes(b ^ 0x3C for b in data)
        self._size = total

    def result(self, take):
        self.using('unpack')
        self._size = None
        values = self.parse(take)
        return values if self.ret == 'gen' else iter(list(values)) if self.ret == 'iter' else \
            list(values) if self.ret == 'list' else tuple(values)

    def unpack(self, buffer):
        return self.unpack_from(buffer, 0)

    def unpack_from(self, buffer, offset=0):
        if type(offset) is not int or offset < 0:
            raise Misuse(f'{self} is given the offset {offset!r}')

        def take(n):
            nonlocal offset
            with memoryview(buffer) as m:
                data = bytes(m[offset:] if n is None else m[offset:offset + n])
            offset += len(data)
            return data

        return self.result(take)

    def unpack_read(self, readable):
        return self.result(lambda n: readable.read() if n is None else readable.read(n))


class UsrJoin(UsrPlain):
    def __add__(self, other):
        if type(other) is UsrJoin and not self.rest and not other.rest and self.bo == other.bo:
            new = copy(self)
            new.orders += other.orders
            new.num_values += other.num_values
            return new
        return super().__add__(other)


class Prepared(UsrPlain):
    """Has to be prepared."""

    modes = 'pack', 'unpack'

    def prepare(self, partial, mode):
        if partial is None:
            raise Misuse(f'{self} is prepared with None')
        new = copy(self) if self.pre == 'new' else self
        new.partial, new.mode, new._size = partial, mode, None
        if self.spot:
            new.look()
        return new

    def look(self):
        SPY.append((self.spot[0], self.spot[1],
                    [(n, getattr(self.partial, n)) for n in self.spot[2] if hasattr(self.partial, n)]))

    def using(self, mode):
        if mode not in self.modes:
            return
        if self.mode != mode:
            raise Misuse(f'{self} is not prepared to {mode}')
        if self.pre == 'new' and self.spot and mode == 'unpack':
            self.look()

    def check(self, values):
        if self.pre == 'new' and self.spot and 'pack' in self.modes:
            inside = list(contents(getattr(self.partial, self.spot[1])))
            for v in values:
                if v not in inside:
                    raise Misuse(f'{self} is given {v!r}, which is not in {self.partial}')


class Usr(Prepared):
    def prepack(self, partial_object):
        return self.prepare(partial_object, 'pack')

    def preunpack(self, partial_object):
        return self.prepare(partial_object, 'unpack')


class UsrPack(Prepared):
    modes = 'pack',

    def prepack(self, partial_object):
        return self.prepare(partial_object, 'pack')


class UsrUnpack(Prepared):
    modes = 'unpack',

    def preunpack(self, partial_object):
        return self.prepare(partial_object, 'unpack')


def contents(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from contents(x)
    else:
        yield v

'''

# bits of a rendering variant
FUTURE, TYPING_TUPLE, PIPE, WRAP, NULL_ALIAS, LAMBDA = 1, 2, 4, 8, 16, 32


def family(base) -> str:
    return {Int: 'I', Flt: 'F', Bool: 'T', Chr: 'S', Pas: 'S'}[type(base)]


def cust_name(h: Cust) -> str:
    return family(h.base) + h.how


def sel_src(sel: Sel, variant: int = 0) -> str:
    f, a = sel.field, sel.arg
    if sel.kind == 'spy':
        return f'spy({sel_src(a[0], variant)}, {a[1]!r}, {f!r}, {a[2]!r})'
    if sel.kind == 'attr':
        return f'lambda o: o.{f}' if variant & LAMBDA else f'attrgetter({f!r})'
    if sel.kind == 'sub':
        return f'lambda o: o.{f}.{a[0]}' if variant & LAMBDA else f'attrgetter({f + "." + a[0]!r})'
    if sel.kind == 'tag':
        # (lambdas in postponed annotations do not see the module's globals)
        return f'tag_from({f!r})'
    if sel.kind == 'map':
        inner = f'o.{f}' if a[0] == 'attr' else sel_src(Sel(a[0], f, a[1]), variant).removeprefix('lambda o: ')
        return f'lambda o: {dict(a[2])!r}[{inner}]'
    if sel.kind == 'const' and isinstance(a, Key):
        return f'const({a!r})'
    return 'lambda o: ' + {
        'mod': f'o.{f} % {a}',
        'and': f'o.{f} & {a}',
        'ge': f'o.{f} >= {a}',
        'lenmod': f'len(o.{f}) % {a}',
        'idx': f'o.{f}[{a}]',
        'const': f'{a!r}',
        'has': f'hasattr(o, {f!r})',
    }[sel.kind]


def hint(h, variant: int = 0) -> str:
    r = lambda x: hint(x, variant)  # noqa: E731
    if isinstance(h, TV):
        return h.name
    if isinstance(h, GRef):
        return f'{h.cls}[{", ".join(map(r, h.args))}]'
    if isinstance(h, Int):
        return INT_NAMES[h.code]
    if isinstance(h, Bool):
        return 'bool8'
    if isinstance(h, Flt):
        return FLT_NAMES[h.code]
    if isinstance(h, Chr):
        return f'char[{h.n}]'
    if isinstance(h, Pas):
        return f'pascal[{h.n}]'
    if isinstance(h, Pad):
        return f'pad[{h.n}]'
    if isinstance(h, Cust):
        fact = f'.with_factory(mk{cust_name(h)})' if h.how in 'fg' else ''
        return f'Annotated[{cust_name(h)}, SerializeAs({r(h.base)}){fact}]'
    if isinstance(h, Dyn):
        return f'char[{code_name(h.code)}]'
    if isinstance(h, Term):
        if h.t == 0 and variant & NULL_ALIAS:
            return 'null_char'
        return f'char[{bytes([h.t])!r}]'
    if isinstance(h, Net):
        return 'char[NET]'
    if isinstance(h, Cons):
        return 'char[math.inf]'
    if isinstance(h, Uni):
        if h.style == Term(0) and h.enc == 'utf8' and variant & NULL_ALIAS:
            return 'null_unicode'
        arg = r(h.style)
        arg = "b'\\0'" if arg == 'null_char' else arg[len('char['):-1]
        enc = {'custom:cls': ', XorText', 'custom:obj': ', XorTextObj(0x55)', 'custom:twin': ', XorTextTwin',
               'utf8': ''}.get(h.enc, f', {h.enc!r}')
        return f'unicode[{arg}{enc}]'
    if isinstance(h, Usr):
        cls = {'none': 'UsrPlain', 'join': 'UsrJoin', 'pack': 'UsrPack', 'unpack': 'UsrUnpack'}.get(h.pre, 'Usr')
        return f'Annotated[bytes, {cls}({h.n}, {("new" if h.pre in ("pack", "unpack") else h.pre)!r}, {h.ret!r}, {h.order}, {h.rest}, {h.spot!r})]'
    if isinstance(h, Tup):
        name = 'Tuple' if variant & TYPING_TUPLE else 'tuple'
        return f'{name}[{", ".join(map(r, h.items))}]'
    if isinstance(h, Arr):
        return f'array[{header(h)}, {r(h.item)}]'
    if isinstance(h, Ref):
        return h.cls.name
    if isinstance(h, SelfRef):
        return 'Self'
    if isinstance(h, Cond):
        d = ''.join(f', {x!r}' for x in h.default)
        return f'Annotated[{"None, " if isinstance(h.inner, Pad) else ""}{r(h.inner)}, Condition({sel_src(h.sel, variant)}{d})]'
    if isinstance(h, (Look, Ahead)):
        m = ', '.join(f'{k!r}: {r(x)}' for k, x in h.alts)
        parts = list(dict.fromkeys([r(x) for _, x in h.alts] + ([r(h.default)] if h.default is not None else [])))
        if len(parts) == 1:
            parts.append('uint8' if parts[0] != 'uint8' else 'int8')
        default = '' if h.default is None else f', {r(h.default)}'
        if isinstance(h, Look):
            dec = f'LookbackDecider({sel_src(h.sel, variant)}, {{{m}}}{default})'
        else:
            dec = f'LookaheadDecider({r(h.ra)}, {sel_src(h.sel, variant)}, {{{m}}}{default})'
        if variant & PIPE and not any(p == 'Self' for p in parts[:2]):
            u = ' | '.join(parts)
        else:
            u = f'Union[{", ".join(parts)}]'
        return f'Annotated[{u}, {dec}]'
    if isinstance(h, Noise):
        return h.text
    raise AssertionError(h)


def header(h: Arr) -> str:
    count = str(h.count) if isinstance(h.count, int) else code_name(h.count)
    return f'Header[{count}{", " + code_name(h.size) if h.size else ""}]'


def code_name(code):
    return code.name if isinstance(code, TV) else INT_NAMES[code]


PYTYPES = {Int: 'int', Bool: 'bool', Flt: 'float', Chr: 'bytes', Pas: 'bytes', Dyn: 'bytes',
           Term: 'bytes', Net: 'bytes', Cons: 'bytes', Uni: 'str', Arr: 'list'}


def field_hint(h, variant: int) -> str:
    text = hint(h, variant)
    if variant & WRAP and type(h) in PYTYPES:
        return f'Annotated[{PYTYPES[type(h)]}, {text}]'
    return text


def body(fields, variant: int) -> str:
    lines = []
    for name, h in fields:
        lines.append(f'    {name}: {field_hint(h, variant)}\n')
    return ''.join(lines) or '    pass\n'


def class_src(c: ClassSpec, variant: int = 0, bases: str = 'Structured', extra: str = '') -> str:
    bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
    return f'class {c.name}({bases}{bo}{extra}):\n{body(c.fields, variant)}\n\n'


def prelude(variant: int = 0) -> str:
    return ('from __future__ import annotations\n' if variant & FUTURE else '') + PRELUDE


def module_src(*roots: ClassSpec, variant: int = 0) -> str:
    classes: dict[str, ClassSpec] = {}
    for r in roots:
        classes.update(classes_of(r))
    return prelude(variant) + '\n' + ''.join(class_src(c, variant) for c in classes.values())
