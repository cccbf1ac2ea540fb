"""Basic members against the stdlib struct module."""
import struct

from .common import *

RULE = ('at least three format characters, of which two different ones, or two adjacent members of the same kind '
        'with more than one byte in total')
EXAMPLES = dict(quick=9000, thorough=160000)
ASSUMPTIONS = ['values of one class are packed under native alignment of this machine (x86-64) for the byte orders '
               "'' and '@'"]

BASICS = frozenset('basic pad cust chr pas'.split())
MIXED = BASICS | frozenset('dyn net arr tup uni ref noise'.split())


@st.composite
def exprs(draw, depth=3):
    k = draw(st.sampled_from(['leaf'] * 3 + (['add', 'add', 'mul', 'mat', 'null', 'sum'] if depth else [])))
    if k == 'leaf':
        n = draw(st.integers(0, 4))
        codes = []
        for _ in range(n):
            code = draw(st.sampled_from('xcbB?hHiIlLqQefdsp'))
            count = draw(st.sampled_from(['', '', '', '0', '1', '2', '3', '10', '12']))
            if code == 'p' and count == '0':
                count = ''  # struct itself cannot unpack 0p
            codes.append(count + code)
        return ('leaf', tuple(codes))
    if k == 'null':
        return ('null',)
    if k == 'add':
        return ('add', draw(exprs(depth - 1)), draw(exprs(depth - 1)))
    if k == 'sum':
        return ('sum', tuple(draw(exprs(depth - 1)) for _ in range(draw(st.integers(0, 3)))))
    if k == 'mul':
        return ('mul', draw(exprs(depth - 1)), draw(st.sampled_from([0, 1, 2, 3, 9, 10, 11, 12])))
    code = draw(st.sampled_from(['x', 's', 'p', '2s', '3x', '10s', '2p']))
    return ('mat', code, draw(st.sampled_from([0, 1, 2, 3, 9, 10, 12][code[-1] == 'p':])))


def flat(e):
    """The format characters an expression stands for."""
    k = e[0]
    if k == 'leaf':
        return list(e[1])
    if k == 'null':
        return []
    if k == 'add':
        return flat(e[1]) + flat(e[2])
    if k == 'sum':
        return [x for y in e[1] for x in flat(y)]
    if k == 'mul':
        return flat(e[1]) * e[2]
    code, n = e[1][-1], int(e[1][:-1] or 1)
    return [f'{n * e[2]}{code}']


def build(lib, e, bo):
    k = e[0]
    S = lib.StructSerializer
    order = lib.ByteOrder(bo)
    if k == 'leaf':
        return S(''.join(e[1]), order)
    if k == 'null':
        return lib.NullSerializer()
    if k == 'add':
        return build(lib, e[1], bo) + build(lib, e[2], bo)
    if k == 'sum':
        return sum((build(lib, x, bo) for x in e[1]), lib.NullSerializer())
    if k == 'mul':
        s = build(lib, e[1], bo)
        if type(s) is lib.NullSerializer:
            return s
        return s * e[2]
    return S(e[1], order) @ e[2]


def raw_bytes(draw, n):
    if n <= 24:
        return draw(st.binary(min_size=n, max_size=n))
    chunk = draw(st.binary(min_size=1, max_size=16))
    return (chunk * (n // len(chunk) + 1))[:n]


def class_fmt(c):
    return c.bo + ''.join(basic_fmt(h) for _, h in members(c))


def strategy(tier):
    big = tier == 'thorough'
    n = 24 if big else 12

    def extra(draw, g, c, o):
        return (raw_bytes(draw, struct.calcsize(class_fmt(c))),)

    pure = case_strategy(Cfg(features=BASICS, max_fields=n, depth=0, fit=False, cons=False), extra)
    mixed = case_strategy(Cfg(features=MIXED, max_fields=n, depth=1, fit=False, cons=False, long_values=False,
                              weights=dict(basic=12, pad=4)), lambda *a: (None,))

    @st.composite
    def expr(draw):
        e = draw(exprs(4 if big else 3))
        bo = draw(st.sampled_from(BYTE_ORDERS))
        size = struct.calcsize(bo + ''.join(flat(e)))
        return ('expr', e, bo, raw_bytes(draw, min(size, 4000)))

    return st.one_of(pure, pure, mixed, expr())


def source(case):
    return None if case[0] == 'expr' else source_of(case[0], case[2])


def check(case):
    if case[0] == 'expr':
        return check_expr(*case[1:])
    c, o, variant, raw = case
    w = world_of(c, variant)
    cls = w.cls(c.name)
    obj = call('creating an instance', w.build, o)
    labels = {'class'}
    codes = [basic_fmt(h) for _, h in members(c) if isinstance(h, BASIC)]
    if raw is not None:
        fmt = class_fmt(c)
        vals = [v for v in o.vals]
        want = struct.pack(fmt, *vals)
        if cls.serializer.size != len(want):
            raise Violation(f'{fmt!r}: serializer.size is {cls.serializer.size}, struct says {len(want)}')
        labels.add('only basic members')
    else:
        want = w.codec.encode(o)
        labels.add('basic among other members')
    for how, got in (('pack', pack(obj)), ('pack_into', pack_into(obj, len(want), 1 if c.bo in '<>=!' and c.bo else 0)),
                     ('pack_write', pack_write(obj))):
        if got != want:
            raise Violation(f'{how}() gives {show(got)}\nexpected      {show(want)}')
    buf = want if raw is None else raw
    back, _ = must_unpack(w, cls, 'create_unpack', buf)
    got = w.lift_obj(c, back)
    exp, end = w.codec.decode(c, buf)
    if raw is not None:
        vals = struct.unpack(fmt, raw)
        assert same(exp.vals, vals) and end == len(raw)
    if not same(got, exp):
        raise Violation(f'{show(buf)} unpacks to {got!r}\nexpected {exp!r}')
    if variant & 1:
        back, pos = must_unpack(w, cls, 'create_unpack_read', buf, suffix=b'rest')
        if not same(w.lift_obj(c, back), exp) or pos != len(buf):
            raise Violation(f'create_unpack_read of {show(buf)} gives {w.lift_obj(c, back)!r} and stops at {pos}')
    if len(set(codes)) >= 2 and len(codes) >= 3 or len(codes) > len(set(codes)) and len(want) > 1:
        labels.add('nontrivial')
    if len(codes) > len(set(codes)):
        labels.add('repeated format')
    if sum(isinstance(h, Pad) for _, h in members(c)) > 1:
        labels.add('several pads')
    if len(codes) > 9:
        labels.add('long run')
    labels |= {f'order {c.bo!r}'} | {type(h).__name__ for _, h in members(c)}
    if raw is not None and len(want) > sum(struct.calcsize(x) for x in codes):
        labels.add('alignment bytes')
    return labels


def check_expr(e, bo, raw):
    lib = fresh_library()
    codes = flat(e)
    fmt = bo + ''.join(codes)
    size = struct.calcsize(fmt)
    if size > 4000:
        raise Skip
    n = len(struct.unpack(fmt, bytes(size)))
    s = call(f'building {e!r}', build, lib, e, bo)
    if s.size != size or s.num_values != n:
        raise Violation(f'{e!r} with order {bo!r}: size {s.size}, {s.num_values} values; {fmt!r} has {size}, {n}')
    vals = struct.unpack(fmt, raw)
    want = struct.pack(fmt, *vals)
    got = call('unpack', lambda: tuple(s.unpack(raw)))
    if not same(got, vals):
        raise Violation(f'{e!r} unpacks {show(raw)} to {got!r}, {fmt!r} to {vals!r}')
    got = call('unpack_from', lambda: tuple(s.unpack_from(b'abc' + raw + b'd', 3)))
    if not same(got, vals):
        raise Violation(f'{e!r} unpacks from {show(raw)} {got!r}, {fmt!r} {vals!r}')
    f = io.BytesIO(b'abc' + raw + b'd')
    f.seek(3)
    got = call('unpack_read', lambda: tuple(s.unpack_read(f)))
    if not same(got, vals) or f.tell() != 3 + size:
        raise Violation(f'{e!r} reads from {show(raw)} {got!r} up to {f.tell() - 3}, {fmt!r} {vals!r}')
    got = call('pack', s.pack, *vals)
    if got != want:
        raise Violation(f'{e!r} packs {vals!r} to {show(got)}, {fmt!r} to {show(want)}')
    buf = bytearray(b'\xaa' * (size + 5))
    call('pack_into', s.pack_into, buf, 2, *vals)
    if buf != b'\xaa\xaa' + want + b'\xaa' * 3:
        raise Violation(f'{e!r} packs {vals!r} into {show(buf)}')
    f = io.BytesIO()
    call('pack_write', s.pack_write, f, *vals)
    if f.getvalue() != want:
        raise Violation(f'{e!r} writes {vals!r} as {show(f.getvalue())}')
    labels = {'expression', e[0]}
    if len(set(codes)) >= 2 and len(codes) >= 3 or len(codes) > len(set(codes)) and size > 1:
        labels.add('nontrivial')
    return labels
