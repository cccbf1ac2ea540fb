"""Serializers used and combined directly."""
from .common import *

RULE = 'at least two serializers are joined, one of them repeated, reordered or not a struct format'
EXAMPLES = dict(quick=8000, thorough=240000)
ASSUMPTIONS = ['pack gets num_values values, as documented',
               '@ is only used for strings of one format code, as documented',
               'native alignment is only checked where every part is a struct format']
ORDERS = ('<', '>', '!', '=')
INNER = ALL - {'ahead', 'cond', 'look', 'self', 'noise', 'condpad', 'pad'}


@node
class Plain:
    """StructSerializer; entries: (text, values)"""
    bo: str
    entries: tuple


@node
class Acts:
    """StructActionSerializer; the first values get these actions."""
    bo: str
    entries: tuple
    acts: tuple


@node
class Of:
    """The serializer of a class."""
    cls: str
    obj: Any
    bo: str


@node
class Null:
    pass


@node
class Leaf:
    i: int


@node
class Add:
    a: Any
    b: Any


@node
class Sum:
    items: tuple


@node
class Mul:
    a: Any
    n: int


@node
class Fold:
    a: Any
    n: int


@node
class Order:
    a: Any
    bo: str


class Refuse(Exception):
    """The parts cannot be joined."""


ACTIONS = {
    'none': lambda x: x, 'pair': lambda x: ('pair', x), 'text': repr, 'list': lambda x: [x], 'type': lambda x: (type(x), x),
}


def act(name, v):
    return v if name is None else ACTIONS[name](v)


# --- what is expected ----------------------------------------------------------
# A serializer is a list of chunks: ['S', byte order, ((text, values, actions), ...)]
# for struct formats which follow each other, or ['C', byte order, leaf number]


def expect(leaves, e, mixed=None):
    if isinstance(e, Leaf):
        x = leaves[e.i]
        if isinstance(x, Null):
            return []
        if isinstance(x, Of):
            return [('C', x.bo, e.i)]
        acts = list(getattr(x, 'acts', ()))
        out = []
        for text, vals in x.entries:
            out.append((text, vals, tuple((acts.pop(0) if acts else None) for _ in vals)))
        return [('S', x.bo, tuple(out))]
    if isinstance(e, Add):
        return glue(expect(leaves, e.a, mixed), expect(leaves, e.b, mixed), mixed)
    if isinstance(e, Sum):
        out = []
        for x in e.items:
            out = glue(out, expect(leaves, x, mixed), mixed)
        return out
    if isinstance(e, Mul):
        (k, bo, entries), = expect(leaves, e.a, mixed)
        return [(k, bo, entries * e.n)] if e.n else []
    if isinstance(e, Fold):
        (k, bo, ((text, vals, acts),)), = expect(leaves, e.a)
        n = count_of(text) * e.n
        vals = tuple((v * e.n)[:n] if text[-1] == 's' else (v * e.n)[:max(n - 1, 0)] for v in vals)
        return [(k, bo, ((f'{n}{text[-1]}', vals, acts),))]
    assert isinstance(e, Order)
    return [(k, e.bo, x) for k, _, x in expect(leaves, e.a, mixed)]


def count_of(text):
    return int(text[:-1]) if text[:-1] else 1


def glue(a, b, mixed=None):
    if mixed is not None and a and b and a[-1][1] != b[0][1]:
        mixed.append(1)
    if a and b and a[-1][0] == b[0][0] == 'S':
        if a[-1][1] != b[0][1]:
            raise Refuse
        return [*a[:-1], ('S', a[-1][1], a[-1][2] + b[0][2]), *b[1:]]
    return a + b


def fmt_of(bo, entries):
    return bo + ''.join(t for t, _, _ in entries)


def make(w, leaves):
    lib = w.lib
    out = []
    for x in leaves:
        if isinstance(x, Null):
            out.append(lib.NullSerializer() if hasattr(lib, 'NullSerializer') else lib.serializers.NullSerializer())
        elif isinstance(x, Of):
            out.append(w.cls(x.cls).serializer)
        else:
            text = ''.join(t for t, _ in x.entries)
            order = lib.ByteOrder(x.bo)
            if isinstance(x, Plain):
                out.append(lib.serializers.StructSerializer(text, order))
            else:
                acts = tuple(lib.serializers.noop_action if a is None else ACTIONS[a] for a in x.acts)
                out.append(lib.serializers.StructActionSerializer(text, order, acts))
    return out


def evaluate(w, made, e, nodes):
    """The serializer of an expression; all of its parts are added to `nodes`."""
    if isinstance(e, Leaf):
        s = made[e.i]
    elif isinstance(e, Add):
        s = evaluate(w, made, e.a, nodes) + evaluate(w, made, e.b, nodes)
    elif isinstance(e, Sum):
        s = sum([evaluate(w, made, x, nodes) for x in e.items], w.lib.serializers.NullSerializer())
    elif isinstance(e, Mul):
        s = evaluate(w, made, e.a, nodes) * e.n
    elif isinstance(e, Fold):
        s = evaluate(w, made, e.a, nodes) @ e.n
    else:
        s = evaluate(w, made, e.a, nodes).with_byte_order(w.lib.ByteOrder(e.bo))
    nodes.append((e, s))
    return s


# --- generation ------------------------------------------------------------------
CODES = 'bBhHiIqQ?efd' + 'bBHI' + 'cspx' + 'lL'


def leaf_entries(g, single=False):
    out = []
    for _ in range(1 if single else g.pick((0, 1, 1, 1, 2, 2, 3))):
        c = g.pick(CODES)
        n = g.pick((None, None, None, 0, 1, 2, 3, 10, 11))
        if c == 'p' and n == 0:
            n = 1  # (struct cannot unpack 0p)
        text = f'{"" if n is None else n}{c}'
        k = 1 if n is None else n
        if c == 'x':
            vals = ()
        elif c == 's':
            vals = (g.bytes_of(k),)
        elif c == 'p':
            vals = (g.bytes_of(max(0, k - 1)),)
        else:
            vals = tuple(leaf_value(g, c) for _ in range(k))
        out.append((text, vals))
    return tuple(out)


def leaf_value(g, c):
    if c == 'c':
        return g.bytes_of(1)
    if c == '?':
        return g.pick((True, False))
    if c in 'efd':
        return g.pick((0.0, 1.5, -2.0, 0.25, float('inf')))
    bits = struct.calcsize('=' + c) * 8
    lo, hi = (0, (1 << bits) - 1) if c.isupper() else (-(1 << bits - 1), (1 << bits - 1) - 1)
    return g.draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 1])))


def strategy(tier):
    deep = 4 if tier == 'thorough' else 3
    cfg = Cfg(features=INNER, depth=1, max_fields=2, min_fields=1, byte_orders=ORDERS, long_runs=False, long_values=False,
              nodes=5, levels=2)

    @st.composite
    def build(draw):
        g = G(draw, cfg)
        native = g.chance(5)
        orders = ('', '@') if native else ORDERS
        main = g.pick(orders)
        classes, leaves = [], []
        for i in range(g.int(1, 5)):
            bo = g.pick(orders) if g.chance(12) else main
            k = g.pick(('plain', 'plain', 'acts', 'acts', 'single', 'null') if native else
                       ('plain', 'plain', 'acts', 'acts', 'single', 'null', 'of', 'of', 'of', 'of'))
            if k == 'null':
                leaves.append(Null())
            elif k == 'of':
                c = g.cls(name=f'K{i}', bo=bo, final=None if g.chance(4) else False)
                classes.append(c)
                leaves.append(Of(c.name, g.instance(c), bo))
            else:
                entries = leaf_entries(g, k == 'single')
                if k == 'acts' or k == 'single' and g.chance(2):
                    n = sum(len(v) for _, v in entries)
                    leaves.append(Acts(bo, entries, tuple(g.pick((None, *ACTIONS)) for _ in range(g.int(0, n)))))
                else:
                    leaves.append(Plain(bo, entries))

        structs = [i for i, x in enumerate(leaves) if isinstance(x, (Plain, Acts))]
        strings = [i for i in structs if len(leaves[i].entries) == 1 and leaves[i].entries[0][0][-1] in 'spx']

        def expr(d, pure=False):
            ks = ['leaf'] * (3 if d < deep else 0) + (['add'] * 4 + ['sum', 'sum', 'order'] if d else [])
            if structs:
                ks += ['mul'] * (2 if d else 0)
            if strings:
                ks += ['fold', 'fold']
            k = g.pick(ks)
            if k == 'leaf':
                return Leaf(g.pick(structs) if pure else g.int(0, len(leaves) - 1))
            if k == 'add':
                return Add(expr(d - 1, pure), expr(d - 1, pure))
            if k == 'sum':
                return Sum(tuple(expr(d - 1, pure) for _ in range(g.int(1 if pure else 0, 4))))
            if k == 'mul':
                return Mul(expr(d - 1, True), g.pick((1, 2, 3, 10) if pure else (0, 1, 2, 3, 10)))
            if k == 'fold':
                i = g.pick(strings)
                return Fold(Leaf(i), g.pick((1, 2, 3, 10, 11) if leaves[i].entries[0][0][-1] == 'p' else (0, 1, 2, 3, 10, 11)))
            return Order(expr(d - 1, pure), g.pick(orders))

        if g.chance(4):
            e = Sum(tuple(Leaf(i) for i in range(len(leaves))))
        else:
            e = expr(deep)
        return tuple(classes), tuple(leaves), e, draw(st.integers(0, 63)), draw(st.binary(max_size=4)), g.pick((0, 0, 1, 7))

    return build()


def source(case):
    return render.module_src(*case[0], variant=case[3]) + f'\n# leaves: {case[1]!r}\n# expression: {case[2]!r}\n'


# --- the check -------------------------------------------------------------------


class Part:
    """What a serializer should do."""

    def __init__(self, w, leaves, chunks):
        self.data = b''
        self.final = False
        self.values = []  # in, of the library
        self.check = []  # out: function or value for each
        for k, bo, x in chunks:
            if k == 'S':
                vals = [v for _, vs, _ in x for v in vs]
                fmt = fmt_of(bo, x)
                part = struct.pack(fmt, *vals)
                back = struct.unpack(fmt, part)
                self.data += part
                self.values += vals
                self.check += [(None, act(a, v)) for a, v in zip([a for _, _, y in x for a in y], back, strict=True)]
            else:
                leaf = leaves[x]
                spec = w.classes[leaf.cls]
                self.data += w.codec.encode(leaf.obj, bo)
                self.values += w.build_values(spec, leaf.obj)
                env = dict(zip([n for n, _ in attrs(spec)], leaf.obj.vals, strict=True))
                for (n, h), v in zip(attrs(spec), leaf.obj.vals, strict=True):
                    self.check.append(((h, env, spec), v))
                self.final = self.final or is_final(Ref(spec))

    def compare(self, w, got, what):
        if len(got) != len(self.check):
            raise Violation(f'{what} gives {got!r}, expected {len(self.check)} values')
        for i, (x, (how, v)) in enumerate(zip(got, self.check)):
            if how:
                h, env, spec = how
                x = w.lift(h, x, env, spec, f'{what}[{i}]')
            if not same(x, v):
                raise Violation(f'{what}[{i}] is {x!r}, expected {v!r}')


def check(case):
    classes, leaves, e, variant, suffix, offset = case
    w = World(define(render.module_src(*classes, variant=variant)), *classes)
    made = make(w, leaves)
    labels = {type(x).__name__ for x in leaves}
    mixed = []
    try:
        chunks = expect(leaves, e, mixed)
    except Refuse:
        chunks = None
    finals = chunks is not None and misplaced(w, leaves, e)
    nodes = []
    if chunks is None or finals:
        try:
            s = evaluate(w, made, e, nodes)
        except (ValueError, TypeError):
            labels.add('refused')
        else:
            why = ('a serializer which has to be the last one is followed by another one' if finals
                   else 'struct formats of different byte orders are joined')
            raise Violation(f'{e!r} gives {s!r}, but {why}')
    elif mixed:
        # the struct formats a class starts or ends with may have to be joined
        try:
            evaluate(w, made, e, nodes)
        except ValueError:
            labels.add('refused')
    else:
        call(f'{e!r}', evaluate, w, made, e, nodes)
    # joining does not change the parts
    nodes += [(Leaf(i), s) for i, s in enumerate(made)]
    parts = [(x, s, Part(w, leaves, expect(leaves, x))) for x, s in nodes]
    for x, s, part in parts:
        use(w, x, s, part, suffix, offset)
    for i, (x, s, p) in enumerate(parts):
        for y, s2, q in parts[:i]:
            if s == s2:
                if not (s2 == s and hash(s) == hash(s2)):
                    raise Violation(f'equality or hash of {x!r} and {y!r}, which are equal')
                for a, b, r in ((s, y, q), (s2, x, p)):
                    what = f'{a!r}, which is equal to the serializer of {b!r},'
                    o = type('Partial', (), {})
                    got = call(f'pack of {what}', a.prepack(o).pack, *r.values)
                    if got != r.data:
                        raise Violation(f'{what} packs to {show(got)}, not {show(r.data)}')
                    r.compare(w, tuple(a.preunpack(o).unpack(r.data)), what)
    again = make(w, leaves)
    for x, s, s2 in zip(leaves, made, again):
        if isinstance(x, (Plain, Acts)) and not (s == s2 and hash(s) == hash(s2)):
            raise Violation(f'two serializers made from {x!r} differ: {s!r} {s2!r}')
    kinds = {type(x).__name__ for x, _ in nodes}
    labels |= kinds
    if len(parts) > len(made) and {'Add', 'Sum'} & kinds and (labels & {'Mul', 'Fold', 'Order', 'Of'}):
        labels.add('nontrivial')
    return labels


def misplaced(w, leaves, e):
    """Is a serializer which has to be the last one followed by another one?"""
    found = False

    def one(e):
        # the parts in order: whether each one is final
        nonlocal found
        if isinstance(e, Leaf):
            x = leaves[e.i]
            return [] if isinstance(x, Null) else [isinstance(x, Of) and is_final(Ref(w.classes[x.cls]))]
        out = []
        for x in {Add: lambda: (e.a, e.b), Sum: lambda: e.items}.get(type(e), lambda: (e.a,))():
            out += one(x)
        if isinstance(e, Mul) and not e.n:
            out = []
        if any(out[:-1]):
            found = True
        return out

    one(e)
    return found


def use(w, x, s, part, suffix, offset):
    """All of the operations of a serializer."""
    lib = w.lib
    if part.final:
        suffix = b''
    data = part.data
    what = f'{x!r} ({type(s).__name__})'
    obj = type('Partial', (), {})

    def size(op):
        if s.size != len(data):
            raise Violation(f'size of {what} after {op} is {s.size}, expected {len(data)}')

    def result(op, got, want=data):
        if got != want:
            raise Violation(f'{op} of {what} gives\n{show(got)}\nexpected\n{show(want)}')

    if s.num_values != len(part.values):
        raise Violation(f'num_values of {what} is {s.num_values}, expected {len(part.values)}')
    if s.is_final() != part.final or (s.get_final() is not None) != part.final:
        raise Violation(f'is_final() of {what} is {s.is_final()}, get_final() is {s.get_final()!r}')
    p = call(f'prepack of {what}', s.prepack, obj())
    got = call(f'pack of {what}', p.pack, *part.values)
    size('pack')
    result('pack', got)
    buf = bytearray(b'\xa5' * (offset + len(data) + 3))
    p = call(f'prepack of {what}', s.prepack, obj())
    call(f'pack_into of {what}', p.pack_into, buf, offset, *part.values)
    size('pack_into')
    result('pack_into', bytes(buf), b'\xa5' * offset + data + b'\xa5' * 3)
    f = io.BytesIO()
    f.write(b'\xa5' * offset)
    p = call(f'prepack of {what}', s.prepack, obj())
    call(f'pack_write of {what}', p.pack_write, f, *part.values)
    size('pack_write')
    result('pack_write', f.getvalue(), b'\xa5' * offset + data)

    for kind in ('bytes', 'bytearray', 'memoryview'):
        p = call(f'preunpack of {what}', s.preunpack, obj())
        got = call(f'unpack of {what}', lambda: tuple(p.unpack(make_buffer(kind, data + suffix))))
        size('unpack')
        part.compare(w, got, f'unpack of {what}')
        p = call(f'preunpack of {what}', s.preunpack, obj())
        got = call(f'unpack_from of {what}',
                   lambda: tuple(p.unpack_from(make_buffer(kind, b'\xa5' * offset + data + suffix), offset)))
        size('unpack_from')
        part.compare(w, got, f'unpack_from of {what}')
    f = io.BytesIO(b'\xa5' * offset + data + suffix)
    f.seek(offset)
    p = call(f'preunpack of {what}', s.preunpack, obj())
    got = call(f'unpack_read of {what}', lambda: tuple(p.unpack_read(f)))
    size('unpack_read')
    part.compare(w, got, f'unpack_read of {what}')
    if f.tell() != offset + len(data):
        raise Violation(f'unpack_read of {what} leaves the stream at {f.tell() - offset}, expected {len(data)}')
    if not part.final and len(data) <= 40:
        for n in range(len(data)):
            cut = data[:n]
            for method, arg in (('unpack', lambda: (cut,)), ('unpack_from', lambda: (cut, 0)),
                                ('unpack_read', lambda: (io.BytesIO(cut),))):
                try:
                    got = tuple(getattr(s.preunpack(obj()), method)(*arg()))
                except (ValueError, struct.error):
                    continue
                raise Violation(f'{method} of {what} accepts {n} of {len(data)} bytes: {got!r}')
