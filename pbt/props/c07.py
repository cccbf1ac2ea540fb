"""serializer.size after any sequence of operations."""
from dataclasses import replace

from .common import *

RULE = 'at least two operations which move a different number of bytes, on a class whose size is not static'
EXAMPLES = dict(quick=6000, thorough=120000)
ASSUMPTIONS = []

OPS = ('pack', 'pack_into', 'pack_write') + METHODS


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        objs = [o] + [g.instance(c) for _ in range(draw(st.integers(1, 3 if big else 2)))]
        # other classes which appear in this one
        roots = [c] + [x for x in classes_of(c).values() if x is not c][:2]
        pool = [(0, x) for x in objs]
        for i, r in enumerate(roots[1:], 1):
            pool.append((i, g.instance(r)))
        n = draw(st.integers(2, 12 if big else 6))
        ops = tuple((draw(st.sampled_from(OPS)), draw(st.integers(0, len(pool) - 1)),
                     draw(st.sampled_from([0, 0, 1, 3, 20]))) for _ in range(n))
        return (tuple(pool), ops)

    cfg = Cfg(depth=3 if big else 2, max_fields=6 if big else 4)

    @st.composite
    def empty(draw):
        """Objects whose size may be 0."""
        g = G(draw, cfg)
        c = hollow(g, g.int(0, 2))
        o = g.instance(c)
        return (c, o, draw(st.integers(0, 63)), *extra(draw, g, c, o))

    @st.composite
    def sole(draw):
        """Classes with a single member, of varying size, which is prepared for each operation."""
        g = G(draw, cfg)
        c = lone(g, g.int(0, 1))
        o = g.instance(c)
        return (c, o, draw(st.integers(0, 63)), *extra(draw, g, c, o))

    usual = mostly(case_strategy(cfg, extra), case_strategy(replace(cfg, **USERS), extra))
    return st.integers(0, 9).flatmap(lambda i: empty() if i >= 8 else sole() if i == 7 else usual)


def lone(g, depth):
    name = f'C{g.count}'
    g.count += 1
    h = g.pick((Dyn('B'), Term(0), Net(), Cons(), Arr('B', None, Dyn('B')), Uni(Dyn('H'), 'utf8'), 'ref', 'ref'))
    if h == 'ref':
        h = Ref(lone(g, depth - 1)) if depth > 0 else Arr('B', None, Tup((Int('B'), Net())))
    for _ in range(g.int(0, 2)):
        default = '' if isinstance(h, Uni) else b''
        h = Cond(h, Sel('const', '', not g.chance(6)), (default,))
    return ClassSpec(name, g.pick(BYTE_ORDERS), (('only', h),))


def hollow(g, depth):
    """A class whose members take no space, other than the last one perhaps."""
    name = f'C{g.count}'
    g.count += 1

    fields = []
    kinds = ('chr', 'arr', 'tup', 'cond', 'cond', 'pad', 'ref')
    if g.chance(2):
        # what takes space depends on a member
        fields.append(('k', Int('B')))
        g.domains[name, 'k'] = ((0, 1, 2), (0, 1, 2))
        kinds += ('some', 'somes') * 3

    def some():
        x = g.pick((Dyn('B'), Term(0), Int('B'), Chr(2), Arr('B', None, Int('B'))))
        sel = Sel('mod', 'k', 2)
        return Cond(x, sel, (None,)) if g.chance(2) else Look(sel, ((0, Chr(0)), (1, x)), None)

    def piece(depth):
        k = g.pick(kinds)
        if k == 'some':
            return some()
        if k == 'somes':
            x = some()
            return Arr(g.int(1, 2), None, Tup((x,)) if g.chance(3) else x)
        if k == 'arr' or depth <= 0 and k in ('tup', 'ref'):
            return Arr(0, None, g.pick((g.simple(), Tup((g.simple(), g.simple())), Dyn('B'))))
        if k == 'tup':
            return Tup(tuple(x for x in (piece(depth - 1) for _ in range(g.int(1, 2))) if not isinstance(x, Pad)) or (Chr(0),))
        if k == 'cond':
            return Cond(g.simple(), Sel('const', '', False), (None,))
        if k == 'ref':
            g.count += 1
            return Ref(ClassSpec(f'C{g.count - 1}', g.pick(BYTE_ORDERS), (('x', Chr(0)), ('y', Arr(0, None, Int('H'))))[g.int(0, 2):]))
        return Pad(0) if k == 'pad' else Chr(0)

    for i in range(g.int(0, 3)):
        h = piece(depth)
        fields.append(('_' if isinstance(h, Pad) else f'z{i}', h))
    k = g.pick(('cons', 'cons', 'uni', 'tup', 'ref', 'cond', 'small', 'small'))
    last = Cons() if k != 'uni' else Uni(Cons(), g.pick(('utf8', 'latin-1')))
    if k == 'tup':
        last = Tup((Chr(0), last)) if g.chance(2) else Tup((last,))
    elif k == 'ref' and depth > 0:
        last = Ref(hollow(g, depth - 1))
    elif k == 'small':
        last = g.pick((Term(0), Dyn('B'), Net(), Arr('B', None, Int('B')), Arr(g.int(0, 1), None, Term(0))))
    elif k == 'cond':
        last = Cond(last, Sel('const', '', g.chance(2)), (b'',))
    return ClassSpec(name, g.pick(BYTE_ORDERS), (*fields, ('last', last)))


def check(case):
    c, o, variant, pool, ops = case
    w = world_of(c, variant)
    roots = [c] + [x for x in classes_of(c).values() if x is not c][:2]
    built = [call('creating an instance', w.build, x) for _, x in pool]
    data = [w.codec.encode(x) for _, x in pool]
    sizes = set()
    for step, (op, i, offset) in enumerate(ops):
        spec = roots[pool[i][0]]
        cls = w.cls(spec.name)
        d = data[i]
        if op == 'pack':
            pack(built[i])
        elif op == 'pack_into':
            pack_into(built[i], len(d), offset)
        elif op == 'pack_write':
            pack_write(built[i], bytes(offset))
        else:
            old = None if op.startswith('create') else call('creating an instance', w.build, pool[i][1])
            prefix = b'' if op.endswith('unpack') else bytes(offset)
            suffix = b'' if is_final(Ref(spec)) else bytes(offset)
            must_unpack(w, cls, op, d, prefix=prefix, suffix=suffix, old=old)
        if cls.serializer.size != len(d):
            raise Violation(f'after step {step}, {op} at {offset} of {len(d)} bytes, '
                            f'{spec.name}.serializer.size is {cls.serializer.size}\n{pool[i][1]!r}')
        if spec is c:
            sizes.add(len(d))
    labels = shape_labels(c) | {f'steps:{min(len(ops), 6)}'} | {op for op, _, _ in ops}
    if 0 in sizes:
        labels.add('size 0')
    if len(sizes) > 1:
        labels.add('nontrivial')
    return labels
