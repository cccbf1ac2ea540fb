"""Recursive classes."""
from dataclasses import replace

from .c15 import Level, flat
from .c15 import source as levels_source
from .common import *

RULE = 'an instance contains at least three nodes of its own class, or nodes nested at least three deep'
EXAMPLES = dict(quick=4500, thorough=100000)
ASSUMPTIONS = ['trees are finite and at most some dozen nodes deep (Python recursion)']


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        weights = dict(look=2, ahead=2, basic=5, str=3, uni=1, tup=2, arr=2, ref=1, cond=2)
        cfg = Cfg(depth=1, max_fields=3, long_runs=False, long_values=False, cons=False, weights=weights, ahead_ref=False,
                  features=ALL - {'noise'})
        g = G(draw, cfg)
        c = g.cls(name='L0', self_ok=True)
        g.count = max(g.count, 1)
        shape = g.pick(('tree', 'tree', 'deep', 'wide'))
        g.cfg = replace(cfg, **{'tree': dict(nodes=60 if big else 25, levels=6), 'deep': dict(nodes=200 if big else 60, levels=40 if big else 20),
                                'wide': dict(nodes=100 if big else 40, levels=3)}[shape])
        levels = [Level('L0', c.bo, None, False, '', c.fields)]
        kind = g.pick(('one', 'one', 'sub', 'outer'))
        if kind == 'sub':
            bo = c.bo
            for n in range(1, g.pick((2, 2, 3, 4))):
                fields = [(f's{n}{i}', g.simple()) for i in range(g.int(0, 2))]
                if g.chance(3):
                    fields.append((f's{n}9', Arr('B', None, SelfRef())))
                old, bo = bo, g.pick((bo, g.pick(BYTE_ORDERS)))
                levels.append(Level(f'L{n}', bo, n - 1, bo != old, '', tuple(fields)))
        elif kind == 'outer':
            h = g.pick((Ref(c), Arr('B', None, Ref(c)), Tup((Int('B'), Ref(c)))))
            fields = [('a', h), ('b', g.simple())]
            if g.chance(2):
                fields.append(('c', Arr('B', g.pick((None, 'H')), SelfRef())))
            levels = [Level('Outer', g.pick(BYTE_ORDERS), None, False, '', tuple(fields))]
        levels = tuple(levels)
        objs = []
        for i in range(len(levels)):
            f = flat(levels, i)
            for k, v in list(g.domains.items()):
                if k[0] == 'L0':
                    g.domains[f.name, k[1]] = v
            objs.append((g.instance(f), g.instance(f)))
        return (levels, tuple(objs), draw(st.integers(0, 63)), draw(st.sampled_from((0, 1, 3))), draw(st.booleans()),
                draw(st.binary(max_size=5)))

    return build()


def spied_levels(levels):
    x = levels[0]
    c = spied(ClassSpec(x.name, x.bo, x.fields))
    return (replace(x, fields=c.fields),)


def source(case):
    levels, objs, variant, offset, spies, junk = case
    if spies and len(levels) == 1:
        levels = spied_levels(levels)
    return levels_source((levels, objs, variant))


def nodes(o, name):
    n = depth = 0

    def visit(v, d):
        nonlocal n, depth
        if isinstance(v, Obj):
            if v.cls == name:
                n += 1
                d += 1
                depth = max(depth, d)
            for x in v.vals:
                visit(x, d)
        elif isinstance(v, (list, tuple)):
            for x in v:
                visit(x, d)

    visit(o, 0)
    return n, depth


def check(case):
    levels, objs, variant, offset, spies, junk = case
    spies = spies and len(levels) == 1
    if spies:
        levels = spied_levels(levels)
    flats = [flat(levels, i) for i in range(len(levels))]
    text = source(case)
    # classes with the same names exist already
    w = World(define(text, decoys=decoy(text) if offset else ''), *flats)
    w.classes.update({f.name: f for f in flats})
    w.use_decoys(*(o for o, _ in objs))
    labels = {f'levels: {len(levels)}', 'spied' if spies else 'not spied'} | ({'decoys'} if offset else set())
    for f, (o, old) in zip(flats, objs):
        labels |= {x for x in shape_labels(f) if 'SelfRef' in x}
        data = w.codec.encode(o)
        obj = call('creating an instance', w.build, o)
        for how, fn in (('pack', lambda: pack(obj)), ('pack_into', lambda: pack_into(obj, len(data), offset)),
                        ('pack_write', lambda: pack_write(obj, bytes(offset)))):
            w.mod.SPY.clear()
            got = fn()
            if got != data:
                raise Violation(f'{show(o, 2000)}\n{how} gives {show(got, 2000)}\nexpected {show(data, 2000)}')
            if spies:
                check_spies(w, f, o, how, True)
            if obj.serializer.size != len(data):
                raise Violation(f'{show(o, 2000)}\n{how} reports size {obj.serializer.size}, expected {len(data)}')
        want = ('ok', o, len(data))
        for method in METHODS:
            w.mod.SPY.clear()
            agree(w, f, data + junk, want, [method], old=old, prefix=bytes(offset))
            if spies:
                check_spies(w, f, o, method, False, None if method.startswith('create') else old)
        # filled again with another tree
        o2 = call('creating an instance', w.build, old)
        d2 = w.codec.encode(old)
        for d, x in ((data, o), (d2, old), (data, o)):
            call('unpack into an existing instance', o2.unpack, d)
            got = w.lift_obj(f, o2)
            if not same(got, x):
                raise Violation(f'unpack into an existing instance gives {show(got, 2000)}\nexpected {show(x, 2000)}')
            if pack(o2) != d:
                raise Violation(f'{show(x, 2000)}\nfilled by unpack, packs to {show(pack(o2), 2000)}\nexpected {show(d, 2000)}')
        n, depth = max(nodes(o, x.name) for x in [f, *flats] + list(w.classes.values()))
        labels |= {f'nodes: {n if n < 4 else "4-10" if n < 11 else "11+"}', f'nesting: {depth if depth < 4 else "4-9" if depth < 10 else "10+"}'}
        if n >= 3 or depth >= 3:
            labels.add('nontrivial')
        # a truncated tree is rejected
        if data and not is_final(Ref(f)):
            cut = data[:len(data) * (1 + len(junk)) // 7]
            agree(w, f, cut, model_outcome(w, f, cut), METHODS, old=old)
    return labels
