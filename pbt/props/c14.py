"""Conditional members."""
from dataclasses import replace

from .common import *

RULE = ('some condition of an instance holds and some condition (of this or of another instance of the case) does not, '
        'and the class has another member')
EXAMPLES = dict(quick=6700, thorough=140000)
ASSUMPTIONS = ['a value which is skipped is not looked at by another decider or condition unless it is the default']


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (g.instance(c), g.instance(c), draw(st.sampled_from([0, 1, 3])), draw(st.binary(max_size=9)),
                draw(st.booleans()), draw(st.sampled_from(BUFFERS)))

    weights = dict(look=2, ahead=1, basic=6, str=4, uni=2, tup=3, arr=3, ref=3, cond=14)
    cfg = Cfg(depth=3 if big else 2, max_fields=6 if big else 5, long_runs=False, weights=weights, junk=True)
    few = replace(cfg, max_fields=3, min_fields=1)
    return mostly(st.one_of(case_strategy(cfg, extra), case_strategy(few, extra), case_strategy(replace(few, depth=3), extra)),
                  case_strategy(replace(few, **USERS), extra))


def source(case):
    c, o, variant, second, old, offset, junk, spies, kind = case
    return source_of(spied(c) if spies else c, variant)


def outcomes(w, c, o):
    """What the conditions in the instances of o amount to."""
    out = set()
    for name, objs in instances(w, o).items():
        spec = w.classes[name]
        for x in objs:
            env = dict(zip([n for n, _ in attrs(spec)], x.vals))
            for _, h in spec.fields:
                for y in walk_shallow(h):
                    if isinstance(y, Cond):
                        inner = 'pad' if is_pad(y) else type(y.inner).__name__
                        out.add((inner, bool(model.select(y.sel, env)), y.sel.kind))
    return out


def check(case):
    c, o, variant, second, old, offset, junk, spies, kind = case
    if spies:
        c = spied(c)
    w = World(define(source(case)), c)
    labels = shape_labels(c)
    results = set()
    after = b'' if is_final(Ref(c)) else junk
    obj = None
    for x in (o, second, o):
        data = w.codec.encode(x)
        want = ('ok', w.codec.decode(c, data)[0], len(data))
        if obj is None:
            obj = call('creating an instance', w.build, x)
        else:
            # the same instance, with other values: conditions are evaluated anew
            for (n, _), v in zip(attrs(c), w.build_values(c, x)):
                setattr(obj, n, v)
        for how, fn in (('pack', lambda: pack(obj)), ('pack_into', lambda: pack_into(obj, len(data), offset)),
                        ('pack_write', lambda: pack_write(obj, bytes(offset)))):
            w.mod.SPY.clear()
            got = fn()
            if got != data:
                raise Violation(f'{show(x, 2000)}\n{how} gives {show(got, 2000)}\nexpected {show(data, 2000)}')
            check_spies(w, c, x, how, True)
            if obj.serializer.size != len(data):
                raise Violation(f'{show(x, 2000)}\n{how} reports size {obj.serializer.size}, expected {len(data)}')
        for method in METHODS:
            w.mod.SPY.clear()
            agree(w, c, data + (after if not method.endswith('unpack') else b''), want, [method],
                  old=old, prefix=bytes(offset), kind=kind)
            check_spies(w, c, want[1], method, False, None if method.startswith('create') else old)
        results |= outcomes(w, c, x)
    reused(w, c, (o, second, o, second), offset)
    for inner, holds, sel in results:
        labels |= {f'{"kept" if holds else "skipped"}: {inner}', f'condition {sel}: {holds}'}
    if len({holds for _, holds, _ in results}) == 2 and len(members(c)) > 1:
        labels.add('nontrivial')
    return labels
