"""Operations inside of callbacks of other operations."""
from dataclasses import replace

from .common import *

RULE = ('a nested operation was carried out by a decider, a factory, a codec or an initializer in the middle of another '
        'operation')
EXAMPLES = dict(quick=6000, thorough=100000)
ASSUMPTIONS = ['callbacks are called in one thread', 'a callback does not change the object which is packed or unpacked',
               'user-defined serializers do not run operations themselves']
INNER = ('pack', 'pack_into', 'pack_write', 'create_unpack', 'create_unpack_from', 'create_unpack_read', 'unpack',
         'unpack_from', 'unpack_read', 'truncated', 'swap', 'bad', 'all')


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        cfg = Cfg(features=ALL - {'noise'}, depth=2 if big else draw(st.sampled_from((1, 2))), max_fields=4, min_fields=1,
                  long_runs=False, long_values=False, cust_weight=3, nodes=8, themes=False,
                  weights=dict(look=4, cond=4, ahead=3, ref=6, self=3, arr=4, tup=4, uni=4))
        if draw(st.integers(0, 3)) == 3:
            # what is read ahead calls back, and decides between alternatives which depend on the object
            cfg = replace(cfg, depth=2, max_fields=3, ahead_kinds=('cust', 'cust', 'uni'),
                          weights=dict(basic=3, str=1, uni=1, look=4, cond=4, ahead=12, ref=1, arr=1, tup=2))
        g = G(draw, cfg)
        c = g.cls()
        objs = tuple(g.instance(c) for _ in range(2))
        init = tuple((n, g.pick(('', 'post', 'own'))) for n in classes_of(c))
        ops = tuple((g.pick(INNER), g.int(0, 1), g.int(0, 99)) for _ in range(g.int(1, 4)))
        return (c, objs, draw(st.integers(0, 63)), init, ops, (g.pick((1, 1, 2, 3)), g.int(0, 4)), g.pick((1, 1, 2)),
                draw(st.sampled_from(BUFFERS)), draw(st.sampled_from((0, 1, 3))), g.chance(2))

    return build()


POST = "    def __post_init__(self):\n        hook('init', self)\n"


def class_text(c, variant, init):
    text = render.class_src(c, variant)
    if init == 'post':
        text = text.rstrip('\n') + '\n\n' + POST
    elif init == 'own':
        names = [n for n, _ in attrs(c)]
        text = text.replace('):\n', ', init=False):\n', 1).rstrip('\n') + '\n\n'
        text += f'    def __init__(self, {", ".join(names)}):\n' if names else '    def __init__(self):\n'
        text += "        hook('init')\n" + ''.join(f'        self.{n} = {n}\n' for n in names) + "        hook('init', self)\n"
    return text + '\n\n'


def source(case):
    c, objs, variant, init = case[:4]
    init = dict(init)
    c = spied(c)
    text = render.prelude(variant) + '\n\n'
    return text + ''.join(class_text(d, variant, init[n]) for n, d in classes_of(c).items())


def check(case):
    c, objs, variant, init, ops, (every, phase), levels, kind, offset, buffered = case
    w = World(define(source(case)), c)
    hook = w.mod.HOOK
    labels = shape_labels(c)
    specs = classes_of(c)
    datas = [w.codec.encode(o) for o in objs]
    wants = [w.codec.decode(c, d)[0] for d in datas]
    built = [w.build(o) for o in objs]
    for x, d in zip(built, datas):
        if pack(x) != d:
            raise Violation(f'{show(x)} packs to {pack(x).hex()}, expected {d.hex()}')
    selfish = any(isinstance(h, SelfRef) for h in walk_class(c))
    state = dict(level=0, count=0, left=60, done=0)

    def inner(op):
        what, i, n = op
        o, data = objs[i], datas[i]
        prefix = bytes(n % 3)
        if what in ('pack', 'pack_into', 'pack_write'):
            got = {'pack': pack, 'pack_into': lambda x: pack_into(x, len(data), n % 3),
                   'pack_write': pack_write}[what](built[i])
            if got != data:
                raise Violation(f'nested {what} of {show(o, 2000)} gives {show(got, 2000)}\nexpected {show(data, 2000)}')
            if built[i].serializer.size != len(data):
                raise Violation(f'nested {what} reports size {built[i].serializer.size}, expected {len(data)}')
        elif what in METHODS:
            agree(w, c, data, ('ok', wants[i], len(data)), [what], old=o, prefix=prefix)
        elif what == 'truncated':
            cut = data[:n % (len(data) + 1)]
            agree(w, c, cut, model_outcome(w, c, cut), [METHODS[n % 3]], prefix=prefix)
        elif what == 'bad':
            bad = w.build(o)
            names = [m for m, _ in attrs(c)]
            if names:
                setattr(bad, names[n % len(names)], object())
            try:
                bad.pack()
            except Exception:
                pass
        elif what == 'swap' and not selfish:
            bo = BYTE_ORDERS[n % 6]
            new = call('nested with_byte_order', built[i].with_byte_order, w.lib.ByteOrder(bo))
            if pack(new) != w.codec.encode(o, bo):
                raise Violation(f'nested with_byte_order({bo!r}) packs {show(o, 2000)} to {show(pack(new), 2000)}')
        elif what == 'all':
            for m in ('pack', *METHODS[:3]):
                inner((m, i, n))

    def called(where, obj):
        if state['level'] >= levels or state['left'] <= 0:
            return
        state['count'] += 1
        if state['count'] % every != phase % every:
            return
        state['left'] -= 1
        state['level'] += 1
        try:
            labels.add(f'inside of a {where}')
            state['done'] += 1
            op = ops[state['done'] % len(ops)]
            inner(op)
            if obj is not None and type(obj).__name__ in specs and state['done'] % 2:
                spec = specs[type(obj).__name__]
                lifted = w.lift_obj(spec, obj)
                try:
                    want = w.codec.encode(lifted)
                except Exception:
                    return  # (only what was unpacked from other data may not fit)
                if pack(obj) != want:
                    raise Violation(f'{show(lifted, 2000)} packs itself to {pack(obj).hex()}, expected {want.hex()}')
        finally:
            state['level'] -= 1

    def outer(fn, *args, **kw):
        state.update(level=0, count=0, left=12)
        hook[:] = [called]
        try:
            return fn(*args, **kw)
        finally:
            hook.clear()

    for o, data, want in zip(objs, datas, wants):
        obj = outer(call, 'creating an instance', w.build, o)
        for how, fn in (('pack()', pack), ('pack_into()', lambda x: pack_into(x, len(data), offset)),
                        ('pack_write()', lambda x: pack_write(x, bytes(offset)))):
            got = outer(fn, obj)
            if got != data:
                raise Violation(f'{show(o, 2000)}\n{how} gives {show(got, 2000)}\nexpected {show(data, 2000)}')
            if obj.serializer.size != len(data):
                raise Violation(f'{show(o, 2000)}\n{how} reports size {obj.serializer.size}, expected {len(data)}')
        for m in METHODS:
            outer(agree, w, c, data, ('ok', want, len(data)), [m], old=objs[0], prefix=bytes(offset), kind=kind,
                  stream='buffered' if buffered else 'bytes')
        if not selfish:
            for bo in ('<', '>'):
                new = outer(call, 'with_byte_order', obj.with_byte_order, w.lib.ByteOrder(bo))
                got = outer(pack, new)
                if got != w.codec.encode(o, bo):
                    raise Violation(f'with_byte_order({bo!r}) of {show(o, 2000)} packs to {show(got, 2000)}')
    if state['done']:
        labels.add('nontrivial')
    labels.add(f'nested operations: {min(state["done"] // 10 * 10, 100)}')
    return labels
