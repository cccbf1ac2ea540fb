"""User-defined serializers compose; joining serializers."""
from .common import *
from .c06 import has_self

RULE = ('a user-defined serializer next to another member, inside of a container, a nested class, a union or a condition; '
        'or at least three serializers joined in different ways')
EXAMPLES = dict(quick=8000, thorough=240000)
ASSUMPTIONS = ['only elements of tuples, and joined serializers, may have another number of values than one',
               'whether a serializer which returns itself from prepack is asked again after a nested instance was '
               'handled is not specified for recursive classes']


def trees(draw, lo, hi, nulls=2):
    """A way to join the parts lo to hi - 1."""
    n = hi - lo
    k = draw(st.integers(0, 7))
    if k == 7 and nulls:
        rest = trees(draw, lo, hi, nulls - 1)
        return ('+', ('null',), rest) if draw(st.booleans()) else ('+', rest, ('null',))
    if n <= 1:
        return ('part', lo) if n else ('null',)
    if k == 1:
        cut = sorted(draw(st.integers(lo, hi)) for _ in range(2))
        return ('sum', tuple(trees(draw, a, b, nulls) for a, b in zip([lo, *cut], [*cut, hi])))
    if k == 2:
        return ('flat', lo, hi)
    mid = draw(st.integers(lo + 1, hi - 1))
    return ('+', trees(draw, lo, mid, nulls), trees(draw, mid, hi, nulls))


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (g.instance(c), draw(st.sampled_from(BYTE_ORDERS)), draw(st.sampled_from([0, 1, 3])),
                draw(st.binary(max_size=6)), draw(st.sampled_from(BUFFERS)))

    def joins(draw, g, c, o):
        n = len(members(c))
        cuts = sorted({draw(st.integers(0, n)) for _ in range(draw(st.integers(0, 6)))} | {0, n})
        k = len(cuts) - 1
        return (tuple(cuts), tuple(trees(draw, 0, k) for _ in range(3)),
                draw(st.sampled_from(BYTE_ORDERS)), draw(st.sampled_from([0, 1, 3])))

    kw = dict(features=USR - {'noise'}, depth=3 if big else 2, long_runs=False, long_values=big, ahead_ref=False, ahead_self=False)
    few = Cfg(**kw, max_fields=3, min_fields=1, weights=dict(tup=5, arr=6, look=4, cond=4, ahead=2))
    some = Cfg(**kw, max_fields=6, weights=dict(tup=5, arr=6, look=3, cond=3))
    parts = Cfg(**{**kw, 'depth': 1}, max_fields=9, min_fields=2, weights=dict(basic=12, usr=6, pad=2))
    return st.one_of(case_strategy(few, extra), case_strategy(some, extra), case_strategy(parts, joins))


def is_join(case):
    return len(case) == 7


def part_spec(c, i, lo, hi):
    return ClassSpec(f'Part{i}', c.bo, tuple(members(c)[lo:hi]))


def source(case):
    c, variant = case[0], case[2]
    if not is_join(case):
        return source_of(spied(c), variant)
    cuts = case[3]
    text = source_of(c, variant)
    for i, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
        text += render.class_src(part_spec(c, i, lo, hi), variant)
    return text


def check(case):
    if is_join(case):
        return check_join(case)
    c, o, variant, second, bo, offset, junk, kind = case
    c = spied(c)
    w = World(define(source(case)), c)
    labels = shape_labels(c)
    after = b'' if is_final(Ref(c)) else junk
    for x in (o, second):
        data = w.codec.encode(x)
        want = ('ok', w.codec.decode(c, data)[0], len(data))
        obj = call('creating an instance', w.build, x)
        for how, fn in (('pack', lambda: pack(obj)), ('pack_into', lambda: pack_into(obj, len(data), offset)),
                        ('pack_write', lambda: pack_write(obj, bytes(offset)))):
            w.mod.SPY.clear()
            got = fn()
            if got != data:
                raise Violation(f'{show(x, 2000)}\n{how} gives {show(got, 2000)}\nexpected {show(data, 2000)}')
            n = check_spies(w, c, x, how, True)
            size = call('.size', lambda: obj.serializer.size)
            if size != len(data):
                raise Violation(f'{show(x, 2000)}\n{how} reports size {size}, expected {len(data)}')
        for method in METHODS:
            w.mod.SPY.clear()
            agree(w, c, data + (after if not method.endswith('unpack') else b''), want, [method],
                  old=second, prefix=bytes(offset), kind=kind)
            n = check_spies(w, c, want[1], method, False, None if method.startswith('create') else second)
            if n:
                labels.add('asked')
        # not enough data
        for cut in {len(data) - 1, len(data) // 2} - {-1}:
            short = data[:cut]
            agree(w, c, short, model_outcome(w, c, short), METHODS[:3], errors=(ValueError, struct.error))
        w.mod.SPY.clear()
    if not has_self(c):
        new = call('with_byte_order()', w.build(o).with_byte_order, w.lib.ByteOrder(bo))
        data = w.codec.encode(o, bo)
        packs_to(w, c, o, data, offset, new)
        for m in METHODS[3:]:
            must_unpack(w, None, m, data, old=new)
        want = w.codec.decode(c, data, 0, bo)[0]
        if not same(w.lift_obj(c, new), want):
            raise Violation(f'in byte order {bo!r} {show(data, 2000)} gives {show(w.lift_obj(c, new), 2000)}')
    usr = [h for h in walk_class(c) if isinstance(h, Usr)]
    for h in usr:
        labels |= {f'{h.pre}, {h.ret}', f'{h.n} values'} | ({'consumes the rest'} if h.rest else set())
    if usr and len(list(walk_class(c))) > len(usr):
        labels.add('nontrivial')
    return labels


def join(parts, lib, t):
    k = t[0]
    if k == 'null':
        return lib.NullSerializer()
    if k == 'part':
        return parts[t[1]]
    if k == '+':
        return join(parts, lib, t[1]) + join(parts, lib, t[2])
    if k == 'flat':
        return sum(parts[t[1]:t[2]], lib.NullSerializer())
    return sum((join(parts, lib, x) for x in t[1]), lib.NullSerializer())


def check_join(case):
    c, o, variant, cuts, ts, bo, offset = case
    w = World(define(source(case)), c)
    lib = w.lib
    spans = list(zip(cuts, cuts[1:]))
    specs = [part_spec(c, i, lo, hi) for i, (lo, hi) in enumerate(spans)]
    parts = [w.cls(p.name).serializer for p in specs]
    cls = w.cls(c.name)
    names = [n for n, _ in attrs(c)]
    data = w.codec.encode(o)
    want = w.codec.decode(c, data)[0]
    obj = w.build(o)
    vals = w.build_values(c, o)
    env = dict(zip(names, o.vals))
    labels = {'joined'}

    def packing(s, what, vals, data):
        def into():
            buf = bytearray(b'\xaa' * (offset + len(data) + 3))
            p = s.prepack(obj)
            p.pack_into(buf, offset, *vals)
            if buf[:offset] + buf[offset + len(data):] != b'\xaa' * (offset + 3):
                raise Violation(f'{what}: pack_into writes elsewhere: {show(buf)}')
            return p, bytes(buf[offset:offset + len(data)])

        def write():
            f = io.BytesIO()
            p = s.prepack(obj)
            p.pack_write(f, *vals)
            return p, f.getvalue()

        def plain():
            p = s.prepack(obj)
            return p, p.pack(*vals)

        for how, fn in (('pack', plain), ('pack_into', into), ('pack_write', write)):
            p, got = call(f'{what}: {how}', fn)
            if got != data:
                raise Violation(f'{what}: {how} of {vals!r} gives {show(got, 2000)}, expected {show(data, 2000)}')
            size = call('.size', lambda: p.size)
            if size != len(data):
                raise Violation(f'{what}: {how} reports size {size}, expected {len(data)}')

    def unpacking(s, what, data, want):
        suffix = b'' if is_final(Ref(c)) else b'xyz'
        for how in ('unpack', 'unpack_from', 'unpack_read'):
            new = cls.__new__(cls)
            p = call(f'{what}: preunpack', s.preunpack, new)

            def run():
                f = Stream(bytes(offset) + data + suffix)
                f.seek(offset)
                args = {'unpack': (data + suffix,), 'unpack_from': (bytes(offset) + data + suffix, offset),
                        'unpack_read': (f,)}[how]
                count = 0
                for n, v in zip(names, getattr(p, how)(*args), strict=True):
                    setattr(new, n, v)
                if how == 'unpack_read' and f.tell() != offset + len(data):
                    raise Violation(f'{what}: {how} reads up to {f.tell() - offset} of {len(data)}')

            try:
                run()
            except Violation:
                raise
            except Exception as e:
                raise Violation(f'{what}: {how} of {show(data)} raised {type(e).__name__}: {e}') from e
            got = w.lift_obj(c, new)
            if not same(got, want):
                raise Violation(f'{what}: {how} of {show(data)} gives {show(got, 2000)}, expected {show(want, 2000)}')
            size = call('.size', lambda: p.size)
            if size != len(data):
                raise Violation(f'{what}: {how} reports size {size}, expected {len(data)}')

    def part_data(i, bo=None):
        spec = specs[i]
        it = iter(o.vals[sum(not is_pad(h) for _, h in members(c)[:spans[i][0]]):])
        pairs = [(h, None if is_pad(h) else next(it)) for _, h in spec.fields]
        vs = [w.lower(h, v, env) for h, v in pairs if not is_pad(h)]
        return vs, w.codec.enc_seq(pairs, c.bo if bo is None else bo, env)

    made = []
    for t in ts:
        what = f'joined by {t}'
        s = call(what, join, parts, lib, t)
        made.append((what, s))
        if s.num_values != len(vals):
            raise Violation(f'{what}: {s.num_values} values, expected {len(vals)}')
        if s.is_final() != is_final(Ref(c)):
            raise Violation(f'{what}: is_final() is {s.is_final()}')
    for what, s in made:
        packing(s, what, vals, data)
        unpacking(s, what, data, want)
    # the parts are as before
    for i in range(len(parts)):
        packing(parts[i], f'part {i}', *part_data(i))
    if not has_self(c):
        for what, s in made:
            new = call(f'{what}: with_byte_order', s.with_byte_order, lib.ByteOrder(bo))
            d = w.codec.encode(o, bo)
            packing(new, f'{what}: with_byte_order({bo!r})', vals, d)
            unpacking(new, f'{what}: with_byte_order({bo!r})', d, w.codec.decode(c, d, 0, bo)[0])
        labels.add('joined: with_byte_order')
    for what, s in made:
        packing(s, what + ' (again)', vals, data)
    if is_final(Ref(c)) and len(parts) > 1:
        for s in (parts[-1], made[0][1]):
            for other in parts[:-1]:
                if type(other) is lib.NullSerializer:
                    continue
                try:
                    res = s + other
                except TypeError:
                    labels.add('joined: rejected after the end')
                    continue
                raise Violation(f'a serializer which consumes the rest can be joined with {other}: {res}')
    if len(parts) >= 3:
        labels.add('nontrivial')
    labels |= {f'joined: {type(s).__name__}' for _, s in made}
    labels.add(f'joined: {min(len(parts), 6)} parts')
    return labels
