"""Array headers: counts and byte sizes are stored, honoured and validated."""
from .common import *

RULE = 'the array has a stored count or size, and that number was changed; or its length is not the fixed one'
EXAMPLES = dict(quick=6000, thorough=120000)
ASSUMPTIONS = ['stored counts above 70000 are not tried: time and memory are proportional to them']


def strategy(tier):
    big = tier == 'thorough'
    cfg = Cfg(features=ALL - {'cons', 'noise'}, depth=2 if big else 1, max_fields=3, cons=False, long_runs=False)

    @st.composite
    def build(draw):
        g = G(draw, cfg)
        bo = g.pick(BYTE_ORDERS)
        ctx = Ctx('C', [], bo)
        ctx_fields = ctx.fields
        g.bo, g.count = bo, 1
        for i in range(g.int(0, 2)):
            ctx_fields.append((f'a{i}', g.simple()))
        outer = g.pick(('member', 'member', 'tuple', 'array', 'cond', 'nested'))
        nested = Ctx('N', [], bo)
        item = g.hint((nested if outer == 'nested' else ctx).nested(), cfg.depth, item=True)
        if g.chance(3):
            item = g.basic()
        if g.chance(12):
            item = Chr(0)
        count = g.pick((*'BHIQBH', 0, 1, 2, 3, 10))
        size = g.pick((None, 'B', 'H', 'I', 'Q'))
        arr = Arr(count, size, item)
        if outer == 'tuple':
            h = Tup((Int('B'), arr, Int('B')))
        elif outer == 'array':
            h = Arr(2, None, arr)
        elif outer == 'cond':
            h = Cond(arr, Sel('const', '', True), (None,))
        elif outer == 'nested':
            h = Ref(ClassSpec('N', bo, (*nested.fields, ('arr', arr), ('z', Int('B')))))
        else:
            h = arr
        ctx_fields.append(('arr', h))
        for i in range(g.int(0, 2)):
            ctx_fields.append((f'b{i}', g.simple()))
        c = ClassSpec('C', bo, tuple(ctx_fields))
        if size == 'B':
            g.cfg = replace(cfg, long_values=False)
        o = None
        huge = 0
        if h is arr and isinstance(item, Int) and count in ('H', 'I', 'Q') and size not in ('B', 'H') and g.chance(6):
            huge = g.pick((4096, 16385, 32767, 32768, 65535) + (65536, 70001) * (count != 'H'))
        for _ in range(4):
            o = g.obj(c)
            if huge:
                i = [n for n, _ in attrs(c)].index('arr')
                v = [g.value(item, {}, c, 1) for _ in range(3)]
                o = Obj(o.cls, (*o.vals[:i], [*v[:2] * (huge // 2), *v[2:] * (huge % 2)], *o.vals[i + 1:]))
            try:
                model.Codec(c).encode(o)
                break
            except struct.error:
                o = None
                g.cfg = replace(cfg, long_values=False)
        if o is None:
            from hypothesis import reject
            reject()
        which = draw(st.sampled_from(('count', 'size', 'size', 'both')))
        delta = draw(st.sampled_from((1, -1, 2, -2, 5, 127, 255, 256, -255, 1000)) | st.integers(-300, 300) |
                     st.integers(8, 63).map(lambda k: 1 << k))
        spare = ()
        if h is arr and isinstance(count, int):
            spare = tuple(g.value(item, dict(zip([n for n, _ in attrs(c)], o.vals)), c, 2) for _ in range(g.int(1, 2)))
        return (c, o, draw(st.integers(0, 63)), which, delta, draw(st.binary(max_size=12)),
                draw(st.sampled_from(BUFFERS)), draw(st.sampled_from((0, 1, 3))), spare)

    return build()


def check(case):
    c, o, variant, which, delta, rest, kind, offset, spare = case
    w = world_of(c, variant)
    data = w.codec.encode(o)
    labels = shape_labels(c)
    packs_to(w, c, o, data, offset)
    agree(w, c, data + rest, ('ok', o, len(data)), old=o, kind=kind, prefix=bytes(offset))
    # where the array is
    names = [n for n, _ in c.fields]
    i = names.index('arr')
    h, v = c.fields[i][1], o.vals[i]
    at = len(w.codec.encode(Obj('C', o.vals[:i]), part=i))
    if isinstance(h, Tup):
        at, h, v = at + 1, h.items[1], v[1]
    elif isinstance(h, Cond):
        h = h.inner
    elif isinstance(h, Ref):
        i = [n for n, _ in h.cls.fields].index('arr')
        at += len(model.Codec(h.cls).encode(Obj('N', v.vals[:i]), part=i))
        h, v = h.cls.fields[i][1], v.vals[i]
        i = None
    if isinstance(h.item, Arr) and h.size is None and isinstance(h.count, int) and h.count == 2 and v \
            and i is not None and c.fields[i][1] is h:
        h, v = h.item, v[0]  # the header of the first inner array
    fmt = c.bo + (h.count if isinstance(h.count, str) else '') + (h.size or '')
    n = struct.calcsize(fmt)
    if n:
        head = list(struct.unpack_from(fmt, data, at))
        fields = [('count', h.count)] * isinstance(h.count, str) + [('size', h.size)] * bool(h.size)
        changed = False
        for j, (what, code) in enumerate(fields):
            if which in (what, 'both') or len(fields) == 1:
                lo, hi = INT_RANGES[code]
                new = head[j] + delta
                if not lo <= new <= hi:
                    new = head[j] ^ 1 << delta.bit_length() % hi.bit_length() if what == 'size' else hi if new > hi and hi <= 65535 else 0
                if what == 'count' and new > 2000:
                    new = 2000  # (the library takes quadratic time for strings)
                changed = changed or new != head[j]
                head[j] = new
                labels.add(f'changed {what}')
        bad = data[:at] + struct.pack(fmt, *head) + data[at + n:] + rest
        want = model_outcome(w, c, bad)
        labels.add(want[1].split()[0] if want[0] == 'reject' else 'still valid')
        # A wrong byte size is a ValueError.
        errors = (ValueError,) if want[1] == 'data size mismatch' else CLEAN
        agree(w, c, bad, want, kind=kind, prefix=bytes(offset), old=o, errors=errors)
        if changed:
            labels.add('nontrivial')
    elif i is not None and isinstance(h.count, int) and c.fields[i][1] is h:
        wrong = v + list(spare) if delta > 0 or not v else v[:-1]
        if len(wrong) != len(v):
            bad = Obj(o.cls, o.vals[:i] + (wrong,) + o.vals[i + 1:])
            must_reject_packing(call('creating an instance', w.build, bad), f'{len(wrong)} items for {h.count}')
            labels |= {'nontrivial', 'wrong length'}
    # afterwards everything still works
    packs_to(w, c, o, data)
    return labels
