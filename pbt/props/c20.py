"""Custom types are converted on unpacking and only there."""
import re

from .common import *

RULE = 'at least two values of custom types, and other members next to them or a container around them'
EXAMPLES = dict(quick=6000, thorough=120000)
ASSUMPTIONS = ['the order in which the values of one object are converted is not specified']


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (draw(st.sampled_from(BYTE_ORDERS)), draw(st.integers(0, 3)), draw(st.sampled_from(METHODS)))

    return case_strategy(Cfg(depth=3 if big else 2, max_fields=7, min_fields=1, cust_weight=10, cust_keys='B', weights=dict(basic=14, str=1, uni=1, arr=6, tup=4), junk=True),
                         extra)


def source(case):
    """Hints may be shared between members: all of them, or the SerializeAs."""
    c, o, variant, bo, sharing, method = case
    text = source_of(c, variant)
    pre = render.prelude(variant)
    body = text[len(pre):]
    names = {}

    def name(m):
        return names.setdefault(m.group(0), f'shared{len(names)}')

    as_ = r'SerializeAs\((?:\w+(?:\[\d+\])?)\)'
    if sharing & 1:
        body = re.sub(as_ + r'(?:\.with_factory\(\w+\))?(?=\])' if sharing & 2 else as_, name, body)
    elif sharing & 2:
        body = re.sub(r'Annotated\[\w+, ' + as_ + r'(?:\.with_factory\(\w+\))?\]', name, body)
    return pre + ''.join(f'{v} = {k}\n' for k, v in names.items()) + body


def reads(ra):
    """How often a value is unpacked by reading it ahead (which may itself involve
    reading ahead)."""
    if isinstance(ra, Cond):
        return reads(ra.inner)
    if isinstance(ra, Look):
        return reads(ra.alts[-1][1])
    return reads(ra.ra) + 1 if isinstance(ra, Ahead) else 1


def conversions(w, o: Obj):
    """(what is called, with what) for every value of a custom type."""
    out = []

    def value(h, v, env):
        if isinstance(h, Cust):
            name = render.cust_name(h)
            out.append((name + (h.how if h.how in 'fg' else ''), v))
        elif isinstance(h, Tup):
            for x, y in zip([x for x in h.items if not is_pad(x)], v):
                value(x, y, env)
        elif isinstance(h, Arr):
            for y in v:
                value(h.item, y, env)
        elif isinstance(h, (Ref, SelfRef)):
            obj(v)
        elif isinstance(h, Cond):
            if model.select(h.sel, env):
                value(h.inner, v, env)
        elif isinstance(h, (Look, Ahead)):
            if isinstance(h, Ahead) and isinstance(bare(h.ra), Cust):
                for _ in range(reads(h.ra)):
                    value(bare(h.ra), int(model.select(h.sel, env)), env)
            value(model.pick(h.alts, h.default, model.select(h.sel, env)), v, env)

    def obj(o):
        spec = w.classes[o.cls]
        env = dict(zip([n for n, _ in attrs(spec)], o.vals))
        for (n, h), v in zip(attrs(spec), o.vals):
            value(h, v, env)

    obj(o)
    return out


def key(event):
    name, v = event
    return name, type(v).__name__, repr(v)


def plain(w, o: Obj):
    """The object with plain values instead of those of custom types."""

    class Plain(World):
        def lower_cust(self, h, v):
            return v

    res = Plain.__new__(Plain)
    res.__dict__.update(w.__dict__)
    return call('creating an instance', res.build, o)


def check(case):
    c, o, variant, bo, sharing, method = case
    mod = define(source(case))
    w = World(mod, c)
    log = mod.LOG
    data = w.codec.encode(o)
    want = w.codec.decode(c, data)[0]
    events = sorted(map(key, conversions(w, want)))

    def converted(what):
        got = sorted(map(key, log))
        log.clear()
        if got != events:
            more = [e for e in got if e not in events or got.count(e) > events.count(e)]
            less = [e for e in events if e not in got or got.count(e) < events.count(e)]
            raise Violation(f'{what} of {show(data, 1000)}: conversions of {show(want, 2000)}:\n'
                            f'unexpected: {show(more, 1000)}\nmissing: {show(less, 1000)}')

    def none(what):
        if log:
            raise Violation(f'{what}: conversions {show(list(log), 1000)} outside of unpacking')

    log.clear()
    obj = call('creating an instance', w.build, o)
    log.clear()
    packs_to(w, c, o, data, 1, obj)
    none('packing')
    other = plain(w, o)
    packs_to(w, c, o, data, 0, other)
    none('packing plain values')
    for m in METHODS:
        old = None if m.startswith('create') else obj if m == method else other
        prefix = b'' if m.endswith('unpack') else b'\7'
        back, _ = must_unpack(w, w.cls(c.name), m, data, prefix=prefix, old=old)
        converted(m)
        got = w.lift_obj(c, back)
        if not same(got, want):
            raise Violation(f'{m} of {show(data, 2000)} gives\n{show(got, 2000)}\nexpected\n{show(want, 2000)}')
        packs_to(w, c, want, w.codec.encode(want), 0, back)
        none(f'packing after {m}')
    if not any(isinstance(h, (SelfRef, Ahead)) for h in walk_class(c)):
        swapped = call('with_byte_order()', obj.with_byte_order, w.lib.ByteOrder(bo))
        none('with_byte_order')
        data = w.codec.encode(want, bo)
        packs_to(w, c, want, data, 0, swapped)
        must_unpack(w, None, method if not method.startswith('create') else 'unpack_read', data, old=swapped)
        converted(f'{method} after with_byte_order({bo!r})')
        got = w.lift_obj(c, swapped)
        if not same(got, want):
            raise Violation(f'{method} after with_byte_order({bo!r}) gives\n{show(got, 2000)}\nexpected\n{show(want, 2000)}')
    labels = shape_labels(c) | {f'sharing {sharing}'}
    if len(events) >= 2 and (len(members(c)) >= 2 or len(events) != len(members(c))):
        labels.add('nontrivial')
    n = len(events)
    labels.add(f'conversions: {n if n < 5 else "5-19" if n < 20 else "20-99" if n < 100 else "100+"}')
    return labels
