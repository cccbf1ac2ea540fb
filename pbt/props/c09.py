"""Values which do not fit their hint are rejected; the largest which fit are not."""
from .common import *

RULE = 'one value of the instance, at some nesting depth, was replaced by one just outside or just inside its range'
EXAMPLES = dict(quick=5400, thorough=140000)
ASSUMPTIONS = ['fixed char and pascal values of another length are cut or padded as by struct, so their length cannot misfit',
               'members a decider or condition reads are not replaced']


class M:
    """A replacement."""

    def __init__(self, new, fits, why):
        self.new, self.fits, self.why = new, fits, why


WRONG = {
    Int: ('12', None, 1.5, b'1', (1,)),
    Flt: ('1.0', None, b'1', [1.0]),
    Chr: ('text', None, 5, [1]),
    Pas: ('text', None, 5, [1]),
    Dyn: ('text', None, 5),
    Term: ('text', None, 5),
    Net: ('text', None, 5),
    Cons: ('text', None, 5),
    Uni: (b'bytes', None, 5),
    Tup: (None, 5),
    Arr: (None, 5),
    Ref: (None, 5, 'text', ()),
    SelfRef: (None, 5, 'text', ()),
}
LIMITS = {'B': 0xFF, 'H': 0xFFFF}


def replacements(h, v, top=False):
    """Replacements for the value v of hint h (not of its parts)."""
    out = [M(Raw(x), False, f'{x!r} for {render.hint(h) if not isinstance(h, (Ref, Look, Ahead)) else type(h).__name__}')
           for x in WRONG.get(type(h), ())]
    if isinstance(h, Cust):
        return [M(Raw(m.new.v) if isinstance(m.new, Raw) else Raw(m.new), m.fits, m.why)
                for m in replacements(h.base, v) if not m.fits]
    if isinstance(h, Int):
        lo, hi = INT_RANGES[h.code]
        out += [M(lo - 1, False, f'{lo - 1}'), M(hi + 1, False, f'{hi + 1}'), M(lo, True, ''), M(hi, True, ''),
                M(hi << 40, False, 'huge')]
    elif isinstance(h, Flt):
        big = {'e': 65520.0}.get(h.code)  # (struct packs too large floats as inf in native mode)
        if big:
            out.append(M(big, False, repr(big)))
        out.append(M({'e': 65504.0, 'f': 3.4028234663852886e38, 'd': 1.7976931348623157e308}[h.code], True, ''))
    elif isinstance(h, Dyn):
        if h.code in LIMITS:
            n = LIMITS[h.code]
            out += [M(b'x' * (n + 1), False, f'{n + 1} bytes'), M(b'y' * n, True, '')]
            out += [M(b'x' * (2 * n + 2), False, f'{2 * n + 2} bytes')] if n < 1000 else []
    elif isinstance(h, Net):
        out += [M(b'x' * 32768, False, '32768 bytes'), M(b'x' * 32767, True, ''), M(b'x' * 65536, False, '65536 bytes'),
                M(b'x' * 65537, False, '65537 bytes')]
    elif isinstance(h, Uni):
        for bad in UNENCODABLE[h.enc]:
            out += [M('a' + bad, False, repr(bad)), M(bad, False, repr(bad))]
        n = LIMITS.get(h.style.code) if isinstance(h.style, Dyn) else 32767 if isinstance(h.style, Net) else None
        if n:
            one = len(model.encode_text(h.enc, 'xx')) - len(model.encode_text(h.enc, 'x'))
            bom = len(model.encode_text(h.enc, 'x')) - one
            most = (n - bom) // one
            out += [M('x' * (most + 1), False, f'{most + 1} characters'), M('x' * most, True, '')]
    elif isinstance(h, Tup):
        out += [M(v + (Raw(0),), False, 'one element too many'), M(v[:-1], False, 'one element missing'),
                M((), False, 'no elements'), M(v + v, False, 'twice as many elements')]
    elif isinstance(h, Arr):
        if isinstance(h.count, int):
            extra = v[0] if v else sample(h.item)
            out += [M(v + [extra] * n, False, f'{n} items too many') for n in (1, 2)]
            if v:
                out += [M(v[:-1], False, 'one item missing'), M([], False, 'no items')]
                out += [M(v + v, False, 'twice as many items')]
        elif h.count in LIMITS and v:
            n = LIMITS[h.count]
            if isinstance(h.item, (Int, Flt, Bool)):
                size = struct.calcsize('=' + basic_fmt(h.item))
            else:
                size = 0 if n == 255 else n
            if n * size < 150_000:
                out.append(M([v[0]] * (n + 1), False, f'{n + 1} items'))
                if isinstance(h.item, (Int, Flt, Bool)) and (not h.size or n * size <= LIMITS.get(h.size, 1 << 30)):
                    out.append(M([v[0]] * n, True, ''))
        if h.size in LIMITS and isinstance(h.item, (Int, Flt, Bool)) and v and h.count != 'B' and not isinstance(h.count, int):
            size = struct.calcsize('=' + basic_fmt(h.item))
            if size:
                n = LIMITS[h.size] // size
                if n < LIMITS.get(h.count, 1 << 30):
                    out += [M([v[0]] * (n + 1), False, f'{(n + 1) * size} bytes of items'), M([v[0]] * n, True, '')]
        style = h.item.style if isinstance(h.item, Uni) else h.item
        if h.size == 'H' and isinstance(style, (Dyn, Net)) and (isinstance(style, Net) or style.code != 'B') \
                and not getattr(h.item, 'enc', 'utf8').startswith(('utf-', 'custom')):
            text = 'x' if isinstance(h.item, Uni) else b'x'
            if h.count == 3 or isinstance(h.count, str):
                out += [M([text * 30000] * 3, False, 'items of 90000 bytes'),
                        M([text * 30000, text, text * 30000], True, '')]
    return [m for m in out if not (m.fits is False and m.new == v)]


def sample(h):
    """Some value which fits h, or at least resembles one that does."""
    if isinstance(h, Cust):
        return sample(h.base)
    if isinstance(h, Tup):
        return tuple(sample(x) for x in h.items for _ in range(width(x)))
    if isinstance(h, Arr):
        return [sample(h.item)] * (h.count if isinstance(h.count, int) else 1)
    if isinstance(h, Cond):
        return sample(h.inner)
    if isinstance(h, (Look, Ahead)):
        return sample(h.alts[0][1])
    if isinstance(h, Chr):
        return b'a' * h.n
    for kind, v in ((Int, 1), (Bool, True), (Flt, 1.0), (Uni, 'a'), ((Ref, SelfRef), Raw(0))):
        if isinstance(h, kind):
            return v
    return b'a'


def reads(c):
    """Names of members which deciders or conditions of c read."""
    return {x.sel.field for _, h in c.fields for x in walk_shallow(h) if isinstance(x, (Cond, Look, Ahead))}


def places(w, c, o):
    """(replacement, function from the new value to a new Obj, depth)"""
    out = []
    env = dict(zip([n for n, _ in attrs(c)], o.vals))
    skip = reads(c)

    def visit(h, v, put, depth, env, skip):
        for m in replacements(h, v):
            out.append((m, put, depth, h))
        inside(h, v, put, depth, env, skip)

    def inside(h, v, put, depth, env, skip):
        if isinstance(h, Tup):
            items = [x for x in h.items if not is_pad(x)]
            for i, x in enumerate(items):
                visit(x, v[i], lambda n, i=i: put(v[:i] + (n,) + v[i + 1:]), depth + 1, env, skip)
        elif isinstance(h, Arr):
            for i in {0, len(v) - 1} if v else ():
                visit(h.item, v[i], lambda n, i=i: put(v[:i] + [n] + v[i + 1:]), depth + 1, env, skip)
        elif isinstance(h, (Ref, SelfRef)):
            spec = w.classes[v.cls]
            obj(spec, v, put, depth + 1)
        elif isinstance(h, Cond):
            if model.select(h.sel, env):
                visit(h.inner, v, put, depth, env, skip)
        elif isinstance(h, (Look, Ahead)):
            if isinstance(h, Ahead) and h.sel.kind == 'tag':
                return
            start = len(out)
            visit(model.pick(h.alts, h.default, model.select(h.sel, env)), v, put, depth, env, skip)
            if isinstance(h, Ahead):  # a fitting value may not fit what is read ahead
                out[start:] = [x for x in out[start:] if not x[0].fits]

    def obj(spec, o, put, depth):
        names = [n for n, _ in attrs(spec)]
        env = dict(zip(names, o.vals))
        skip = reads(spec)
        for i, (name, h) in enumerate(attrs(spec)):
            if name not in skip:
                visit(h, o.vals[i], lambda n, i=i: put(Obj(o.cls, o.vals[:i] + (n,) + o.vals[i + 1:])), depth, env, skip)

    obj(c, o, lambda x: x, 0)
    return out


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (draw(st.integers(0, 1000)), draw(st.integers(0, 1 << 16)))

    return case_strategy(Cfg(depth=3 if big else 2, max_fields=5 if big else 3, min_fields=1, long_values=False,
                             size_codes='BBHHIQ'), extra)


def kinds(h):
    return type(h).__name__


def check(case):
    c, o, variant, group, which = case
    w = world_of(c, variant)
    options = places(w, c, o)
    if not options:
        return {'nothing to replace'}
    groups = sorted({(type(x[3]).__name__, x[0].fits) for x in options})
    group = groups[group % len(groups)]
    options = [x for x in options if (type(x[3]).__name__, x[0].fits) == group]
    m, put, depth, h = options[which % len(options)]
    bad = put(m.new)
    good = w.codec.encode(o)
    obj = call('creating an instance', w.build, bad)
    labels = {kinds(h), f'depth {depth}', 'fits' if m.fits else 'does not fit', 'nontrivial',
              f'{"fits" if m.fits else "misfit"}: {kinds(h)}'}
    if m.fits:
        try:
            want = w.codec.encode(bad)
        except struct.error:
            labels.add('too much for an outer size')
            must_reject_packing(obj, 'data too long for an outer size field')
            return labels
        packs_to(w, c, bad, want, 2, obj)
        want_obj = ('ok', w.codec.decode(c, want)[0], len(want))
        agree(w, c, want, want_obj, methods=METHODS[:3])
        if not same(want_obj[1], bad):
            raise AssertionError('model does not round-trip')
    else:
        must_reject_packing(obj, f'{m.why} in {show(bad)}')
        # and nothing is left behind
        packs_to(w, c, o, good)
    return labels
