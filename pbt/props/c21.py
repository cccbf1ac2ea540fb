"""Arbitrary bytes are decoded as the format says, or rejected."""
from .common import *

RULE = ('at least one byte string which is not a valid packing of the generated instance was decoded to values or '
        'rejected after the first byte, by a class with at least two members, one of which is not basic')
EXAMPLES = dict(quick=7500, thorough=160000)
ASSUMPTIONS = ['arrays of more than 6000 items which take no bytes are not decoded',
               'objects nest less than 40 levels deep (the recursion limit of Python allows no more than some hundreds)',
               'deciders do not raise errors']
SMALL = st.lists(st.sampled_from([0, 1, 2, 3, 4, 0x41, 0x7f, 0x80, 0xfe, 0xff]), max_size=40).map(bytes)
EDGE_BYTES = (0, 1, 2, 3, 5, 16, 0x40, 0x41, 0x55, 0x7f, 0x80, 0x81, 0xd8, 0xe9, 0xfe, 0xff)


@st.composite
def mutated(draw, base, other):
    k = draw(st.sampled_from(('same', 'set', 'set', 'set', 'bit', 'bit', 'insert', 'delete', 'cut', 'extend', 'splice', 'random', 'small',
                              'run', 'repeat')))
    n = len(base)
    at = draw(st.one_of(st.integers(0, max(n - 1, 0)), st.integers(0, min(max(n - 1, 0), 12))))
    if k == 'random':
        return draw(st.binary(max_size=60))
    if k == 'small':
        return draw(SMALL)
    if k == 'same' or not n:
        return base
    if k == 'set':
        b = bytearray(base)
        for _ in range(draw(st.integers(1, 3))):
            b[at] = draw(st.one_of(st.sampled_from(EDGE_BYTES), st.integers(0, 255)))
            at = draw(st.integers(0, n - 1))
        return bytes(b)
    if k == 'bit':
        b = bytearray(base)
        b[at] ^= 1 << draw(st.integers(0, 7))
        return bytes(b)
    if k == 'insert':
        return base[:at] + bytes(draw(st.lists(st.sampled_from(EDGE_BYTES), min_size=1, max_size=3))) + base[at:]
    if k == 'delete':
        return base[:at] + base[at + draw(st.integers(1, 3)):]
    if k == 'cut':
        return base[:at]
    if k == 'extend':
        return base + draw(SMALL)
    if k == 'splice':
        return base[:at] + other[draw(st.integers(0, len(other))):]
    if k == 'run':
        size = draw(st.sampled_from((2, 4, 8)))
        return base[:at] + bytes([draw(st.sampled_from((0, 0xff, 0x80, 0x7f)))]) * size + base[at + size:]
    return base[:at] + base


def g_long(draw):
    return draw(st.integers(0, 7)) == 7


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        codec = model.Codec(c)
        base = codec.encode(o)
        g.cfg = replace(g.cfg, long_values=False)
        other = codec.encode(g.instance(c))
        datas = tuple(draw(mutated(base, other)) for _ in range(g.int(3, 10)))
        return (datas, g.pick(BUFFERS), g.pick(('bytes', 'bytes', 'buffered')), draw(st.binary(max_size=3)))

    @st.composite
    def build(draw):
        cfg = Cfg(depth=3 if big else draw(st.sampled_from((1, 2, 2))), max_fields=6 if big else 4, min_fields=1, long_values=g_long(draw))
        try:
            return draw(case_strategy(cfg, extra))
        except NoInstance:
            from hypothesis import reject
            reject()

    return build()


def canonical(c):
    """Does every value have one encoding only?"""
    for d in classes_of(c).values():
        for h in walk_class(d):
            if isinstance(h, (Pad, Pas, Bool, Net, Flt, Uni, Ahead)):
                return False
    return all(d.bo in ('<', '>', '=', '!') for d in classes_of(c).values())


def check(case):
    c, o, variant, datas, kind, stream, prefix = case
    w = world_of(c, variant)
    labels = shape_labels(c)
    one_way = canonical(c)
    consistent = not any(isinstance(h, Ahead) and h.sel.kind != 'tag' for h in walk_class(c))
    valid = w.codec.encode(o)
    good = False
    for i, data in enumerate(datas):
        try:
            want = model_outcome(w, c, data)
        except Skip:
            labels.add('too big')
            continue
        # huge lengths are only read from streams which do not allocate them in advance
        agree(w, c, data, want, METHODS, old=o, prefix=prefix, kind=kind, stream=stream if want[0] == 'ok' else 'bytes')
        labels.add('accepted' if want[0] == 'ok' else want[1].split(' ')[0])
        if data != valid and len(data) > 0:
            good = True
        if want[0] == 'reject':
            continue
        if consistent:
            back = call('create_unpack', w.cls(c.name).create_unpack, data)
            try:
                again = w.codec.encode(want[1])
            except struct.error:
                # (a byte order mark which was not there)
                must_reject_packing(back, f'what {show(data)} was decoded to, which does not fit anymore')
                labels.add('does not fit again')
                continue
            packs_to(w, c, want[1], again, 0, back)
            if one_way:
                labels.add('canonical')
                if again != data[:want[2]]:
                    raise Violation(f'{show(data)} is decoded to {show(want[1], 2000)}, which packs to {show(again)}')
    if good and complex_member(c):
        labels.add('nontrivial')
    return labels
