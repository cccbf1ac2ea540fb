"""Byte strings of every length style."""
from .common import *

RULE = ('the string is empty, longer than 100 bytes, contains its terminator, or follows or precedes another member '
        'that is not basic')
EXAMPLES = dict(quick=7500, thorough=160000)
ASSUMPTIONS = []
KINDS = ('chr', 'pas', 'dyn', 'term', 'net', 'cons')
EDGES = (0, 1, 2, 3, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 383, 384, 385, 511, 512, 513, 767, 768,
         1023, 1024, 1025)
FAR = (4095, 4096, 4097, 16383, 16384, 16385, 32766, 32767)
HUGE = (4095, 4096, 4097, 8191, 8192, 8193, 16385, 32768, 65535, 65536, 65537)


@st.composite
def content(draw, n, term):
    """n bytes; some with the terminator inside."""
    alphabet = st.sampled_from([term, term ^ 1, 0, 255, 97, 128])
    if n <= 12:
        return bytes(draw(st.lists(st.one_of(alphabet, st.integers(0, 255)), min_size=n, max_size=n)))
    chunk = bytes(draw(st.lists(st.integers(0, 255), min_size=1, max_size=5)))
    b = bytearray((chunk * (n // len(chunk) + 1))[:n])
    if draw(st.booleans()):
        b = b.replace(bytes([term]), bytes([term ^ 1]))
    # the terminator (or something else) at a chosen place
    for _ in range(draw(st.integers(0, 2))):
        b[draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, min(n - 1, 255), min(n - 1, 256)])))] = draw(alphabet)
    return bytes(b)


@st.composite
def string(draw, last):
    """(hint, value)"""
    k = draw(st.sampled_from(KINDS if last else KINDS[:-1]))
    n = draw(st.one_of(st.integers(0, 8), st.sampled_from(EDGES), st.integers(0, 600)))
    if draw(st.integers(0, 24)) == 24:
        n = draw(st.sampled_from(HUGE))
    term = draw(st.sampled_from([0, 0, 10, 97, 128, 255]))
    if k == 'chr':
        n = min(n, 300)
        size = draw(st.sampled_from([n, n, max(0, n - 1), n + 1, n + 5]))
        return Chr(size), draw(content(n, term))
    if k == 'pas':
        n = min(n, 300)
        size = draw(st.sampled_from([n + 1, n + 1, n + 2, max(1, n), n + 7]))
        return Pas(size), draw(content(n, term))
    if k == 'dyn':
        code = draw(st.sampled_from('BHIQ'))
        n = min(n, {'B': 255, 'H': 65535}.get(code, n))
        return Dyn(code), draw(content(n, term))
    if k == 'net':
        n = min(32767, draw(st.one_of(st.just(n), st.just(n), st.sampled_from(FAR))))
        return Net(), draw(content(n, term))
    if k == 'cons':
        return Cons(), draw(content(n, term))
    return Term(term), draw(content(n, term))


def strategy(tier):
    cfg = Cfg(features=ALL - {'noise', 'self', 'ref', 'ahead'}, depth=1, long_runs=False, cons=False, long_values=False)

    @st.composite
    def build(draw):
        g = G(draw, cfg)
        bo = g.pick(BYTE_ORDERS)
        n = g.int(0, 2)
        before = [(f'a{i}', g.simple()) for i in range(n)]
        after = [(f'b{i}', g.simple()) for i in range(g.int(0, 2))]
        where = g.pick(('member', 'member', 'member', 'tuple', 'array', 'cond', 'look', 'two'))
        last = not after and where != 'array'
        h, v = draw(string(last))
        if where == 'tuple':
            h2, v2 = draw(string(False))
            h, v = Tup((h2, h)), (v2, v)
        elif where == 'array':
            _, v2 = draw(string(False))
            v2 = v2[:32767 if isinstance(h, Net) else {'B': 255, 'H': 65535}.get(h.code) if isinstance(h, Dyn) else None]
            h, v = Arr(g.pick((2, 'B')), g.pick((None, 'I')), h), [v, v2]
        elif where == 'cond':
            h = Cond(h, Sel('const', '', True), (b'',))
        elif where == 'look':
            h2, _ = draw(string(False))
            h = Look(Sel('const', '', 1), ((0, h2), (1, h)), None)
        fields = before + [('s', h)] + after
        if where == 'two':
            h2, v2 = draw(string(False))
            fields.insert(n, ('s0', h2))
        c = ClassSpec('C', bo, tuple(fields))
        vals = [v if name == 's' else v2 if name == 's0' else g.value(x, {}, c, 1) for name, x in fields]
        suffix = b'' if is_final(Ref(c)) else draw(st.one_of(st.just(b''), st.binary(max_size=4), st.just(bytes(300))))
        return (c, Obj('C', tuple(vals)), draw(st.integers(0, 63)), suffix, draw(st.sampled_from(BUFFERS)),
                draw(st.sampled_from((0, 1, 7))), draw(st.booleans()),
                draw(st.none() | st.lists(st.integers(0, 63), min_size=1, max_size=3).map(tuple)))

    return build()


def check(case):
    c, o, variant, suffix, kind, offset, buffered, flip = case
    w = world_of(c, variant)
    data = w.codec.encode(o)
    packs_to(w, c, o, data, offset)
    # What is read back need not be what was packed (terminators inside, cut
    # values), and may make the rest unreadable; the model knows.
    want = model_outcome(w, c, data + suffix)
    agree(w, c, data + suffix, want, old=o, prefix=bytes(offset), kind=kind, stream='buffered' if buffered else 'bytes')
    labels = shape_labels(c) | obj_labels(o) | {kind, want[0]}
    names = [n for n, _ in c.fields]
    at, h = names.index('s'), dict(c.fields)['s']
    if flip is not None and isinstance(h, (Dyn, Net)):
        # another length: only what the first bytes say counts
        at = len(w.codec.encode(Obj('C', o.vals[:len([x for _, x in c.fields[:at] if not is_pad(x)])]), part=at))
        size = struct.calcsize(h.code) if isinstance(h, Dyn) else 2
        bad = bytearray(data + suffix)
        for bit in flip:
            i = at + bit // 8 % size
            bad[i % len(bad)] ^= 1 << bit % 8
        bad = bytes(bad)
        want = model_outcome(w, c, bad)
        agree(w, c, bad, want, old=o, prefix=bytes(offset), kind=kind, stream='buffered' if buffered and want[0] == 'ok' else 'bytes')
        labels.add(f'another length: {want[0]}')
    strings = [(h, v) for h, v in leaves(c, o) if isinstance(h, (Chr, Pas, Dyn, Term, Net, Cons))]
    for h, v in strings:
        labels.add(f'{type(h).__name__}: {"empty" if not v else "short" if len(v) < 100 else "long"}')
        if isinstance(h, Term) and bytes([h.t]) in v:
            labels.add('contains terminator')
            if v.endswith(bytes([h.t])):
                labels.add('ends with terminator')
        if not v or len(v) > 100 or isinstance(h, Term) and bytes([h.t]) in v:
            labels.add('nontrivial')
    if len(members(c)) > 1 and sum(not isinstance(h, BASIC) for _, h in members(c)) > 1:
        labels.add('nontrivial')
    return labels


def leaves(c, o):
    for (_, h), v in zip(attrs(c), o.vals):
        if isinstance(h, Tup):
            yield from zip([x for x in h.items if not is_pad(x)], v)
        elif isinstance(h, Arr):
            yield from ((h.item, x) for x in v)
        elif isinstance(h, Cond):
            yield h.inner, v
        elif isinstance(h, Look):
            yield h.alts[-1][1], v
        else:
            yield h, v
