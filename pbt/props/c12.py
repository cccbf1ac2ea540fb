"""Unicode strings."""
from .common import *
from .c11 import leaves

RULE = 'the text is empty, not ASCII, contains NUL, or is longer than 60 characters'
EXAMPLES = dict(quick=7500, thorough=160000)
ASSUMPTIONS = ['trailing NULs of unpacked text are dropped, as documented']
ENCS = ENCODINGS
HUGE = (1023, 1024, 4096, 8191, 8192, 16385, 32767, 32768, 65535, 65536, 65537)


def _terms(enc, s):
    """Terminators which do not appear in the encoded text."""
    b = model.encode_text(enc, s)
    return [t for t in (0, 10, 255, 97, 128, 1) if t not in b]


@st.composite
def text_hint(draw, last):
    enc = draw(st.sampled_from(ENCS))
    chars = ALPHABETS[enc]
    n = draw(st.one_of(st.integers(0, 6), st.sampled_from([0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 300])))
    if draw(st.integers(0, 29)) == 29:
        n = draw(st.sampled_from(HUGE))
    if n <= 6:
        s = draw(st.text(st.sampled_from(chars), min_size=n, max_size=n))
        if draw(st.integers(0, 3)) == 0:
            # any text the codec can represent
            s = draw(st.text(st.characters(exclude_categories=['Cs']), max_size=6))
            try:
                if model.decode_text(enc, model.encode_text(enc, s)) != s:
                    s = ''
            except UnicodeError:
                s = ''
    else:
        chunk = draw(st.text(st.sampled_from(chars), min_size=1, max_size=3))
        s = (chunk * (n // len(chunk) + 1))[:n]
    s += '\0' * draw(st.sampled_from([0, 0, 0, 1, 2]))
    size = len(model.encode_text(enc, s))
    styles = ['dynI', 'dynQ'] + ['dynH', 'chr'] * (size <= 65500)
    if size <= 255:
        styles += ['dynB', 'dynB']
    if size <= 32767:
        styles += ['net']
    terms = _terms(enc, s)
    if terms:
        styles += ['term', 'term']
    if last:
        styles += ['cons']
    k = draw(st.sampled_from(styles))
    if k[:3] == 'dyn':
        style = Dyn(k[3])
    elif k == 'chr':
        style = Chr(size + draw(st.sampled_from([0, 0, 1, 2, 4, 7])))
    elif k == 'net':
        style = Net()
    elif k == 'term':
        style = Term(draw(st.sampled_from(terms)))
    else:
        style = Cons()
    return Uni(style, enc), s


def strategy(tier):
    cfg = Cfg(features=ALL - {'noise', 'self', 'ref', 'ahead'}, depth=1, long_runs=False, cons=False, long_values=False)

    @st.composite
    def build(draw):
        g = G(draw, cfg)
        bo = g.pick(BYTE_ORDERS)
        before = [(f'a{i}', g.simple()) for i in range(g.int(0, 2))]
        after = [(f'b{i}', g.simple()) for i in range(g.int(0, 2))]
        where = g.pick(('member', 'member', 'member', 'tuple', 'array', 'cond', 'look'))
        h, v = draw(text_hint(not after and where != 'array'))
        if where == 'tuple':
            h2, v2 = draw(text_hint(False))
            h, v = Tup((h2, h)), (v2, v)
        elif where == 'array':
            h, v = Arr(g.pick((3, 'B')), g.pick((None, 'I')), h), [v, v[:len(v) // 2], v]
        elif where == 'cond':
            h = Cond(h, Sel('const', '', True), (b'',))
        elif where == 'look':
            h2, _ = draw(text_hint(False))
            h = Look(Sel('const', '', 1), ((0, h2), (1, h)), None)
        fields = before + [('s', h)] + after
        c = ClassSpec('C', bo, tuple(fields))
        vals = [v if name == 's' else g.value(x, {}, c, 1) for name, x in fields]
        suffix = b'' if is_final(Ref(c)) else draw(st.binary(max_size=4))
        flip = draw(st.sampled_from([None, None, 0, 1, 2, 5, 11])), draw(st.sampled_from([255, 128, 1, 0x80, 0xC0]))
        bad = draw(st.sampled_from((0, 0, 1, 2, 1000))), draw(st.integers(0, 7))
        return (c, Obj('C', tuple(vals)), draw(st.integers(0, 63)), suffix, draw(st.sampled_from(BUFFERS)),
                draw(st.sampled_from((0, 1, 7))), flip, bad)

    return build()


def spoil(c, o, at, which):
    """The object with a character in one of its texts that its codec does not have."""
    def one(h, v):
        if isinstance(h, Uni):
            bad = UNENCODABLE[h.enc]
            return v[:at] + bad[which % len(bad)] + v[at:]
        if isinstance(h, Tup):
            return (*v[:-1], one(h.items[-1], v[-1]))
        if isinstance(h, Arr):
            i = at % len(v)
            return [*v[:i], one(h.item, v[i]), *v[i + 1:]]
        if isinstance(h, Cond):
            return one(h.inner, v)
        assert isinstance(h, Look)
        return one(h.alts[1][1], v)

    return Obj(o.cls, tuple(one(h, v) if n == 's' else v for (n, h), v in zip(attrs(c), o.vals, strict=True)))


def check(case):
    c, o, variant, suffix, kind, offset, flip, bad = case
    w = world_of(c, variant)
    data = w.codec.encode(o)
    packs_to(w, c, o, data, offset)
    want = model_outcome(w, c, data + suffix)
    agree(w, c, data + suffix, want, old=o, prefix=bytes(offset), kind=kind)
    labels = shape_labels(c) | obj_labels(o) | {kind, want[0]}
    for h, v in leaves(c, o):
        if isinstance(h, Uni):
            labels |= {h.enc, f'Uni[{type(h.style).__name__}]'}
            if not v or not v.isascii() or '\0' in v or len(v) > 60:
                labels.add('nontrivial')
            if v.endswith('\0'):
                labels.add('trailing NUL')
    # text that cannot be encoded
    o_bad = spoil(c, o, *bad)
    must_reject_packing(call('creating an instance', w.build, o_bad), show(o_bad, 2000))
    # damaged text is decoded as the codec does, or rejected
    if flip[0] is not None and data:
        bad = bytearray(data + suffix)
        bad[flip[0] % len(bad)] ^= flip[1]
        want = model_outcome(w, c, bytes(bad))
        agree(w, c, bytes(bad), want, methods=METHODS[:3], prefix=bytes(offset), kind=kind)
        labels.add('damaged: ' + (want[1] if want[0] == 'reject' else 'ok'))
    return labels
