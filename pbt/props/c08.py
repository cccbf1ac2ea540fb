"""Every proper prefix of a packing is rejected."""
import struct

from .common import *

RULE = 'at least two members, one not basic, and a packing of at least two bytes; every prefix counts as part of one case'
EXAMPLES = dict(quick=6000, thorough=80000)
ASSUMPTIONS = ['packings longer than 40 bytes are cut at the first and last 12 bytes and at up to 12 more places']


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (tuple(draw(st.lists(st.integers(0, 1 << 20), max_size=12))), draw(st.sampled_from(BUFFERS)))

    kw = dict(depth=3 if big else 2, max_fields=6 if big else 4, cons=False)
    strings = Cfg(depth=1, max_fields=3, min_fields=1, cons=False, themes=False,
                  weights=dict(basic=2, str=10, uni=4, arr=4, tup=1, ref=1, cond=1, look=1))
    return st.one_of(mostly(case_strategy(Cfg(**kw), extra), case_strategy(Cfg(**kw, **USERS), extra)),
                     case_strategy(Cfg(**kw), extra), case_strategy(strings, extra))


def check(case):
    c, o, variant, places, kind = case
    w = world_of(c, variant)
    cls = w.cls(c.name)
    data = w.codec.encode(o)
    n = len(data)
    if n <= 40:
        cuts = list(range(n))
    else:
        starts = [len(w.codec.encode(o, part=i)) for i in range(len(members(c)))][:20]
        cuts = sorted({*range(12), *range(n - 12, n), *(p % n for p in places)} |
                      {p + i for p in starts for i in (-1, 0, 1, 2, 4) if 0 <= p + i < n})
    old = call('creating an instance', w.build, o)
    for i, cut in enumerate(cuts):
        for j, method in enumerate(METHODS):
            if not method.startswith('create') and (i + j) % 3:
                continue
            prefix = b'' if method.endswith('unpack') or i % 2 else b'\0\1\2'
            try:
                back, pos = unpack(cls, method, data[:cut], prefix=prefix, old=old,
                                   kind=kind, stream='buffered' if i % 4 == 3 else 'bytes')
            except (ValueError, struct.error):
                continue
            except Violation:
                raise
            except Exception as e:
                raise Violation(f'{method} of the first {cut} of {n} bytes raised {type(e).__name__}: {e}') from e
            raise Violation(f'{method} of the first {cut} of {n} bytes of {show(data)} gives {back}')
    labels = shape_labels(c) | obj_labels(o) | {f'cuts:{len(cuts) // 10 * 10}'}
    if complex_member(c) and n > 1:
        labels.add('nontrivial')
    return labels
