"""The six unpacking methods agree and stop at the right place."""
from .common import *

RULE = 'at least two members, one not basic, at least two bytes, and bytes before or after the packing'
EXAMPLES = dict(quick=6000, thorough=120000)
ASSUMPTIONS = ['a stream which returns fewer bytes than asked for (while there are more) may also be rejected',
               'offsets are not negative']


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        other = g.instance(c)
        third = g.instance(c)
        return (other, third, draw(st.sampled_from(BUFFERS)), draw(st.binary(max_size=9)),
                b'' if is_final(Ref(c)) else draw(st.binary(max_size=9)))

    kw = dict(depth=3 if big else 2, max_fields=7 if big else 5)
    return mostly(case_strategy(Cfg(**kw), extra), case_strategy(Cfg(**kw, **USERS), extra))


def check(case):
    c, o, variant, other, third, kind, prefix, suffix = case
    w = world_of(c, variant)
    cls = w.cls(c.name)
    data = w.codec.encode(o)
    want, end = w.codec.decode(c, data)
    assert end == len(data)
    if not same(want, o):
        raise AssertionError(f'model does not round-trip {o!r}: {want!r}')

    def one(method, expected, data, **kw):
        old = None if method.startswith('create') else call('creating an instance', w.build, other)
        back, pos = must_unpack(w, cls, method, data, f' (offset {len(kw.get("prefix", b""))}, {kw})', old=old, **kw)
        got = w.lift_obj(c, back)
        if not same(got, expected):
            raise Violation(f'{method}({kw}) of {show(data)} gives\n{got!r}\nexpected\n{expected!r}')
        if pos is not None and pos != len(data):
            raise Violation(f'{method}({kw}) leaves the stream at {pos}, the packing ends at {len(data)}')

    for method in METHODS:
        if method.endswith('_read'):
            one(method, want, data)
            one(method, want, data, prefix=prefix, suffix=suffix, stream='buffered' if variant & 1 else 'bytes')
        elif method.endswith('_from'):
            one(method, want, data, kind=kind)
            one(method, want, data, prefix=prefix, suffix=suffix, kind=kind)
        else:
            one(method, want, data, kind=kind)
            one(method, want, data, suffix=suffix, kind=kind)
    labels = shape_labels(c) | obj_labels(o) | {kind}
    # An unbuffered stream may return fewer bytes than asked for: nothing is made up
    for limit in (1, 3, 200):
        f = ShortStream(prefix + data + suffix, limit)
        f.seek(len(prefix))
        try:
            back = cls.create_unpack_read(f)
        except (ValueError, struct.error):
            continue
        except Exception as e:
            raise Violation(f'create_unpack_read of a stream returning at most {limit} bytes: {type(e).__name__}: {e}') from e
        if not same(w.lift_obj(c, back), want):
            raise Violation(f'create_unpack_read of {show(data)} from a stream returning at most {limit} bytes gives\n'
                            f'{w.lift_obj(c, back)!r}\nexpected\n{want!r}')
        if f.tell() != len(prefix) + len(data):
            raise Violation(f'create_unpack_read from a stream returning at most {limit} bytes leaves it at '
                            f'{f.tell() - len(prefix)}, the packing ends at {len(data)}')
        labels.add('short reads')
    if not is_final(Ref(c)):
        # back to back
        all_data = [data, w.codec.encode(other), w.codec.encode(third)]
        objs = [o, other, third]
        f = io.BytesIO(prefix + b''.join(all_data) + suffix)
        if variant & 2:
            f = io.BufferedReader(f, 16)
        f.seek(len(prefix))
        pos = len(prefix)
        for x, d in zip(objs, all_data):
            at = pos
            pos += len(d)
            try:
                back = cls.create_unpack_read(f)
            except Exception as e:
                raise Violation(f'create_unpack_read of back-to-back objects raised {type(e).__name__}: {e}') from e
            if not same(w.lift_obj(c, back), x):
                raise Violation(f'create_unpack_read of back-to-back objects gives {w.lift_obj(c, back)!r}\nexpected {x!r}')
            if f.tell() != pos:
                raise Violation(f'create_unpack_read leaves the stream at {f.tell()}, expected {pos}')
            back = call('create_unpack_from', cls.create_unpack_from, prefix + b''.join(all_data) + suffix, at)
            if not same(w.lift_obj(c, back), x):
                raise Violation(f'create_unpack_from({at}) gives {w.lift_obj(c, back)!r}\nexpected {x!r}')
        labels.add('back to back')
    if complex_member(c) and len(data) > 1 and (prefix or suffix):
        labels.add('nontrivial')
    return labels
