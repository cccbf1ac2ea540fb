"""No side effects on instances, values and buffers."""
import gc
from dataclasses import replace

from .common import *
from .c06 import has_self

RULE = ('the class has a member with a mutable value (a list or a nested instance) or one which takes its bytes from the '
        'buffer, and another member')
EXAMPLES = dict(quick=9600, thorough=200000)
ASSUMPTIONS = ['defaults of conditions are immutable']


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (g.instance(c), draw(st.sampled_from(BUFFERS)), draw(st.sampled_from([0, 1, 3])),
                draw(st.sampled_from(('values', 'bare', 'junk', 'other', 'shared'))), draw(st.integers(0, 10_000)),
                draw(st.sampled_from(BYTE_ORDERS)))

    cfg = Cfg(features=ALL - {'noise'}, depth=3 if big else 2, max_fields=6, junk=True,
              weights=dict(arr=6, str=5, basic=5))
    return st.one_of(case_strategy(cfg, extra),
                     case_strategy(replace(cfg, max_fields=3, static_counts=(0, 0, 1)), extra))


def snap(v, seen=None):
    """Everything there is to a value, with identities."""
    if hasattr(v, '__dict__') and not isinstance(v, type):
        own = tuple((n, snap(x)) for n, x in vars(v).items() if n != 'serializer' and n[:1] != '_')
    else:
        own = ()
    if isinstance(v, (list, tuple)):
        return id(v), type(v), tuple(map(snap, v)), own
    if isinstance(v, (int, float, str, bytes, bytearray)):
        return id(v), type(v), repr(v), own
    return id(v), type(v), own


def state(cls):
    return {k: getattr(cls, k) for k in ('attrs', 'byte_order', '__name__')}


def scribble(v, done):
    """Change a value as much as possible."""
    if id(v) in done:
        return
    done.add(id(v))
    if isinstance(v, list):
        for x in v:
            scribble(x, done)
        v[:1] = []
        v += ['changed', 'changed too']
        v.reverse()
    elif isinstance(v, tuple):
        for x in v:
            scribble(x, done)
    elif hasattr(v, 'attrs'):
        for n in v.attrs:
            scribble(getattr(v, n), done)
            setattr(v, n, 'changed')
    elif hasattr(v, 'raw'):
        v.raw = 'changed'


def check(case):
    c, o, variant, second, kind, offset, how_old, cut, bo = case
    w = world_of(c, variant)
    cls = w.cls(c.name)
    data = w.codec.encode(o)
    want = w.codec.decode(c, data)[0]
    labels = shape_labels(c) | {f'old: {how_old}', f'buffer: {kind}'}
    classes = {n: state(w.cls(n)) for n in w.classes}

    def quiet(what, before, *objs):
        for x, b in zip(objs, before, strict=True):
            if snap(x) != b:
                raise Violation(f'{what} has changed the {type(x).__name__} to {show(x, 2000)}')
        for n, b in classes.items():
            if state(w.cls(n)) != b:
                now = state(w.cls(n))
                raise Violation(f'{what} has changed the class {n}: {[k for k in now if now[k] != b.get(k)]}')

    # packing
    obj = call('creating an instance', w.build, o)
    obj.more = [1]
    before = [snap(obj)]
    if pack(obj) != data:
        raise Violation(f'{show(o, 2000)} packs to {show(pack(obj), 2000)}, expected {show(data, 2000)}')
    quiet('pack()', before, obj)
    pack_into(obj, len(data), offset)
    quiet('pack_into()', before, obj)
    pack_write(obj, bytes(offset))
    quiet('pack_write()', before, obj)
    # as well if it fails
    room = cut % (len(data) + offset) if len(data) else 0
    if len(data):
        try:
            obj.pack_into(bytearray(room), offset)
        except Exception:
            labels.add('failed packing')
        else:
            raise Violation(f'{room} bytes are enough to pack {len(data)} bytes at {offset}')
        quiet('pack_into() a small buffer', before, obj)
    bad = w.build(o)
    if c_names := [n for n, _ in attrs(c)]:
        setattr(bad, c_names[cut % len(c_names)], _Bad([object()]) if cut % 2 else bytearray(b'ab'))
        b = [snap(bad)]
        try:
            bad.pack()
        except Exception:
            pass
        quiet('pack() of an unfit value', b, bad)
    if not has_self(c):
        call('with_byte_order', obj.with_byte_order, w.lib.ByteOrder(bo))
        quiet('with_byte_order()', before, obj)

    # unpacking
    first = None
    for method in METHODS:
        prefix = b'' if method.endswith('unpack') else bytes(offset)
        whole = prefix + data
        keep = []
        old = None
        if not method.startswith('create'):
            if how_old == 'bare':
                old = cls.__new__(cls)
            else:
                old = w.build(second)
                if how_old == 'junk':
                    for n in c_names:
                        setattr(old, n, object())
                elif how_old == 'other' and first is not None:
                    for n in c_names:
                        setattr(old, n, getattr(first, n))
                elif how_old == 'shared':
                    for n in c_names:
                        setattr(old, n, keep)
            old.more = more = [2]
            keep = [keep] + [getattr(old, n) for n in c_names if hasattr(old, n)]
        held = [snap(x) for x in keep]
        if method.endswith('read'):
            buf = Stream(whole)
            buf.seek(offset)
            args = (buf,)
        else:
            buf = make_buffer(kind, whole)
            args = (buf, offset) if method.endswith('from') else (buf,)
        if old is None:
            back = call(f'{method} of {show(data, 2000)}', getattr(cls, method), *args)
        else:
            back = old
            call(f'{method} of {show(data, 2000)}', getattr(old, method), *args)
        # the buffer
        now = buf.getvalue() if method.endswith('read') else bytes(buf)
        if now != whole:
            raise Violation(f'{method} has changed the buffer {show(whole, 1000)} to {show(now, 1000)}')
        quiet(method, held, *keep)
        got = w.lift_obj(c, back)
        if not same(got, want):
            raise Violation(f'{method} of {show(data, 2000)} gives\n{show(got, 2000)}\nexpected\n{show(want, 2000)}')
        if old is not None:
            if getattr(old, 'more', None) is not more or more != [2]:
                raise Violation(f'{method} has changed another attribute to {getattr(old, 'more', None)!r}')
            if {n for n in vars(old) if n[:1] != '_'} != {*c_names, 'more'}:
                raise Violation(f'{method} leaves the attributes {list(vars(old))}')
        # changes of the buffer do not matter
        b = snap(back)
        if method.endswith('read'):
            gc.collect(0)
            call(f'changing the stream after {method}', buf.seek, 0)
            call(f'changing the stream after {method}', buf.write, bytes(x ^ 0xFF for x in whole))
            call(f'changing the stream after {method}', buf.truncate, 0)
        elif kind in WRITABLE and whole:
            if kind != 'bytearray' and kind != 'mmap':
                struct.pack_into(f'{len(whole)}s', buf, 0, bytes(x ^ 0xFF for x in whole))
            else:
                buf[:] = bytes(x ^ 0xFF for x in whole)
            if kind == 'bytearray':
                gc.collect(0)
                call(f'resizing the buffer after {method}', buf.clear)
        if snap(back) != b:
            raise Violation(f'after {method}, a change of the buffer changes the object to {back}')
        # and those of another object neither
        if first is not None:
            b = snap(back)
            scribble(first, done := set())
            if first is not back and snap(back) != b:
                raise Violation(f'{method}: changing one object changes another: {show(back, 2000)}')
        first = back
        # not enough data
        short = whole[:len(prefix) + cut % len(data)] if len(data) else whole
        buf = make_buffer(kind, short)
        if not method.endswith('read'):
            try:
                if method.startswith('create'):
                    getattr(cls, method)(buf, *args[1:])
                else:
                    getattr(w.build(second), method)(buf, *args[1:])
            except Exception:
                labels.add('failed unpacking')
            if bytes(buf) != short:
                raise Violation(f'a failing {method} has changed the buffer {show(short)} to {show(bytes(buf))}')
    # what was done to the objects does not matter to the class
    scribble(first, set())
    back = call('create_unpack()', cls.create_unpack, data)
    got = w.lift_obj(c, back)
    if not same(got, want):
        raise Violation(f'after changes of other objects {show(data, 2000)} unpacks to\n{show(got, 2000)}\nexpected\n{show(want, 2000)}')
    quiet('all of it', before, obj)
    packs_to(w, c, o, data, 0, obj)
    mutable = any(isinstance(h, (Arr, Ref, SelfRef)) for h in walk_class(c))
    sliced = any(isinstance(h, (Chr, Pas, Dyn, Term, Net, Cons)) for h in walk_class(c))
    if (mutable or sliced) and len(c_names) > 1:
        labels.add('nontrivial')
    if mutable:
        labels.add('mutable values')
    return labels


class _Bad(list):
    """Fits nothing, and can be changed."""

