"""What most properties share."""
from __future__ import annotations

import io
import struct

from .. import model, render, sut
from ..gen import *
from ..spec import *
from ..sut import *


CLEAN = (ValueError, struct.error)  # how invalid input may be rejected


def source_of(c: ClassSpec, variant: int) -> str:
    return render.module_src(c, variant=variant)


def world_of(c: ClassSpec, variant: int) -> World:
    return World(define(source_of(c, variant)), c)


def source(case):
    return source_of(case[0], case[2])


def shape_labels(c: ClassSpec):
    """Labels which describe a class."""
    out = set()
    for h in walk_class(c):
        out.add(type(h).__name__)
        if isinstance(h, (Tup, Arr, Look, Ahead, Cond)):
            for x in children(h):
                if not isinstance(x, BASIC):
                    out.add(f'{type(h).__name__}[{type(x).__name__}]')
    n = sum(1 for _ in members(c))
    out.add(f'members:{min(n, 5) if n < 9 else "9+"}')
    out.add(f'depth:{max([depth(h) for _, h in c.fields] or [0])}')
    if len({b.bo for b in classes_of(c).values()}) > 1:
        out.add('mixed byte orders')
    if c.bo in '><!' and c.bo:
        out.add('explicit byte order')
    return out


def complex_member(c):
    """At least two members, one of which is not basic."""
    m = members(c)
    return len(m) >= 2 and any(not isinstance(h, BASIC) for _, h in m)


def obj_labels(o: Obj):
    out = set()

    def visit(v):
        if isinstance(v, (bytes, str, tuple, list)) and len(v) == 0:
            out.add('empty value')
        if isinstance(v, (bytes, str)) and len(v) > 100:
            out.add('long string')
        if isinstance(v, list) and len(v) > 8:
            out.add('long array')
        if isinstance(v, Obj):
            for x in v.vals:
                visit(x)
        elif isinstance(v, (list, tuple)):
            for x in v[:4]:
                visit(x)

    visit(o)
    return out


def has_nan(v) -> bool:
    if isinstance(v, float):
        return v != v
    if isinstance(v, Obj):
        return has_nan(v.vals)
    if isinstance(v, (list, tuple)):
        return any(map(has_nan, v))
    return False


def must_unpack(w, cls, method, data, what='', **kw):
    try:
        return unpack(cls, method, data, **kw)
    except (Violation, Skip):
        raise
    except Exception as e:
        raise Violation(f'{method} of a valid packing{what} raised {type(e).__name__}: {e}; bytes {show(data)}') from e


def model_outcome(w, c, data, pos=0, bo=None):
    """('ok', Obj, size) or ('reject', reason, None)."""
    try:
        o, end = w.codec.decode(c, data, pos, bo)
    except model.Reject as e:
        return 'reject', str(e), None
    except model.TooBig:
        raise Skip from None
    return 'ok', o, end - pos


def agree(w, c, data, want, methods=METHODS, old=None, prefix=b'', kind='bytes', stream='bytes', errors=CLEAN):
    """Every method decodes `data` as the model does (`want`)."""
    cls = w.cls(c.name)
    for method in methods:
        if method.endswith('unpack'):
            kw = dict(kind=kind)
        elif method.endswith('_from'):
            kw = dict(kind=kind, prefix=prefix)
        else:
            kw = dict(stream=stream, prefix=prefix)
        o = None
        if not method.startswith('create'):
            o = call('creating an instance', w.build, old)
        try:
            back, pos = unpack(cls, method, data, old=o, **kw)
        except Violation:
            raise
        except Exception as e:
            if want[0] == 'ok':
                raise Violation(f'{method}({kw}) of {show(data, 2000)} raised {type(e).__name__}: {e}\n'
                                f'expected {show(want[1], 2000)}') from e
            if kw.get('stream') == 'buffered' and isinstance(e, MemoryError):
                continue  # raised by the stream itself, for lengths no buffer can have
            if not isinstance(e, errors):
                raise Violation(f'{method}({kw}) of {show(data, 2000)} raised {type(e).__name__}: {e}\n'
                                f'expected a clean rejection ({want[1]})') from e
            continue
        if want[0] == 'reject':
            raise Violation(f'{method}({kw}) of {show(data, 2000)} gives {show(back)}\nexpected a rejection: {want[1]}')
        got = w.lift_obj(c, back)
        if not same(got, want[1]):
            raise Violation(f'{method}({kw}) of {show(data, 2000)} gives\n{show(got, 2000)}\nexpected\n{show(want[1], 2000)}')
        if pos is not None and pos != want[2]:
            raise Violation(f'{method}({kw}) of {show(data, 2000)} consumes {pos} bytes, expected {want[2]}')
        size = (back if back is not None else cls).serializer.size
        if size != want[2]:
            raise Violation(f'{method}({kw}) of {show(data, 2000)} reports size {size}, expected {want[2]}')


def packs_to(w, c, o, want, offset=0, obj=None):
    """All packing methods give `want`."""
    obj = obj or call('creating an instance', w.build, o)
    for how, got in (('pack()', pack(obj)), (f'pack_into({offset})', pack_into(obj, len(want), offset)),
                     ('pack_write()', pack_write(obj, bytes(offset)))):
        if got != want:
            raise Violation(f'{show(o, 2000)}\n{how} gives {show(got, 2000)}\nexpected {show(want, 2000)}')
        if obj.serializer.size != len(want):
            raise Violation(f'{show(o, 2000)}\n{how} reports size {obj.serializer.size}, expected {len(want)}')
    return obj


def must_reject_packing(obj, what, room=200_000, errors=Exception):
    """None of the packing methods accepts the object."""
    def into():
        obj.pack_into(bytearray(room), 3)

    for how, fn in (('pack()', obj.pack), ('pack_into()', into), ('pack_write()', lambda: obj.pack_write(io.BytesIO()))):
        try:
            res = fn()
        except errors:
            continue
        raise Violation(f'{how} accepts {what}: {show(res) if res is not None else ""}')


def morph(old, new):
    """Turn the value `old` into `new`, changing lists and instances in place."""
    if type(old) is list and type(new) is list:
        old[:] = [morph(a, b) for a, b in zip(old, new)] + new[len(old):]
        return old
    if type(old) is type(new) and hasattr(old, 'attrs') and hasattr(old, 'serializer'):
        for n in old.attrs:
            setattr(old, n, morph(getattr(old, n), getattr(new, n)))
        return old
    return new


def reused(w, c, objs, k=0):
    """One instance which takes the values of one object after the other, packed
    after each change; then one which is filled with one packing after the other."""
    obj = None
    packings = [w.codec.encode(o) for o in objs]
    for i, (o, want) in enumerate(zip(objs, packings)):
        new = call('creating an instance', w.build, o)
        obj = new if obj is None else morph(obj, new)
        how = ('pack', 'pack_into', 'pack_write')[(i // 2 + k) % 3]
        got = pack(obj) if how == 'pack' else pack_into(obj, len(want), 1) if how == 'pack_into' else pack_write(obj)
        if got != want:
            raise Violation(f'{how}() of an instance changed from {show(objs[i - 1], 2000)}\nto {show(o, 2000)}\n'
                            f'gives {show(got, 2000)}, expected {show(want, 2000)}')
        if obj.serializer.size != len(want):
            raise Violation(f'{how}() of a changed instance reports size {obj.serializer.size}, expected {len(want)}')
    for i, data in enumerate(packings):
        o = w.codec.decode(c, data)[0]
        method = METHODS[3 + (i // 2 + k) % 3]
        try:
            unpack(w.cls(c.name), method, data, old=obj)
        except Exception as e:
            raise Violation(f'{method} into an instance used before raised {type(e).__name__}: {e}; {show(data, 2000)}') from e
        got = w.lift_obj(c, obj)
        if not same(got, o):
            raise Violation(f'{method} of {show(data, 2000)} into an instance used before gives\n{show(got, 2000)}\n'
                            f'expected\n{show(o, 2000)}')


# --- spies ------------------------------------------------------------------------


def rebuild(h, f):
    """The hint with f applied to every hint inside of it, bottom up; does not
    enter nested classes."""
    if isinstance(h, Tup):
        h = Tup(tuple(rebuild(x, f) for x in h.items))
    elif isinstance(h, Arr):
        h = Arr(h.count, h.size, rebuild(h.item, f))
    elif isinstance(h, Cond):
        h = Cond(rebuild(h.inner, f), h.sel, h.default)
    elif isinstance(h, Look):
        h = Look(h.sel, tuple((k, rebuild(x, f)) for k, x in h.alts), h.default and rebuild(h.default, f))
    elif isinstance(h, Ahead):
        h = Ahead(h.ra, h.sel, tuple((k, rebuild(x, f)) for k, x in h.alts), h.default and rebuild(h.default, f))
    return f(h)


def spied(c: ClassSpec) -> ClassSpec:
    """The class with deciders and conditions which record what they see."""
    done: dict = {}

    def one(c):
        if c.name not in done:
            names = tuple(n for n, _ in attrs(c))
            pads = 0

            def spy(name):
                def f(h):
                    if isinstance(h, Ref):
                        return Ref(one(h.cls))
                    from dataclasses import replace
                    if isinstance(h, Usr) and h.pre in ('self', 'new', 'pack', 'unpack'):
                        return replace(h, spot=(c.name, name, names))
                    if isinstance(h, (Cond, Look, Ahead)):
                        return replace(h, sel=Sel('spy', name, (h.sel, c.name, names)))
                    return h
                return f

            fields = []
            for n, h in c.fields:
                if is_pad(h):
                    pads += 1
                    spot = f'pad after {fields_before(fields)}'
                else:
                    spot = n
                fields.append((n, rebuild(h, spy(spot))))
            done[c.name] = ClassSpec(c.name, c.bo, tuple(fields))
        return done[c.name]

    def fields_before(fields):
        return sum(1 for _, h in fields if not isinstance(h, Noise) and not is_pad(h))

    return one(c)


def instances(w, o: Obj, out=None):
    """All instances inside of an object, by class name."""
    out = {} if out is None else out

    def visit(v):
        if isinstance(v, Obj):
            out.setdefault(v.cls, []).append(v)
            for x in v.vals:
                visit(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                visit(x)

    visit(o)
    return out


def check_spies(w, c, o, what, packing, old=None):
    """What the spies have recorded in an operation on the object."""
    events = list(w.mod.SPY)
    w.mod.SPY.clear()
    found = instances(w, o)
    built = {}
    for cls, field, seen in events:
        spec = w.classes[cls]
        names = [n for n, _ in attrs(spec)]
        i = names.index(field) if field in names else int(field.rsplit(' ', 1)[-1])
        got_names = [n for n, _ in seen]
        if cls not in built:
            built[cls] = [w.build_values(spec, x) for x in found.get(cls, [])]
        full = packing or (old is not None and cls == c.name and len(got_names) == len(names))
        if got_names != (names if full else names[:i]):
            raise Violation(f'{what}: the decider of {cls}.{field} sees {got_names}, expected {names[:i]}')
        want_n = len(names) if packing else i
        for lowered in built[cls]:
            if all(alike(a, b) for (_, a), b in zip(seen[:want_n], lowered)):
                if lowered is not built[cls][0]:  # most likely the next one, too
                    built[cls] = [x for x in built[cls] if x is not lowered]
                    built[cls].insert(0, lowered)
                break
        else:
            raise Violation(f'{what}: the decider of {cls}.{field} sees {show(seen, 1000)}, which is no {cls} in {show(o, 2000)}')
    return len(events)


def alike(a, b):
    return a == b or a != a and b != b or has_nan_obj(b)


def has_nan_obj(v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, (list, tuple)):
        return any(map(has_nan_obj, v))
    if hasattr(v, 'attrs'):
        return any(has_nan_obj(getattr(v, n)) for n in v.attrs)
    return isinstance(getattr(v, 'raw', None), float) and v.raw != v.raw
