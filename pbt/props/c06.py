"""Byte orders."""
from dataclasses import replace

from .common import *

RULE = ('the bytes of the instance differ between little and big endian, in a member which is not basic, '
        'and the instance is switched to another byte order')
EXAMPLES = dict(quick=6000, thorough=120000)
ASSUMPTIONS = ['a nested class inside of a look-ahead union has the order of the outer class, so such a class is not '
               'switched: what is read ahead follows the outer class',
               '.NET length prefixes are in the machine\'s byte order whatever the class says',
               'classes with __slots__ throughout (no room for another serializer) are not switched',
               'classes which contain Self are only checked as defined, not after a switch of byte order: '
               'whether nested instances follow is not documented']
FEATURES = ALL - {'self'}


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (g.instance(c), draw(st.lists(st.sampled_from(BYTE_ORDERS), min_size=1, max_size=4)),
                draw(st.sampled_from(BYTE_ORDERS)), draw(st.sampled_from([0, 1, 3])))

    kw = dict(depth=3 if big else 2, max_fields=6 if big else 4, size_codes='BHHIIQQ')
    return st.one_of(case_strategy(Cfg(features=FEATURES, ahead_ref=False, ahead_self=False, **kw), extra),
                     case_strategy(Cfg(features=FEATURES, ahead_ref=False, ahead_self=False, **kw), extra),
                     case_strategy(Cfg(**kw), extra))


def twin(case):
    """The same members in a class with another byte order."""
    c = case[0]
    return ClassSpec('Twin', case[5], c.fields)


def has_self(c):
    return any(isinstance(h, SelfRef) for h in walk_class(c)) or \
        any(isinstance(h, Ahead) and contains(h, Ref) for h in walk_class(c))


def source(case):
    c, o, variant = case[:3]
    if has_self(c):
        return source_of(c, variant)
    return render.module_src(c, twin(case), variant=variant)


def switch_nested(w, c, o, orders):
    """The instance with the nested instances switched to the byte orders in
    turn: (library object, model object, number of switched instances)."""
    names = {h.cls.name: h.cls for _, f in members(c) for h in walk_shallow(f) if isinstance(h, Ref)}
    names = {n: x for n, x in names.items() if not has_self(x)}
    count = 0

    def visit(real, v):
        nonlocal count
        if isinstance(v, Obj) and v.cls in names:
            bo = orders[count % len(orders)]
            count += 1
            new = f'{v.cls}~{bo}'
            w.codec.classes[new] = ClassSpec(new, bo, names[v.cls].fields)
            return call(f'with_byte_order({bo!r})', real.with_byte_order, w.lib.ByteOrder(bo)), Obj(new, v.vals)
        if isinstance(v, (list, tuple)) and type(v) is type(real) and len(v) == len(real):
            pairs = [visit(a, b) for a, b in zip(real, v)]
            return type(v)(a for a, _ in pairs), type(v)(b for _, b in pairs)
        return real, v

    obj = call('creating an instance', w.build, o)
    pairs = [visit(getattr(obj, n), v) for (n, _), v in zip(attrs(c), o.vals)]
    return w.cls(c.name)(*(a for a, _ in pairs)), Obj(o.cls, tuple(b for _, b in pairs)), count


def check(case):
    c, o, variant, other, orders, twin_order, offset = case
    recursive = has_self(c)
    t = c if recursive else twin(case)
    w = World(define(source(case)), c, t)
    lib = w.lib
    data = w.codec.encode(o)
    labels = shape_labels(c) | {f'order {c.bo!r}'}
    obj = packs_to(w, c, o, data, offset)
    agree(w, c, data, ('ok', o, len(data)), old=other)
    if recursive:
        return labels | {'recursive'}
    # another class with the same hints
    ot = replace(o, cls='Twin')
    dt = w.codec.encode(ot)
    twin_obj = packs_to(w, t, ot, dt)
    agree(w, t, dt, ('ok', ot, len(dt)), methods=METHODS[:3])
    # switching
    insts = [(obj, c.bo)]
    seen = {c.bo}
    for bo in orders:
        src, src_bo = insts[-1]
        new = call(f'with_byte_order({bo!r})', src.with_byte_order, lib.ByteOrder(bo))
        seen.add(bo)
        if type(new) is not w.cls(c.name):
            raise Violation(f'with_byte_order gives {new!r}')
        if not same(w.lift_obj(c, new), o):
            raise Violation(f'with_byte_order({bo!r}) changes the values to {new}')
        if not has_nan(o) and not new == obj:
            raise Violation(f'with_byte_order({bo!r}): {new} is not equal to {obj}')
        if new.byte_order is not lib.ByteOrder(bo):
            raise Violation(f'with_byte_order({bo!r}).byte_order is {new.byte_order}')
        if new is src and bo != src_bo:
            raise Violation('with_byte_order returned the instance itself')
        insts.append((new, bo))
    for inst, bo in insts:
        packs_to(w, c, o, w.codec.encode(o, bo), offset, inst)
    for inst, bo in insts[1:]:
        d = w.codec.encode(other, bo)
        for how in METHODS[3:]:
            try:
                _, pos = unpack(None, how, d, old=inst, prefix=b'' if how == 'unpack' else bytes(offset))
            except Violation:
                raise
            except Exception as e:
                raise Violation(f'{how} after with_byte_order({bo!r}) raised {type(e).__name__}: {e}') from e
            got = w.lift_obj(c, inst)
            if not same(got, other):
                raise Violation(f'{how} after with_byte_order({bo!r}) of {show(d)} gives\n{got!r}\nexpected\n{other!r}')
            if pos is not None and pos != len(d):
                raise Violation(f'{how} after with_byte_order({bo!r}) consumes {pos} of {len(d)} bytes')
            if inst.serializer.size != len(d):
                raise Violation(f'{how} after with_byte_order({bo!r}) reports {inst.serializer.size} of {len(d)} bytes')
        packs_to(w, c, other, w.codec.encode(other, bo), 0, inst)
    # nested instances of other byte orders than their classes
    mixed, om, count = switch_nested(w, c, o, orders)
    if count:
        labels.add(f'nested instances switched: {min(count, 3)}')
        packs_to(w, c, om, w.codec.encode(om), offset, mixed)
        packs_to(w, c, om, w.codec.encode(om, orders[-1]), offset,
                 call('with_byte_order()', mixed.with_byte_order, lib.ByteOrder(orders[-1])))
    # the original, its class and the other class are as before
    if all(inst is not insts[0][0] for inst, _ in insts[1:]):
        packs_to(w, c, o, data, offset, obj)
    agree(w, c, data, ('ok', o, len(data)), methods=METHODS[:3])
    packs_to(w, t, ot, dt, 0, twin_obj)
    cls = w.cls(c.name)
    if cls.byte_order is not lib.ByteOrder(c.bo):
        raise Violation(f'the class now has order {cls.byte_order}')
    le, be = w.codec.encode(o, '<'), w.codec.encode(o, '>')
    basic_only = all(isinstance(h, (*BASIC, Ref)) for _, h in members(c))
    if le != be:
        labels.add('order matters')
        if not basic_only and len(seen) > 1:
            labels.add('nontrivial')
    return labels
