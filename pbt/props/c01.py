"""Round trip through pack() and create_unpack()."""
from .common import *

RULE = ('the class has at least two serialized members, one of them not a basic type, '
        'and the instance packs to at least one byte')
EXAMPLES = dict(quick=9000, thorough=160000)
ASSUMPTIONS = ['values fit their hints: fixed char values have exactly the fixed length, terminated strings '
               'do not contain their terminator, text does not end in NUL']


def strategy(tier):
    big = tier == 'thorough'
    kw = dict(depth=3 if big else 2, max_fields=7 if big else 5)
    return mostly(case_strategy(Cfg(**kw)), case_strategy(Cfg(**kw, **USERS)))


def check(case):
    c, o, variant = case
    w = world_of(c, variant)
    cls = w.cls(c.name)
    orig = call('creating an instance', w.build, o)
    data = pack(orig)
    back, _ = must_unpack(w, cls, 'create_unpack', data)
    got = w.lift_obj(c, back)
    if not same(got, o):
        raise Violation(f'packed {o!r}\nto {show(data)}\nunpacked {got!r}')
    if not has_nan(o):
        if not (back == orig and orig == back):
            raise Violation(f'{back} != {orig} though all values are equal')
    if pack(back) != data:
        raise Violation('the unpacked object packs to other bytes')
    labels = shape_labels(c) | obj_labels(o)
    if complex_member(c) and data:
        labels.add('nontrivial')
    return labels
