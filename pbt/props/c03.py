"""pack() against the reference encoder."""
from .common import *

RULE = 'a member which is not basic contributes at least one byte and has a neighbour'
EXAMPLES = dict(quick=9000, thorough=200000)
ASSUMPTIONS = ['the reference encoder in pbt/model.py states the documented layout']


def strategy(tier):
    big = tier == 'thorough'
    kw = dict(depth=3 if big else 2, max_fields=7 if big else 5)
    return st.one_of(case_strategy(Cfg(**kw)), case_strategy(Cfg(fit=False, **kw)))


def check(case):
    c, o, variant = case
    w = world_of(c, variant)
    obj = call('creating an instance', w.build, o)
    want = w.codec.encode(o)
    got = pack(obj)
    if got != want:
        raise Violation(f'{o!r} packs to\n{show(got, 2000)}\nexpected\n{show(want, 2000)}')
    labels = shape_labels(c) | obj_labels(o)
    if complex_member(c) and want:
        labels.add('nontrivial')
    return labels
