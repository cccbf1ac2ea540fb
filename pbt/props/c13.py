"""Unions."""
from dataclasses import replace

from .common import *

RULE = ('the class has a union with at least two alternatives (the default counts) of different layout which is not '
        'its only member, or the decision is unmapped')
EXAMPLES = dict(quick=6700, thorough=140000)
ASSUMPTIONS = ['deciders return hashable values', 'streams are seekable when a look-ahead union is unpacked from them']


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        # change a key to something else
        new = None
        keys = [(n, h) for n, h in attrs(c) if (c.name, n) in g.domains]
        if keys:
            n, h = g.pick(keys)
            pool = {Cust: (99, 98, 0, 1, 2, 3, 100), Int: (99, 98, 0, 1, 2, 3, 127), Chr: (b'q1', b'q2', b'ab'), Bool: (True, False)}.get(
                type(h), ('q', '', 'a', 'b') if isinstance(h, Uni) else (b'q', b'', b'a'))
            new = (n, g.pick(pool))
        return (g.instance(c), new, draw(st.sampled_from([0, 1, 3])), draw(st.binary(max_size=9)),
                draw(st.booleans()), draw(st.sampled_from(BUFFERS)))

    weights = dict(look=9, ahead=9, basic=5, str=3, uni=1, tup=3, arr=3, ref=3, cond=2)
    cfg = Cfg(depth=3 if big else 2, max_fields=5 if big else 4, long_runs=False, weights=weights)
    few = replace(cfg, max_fields=2)
    return mostly(st.one_of(case_strategy(cfg, extra), case_strategy(few, extra), case_strategy(replace(few, depth=3), extra)),
                  case_strategy(replace(few, **USERS), extra))


def source(case):
    c, o, variant, other, new, offset, junk, spies, kind = case
    return source_of(spied(c) if spies else c, variant)


def check(case):
    c, o, variant, other, new, offset, junk, spies, kind = case
    if spies:
        c = spied(c)
    w = World(define(source(case)), c)
    labels = shape_labels(c)
    data = w.codec.encode(o)
    obj = call('creating an instance', w.build, o)
    n = 0
    for how, fn in (('pack', lambda: pack(obj)), ('pack_into', lambda: pack_into(obj, len(data), offset)),
                    ('pack_write', lambda: pack_write(obj, bytes(offset)))):
        w.mod.SPY.clear()
        got = fn()
        if got != data:
            raise Violation(f'{show(o, 2000)}\n{how} gives {show(got, 2000)}\nexpected {show(data, 2000)}')
        n += check_spies(w, c, o, how, True)
        if obj.serializer.size != len(data):
            raise Violation(f'{show(o, 2000)}\n{how} reports size {obj.serializer.size}, expected {len(data)}')
    want = ('ok', o, len(data))
    after = b'' if is_final(Ref(c)) else junk
    for method in METHODS:
        w.mod.SPY.clear()
        agree(w, c, data + (after if method.endswith('_from') or method.endswith('_read') else b''), want, [method],
              old=other, prefix=bytes(offset), kind=kind)
        n += check_spies(w, c, o, method, False, None if method.startswith('create') else other)
    if n:
        labels.add('decider spied upon')
    # another decision
    if new is not None:
        field, key = new
        names = [x for x, _ in attrs(c)]
        i = names.index(field)
        changed = Obj(o.cls, o.vals[:i] + (key,) + o.vals[i + 1:])
        try:
            w.codec.encode(changed)
        except model.Reject:
            bad = call('creating an instance', w.build, o)
            setattr(bad, field, key)
            must_reject_packing(bad, f'an unmapped decision: {show(changed, 2000)}')
            for how in ('pack', 'pack_into', 'pack_write'):
                try:
                    getattr(bad, how)(*{'pack': (), 'pack_into': (bytearray(200_000), offset),
                                        'pack_write': (io.BytesIO(),)}[how])
                except ValueError:
                    pass
                except Exception as e:
                    raise Violation(f'{how} of an unmapped decision raised {type(e).__name__}: {e}, '
                                    f'expected ValueError\n{show(changed, 2000)}') from e
            labels |= {'unmapped when packing', 'nontrivial'}
        except Exception:
            pass  # the value does not fit the other alternative
        j = [x for x, _ in members(c)].index(field)
        at = len(w.codec.encode(o, part=j))
        end = len(w.codec.encode(o, part=j + 1))
        try:
            prefix = w.codec.encode(changed, part=j + 1)
        except Exception:
            prefix = None
        if prefix is not None and prefix[:at] == data[:at]:
            bad = prefix + data[end:] + junk
            want = model_outcome(w, c, bad)
            labels.add(f'changed key: {want[0]} {want[1].split()[0] if want[0] == "reject" else ""}')
            errors = CLEAN
            if want[0] == 'reject' and want[1].startswith('unmapped'):
                errors = ValueError
                labels.add('nontrivial')
            agree(w, c, bad, want, old=other, prefix=bytes(offset), kind=kind, errors=errors)
    # look-ahead: an unmapped value read ahead
    for i, (name, h) in enumerate(members(c)):
        if isinstance(h, Ahead) and isinstance(bare(h.ra), (Int, Chr)):
            at = len(w.codec.encode(o, part=i))
            new_tag = struct.pack(c.bo + basic_fmt(bare(h.ra)), 99 if isinstance(bare(h.ra), Int) else b'q9')
            bad = data[:at] + new_tag + data[at + len(new_tag):] + junk
            want = model_outcome(w, c, bad)
            errors = CLEAN
            if want[0] == 'reject' and want[1].startswith('unmapped'):
                errors = ValueError
                labels |= {'nontrivial', 'unmapped read ahead'}
            agree(w, c, bad, want, old=other, prefix=bytes(offset), kind=kind, errors=errors)
            break
    # as before
    packs_to(w, c, o, data)
    reused(w, c, (o, other, o, other), offset)
    for h in walk_class(c):
        if isinstance(h, (Look, Ahead)):
            alts = {x for _, x in h.alts} | ({h.default} if h.default is not None else set())
            labels.add(f'{type(h).__name__} alternatives: {len(alts)}{" with default" if h.default else ""}')
            if len(alts) > 1 and len(members(c)) > 1:
                labels.add('nontrivial')
    return labels
