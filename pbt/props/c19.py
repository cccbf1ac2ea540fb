"""Consume-everything strings are only accepted in final position."""
from __future__ import annotations

from .c09 import reads
from .common import *

RULE = 'a class definition contains a consume-everything string, directly or inside of another hint'
EXAMPLES = dict(quick=9000, thorough=200000)
ASSUMPTIONS = ['no class with a consume-everything string has members of its own type (Self)',
               'what is read ahead of a union is not a consume-everything string']


class GC(G):
    """Puts consuming strings everywhere."""

    wild = 14

    def hint(self, ctx, depth, final=False, top=False, item=False):
        return super().hint(ctx, depth, final=final or self.chance(self.wild), top=top, item=item)

    def tagged_hint(self, ra, depth, bo, final, *args, **kwargs):
        return super().tagged_hint(ra, depth, bo, final or self.chance(6), *args, **kwargs)


def inject(g, c, last):
    """The class with one leaf replaced by a consuming string."""
    used = reads(c)
    spots = [i for i, (n, h) in enumerate(c.fields) if n not in used and n[0] != 'k' and n != 'tag' and not is_pad(h)]
    if not spots:
        return c
    i = spots[-1] if last else g.pick(spots)

    def put(h):
        if isinstance(h, Tup):
            at = [j for j, x in enumerate(h.items) if not is_pad(x)]
            j = at[-1] if last and not g.chance(4) else g.pick(at)
            return Tup(h.items[:j] + (put(h.items[j]),) + h.items[j + 1:])
        if isinstance(h, Arr):
            return Arr(h.count, h.size, put(h.item)) if not last else Cons()
        if isinstance(h, Cond):
            return Cond(put(h.inner), h.sel, h.default)
        if isinstance(h, Look):
            if h.default is not None and g.chance(3):
                return Look(h.sel, h.alts, put(h.default))
            j = g.int(0, len(h.alts) - 1)
            return Look(h.sel, h.alts[:j] + ((h.alts[j][0], put(h.alts[j][1])),) + h.alts[j + 1:], h.default)
        if isinstance(h, Ref):
            return Ref(inject(g, h.cls, last))
        if isinstance(h, Uni):
            return Uni(Cons(), h.enc)
        if isinstance(h, Ahead):
            return h
        return Cons()

    n, h = c.fields[i]
    return ClassSpec(c.name, c.bo, c.fields[:i] + ((n, put(h)),) + c.fields[i + 1:])


def verdict(h):
    """'bad': the hint itself is rejected; else whether it consumes everything."""
    if isinstance(h, Cons):
        return True
    if isinstance(h, Uni):
        return verdict(h.style)
    if isinstance(h, Tup):
        return in_a_row(h.items)
    if isinstance(h, Arr):
        return 'bad' if verdict(h.item) else False
    if isinstance(h, Ref):
        return in_a_row([x for _, x in members(h.cls)]) is True
    if isinstance(h, Cond):
        return verdict(h.inner)
    if isinstance(h, (Look, Ahead)):
        out = [verdict(x) for x in children(h)]
        return 'bad' if 'bad' in out else any(out)
    return False


def in_a_row(hints):
    out = list(map(verdict, hints))
    return 'bad' if 'bad' in out or any(out[:-1]) else bool(out and out[-1])


FORMS = ('flat', 'flat', 'split', 'redefined', 'generic', 'generic member', 'wrapped')


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        cfg = Cfg(features=ALL - {'self', 'noise'}, depth=3 if big else draw(st.sampled_from((1, 2, 2, 3))), max_fields=5 if big else 4,
                  min_fields=1, long_runs=False, weights=dict(tup=4, cond=4, look=4, ref=4, ahead=2))
        g = GC(draw, cfg)
        g.wild = g.pick((1000, 1000, 24, 12))
        c = g.cls()
        if not any(map(cons_inside, walk_all(c))) and not g.chance(8):
            c = inject(g, c, g.chance(2))
        if g.chance(3):
            extra = g.pick((('z', Int('B')), ('_', Pad(1)), ('_', Pad(0)), ('z', Chr(0)), ('z', Noise('int')), ('z', Noise('ClassVar[str]')),
                            ('z', Noise('tuple[char[math.inf], uint8, str]')), ('z', Arr('B', None, Int('H'))), ('z', Dyn('B')), ('z', Term(0)),
                            ('z', Tup((Int('B'),))), ('z', Cons()), ('z', Uni(Cons(), 'utf8')), ('z', Arr(0, None, Dyn('B'))),
                            ('_', Cond(Pad(1), Sel('const', '', False), ())), ('z', Cond(Int('B'), Sel('const', '', True), (0,))),
                            ('z', Ref(ClassSpec('E', '', ()))), ('z', Look(Sel('const', '', 1), ((1, Int('B')),), None))))
            c = ClassSpec(c.name, c.bo, c.fields + (extra,))
        if g.chance(6):
            # a trailing member further inside
            names = [i for i, (n, h) in enumerate(c.fields) if isinstance(h, Tup) and n not in reads(c)]
            if names:
                i = g.pick(names)
                fields = list(c.fields)
                fields[i] = (fields[i][0], Tup(fields[i][1].items + (g.pick((Int('B'), Pad(1), Pad(0), Cons())),)))
                c = ClassSpec(c.name, c.bo, tuple(fields))
        form = g.pick(FORMS)
        if form in ('split', 'redefined') and c.fields:
            how = g.int(0, len(c.fields))
        else:
            how = g.int(0, max(len(c.fields) - 1, 0))
        o = None
        if all(in_a_row([h for _, h in members(x)]) != 'bad' for x in classes_of(c).values()):
            try:
                o = g.instance(c)
            except NoInstance:
                pass
        return (c, o, draw(st.integers(0, 63)), form, how)

    return build()


def pieces(c, variant, form, how):
    """[(text, is it rejected)], the definitions in order; the last one is the
    class itself."""
    out = []
    deps = classes_of(c)

    def bad(fields):
        return in_a_row([h for n, h in fields if not isinstance(h, Noise)]) == 'bad'

    for name, d in deps.items():
        if name != c.name:
            out.append((render.class_src(d, variant), bad(d.fields)))
    bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
    if form == 'split':
        first, last = c.fields[:how], c.fields[how:]
        out.append((render.class_src(ClassSpec('Base', c.bo, first), variant), bad(first)))
        out.append((render.class_src(ClassSpec(c.name, c.bo, last), variant, 'Base'), bad(c.fields)))
    elif form == 'redefined':
        # a member which consumes everything replaced by one which does not, or the other way round
        i = how % max(len(c.fields), 1)
        name = c.fields[i][0] if c.fields else '_'
        if name != '_':
            other = Int('B') if verdict(c.fields[i][1]) else Cons()
            first = c.fields[:i] + ((name, other),) + c.fields[i + 1:]
            if bad(first):
                first = c.fields[:i] + ((name, Noise('int')),) + c.fields[i + 1:]
                # (then it is not a member before, but keeps its position)
            out.append((render.class_src(ClassSpec('Base', c.bo, first), variant), bad(first)))
            out.append((render.class_src(ClassSpec(c.name, c.bo, ((name, c.fields[i][1]),)), variant, 'Base'), bad(c.fields)))
        else:
            out.append((render.class_src(c, variant), bad(c.fields)))
    elif form in ('generic', 'generic member') and c.fields and plain(c.fields[how][1]):
        name, h = c.fields[how]
        rest = [(n, x) for n, x in c.fields if n != name or x is not h]
        first = c.fields[:how] + ((name, TV('T')),) + c.fields[how + 1:]
        text = "T = TypeVar('T')\n\n\n" + render.class_src(ClassSpec('Base', c.bo, first), variant, 'Generic[T], Structured')
        # the type variable is no member as long as it is open
        out.append((text, bad(rest)))
        if form == 'generic':
            out.append((f'class {c.name}(Base[{render.hint(h, variant)}]{bo}):\n    pass\n\n\n', bad(c.fields)))
        else:
            out.append((f'class {c.name}(Structured{bo}):\n    a: uint8\n    g: Base[{render.hint(h, variant)}]\n\n\n', bad(c.fields)))
    elif form == 'wrapped':
        out.append((render.class_src(ClassSpec('Base', c.bo, c.fields), variant), bad(c.fields)))
        wrapper = {0: 'Base', 1: 'tuple[uint8, Base]', 2: 'array[Header[uint8], Base]', 3: 'tuple[Base, pad[1]]',
                   4: 'Annotated[Base, Condition(lambda o: True, None)]', 5: 'tuple[tuple[Base], uint8]'}[how % 6]
        final = in_a_row([h for n, h in c.fields if not isinstance(h, Noise)]) is True
        out.append((f'class {c.name}(Structured{bo}):\n    a: uint8\n    g: {wrapper}\n\n\n', final and how % 6 in (2, 3, 5)))
        out.append((f'class More({c.name}{bo}):\n    b: ClassVar[int]\n\n\n', False))
        out.append((f'class Most(More{bo}):\n    b: uint8\n\n\n', final))
    else:
        out.append((render.class_src(c, variant), bad(c.fields)))
    return out


def plain(h):
    """Can the hint be an argument of a generic class?"""
    return not any(isinstance(x, (Cond, Look, Ahead, Noise, Pad)) for x in walk_shallow(h))


def source(case):
    c, o, variant, form, how = case
    return render.prelude(variant) + '\n' + ''.join(t for t, _ in pieces(c, variant, form, how))


def check(case):
    c, o, variant, form, how = case
    mod = define(render.prelude(variant))
    labels = {form}
    flags = __import__('__future__').annotations.compiler_flag if variant & render.FUTURE else 0
    finals = [h for _, h in c.fields if verdict(h)]
    rejected = False
    for text, bad in pieces(c, variant, form, how):
        try:
            exec(compile(text, '<gencase>', 'exec', flags=flags, dont_inherit=True), mod.__dict__)
        except TypeError as e:
            if not bad:
                raise Violation(f'a valid definition is rejected: TypeError: {e}\n{text}') from e
            rejected = True
            break
        except Exception as e:
            raise Violation(f'{type(e).__name__} instead of {"a TypeError" if bad else "acceptance"}: {e}\n{text}') from e
        if bad:
            raise Violation('accepted although a consume-everything string is followed by a serialized member or is '
                            f'inside of an array:\n{text}')
    labels.add('rejected' if rejected else 'accepted')
    if any(map(cons_inside, walk_all(c))):
        labels.add('nontrivial')
        labels |= {f'{"rejected" if rejected else "accepted"} {type(h).__name__}' for h in finals} | {f'{form} {"rejected" if rejected else "accepted"}'}
    if o is not None and not rejected and form not in ('wrapped', 'generic member'):
        w = World(mod, c)
        data = w.codec.encode(o)
        packs_to(w, c, o, data, 2)
        if any(finals):
            labels.add('works')
        agree(w, c, data, ('ok', w.codec.decode(c, data)[0], len(data)), methods=METHODS[:3])
    return labels


def walk_all(c):
    for d in classes_of(c).values():
        for _, h in d.fields:
            yield h


def cons_inside(h):
    return is_final(h)
