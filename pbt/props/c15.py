"""Subclasses are serialized as the equivalent flat class."""
from .common import *
from .c09 import reads

RULE = ('at least two levels, with members both inherited and added or redefined; not all of them are basic or a '
        'member is redefined or removed')
EXAMPLES = dict(quick=4800, thorough=100000)
ASSUMPTIONS = ['members which deciders read are not redefined']


@node
class Level:
    name: str
    bo: str
    base: Any  # index of the base class, or None
    override: bool
    mixin: str  # '', 'before', 'after'
    fields: tuple


def flat(levels, i) -> ClassSpec:
    """The equivalent class without bases."""
    chain = []
    j = i
    while j is not None:
        chain.append(levels[j])
        j = levels[j].base
    out = []
    for level in reversed(chain):
        for name, h in level.fields:
            at = [k for k, (n, _) in enumerate(out) if n == name and name != '_']
            if at:
                out[at[0]] = (name, h)
            else:
                out.append((name, h))
    return ClassSpec(levels[i].name, levels[i].bo, tuple(x for x in out if not isinstance(x[1], Noise)))


def level_src(levels, i, variant) -> str:
    x = levels[i]
    base = 'Structured' if x.base is None else levels[x.base].name
    bases = {'': base, 'before': f'Mixin{i}, {base}', 'after': f'{base}, Mixin{i}'}[x.mixin]
    before = f'class Mixin{i}:\n    def helper(self):\n        return 1\n\n\n' if x.mixin else ''
    extra = ', byte_order_mode=ByteOrderMode.OVERRIDE' if x.override else ''
    return before + render.class_src(ClassSpec(x.name, x.bo, x.fields), variant, bases, extra)


def source(case):
    levels, objs, variant = case[:3]
    deps = {}
    for x in levels:
        deps.update(classes_of(ClassSpec(x.name, x.bo, x.fields)))
    text = render.prelude(variant) + '\n'
    text += ''.join(render.class_src(d, variant) for n, d in deps.items() if n not in {x.name for x in levels})
    return text + ''.join(level_src(levels, i, variant) for i in range(len(levels)))


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        cfg = Cfg(features=ALL - {'noise'}, depth=2 if big else draw(st.sampled_from((1, 1, 2))), max_fields=7, min_fields=1,
                  ahead_ref=False, ahead_self=False)
        g = G(draw, cfg)
        c = g.cls(name='L0')
        g.count = max(g.count, 1)
        n = g.int(2, 4)
        used = reads(c)
        defs = [[] for _ in range(n)]  # per level: (name, hint)
        level = 0
        extras = 0
        simple = lambda: g.pick((g.simple, lambda: Tup((g.simple(), g.simple())), lambda: Arr('B', None, g.simple())))()  # noqa: E731
        for i, (name, h) in enumerate(c.fields):
            if g.chance(3) and level < n - 1:
                level = g.int(level + 1, n - 1)
            if g.chance(5):
                # a member which is removed later, or only an annotation until then
                x, first, last = f'x{extras}', g.int(0, level), n - 1
                extras += 1
                if first < last or g.chance(2):
                    first = level
                if first < last:
                    defs[first].append((x, simple()))
                    defs[g.int(first + 1, last)].append((x, Noise(g.pick(('int', 'None', 'ClassVar[int]', 'str', 'Any')))))
            if name != '_' and name not in used and level < n - 1 and g.chance(3):
                # (re)defined by a later level
                last = g.int(level + 1, n - 1)
                defs[level].append((name, g.pick((simple(), Noise('int'), Noise('ClassVar[str]')))))
                if last - level > 1 and g.chance(2):
                    defs[g.int(level + 1, last - 1)].append((name, g.pick((simple(), Noise('None')))))
                defs[last].append((name, h))
            else:
                defs[level].append((name, h))
        same_bo = g.chance(2)
        levels = []
        for i in range(n):
            # redefinitions may come in any order
            if i and g.chance(2):
                seen = {name for d in defs[:i] for name, _ in d}
                defs[i].sort(key=lambda x: x[0] in seen and x[0] != '_')
            bo = c.bo if same_bo or i == 0 else g.pick(BYTE_ORDERS)
            over = bool(i) and (bo != levels[i - 1].bo or g.chance(4))
            levels.append(Level(f'L{i}', bo, i - 1 if i else None, over, g.pick(('', '', '', 'before', 'after')), tuple(defs[i])))
        if g.chance(2):
            # a sibling
            at = g.int(0, n - 2)
            base = flat(levels, at)
            fields = []
            for name, h in base.fields:
                if name != '_' and name not in reads(base) and g.chance(4):
                    fields.append((name, g.pick((simple(), Noise('str')))))
            if not is_final(Ref(ClassSpec('', '', tuple((m, h) for m, h in base.fields if m not in dict(fields))))):
                fields += [(f's{i}', simple()) for i in range(g.int(0, 2))]
                if g.chance(3):
                    fields.insert(0, ('_', Pad(2)))
            bo = levels[at].bo if g.chance(2) else g.pick(BYTE_ORDERS)
            levels.append(Level('Side', bo, at, bo != levels[at].bo, '', tuple(fields)))
        levels = tuple(levels)
        domains = {k[1]: v for k, v in g.domains.items() if k[0] == 'L0'}
        objs = []
        for i in range(len(levels)):
            f = flat(levels, i)
            g.domains.update({(f.name, k): v for k, v in domains.items() if (k, dict(c.fields)[k]) in f.fields})
            objs.append((g.instance(f), g.instance(f)))
        return (levels, tuple(objs), draw(st.integers(0, 63)), draw(st.sampled_from((0, 1, 3))),
                draw(st.sampled_from(BYTE_ORDERS)), draw(st.integers(0, 5)))

    return build()


def must_fail(w, text, error, what):
    try:
        exec(compile(text, '<gencase>', 'exec', dont_inherit=True), w.mod.__dict__)
    except error:
        return
    except Exception as e:
        raise Violation(f'{what} raised {type(e).__name__}: {e}, expected {error.__name__}') from e
    raise Violation(f'{what} is accepted')


def check(case):
    levels, objs, variant, offset, bad_bo, which = case
    flats = [flat(levels, i) for i in range(len(levels))]
    w = World(define(source(case)), *flats)
    w.classes.update({f.name: f for f in flats})
    labels = {f'levels:{len(levels)}'}

    def all_levels():
        for i, f in enumerate(flats):
            cls = w.cls(f.name)
            names = tuple(n for n, _ in attrs(f))
            if cls.attrs != names:
                raise Violation(f'{f.name}.attrs is {cls.attrs}, expected {names}')
            if cls.byte_order is not w.lib.ByteOrder(f.bo):
                raise Violation(f'{f.name}.byte_order is {cls.byte_order}')
            o, old = objs[i]
            data = w.codec.encode(o)
            packs_to(w, f, o, data, offset)
            agree(w, f, data, ('ok', w.codec.decode(f, data)[0], len(data)), old=old, prefix=bytes(offset))

    all_levels()
    # what is not allowed, and that it leaves no traces
    i = which % len(levels)
    base = levels[i]
    mode = ('', ', byte_order_mode=ByteOrderMode.STRICT')[which % 2]
    if bad_bo != base.bo:
        bases = (base.name, f'Mixin, {base.name}', f'{base.name}, Mixin')[which // 2 % 3]
        must_fail(w, f'class Mixin:\n    pass\n\n\nclass Bad({bases}, byte_order=ByteOrder({bad_bo!r}){mode}):\n    added: int8\n',
                  ValueError, f'a subclass with byte order {bad_bo!r} of a class with {base.bo!r}')
    other = levels[(i + 1) % len(levels)]
    pair = (base.name, other.name) if i > (i + 1) % len(levels) else (other.name, base.name)
    for text, what in ((f'class Bad({base.name}, Other, byte_order=ByteOrder({base.bo!r})):\n    pass\n', 'two bases'),
                       (f'class Bad(Other, {base.name}, byte_order=ByteOrder({base.bo!r}), '
                        f'byte_order_mode=ByteOrderMode.OVERRIDE):\n    added: int8\n', 'two bases'),
                       (f'class Bad({pair[0]}, {pair[1]}, byte_order=ByteOrder({base.bo!r}), '
                        f'byte_order_mode=ByteOrderMode.OVERRIDE):\n    pass\n', 'a class and its base as bases')):
        if 'Other' in text:
            text = f'class Other(Structured, byte_order=ByteOrder({base.bo!r})):\n    z: int8\n\n\n' + text
        must_fail(w, text, TypeError, what)
    all_levels()
    # labels
    names = [n for x in levels for n, _ in x.fields if n != '_']
    redefined = len(set(names)) < len(names)
    removed = any(isinstance(h, Noise) for x in levels[1:] for _, h in x.fields)
    labels |= {f'{type(h).__name__}' for x in levels for _, h in x.fields}
    if redefined:
        labels.add('redefined')
    if removed:
        labels.add('removed')
    if len({x.bo for x in levels}) > 1:
        labels.add('byte order overridden')
    if any(contains_self(h) for x in levels for _, h in x.fields):
        labels.add('recursive')
    if levels[-1].name == 'Side':
        labels.add('sibling')
    full = [x for x in levels if x.fields]
    if len(full) > 1 and (redefined or removed or any(not isinstance(h, BASIC) for f in flats for _, h in f.fields)):
        labels.add('nontrivial')
    return labels
