"""Specialized generic classes are like hand-written ones."""
from .common import *
from .c09 import reads

RULE = ('a class has members whose type variables were substituted, at least one of them inside of another hint or '
        'through a chain of at least two specializations')
EXAMPLES = dict(quick=3200, thorough=100000)
ASSUMPTIONS = ['type variables are used as members, array items and header types, string lengths, tuple elements and '
               'arguments of generic members (not inside of unions, conditions or custom types)',
               'type variables which only occur in an array among the bases are listed with Generic',
               'members which deciders read are not redefined']


@node
class GLevel:
    name: str
    bo: str
    params: tuple  # names of its type variables, in order
    explicit: bool  # has Generic[...] as base
    base: Any  # index or None
    args: Any  # type arguments of the base; None: no brackets
    fields: tuple


class Later:
    """A hint which deciders cannot read, because it may stay unspecialized."""

    def __init__(self, hint):
        self.hint = hint


class Family:
    """Generic classes, and the concrete classes which are used of them."""

    def __init__(self, levels):
        self.levels = levels
        self.index = {x.name: i for i, x in enumerate(levels)}
        self.bad = False  # has an array whose item is not serializable
        self.specs = {}  # (generic class, arguments) -> ClassSpec

    def subst(self, h, env):
        s = lambda x: self.subst(x, env)  # noqa: E731
        if isinstance(h, TV):
            return env.get(h.name, h)
        if isinstance(h, Tup):
            return Tup(tuple(map(s, h.items)))
        if isinstance(h, Dyn):
            return Dyn(self.code(h.code, env))
        if isinstance(h, Uni):
            return Uni(s(h.style), h.enc)
        if isinstance(h, Arr):
            return Arr(self.code(h.count, env), self.code(h.size, env), s(h.item))
        if isinstance(h, GRef):
            args = tuple(map(s, h.args))
            self.bad = self.bad or any(bad_array(y) for a in args for y in walk(a))
            if any(open_(a) for a in args):
                return GRef(h.cls, args)
            return Ref(self.special(h.cls, args))
        return h

    def code(self, code, env):
        if isinstance(code, TV):
            res = env.get(code.name, code)
            return res.code if isinstance(res, Int) else res
        return code

    def special(self, name, args) -> ClassSpec:
        key = (name, args)
        if key not in self.specs:
            i = self.index[name]
            self.specs[key] = None
            c = self.flat(i, args, f'S{len(self.specs) - 1}')
            self.specs[key] = c
        return self.specs[key]

    def fields(self, i, env):
        """(name, hint) with the type variables substituted."""
        x = self.levels[i]
        out = {}
        pads = 0
        if x.base is not None:
            base = self.levels[x.base]
            args = [self.subst(a, env) for a in x.args or ()]
            out.update(self.fields(x.base, dict(zip(base.params, args))))
        for name, h in x.fields:
            if name == '_':
                name = f'_{i}.{pads}'
                pads += 1
            out[name] = self.subst(h, env)
            self.bad = self.bad or any(map(bad_array, walk(out[name])))
        return out

    def flat(self, i, args=(), name=None) -> ClassSpec:
        x = self.levels[i]
        fields = self.fields(i, dict(zip(x.params, args)))
        return ClassSpec(name or x.name, x.bo, tuple(('_' if n[0] == '_' else n, h) for n, h in fields.items()
                                                     if not open_(h)
                                                     and not any(isinstance(y, Noise) for y in walk_shallow(h))))


def open_(h):
    """Is something not substituted?"""
    if isinstance(h, (TV, GRef)):
        return True
    if isinstance(h, Arr):
        return isinstance(h.count, TV) or isinstance(h.size, TV) or open_(h.item)
    if isinstance(h, Dyn):
        return isinstance(h.code, TV)
    if isinstance(h, Ref):
        return False
    return any(map(open_, children(h)))


def generic_refs(fam, levels):
    """Everything the case uses: flat specs of all non-generic classes."""
    return [(i, fam.flat(i)) for i in range(len(levels))]


def type_vars(names, how):
    if how % 4 == 3:  # as if from different modules
        return ''.join(f"{t} = TypeVar('T')\n" for t in names)
    if how % 4 == 2:
        return ''.join(f'{t} = TypeVar({t!r}, {x})\n' for t, x in zip(names, ('bound=int', 'uint8, uint16', 'covariant=True') * len(names)))
    return ''.join(f'{t} = TypeVar({t!r})\n' for t in names)


def source(case):
    levels, objs, variant = case[:3]
    fam = Family(levels)
    flats = [fam.flat(i) for i in range(len(levels))]
    deps = {}
    used = set()

    def visit(h):
        if isinstance(h, Ref):
            deps.update(classes_of(h.cls))
        elif isinstance(h, GRef):
            for a in h.args:
                visit(a)
        elif isinstance(h, TV):
            used.add(h.name)
        else:
            for x in children(h):
                visit(x)

    for x in levels:
        used.update(x.params)
        for _, h in x.fields:
            visit(h)
        for a in x.args or ():
            visit(a)
    text = render.prelude(variant) + '\n' + type_vars(sorted(used), variant + len(levels)) + '\n\n'
    text += ''.join(render.class_src(c, variant) for n, c in deps.items())
    for i, x in enumerate(levels):
        base = 'Structured'
        if x.base is not None:
            base = levels[x.base].name
            if x.args is not None:
                base += f'[{", ".join(render.hint(a, variant) for a in x.args)}]'
        generic = f'Generic[{", ".join(x.params)}]'
        bases = base if not x.explicit else f'{generic}, {base}' if variant & render.WRAP else f'{base}, {generic}'
        text += render.class_src(ClassSpec(x.name, x.bo, x.fields), variant, bases)
    # instances of specializations are instances of these classes
    for (name, args), c in fam.specs.items():
        bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
        text += f'class {c.name}({name}[{", ".join(render.hint(a, variant) for a in args)}]{bo}):\n    pass\n\n\n'
    return text


class GenericWorld(World):
    origins: dict

    def lift_obj(self, spec, o, where=''):
        if spec.name not in self.origins:
            return super().lift_obj(spec, o, where)
        if not isinstance(o, self.cls(self.origins[spec.name])):
            raise Violation(f'{where} is {o!r}, expected a {self.origins[spec.name]}')
        names = tuple(n for n, _ in attrs(spec))
        if o.attrs != names:
            raise Violation(f'{where}.attrs is {o.attrs}, expected {names}')
        env = {}
        for name, h in attrs(spec):
            env[name] = self.lift(h, getattr(o, name), env, spec, f'{where}.{name}')
        return Obj(spec.name, tuple(env.values()))


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        cfg = Cfg(features=ALL - {'noise', 'self', 'cons'}, depth=2 if big else 1, max_fields=3, long_runs=False, cons=False,
                  ahead_ref=False, ahead_self=False, long_values=False)
        g = G(draw, cfg)
        g.count = 1
        g.bo = bo = g.pick(BYTE_ORDERS)
        levels = []
        kinds = {}  # (level name) -> kinds of its params

        def tv(pool, kind):
            names = [n for n, k in pool if k == kind or kind == 'hint']
            return TV(g.pick(names)) if names else None

        def code(pool, others=None):
            t = tv(pool, 'code')
            return t if t and not g.chance(4) else g.pick(others or 'BHIQ')

        def open_hint(pool, depth=2):
            """A hint with type variables."""
            k = g.pick(('var', 'var', 'arr', 'arr', 'str', 'uni', 'tup', 'ref'))
            if depth <= 0:
                k = g.pick(('var', 'str'))
            if k == 'var':
                return tv(pool, 'hint') or g.simple()
            if k == 'str':
                return Dyn(code(pool))
            if k == 'uni':
                return Uni(Dyn(code(pool)), g.pick(ENCODINGS))
            if k == 'tup':
                return Tup(tuple(open_hint(pool, depth - 1) if g.chance(2) else g.simple() for _ in range(g.int(1, 2)))
                           + (open_hint(pool, depth - 1),))
            if k == 'arr':
                item = open_hint(pool, depth - 1) if not g.chance(3) else g.simple()
                count = g.pick((code(pool), code(pool), g.pick((0, 1, 2, 3))))
                return Arr(count, g.pick((None, code(pool, 'HIQ'))), item)
            cands = [x for x in levels if x.params]
            if not cands:
                return tv(pool, 'hint') or g.simple()
            x = g.pick(cands)
            args = tuple((open_hint(pool, depth - 2) if g.chance(2) else tv(pool, 'hint') or arg('hint')) if k == 'hint'
                         else (tv(pool, 'code') or arg('code')) for k in kinds[x.name])
            return GRef(x.name, args)

        def arg(kind):
            """A concrete type argument."""
            if kind == 'code':
                return Int(g.pick('BHIQ'))
            k = g.pick(('simple', 'simple', 'tup', 'arr', 'ref', 'gref'))
            if k == 'tup':
                return Tup((g.simple(), g.simple()))
            if k == 'arr':
                return Arr(g.pick('BH'), None, g.simple())
            if k == 'ref':
                return Ref(g.cls(0, final=False, self_ok=False))
            cands = [x for x in levels if x.params]
            if k == 'gref' and cands:
                x = g.pick(cands)
                return GRef(x.name, tuple(Int(g.pick('BH')) if kk == 'code' else g.simple() for kk in kinds[x.name]))
            return g.simple()

        def body(level_name, bo, pool, inherited, allow_open=True, refs=False):
            ctx = Ctx(level_name, [], bo)
            ctx.n = sum(len(x.fields) for x in levels) + 10 * len(levels)
            out = []
            for _ in range(g.int(1 if not inherited else 0, 3)):
                before = len(ctx.fields)
                if allow_open and pool and not g.chance(3):
                    ctx.fields.append((f'g{ctx.n}', Later(open_hint(pool))))
                elif refs:
                    x = g.pick([x for x in levels if x.params] or [None])
                    if x is None:
                        continue
                    h = GRef(x.name, tuple(arg(k) for k in kinds[x.name]))
                    h = g.pick((h, h, Arr(g.pick('BH'), None, h), Tup((h, g.simple()))))
                    ctx.fields.append((f'g{ctx.n}', h))
                else:
                    g.add_field(ctx, cfg.depth, False)
                ctx.n += 1
                del before
            if pool and allow_open and g.chance(6):
                ctx.fields.append((f'm{ctx.n}', Arr('B', None, SelfRef())))
            ctx.fields = [(n, h.hint if isinstance(h, Later) else h) for n, h in ctx.fields]
            # redefinitions
            used = reads(ClassSpec('', '', tuple(inherited)))
            for name, h in inherited:
                if name[0] in 'gx' and name not in used and name not in dict(ctx.fields) and g.chance(4):
                    new = open_hint(pool) if pool and allow_open and g.chance(2) else g.simple()
                    if g.chance(5):
                        new = Noise(g.pick(('int', 'None', 'ClassVar[int]')))
                    ctx.fields.insert(g.int(0, len(ctx.fields)) if not any(n[0] == 'k' for n, _ in ctx.fields) else 0, (name, new))
            # key fields get unique names
            ren = {n: f'{n}_{level_name}' for n, _ in ctx.fields if n[0] == 'k'}
            return rename(ctx.fields, ren, g, level_name)

        def params(letters, n):
            return tuple(f'{letters}{i}' for i in range(n))

        # independent generic classes, then a chain
        for j in range(g.int(0, 2)):
            letters = g.pick('TU')
            ps = params(letters, g.int(1, 2))
            ks = tuple(g.pick(('hint', 'code')) for _ in ps)
            b = g.pick((bo, g.pick(BYTE_ORDERS)))
            name = f'H{j}'
            fields = body(name, b, list(zip(ps, ks)), ())
            levels.append(GLevel(name, b, ps, True, None, None, fields))
            kinds[name] = ks
        n = g.int(2, 4)
        first = len(levels)
        for j in range(n):
            name = f'G{j}'
            last = j == n - 1
            base = None if j == 0 else first + j - 1
            if j == 0:
                ps = params('T', g.int(1, 3))
                ks = tuple(g.pick(('hint', 'code')) for _ in ps)
                args, explicit = None, True
            else:
                bk = kinds[levels[base].name]
                if not bk:
                    break
                if last and g.chance(8):
                    args = None  # not specialized at all
                    ps = ks = ()
                    explicit = False
                else:
                    new = []
                    letters = g.pick('TTTUV')
                    args = []
                    for k in bk:
                        if not last and (g.chance(2) or k == bk[-1] and not new):
                            same = [t for t, kk in new if kk == k]
                            if same and g.chance(4):
                                args.append(TV(same[0]))
                            else:
                                new.append((f'{letters}{len(new)}', k))
                                args.append(TV(new[-1][0]))
                        elif not last and k == 'hint' and g.chance(2):
                            mine = [t for t, kk in new if kk == 'hint']
                            if not mine or g.chance(2):
                                new.append((f'{letters}{len(new)}', 'hint'))
                                mine = [new[-1][0]]
                            v = TV(g.pick(mine))
                            if g.chance(3):
                                sizes = [t for t, kk in new if kk == 'code']
                                if not sizes or g.chance(2):
                                    new.append((f'{letters}{len(new)}', 'code'))
                                    sizes = [new[-1][0]]
                                n_ = TV(g.pick(sizes))
                                open_ones = [x for x in levels[:first] if x.params]
                                v = g.pick((v, GRef(open_ones[0].name, tuple(v if kk == 'hint' else n_ for kk in kinds[open_ones[0].name]))
                                            if open_ones else v))
                                args.append(g.pick((Tup((Dyn(n_), v)), Arr(n_, None, v), Arr(n_, n_, Tup((v, Uni(Dyn(n_), 'utf8')))),
                                                    Tup((v, Arr(1, n_, g.simple()))))))
                                continue
                            args.append(g.pick((Arr('B', None, v), Tup((v, g.simple())), Tup((g.simple(), v, v)), Arr(2, None, Tup((v, g.simple()))))))
                        else:
                            args.append(arg(k) if k == 'code' or not g.chance(8) else Noise(g.pick(('int', 'str'))))
                    args = tuple(args)
                    # (the type variables of an array are not seen by typing)
                    seen = {x.name for a in args for x in ([a] if isinstance(a, TV) else a.items if isinstance(a, Tup) else ()) if isinstance(x, TV)}
                    explicit = bool(new) and (g.chance(2) or any(t not in seen for t, _ in new))
                    if explicit:
                        order = draw(st.permutations(new))
                        if g.chance(3):
                            order = [*order, (f'W{j}', 'hint')]
                        ps, ks = tuple(n for n, _ in order), tuple(k for _, k in order)
                    else:
                        ps, ks = tuple(n for n, _ in new), tuple(k for _, k in new)
            inherited = [x for i in range(first, first + j) for x in levels[i].fields]
            fields = body(name, bo, list(zip(ps, ks)), inherited)
            levels.append(GLevel(name, bo, ps, explicit, base, args, fields))
            kinds[name] = ks
            if not ps:
                break
        # a second specialization of something, and a class which uses specializations as hints
        cands = [i for i in range(len(levels)) if levels[i].params]
        i = g.pick(cands)
        levels.append(GLevel('Other', levels[i].bo, (), False, i, tuple(arg(k) for k in kinds[levels[i].name]), ()))
        kinds['Other'] = ()
        levels.append(GLevel('User', g.pick((bo, g.pick(BYTE_ORDERS))), (), False, None, None,
                             body('User', bo, [], (), False, True)))
        levels = tuple(levels)
        fam = Family(levels)
        objs = []
        doms = {k[1]: v for k, v in g.domains.items()}
        flats = [fam.flat(i) for i in range(len(levels))]
        if fam.bad:
            from hypothesis import reject
            reject()
        for f in [*flats, *fam.specs.values()]:
            for nm, h in f.fields:
                if nm in doms:
                    g.domains[f.name, nm] = doms[nm]
        for f in flats:
            try:
                objs.append((g.instance(f), g.instance(f)))
            except NoInstance:
                from hypothesis import reject
                reject()
        return (levels, tuple(objs), draw(st.integers(0, 63)), draw(st.sampled_from((0, 0, 1, 3))))

    return build()


def bad_array(h):
    return isinstance(h, Arr) and contains(h, Noise)


def rename(fields, ren, g, level):
    from dataclasses import replace

    def f(h):
        if isinstance(h, (Cond, Look, Ahead)) and h.sel.field in ren:
            return replace(h, sel=replace(h.sel, field=ren[h.sel.field]))
        return h

    for (cls, n), d in list(g.domains.items()):
        if cls == level and n in ren:
            g.domains[cls, ren[n]] = d
    return tuple((ren.get(n, n), rebuild(h, f)) for n, h in fields)


def check(case):
    levels, objs, variant, offset = case
    fam = Family(levels)
    flats = [fam.flat(i) for i in range(len(levels))]
    # every other time, there are other classes of the same names
    text = source(case)
    w = GenericWorld(define(text, decoys=decoy(text) if offset else ''), *flats, *fam.specs.values())
    w.origins = {c.name: name for (name, _), c in fam.specs.items()}
    w.use_decoys(*(o for o, _ in objs))
    labels = set()
    for times in range(2):
        for f, (o, old) in zip(flats, objs):
            cls = w.cls(f.name)
            names = tuple(n for n, _ in attrs(f))
            if cls.attrs != names:
                raise Violation(f'{f.name}.attrs is {cls.attrs}, expected {names}')
            if cls.byte_order is not w.lib.ByteOrder(f.bo):
                raise Violation(f'{f.name}.byte_order is {cls.byte_order}')
            data = w.codec.encode(o)
            packs_to(w, f, o, data, offset)
            want = ('ok', w.codec.decode(f, data)[0], len(data))
            agree(w, f, data, want, old=old, prefix=bytes(offset))
            # what was unpacked packs to the same bytes
            again = pack(cls.create_unpack(data))
            if again != w.codec.encode(want[1]):
                raise Violation(f'{want[1]} is unpacked, but packs to {again.hex()} instead of {data.hex()}')
    for x in levels:
        for name, h in x.fields:
            if open_(h):
                labels.add(f'open {type(h).__name__}')
                if not isinstance(h, TV):
                    for y in children(h):
                        if open_(y):
                            labels.add(f'open {type(h).__name__}[{type(y).__name__}]')
    chain = max(depth_of(levels, i) for i in range(len(levels)))
    labels |= {f'chain {chain}', f'specializations as hints: {len(fam.specs)}'}
    nested = any(x.startswith('open') and x != 'open TV' for x in labels)
    if any(x.args and any(isinstance(a, TV) for a in x.args) for x in levels):
        labels.add('partial specialization')
    if any(x.args is None and x.base is not None for x in levels):
        labels.add('not specialized')
    if any(isinstance(a, Noise) for x in levels for a in x.args or ()):
        labels.add('argument that is not serializable')
    if any(attrs(f) for f in flats) and (nested or chain > 2):
        labels.add('nontrivial')
    return labels


def depth_of(levels, i):
    return 1 + (depth_of(levels, levels[i].base) if levels[i].base is not None else 0)
