"""Results do not depend on what was done before."""
from dataclasses import replace

from .c09 import places
from .c16 import GenericWorld, rename
from .common import *

RULE = ('at least two classes which share a hint object that is not basic, at least ten operations on them, and an '
        'operation which failed midway or a change of byte order before the last one')
EXAMPLES = dict(quick=6000, thorough=80000)
ASSUMPTIONS = ['operations run one after the other, not inside of each other (other than for nested classes) or in '
               'several threads',
               'an instance is not used again after unpacking into it failed']
KINDS = ('new', 'pack', 'pack_into', 'pack_write', 'create', 'create', 'fill', 'fill', 'truncated', 'corrupt', 'bad', 'swap',
         'bomb', 'broken read', 'broken write', 'small buffer', 'subclass')


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        cfg = Cfg(features=ALL - {'noise', 'cons'}, depth=2 if big else draw(st.sampled_from((1, 2))), max_fields=3, long_runs=False,
                  cons=False, ahead_ref=False, ahead_self=False, weights=dict(arr=4, look=4, cond=3, tup=3, ref=6, ahead=3))
        g = G(draw, cfg)
        g.count, g.bo = 1, ''
        groups, domains = [], {}
        for j in range(g.int(1, 4)):
            ctx = Ctx(f'P{j}', [], '')
            ctx.n = 10 * j
            g.add_field(ctx, cfg.depth, False)
            fields = rename(ctx.fields, {n: f'{n}_{j}' for n, _ in ctx.fields if n[0] == 'k'}, g, f'P{j}')
            groups.append(fields)
        if g.chance(3):
            # two classes which may be generic, and have the same arguments then
            arg = g.pick((Int('B'), Int('H'), Uni(Net(), 'utf8'), Arr('B', None, Int('h')), Tup((Int('b'), Int('H')))))
            for j, n in enumerate(draw(st.permutations(('CX', 'CY')))):
                inner = [('v', arg), *((f'w{i}', g.basic()) for i in range(g.int(0, 2)))]
                groups.append(((f't{j}', g.pick((Ref, lambda c: Arr(2, None, Ref(c)), lambda c: Tup((Int('B'), Ref(c))))
                                                )(ClassSpec(n, g.pick(BYTE_ORDERS), tuple(inner)))),))
        if g.chance(3):
            groups.append((('me', g.pick((Arr('B', None, SelfRef()), Arr('B', 'H', Tup((Int('B'), SelfRef()))),
                                          Arr('H', None, SelfRef())))),))
        classes = []
        for i in range(g.int(2, 4)):
            order = draw(st.permutations(range(len(groups))))[:g.int(1, len(groups))]
            fields = []
            for k in order:
                fields += groups[k]
                if g.chance(4):
                    fields.append((f'own{len(fields)}', g.basic()))
            classes.append(ClassSpec(f'K{i}', g.pick(BYTE_ORDERS), tuple(fields)))
        for (cls, n), d in list(g.domains.items()):
            for c in classes:
                if cls[0] == 'P' and n in dict(c.fields):
                    g.domains[c.name, n] = d
        g.cfg = replace(g.cfg, long_values=False)
        try:
            objs = tuple(tuple(g.instance(c) for _ in range(3)) for c in classes)
        except NoInstance:
            from hypothesis import reject
            reject()
        ops = []
        for _ in range(g.int(6, 40 if big else 24)):
            ops.append((g.pick(KINDS), g.int(0, len(classes) - 1), g.int(0, 2), g.int(0, 1 << 12)))
        nested = {n: d for c in classes for n, d in classes_of(c).items() if n[0] == 'C' and variable(d)}
        generics = tuple(sorted(n for n in nested if not g.chance(4)))
        return (tuple(classes), objs, draw(st.integers(0, 63)), tuple(groups), tuple(ops), generics, g.chance(2))

    return build()


def variable(c):
    """The member of a nested class which is a type variable if the class is
    generic."""
    if any(isinstance(h, SelfRef) for _, f in c.fields for h in walk_shallow(f)):
        return None
    for n, h in attrs(c):
        if all(isinstance(x, (Int, Flt, Bool, Chr, Pas, Dyn, Term, Net, Uni, Tup, Arr)) for x in walk(h)):
            return n
    return None


def generic_refs(c, generics):
    """References to the generic classes are specializations."""
    def f(h):
        if isinstance(h, Ref) and h.cls.name in generics:
            return GRef('G' + h.cls.name, (dict(h.cls.fields)[variable(h.cls)],))
        return h

    def deep(h):
        from dataclasses import replace
        if isinstance(h, Ahead):
            h = replace(h, ra=rebuild(h.ra, f))
        return f(h)

    return ClassSpec(c.name, c.bo, tuple((n, rebuild(h, deep)) for n, h in c.fields))


def generic_src(c, variant, generics):
    c = generic_refs(c, generics)
    if c.name not in generics:
        return render.class_src(c, variant)
    var = variable(c)
    arg = dict(c.fields)[var]
    fields = tuple((n, TV('T') if n == var else h) for n, h in c.fields)
    bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
    return render.class_src(ClassSpec('G' + c.name, c.bo, fields), variant, 'Structured, Generic[T]') + \
        f'class {c.name}(G{c.name}[{render.hint(arg, variant)}]{bo}):\n    pass\n\n\n'


def sources(case):
    """The prelude with the shared hints, then the text of every class."""
    classes, objs, variant, groups, ops, generics, _ = case
    classes = tuple(map(spied, classes))
    deps = {}
    for c in classes:
        deps.update(classes_of(c))
    names = {c.name for c in classes}
    text = render.prelude(variant) + "\nT = TypeVar('T')\n\n\n" + ''.join(generic_src(d, variant, generics) for n, d in deps.items() if n not in names)
    classes = tuple(generic_refs(c, generics) for c in classes)
    shared, alias = {}, {}
    for j, fields in enumerate(groups):
        for i, (n, h) in enumerate(fields):
            # (spies must not name a class: their names come from the first class which has the group)
            h = next((dict(c.fields)[n] for c in classes if n != '_' and n in dict(c.fields)), None)
            if h is not None:
                alias[n] = f'P{j}_{i}'
                shared[alias[n]] = render.hint(h, variant)
    text += ''.join(f'{k} = {v}\n' for k, v in shared.items())
    bodies = []
    for c in classes:
        lines = ''.join(f'    {n}: {alias.get(n) or render.hint(h, variant)}\n' for n, h in c.fields) or '    pass\n'
        bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
        bodies.append(f'class {c.name}(Structured{bo}):\n{lines}\n\n')
    return text, bodies


def source(case):
    text, bodies = sources(case)
    return text + ''.join(bodies)


class Broken(io.BytesIO):
    """Fails after some calls."""

    def __init__(self, data, left):
        super().__init__(data)
        self.left = left

    def step(self):
        self.left -= 1
        if self.left < 0:
            raise OSError('broken')

    def read(self, *a):
        self.step()
        return super().read(*a)

    def write(self, *a):
        self.step()
        return super().write(*a)


PACKS = ('pack', 'pack_into', 'pack_write')


def check(case):
    classes, objs, variant, groups, ops, generics, others = case
    text, bodies = sources(case)
    # perhaps there are other classes of the same names
    mod = define(text, decoys=decoy(source(case)) if others else '')
    w = GenericWorld(mod, *classes)
    w.origins = {n: 'G' + n for n in generics}
    w.use_decoys(*(o for os in objs for o in os))
    defined = {}
    labels = set()
    live = {i: [] for i in range(len(classes))}  # (instance, model object, byte order)
    failed = swapped = 0
    step = 0

    def cls(i):
        if i not in defined:
            flags = __import__('__future__').annotations.compiler_flag if variant & render.FUTURE else 0
            try:
                exec(compile(bodies[i], '<gencase>', 'exec', flags=flags, dont_inherit=True), mod.__dict__)
            except Exception as e:
                raise Violation(f'step {step}: the definition of {classes[i].name} is rejected: {type(e).__name__}: {e}') from e
            defined[i] = True
        return w.cls(classes[i].name)

    def fresh(i, o):
        cls(i)
        return call('creating an instance', w.build, o)

    def instance(i, k):
        cls(i)
        if not live[i]:
            live[i].append((fresh(i, objs[i][0]), objs[i][0], classes[i].bo))
        return live[i][k % len(live[i])]

    def fails(what, fn, errors):
        nonlocal failed
        try:
            fn()
        except errors:
            failed += 1
            return True
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation(f'step {step}: {what} raised {type(e).__name__}: {e}') from e
        return False

    def packed(x, how, what, offset=0):
        obj, o, bo = x
        want = w.codec.encode(o, bo)
        got = {'pack': lambda: pack(obj), 'pack_into': lambda: pack_into(obj, len(want), offset),
               'pack_write': lambda: pack_write(obj, bytes(offset))}[how]()
        if got != want:
            raise Violation(f'step {step} ({what}) gives {show(got, 2000)}\nexpected {show(want, 2000)} of {show(o, 2000)}')
        if obj.serializer.size != len(want):
            raise Violation(f'step {step} ({what}) reports size {obj.serializer.size}, expected {len(want)}')

    for step, (kind, i, k, n) in enumerate(ops):
        c = classes[i]
        o = objs[i][k]
        method = METHODS[n % 3]
        fill = METHODS[3 + n % 3]
        prefix = bytes(n % 4) if not method.endswith('unpack') else b''
        mod.SPY.clear()
        mod.BOMB.clear()
        labels.add(kind)
        if kind == 'new':
            live[i].append((fresh(i, o), o, c.bo))
        elif kind in PACKS:
            packed(instance(i, n), kind, f'{kind} of a {c.name}', n % 4)
        elif kind == 'create':
            cls(i)
            data = w.codec.encode(o)
            agree(w, c, data, ('ok', o, len(data)), [method], prefix=prefix)
        elif kind == 'fill':
            x = instance(i, n)
            data = w.codec.encode(o, x[2])
            try:
                _, pos = unpack(None, fill, data, old=x[0], prefix=prefix)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f'step {step}: {fill} of {data.hex()} raised {type(e).__name__}: {e}') from e
            got = w.lift_obj(c, x[0])
            if not same(got, o):
                raise Violation(f'step {step}: {fill} gives {show(got, 2000)}\nexpected {show(o, 2000)}')
            if x[0].serializer.size != len(data) or pos not in (None, len(data)):
                raise Violation(f'step {step}: {fill} reports size {x[0].serializer.size}, position {pos}, expected {len(data)}')
            live[i][n % len(live[i])] = (x[0], o, x[2])
        elif kind in ('truncated', 'corrupt'):
            data = w.codec.encode(o)
            if not data:
                continue
            cls(i)
            if kind == 'truncated':
                data = data[:n % len(data)]
            else:
                at = n % len(data)
                data = data[:at] + bytes([data[at] ^ (1 << n % 8)]) + data[at + 1:]
            want = model_outcome(w, c, data)
            if want[0] == 'reject':
                failed += 1
            agree(w, c, data, want, [method, fill], old=objs[i][0], prefix=prefix)
        elif kind == 'bad':
            cls(i)
            options = [x for x in places(w, c, o) if not x[0].fits]
            if options:
                m, put, _, _ = options[n % len(options)]
                bad = fresh(i, put(m.new))
                try:
                    {'pack': bad.pack, 'pack_into': lambda: bad.pack_into(bytearray(200_000), 1),
                     'pack_write': lambda: bad.pack_write(io.BytesIO())}[PACKS[n % 3]]()
                except Exception:
                    failed += 1
                else:
                    raise Violation(f'step {step}: {PACKS[n % 3]} accepts {m.why} in {show(put(m.new), 2000)}')
        elif kind == 'swap':
            x = instance(i, n)
            if any(isinstance(h, SelfRef) for _, f in c.fields for h in walk_shallow(f)):
                continue
            bo = BYTE_ORDERS[n % 6]
            new = call('with_byte_order()', x[0].with_byte_order, w.lib.ByteOrder(bo))
            entry = new, x[1], bo
            if new is not x[0]:  # it is if the byte order is the same
                live[i].append(entry)
            elif bo != x[2]:
                raise Violation(f'step {step}: with_byte_order({bo!r}) changed the instance of byte order {x[2]!r}')
            swapped += 1
            packed(entry, PACKS[n % 3], f'{PACKS[n % 3]} after with_byte_order({bo!r})')
        elif kind == 'bomb':
            x = instance(i, n)
            mod.BOMB.append(1 + n % 3)
            if n & 64:
                fails('packing with a failing decider', x[0].pack, mod.Boom)
            else:
                fails('unpacking with a failing decider',
                      lambda: unpack(cls(i), method, w.codec.encode(o), prefix=prefix), mod.Boom)
            mod.BOMB.clear()
        elif kind == 'broken read':
            cls(i)
            f = Broken(w.codec.encode(o), n % 4)
            fails('unpacking from a broken stream', lambda: cls(i).create_unpack_read(f), OSError)
        elif kind == 'broken write':
            x = instance(i, n)
            fails('packing to a broken stream', lambda: x[0].pack_write(Broken(b'', n % 3)), OSError)
        elif kind == 'small buffer':
            x = instance(i, n)
            size = len(w.codec.encode(x[1], x[2]))
            if size:
                try:
                    x[0].pack_into(bytearray(size + n % 4 - 1), n % 4)
                except Exception:
                    failed += 1
                else:
                    raise Violation(f'step {step}: pack_into a buffer which is one byte too small succeeds')
        elif kind == 'subclass':
            cls(i)
            mod.__dict__.setdefault('made', [])
            text = (f'class Sub{step}({c.name}, byte_order=ByteOrder({BYTE_ORDERS[n % 6]!r}), '
                    f'byte_order_mode=ByteOrderMode.OVERRIDE):\n    extra{n % 2}: uint8\n')
            exec(compile(text, '<gencase>', 'exec', dont_inherit=True), mod.__dict__)
    # at last, everything once more
    for i, c in enumerate(classes):
        for x in live[i][-4:]:
            for how in PACKS:
                packed(x, how, f'{how} of a {c.name} at last', 1)
        cls(i)
        o = objs[i][1]
        data = w.codec.encode(o)
        agree(w, c, data, ('ok', o, len(data)), METHODS, old=objs[i][2], prefix=b'\1')
    shared = [fields for fields in groups if sum(fields[-1] in c.fields for c in classes) > 1
              and not isinstance(fields[-1][1], BASIC)]
    labels |= {f'generic: {min(len(generics), 2)}', f'failed: {min(failed, 5)}', f'swapped: {min(swapped, 3)}'}
    for f in shared:
        labels.add(f'shared {type(f[-1][1]).__name__}')
    if shared and len(ops) >= 10 and (failed or swapped):
        labels.add('nontrivial')
    return labels
