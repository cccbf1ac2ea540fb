"""Serialized members drive attrs, construction, equality and text."""
import re

from .common import *
from .c09 import reads
from .c16 import rename

RULE = ('at least two serialized members, next to something that is not one (a pad, an annotation which is not '
        'serialized, a class attribute) or with an initializer of its own, an unusual name or a nested class')
EXAMPLES = dict(quick=8000, thorough=250000)
ASSUMPTIONS = ['field names do not collide with the names of the API; values compare as Python objects do']

NAMES = ('cls', 'x_pad_', '_pad_', 'pad_', 'pad', 'name', 'buffer', 'value', 'values', 'args', 'kwargs', 'index', 'count', 'offset', 'type', 'str', 'int8',
         'uint8', 'array', 'Self', 'é', 'Δ', '_x', '_', '__p', '__q', 'x__', '__y__', 'a1', 'items', 'result', 'obj',
         'other', 'cls_', 'object', 'format', 'fmt', 'size', 'num_values', 'zips', 'attr', 'print')
NOISE = ('int', 'str = "x"', 'int = 3', 'ClassVar[uint8] = 3', 'ClassVar[int]', 'list[int]', 'tuple[int8, ...]',
         'tuple[int8, str]', 'tuple[()]', 'Any', 'dict[str, int] = {}', 'Optional[int8]', 'Optional[int8] = None', 'None',
         'Union[int8, int16]', 'list[uint8]', 'type[uint8]', 'Annotated[int, 5]', 'Annotated[str, "text", 3] = "y"',
         'set[int]', 'bytes', 'float = 1.0', 'bool', 'object', 'ByteOrder', 'int | None', '"ClassVar[int8]" = 5',
         '"ClassVar[char[2]]"', '"int"', 'Annotated[list[uint8], None]', 'Union[str, None]', 'ClassVar', 'ClassVar = 3')


@node
class Style:
    """How a class is written."""
    init: str  # gen, own, args, data
    slots: bool
    post: bool
    extra: tuple  # lines of its body
    quoted: tuple  # indexes of quoted annotations


PLAIN = Style('gen', False, False, (), ())
POST = '''\
    def __post_init__(self):
        self.posts = getattr(self, 'posts', 0) + 1
        self.seen = [getattr(self, a) for a in type(self).attrs]
'''


def class_text(c: ClassSpec, s: Style, variant: int) -> str:
    lines = []
    plain = s.init == 'data' or s.slots
    i = 0
    for name, h in c.fields:
        text = render.field_hint(h, variant)
        shown = re.sub(rf'^_{c.name}__(?=[a-z])', '__', name)
        if i in s.quoted and not isinstance(h, Noise) and not variant & render.FUTURE:
            text = repr(text)
        if plain and isinstance(h, Noise) and ('=' in text or not text.startswith('ClassVar')):
            continue
        lines.append(f'    {shown}: {text}\n')
        i += 1
    names = [n for n, _ in attrs(c)]
    if s.slots:
        lines.insert(0, f'    __slots__ = {(*names, "posts", "seen", "own")!r}\n')
    if not plain:
        for at, line in s.extra:
            lines.insert(at % (len(lines) + 1), f'    {line}\n')
    if s.init == 'own':
        lines.append(f'    def __init__(self, {", ".join(names)}):\n' if names else '    def __init__(self):\n')
        lines += [f'        self.{n} = {n}\n' for n in names]
        lines.append('        self.own = getattr(self, "own", 0) + 1\n')
    elif s.init == 'args':
        lines.append('    def __init__(self, *args):\n')
        lines.append(f'        for n, v in zip({names!r}, args, strict=True):\n            setattr(self, n, v)\n')
        lines.append('        self.own = getattr(self, "own", 0) + 1\n')
    if s.post:
        lines.append(POST)
    bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
    init = '' if s.init == 'gen' else ', init=False'
    deco = '@dataclass\n' if s.init == 'data' else ''
    return f'{deco}class {c.name}(Structured{bo}{init}):\n{"".join(lines) or "    pass"}\n\n'


def source(case):
    c, o, variant, styles, o2 = case
    text = render.prelude(variant).replace('import math\n', 'import math\nfrom dataclasses import dataclass\n', 1) + '\n'
    styles = dict(styles)
    for name, d in classes_of(c).items():
        text += class_text(d, styles[name], variant)
    bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
    text += f'class Sub({c.name}{bo}):\n    helper = 1\n\n\n'
    text += f'class SubKept({c.name}{bo}, init=False):\n    note: ClassVar[int] = 1\n\n\n'
    text += class_text(ClassSpec('Twin', c.bo, c.fields), PLAIN, variant)
    return text


def usable(h):
    return not is_pad(h) and not isinstance(h, Noise)


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        cfg = Cfg(features=ALL - {'noise'}, depth=2 if big else draw(st.sampled_from((1, 1, 2))), max_fields=6, nodes=8,
                  long_values=False, long_runs=False, nested_bo=False)
        g = G(draw, cfg)
        c = g.cls()
        styles = []
        done = {}

        def dress(c):
            if c.name in done:
                return done[c.name]

            def f(h):
                return Ref(dress(h.cls)) if isinstance(h, Ref) else h

            style = Style(g.pick(('gen', 'gen', 'own', 'args', 'data')), g.chance(8), g.chance(2),
                          tuple((g.int(0, 9), g.pick(('limit = 3', 'flag = True', 'def helper(self): return 1',
                                                     'other_ = property(lambda self: 5)')))
                                for _ in range(g.int(0, 1))),
                          tuple(i for i in range(len(c.fields)) if g.chance(4)))
            if any(is_pad(h) for _, h in c.fields) and style.init == 'data' or \
                    style.slots and style.init == 'data':
                style = Style('gen', *[getattr(style, n) for n in ('slots', 'post', 'extra', 'quoted')])
            fields = [(n, rebuild(h, f)) for n, h in c.fields]
            used = reads(c)
            ren = {}
            for n, h in fields:
                if usable(h) and g.chance(3):
                    m = g.pick(NAMES)
                    if n in used and m[:2] == '__':
                        continue
                    if m in ('__p', '__q'):
                        m = f'_{c.name}{m}'
                    if m not in ren.values() and not (m == '_' and (style.init != 'gen' or style.slots)):
                        ren[n] = m
            # what reads the tag reads the field under its new name
            fields = list(rename(fields, ren, g, c.name))
            if g.chance(10):
                at = 0 if is_final(Ref(c)) else g.int(0, len(fields))
                few = [g.basic(pad=style.init != "data") for _ in range(6)]
                fields[at:at] = [(f'r{i}', few[i * 5 % 6]) for i in range(g.pick((9, 15, 16, 17, 30, 40, 129, 260)))]
                fields = [('_' if is_pad(h) else n, h) for n, h in fields]
            for _ in range(g.pick((0, 0, 1, 2, 3))):
                fields.insert(g.int(0, len(fields)), (f'n{len(fields)}', Noise(g.pick(NOISE))))
            styles.append((c.name, style))
            done[c.name] = ClassSpec(c.name, c.bo, tuple(fields))
            return done[c.name]

        c = dress(c)
        return c, g.instance(c), draw(st.integers(0, 63)), tuple(styles), g.instance(c)

    return build()


def text_of(o: Obj, w) -> str:
    """str() of the object the model describes."""
    spec = w.classes[o.cls]
    vals = w.build_values(spec, o)
    parts = []
    for (n, h), v, x in zip(attrs(spec), vals, o.vals):
        parts.append(f'{n}={show_value(x, v, w, False)}')
    return f'{o.cls}({", ".join(parts)})'


def show_value(x, v, w, inside) -> str:
    if isinstance(x, Obj):
        s = text_of(x, w)
        return f'<{s}>' if inside else s
    if isinstance(x, list):
        return '[' + ', '.join(show_value(a, b, w, True) for a, b in zip(x, v)) + ']'
    if isinstance(x, tuple):
        return '(' + ', '.join(show_value(a, b, w, True) for a, b in zip(x, v)) + (',)' if len(x) == 1 else ')')
    return repr(v) if inside else str(v)


def equal(a, b, names) -> bool:
    """Whether two values are equal, by the members of the instances in them."""
    if hasattr(a, 'pack_into') and hasattr(b, 'pack_into'):
        return type(a) is type(b) and all(equal(getattr(a, n), getattr(b, n), names) for n in names[type(a).__name__])
    if type(a) is type(b) and isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(x is y or equal(x, y, names) for x, y in zip(a, b))
    return a == b


def rejected(what, fn, *args, **kw):
    try:
        res = fn(*args, **kw)
    except TypeError:
        return
    raise Violation(f'{what} is accepted: {res}')


def check(case):
    c, o, variant, styles, o2 = case
    styles = dict(styles)
    specs = dict(classes_of(c))
    flat = contains_no_self(c)
    w = World(define(source(case)), c)
    labels = shape_labels(c)
    names = {n: tuple(x for x, _ in attrs(s)) for n, s in specs.items()}
    top = names[c.name]
    for n in ('Sub', 'SubKept', 'Twin'):
        names[n] = top
    for n, want in names.items():
        got = w.cls(n).attrs
        if got != want or type(got) is not tuple:
            raise Violation(f'{n}.attrs is {got}, expected {want}')
    cls = w.cls(c.name)
    spec = w.classes[c.name]
    style = styles[c.name]
    data = w.codec.encode(o)

    def checked(x, how, kind=None):
        """The instances inside of x were initialized the right way."""
        seen = set()

        def visit(v):
            if hasattr(v, 'pack_into') and id(v) not in seen:
                seen.add(id(v))
                name = type(v).__name__
                s = PLAIN if name == 'Twin' else styles.get(name, style)
                own = s.init in ('own', 'args') and name != 'Sub'
                if getattr(v, 'own', 0) != own:
                    raise Violation(f'{how}: the initializer of {name} ran {getattr(v, "own", 0)} times, expected {int(own)}')
                if s.post:
                    want = 0 if own else 1
                    if getattr(v, 'posts', 0) != want:
                        raise Violation(f'{how}: __post_init__ of {name} ran {getattr(v, "posts", 0)} times, expected {want}')
                    if want and not (len(v.seen) == len(names[name]) and
                                     all(a is getattr(v, n) for a, n in zip(v.seen, names[name]))):
                        raise Violation(f'{how}: __post_init__ of {name} saw {v.seen}, not the members of {v}')
                for n in names[name]:
                    visit(getattr(v, n))
            elif isinstance(v, (list, tuple)):
                for y in v:
                    visit(y)

        visit(x)
        return x

    # construction
    vals = w.build_values(spec, o)
    want = checked(call('positional arguments', cls, *vals), 'construction')

    def has(x, how, vals=vals):
        for n, v in zip(top, vals):
            if getattr(x, n) is not v:
                raise Violation(f'{how}: {n} is {getattr(x, n)!r}, expected {v!r}')

    has(want, 'positional arguments')
    builders = [('SubKept', 'init=False')] + [('Sub', 'gen'), ('Twin', 'gen')]
    if not style.slots:
        for name, _ in builders:
            has(checked(call(f'{name}()', w.cls(name), *vals), name), name)
    made = [('gen', w.cls(n)) for n in ('Sub', 'Twin')]
    if style.init in ('gen', 'data', 'own'):
        made.append((style.init, cls))
    for how, k in made:
        kw = dict(zip(top, vals))
        has(call('keyword arguments', lambda: k(**kw)), 'keyword arguments')
        has(call('keyword arguments', lambda: k(**dict(reversed(kw.items())))), 'reversed keyword arguments')
        half = len(vals) // 2
        has(call('mixed arguments', lambda: k(*vals[:half], **dict(list(kw.items())[half:]))), 'mixed arguments')
        rejected('a surplus argument', k, *vals, 0)
        rejected('an unknown keyword', k, *vals, unknown_name=0)
        for i, n in enumerate(top):
            rejected(f'a missing {n}', k, **{m: v for m, v in kw.items() if m != n})
            rejected(f'a second {n}', k, *vals, **{n: vals[i]})
        if vals:
            rejected('one argument less', k, *vals[:-1])
        for n, h in c.fields:
            if isinstance(h, Noise):
                rejected(f'the unserialized {n}', k, *vals, **{n: 0})
    for n, h in c.fields:
        if isinstance(h, Noise) and n in vars(want) if not style.slots else False:
            raise Violation(f'the unserialized {n} was set')

    # equality
    other = cls(*vals)
    plain = style.init != 'data'
    fresh_vals = w.build_values(spec, o)
    copies = [cls(*fresh_vals)]
    methods = METHODS
    try:
        w.codec.decode(c, data)
    except (model.Reject, model.TooBig):
        methods = ()
    size = len(data)
    for m in methods:
        back, _ = must_unpack(w, cls, m, data, old=w.build(o2))
        if m.startswith('create'):
            checked(back, m)
            copies.append(back)
        else:
            for n in top:
                visit_nested(getattr(back, n), lambda v: checked(v, m))
            copies.append(back)

    def compare(a, b, how):
        e = equal(a, b, names)
        for x, y in ((a, b), (b, a)):
            if (x == y) is not e or (x != y) is e:
                raise Violation(f'{how}: {x} == {y} is {x == y}, != is {x != y}, expected {e}')
        return e

    if plain and all(s.init != 'data' for s in styles.values()):
        compare(want, other, 'the same values')
        compare(want, want, 'itself')
        for x in copies:
            if compare(want, x, 'a copy') is False:
                labels.add('unequal copy')
        if not has_nan(o):
            for x in copies[:1]:
                if not want == x:
                    raise Violation(f'{want} is not equal to {x}')
        second = w.build(o2)
        compare(want, second, 'another object')
        vals2 = w.build_values(spec, o2)
        for i, n in enumerate(top):
            for v in (vals2[i], object(), None):
                mixed = list(vals)
                mixed[i] = v
                e = compare(want, cls(*mixed), f'another {n}')
                if e:
                    labels.add('equal with another member')
            x = cls(*vals)
            setattr(x, n, vals2[i])
            compare(want, x, f'{n} assigned')
        if not style.slots:
            x = cls(*fresh_vals)
            x.more = 1
            for n, h in c.fields:
                if isinstance(h, Noise):
                    setattr(x, n, object())
            compare(want, x, 'other attributes')
            if str(x) != str(cls(*fresh_vals)):
                raise Violation('other attributes show in the text')
        for k in ('Sub', 'SubKept', 'Twin'):
            x = w.cls(k)(*vals)
            if want == x or x == want or not want != x or not x != want:
                raise Violation(f'{want} is equal to {x}')
            if x != w.cls(k)(*vals) and not any(v is not v or v != v for v in vals):
                raise Violation(f'{x} is not equal to itself')
        for x in (None, 0, '', tuple(vals), dict(zip(top, vals)), vals, data, cls, object()):
            if want == x or x == want or not want != x or not x != want:
                raise Violation(f'{want} is equal to {x!r}')

        # text
        text = text_of(o, w)
        for x in [want, *copies[:1]]:
            if str(x) != text:
                raise Violation(f'str() gives {str(x)}\nexpected {text}')
            if repr(x) != f'<{text}>':
                raise Violation(f'repr() gives {x!r}\nexpected <{text}>')
        for k in ('Sub', 'Twin'):
            t = k + text[len(c.name):]
            x = w.cls(k)(*vals)
            if str(x) != t or repr(x) != f'<{t}>':
                raise Violation(f'str() gives {str(x)}, repr() {x!r}\nexpected {t}')
        labels.add('text and equality')

    # objects in another byte order are initialized the same way
    if not style.slots and flat:
        for bo in w.lib.ByteOrder:
            x = call('with_byte_order', want.with_byte_order, bo)
            has(x, 'with_byte_order')
            checked(x, 'with_byte_order')
    has(want, 'afterwards')
    if w.cls(c.name).attrs != top:
        raise Violation('attrs has changed')

    labels |= {f'init:{s.init}' for s in styles.values()}
    if style.slots:
        labels.add('slots')
    if style.post:
        labels.add('__post_init__')
    noise = [h for _, h in c.fields if isinstance(h, Noise)]
    pads = [h for _, h in c.fields if is_pad(h)]
    odd = [n for n in top if not re.fullmatch(r'[fkr]\d+|tag', n)]
    if noise:
        labels.add('unserialized annotation')
    if pads:
        labels.add('pad member')
    if odd:
        labels.add('unusual name')
    if any('_' == n for n in odd):
        labels.add('member named _')
    if len(top) >= 2 and (noise or pads or odd or style.init != 'gen' or len(specs) > 1 or style.extra):
        labels.add('nontrivial')
    return labels


def visit_nested(v, f):
    if hasattr(v, 'pack_into'):
        f(v)
    elif isinstance(v, (list, tuple)):
        for y in v:
            visit_nested(y, f)


def contains_no_self(c):
    return not any(isinstance(x, SelfRef) for x in walk_class(c))
