"""Invalid hints are rejected where they are defined, plain hints never are."""
from __future__ import annotations

from .common import *

RULE = 'a class definition contains an invalid hint or a hint which is not serialized inside of at least one other hint, next to a valid member'
EXAMPLES = dict(quick=10000, thorough=300000)
ASSUMPTIONS = ['an invalid hint inside of a hint which is not serialized as a whole may be rejected or ignored',
               'the name of an encoding is not looked up before it is used']

# (text, verdict, number of values, is it a basic type)
UNINDEXED = ('char', 'unicode', 'pascal', 'pad', 'array')
COUNTS = ('int8', 'int16', 'int32', 'int64', 'float16', 'float32', 'float64', 'bool8', 'int', 'str', 'bytes', 'None', '1.5', "'a'", 'char[2]',
          'pad[1]', 'unicode[2]', 'object()', 'NETString', 'list', 'tuple[uint8]', 'array[Header[2], uint8]', 'Annotated[int, SerializeAs(uint8)]')
ENCODINGS = ('3', 'None', 'int', "b'utf8'", 'str.encode', 'object()', 'uint8', '()', '{}', "('utf8',)", '1.5', 'Structured', 'NET')
PLAIN = ('int', 'str', 'bytes', 'float', 'bool', 'object', 'None', 'Any', 'list', 'dict', 'tuple', 'Tuple', 'type', 'list[int]',
         'dict[str, int]', 'tuple[int, str]', 'tuple[int, ...]', 'Tuple[str, ...]', 'Optional[int]', 'Union[int, str]', 'int | None',
         'set[bytes]', "Annotated[int, 'note']", 'Annotated[str, 1, 2]', 'Annotated[list[int], None]', 'type[int]', 'Foreign', 'GenForeign[int]',
         'IA', 'IB', 'Annotated[IB, 3]', 'GenForeign[uint8]', 'ForeignMeta')
HEADERS = ('Header[2]', 'Header[0]', 'Header[uint8]', 'Header[uint16, uint32]', 'Header[3, uint64]', 'Header[uint64]')
JUNK = ('0', '3', "''", "'uint8'", '()', '(uint8,)', '[]', '[uint8]', '{}', 'False', 'uint8()', 'bool', "b''")
GENERICS = {  # template: (plain arguments make it invalid, is it for a type)
    'T': False, 'tuple[T, uint8]': False, 'Tuple[uint16, T]': False, 'array[Header[2], T]': True, 'array[Header[uint8, uint8], T]': True,
    'tuple[uint8, tuple[T]]': False, 'tuple[int8, array[Header[1], T]]': True, 'Inner[T]': False, 'tuple[Inner[T], uint8]': False,
    'array[Header[uint8], Inner[T]]': False, 'Outer[uint8, T]': True,
}
SIZES = ('char[T]', 'unicode[T]', "unicode[T, 'utf-16']", 'array[Header[T], uint8]', 'array[Header[2, T], uint8]', 'array[Header[T, uint8], char[2]]',
         'tuple[char[T], uint8]', 'array[Header[uint8], tuple[unicode[T]]]', 'Sized[T]', 'tuple[Sized[T], uint8]')
EXTRA = '''
from fractions import Fraction

T = TypeVar('T')
U = TypeVar('U')


class Foreign:
    a: uint8
    b: char


class Indexed:
    """Can be used like an integer, but is none."""

    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n

    __int__ = __index__

    def __lt__(self, other):
        return self.n < other

    def __gt__(self, other):
        return self.n > other

    def __le__(self, other):
        return self.n <= other

    def __ge__(self, other):
        return self.n >= other

    def __mul__(self, other):
        return self.n * other

    __rmul__ = __mul__

    def __repr__(self):
        return str(self.n)


class GenForeign(Generic[T]):
    a: T


class ForeignMeta(type):
    pass


class NETString:
    pass


class Inner(Generic[T], Structured):
    a: uint8
    b: T


class Outer(Generic[T, U], Structured):
    b: T
    c: array[Header[T], U]


class Sized(Generic[T], Structured):
    s: char[T]


'''


def bad_leaf(g):
    def count():
        return g.pick((str(-g.int(1, 300)), str(-g.int(1, 3)), '-math.inf', 'math.nan') + COUNTS)

    def size():
        return g.pick(tuple(x for x in COUNTS if x != 'None') + ('0', '1', '255', str(-g.int(1, 9))))

    def enc():
        return g.pick(ENCODINGS)

    def whole(wrap):
        # Equal to a length which is fine, and which may have been used before
        n = g.pick(('2', '0', '1', '3', '255'))
        bad = g.pick(('{}.0', 'Fraction({})', 'complex({})', 'Indexed({})')).format(n)
        return f'({wrap.format(n)}, {wrap.format(bad)})[1]' if g.chance(2) else wrap.format(bad)

    def term():
        return repr(g.pick((b'', b'\0\0', b'ab', b'abc', bytes(g.int(2, 9)))))

    how = g.int(0, 19)
    if how <= 3:
        return ('bad', g.pick(UNINDEXED), 'deferred')
    text = {
        4: lambda: f'char[{count()}]',
        5: lambda: f'char[{term()}]',
        6: lambda: f'unicode[{count()}]',
        7: lambda: f"unicode[{g.pick((count, term))()}, {g.pick(('utf8', 'utf-16', 'latin-1'))!r}]",
        8: lambda: f"unicode[{g.pick(('2', 'uint8', 'NET', 'math.inf', repr(bytes(1))))}, {enc()}]",
        9: lambda: f'{g.pick(("pascal", "pad"))}[{g.pick((str(-g.int(1, 300)), "1.5", "None", "uint8", "int", "NET", repr("a"), "math.inf", "(1, 2)", repr(bytes(1)), "int8"))}]',
        10: lambda: f'array[Header[{count()}], {g.pick(("uint8", "char[2]", "char[uint8]", "tuple[uint8, char[1]]"))}]',
        11: lambda: f'array[Header[{g.pick(("uint8", "2", "0"))}, {size()}], {g.pick(("uint8", "char[2]", "char[uint8]"))}]',
        12: lambda: f'array[{g.pick(("2", "uint8", "Header", "int", "None", "char[2]", "Header[2], uint8, uint8", "()", "Header[1, uint8, 2], int8", "Header[()], int8"))}]'
        if g.chance(2) else f'array[{g.pick(("2", "uint8", "Header", "int", "None", "char[2]", "Header[1, uint8, 2]", "Header[()]"))}, uint8]',
        13: lambda: f'{g.pick(("char", "unicode"))}[{g.pick(("()", "2, 3, 4", "uint8, None, 1"))}]',
        14: lambda: f'array[{g.pick(HEADERS)}, {g.pick(PLAIN + ("3", "uint8()", repr("uint8"), "tuple[uint8, int]", "tuple[uint8, ...]", "Union[uint8, int8]", "Optional[uint8]"))}]',
        15: lambda: f'char[{term()}]',
        16: lambda: f'Annotated[Union[uint8, int8], LookbackDecider(bool, {{1: uint8}}, {g.pick(JUNK)})]',
        17: lambda: f'Annotated[Union[uint8, int8], LookaheadDecider(int8, bool, {{1: uint8, True: {g.pick(JUNK + ("None",))}}})]',
        18: lambda: f'Annotated[{g.pick(("int", "IA", "Foreign"))}, SerializeAs({g.pick(JUNK + ("None",))})]',
        19: lambda: whole(g.pick(('char[{}]', 'unicode[{}]', "unicode[{}, 'utf-16']", 'array[Header[{}], uint8]', 'array[Header[{}, uint8], char[uint8]]',
                                  'array[Header[{}], char[2]]', 'pad[{}]', 'pascal[{}]'))),
    }[how]()
    return ('bad', text, 'eager')


class Nodes:
    def __init__(self, g, hints):
        self.g, self.hints = g, hints
        self.left = 1  # invalid hints left to place

    def ok(self):
        g = self.g
        if g.chance(3):
            return ('spec', g.pick(self.hints or (Int('B'),)))
        return ('spec', g.pick((Int('B'), Int('h'), Bool(), Flt('f'), Chr(2), Chr(0), Pas(2), Dyn('H'), Term(0), Uni(Dyn('B'), 'utf8'), Net(),
                                Arr(2, None, Int('B')), Arr('B', 'H', Dyn('B')), Tup((Int('B'), Chr(1))))))

    def some(self):
        return self.plain() if self.g.chance(6) else self.ok()

    def plain(self):
        g = self.g
        if g.chance(5):
            return ('plain', g.pick(('tuple[{}, ...]', 'Tuple[{}, ...]', 'list[{}]', 'Optional[{}]', 'Union[{}, int]', 'Union[int8, {}]', 'dict[str, {}]',
                                     'tuple[{}, int]', 'tuple[str, {}]', 'type[{}]', 'set[{}]', 'tuple[tuple[{}, ...], uint8]')), self.ok())
        return ('plain', g.pick(PLAIN), None)

    def target(self):
        g = self.g
        return g.pick((bad_leaf(g), bad_leaf(g), self.plain(), ('spec', Pad(g.int(0, 2))), self.ok(), ('spec', Tup((Int('B'), Int('h'))))))

    def node(self, depth):
        """A hint with something to look at in its innermost place."""
        g = self.g
        if not depth:
            return self.target()
        x = self.node(depth - 1)
        how = g.int(0, 9)
        if how <= 1:
            items = [self.some() for _ in range(g.int(0, 2))]
            items.insert(g.int(0, len(items)), x)
            return ('tup', g.chance(2), tuple(items))
        if how <= 3:
            return ('arr', g.pick(HEADERS), x)
        if how == 4:
            return ('cond', x, g.int(0, 2) if g.chance(3) else -1)
        if how == 5:
            alts = [self.ok() for _ in range(g.int(0, 2))]
            alts.insert(g.int(0, len(alts)), x)
            return ('look', tuple(alts), self.ok() if g.chance(3) else None, None) if g.chance(2) else \
                ('look', tuple(alts), self.ok() if g.chance(3) else None, g.pick((('spec', Int('B')), self.ok())))
        if how == 6:
            alts = tuple(self.ok() for _ in range(g.int(1, 2)))
            return ('look', alts, x, None) if g.chance(2) else ('look', alts, self.ok() if g.chance(3) else None, x)
        if how == 7:
            return ('ser', g.pick(('IA', 'IB', 'int', 'Foreign')), x) if not g.chance(3) else ('nonunion', x, self.ok())
        if how == 8:
            return ('ref', x, g.chance(3))
        if g.chance(3):
            arg = g.pick(COUNTS[:10] + ('char[2]', 'uint8', 'uint16', 'uint32', 'uint64', 'NET', 'char'))
            return ('size', g.pick(SIZES), arg)
        return ('gen', g.pick(tuple(GENERICS)), x)


def strategy(tier):
    big = tier == 'thorough'

    @st.composite
    def build(draw):
        cfg = Cfg(features=ALL - {'self', 'noise', 'cons'}, depth=2, max_fields=3, min_fields=0, long_runs=False)
        g = G(draw, cfg)
        c = g.cls()
        nodes = Nodes(g, [h for _, h in c.fields])
        node = nodes.node(g.pick((0, 1, 1, 2, 2, 3) + ((4, 5) if big else ())))
        if g.chance(12):
            node = ('var', node)
        form = g.pick(('flat', 'flat', 'flat', 'sub', 'redefined', 'generic'))
        return (c, node, draw(st.integers(0, 63)), form, g.int(0, len(c.fields)), g.chance(2))

    return build()


def verdict(node):
    """'bad', 'plain', 'any' or (number of values, is it a basic type)"""
    kind = node[0]
    if kind == 'bad':
        return 'bad'
    if kind == 'plain':
        return 'plain'
    if kind == 'spec':
        return (0 if is_pad(node[1]) else 1, isinstance(node[1], BASIC) or isinstance(node[1], Cust))
    if kind == 'var':
        v = verdict(node[1])
        return 'plain' if v not in ('bad', 'any') or deferred(node[1]) else 'bad' if v == 'bad' and node[1][0] == 'bad' else 'any'
    if kind == 'tup':
        out = [verdict(x) for x in node[2]]
        if 'plain' in out:
            return 'any' if 'bad' in out or 'any' in out else 'plain'
        return 'bad' if 'bad' in out else 'any' if 'any' in out else (1, False)
    if kind == 'arr':
        v = verdict(node[2])
        return 'any' if v == 'any' else 'bad' if v in ('bad', 'plain') else (1, False)
    if kind == 'cond':
        v = verdict(node[1])
        if v in ('bad', 'plain', 'any'):
            return 'any' if v == 'any' else 'bad'
        return (v[0], False) if node[2] in (-1, v[0]) else 'bad'
    if kind == 'look':
        out = [verdict(x) for x in node[1]] + ([verdict(node[2])] if node[2] not in (None, ('plain', 'None', None)) else [])
        if any(v in ('bad', 'plain') or v != 'any' and v[0] != 1 for v in out):
            return 'bad'
        if node[3]:
            v = verdict(node[3])
            if v in ('bad', 'plain'):
                return 'bad'
            if v == 'any' or v[0] != 1:
                return 'any'
        return 'any' if 'any' in out else (1, False)
    if kind == 'ser':
        v = verdict(node[2])
        return 'any' if v == 'any' else (1, True) if v == (1, True) else 'bad'
    if kind == 'nonunion':
        x, alt = node[1], verdict(node[2])
        if alt in ('bad', 'plain', 'any') or alt[0] != 1:
            return 'bad' if alt != 'any' else 'any'
        v = verdict(x)
        return 'bad' if v == 'bad' or not is_union(x) else 'any'
    if kind == 'ref':
        v = verdict(node[1])
        return v if v in ('bad', 'any') else (1, False)
    if kind == 'gen':
        v = verdict(node[2])
        if v in ('bad', 'any'):
            return v
        return 'bad' if v == 'plain' and GENERICS[node[1]] else 'any' if is_open(node[2]) else (1, False)
    if kind == 'size':
        if node[2] in ('uint8', 'uint16', 'uint32', 'uint64'):
            return (1, False)
        return (1, False) if node[2] == 'NET' and 'Header[T' not in node[1] and 'Header[2, T' not in node[1] else 'bad'
    raise AssertionError(node)


def is_open(x):
    """Hints which are no valid arguments of a generic class."""
    return any(y[0] in ('cond', 'look', 'ser', 'nonunion') and False for y in parts(x))


def is_union(x):
    return x[0] == 'look' or x[0] == 'cond' and is_union(x[1]) or x[0] == 'plain' and ('Union' in x[1] or 'Optional' in x[1] or '|' in x[1]) \
        or x[0] == 'spec' and any(isinstance(h, (Look, Ahead)) for h in walk_shallow(x[1])) or x[0] in ('nonunion',)


def deferred(x):
    return x[0] == 'bad' and x[2] == 'deferred'


def parts(node):
    yield node
    for x in node[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from parts(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from parts(y)


class Text:
    """Renders a node; classes it needs are collected as (text, verdict)."""

    def __init__(self, variant):
        self.variant = variant
        self.defs = []

    def __call__(self, node):
        kind = node[0]
        if kind == 'bad':
            return node[1]
        if kind == 'plain':
            return node[1].format(self(node[2])) if node[2] else node[1]
        if kind == 'spec':
            h = node[1]
            text = render.hint(h, self.variant)
            return f'Annotated[None, {text}]' if isinstance(h, Pad) and self.variant & render.PIPE else text
        if kind == 'var':
            return f'ClassVar[{self(node[1])}]'
        if kind == 'tup':
            return f'{"Tuple" if node[1] else "tuple"}[{", ".join(map(self, node[2]))}]'
        if kind == 'arr':
            return f'array[{node[1]}, {self(node[2])}]'
        if kind == 'cond':
            v = verdict(node[1])
            n = node[2] if node[2] >= 0 else 1 if isinstance(v, str) else v[0]
            return f'Annotated[{self(node[1])}, Condition(bool{", None" * n})]'
        if kind == 'look':
            alts = ', '.join(f'{i}: {self(x)}' for i, x in enumerate(node[1]))
            default = f', {self(node[2])}' if node[2] else ''
            if node[3]:
                return f'Annotated[Union[uint8, int8], LookaheadDecider({self(node[3])}, bool, {{{alts}}}{default})]'
            return f'Annotated[Union[uint8, int8], LookbackDecider(bool, {{{alts}}}{default})]'
        if kind == 'ser':
            return f'Annotated[{node[1]}, SerializeAs({self(node[2])})]'
        if kind == 'nonunion':
            return f'Annotated[{self(node[1])}, LookbackDecider(bool, {{1: {self(node[2])}}})]'
        name = f'D{len(self.defs)}'
        if kind == 'ref':
            h = self(node[1])
            name = f'D{len(self.defs)}'
            text = f'class {name}(Structured):\n    _: pad[1]\n    x: {h}\n    y: uint8\n'
            if node[2]:
                text = f'class {name}(Structured):\n    x: {h}\n'
            self.defs.append((text + '\n\n', verdict(node[1])))
            return name
        if kind == 'gen':
            h = self(node[2])
            name = f'D{len(self.defs)}'
            self.defs.append((f'class {name}(Generic[T], Structured):\n    u: uint8\n    x: {node[1]}\n\n\n', (1, False)))
            return f'{name}[{h}]'
        if kind == 'size':
            self.defs.append((f'class {name}(Generic[T], Structured):\n    u: uint8\n    x: {node[1]}\n\n\n', (1, False)))
            return f'{name}[{node[2]}]'
        raise AssertionError(node)


def pieces(case):
    """[(text, verdict, expected members)]"""
    c, node, variant, form, pos, early = case
    out = [(EXTRA, (1, False), None)]
    for name, d in classes_of(c).items():
        out.append((render.class_src(d, variant), (1, False), None))
    text = Text(variant)
    h = text(node)
    v = verdict(node)
    out += [(t, w, None) for t, w in text.defs]
    bo = f', byte_order=ByteOrder({c.bo!r})' if c.bo else ''
    fields = [(n, f'    {n}: {render.field_hint(x, variant)}\n') for n, x in c.fields]
    names = [n for n, x in c.fields if not is_pad(x)]
    mine = 'm' if early else '_'
    if mine == '_' and (v == 'plain' or isinstance(v, tuple) and v[0]):
        mine = 'm'
    line = f'    {mine}: {h}\n'
    seen = ['m'] if isinstance(v, tuple) and v[0] else []
    if v == 'any':
        seen = None
    if form == 'sub':
        text = ''.join(t for _, t in fields) or '    pass\n'
        out.append((f'class Base(Structured{bo}):\n{text}\n\n', (1, False), names))
        out.append((f'class X(Base{bo}):\n{line}\n\n', v, None if seen is None else names + seen))
    elif form == 'redefined':
        text = ''.join(t for _, t in fields)
        out.append((f'class Base(Structured{bo}):\n    m: uint8\n{text}\n\n', (1, False), ['m'] + names))
        out.append((f'class X(Base{bo}):\n    m: {h}\n\n\n', v, None if seen is None else seen + names))
    elif form == 'generic' and c.fields and c.fields[0][0] != '_':
        text = ''.join(t for _, t in fields)
        out.append((f'class Base(Generic[T], Structured{bo}):\n    q: T\n{text}\n\n', (1, False), names))
        out.append((f'class X(Base[uint8]{bo}):\n    m: {h}\n\n\n', v, None if seen is None else ['q'] + names + seen))
    else:
        fields.insert(pos, (mine, line))
        before = [n for n, x in c.fields[:pos] if not is_pad(x)]
        out.append((f'class X(Structured{bo}):\n{"".join(t for _, t in fields)}\n\n', v,
                    None if seen is None else before + seen + names[len(before):]))
    return out


def source(case):
    return render.prelude(case[2]) + '\n' + ''.join(t for t, _, _ in pieces(case))


def check(case):
    c, node, variant, form, pos, early = case
    mod = define(render.prelude(variant))
    flags = __import__('__future__').annotations.compiler_flag if variant & render.FUTURE else 0
    labels = {form}

    def run(text):
        exec(compile(text, '<gencase>', 'exec', flags=flags, dont_inherit=True), mod.__dict__)

    rejected = False
    for text, v, names in pieces(case):
        try:
            run(text)
        except (TypeError, ValueError) as e:
            if v not in ('bad', 'any'):
                raise Violation(f'a valid definition is rejected: {type(e).__name__}: {e}\n{text}') from e
            rejected = True
            labels.add(f'rejected with {type(e).__name__}')
            try:
                run(text)
            except (TypeError, ValueError):
                pass
            else:
                if v == 'bad':
                    raise Violation(f'the definition is rejected only the first time:\n{text}')
            break
        except Exception as e:
            raise Violation(f'{type(e).__name__} instead of {"a TypeError or ValueError" if v == "bad" else "acceptance"}: {e}\n{text}') from e
        if v == 'bad':
            raise Violation(f'an invalid definition is accepted:\n{text}')
        if names is not None:
            cls = list(mod.__dict__.values())[-1]
            if list(cls.attrs) != names:
                raise Violation(f'serialized are {list(cls.attrs)}, not {names}:\n{text}')
    v = verdict(node)
    labels.add(v if isinstance(v, str) else 'ok')
    for x in parts(node):
        if x[0] != 'spec':
            labels.add(f'{x[0]}: {"rejected" if rejected else "accepted"}')
    if deferred(node) or any(map(deferred, parts(node))):
        labels.add('unindexed')
    if node[0] not in ('spec', 'bad', 'plain') and v != 'any' and (members(c) or form == 'redefined') and any(x[0] in ('bad', 'plain') for x in parts(node)) or \
            rejected and node[0] != 'bad' and members(c):
        labels.add('nontrivial')
    # what follows is not influenced
    run('class After(Structured):\n    a: char[2]\n    b: array[Header[uint8], uint16]\n    c: unicode[uint8]\n    d: tuple[uint8, char[1]]\n')
    o = mod.After(b'ab', [1], 'c', (1, b'd'))
    if o.pack() != b'ab\1' + struct.pack('H', 1) + b'\1c\1d' or mod.After.create_unpack(o.pack()) != o:
        raise Violation('a valid class does not work after the definitions')
    return labels
