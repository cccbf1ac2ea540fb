"""Generators: class specs, then values which satisfy their deciders.

All randomness comes from Hypothesis draws.
"""
from __future__ import annotations

import struct
from dataclasses import dataclass, field, replace

from hypothesis import strategies as st
from hypothesis.errors import UnsatisfiedAssumption

from . import model
from .spec import *

ALL = frozenset('basic pad cust chr pas dyn term net cons uni tup arr ref cond look ahead self noise condpad'.split())
USR = ALL | {'usr'}
FLAT = frozenset('basic pad cust chr pas dyn term net cons uni'.split())


@dataclass
class Cfg:
    features: frozenset = ALL
    max_fields: int = 5
    min_fields: int = 0
    depth: int = 2
    byte_orders: tuple = BYTE_ORDERS
    long_runs: bool = True
    long_values: bool = True
    cons: bool = True  # allow consume-everything strings
    nodes: int = 12  # instances inside of an instance, about
    levels: int = 3  # nesting of instances
    junk: bool = False  # any value for conditional members which are skipped
    fit: bool = True  # only values that survive a round trip
    size_codes: str = 'BHIQ'
    ahead_kinds: tuple = ('int', 'int', 'int', 'chr', 'chr', 'dyn', 'term', 'net', 'uni', 'bool', 'flt', 'pair', 'cust')
    ahead_ref: bool = True  # look-ahead unions may have nested classes
    ahead_self: bool = True  # look-ahead unions may have Self
    nested_bo: bool = True  # nested classes may have their own byte order
    cust_weight: int = 1
    cust_keys: str = 'ABf'  # custom types of what deciders look at
    themes: bool = True
    lone: int = 15  # one class in so many has a single member, often conditional
    wide: int = 25  # one class in so many has a lot of members
    static_counts: tuple = (0, 1, 2, 3, 9, 10, 11)
    weights: dict = field(default_factory=dict)


_INTS = {}
_FLOATS = {
    'e': st.floats(width=16), 'f': st.floats(width=32), 'd': st.floats(width=64),
}
_BYTE = st.integers(0, 255)
_SMALL = st.binary(max_size=6)
ALPHABETS = {
    'utf8': 'aZ0 \n\x7f\x80\xe9\u0394\u20ac\U0001f600\x00\r\ufeffe\u0301\u212b\u2028',
    'ascii': 'aZ0 \n\x7f~\x00',
    'latin-1': 'aZ0 \n\r\t\x80\xe9\xff\x00\xa0',
    'cp1252': 'aZ0 \u20ac\xe9\x00',
    'utf-16': 'aZ\xe9\u0394\U0001f600\x00\u5500\ufeff\r\n',
    'utf-16-le': 'aZ\xe9\u0394\U0001f600\x00\u5500\ufeff\ufffe',
    'utf-16-be': 'aZ\xe9\u0394\U0001f600\x00',
    'utf-32-be': 'aZ\xe9\U0001f600\x00',
    'custom:cls': 'aZ\xe9U\u0394\U0001f600\x00\u5555',
    'custom:obj': 'aZ\xe9U\u0394\U0001f600\x00',
    'custom:twin': 'aZ\xe9U3\u0394\x00\u3333',
}
ENCODINGS = tuple(ALPHABETS)
_SURROGATES = '\ud800', '\udc80', '\udce9', '\udfff'
UNENCODABLE = {e: _SURROGATES for e in ENCODINGS} | {
    'ascii': ('\xe9', '\x80', '\u20ac', '\udc80', '\udce9'), 'latin-1': ('\u20ac', '\u0100', '\udc80', '\udce9'),
    'cp1252': ('\u0394', '\x81', '\udc80', '\udc81')}
THEMES = {
    # none of these has to be prepared
    'plain': dict(basic=4, pad=3, str=5, uni=2, tup=0, arr=0, ref=1, cond=0, look=0, ahead=0),
    'pads': dict(pad=5, basic=4),
}
DYN_LENGTHS = {
    'B': (0, 1, 2, 254, 255),
    'H': (0, 1, 2, 255, 256, 257, 1023, 4097),
    'I': (0, 1, 2, 255, 256, 257, 511, 2048),
    'Q': (0, 1, 2, 255, 256, 257),
}
NET_LENGTHS = (0, 1, 127, 128, 129, 255, 256, 257, 383, 384, 511, 512, 1000, 16383, 16384, 32767)


class NoInstance(UnsatisfiedAssumption):
    """The example is not used."""


class G:
    def __init__(self, draw, cfg: Cfg):
        self.draw = draw
        self.cfg = cfg
        self.domains = {}  # (class, field) -> (all keys, keys which do not recurse)
        self.count = 0
        self.nodes = 12
        self.items = 600  # items of long arrays in one instance
        self.theme, self.theme_depth = '', None

    # -- primitive draws ------------------------------------------------------
    def int(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, seq):
        seq = tuple(seq)
        return self.draw(st.sampled_from(seq)) if len(seq) > 1 else seq[0]

    def chance(self, n):
        """True once in n times; shrinks to False."""
        return self.draw(st.integers(0, n - 1)) == n - 1

    def has(self, *names):
        return all(n in self.cfg.features for n in names)

    # -- hints ---------------------------------------------------------------------
    def basic(self, pad=False, cust=True):
        kinds = [Int, Int, Int, Bool, Flt]
        if self.has('chr'):
            kinds.append(Chr)
        if self.has('pas'):
            kinds.append(Pas)
        if cust and self.has('cust'):
            kinds += [Cust] * self.cfg.cust_weight
        if pad and self.has('pad'):
            kinds.append(Pad)
        k = self.pick(kinds)
        if k is Int:
            return Int(self.pick('BbHhIiQq'))
        if k is Flt:
            return Flt(self.pick('efd'))
        if k is Chr:
            return Chr(self.pick((0, 1, 2, 3, 4, 9, 10, 11, 100)))
        if k is Pas:
            return Pas(self.pick((1, 2, 3, 5, 10, 11, 255, 256, 257)))
        if k is Pad:
            return Pad(self.pick((1, 0, 2, 3, 7, 10, 11)))
        if k is Cust:
            base = self.basic(cust=False)
            return Cust(base, self.pick('ABfg'))
        return Bool()

    def style(self, final, codes=None):
        """A char length style."""
        kinds = []
        if self.has('dyn'):
            kinds.append(Dyn)
        if self.has('term'):
            kinds.append(Term)
        if self.has('net'):
            kinds.append(Net)
        if self.has('chr'):
            kinds.append(Chr)
        if final and self.has('cons') and self.cfg.cons:
            kinds += [Cons, Cons]
        k = self.pick(kinds)
        if k is Dyn:
            return Dyn(self.pick(codes or self.cfg.size_codes))
        if k is Term:
            return Term(self.pick((0, 0, 10, 255, 0x55, 65, 128)))
        if k is Chr:
            return Chr(self.pick((0, 1, 2, 3, 4, 8, 10, 12, 100)))
        return k()

    def uni(self, final):
        s = self.style(final)
        encs = ENCODINGS
        if isinstance(s, Term):
            encs = ('utf8', 'ascii', 'latin-1', 'cp1252')
        elif isinstance(s, Chr):
            if s.n % 4 or s.n == 0:
                encs = ('utf8', 'ascii', 'latin-1', 'cp1252')
        return Uni(s, self.pick(encs))

    def weights(self, depth, final, top):
        w = {'basic': 6}
        if self.has('pad') and top:
            w['pad'] = 1
        if any(self.has(x) for x in ('dyn', 'term', 'net')):
            w['str'] = 4
        if self.has('uni'):
            w['uni'] = 2
        if self.has('usr'):
            w['usr'] = 8
        if depth > 0:
            for k, n in (('tup', 3), ('arr', 4), ('ref', 2), ('cond', 2), ('look', 2), ('ahead', 1)):
                if self.has(k):
                    w[k] = n
        w.update({k: n for k, n in self.cfg.weights.items() if k in w})
        if depth == self.theme_depth:
            w.update({k: n for k, n in THEMES[self.theme].items() if k in w})
        return w

    def hint(self, ctx, depth, final=False, top=False, item=False):
        """Any hint. `final`: it may contain a consume-everything string. `top`:
        a class member. `item`: an array item (no pads, never final)."""
        w = self.weights(depth, final, top)
        kinds = [k for k, n in w.items() for _ in range(n)]
        k = self.pick(kinds)
        if k == 'basic':
            return self.basic()
        if k == 'pad':
            return self.basic_pad()
        if k == 'str':
            return self.style(final)
        if k == 'uni':
            return self.uni(final)
        if k == 'usr':
            return self.usr(final)
        if k == 'tup':
            return self.tup(ctx, depth, final)
        if k == 'arr':
            return self.arr(ctx, depth)
        if k == 'ref':
            return Ref(self.cls(depth - 1, final=final, bo=None))
        if k == 'cond':
            return self.cond(ctx, depth, final, top)
        if k == 'look':
            return self.look(ctx, depth, final)
        if k == 'ahead':
            if top or ctx.keyed:
                return self.ahead(ctx, depth, final, top and not ctx.inner)
            return self.basic()
        raise AssertionError(k)

    def usr(self, final, n=1):
        rest = final and n == 1 and self.cfg.cons and self.chance(4)
        return Usr(n, self.pick(('none', 'self', 'new', 'new', 'join', 'pack', 'unpack')), self.pick(('tuple', 'list', 'gen', 'iter')),
                   bool(self.int(0, 1)), rest)

    def basic_pad(self):
        return Pad(self.pick((1, 0, 2, 3, 7, 10, 11)))

    def tup(self, ctx, depth, final):
        n = self.int(1, 4)
        items = []
        for i in range(n):
            if self.has('pad') and self.chance(8):
                items.append(self.basic_pad())
            elif self.has('usr') and self.chance(4):
                # several values, or none
                h = self.usr(False, self.pick((2, 3, 0)))
                if self.has('cond') and self.chance(3):
                    h = self.cond(ctx.nested(), 1, False, False, inner=h)
                items.append(h)
            else:
                items.append(self.hint(ctx.nested(), depth - 1, final=final and i == n - 1))
        if all(width(x) == 0 for x in items):
            items.append(self.basic())
        return Tup(tuple(items))

    def arr(self, ctx, depth, item=None):
        if item is None:
            item = self.hint(ctx.nested(), depth - 1, item=True)
        codes = self.cfg.size_codes
        count = self.pick((self.pick(codes), self.pick(codes), self.pick(self.cfg.static_counts)))
        size = self.pick((None, None, None, self.pick([c for c in codes if c != 'B'] or codes)))
        return Arr(count, size, item)

    # -- selectors -------------------------------------------------------------------
    def finite_sel(self, ctx):
        """A selector over an earlier field whose results are finitely many:
        (Sel, results) or None."""
        res = self._finite_sel(ctx)
        if res is None or not self.chance(4):
            return res
        # any hashable value decides
        sel, results = res
        pool = (None, '', 'x', (), (1, 'a'), b'', b'x', -1, 0.5, 1 << 70, 0)
        start = self.int(0, len(pool) - 1)
        table = tuple((r, pool[(start + 3 * i) % len(pool)]) for i, r in enumerate(results))
        return Sel('map', sel.field, (sel.kind, sel.arg, table)), tuple(v for _, v in table)

    def _finite_sel(self, ctx):
        cands = []
        for name, h in ctx.env:
            if isinstance(h, Int):
                cands += [('mod', name), ('ge', name), ('and', name)]
            elif isinstance(h, (Dyn, Net, Term, Arr, Uni)):
                cands.append(('lenmod', name))
            elif isinstance(h, Bool):
                cands.append(('attr', name))
        if not cands:
            return None
        kind, name = self.pick(cands)
        if kind in ('mod', 'lenmod'):
            m = self.pick((2, 3))
            return Sel(kind, name, m), tuple(range(m))
        if kind == 'and':
            mask = self.pick((1, 2, 4, 6))
            return Sel(kind, name, mask), tuple(sorted({x & mask for x in range(8)}))
        if kind == 'ge':
            return Sel(kind, name, self.pick((0, 1, 2, 100))), (False, True)
        return Sel(kind, name), (False, True)

    def new_key(self, ctx, n):
        """Insert a dedicated key field before the current one; (name, its hint,
        n keys, one key that is not among them)."""
        name = f'k{len(ctx.fields)}'
        kind = self.pick(('int', 'int', 'int', 'chr', 'uni', 'bool' if n == 1 else 'int', 'cust' if n != 1 else 'int'))
        key = None
        if kind == 'cust' and self.has('cust'):
            h, key, pool = self.cust_key()
        elif kind in ('int', 'cust'):
            h = Int(self.pick('BbHhIq'))
            pool = (0, 1, 2, 3, INT_RANGES[h.code][1], INT_RANGES[h.code][0] or 7, 77)
        elif kind == 'chr':
            h = Chr(2)
            pool = (b'ab', b'ba', b'\0\0', b'zz', b'\xff\x00', b'AA', b'aa')
        elif kind == 'uni':
            h = Uni(Dyn('B'), 'utf8')
            pool = ('', 'a', 'b', 'ab', '\xe9', 'A', 'long key')
        else:
            h = Bool()
            pool = (True, False)
        start = self.int(0, len(pool) - 1)
        keys = tuple(pool[(start + i) % len(pool)] for i in range(n + 1))
        ctx.fields.append((name, h))
        if key:
            keys = tuple(map(key, keys))
        return name, h, keys[:n], keys[n]

    def cust_key(self):
        how = self.pick(self.cfg.cust_keys)
        return Cust(Int(self.pick('BbHq')), how), KEY_TYPES[how], (0, 1, 2, 3, 77, 100)

    def cond(self, ctx, depth, final, top, inner=None, recursive=False):
        fs = None if recursive else self.finite_sel(ctx)
        truthy = [n for n, h in ctx.env] if not recursive else []
        if truthy and self.chance(3):
            sel = Sel('attr', self.pick(truthy))
        elif fs and not self.chance(3):
            sel = fs[0]
        else:
            name, h, (key,), other = self.new_key(ctx, 1)
            if isinstance(h, Int):
                sel = self.pick((Sel('attr', name), Sel('and', name, 255), Sel('ge', name, 2)))
                pool = [x for x in (0, 1, 2, 3, 64, 127)]
            elif isinstance(h, Bool):
                sel, pool = Sel('attr', name), [False, True]
            elif isinstance(h, Chr):
                sel, pool = Sel('idx', name, 0), [b'ab', b'\0a', b'\xff\xff']
            else:
                sel, pool = Sel('lenmod', name, 2), ['', 'a', 'ab', 'abc']
            off = [x for x in pool if not model.select(sel, {name: x})]
            self.domains[ctx.name, name] = (pool, off if recursive else pool)
        if inner is None:
            if top and self.has('pad', 'condpad') and self.chance(5):
                h = Cond(self.basic_pad(), sel, ())
                return Cond(h, sel, ()) if self.chance(5) else h
            inner = self.hint(ctx.nested(top), depth - 1, final=final)
        return Cond(inner, sel, tuple(self.default(inner) for _ in range(width(inner))))

    def default(self, inner):
        if isinstance(inner, Int):
            return self.pick((0, -1, 5, None))
        if isinstance(inner, Tup):
            return self.pick((None, ()))
        if isinstance(inner, Usr):
            return self.pick((b'', None, 5))
        if isinstance(inner, (Dyn, Term, Net, Chr)):
            return self.pick((b'', b'none', None))
        return self.pick((None, 0, 'missing'))

    def look(self, ctx, depth, final, recursive=None):
        fs = None if recursive else self.finite_sel(ctx)
        n = self.int(1, 3)
        if fs and not self.chance(2):
            sel, results = fs
            if len(results) > 1 and self.chance(3):
                alts = tuple((k, self.alt(ctx, depth, final)) for k in results[:-1])
                return Look(sel, alts, self.alt(ctx, depth, final))
            return Look(sel, tuple((k, self.alt(ctx, depth, final)) for k in results), None)
        name, h, keys, other = self.new_key(ctx, n)
        alts = [(k, self.alt(ctx, depth, final)) for k in keys]
        default = self.alt(ctx, depth, final) if self.chance(2) else None
        domain = list(keys) + ([other] if default is not None else [])
        safe = list(domain)
        if recursive is not None:
            # one more alternative, which recurses
            if default is not None:
                alts.append((other, recursive))
                safe = list(keys)
            else:
                alts[-1:] = [(keys[-1], recursive)]
                safe = list(keys[:-1])
                if not safe:
                    default, safe = self.basic(), [other]
                domain = list(keys) + [other] * (default is not None)
        self.domains[ctx.name, name] = (domain, safe)
        return Look(Sel('attr', name), tuple(alts), default)

    def alt(self, ctx, depth, final):
        return self.hint(ctx.nested(), depth - 1, final=final)

    def ahead(self, ctx, depth, final, tagged):
        if self.has('usr') and self.chance(3):
            # what a user-defined serializer packs is never empty and does not begin with 238
            h = self.usr(False)
            if h.order:
                h = Usr(1, h.pre, h.ret, False, False)
            key = Sel('const', '', self.pick((0, 1)))
            return Ahead(Int('B'), key, ((238, self.simple()),) if self.chance(2) else ((238, Int('B')), (239, h)), h)
        kind = 'usr' if self.has('usr') and self.chance(3) else self.pick(self.cfg.ahead_kinds)
        key = lambda k: k  # noqa: E731
        if kind == 'int':
            ra = Int(self.pick('BbHIq'))
            pool = (0, 1, 2, 3, INT_RANGES[ra.code][1], 77, 100)
        elif kind == 'chr':
            ra = Chr(2)
            pool = (b'ab', b'ba', b'\0\0', b'zz', b'\xff\x00', b'AA', b'aa')
        elif kind == 'uni' and self.has('uni'):
            ra = Uni(Dyn('B'), self.pick(('utf8', 'utf8', 'utf-16-be', 'custom:cls', 'custom:obj')))
            pool = ('', 'a', 'b', 'ab', '\xe9', 'A', 'long key')
        elif kind == 'cust' and self.has('cust'):
            ra, key, pool = self.cust_key()
        elif kind == 'usr':
            ra = self.usr(False)
            if ra.order:
                ra = Usr(1, ra.pre, ra.ret, False, False)
            pool = (b'', b'a', b'b', b'ab', b'\xe9', b'A', b'long key')
        elif kind == 'bool':
            ra, pool = Bool(), (True, False)
        elif kind == 'flt':
            ra, pool = Flt(self.pick('fd')), (0.5, 1.0, -2.0, 1024.0, -0.125)
        elif kind == 'pair' and self.has('tup'):
            ra, pool = Tup((Int('B'), Int('h'))), ((0, 0), (0, 1), (1, 0), (255, -1), (7, 300))
        else:
            ra = {'dyn': Dyn('B'), 'term': Term(0), 'net': Net()}.get(kind, Dyn('B'))
            if not self.has({'dyn': 'dyn', 'term': 'term', 'net': 'net'}.get(kind, 'dyn')):
                ra = Chr(2)
                pool = (b'ab', b'ba', b'zy', b'zz', b'yx', b'AA', b'aa')
            else:
                pool = (b'', b'a', b'b', b'ab', b'\xe9', b'A', b'long key')
        n = 1 if isinstance(ra, Bool) else self.int(1, 3)
        start = self.int(0, len(pool) - 1)
        keys = [pool[(start + i) % len(pool)] for i in range(n + 1)]
        attr = not tagged or isinstance(ra, (Bool, Tup)) or self.chance(3)
        alts = tuple((key(k), self.tagged_hint(ra, depth, ctx.bo, final, key(k), attr, ctx)) for k in keys[:n])
        default = self.tagged_hint(ra, depth, ctx.bo, final, ctx=ctx) if self.chance(3) else None
        if not attr:
            return Ahead(self.prepared(ra), Sel('tag', ctx.current), alts, default)
        # the writer looks at a separate key field
        name = f'k{len(ctx.fields)}'
        ctx.fields.append((name, ra))
        domain = keys if default is not None else keys[:n]
        self.domains[ctx.name, name] = (domain, domain)
        return Ahead(self.prepared(ra), Sel('attr', name), alts, default)

    def prepared(self, ra, depth=2):
        """What is read ahead may itself depend on the object."""
        if depth and self.chance(6):
            ra = self.prepared(ra, depth - 1)
            k = self.pick(('cond', 'cond', 'look', 'look', 'ahead'))
            if k == 'cond' and self.has('cond'):
                return Cond(ra, Sel('const', '', self.pick((True, 1, 'yes'))), (None,))
            if k == 'look' and self.has('look'):
                return Look(Sel('const', '', 1), ((0, self.simple()), (1, ra)), self.pick((None, self.simple())))
            if k == 'ahead' and self.has('ahead'):
                return Ahead(ra, Sel('const', '', 0), ((0, bare(ra)),), bare(ra))
        return ra

    def tagged_hint(self, ra, depth, bo, final, key=None, attr=False, ctx=None):
        """A hint whose packed form begins with `ra` (and `key`, if given)."""
        k = self.pick(('self', 'tup', 'tup', 'tup', 'ref', 'ref', 'ref', 'cond', 'look', 'ahead', 'arr', 'cons'))
        if k == 'tup' and self.has('tup') and depth > 0:
            rest = [self.simple() if ctx is None or self.chance(2) else self.alt(ctx, depth, False)
                    for _ in range(self.int(0, 2))]
            return Tup((ra, *rest))
        if k == 'ref' and self.has('ref') and self.cfg.ahead_ref and depth > 0:
            c = self.cls(depth - 1, final=final, bo=bo, first=ra)
            return Ref(c)
        if k == 'cond' and self.has('cond') and depth > 0:
            return Cond(self.tagged_hint(ra, depth - 1, bo, final, key, attr, ctx), Sel('const', '', True), (None,))
        if k == 'look' and self.has('look') and depth > 0:
            return Look(Sel('const', '', 1), ((0, self.simple()), (1, self.tagged_hint(ra, depth - 1, bo, final, key, attr, ctx))), None)
        if k == 'ahead' and depth > 0 and key is not None:
            return Ahead(ra, Sel('const', '', key), ((key, self.tagged_hint(ra, depth - 1, bo, final, key, attr, ctx)),),
                         self.pick((None, ra)))
        if k == 'arr' and self.has('arr') and isinstance(ra, Int) and ra.code in 'BHIQ' and key in range(101) and attr:
            return Arr(ra.code, None, self.simple())
        if k == 'cons' and final and attr and isinstance(ra, Chr) and self.has('cons'):
            return Cons()
        return ra

    def simple(self):
        return self.hint(Ctx('', [], ''), 0)

    # -- classes ---------------------------------------------------------------------
    def cls(self, depth=None, final=None, bo=None, first=None, self_ok=None, name=None) -> ClassSpec:
        cfg = self.cfg
        depth = cfg.depth if depth is None else depth
        final = cfg.cons if final is None else final
        if name is None:
            name = f'C{self.count}'
            self.count += 1
        if bo is None:
            bo = self.pick(cfg.byte_orders) if cfg.nested_bo or self.count == 1 else self.bo
        if self.count <= 1:
            self.bo = bo
        ctx = Ctx(name, [], bo)
        if first is not None:
            ctx.fields.append(('tag', first))
        if self_ok is None:
            self_ok = self.has('self') and self.chance(6)
        if self_ok:
            final = False  # whatever follows a nested Self would have to be final as well
        if cfg.long_runs and self.chance(10):
            self.long_run(ctx)
        least, most = 0 if first is not None else cfg.min_fields, max(cfg.min_fields, cfg.max_fields - (cfg.depth - depth))
        if cfg.themes and depth == cfg.depth and first is None and self.chance(7):
            self.theme, self.theme_depth = self.pick(THEMES), depth
            least, most = least + 2, most + 3
        elif cfg.wide and depth == cfg.depth and first is None and self.chance(cfg.wide):
            least, most = most + 1, most + 14
        elif cfg.lone and least <= 1 and first is None and not self_ok and not ctx.fields and self.chance(cfg.lone):
            return self.lone(ctx, depth, final)
        n = self.int(least, most)
        self_at = self.int(0, n) if self_ok else -1
        for i in range(n):
            if self_ok and i == min(self_at, n - 1):
                self.add_self(ctx, depth)
            self.add_field(ctx, depth, final and i == n - 1)
        if self_ok and n == 0:
            self.add_self(ctx, depth)
        return ClassSpec(name, bo, tuple(ctx.fields))

    def lone(self, ctx, depth, final):
        """A class without other members, so that its serializer is the member's."""
        self.add_field(ctx, depth, final)
        if self.has('cond') and len(ctx.fields) == 1 and not self.chance(3):
            (name, h), = ctx.fields
            for _ in range(self.int(1, 2)):
                h = Cond(h, Sel('const', '', not self.chance(5)), tuple(self.default(h) for _ in range(width(h))))
            ctx.fields[:] = ((name, h),)
        return ClassSpec(ctx.name, ctx.bo, tuple(ctx.fields))

    def add_field(self, ctx, depth, final):
        ctx.current = f'f{ctx.n}'
        ctx.n += 1
        h = self.hint(ctx, depth, final=final, top=True)
        name = ctx.current
        if isinstance(h, Pad) or is_pad(h):
            name = '_'
        ctx.fields.append((name, h))
        if self.has('noise') and self.chance(10):
            text = self.pick(('int', 'str', 'ClassVar[int]', 'list[int]', 'tuple[int8, ...]', 'tuple[int8, str]',
                              'Any', 'dict[str, int]', 'Optional[int8]', 'None', 'Union[int8, int16]'))
            ctx.fields.append((f'n{len(ctx.fields)}', Noise(text)))

    def add_self(self, ctx, depth):
        ctx.current = f'f{ctx.n}'
        ctx.n += 1
        me = SelfRef()
        k = self.pick(('arr', 'arr', 'arr_tup', 'arr_look', 'look', 'cond', 'cond_arr', 'tup_cond', 'look_arr', 'arr_cond'))
        code = self.pick(self.cfg.size_codes)
        size = self.pick((None, None, 'H'))
        if self.has('ahead') and self.cfg.ahead_self and self.chance(4):
            h = self.ahead_self(ctx)
            if h is not None:
                ctx.fields.append((ctx.current, h))
                return
        ctx = ctx.clone_inner() if k not in ('arr', 'look', 'cond') else ctx
        if k == 'arr':
            h = Arr(code, size, me)
        elif k == 'arr_tup':
            h = Arr(code, size, Tup((self.simple(), me) if self.chance(2) else (me, self.simple())))
        elif k == 'arr_look':
            h = Arr(code, size, self.look(ctx, 1, False, recursive=me))
        elif k == 'look':
            h = self.look(ctx, 1, False, recursive=me)
        elif k == 'look_arr':
            h = self.look(ctx, 1, False, recursive=self.pick((Arr(2, size, me), Tup((me,)), Tup((me, Int('B'))))))
        elif k == 'cond':
            c = self.cond(ctx, 1, False, False, inner=Int('B'), recursive=True)
            h = Cond(me, c.sel, (None,))
        elif k == 'cond_arr':
            c = self.cond(ctx, 1, False, False, inner=Int('B'), recursive=True)
            h = Cond(self.pick((Arr(2, size, me), Tup((me, Dyn('B'))))), c.sel, (None,))
        elif k == 'tup_cond':
            c = self.cond(ctx, 1, False, False, inner=Int('B'), recursive=True)
            h = Tup((self.simple(), Cond(me, c.sel, (None,))))
        else:
            c = self.cond(ctx, 1, False, False, inner=Int('B'), recursive=True)
            h = Arr(code, size, Cond(me, c.sel, (None,)))
        ctx.fields.append((ctx.current, h))

    def ahead_self(self, ctx):
        """A look-ahead union that reads the first member of the class ahead."""
        if not ctx.fields:
            ctx.fields.append(('t0', self.pick((Int('B'), Int('H'), Int('b'), Chr(2), *[Dyn('B')] * self.has('dyn'),
                                                *[Term(0)] * self.has('term'), *[Net()] * self.has('net')))))
        first, ra = ctx.fields[0]
        if (ctx.name, first) in self.domains:
            return None
        if isinstance(ra, Int):
            pool = (0, 1, 2, 3, 77, 100)
        elif ra == Chr(2):
            pool = (b'ab', b'ba', b'\0\0', b'zz', b'\xff\x00')
        elif isinstance(ra, (Dyn, Net, Term)) and ra != Term(97):
            pool = (b'', b'b', b'bb', b'\xe9', b'long key')
            if isinstance(ra, Term):
                pool = tuple(x for x in pool if bytes([ra.t]) not in x)
        else:
            return None
        n = self.int(1, 2)
        start = self.int(0, len(pool) - 1)
        keys = [pool[(start + i) % len(pool)] for i in range(n + 1)]
        alts = [(k, self.tagged_hint(ra, 0, ctx.bo, False)) for k in keys]
        default = None
        if self.chance(2):
            default = SelfRef()
            del alts[n]
        else:
            alts[n] = (keys[n], SelfRef())
        if not self.chance(3):
            return Ahead(self.prepared(ra), Sel('tag', ctx.current), tuple(alts), default)
        name = f'k{len(ctx.fields)}'
        ctx.fields.append((name, ra))
        self.domains[ctx.name, name] = (tuple(keys), tuple(keys[:n]))
        return Ahead(self.prepared(ra), Sel('attr', name), tuple(alts), default)

    def long_run(self, ctx):
        """Many basic members in a row."""
        pattern = [self.basic(pad=True) for _ in range(self.int(1, 3))]
        n = self.pick((9, 10, 11, 12, 20, 99, 100, 101, 128))
        for i in range(n):
            h = pattern[i % len(pattern)]
            ctx.fields.append(('_' if isinstance(h, Pad) else f'r{i}', h))

    # -- values ----------------------------------------------------------------------
    def instance(self, c: ClassSpec) -> Obj:
        """An instance whose arrays and strings fit their size fields."""
        for attempt in range(3):
            self.nodes, self.items = self.cfg.nodes, 600
            o = self.obj(c, self.cfg.levels)
            try:
                if len(model.Codec(c).encode(o)) < 150_000:
                    return o
            except struct.error:
                pass  # something nested is too long for an outer size field
            self.cfg = replace(self.cfg, long_values=False)
        raise NoInstance

    def obj(self, c: ClassSpec, depth=3, tag=None) -> Obj:
        self.nodes -= 1
        env: dict = {}
        cache: dict = {}
        for i, (name, h) in enumerate(attrs(c)):
            if tag is not None and i == 0:
                env[name] = tag[0]
                continue
            dom = self.domains.get((c.name, name))
            if dom is not None:
                deep = depth <= 0 or self.nodes <= 0
                v = self.pick(dom[1] if deep else dom[0])
                env[name] = int(v) if isinstance(v, Key) else v
            elif name[0] == 'r' and name[1:].isdigit():
                # long run: draw few values only
                pool = cache.setdefault(h, [])
                if len(pool) < 4:
                    pool.append(self.value(h, env, c, depth))
                    env[name] = pool[-1]
                else:
                    env[name] = pool[(int(name[1:]) * 7) % 4]
            else:
                env[name] = self.value(h, env, c, depth, name=name)
        return Obj(c.name, tuple(env.values()))

    def value(self, h, env, c, depth, name=None, tag=None):
        if tag is not None and not (isinstance(h, Usr) and type(tag[0]) is not bytes):  # tag = (value,): the packed form has to begin with it
            if isinstance(h, Tup) and isinstance(tag[0], tuple) and isinstance(h.items[0], Int):
                return tag[0]
            if isinstance(h, Cond):
                return self.value(h.inner, env, c, depth, tag=tag)
            if isinstance(h, Look):
                return self.value(model.pick(h.alts, h.default, model.select(h.sel, env)), env, c, depth, tag=tag)
            if isinstance(h, Ahead):
                return self.value(model.pick(h.alts, h.default, tag[0]), env, c, depth, tag=tag)
            if isinstance(h, Arr):
                return [self.value(h.item, env, c, depth) for _ in range(tag[0])]
            if isinstance(h, Cons):
                return tag[0] + self.bytes_for(h)
            if isinstance(h, Tup):
                return (tag[0],) + self.values(h.items[1:], env, c, depth)
            if isinstance(h, Ref):
                return self.obj(h.cls, depth - 1, tag)
            if isinstance(h, SelfRef):
                return self.obj(c, depth - 1, tag)
            return tag[0]
        if isinstance(h, Int):
            lo, hi = INT_RANGES[h.code]
            if h.code not in _INTS:
                edge = sorted({lo, hi, 0, 1, 2, 3, 127, 128, 255, 256, lo + 1, hi - 1} & set(range(max(lo, -300), min(hi, 300) + 1)) | {lo, hi})
                _INTS[h.code] = st.sampled_from(edge) | st.integers(lo, hi)
            return self.draw(_INTS[h.code])
        if isinstance(h, Bool):
            return self.draw(st.booleans())
        if isinstance(h, Flt):
            return self.draw(_FLOATS[h.code])
        if isinstance(h, Chr):
            n = h.n if self.cfg.fit or not self.chance(2) else self.pick((0, max(0, h.n - 1), h.n + 1))
            return self.bytes_of(n)
        if isinstance(h, Pas):
            top = min(h.n - 1, 255)
            n = self.pick((0, min(1, top), top, top // 2))
            if not self.cfg.fit and self.chance(3):
                n = self.pick((h.n, h.n + 1, 256))
            return self.bytes_of(n)
        if isinstance(h, Cust):
            return self.value(h.base, env, c, depth)
        if isinstance(h, (Dyn, Net, Term, Cons)):
            return self.bytes_for(h)
        if isinstance(h, Uni):
            return self.text_for(h)
        if isinstance(h, Tup):
            return self.values(h.items, env, c, depth)
        if isinstance(h, Usr):
            vals = tuple(self.bytes_of(self.length((0, 255, 256, 1000) if h.order else (0, 255))) for _ in range(h.n))
            return vals if h.n != 1 else vals[0]
        if isinstance(h, Arr):
            return self.list_for(h, env, c, depth)
        if isinstance(h, Ref):
            return self.obj(h.cls, depth - 1)
        if isinstance(h, SelfRef):
            return self.obj(c, depth - 1)
        if isinstance(h, Cond):
            if model.select(h.sel, env):
                return self.value(h.inner, env, c, depth)
            if width(h) != 1:
                return h.default
            if not self.cfg.fit or self.cfg.junk:
                return self.pick((h.default[0], None, -1, 'junk', b'junk', (1,), [2]))
            return h.default[0]
        if isinstance(h, Look):
            return self.value(model.pick(h.alts, h.default, model.select(h.sel, env)), env, c, depth)
        if isinstance(h, Ahead):
            if h.sel.kind == 'tag':
                deep = depth <= 0 or self.nodes <= 0
                keys = [k for k, x in h.alts if not (deep and isinstance(x, SelfRef))]
                if h.default is not None and not (deep and isinstance(h.default, SelfRef)):
                    extra = self.other_tag(bare(h.ra), [k for k, _ in h.alts])
                    keys.append(extra)
                key = self.pick(keys)
            else:
                key = model.select(h.sel, env)
            if isinstance(key, Key):
                key = int(key)
            return self.value(model.pick(h.alts, h.default, key), env, c, depth, tag=(key,))
        raise AssertionError(h)

    def values(self, items, env, c, depth):
        out = []
        for x in items:
            if not is_pad(x):
                v = self.value(x, env, c, depth)
                out += [v] if width(x) == 1 else v
        return tuple(out)

    def other_tag(self, ra, keys):
        pool = {Flt: (9.5, 10.5, 11.5, 12.5), Int: (99, 98, 97, 96), Cust: (99, 98, 97, 96), Chr: (b'q1', b'q2', b'q3', b'q4'), Uni: ('q', 'qq', 'qqq', 'qqqq')}.get(
            type(ra), (b'q', b'qq', b'qqq', b'qqqq'))
        return next(x for x in pool if x not in keys)

    def bytes_of(self, n):
        """n bytes, drawing few."""
        if n <= 8:
            return self.draw(st.binary(min_size=n, max_size=n))
        chunk = self.draw(st.binary(min_size=1, max_size=5))
        return (chunk * (n // len(chunk) + 1))[:n]

    def length(self, table):
        if self.cfg.long_values and self.chance(4):
            return self.pick(table)
        return self.int(0, 6)

    def bytes_for(self, h):
        if isinstance(h, Dyn):
            return self.bytes_of(self.length(DYN_LENGTHS[h.code]))
        if isinstance(h, Net):
            return self.bytes_of(self.length(NET_LENGTHS))
        if isinstance(h, Cons):
            return self.bytes_of(self.length((0, 1, 255, 256, 1000, 4097)))
        t = bytes([h.t])
        b = self.bytes_of(self.length((0, 1, 254, 255, 256, 257, 511, 512, 513, 1000, 4097)))
        b = b.replace(t, bytes([h.t ^ 1]))
        if not self.cfg.fit and self.chance(2):
            b = self.pick((b + t, t + b, b + t + b, b + t + t))
        return b

    def text(self, enc, n, forbid=b''):
        chars = [ch for ch in ALPHABETS[enc]
                 if not forbid or forbid not in model.encode_text(enc, ch)]
        if not chars:
            return ''
        if n <= 6:
            s = ''.join(self.pick(chars) for _ in range(n))
        else:
            chunk = ''.join(self.pick(chars) for _ in range(self.int(1, 3)))
            s = (chunk * (n // len(chunk) + 1))[:n]
        return s.rstrip('\0') if self.cfg.fit else s

    def text_for(self, h: Uni):
        style = h.style
        if isinstance(style, Chr):
            return self.fixed_text(h.enc, style.n)
        if isinstance(style, Term):
            return self.text(h.enc, self.length((0, 1, 127, 128, 255, 256, 257, 600)), forbid=bytes([style.t]))
        if isinstance(style, Dyn):
            table, limit = DYN_LENGTHS[style.code], {'B': 255, 'H': 65535}.get(style.code, 1 << 30)
        elif isinstance(style, Net):
            table, limit = (0, 1, 63, 64, 127, 128, 129, 255, 256, 257, 4000, 16383), 32767
        else:
            table, limit = (0, 1, 255, 256, 1000), 1 << 30
        s = self.text(h.enc, self.length(table))
        size = len(model.encode_text(h.enc, s))
        while size > limit:
            s = s[:len(s) * limit // size]
            s = s.rstrip('\0') if self.cfg.fit else s
            size = len(model.encode_text(h.enc, s))
        return s

    def fixed_text(self, enc, n):
        s = self.text(enc, self.int(0, min(n, 7)) if not self.chance(3) else n)
        if enc.startswith('custom'):
            # NUL padding would decode to text: fill exactly
            s = (s + 'x' * n)
            while len(model.encode_text(enc, s)) > n:
                s = s[:-1]
            while len(model.encode_text(enc, s)) < n:
                s += 'x'
            if s.endswith('\0'):
                s = s[:-1] + 'x'
            return s
        while s and len(model.encode_text(enc, s)) > n:
            s = s[:-1]
            s = s.rstrip('\0') if self.cfg.fit else s
        return s

    def list_for(self, h: Arr, env, c, depth):
        recursive = contains_self(h.item)
        if isinstance(h.count, int):
            n = h.count
        elif recursive and (depth <= 0 or self.nodes <= 0):
            n = 0
        elif recursive:
            n = self.int(0, 2)
        else:
            big = isinstance(h.item, BASIC) and self.cfg.long_values and self.chance(4)
            if big:
                n = self.pick((9, 10, 11, 100, 127, 128, 255) + ((256, 257, 1000) if h.count != 'B' else ()))
            elif self.cfg.long_values and not isinstance(h.item, BASIC) and self.items >= 300 and self.chance(10):
                n = self.pick((5, 8, 9, 16, 17, 33, 64, 100, 255) + ((256, 257) if h.count != 'B' else ()))
                self.items -= n
            else:
                n = self.int(0, 4)
        if n > 5:
            pool = [self.value(h.item, env, c, depth) for _ in range(3)]
            return [pool[(i * i) % 3] for i in range(n)]
        return [self.value(h.item, env, c, depth) for _ in range(n)]


def contains_self(h) -> bool:
    return any(isinstance(x, SelfRef) for x in walk_shallow(h))


class Ctx:
    """The class body being generated."""

    def __init__(self, name, fields, bo):
        self.name = name
        self.fields = fields
        self.bo = bo
        self.n = 0
        self.current = ''
        self.inner = False
        self.keyed = True

    @property
    def env(self):
        return [(n, h) for n, h in self.fields if n not in ('_',) and not is_pad(h)
                and isinstance(h, (Int, Bool, Dyn, Net, Term, Uni, Arr))][-12:]

    def nested(self, top=False):
        res = Ctx(self.name, self.fields, self.bo)
        res.n, res.current, res.inner = self.n, self.current, True
        res.keyed = self.keyed and bool(self.name)
        return res

    clone_inner = nested


# user-defined serializers take part
USERS = dict(features=USR - {'noise'}, ahead_ref=False, ahead_self=False)


def mostly(usual, other):
    """`other` one time in six."""
    return st.integers(0, 5).flatmap(lambda i: other if i == 5 else usual)


def case_strategy(cfg: Cfg, extra=None):
    """(ClassSpec, Obj, variant, ...extra)"""

    @st.composite
    def build(draw):
        g = G(draw, cfg)
        c = g.cls()
        o = g.instance(c)
        variant = draw(st.integers(0, 63))
        rest = extra(draw, g, c, o) if extra else ()
        return (c, o, variant, *rest)

    return build()
