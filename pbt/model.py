"""Reference encoder and decoder, from README.md and the stdlib struct module.

Does not import the library under test.
"""
from __future__ import annotations

import struct

from .spec import *
from .spec import basic_fmt


class Reject(Exception):
    """The bytes are not a valid encoding."""


class TooBig(Exception):
    """The input asks for more items than the harness is willing to decode."""


MAX_DEPTH = 40  # of nested instances
MAX_ITEMS = 6000  # of arrays of something other than basic types, in one decoding


XOR = {'custom:cls': 0x55, 'custom:obj': 0x55, 'custom:twin': 0x33}  # the EncoderDecoders of generated classes


def xor_encode(s: str, key) -> bytes:
    return bytes(b ^ key for b in s.encode('utf-16-be'))


def xor_decode(b: bytes, key) -> str:
    return bytes(x ^ key for x in b).decode('utf-16-be')


def encode_text(enc: str, s: str) -> bytes:
    if enc.startswith('custom'):
        return xor_encode(s, XOR[enc])
    return s.encode(enc)


def decode_text(enc: str, b: bytes) -> str:
    if enc.startswith('custom'):
        return xor_decode(b, XOR[enc])
    return b.decode(enc)


def select(sel: Sel, env: dict):
    k, a = sel.kind, sel.arg
    if k == 'spy':
        return select(a[0], env)
    if k == 'const':
        return a
    if k == 'has':
        return sel.field in env
    if k == 'map':
        v = select(Sel(a[0], sel.field, a[1]), env)
        return next(x for r, x in a[2] if r == v)
    v = env[sel.field]
    if k == 'attr':
        return v
    if k == 'mod':
        return v % a
    if k == 'and':
        return v & a
    if k == 'ge':
        return v >= a
    if k == 'lenmod':
        return len(v) % a
    if k == 'sub':
        name, index = a
        return v.vals[index]
    if k == 'idx':
        return v[a]
    if k == 'tag':  # write decider of a look-ahead union
        return tag_of(v)
    raise AssertionError(k)


def tag_of(v):
    if isinstance(v, Obj):
        return tag_of(v.vals[0])
    if isinstance(v, (tuple, list)):
        return tag_of(v[0])
    return v


def pick(alts, default, key):
    for k, h in alts:
        if k == key:
            return h
    if default is None:
        raise Reject(f'unmapped {key!r}')
    return default


class Codec:
    """Encoder/decoder for the classes reachable from one root class.

    `extra`: other classes that may stand in for Self (subclasses)."""

    def __init__(self, *roots: ClassSpec):
        self.classes: dict[str, ClassSpec] = {}
        for r in roots:
            self.classes.update(classes_of(r))

    # -- encoding -------------------------------------------------------------
    def encode(self, obj: Obj, bo=None, part=None) -> bytes:
        """The packed bytes (of the first `part` members)."""
        cls = self.classes[obj.cls]
        env = {}
        pairs = []
        it = iter(obj.vals)
        for name, h in members(cls)[:part]:
            if is_pad(h):
                pairs.append((h, None))
            else:
                v = next(it)
                env[name] = v
                pairs.append((h, v))
        assert part is not None or next(it, env) is env
        return self.enc_seq(pairs, cls.bo if bo is None else bo, env)

    def enc_seq(self, pairs, bo, env) -> bytes:
        out = b''
        fmt, vals = '', []
        for h, v in pairs:
            if isinstance(h, BASIC):
                fmt += basic_fmt(h)
                if not isinstance(h, Pad):
                    vals.append(v)
            else:
                if fmt:
                    out += struct.pack(bo + fmt, *vals)
                    fmt, vals = '', []
                out += self.enc(h, v, bo, env)
        if fmt:
            out += struct.pack(bo + fmt, *vals)
        return out

    def enc(self, h, v, bo, env) -> bytes:
        if isinstance(h, BASIC):
            return self.enc_seq([(h, v)], bo, env)
        if isinstance(h, Dyn):
            return struct.pack(bo + h.code, len(v)) + v
        if isinstance(h, Term):
            t = bytes([h.t])
            return v if v.endswith(t) else v + t
        if isinstance(h, Net):
            n = len(v)
            if n < 0x80:
                return bytes([n]) + v
            if n > 0x7FFF:
                raise struct.error('too long')
            return bytes([0x80 | n & 0x7F, n >> 7]) + v
        if isinstance(h, Cons):
            return v
        if isinstance(h, Uni):
            return self.enc(h.style, encode_text(h.enc, v), bo, env)
        if isinstance(h, Usr):
            fmt = bo + 'H' if h.order else 'B'
            return b''.join((b'' if h.rest else struct.pack(fmt, len(x))) + bytes(b ^ 0x3C for b in x)
                            for x in (v if h.n != 1 else [v]))
        if isinstance(h, Tup):
            return self.enc_seq(split(h.items, v), bo, env)
        if isinstance(h, Arr):
            data = b''.join(self.enc(h.item, x, bo, env) for x in v)
            fmt, head = '', []
            if isinstance(h.count, str):
                fmt += h.count
                head.append(len(v))
            if h.size:
                fmt += h.size
                head.append(len(data))
            return struct.pack(bo + fmt, *head) + data
        if isinstance(h, (Ref, SelfRef)):
            return self.encode(v)
        if isinstance(h, Cond):
            if select(h.sel, env):
                return self.enc(h.inner, v, bo, env)
            return b''
        if isinstance(h, (Look, Ahead)):
            return self.enc(pick(h.alts, h.default, select(h.sel, env)), v, bo, env)
        raise AssertionError(h)

    # -- decoding -------------------------------------------------------------
    def decode(self, cls: ClassSpec, buf: bytes, pos: int = 0, bo=None):
        """Return (Obj, end position) or raise Reject / TooBig."""
        self.items = 0
        self.depth = 0
        return self.dec_obj(cls, buf, pos, bo)

    def dec_obj(self, cls: ClassSpec, buf: bytes, pos: int = 0, bo=None):
        self.depth += 1
        if self.depth > MAX_DEPTH:
            raise TooBig
        env: dict = {}
        bo = cls.bo if bo is None else bo
        names = [n for n, h in attrs(cls)]
        out: list = []
        for vals, pos in self.dec_seq([h for _, h in members(cls)], buf, pos, bo, env, cls):
            for v in vals:
                env[names[len(out)]] = v
                out.append(v)
        self.depth -= 1
        return Obj(cls.name, tuple(out)), pos

    def dec_seq(self, hints, buf, pos, bo, env, cls):
        """Yield ([values], new position), step by step."""
        run: list = []

        def flush(pos):
            fmt = bo + ''.join(map(basic_fmt, run))
            run.clear()
            vals, pos = self.unpack(fmt, buf, pos)
            return list(vals), pos

        for h in hints:
            if isinstance(h, BASIC):
                run.append(h)
                continue
            if run:
                vals, pos = flush(pos)
                yield vals, pos
            if is_pad(h):  # conditional pad
                while isinstance(h, Cond) and select(h.sel, env):
                    h = h.inner
                if isinstance(h, Pad):
                    _, pos = self.unpack(bo + basic_fmt(h), buf, pos)
                yield [], pos
            else:
                v, pos = self.dec(h, buf, pos, bo, env, cls)
                yield ([v] if width(h) == 1 else list(v)), pos
        if run:
            vals, pos = flush(pos)
            yield vals, pos
        yield [], pos

    def unpack(self, fmt, buf, pos):
        n = struct.calcsize(fmt)
        if len(buf) - pos < n:
            raise Reject('truncated')
        return struct.unpack_from(fmt, buf, pos), pos + n

    def take(self, buf, pos, n):
        if len(buf) - pos < n:
            raise Reject('truncated')
        return bytes(buf[pos:pos + n]), pos + n

    def dec(self, h, buf, pos, bo, env, cls):
        if isinstance(h, BASIC):
            (v,), pos = self.unpack(bo + basic_fmt(h), buf, pos)
            return v, pos
        if isinstance(h, Dyn):
            (n,), pos = self.unpack(bo + h.code, buf, pos)
            return self.take(buf, pos, n)
        if isinstance(h, Term):
            end = buf.find(bytes([h.t]), pos)
            if end < 0:
                raise Reject('unterminated')
            return bytes(buf[pos:end]), end + 1
        if isinstance(h, Net):
            b, pos = self.take(buf, pos, 1)
            n = b[0]
            if n >= 0x80:
                b, pos = self.take(buf, pos, 1)
                n = n & 0x7F | b[0] << 7
            return self.take(buf, pos, n)
        if isinstance(h, Cons):
            return bytes(buf[pos:]), len(buf)
        if isinstance(h, Uni):
            b, pos = self.dec(h.style, buf, pos, bo, env, cls)
            try:
                return decode_text(h.enc, b).rstrip('\0'), pos
            except ValueError:
                raise Reject('not decodable') from None
        if isinstance(h, Usr):
            out = []
            for _ in range(h.n):
                if h.rest:
                    n = len(buf) - pos
                else:
                    (n,), pos = self.unpack(bo + 'H' if h.order else 'B', buf, pos)
                v, pos = self.take(buf, pos, n)
                out.append(bytes(b ^ 0x3C for b in v))
            return (tuple(out) if h.n != 1 else out[0]), pos
        if isinstance(h, Tup):
            out = []
            for vals, pos in self.dec_seq(h.items, buf, pos, bo, env, cls):
                out += vals
            return tuple(out), pos
        if isinstance(h, Arr):
            fmt = (h.count if isinstance(h.count, str) else '') + (h.size or '')
            head, pos = self.unpack(bo + fmt, buf, pos)
            count = head[0] if isinstance(h.count, str) else h.count
            start = pos
            out = []
            basic = isinstance(h.item, (Int, Flt, Bool))
            if basic and count * struct.calcsize(bo + basic_fmt(h.item)) > len(buf) - pos:
                raise Reject('truncated')
            for _ in range(count):
                if not basic:
                    self.items += 1
                    if self.items > MAX_ITEMS:
                        raise TooBig(count)
                v, pos = self.dec(h.item, buf, pos, bo, env, cls)
                out.append(v)
            if h.size and head[-1] != pos - start:
                raise Reject('data size mismatch')
            return out, pos
        if isinstance(h, Ref):
            return self.dec_obj(h.cls, buf, pos)
        if isinstance(h, SelfRef):
            return self.dec_obj(cls, buf, pos)
        if isinstance(h, Cond):
            if select(h.sel, env):
                return self.dec(h.inner, buf, pos, bo, env, cls)
            return (h.default[0] if width(h) == 1 else h.default), pos
        if isinstance(h, Look):
            return self.dec(pick(h.alts, h.default, select(h.sel, env)), buf, pos, bo, env, cls)
        if isinstance(h, Ahead):
            key, _ = self.dec(h.ra, buf, pos, bo, env, cls)
            key = tag_of(key) if isinstance(key, Obj) else key
            return self.dec(pick(h.alts, h.default, key), buf, pos, bo, env, cls)
        raise AssertionError(h)
