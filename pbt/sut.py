"""The system under test: a fresh copy of /repo's library for every case."""
from __future__ import annotations

import array as _array
import ctypes
import importlib.abc
import importlib.util
import io
import math
import mmap
import os
import pathlib
import re
import sys
import types
import typing

from . import model, render
from .spec import *

REPO = pathlib.Path(os.environ.get('PBT_REPO', '/repo'))
PKG = 'structured'


class Violation(Exception):
    """The property does not hold for the case being checked."""


class Skip(Exception):
    """The case is outside of the domain (counted as excluded)."""


class _Loader(importlib.abc.Loader, importlib.abc.MetaPathFinder):
    """Imports the library from source, compiled once per process."""

    def __init__(self):
        self.code = {}

    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        base = REPO.joinpath(*name.split('.'))
        for file, pkg in ((base / '__init__.py', True), (base.with_suffix('.py'), False)):
            if (name in self.code) or file.is_file():
                if name not in self.code:
                    self.code[name] = (compile(file.read_bytes(), str(file), 'exec'), pkg, str(file))
                code, pkg, file = self.code[name]
                spec = importlib.util.spec_from_loader(name, self, is_package=pkg, origin=file)
                spec.has_location = True
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.code[module.__name__][0], module.__dict__)


_loader = _Loader()
_prelude_code = {}
_case_no = 0


def fresh_library():
    """Import a new copy of the library and return it."""
    if _loader not in sys.meta_path:
        sys.meta_path.insert(0, _loader)
    for name in [n for n in sys.modules if n == PKG or n.startswith((PKG + '.', 'gencase'))]:
        del sys.modules[name]
    for clean in typing._cleanups:
        clean()
    lib = importlib.import_module(PKG)
    if not lib.__file__.startswith(str(REPO)):
        raise RuntimeError(f'wrong library: {lib.__file__}')
    return lib


def run_source(source: str, name: str = 'gencase'):
    """Execute generated source as a module which uses the current library."""
    mod = types.ModuleType(name)
    mod.__file__ = f'<{name}>'
    sys.modules[name] = mod
    for variant in (0, render.FUTURE):
        pre = render.prelude(variant)
        if source.startswith(pre):
            if variant not in _prelude_code:
                _prelude_code[variant] = compile(pre, '<prelude>', 'exec', dont_inherit=True)
            exec(_prelude_code[variant], mod.__dict__)
            rest = source[len(pre):]
            flags = __import__('__future__').annotations.compiler_flag if variant else 0
            exec(compile(rest, f'<{name}>', 'exec', flags=flags, dont_inherit=True), mod.__dict__)
            return mod
    exec(compile(source, f'<{name}>', 'exec', dont_inherit=True), mod.__dict__)
    return mod


def decoy(source: str) -> str:
    """The same module, but all of its classes have another first member."""
    for variant in (0, render.FUTURE):
        pre = render.prelude(variant)
        if source.startswith(pre):
            return pre + re.sub(r'^(class \w+\(.*\):\n)', r'\1    decoy_: uint8\n', source[len(pre):], flags=re.M)
    raise AssertionError


def define(source: str, lib=None, decoys=''):
    """Fresh library + generated module; errors are violations.  `decoys`: source
    which is executed first, as another module of the same name."""
    lib = lib or fresh_library()
    other = None
    try:
        if decoys:
            other = run_source(decoys)
        mod = run_source(source)
    except Exception as e:
        raise Violation(f'class definitions are rejected: {type(e).__name__}: {e}') from e
    mod.LIB = lib
    mod.DECOYS = other
    return mod


# --- converting values ----------------------------------------------------------


class World:
    """A generated module together with the specs of its classes."""

    def __init__(self, mod, *roots: ClassSpec):
        self.mod = mod
        self.lib = mod.LIB
        self.codec = model.Codec(*roots)
        self.classes = self.codec.classes

    def cls(self, name):
        return getattr(self.mod, name)

    # model -> library
    def build(self, obj: Obj):
        spec = self.classes[obj.cls]
        return self.cls(obj.cls)(*self.build_values(spec, obj))

    def build_values(self, spec, obj):
        env = {}
        out = []
        for (name, h), v in zip(attrs(spec), obj.vals, strict=True):
            env[name] = v
        for (name, h), v in zip(attrs(spec), obj.vals, strict=True):
            out.append(self.lower(h, v, env))
        return out

    def lower(self, h, v, env):
        if isinstance(v, Raw):
            return v.v
        if isinstance(h, Cust):
            return self.lower_cust(h, v)
        if isinstance(h, Tup):
            out = []
            for x, y in split(h.items, v):
                if x is None:
                    out.append(y.v if isinstance(y, Raw) else y)
                elif width(x) != 1:
                    out += y
                else:
                    out.append(self.lower(x, y, env))
            return tuple(out)
        if isinstance(h, Arr):
            return [self.lower(h.item, x, env) for x in v]
        if isinstance(h, (Ref, SelfRef)):
            return self.build(v) if isinstance(v, Obj) else v
        if isinstance(h, Cond):
            return self.lower(h.inner, v, env) if model.select(h.sel, env) else v
        if isinstance(h, (Look, Ahead)):
            try:
                h = model.pick(h.alts, h.default, model.select(h.sel, env))
            except model.Reject:
                return v
            return self.lower(h, v, env)
        return v

    def lower_cust(self, h, v):
        name = render.cust_name(h)
        cls = getattr(self.mod, name)
        if h.how in 'fg':
            res = getattr(self.mod, 'mk' + name)(v)
        else:
            res = cls(v)
        self.mod.LOG.clear()
        return res

    def use_decoys(self, *objs):
        """Pack and unpack such instances of the decoys, whatever the results."""
        if self.mod.DECOYS is None:
            return
        new = _DecoyWorld.__new__(_DecoyWorld)
        vars(new).update(vars(self), mod=self.mod.DECOYS)
        for o in objs:
            try:
                obj = new.build(o)
                data = obj.pack()
                type(obj).create_unpack(data)
                type(obj).create_unpack_from(data, 0)
                type(obj).create_unpack_read(io.BytesIO(data))
            except Exception:
                pass

    # library -> model
    def lift_obj(self, spec: ClassSpec, o, where=''):
        cls = self.cls(spec.name)
        if type(o) is not cls:
            raise Violation(f'{where or "result"} is {o!r} of type {type(o).__name__}, expected {spec.name}')
        env = {}
        for name, h in attrs(spec):
            try:
                v = getattr(o, name)
            except AttributeError:
                raise Violation(f'{where}.{name} is not set') from None
            env[name] = self.lift(h, v, env, spec, f'{where}.{name}')
        return Obj(spec.name, tuple(env.values()))

    def lift(self, h, v, env, spec, where):
        def expect(t):
            if type(v) is not t:
                raise Violation(f'{where} is {v!r} of type {type(v).__name__}, expected {t.__name__}')

        if isinstance(h, Int):
            expect(int)
        elif isinstance(h, Bool):
            expect(bool)
        elif isinstance(h, Flt):
            expect(float)
        elif isinstance(h, (Chr, Pas, Dyn, Term, Net, Cons, Usr)):
            expect(bytes)
        elif isinstance(h, Uni):
            expect(str)
        elif isinstance(h, Cust):
            expect(getattr(self.mod, render.cust_name(h)))
            if h.how in 'fg' and v.how != h.how:
                raise Violation(f'{where} was made by factory {v.how}, expected {h.how}')
            return self.lift(h.base, v.raw, env, spec, where + '.raw')
        elif isinstance(h, Tup):
            expect(tuple)
            n = sum(map(width, h.items))
            if len(v) != n:
                raise Violation(f'{where} is {v!r}, expected {n} elements')
            out = []
            for x, y in split(h.items, v):
                if width(x) != 1:
                    out += y
                else:
                    out.append(self.lift(x, y, env, spec, f'{where}[{len(out)}]'))
            return tuple(out)
        elif isinstance(h, Arr):
            expect(list)
            return [self.lift(h.item, y, env, spec, f'{where}[{i}]') for i, y in enumerate(v)]
        elif isinstance(h, Ref):
            return self.lift_obj(h.cls, v, where)
        elif isinstance(h, SelfRef):
            return self.lift_obj(spec, v, where)
        elif isinstance(h, Cond):
            if model.select(h.sel, env):
                return self.lift(h.inner, v, env, spec, where)
            d = h.default[0]
            if type(v) is not type(d) or v != d:
                raise Violation(f'{where} is {v!r}, expected the default {d!r}')
            return d
        elif isinstance(h, Look):
            try:
                alt = model.pick(h.alts, h.default, model.select(h.sel, env))
            except model.Reject:
                raise Violation(f'{where} is {v!r}, but its decider is unmapped') from None
            return self.lift(alt, v, env, spec, where)
        elif isinstance(h, Ahead):
            # which alternative was taken shows in the tag the value starts with
            tag = self.raw_tag(bare(h.ra), v)
            try:
                alt = model.pick(h.alts, h.default, tag)
            except (model.Reject, TypeError):
                raise Violation(f'{where} is {v!r}, but its tag is unmapped') from None
            return self.lift(alt, v, env, spec, where)
        else:
            raise AssertionError(h)
        return v

    def raw_tag(self, ra, v):
        if hasattr(v, 'attrs'):
            return self.raw_tag(ra, getattr(v, v.attrs[0]))
        if isinstance(ra, Cust) and not isinstance(v, tuple):
            return getattr(v, 'raw', v)
        if isinstance(v, list) and isinstance(ra, Int):
            return len(v)  # an array whose count was read ahead
        if isinstance(v, tuple) and v and (not isinstance(ra, Tup) or isinstance(v[0], tuple)):
            return self.raw_tag(ra, v[0])
        if isinstance(v, bytes) and isinstance(ra, Chr):
            return v[:ra.n]  # may be a string that takes all
        return v


class _DecoyWorld(World):
    def build(self, obj):
        spec = self.classes[obj.cls]
        return self.cls(obj.cls)(7, *self.build_values(spec, obj))


def same(a, b) -> bool:
    """Equality of model values: exact types, NaN equals NaN, -0.0 is not 0.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, Obj):
        return a.cls == b.cls and same(a.vals, b.vals)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def show(x, n=200) -> str:
    text = x.hex() if isinstance(x, (bytes, bytearray)) else repr(x)
    return text if len(text) <= n else f'{text[:n]}... ({len(text)} characters)'


def call(what: str, fn, *args):
    """Call the library where it must succeed."""
    try:
        return fn(*args)
    except Exception as e:
        raise Violation(f'{what} raised {type(e).__name__}: {e}') from e


# --- packing ------------------------------------------------------------------


def pack(o) -> bytes:
    res = call('pack()', o.pack)
    if type(res) is not bytes:
        raise Violation(f'pack() returned a {type(res).__name__}')
    return res


def pack_into(o, size, offset, slack=3, kind='bytearray') -> bytes:
    """pack_into a buffer with `size` bytes of room at `offset`; checks that
    nothing else was written.  Returns the packed bytes."""
    total = offset + size + slack
    # (some zeros, since what is packed often is)
    fill = bytes((0xA5 ^ i) & 0xFF if (i + size) % 3 else 0 for i in range(total))
    buf = make_buffer(kind, fill)
    if offset == 0:
        call('pack_into(buffer)', o.pack_into, buf)
    else:
        call(f'pack_into(buffer, {offset})', o.pack_into, buf, offset)
    out = bytes(buf)
    if len(out) != total:
        raise Violation(f'pack_into resized the buffer from {total} to {len(out)}')
    if out[:offset] != fill[:offset]:
        raise Violation('pack_into changed bytes before the offset')
    if out[offset + size:] != fill[offset + size:]:
        raise Violation('pack_into changed bytes after the packed data')
    return out[offset:offset + size]


def pack_write(o, prefix=b'', suffix=b'') -> bytes:
    f = io.BytesIO(prefix + suffix)
    f.seek(len(prefix))
    call('pack_write()', o.pack_write, f)
    pos = f.tell()
    out = f.getvalue()
    if out[:len(prefix)] != prefix:
        raise Violation('pack_write changed bytes before the stream position')
    if out[pos:] != (prefix + suffix)[pos:]:
        raise Violation('pack_write changed bytes behind the stream position it left')
    return out[len(prefix):pos]


BUFFERS = ('bytes', 'bytearray', 'memoryview', 'rw_memoryview', 'array', 'mmap', 'signed_array', 'char_memoryview',
           'wide_array', 'wide_memoryview', 'ctypes')
WRITABLE = ('bytearray', 'rw_memoryview', 'array', 'mmap', 'signed_array', 'char_memoryview', 'wide_array', 'ctypes')


def make_buffer(kind, data: bytes):
    if kind == 'bytes':
        return data
    if kind == 'bytearray':
        return bytearray(data)
    if kind == 'memoryview':
        return memoryview(data)
    if kind == 'rw_memoryview':
        return memoryview(bytearray(data))
    if kind == 'array':
        return _array.array('B', data)
    if kind == 'signed_array':
        return _array.array('b', data)
    if kind == 'char_memoryview':
        return memoryview(bytearray(data)).cast('c')
    if kind == 'ctypes':
        return (ctypes.c_uint16 * (len(data) // 2) if data and len(data) % 2 == 0 else
                ctypes.c_uint8 * len(data)).from_buffer_copy(data)
    if kind == 'wide_array':
        return _array.array('HI'[len(data) % 4 == 0] if len(data) % 2 == 0 else 'b', data)
    if kind == 'wide_memoryview':
        # (items of several bytes, several dimensions)
        n = len(data)
        view = memoryview(data)
        return view if not n else view.cast('H') if n % 2 == 0 else view.cast('B', (n, 1))
    if kind == 'mmap':
        if not data:
            return data
        m = mmap.mmap(-1, len(data))
        m[:] = data
        return m
    raise AssertionError(kind)


METHODS = ('create_unpack', 'create_unpack_from', 'create_unpack_read',
           'unpack', 'unpack_from', 'unpack_read')


class Stream(io.BytesIO):
    """Counts calls, so that endless reading ends deterministically."""

    calls = 0

    def read(self, *a):
        self.calls += 1
        if self.calls > 2_000_000:
            raise Violation('reads the stream endlessly')
        return super().read(*a)


class ShortStream(Stream):
    """Returns fewer bytes than asked for, as unbuffered streams may."""

    def __init__(self, data, limit):
        super().__init__(data)
        self.limit = limit

    def read(self, n=-1, /):
        return super().read(n if n is None or n < 0 else min(n, self.limit))


def unpack(cls, method, data: bytes, prefix=b'', suffix=b'', kind='bytes', old=None, stream='bytes'):
    """Unpack with one of the six methods; returns (object, stream position
    relative to the start or None).  Exceptions of the library propagate."""
    if method.endswith('_read'):
        f = Stream(prefix + data + suffix)
        if stream == 'buffered':
            f = io.BufferedReader(f, 16)
        f.seek(len(prefix))
        args = (f,)
    elif method.endswith('_from'):
        buf = make_buffer(kind, prefix + data + suffix)
        args = (buf, len(prefix)) if prefix else (buf,)
    else:
        args = (make_buffer(kind, data + suffix),)
    if method.startswith('create'):
        o = getattr(cls, method)(*args)
    else:
        o = old
        res = getattr(o, method)(*args)
        if res is not None:
            raise Violation(f'{method}() returned {res!r}')
    pos = f.tell() - len(prefix) if method.endswith('_read') else None
    return o, pos
