"""Symbolic file contents: data known by where it comes from.

A SymData is a list of ranges [start, start+n) of one underlying byte string,
with symbolic starts and lengths: what a read returned, without its bytes."""

import types

from . import pysym as ps
from .pysym import ENG

_len = len


class SymData:
    def __init__(self, segs=()):
        self.segs = list(segs)

    @property
    def n(self):
        r = 0
        for s, k in self.segs:
            r = r + k
        return r

    def __bool__(self):
        n = self.n
        return bool(n > 0)

    def __len__(self):
        n = self.n
        return n.__index__() if ps.is_sym(n) else n

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)) and not o:
            return self
        if not isinstance(o, SymData):
            return NotImplemented
        return SymData(self.segs + o.segs)

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)) and not o:
            return SymData(self.segs)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)) and not o:
            return not bool(self)
        raise ps.Unsupported('comparison of file contents')

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise ps.Unsupported('indexing of file contents')
        n = self.n

        def norm(x, d):
            if x is None:
                return d
            if x < 0:
                x = x + n
                return x if x > 0 else 0
            return x if x < n else n
        a, b = norm(i.start, 0), norm(i.stop, n)
        out = []
        at = 0
        for s, k in self.segs:
            lo = a - at if a > at else 0
            hi = b - at if b < at + k else k
            if hi > lo:
                out.append((s + lo, hi - lo))
            at = at + k
        return SymData(out)

    def __repr__(self):
        return f"<SymData {self.segs}>"


class SymBuf(SymData):
    """bytearray"""

    def extend(self, o):
        self.segs = (self + o).segs

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SymBuf(SymData.__add__(self, o).segs)


class VB(bytes):
    def join(self, xs):
        xs = list(xs)
        if any(isinstance(x, SymData) for x in xs):
            if _len(self):
                raise ps.Unsupported('join with a separator')
            out = SymData()
            for x in xs:
                out = out + x
            return out
        return bytes.join(self, xs)


def s_len(x):
    if isinstance(x, SymData):
        return x.n
    return _len(x)


class _BA(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytearray, SymBuf))

    def __call__(cls, *a):
        if not a:
            return SymBuf()
        if isinstance(a[0], SymData):
            return SymBuf(a[0].segs)
        return bytearray(*a)


class ByteArray(metaclass=_BA):
    pass


class _BY(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytes, SymData))

    def __call__(cls, *a):
        if a and isinstance(a[0], SymData):
            return SymData(a[0].segs)
        return VB(bytes(*a))


class Bytes(metaclass=_BY):
    pass


def literals(mod):
    """Byte string literals of the module's functions that can join SymData."""
    def fix(code):
        cs = []
        for k in code.co_consts:
            if type(k) is bytes:
                k = VB(k)
            elif isinstance(k, types.CodeType):
                k = fix(k)
            cs.append(k)
        return code.replace(co_consts=tuple(cs))

    def walk(ns):
        for v in list(ns.values()):
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            fs = [v]
            if isinstance(v, property):
                fs = [v.fget, v.fset]
            for f in fs:
                if isinstance(f, types.FunctionType) and f.__module__ == mod.__name__:
                    f.__code__ = fix(f.__code__)
            if isinstance(v, type) and v.__module__ == mod.__name__:
                walk(vars(v))
    walk(mod.__dict__)


SHADOW = {'len': s_len, 'bytearray': ByteArray, 'bytes': Bytes}


class File:
    """A read-only binary file: `n` bytes, of which byte k is byte base+k of the
    underlying string."""

    def __init__(self, name, base, n):
        self.name, self.base, self.n = name, base, n
        self.pos = 0
        self.closed = False
        self.mode = 'rb'

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def read(self, size=-1):
        self._open()
        left = self.n - self.pos
        if left <= 0:
            return SymData()
        if size is None or size < 0 or size > left:
            k = left
        else:
            k = size
        d = SymData([(self.base + self.pos, k)])
        self.pos = self.pos + k
        return d

    def seek(self, pos, whence=0):
        self._open()
        p = pos if whence == 0 else (self.pos + pos if whence == 1 else self.n + pos)
        if p < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = p
        return p

    def tell(self):
        self._open()
        return self.pos

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class OS:
    """`os` with sizes of symbolic files."""

    def __init__(self, real, sizes):
        self._real, self._sizes = real, sizes
        outer = self

        class P:
            def __getattr__(s, n):
                return getattr(real.path, n)

            def getsize(s, fn):
                return outer._sizes[fn]

            def exists(s, fn):
                return fn in outer._sizes or real.path.exists(fn)
        self.path = P()

    def stat(self, fn):
        return types.SimpleNamespace(st_size=self._sizes[fn])

    def __getattr__(self, n):
        return getattr(self._real, n)
