"""Virtual and real data files for the LDP checks."""
import os
import struct
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import pyrun, pysym as ps

EXTS = ('lsl/reader/_gofast',)
SYNC = bytes.fromhex('dec0de5c')
FS = 196000000
SIZE = {'drx': 4128, 'drx8': 8224}


def digits(tag, n, m=7):
    """n small numbers 1..m that tell the tag and the place."""
    import numpy as np
    d = [1 + (tag // m**k) % m for k in range(3)]
    return np.array([d[j % 3] for j in range(3)], dtype=np.int8)[np.arange(n) % 3]


class TS:
    """Times as exact numbers of seconds (T01 establishes FrameTimestamp)."""
    def __init__(self, v, n=None):
        self.v, self.n = v, n

    @classmethod
    def from_dp_timetag(cls, value, offset=0):
        return cls((value - offset)/FS, value - offset)

    def __getitem__(self, k):
        return self.n // FS if k == 0 else (self.n % FS)/FS

    def __add__(self, o):
        return TS(self.v + o)
    __radd__ = __add__

    def __sub__(self, o):
        return self.v - o.v if isinstance(o, TS) else TS(self.v - o)

    def _o(self, o):
        return o.v if isinstance(o, TS) else o

    def __lt__(self, o):
        return self.v < self._o(o)

    def __le__(self, o):
        return self.v <= self._o(o)

    def __gt__(self, o):
        return self.v > self._o(o)

    def __ge__(self, o):
        return self.v >= self._o(o)

    def __eq__(self, o):
        return self.v == self._o(o)

    def __ne__(self, o):
        return self.v != self._o(o)

    def __hash__(self):
        return 0

    def __format__(self, s):
        return 'time'


class FH:
    """File handle of the symbolic run: records at known places."""
    name, mode = 'virtual', 'rb'

    def __init__(self, fmt, recs, size_of, tail=0):
        self.fmt, self.recs, self.pos = fmt, recs, 0
        self.at = {}
        o = 0
        for r in recs:
            self.at[o] = r
            o += size_of(r)
        self.size = o + tail

    def where(self):
        if ps.is_sym(self.pos):
            self.pos = ps.ENG.concretise(self.pos.t)
        return self.pos

    def tell(self):
        return self.where()

    def seek(self, p, w=0):
        self.pos = p if w == 0 else (self.pos + p if w == 1 else self.size + p)
        if self.where() < 0:
            raise OSError(22, 'Invalid argument')
        return self.pos

    def close(self):
        pass


class Config:
    def __init__(self, d):
        self.d = d

    def get(self, k):
        return self.d[k]


def setup(env, fmt, cfg):
    """The modules, with the stubs of the symbolic run in place."""
    import importlib
    if env.sym:
        m, L = pyrun.imp(f"lsl.reader.{fmt}"), pyrun.imp('lsl.reader.ldp')
        m.FrameTimestamp = L.FrameTimestamp = TS
    else:
        m, L = importlib.import_module(f"lsl.reader.{fmt}"), importlib.import_module('lsl.reader.ldp')
    L.LDP_CONFIG = Config(cfg)
    L.LSL_LOGGER = Quiet()
    return m, L


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def real_file(blobs):
    f = tempfile.NamedTemporaryFile(prefix='ldp', suffix='.dat')
    for b in blobs:
        f.write(b)
    f.flush()
    return f


class NPX:
    """numpy, with differences and medians of symbolic time tags"""
    def __init__(self, np):
        self._np = np

    def __getattr__(self, n):
        return getattr(self._np, n)

    def diff(self, l):
        d = [b - a for a, b in zip(l, l[1:])]
        return d if any(ps.is_sym(x) for x in d) else self._np.array(d)

    def median(self, d):
        if not isinstance(d, list):
            return self._np.median(d)
        d = sorted(d)
        k = len(d)//2
        return d[k] if len(d) % 2 else (d[k-1] + d[k])/2

    def round(self, x):
        return ps.SHADOW['round'](x) if ps.is_sym(x) else self._np.round(x)


def expand(env, stream, skip, fill):
    """The samples due: one entry per time, gaps of less than `fill` times as zeros.  An entry 'gap' stands for an error."""
    out, last = [], None
    for t, row in stream:
        if not row:
            continue
        if last is not None:
            d = t - last
            if ps.is_sym(d):
                q = d // skip
                whole = bool(d % skip == 0)
                q = ps.ENG.concretise(q.t) if ps.is_sym(q) else q
            else:
                q, whole = d // skip, d % skip == 0
            if whole and q - 1 < fill:
                out += [(last + skip*(j+1), {}) for j in range(q-1)]
            else:
                out.append('gap')
        out.append((t, row))
        last = t
    return out
