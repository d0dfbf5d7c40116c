"""Shared harness for the frame readers: symbolic file, frame object, running
a reader over every path, and comparing the outcome with a specification."""

import json

from . import bv, solve, pyapi, realtree
from .bv import E
from .cmod import CModule
from .irexec import Ptr, Unsupported
from .pyapi import new_py, file_read, file_seek, file_tell, IW, ITEMSIZE

FILES = ['lsl/reader/%s.cpp' % n for n in ('gofast', 'drx', 'drx8', 'drspec', 'vdif', 'tbx', 'cor')]
BV1 = 1


def load():
    return CModule(FILES, '_gofast')


def fbyte(i):
    return bv.var(f"f{i}", 8)


def be(content, off, n):
    """Big-endian unsigned integer of n bytes, as a 66-bit value."""
    v = content(off)
    w = 8
    for k in range(1, n):
        v = bv.concat(v, w, content(off+k), 8)
        w += 8
    return bv.zext(v, w, IW)


def le(content, off, n):
    v = content(off+n-1)
    w = 8
    for k in range(n-2, -1, -1):
        v = bv.concat(v, w, content(off+k), 8)
        w += 8
    return bv.zext(v, w, IW)


def bits(v, lo, n, w=IW):
    return bv.zext(bv.extract(v, lo+n-1, lo), n, IW)


def eq66(a, b):
    return bv.icmp('eq', IW, a, b)


def conj(cs):
    r = 1
    for c in cs:
        r = bv.band(r, c)
    return r


class Run:
    """One final state of a reader call."""

    def __init__(self, mod, st, frame, hdr, pay, args, before):
        self.mod, self.st = mod, st
        self.frame, self.hdr, self.pay, self.args = frame, hdr, pay, args
        self.before = before

    @property
    def ok(self):
        return self.st.unsup is None and self.st.fault is None and isinstance(self.st.ret, Ptr)

    @property
    def kind(self):
        if self.st.unsup is not None:
            return 'unsupported'
        if self.st.fault is not None:
            return 'fault'
        if isinstance(self.st.ret, Ptr):
            return 'frame'
        return self.st.err[0] if self.st.err else 'no-exception'

    def attrs(self, obj):
        return self.st.mem[obj.obj].meta.get('attrs', {})

    def value(self, obj, name):
        p = self.attrs(obj).get(name)
        if p is None:
            return None
        m = self.st.mem[p.obj]
        if 'val' in m.meta:
            return m.meta['val']
        return p

    def untouched(self):
        return not self.st.env['sets']

    def array(self, p):
        m = self.st.mem[p.obj]
        return m.meta['dims'], m.meta['strides'], m.meta['typ'], m.meta['data']

    def element(self, p, idx):
        """Components (1 or 2) of array element idx, as ints/E."""
        dims, strides, typ, data = self.array(p)
        off = data.off + sum(i*s for i, s in zip(idx, strides))
        mm = self.st.mem[data.obj]
        n = ITEMSIZE[typ]
        if typ in (pyapi.COMPLEX64, pyapi.COMPLEX128):
            return [self.mod.ex.raw_load(mm, off, n//2), self.mod.ex.raw_load(mm, off+n//2, n//2)]
        return [self.mod.ex.raw_load(mm, off, n)]


def start(mod, base=None, content=fbyte, pos=0, size=None, short=False, ioerr=False, nomem=False):
    s = (base or mod.base).clone()
    s.env.update(pos=pos, content=content, size=size, log=[], short=short, ioerr=ioerr, nomem=nomem, sets=[], heap=[])
    s.err = None
    s.ret = None
    s.pc = list(s.pc)
    return s


def call(mod, s, method, extra=()):
    ex = mod.ex
    hdr = new_py(ex, s, 'header', 64, attrs={})
    pay = new_py(ex, s, 'payload', 64, attrs={})
    frame = new_py(ex, s, 'frame', 64, attrs={'header': hdr, 'payload': pay})
    ph = new_py(ex, s, 'file', 64, methods={'read': file_read, 'seek': file_seek, 'tell': file_tell})
    before = set(s.mem)
    out = mod.call(s, method, [ph, frame] + list(extra))
    return [Run(mod, o, frame, hdr, pay, mod.argtuple, before) for o in out]


def audit(mod, run, base):
    """Reference-count discrepancies caused by this call."""
    held = {run.args.obj: 1}
    now = pyapi.check_refs(mod.ex, run.st, held)
    was = {(k, n, o) for k, n, o in pyapi.check_refs(mod.ex, base, {})}
    return [d for d in now if d not in was]


def same_value(pc, got, want, n=None):
    """Bit-precise equality of two component values; (ok, model)."""
    if isinstance(want, E) and want.sort != 'bv' or isinstance(got, E) and got.sort != 'bv':
        if isinstance(got, E) and isinstance(want, E) and got.id == want.id:
            return True, None
        if isinstance(got, E) and isinstance(want, E) and got.op == want.op == 'sitofp':
            a, b = got.args[0], want.args[0]
            if isinstance(a, E) and isinstance(b, E) and a.w == b.w:
                r, m = solve.valid(pc, bv.icmp('eq', a.w, a, b))
                if r:
                    return True, None
        gb = bv.to_bits(got) if isinstance(got, E) and got.sort != 'bv' else got
        wb = bv.to_bits(want) if isinstance(want, E) and want.sort != 'bv' else want
        w = 32 if n is None else 8*n
        for x in (gb, wb):
            if isinstance(x, E):
                w = x.w
        return solve.valid(pc, bv.icmp('eq', w, gb, wb))
    w = got.w if isinstance(got, E) else want.w if isinstance(want, E) else 8*(n or 8)
    if isinstance(got, E) and isinstance(want, E) and got.w != want.w:
        raise Unsupported('width mismatch')
    return solve.valid(pc, bv.icmp('eq', w, got, want))


# ------------------------------------------------------------------ replay
REPLAY = r'''
import io, sys, json, importlib, base64
import numpy as np
from lsl.reader import _gofast
class Log(io.BytesIO):
    pass
def dump(v):
    if isinstance(v, np.ndarray):
        r = np.ascontiguousarray(v)
        return {'dtype': v.dtype.str, 'shape': list(v.shape), 'hex': r.tobytes().hex()}
    if isinstance(v, (list, tuple)):
        return [dump(x) for x in v]
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return {'f64': float(v).hex()}
    return repr(v)
class O(object):
    pass
out = []
for step in ARGS['steps']:
    fh = io.BytesIO(bytes.fromhex(step['file']))
    fh.seek(step.get('pos', 0))
    for _ in range(step.get('count', 1)):
        if step['level'] == 'c':
            fr = O(); fr.header = O(); fr.payload = O()
            try:
                r = getattr(_gofast, step['method'])(fh, fr, *step.get('extra', []))
                res = {'kind': 'frame', 'header': {k: dump(v) for k, v in vars(r.header).items()},
                       'payload': {k: dump(v) for k, v in vars(r.payload).items()}}
            except Exception as e:
                res = {'kind': type(e).__name__, 'msg': str(e), 'touched': bool(vars(fr.header) or vars(fr.payload))}
        res['pos'] = fh.tell()
        out.append(res)
print(json.dumps(out))
'''


def file_from_model(model, n, content=None):
    """Concrete file bytes from a solver model over f0..f{n-1}."""
    return bytes(model.get(f"f{i}", 0) & 0xFF for i in range(n))


def replay_c(steps):
    rc, out, err = realtree.run_py(REPLAY, ['lsl/reader/_gofast'], {'steps': steps})
    if rc < 0:
        return 'crash', rc, err
    if out is None:
        return 'error', rc, err
    return 'ok', out, err
