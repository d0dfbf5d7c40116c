import ctypes
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import bv, common, pyapi, readerlib as rl, realtree, solve
from engine.common import Inconclusive
from checks import reader_specs as rs
from checks.R03 import mode_pre
from checks.R04 import layout

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <errno.h>
static void *(*rm)(size_t); static void *(*rc)(size_t,size_t);
static long armed=0;
extern "C" void vf_arm(long k){armed=k;}
static int hit(size_t n){ if(armed>0 && n>=1024){ armed--; if(armed==0) return 1;} return 0; }
extern "C" void *malloc(size_t n){ if(!rm) rm=(void*(*)(size_t))dlsym(RTLD_NEXT,"malloc"); if(hit(n)){errno=ENOMEM;return 0;} return rm(n);}
static char boot[65536]; static size_t bo=0;
extern "C" void *calloc(size_t a,size_t b){ static int in=0; if(!rc){ if(in){ void*p=boot+bo; bo+=(a*b+31)&~31UL; return p;} in=1; rc=(void*(*)(size_t,size_t))dlsym(RTLD_NEXT,"calloc"); in=0;} if(hit(a*b)){errno=ENOMEM;return 0;} return rc(a,b);}
'''

REPLAY = r'''
import io, sys, json, ctypes, gc
import numpy as np
from lsl.reader import _gofast
class O(object):
    pass
class F(object):
    """A file whose read() results stay referenced, so that an extra release
    shows up in their reference counts."""
    def __init__(self, data, errat, pool):
        self.d, self.p, self.held, self.n, self.errat, self.pool = data, 0, [], 0, errat, pool
    def read(self, n):
        self.n += 1
        if self.errat is not None and self.n == self.errat:
            raise OSError('injected')
        b = self.pool.get((self.p, n))
        if b is None:
            b = self.d[self.p:self.p+n] if (self.p or n < len(self.d)) else bytes(bytearray(self.d))
            self.pool[(self.p, n)] = b
        self.p += len(b)
        self.held.append(b)
        return b
    def seek(self, o, w=0):
        self.p = o if w == 0 else self.p + o
        return self.p + (1 << 40)
    def tell(self):
        return self.p
lib = ctypes.CDLL(None)
class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]
lib.mallinfo2.restype = MI
data = bytes.fromhex(ARGS['file'])
prev = [bytes.fromhex(h) for h in ARGS.get('history', [])]
arm = ARGS.get('arm', 0)
out = {}
problems = []
pool = {}
def once():
    fr = O(); fr.header = O(); fr.payload = O()
    fh = F(data, ARGS.get('errat'), pool)
    base = {id(b): sys.getrefcount(b) for b in pool.values()}
    if arm:
        lib.vf_arm(ctypes.c_long(arm))
    try:
        r = getattr(_gofast, ARGS['method'])(fh, fr)
        kind = 'frame'
        r = None
    except BaseException as e:
        kind = type(e).__name__
    if arm:
        lib.vf_arm(ctypes.c_long(0))
    touched = bool(vars(fr.header) or vars(fr.payload))
    if kind != 'frame' and touched:
        problems.append('the frame object was changed by a failed read')
    seen = list(fh.held)
    fh.held = []
    for b in pool.values():
        if len(b) < 2:
            continue
        k = sum(1 for x in seen if x is b)
        have = sys.getrefcount(b)
        want = base.get(id(b))
        if want is None:
            # pool value + loop variable + argument + entries of seen
            want = 3 + k - 0
        else:
            want = want + k
        if have < want:
            problems.append('a read buffer was released %d time(s) too often' % (want-have))
        elif have > want:
            problems.append('a read buffer leaked')
    return kind
for h in prev:
    fr = O(); fr.header = O(); fr.payload = O()
    try:
        getattr(_gofast, ARGS['method'])(io.BytesIO(h), fr)
    except Exception:
        pass
if arm:
    arm, keep = 0, arm
    once()
    arm, problems[:] = keep, []
kind = once()
if not problems and not ARGS.get('single'):
    N = 400
    def many(n):
        for _ in range(n):
            for h in prev:
                fr = O(); fr.header = O(); fr.payload = O()
                try:
                    getattr(_gofast, ARGS['method'])(io.BytesIO(h), fr)
                except Exception:
                    pass
            once()
    many(20)
    gc.collect()
    a0, m0 = sys.getallocatedblocks(), lib.mallinfo2()
    many(N)
    gc.collect()
    a1, m1 = sys.getallocatedblocks(), lib.mallinfo2()
    if a1 - a0 > N//2:
        problems.append('%d Python objects leaked in %d reads' % (a1-a0, N))
    g = (m1.uordblks+m1.hblkhd) - (m0.uordblks+m0.hblkhd)
    if g > N*16:
        problems.append('%d bytes leaked in %d reads' % (g, N))
print(json.dumps({'kind': kind, 'problems': problems}))
'''


def shim():
    d = realtree.tree(['lsl/reader/_gofast'])
    so = os.path.join(d, 'vf_shim.so')
    if not os.path.exists(so):
        src = os.path.join(d, 'vf_shim.cpp')
        with open(src, 'w') as f:
            f.write(SHIM)
        subprocess.run(['g++', '-shared', '-fPIC', '-O1', '-w', src, '-o', so, '-ldl'], check=True, capture_output=True)
    return so


def confirm(c, name, method, what, pc, run, flen, history=()):
    # an empty or one-byte read() result is a shared object: prefer longer ones
    longer = [bv.icmp('ult', 64, 1, bv.var(f"shortlen{k}", 64)) for k, e in enumerate(run.st.env['log']) if e[0] == 'short']
    ok, m = solve.check_sat(list(pc) + longer) if longer else (False, None)
    if not ok:
        ok, m = solve.check_sat(list(pc))
    if not ok:
        c.open(f"{name}: infeasible path reported: {what}")
        return
    data = bytes(m.get(f"f{i}", (i*37+11) & 0xFF) & 0xFF for i in range(flen))
    log = run.st.env['log']
    args = {'method': method}
    nread = 0
    for e in log:
        if e[0] in ('read', 'read-error', 'short'):
            nread += 1
        if e[0] == 'read-error':
            args['errat'] = nread
        if e[0] == 'short':
            ln = [v for k, v in m.items() if k.startswith('shortlen')]
            data = data[:e[1] + (ln[0] if ln else 0)]
        if e[0] == 'nomem':
            args['arm'] = run.st.env['failed_alloc']
    args['file'] = data.hex()
    args['history'] = [bytes(m.get(f"{p}{i}", 0) & 0xFF for i in range(n)).hex() for p, n in history]
    env = {}
    if args.get('arm'):
        env['LD_PRELOAD'] = shim()
    rc, out, err = realtree.run_py(REPLAY, ['lsl/reader/_gofast'], args, env=env)
    if rc < 0:
        obs = f"the process dies with signal {-rc}"
    elif out and out['problems']:
        obs = out['problems'][0]
    else:
        # heap errors that plain runs survive
        obs = None
        if not args.get('arm'):
            a2 = dict(args, single=True)
            rc, out, err = realtree.run_py(REPLAY, ['lsl/reader/_gofast'], a2, asan=True)
            if 'AddressSanitizer' in err:
                line = [l for l in err.splitlines() if 'ERROR: AddressSanitizer' in l]
                obs = line[0].split('ERROR: ')[1][:150]
            elif rc < 0 or (out and out['problems']):
                obs = f"exit {rc}, {out}"
    if not obs:
        c.open(f"{name}: '{what}' did not reproduce on the real extension (rc={rc}, {out}, {err[-600:]})")
        return
    c.violation(f"{method} {name}: {what} [{obs}]", f"{method}:{name}:{what}", {'args': args, 'observed': obs})


def body(c):
    mod = rl.load()
    deep = common.thorough()
    f = lambda i: bv.var(f"f{i}", 8)

    def fixed(pairs):
        return [rs.byte_eq(f(i), v) for i, v in pairs]
    jobs = []
    for mth, size in (('read_drx', 4128), ('read_drx_ci8', 4128), ('read_drx8', 8224), ('read_drx8_ci8', 8224)):
        jobs.append((mth, 'any frame', [], size, None, []))
    for mth in ('read_tbx', 'read_tbx_ci8'):
        jobs.append((mth, 'any frame', [], 28+8192, None, []))
    jobs.append(('read_cor', 'any frame', [], 32+32*192, None, []))
    for mth in ('read_vdif', 'read_vdif_i8'):
        for legacy in (False, True):
            for nb in (1, 2, 4, 8, 3, 16):
                for cx in (False, True):
                    for lc in (0, 1, 5):
                        # lc=5: the payload does not divide by the channels
                        for nw in ((6,) if nb not in (2, 8) or not cx else (6, 6+128)):
                            con = rs.vdif_header(nw, legacy, nb, cx, lc)
                            pre = [bv.icmp('eq', 8, bv.binop('and', 8, f(i), mk), v) for i, (mk, v) in con.items()]
                            jobs.append((mth, f"{nb}-bit{' complex' if cx else ''} {1 << lc} channels {nw*8} bytes{' legacy' if legacy else ''}", pre, nw*8, None, []))
        jobs.append((mth, 'impossible length', fixed([(8, 0), (9, 0), (10, 0)]), 16, None, []))
    fmts = range(256) if deep else list(rs.DRSPEC_FORMATS) + [0, 0x03, 0x30, 0x07, 0x18, 0xFF]
    for fmt in fmts:
        for nf in ((2,) if not (fmt == 0x09) else (2, 512)):
            jobs.append(('read_drspec', f"format {fmt:#04x} {nf} channels", fixed([(45, fmt)] + [(48+k, (nf >> (8*k)) & 0xFF) for k in range(4)]),
                         76+4*16*nf, None, []))
    realtree.tree(['lsl/reader/_gofast'])
    shim()
    todo = []
    group = 6
    big = [j for j in jobs if j[3] >= 2048]
    small = [j for j in jobs if j[3] < 2048]
    for j in big:
        todo.append(lambda c, j=j: [one(c, mod, *j)])
    for k in range(0, len(small), group):
        todo.append(lambda c, g=small[k:k+group]: [one(c, mod, *j) for j in g])
    # mode changes with the previous frame left in the caches
    from checks.R03 import prime as prime3, MODES
    from checks.R04 import prime as prime4, NCHANS
    for mth in ('read_tbx', 'read_tbx_ci8'):
        for p in [(64, 4), (256, 8), (77, 3)]:
            def job(c, mth=mth, p=p):
                b, h = prime3(c, mod, mth, p)
                if b not in (None, 'bad'):
                    after(c, mod, mth, f"any frame after a {p[0]}x{p[1]} one", b, 28+8192, [('h', 28+8192)])
            todo.insert(0, job)
    for n in NCHANS:
        def job(c, n=n):
            b, h = prime4(c, mod, n)
            if b is not None:
                after(c, mod, 'read_cor', f"any frame after a {n}-channel one", b, 32+32*192, [('h', 32+32*192+4)])
        todo.insert(0, job)
    common.parallel(c, todo)
    c.bounds.append('DRX, DRX8, TBX and COR: one frame of arbitrary bytes; VDIF: 1/2/3/4/8/16-bit layouts, 1/2/32 channels, 48 and 1072 byte frames; '
                    'DR spectrometer: %s product codes, 2 (and 512) channels; each with at most one injected fault: a short read of any length, a read() that raises, or one failed allocation of at least 1 kB; histories of at most two reads' % len(list(fmts)))
    c.outside.append('failed allocations of small Python objects (ints, lists); file objects whose read() returns something other than bytes')
    c.stubs.append('Python/NumPy C API replaced by a model with explicit reference counts')


def one(c, mod, mth, name, pre, size, base, hist):
    total = 0
    big = size >= 2048 or 'read_drx' in mth
    s = rl.start(mod, base, short=True, ioerr=True, nomem=big)
    s.env['nomem_kinds'] = ('array', 'malloc', 'newshape')
    s.env['nalloc'] = 0
    s.pc.extend(pre)
    b0 = s.clone()
    runs = rl.call(mod, s, mth)
    kinds = set()
    for r in runs:
        total += 1
        kinds.add(r.kind)
        if r.kind in ('fault', 'unsupported'):
            confirm(c, name, mth, f"{r.st.fault or r.st.unsup}", r.st.pc, r, size)
            continue
        if r.kind == 'no-exception':
            raise Inconclusive(f"{mth} {name}: NULL returned without an exception")
        if r.kind != 'frame' and not r.untouched():
            confirm(c, name, mth, f"the frame object is changed by a read that fails with {r.kind}", r.st.pc, r, size)
        for d in rl.audit(mod, r, b0):
            confirm(c, name, mth, f"{d[0]} of a {d[1]} object when the read ends with {r.kind}", r.st.pc, r, size)
            break
    if not c.violations:
        c.reach(f"{mth} {name}: outcomes {sorted(kinds)}", len(kinds) >= 2)
    c.ob(f"{mth} {name}", len(runs), outcomes=sorted(kinds))
    c.func(*mod.ex.entered)
    c.extra['paths'] = c.extra.get('paths', 0) + total


def after(c, mod, mth, name, base, size, hist):
    s = rl.start(mod, base, short=True, ioerr=True)
    b0 = s.clone()
    runs = rl.call(mod, s, mth)
    for r in runs:
        if r.kind in ('fault', 'unsupported'):
            confirm(c, name, mth, f"{r.st.fault or r.st.unsup}", r.st.pc, r, size, hist)
            continue
        for d in rl.audit(mod, r, b0):
            confirm(c, name, mth, f"{d[0]} of a {d[1]} object when the read ends with {r.kind}", r.st.pc, r, size, hist)
            break
    c.ob(f"{mth} {name}", len(runs))
    c.func(*mod.ex.entered)
    c.extra['paths'] = c.extra.get('paths', 0) + len(runs)


if __name__ == '__main__':
    common.run('R07', 'LLVM-IR symbolic execution of all reader sources with fault injection', body)
