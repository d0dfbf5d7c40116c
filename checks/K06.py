import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, omp, pyapi, realtree
from kern_common import *
import K01
import K02
import K03
import K05
import K07

# grow: memory still held per call.  threads: largest difference between one and many threads.
LEAK = REPLAY.split('args = build')[0] + '''
import ctypes, warnings
warnings.simplefilter('ignore')
class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]
mall = ctypes.CDLL(None).mallinfo2
mall.restype = Info
def held():
    i = mall()
    return i.uordblks + i.hblkhd
def call():
    args = build(ARGS['args'])
    try:
        with np.errstate(all='ignore'):
            getattr(mod, ARGS['method'])(*args)
        return None
    except Exception as e:
        return type(e).__name__
h = []
for k in range(4):
    for i in range(100):
        exc = call()
    h.append(held())
print(json.dumps({'per_call': min(b-a for a, b in zip(h[1:], h[2:]))/100, 'exc': exc}))
'''


def refuse(c):
    c.refuse = True
    return c


def with_args(c, label, **kw):
    """The case with some arguments (by position) replaced, which has to be refused."""
    c.args = list(c.args)
    for k, v in kw.items():
        c.args[int(k[1:])] = v
    c.label = f"{c.label}; {label}"
    c.key = c.label
    return refuse(c)


def stop(cx):
    raise Stop


def fcase(thorough):
    """F engines."""
    out = []
    for typ, ci8 in ((INT16, 0), (FLOAT32, 0), (INT8, 1), (COMPLEX64, 0), (COMPLEX128, 0)):
        out.append(K01.case(typ, ci8, 7, 3, 2, 1, window=True))
        out.append(K01.case(typ, ci8, 7, 3, 2, 2, pfb=True))
        if thorough:
            out.append(K01.case(typ, ci8, 13, 5, 3, 2, window=True))
            out.append(K01.case(typ, ci8, 13, 5, 3, 1, pfb=True))
    out.append(K01.case(COMPLEX64, 0, 4, 2, 2, 1, clip=5))
    out.append(K01.case(INT16, 0, 4, 2, 1, 1, clip=5))
    for typ, ci8 in ((INT16, 0), (COMPLEX64, 0)):
        mk = lambda pfb=False: K01.case(typ, ci8, 9, 2, 2, 1, pfb=pfb)
        n = 4 if typ == INT16 else 2
        for mode in ('raises', 'short', 'long', 'deep'):
            out.append(with_args(mk(), f"window {mode}", a7=Win('w', n, mode=mode)))
        for p in (False, True):
            for L in (0, -1, -2**31):
                out.append(with_args(mk(p), f"LFFT={L}", a3=L))
            for ov in (0, -1):
                out.append(with_args(mk(p), f"overlap={ov}", a4=ov))
            out.append(with_args(mk(p), "3 frequencies", a1=Arr('f', [3], FLOAT64)))
            out.append(with_args(mk(p), "3 delays", a2=Arr('d', [3, 2], FLOAT64)))
            out.append(with_args(mk(p), "delays for 3 channels", a2=Arr('d', [2, 3], FLOAT64)))
            out.append(with_args(mk(p), "flags as data", a0=Arr('x', [2, 9], BOOL)))
            out.append(with_args(mk(p), "1-D data", a0=Arr('x', [9], typ)))
    for x in out:
        if x.refuse:
            x.pre, x.lround = (lambda K, st: None), (0, 0)
    return out


def pcase(thorough, stokes):
    """Spectrometers."""
    out = []
    for typ, ci8 in ((INT16, 0), (FLOAT64, 0), (INT8, 1), (COMPLEX64, 0), (COMPLEX128, 0)):
        out.append(K03.case(typ, ci8, 7, 3, 2, 1, window=True, stokes=stokes))
        out.append(K03.case(typ, ci8, 7, 3, 3 if typ == COMPLEX64 else 2, 2, pfb=True, stokes=stokes))
    out.append(K03.case(COMPLEX64, 0, 2, 2, 2, 1, clip=5, stokes=stokes))
    out.append(K03.case(INT16, 0, 2, 2, 1, 1, clip=5, stokes=stokes))
    k = 2 if stokes else 1
    for typ in (INT16, COMPLEX64):
        mk = lambda pfb=False: K03.case(typ, 0, 9, 2, 2, 1, pfb=pfb, stokes=stokes)
        n = 4 if typ == INT16 else 2
        for mode in ('raises', 'short', 'long', 'deep'):
            out.append(with_args(mk(), f"window {mode}", **{f"a{k+3}": Win('w', n, mode=mode)}))
        for p in (False, True):
            for L in (0, -1, -2**31):
                out.append(with_args(mk(p), f"LFFT={L}", **{f"a{k}": L}))
            for ov in (0, -1):
                out.append(with_args(mk(p), f"overlap={ov}", **{f"a{k+1}": ov}))
            out.append(with_args(mk(p), "flags as data", **{f"a{j}": Arr('xy'[j], [2, 9], BOOL) for j in range(k)}))
            out.append(with_args(mk(p), "1-D data", **{f"a{j}": Arr('xy'[j], [9], typ) for j in range(k)}))
    return out


def xcase(thorough, kinds):
    out = []
    for kind in kinds:
        for typ in ((INT8, COMPLEX64, COMPLEX128) if kind != 'S' else (COMPLEX64, COMPLEX128)):
            out.append(K02.case(typ, 3, 2, 2, kind))
            if thorough:
                out.append(K02.case(typ, 5, 2, 2, kind))
        ok3, ok2 = [2, 2, 2], [2, 2]
        for d, v in (((ok3, [2, 2, 3]), (ok2, ok2)), ((ok3, ok3), ([2, 1], ok2)), ((ok3, ok3), (ok2, [3, 2]))):
            out.append(K02.mismatch(COMPLEX64, kind, d, v))
        c = K02.case(COMPLEX64, 2, 2, 2, kind)
        out.append(with_args(c, "flags as data", a0=Arr('a', [2, 2, 2], BOOL), a1=Arr('b', [2, 2, 2], BOOL)))
    return out


def bcase(thorough):
    out = [K05.case(typ, ci8, COMPLEX64, 3, 3, 3) for typ, ci8 in ((INT8, 0), (FLOAT32, 0), (INT8, 1), (COMPLEX64, 0), (COMPLEX128, 0))]
    out.append(K05.mismatch([2, 2], [3, 2, 2], 2, 2))
    out.append(K05.mismatch([2, 2], [2, 2, 2], 3, 2))
    out.append(K05.mismatch([2, 2], [2, 2, 2], 2, 3))
    out.append(with_args(K05.case(COMPLEX64, 0, COMPLEX64, 2, 2, 2), "flags as data", a1=Arr('x', [2, 2, 2], BOOL)))
    return out


def gcase(thorough):
    out = [K07.case(COMPLEX64, 4.0, 0.5, 0.1, [0.3, -1.2, 0.7], [0.0, 1.1, -0.45], [0.0, 0.3, 2.0]),
           K07.case(COMPLEX128, 4.0, 0.5, 0.1, [0.3, -1.2], [0.0, 1.1], [0.0, 0.3])]
    out += [K07.mismatch(k) for k in range(5)]
    return out


class Audit(Bench):
    def __init__(self, *a):
        super().__init__(*a, omp=True)
        K = self.K
        K.ex.stubs.update(omp.stubs(K))
        K.ex.watch = omp.watch
        self.before = pyapi.check_refs(K.ex, K.mod.base, {})

    def env(self, case, o):
        ctx = SymCtx(self.K, case, o, [])
        return self.concretise(case, o, ctx, [], n=1)

    def leaks(self, case, o, bad):
        """Repeat the call and look at the memory still held."""
        env = self.env(case, o)
        a = {'module': self.module, 'method': case.method, 'args': real_args(case.args, env)}
        data = {'call': f"{self.module}.{case.method}", 'case': case.label, 'args': a['args'], 'why': [b[:2] for b in bad]}
        if o.env.get('failed_alloc'):
            data['observed'] = f"allocation {o.env['failed_alloc']} of the call fails"
        else:
            rc, out, err = realtree.run_py(LEAK, (self.ext,), a, env={'PYTHONMALLOC': 'malloc'})
            if rc < 0 or (rc and 'Fatal' in err):
                data['observed'] = f"process ended with {rc}: {err[-500:]}"
            elif out is None or (all(b[0] == 'leak' for b in bad) and out['per_call'] < 16):
                return False
            else:
                data['observed'] = f"{out['per_call']:.0f} bytes are not released per call"
        self.c.violation(f"{case.method} ({case.label}): {', '.join(sorted({' '.join(b[:2]) for b in bad}))}"
                         f"{' when out of memory' if o.env.get('failed_alloc') else ''}", case.key, data)
        return True

    def raced(self, case, o, fn, r):
        env = self.env(case, o)
        a = {'module': self.module, 'method': case.method, 'args': real_args(case.args, env), 'before': []}
        seen = []
        for n in ('1', '8', '8', '8', '8'):
            rc, out, err = realtree.run_py(REPLAY, (self.ext,), a, env={'OMP_NUM_THREADS': n})
            seen.append(out if rc == 0 else rc)
        data = {'call': f"{self.module}.{case.method}", 'case': case.label, 'args': a['args'], 'race': r,
                'observed': 'results differ between runs with one and eight threads' if any(s != seen[0] for s in seen)
                else 'a schedule that shows it did not come up in four runs of eight threads'}
        self.c.violation(f"{case.method} ({case.label}): iterations {r['iterations']} of a parallel loop {' and '.join(r['accesses'])} byte {r['byte']} of {r['object']} unordered",
                         case.key, data)

    def run(self, case, nomem=False):
        K, c = self.K, self.c
        self.reset()
        AT.flags = {nm for nm, a in names(case) if isinstance(a, Arr) and a.flag}
        st = K.mod.base.clone()
        st.env['heap'] = []
        if nomem:
            st.env.update(nomem=True, nomem_kinds={'array'})
        args = self.build(st, case.args)
        st.env['lround_lo'], st.env['lround_hi'] = case.lround
        if case.pre:
            case.pre(K, st)
        n0 = K.ex.instr_count
        t0 = time.time()
        outs = K.mod.call(st, case.method, args)
        c.func(*[f for f in K.ex.entered if not f.startswith('llvm.')])
        where = f"{case.method} ({case.label})"
        regions = queries = returned = refused = 0
        for o in outs:
            if o.unsup is not None:
                c.open(f"{where}: {o.unsup}")
                continue
            failed = o.env.get('failed_alloc')
            if o.fault is not None:
                env = self.env(case, o)
                if failed:
                    c.violation(f"{where}: allocation {failed} fails: {o.fault}", case.key, {'case': case.label, 'fault': str(o.fault), 'allocation': failed})
                elif env is None or not (self.replay(case, env, str(o.fault), asan=True) or self.replay(case, env, str(o.fault))):
                    c.open(f"{where}: {o.fault} (not reproduced)")
                continue
            bad = [d for d in pyapi.check_refs(K.ex, o, {K.mod.argtuple.obj: 1}) if d not in self.before]
            if bad and not self.leaks(case, o, bad):
                c.open(f"{where}: {bad[0][:2]} (not reproduced)")
            null = not isinstance(o.ret, kern.Ptr)
            if null != (o.err is not None) or (not null and (case.refuse or failed)):
                if failed:
                    c.violation(f"{where}: returns {'NULL without an exception' if null else 'a result'} although allocation {failed} failed", case.key,
                                {'case': case.label, 'allocation': failed})
                else:
                    env = self.env(case, o)
                    if not self.replay(case, env, 'not refused', asan=True) and not self.replay(case, env, 'not refused'):
                        c.open(f"{where}: error {o.err} with {'NULL' if null else 'a result'} (not reproduced)")
            refused += null
            returned += not null
            rs, q = omp.races(o)
            queries += q
            regions += len(o.env.get('races', ()))
            for fn, obj, r in rs[:1]:
                self.raced(case, o, fn, r)
        if not outs or (not case.refuse and not returned and not c.violations):
            c.open(f"{where}: no path returns")
        for k, v in (('instructions_executed', K.ex.instr_count - n0), ('paths', len(outs)), ('parallel_regions', regions), ('race_queries', queries)):
            c.extra[k] = c.extra.get(k, 0) + v
        c.ob(f"{case.method}: {case.label}{', allocation failures' if nomem else ''}", n=len(outs), regions=regions, refused=refused, seconds=round(time.time()-t0, 2))
        return regions


def body(c):
    th = common.thorough()
    D = 'lsl/correlator/'
    mods = [(['lsl/correlator/core.cpp'], '_core', 'lsl.correlator._core', D+'_core', fcase(th)+xcase(th, (2, 3))),
            (['lsl/correlator/spec.cpp'], '_spec', 'lsl.correlator._spec', D+'_spec', pcase(th, False)),
            (['lsl/correlator/stokes.cpp'], '_stokes', 'lsl.correlator._stokes', D+'_stokes', pcase(th, True)+xcase(th, ('S',))),
            (['lsl/misc/beamformer.cpp'], '_beamformer', 'lsl.misc._beamformer', 'lsl/misc/_beamformer', bcase(th)),
            (['lsl/imaging/gridder.cpp'], '_gridder', 'lsl.imaging._gridder', 'lsl/imaging/_gridder', gcase(th))]
    c.bounds += ["samples, flags, windows, delays and frequencies are symbols; 2-5 inputs, 1-3 channels, up to 13 samples",
                 "teams of 40 threads, every iteration of a parallel loop on a thread of its own (each ordering of any two iterations)",
                 "one failed array allocation, at any of a call's allocations"]
    c.stubs += ["OpenMP runtime (loops, critical sections, barriers) by its specification", "CPython reference counts, GIL and NumPy arrays modelled"]
    c.outside += ["failures of scratch allocations", "two Python threads inside the FFTW planner", "8-bit arrays whose last axis is not a pair", "signals during a call"]
    jobs = []
    for files, name, module, ext, cs in mods:
        todo = [(x, False) for x in cs] + [(x, True) for x in cs if not x.refuse and "clip" not in x.label]
        b = Audit(c, files, name, module, ext)
        jobs += [(lambda c, b=b, x=x, nm=nm: b.run(x, nm)) for x, nm in todo]
    common.parallel(c, jobs)
    if not c.violations:
        c.reach('a parallel region was executed', c.extra.get('parallel_regions', 0) > 0)
        c.reach('conflicting accesses were put to the solver', c.extra.get('race_queries', 0) > 0)


if __name__ == '__main__':
    common.run('K06', "symbolic execution of the LLVM IR of the kernels with OpenMP; races, faults and leaks on every path", body)
