"""Shared harness of the kernel checks: a case gives symbolic arrays to a
kernel of a C extension, runs it on every path and compares what it returns
with an oracle; differences are made concrete and replayed on the compiled
module."""

import math
import os
import random
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import bv, common, kern, pyapi, realtree, solve
from engine.bv import E
from engine.irexec import Unsupported
from engine.kern import AT, Cx, P, lift
from engine.pyapi import (BOOL, COMPLEX128, COMPLEX64, FLOAT32, FLOAT64, INT16, INT32, INT64, INT8, UINT8)

NP = {BOOL: 'bool', INT8: 'int8', UINT8: 'uint8', INT16: 'int16', INT32: 'int32', INT64: 'int64', FLOAT32: 'float32',
      FLOAT64: 'float64', COMPLEX64: 'complex64', COMPLEX128: 'complex128'}
CPLX = (COMPLEX64, COMPLEX128)
FLT = {FLOAT32: 'f32', FLOAT64: 'f64'}
REPLAY = '''
import importlib, numpy as np
mod = importlib.import_module(ARGS['module'])
def build(spec):
  args = []
  for a in spec:
      if a['kind'] == 'array':
          v = np.array(a['data'], dtype=np.float64 if a['dtype'] not in ('int64', 'int32') else np.int64)
          if a['dtype'].startswith('complex'):
              v = v[0::2] + 1j*v[1::2]
          args.append(np.ascontiguousarray(v.astype(a['dtype']).reshape(a['dims'])))
      elif a['kind'] == 'window':
          w = np.array(a['data'], dtype=np.float64)
          def win(n, w=w, mode=a.get('mode', '')):
              if mode == 'raises':
                  raise ArithmeticError('window')
              if mode == 'deep':
                  return np.ones((1, n))
              return np.ones(n + {'short': -1, 'long': 1}[mode]) if mode else w[:n].copy()
          args.append(win)
      elif a['kind'] == 'none':
          args.append(None)
      else:
          args.append(a['value'])
  return args
args = build(ARGS['args'])
try:
    for m, spec in ARGS.get('before', []):
        with np.errstate(all='ignore'):
            getattr(mod, m)(*build(spec))
    with np.errstate(all='ignore'):
        r = getattr(mod, ARGS['method'])(*args)
    if not isinstance(r, tuple):
        r = (r,)
    out = []
    for v in r:
        v = np.asarray(v)
        f = v.reshape(-1)
        f = np.stack([f.real, f.imag], axis=-1).reshape(-1) if np.iscomplexobj(v) else f
        out.append([list(v.shape), [float(x) for x in f]])
    print(json.dumps({'ok': out}))
except Exception as e:
    print(json.dumps({'exc': type(e).__name__+': '+str(e)}))
'''


class Arr:
    def __init__(self, name, dims, typ, bound=None, flag=False, vals=None):
        self.name, self.dims, self.typ, self.bound, self.flag = name, list(dims), typ, bound, flag
        self.vals = vals           # concrete contents (floats; pairs for complex types)

    def elem(self):
        if self.vals is None:
            return None
        if self.typ in CPLX:
            f = 'f32' if self.typ == COMPLEX64 else 'f64'
            return lambda i, k: bv.fconst(float(self.vals[i][k]), f)
        if self.typ in FLT:
            return lambda i: bv.fconst(float(self.vals[i]), FLT[self.typ])
        w = 8*pyapi.ITEMSIZE[self.typ]
        return lambda i: self.vals[i] & bv.mask(w)

    def size(self):
        n = 1
        for d in self.dims:
            n *= d
        return n


class Win:
    """A window callable whose n coefficients are symbols."""
    def __init__(self, name, n, bound=1.0, mode=''):
        self.name, self.n, self.bound, self.mode = name, n, bound, mode


class Case:
    def __init__(self, label, method, args, oracle, pre=None, lround=(0, 0), key=None):
        self.label, self.method, self.args, self.oracle = label, method, args, oracle
        self.pre = pre
        self.lround = lround
        self.key = key or label
        self.refuse = False
        self.tol = 1e-3            # allowance of the replay, of the largest output
        self.before = []           # (method, args) called first, concrete


class Stop(Exception):
    """The inputs of this branch are outside the property."""


class SymCtx:
    """The oracle's view of the symbols under one path of the kernel."""

    def __init__(self, K, case, st, decisions):
        self.K, self.case, self.st = K, case, st
        self.pcs = [p for p in st.pc if kern.has_fcmp(p)]
        self.conds = []            # float conditions assumed (E)
        self.bconds = []           # flag conditions assumed
        self.script = list(decisions)
        self.taken = []
        self.zero = set()
        self.masked = {}
        self.known = {}
        self.forked = not AT.flags
        self.sym = True

    def decide(self, alts):
        """alts: [(label, E-cond, kind)] -> index chosen (feasible ones only)."""
        if len(self.taken) < len(self.script):
            k = self.script[len(self.taken)]
        else:
            k = None
            for i, (cond, flt) in enumerate(alts):
                if self.feas(cond, flt):
                    if k is None:
                        k = i
                    else:
                        self.pending.append(self.taken + [i])
            if k is None:
                raise Stop
        self.taken = self.taken + [k]
        cond, flt = alts[k]
        (self.conds if flt else self.bconds).append(cond)
        return k

    def feas(self, cond, flt):
        if not isinstance(cond, E):
            return bool(cond)
        if flt:
            return self.K.sat(self.pcs + [c for c in self.conds if isinstance(c, E)] + [cond])
        return solve.feasible([p for p in self.st.pc if not kern.has_fcmp(p)] + self.bconds, cond)

    # ------------------------------------------------------------ accessors
    def arr(self, name):
        return next(a for a in self.case.args if getattr(a, 'name', None) == name)

    def e(self, name, i):
        a = self.arr(name)
        return bv.fvar(f"{name}{i}", FLT[a.typ])

    def get(self, name, i):
        a = self.arr(name)
        if isinstance(a, Win):
            return P.of(AT.var(f"{name}{i}", 'real', None, a.bound))
        if a.typ in CPLX:
            return Cx(P.of(AT.var(f"{name}{i}re")), P.of(AT.var(f"{name}{i}im")))
        if a.typ in FLT:
            return P.of(AT.var(f"{name}{i}"))
        w = 8*pyapi.ITEMSIZE[a.typ]
        return self.K.tp.intvar(bv.var(f"{name}{i}", w), a.typ != UINT8)

    def flag(self, name, i):
        if (name, i) in self.known:
            return self.known[name, i]
        v = bv.var(f"{name}{i}", 8)
        z = bv.icmp('eq', 8, v, 0)
        self.known[name, i] = r = self.decide([(bv.bnot(z), False), (z, False)]) == 0
        return r

    def fl(self, name, i):
        """A flag as a number."""
        if self.forked:
            return 1.0 if self.flag(name, i) else 0.0
        return P.of(AT.var(f"{name}{i}", 'int', (bv.var(f"{name}{i}", 8), False), 1.0))

    def blank(self, name, i, fname, j):
        """The sample is zero unless the flag is set."""
        if self.forked:
            if not self.flag(fname, j):
                self.kill(name, i)
            return
        for s in ('', 're', 'im'):
            self.masked[f"{name}{i}{s}"] = f"{fname}{j}"

    def some(self, flags):
        """At least one of the products of flags [(name, i), (name, j)] is set."""
        if self.forked:
            if not any(all(self.flag(n, i) for n, i in p) for p in flags):
                raise Stop
            return
        e = 0
        for p in flags:
            t = 1
            for n, i in p:
                t = bv.band(t, bv.icmp('eq', 8, bv.var(f"{n}{i}", 8), 1))
            e = bv.bor(e, t)
        if e == 0 or not self.feas(e, False):
            raise Stop
        if isinstance(e, E):
            self.bconds.append(e)

    def any(self, flags):
        if self.forked:
            return any([self.flag(n, i) for n, i in flags])
        e = 0
        for n, i in flags:
            e = bv.bor(e, bv.icmp('eq', 8, bv.var(f"{n}{i}", 8), 1))
        return self.decide([(e, False), (bv.bnot(e), False)]) == 0

    def kill(self, name, i):
        """The sample is zero on this branch."""
        self.zero |= {f"{name}{i}", f"{name}{i}re", f"{name}{i}im"}

    def rnd(self, p, lo, hi):
        """Nearest integer of a polynomial (ties either way)."""
        e = self.expr(p)
        alts = []
        for k in range(lo, hi+1):
            alts.append((bv.band(bv.mk('fcmp_ogt', 1, (e, bv.fconst(k-0.5, 'f64'))), bv.mk('fcmp_olt', 1, (e, bv.fconst(k+0.5, 'f64')))), True))
        return lo + self.decide(alts)

    def expr(self, p):
        """An E term for a polynomial (only to state a comparison)."""
        p = lift(p)
        n = f"pol{len(self.K.tp.memo)}_{id(p)}"
        e = bv.mk('polyref', 64, (n,), 'f64')
        self.K.tp.memo[e.id] = p
        self.K.keep.append(p)
        return e

    def atleast(self, s, c):
        """|sample| >= c for a real or complex sample; samples that do not
        depend on symbols are decided directly."""
        if isinstance(s, Cx):
            re, im = lift(s.re), lift(s.im)
            if re.is_const() and im.is_const():
                return math.hypot(re.cval(), im.cval()) >= c
            n = AT.var(f"cabs{re.key()!r}{im.key()!r}", 'cabs', (re, im), math.hypot(re.size(), im.size()))
        else:
            p = lift(s)
            if p.is_const():
                return abs(p.cval()) >= c
            n = AT.var(f"fabs{sorted([p.key(), (-p).key()])[0]!r}", 'fabs', p, p.size())
        e = self.expr(P.of(n))
        k = bv.fconst(float(c), 'f64')
        return self.decide([(bv.mk('fcmp_oge', 1, (e, k)), True), (bv.mk('fcmp_olt', 1, (e, k)), True)]) == 0


class RealCtx:
    """The same oracle on concrete samples."""
    sym = False

    def __init__(self, case, env):
        self.case, self.env = case, env

    def arr(self, name):
        return next(a for a in self.case.args if getattr(a, 'name', None) == name)

    def get(self, name, i):
        a = self.arr(name)
        if not isinstance(a, Win) and a.typ in CPLX:
            return Cx(self.env[f"{name}{i}re"], self.env[f"{name}{i}im"])
        return self.env[f"{name}{i}"]

    def flag(self, name, i):
        return self.env[f"{name}{i}"] != 0

    def kill(self, name, i):
        pass

    def any(self, flags):
        return any(self.env[f"{n}{i}"] for n, i in flags)

    def fl(self, name, i):
        return float(self.env[f"{name}{i}"])

    def blank(self, name, i, fname, j):
        if not self.env[f"{fname}{j}"]:
            for s in ('', 're', 'im'):
                if f"{name}{i}{s}" in self.env:
                    self.env[f"{name}{i}{s}"] = 0

    def some(self, flags):
        if not any(all(self.env[f"{n}{i}"] for n, i in p) for p in flags):
            raise Stop

    def rnd(self, x, lo, hi):
        return math.floor(abs(x)+0.5)*(1 if x >= 0 else -1)

    def atleast(self, s, c):
        return (math.hypot(s.re, s.im) if isinstance(s, Cx) else abs(s)) >= c


def names(case):
    for a in case.args:
        if isinstance(a, Arr):
            if a.vals is not None:
                continue
            for i in range(a.size()):
                if a.typ in CPLX:
                    yield f"{a.name}{i}re", a
                    yield f"{a.name}{i}im", a
                else:
                    yield f"{a.name}{i}", a
        elif isinstance(a, Win):
            for i in range(a.n):
                yield f"{a.name}{i}", a


def randval(rng, a):
    if isinstance(a, Win):
        return rng.uniform(0.2, 1)*a.bound*rng.choice([-1, 1])
    if a.flag:
        return rng.choice([0, 1])
    if a.typ in (INT8, UINT8):
        return rng.randint(-100 if a.typ == INT8 else 0, 100)
    if a.typ in (INT16, INT32, INT64):
        return rng.randint(-1000, 1000)
    b = a.bound or 16.0
    return round(rng.uniform(-b, b)*1024)/1024


def real_args(args, env):
    out = []
    for a in args:
        if isinstance(a, Arr) and a.vals is not None:
            out.append({'kind': 'array', 'dims': a.dims, 'dtype': NP[a.typ], 'data': [x for v in a.vals for x in v] if a.typ in CPLX else list(a.vals)})
        elif isinstance(a, Arr):
            d = []
            for i in range(a.size()):
                d += [env[f"{a.name}{i}re"], env[f"{a.name}{i}im"]] if a.typ in CPLX else [env[f"{a.name}{i}"]]
            out.append({'kind': 'array', 'dims': a.dims, 'dtype': NP[a.typ], 'data': d})
        elif isinstance(a, Win):
            out.append({'kind': 'window', 'mode': a.mode, 'data': [env[f"{a.name}{i}"] for i in range(a.n)]})
        elif a is None:
            out.append({'kind': 'none'})
        else:
            out.append({'kind': 'value', 'value': a})
    return out


class Bench:
    def __init__(self, c, files, name, module, ext, omp=False):
        self.c, self.files, self.name, self.module, self.ext = c, files, name, module, ext
        self.K = kern.Kernel(files, name, omp=omp)
        self.K.keep = []
        self.rng = random.Random(common.SEED)

    def reset(self):
        AT.__init__()
        self.K.tp.memo.clear()
        self.K.cache.clear()

    # -------------------------------------------------------------- replay
    def expected(self, case, env):
        try:
            return case.oracle(RealCtx(case, env))
        except Stop:
            return None

    def replay(self, case, env, why, asan=False):
        """Run the compiled kernel; True if it disagrees with the oracle (the
        violation is then recorded)."""
        want = None if case.refuse else self.expected(case, env)
        if want is None and not asan and not case.refuse:
            return False
        a = {'module': self.module, 'method': case.method, 'args': real_args(case.args, env), 'before': [(m, real_args(x, {})) for m, x in case.before]}
        rc, out, err = realtree.run_py(REPLAY, (self.ext,), a, asan=asan)
        data = {'call': f"{self.module}.{case.method}", 'case': case.label, 'args': a['args'], 'before': a['before'], 'why': why}
        if rc != 0 or out is None:
            if 'AddressSanitizer' not in err and rc == 1:
                return False
            data['observed'] = f"process ended with {rc}: {err[-600:]}"
            line = next((x for x in err.splitlines() if 'AddressSanitizer' in x), f"exit status {rc}")
            self.c.violation(f"{case.method} ({case.label}): {why}: {line.strip()}", case.key, data)
            return True
        if case.refuse:
            if 'exc' in out:
                return False
            data['observed'] = out['ok']
            self.c.violation(f"{case.method} ({case.label}): accepted", case.key, data)
            return True
        if want is None:
            return False
        if 'exc' in out:
            data['observed'] = out['exc']
            self.c.violation(f"{case.method} ({case.label}): raised {out['exc']}", case.key, data)
            return True
        for n, ((dims, vals), (gd, gv)) in enumerate(zip(want, out['ok'])):
            if list(dims) != gd:
                data['observed'], data['expected'] = gd, list(dims)
                self.c.violation(f"{case.method} ({case.label}): output {n} has shape {gd} instead of {list(dims)}", case.key, data)
                return True
            flat = []
            for v in vals:
                flat += [v.re, v.im] if isinstance(v, Cx) else [v]
            flat = [float(x) for x in flat]
            sc = max([1e-6] + [abs(x) for x in flat])
            for i, (x, y) in enumerate(zip(flat, gv)):
                if not abs(x-y) <= case.tol*sc:
                    data['observed'], data['expected'] = gv[:64], flat[:64]
                    self.c.violation(f"{case.method} ({case.label}): output {n}, value {i} is {y:g} instead of {x:g}", case.key, data)
                    return True
        return False

    def concretise(self, case, st, ctx, D, n=200):
        """Samples on this path at which the outputs differ most."""
        conds = ctx.pcs + [c for c in ctx.conds if isinstance(c, E)]
        m = self.K.sat(conds, want_model=True, full=True)
        if m is None:
            return None
        model, R = m
        fixed = {}
        for nm, v in list(R.vars.items()):
            if AT.info[nm][0] in ('real', 'int'):
                x = model.eval(v, model_completion=True)
                try:
                    fixed[nm] = float(x.as_fraction())
                except AttributeError:
                    fixed[nm] = float(x.approx(20).as_fraction())
        bpc = [p for p in st.pc if not kern.has_fcmp(p)] + ctx.bconds
        ok, bm = solve.check_sat(bpc) if bpc else (True, {})
        bm0 = bm or {}
        best = None
        for t in range(n):
            env = {}
            bmx = dict(bm0)
            if t and not ctx.forked:
                # other flags that satisfy the same conditions
                for nm, a in names(case):
                    if isinstance(a, Arr) and a.flag:
                        bmx[nm] = self.rng.choice([0, 1, 1])
                if not all(solve.evaluate(p, bmx) for p in bpc if isinstance(p, E)):
                    continue
            for nm, a in names(case):
                if nm in ctx.zero:
                    env[nm] = 0
                elif nm in fixed:
                    env[nm] = fixed[nm]
                elif nm in bmx:
                    v = bmx[nm]
                    env[nm] = v if not isinstance(a, Arr) or a.typ == UINT8 else bv.sgn(v, 8*pyapi.ITEMSIZE[a.typ])
                elif isinstance(a, Arr) and a.flag:
                    env[nm] = 1
                else:
                    env[nm] = randval(self.rng, a)
            for nm, f in ctx.masked.items():
                if nm in env and not env[f]:
                    env[nm] = 0
            try:
                s = max([abs(kern.peval(d, env)) for d in D] + [0.0]) if D else 1.0
            except ZeroDivisionError:
                s = 1e30
            if best is None or s > best[0]:
                best = (s, env)
        return best[1]

    def probe(self, case, why, tries=6):
        """Try a few inputs on the real code for a path left undecided."""
        for _ in range(tries):
            env = {nm: randval(self.rng, a) for nm, a in names(case)}
            if case.pre:
                case.fix_env(env) if hasattr(case, 'fix_env') else None
            try:
                if self.replay(case, env, why):
                    return True
            except Exception:
                pass
        return False

    def build(self, st, spec):
        K, args = self.K, []
        for a in spec:
            if isinstance(a, Arr):
                args.append(K.array(st, a.dims, a.typ, a.name, elem=a.elem(), bound=a.bound))
                if a.flag and a.vals is None:
                    for i in range(a.size()):
                        st.pc.append(bv.icmp('ult', 8, bv.var(f"{a.name}{i}", 8), 2))
            elif isinstance(a, Win):
                args.append(K.window(st, a.name, a.bound, a.mode))
            elif a is None:
                args.append(K.none())
            elif isinstance(a, float):
                args.append(bv.fconst(a, 'f64'))
            else:
                args.append(a & bv.mask(66))
        return args

    # ----------------------------------------------------------------- run
    def run(self, case, forked=False):
        K, c = self.K, self.c
        self.reset()
        if not forked:
            AT.flags = {nm for nm, a in names(case) if isinstance(a, Arr) and a.flag}
        st = K.mod.base.clone()
        for m, spec in case.before:
            outs = K.mod.call(st, m, self.build(st, spec))
            if len(outs) != 1 or outs[0].fault or outs[0].unsup or outs[0].err:
                o = outs[0]
                c.open(f"{case.method} ({case.label}): earlier call {m}: {o.fault or o.unsup or o.err}")
                return
            st = outs[0]
            st.ret = None
        args = self.build(st, case.args)
        st.env['lround_lo'], st.env['lround_hi'] = case.lround
        if case.pre:
            case.pre(K, st)
        n0 = K.ex.instr_count
        t0 = time.time()
        outs = K.mod.call(st, case.method, args)
        c.func(*[f for f in K.ex.entered if not f.startswith('llvm.')])
        pairs = 0
        for o in outs:
            if o.unsup is not None:
                if not self.probe(case, f"path left undecided: {o.unsup}"):
                    c.open(f"{case.method} ({case.label}): {o.unsup}")
                continue
            if o.fault is not None:
                ctx = SymCtx(K, case, o, [])
                env = self.concretise(case, o, ctx, [])
                if env is None or not (self.replay(case, env, str(o.fault), asan=True) or self.replay(case, env, str(o.fault))):
                    c.open(f"{case.method} ({case.label}): {o.fault} (not reproduced)")
                continue
            if case.refuse:
                pairs += 1
                if o.err is None:
                    ctx = SymCtx(K, case, o, [])
                    env = self.concretise(case, o, ctx, [])
                    if env is None or not (self.replay(case, env, 'not refused', asan=True) or self.replay(case, env, 'not refused')):
                        c.open(f"{case.method} ({case.label}): not refused (not reproduced)")
                continue
            n = self.compare(case, o)
            if n is None:
                return self.run(case, forked=True)
            pairs += n
        if not pairs and not c.violations:
            c.open(f"{case.method} ({case.label}): nothing was compared")
        c.extra['instructions_executed'] = c.extra.get('instructions_executed', 0) + K.ex.instr_count - n0
        c.extra['paths'] = c.extra.get('paths', 0) + len(outs)
        c.ob(f"{case.method}: {case.label}", n=max(pairs, 1), paths=len(outs), seconds=round(time.time()-t0, 2))

    def compare(self, case, o):
        K, c = self.K, self.c
        work = [[]]
        total = 0
        while work:
            script = work.pop()
            ctx = SymCtx(K, case, o, script)
            ctx.pending = []
            try:
                want = case.oracle(ctx)
            except Stop:
                work += ctx.pending
                continue
            work += ctx.pending
            if o.err is not None or not isinstance(o.ret, kern.Ptr):
                env = self.concretise(case, o, ctx, [])
                if env is None or not self.replay(case, env, f"error {o.err}"):
                    c.open(f"{case.method} ({case.label}): error {o.err} (not reproduced)")
                continue
            m = o.mem[o.ret.obj]
            items = m.meta['items'] if m.meta['py'] == 'tuple' else [o.ret]
            try:
                got = [K.read(o, p) for p in items]
            except (Unsupported, ZeroDivisionError) as e:
                if not self.probe(case, str(e)):
                    c.open(f"{case.method} ({case.label}): {e}")
                continue
            bad = None
            if [list(d) for d, _ in got] != [list(d) for d, _ in want]:
                bad = (f"shape {[d for d, _ in got]} instead of {[list(d) for d, _ in want]}", [])
            else:
                prs = []
                for (_, gv), (_, wv) in zip(got, want):
                    for g, w in zip(gv, wv):
                        if isinstance(w, Cx):
                            prs += [(g.re, w.re), (g.im, w.im)]
                        elif isinstance(g, E):
                            prs.append((K.tp.intvar(g, False), w))
                        else:
                            prs.append((g, w))
                if ctx.zero:
                    prs = [(self.drop(g, ctx.zero), self.drop(w, ctx.zero)) for g, w in prs]
                if ctx.masked:
                    prs = [(self.mask(g, ctx.masked), self.mask(w, ctx.masked)) for g, w in prs]
                total += len(prs)
                i = kern.differ(K, (), prs)
                if i is not None:
                    bad = (f"value {i} differs", [lift(g)-lift(w) for g, w in prs])
            if bad is not None:
                env = self.concretise(case, o, ctx, bad[1])
                if env is None:
                    continue
                if not self.replay(case, env, bad[0]):
                    if not ctx.forked:
                        return None      # decide it flag by flag
                    c.open(f"{case.method} ({case.label}): {bad[0]} (not reproduced)")
        return total

    @staticmethod
    def mask(p, m):
        out = P()
        for (t, vs), v in lift(p).d.items():
            fl = sorted({m[n] for n in vs if n in m})
            k = (t, kern.idem(tuple(sorted(vs + tuple(fl)))))
            out.d[k] = out.d.get(k, 0.0) + v
        out.d = {k: v for k, v in out.d.items() if v != 0.0}
        return out

    @staticmethod
    def drop(p, zero):
        p = lift(p)
        return P({k: v for k, v in p.d.items() if not any(n in zero for n in k[1])})
