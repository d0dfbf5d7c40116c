"""
Numeric kernels (F-engine, X-engine, PSD, Stokes, beamformer) on the IR
executor.

The samples, window coefficients, frequencies, delays and validity flags are
symbols.  Floating-point operations are read as operations on the reals: every
value the kernel stores becomes a polynomial (with sines and cosines of
polynomials as further atoms, products of which are rewritten to sums), and so
does the value the property prescribes; the solver is asked for samples within
the bounds where the two differ by more than the rounding allowance.  Branches
on sample values fork the path and their feasibility is decided over the reals.
"""

import math
import sys
import time
import zlib

from . import bv, solve, irexec, pyapi, cmod, common
from .bv import E
from .irexec import Ptr, FnPtr, Forks, Unsupported, Fault
from .solve import z3

sys.setrecursionlimit(200000)
TOL = 2e-5


# ------------------------------------------------------------- polynomials
class Atoms:
    """Variables of the polynomials: name -> (kind, data, bound)."""

    def __init__(self):
        self.info = {}
        self.order = {}
        self.theta = {}
        self.bound = {}
        self.flags = set()        # names of 0/1 values: x*x = x
        self.nonneg = set()       # names of values assumed not to be negative

    def var(self, name, kind='real', data=None, bound=None):
        if name not in self.info:
            self.info[name] = (kind, data)
            self.order[name] = len(self.order)
            self.bound[name] = 1.0 if bound is None else float(bound)
        return name


AT = Atoms()


class P:
    """Polynomial: {(trig, vars): coefficient}; trig is None or ('c'|'s', key)."""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    @staticmethod
    def const(c):
        return P({(None, ()): float(c)} if c != 0 else {})

    @staticmethod
    def of(name):
        return P({(None, (name,)): 1.0})

    def is_const(self):
        return not self.d or (len(self.d) == 1 and (None, ()) in self.d)

    def cval(self):
        return self.d.get((None, ()), 0.0)

    def __add__(self, o):
        o = lift(o)
        r = dict(self.d)
        for k, v in o.d.items():
            s = r.get(k, 0.0) + v
            if s == 0.0:
                r.pop(k, None)
            else:
                r[k] = s
        return P(r)
    __radd__ = __add__

    def __neg__(self):
        return P({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        if isinstance(o, (int, float)):
            return P({k: v*o for k, v in self.d.items()}) if o else P()
        o = lift(o)
        if o.is_const():
            return self * o.cval()
        if self.is_const():
            return o * self.cval()
        r = {}
        for (t1, v1), c1 in self.d.items():
            for (t2, v2), c2 in o.d.items():
                vs = tuple(sorted(v1+v2))
                if AT.flags and v1 and v2:
                    vs = idem(vs)
                c = c1*c2
                if t1 is None or t2 is None:
                    k = (t1 or t2, vs)
                    r[k] = r.get(k, 0.0) + c
                else:
                    for t, f in trigprod(t1, t2):
                        k = (t, vs)
                        r[k] = r.get(k, 0.0) + c*f
        return P({k: v for k, v in r.items() if v != 0.0})
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if not o.is_const():
            return self * inverse(o)
        if o.cval() == 0:
            raise ZeroDivisionError
        return self * (1.0/o.cval())

    def key(self):
        return tuple(sorted(((k, float(f"{v:.9g}")) for k, v in self.d.items() if abs(v) > 1e-300), key=repr))

    def size(self):
        """Sum of |coefficient| * bound of the monomial."""
        return sum(abs(v)*mbound(k) for k, v in self.d.items())


def idem(vs):
    out = []
    for n in vs:
        if out and out[-1] == n and n in AT.flags:
            continue
        out.append(n)
    return tuple(out)


def inverse(d):
    n = f"1/({zlib.crc32(repr(d.key()).encode()):x})"
    AT.var(n, 'inv', d, bound=1.0)
    return P.of(n)


def mbound(k):
    b = 1.0
    for n in k[1]:
        b *= AT.bound[n]
    return b


def lift(x):
    return x if isinstance(x, P) else P.const(x)


def _theta(p):
    """(key, sign) of an angle; None for a constant."""
    key = p.key()
    neg = bool(key) and key[0][1] < 0
    if neg:
        p = -p
        key = p.key()
    AT.theta.setdefault(key, p)
    return key, -1.0 if neg else 1.0


def cos(p):
    if isinstance(p, (int, float)):
        return math.cos(p)
    if p.is_const():
        return P.const(math.cos(p.cval()))
    k, s = _theta(p)
    return P({(('c', k), ()): 1.0})


def sin(p):
    if isinstance(p, (int, float)):
        return math.sin(p)
    if p.is_const():
        return P.const(math.sin(p.cval()))
    k, s = _theta(p)
    return P({(('s', k), ()): s})


def trigprod(a, b):
    """cos/sin product as a sum: [(trig, factor)]."""
    (ka, ta), (kb, tb) = a, b
    x, y = AT.theta[ta], AT.theta[tb]
    out = []

    def add(kind, p, f):
        if not p.key():
            if kind == 'c':
                out.append((None, f))
            return
        if p.is_const():
            out.append((None, f*(math.cos(p.cval()) if kind == 'c' else math.sin(p.cval()))))
            return
        k, s = _theta(p)
        out.append(((kind, k), f*(s if kind == 's' else 1.0)))
    if ka == 'c' and kb == 'c':
        add('c', clean(x-y), 0.5)
        add('c', clean(x+y), 0.5)
    elif ka == 's' and kb == 's':
        add('c', clean(x-y), 0.5)
        add('c', clean(x+y), -0.5)
    else:
        if ka == 'c':
            x, y = y, x
        add('s', clean(x+y), 0.5)      # sin x cos y
        add('s', clean(x-y), 0.5)
    return out


def clean(p):
    m = max([abs(v) for v in p.d.values()], default=0.0)
    return P({k: v for k, v in p.d.items() if abs(v) > 1e-11*m and abs(v) > 1e-18})


class Cx:
    """Complex number over P or floats, for the oracles."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im=0.0):
        self.re, self.im = re, im

    def __add__(self, o):
        o = o if isinstance(o, Cx) else Cx(o)
        return Cx(self.re+o.re, self.im+o.im)
    __radd__ = __add__

    def __sub__(self, o):
        return self + o*(-1.0)

    def __mul__(self, o):
        if not isinstance(o, Cx):
            return Cx(self.re*o, self.im*o)
        return Cx(self.re*o.re - self.im*o.im, self.re*o.im + self.im*o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Cx(self.re/o, self.im/o)

    def conj(self):
        return Cx(self.re, self.im*(-1.0))

    def abs2(self):
        return self.re*self.re + self.im*self.im


def expi(t):
    return Cx(cos(t), sin(t))


# ---------------------------------------------------- E terms -> polynomials
class ToPoly:
    def __init__(self):
        self.memo = {}

    def __call__(self, e):
        if isinstance(e, (int, float)):
            return P.const(e)
        r = self.memo.get(e.id)
        if r is None:
            r = self.conv(e)
            self.memo[e.id] = r
        return r

    def conv(self, e):
        op = e.op
        if op == 'fc':
            v = e.args[0]
            if v != v or v in (math.inf, -math.inf):
                raise Unsupported("a constant NaN or infinity")
            return P.const(v)
        if op == 'v':
            return P.of(AT.var(e.args[0]))
        a = e.args
        if op == 'fadd':
            return self(a[0]) + self(a[1])
        if op == 'fsub':
            return self(a[0]) - self(a[1])
        if op == 'fmul':
            return self(a[0]) * self(a[1])
        if op == 'fneg':
            return -self(a[0])
        if op == 'fdiv':
            d = self(a[1])
            if d.is_const():
                if d.cval() == 0:
                    raise Unsupported("division by zero in an output")
                return self(a[0]) / d
            return self(a[0]) * inverse(d)
        if op in ('fpext', 'fptrunc'):
            return self(a[0])
        if op in ('sitofp', 'uitofp'):
            return self.intvar(a[0], op == 'sitofp')
        if op == 'bits2f':
            return P.of(AT.var(f"bits{e.id}"))
        if op in ('cos', 'sin'):
            return (cos if op == 'cos' else sin)(self(a[0]))
        if op == 'fabs':
            p = self(a[0])
            if p.is_const():
                return P.const(abs(p.cval()))
            if AT.nonneg and all(t is None and set(vs) <= AT.nonneg and c >= 0 for (t, vs), c in p.d.items()):
                return p
            return P.of(AT.var(f"fabs{sorted([p.key(), (-p).key()])[0]!r}", 'fabs', p, p.size()))
        if op in ('cabs', 'hypot'):
            p, q = self(a[0]), self(a[1])
            if p.is_const() and q.is_const():
                return P.const(math.hypot(p.cval(), q.cval()))
            return P.of(AT.var(f"cabs{p.key()!r}{q.key()!r}", 'cabs', (p, q), math.hypot(p.size(), q.size())))
        if op == 'sqrt':
            p = self(a[0])
            if p.is_const():
                return P.const(math.sqrt(p.cval()))
            return P.of(AT.var(f"sqrt{p.key()!r}", 'sqrt', p, math.sqrt(p.size())))
        raise Unsupported(f"{op} of a symbolic value in an output")

    def intpoly(self, x, signed=False):
        """(polynomial, lowest, highest) of an integer computed from flags and
        samples without wrapping around, or None."""
        if not isinstance(x, E):
            v = x
            return P.const(v), v, v
        op, a = x.op, x.args
        if op == 'v':
            lo, hi = (0, 1) if a[0] in AT.flags else (-(1 << (x.w-1)), (1 << (x.w-1))-1) if signed else (0, (1 << x.w)-1)
            return P.of(AT.var(a[0], 'int', (x, signed), max(-lo, hi))), lo, hi
        if op == 'sext':
            return self.intpoly(a[0], True)
        if op == 'concat' and len(a) == 4 and a[0] == 0 and isinstance(a[2], E):
            r = self.intpoly(a[2], False)
            return r if r is not None and r[1] >= 0 else None
        if op in ('icmp_eq', 'bnot') and AT.flags:
            l = self.intpoly(a[0])
            if l is None or (l[1], l[2]) != (0, 1):
                return None
            if op == 'bnot':
                return 1-l[0], 0, 1
            if isinstance(a[1], E):
                return None
            if a[1] not in (0, 1):
                return P.const(0), 0, 1
            return (l[0] if a[1] == 1 else 1-l[0]), 0, 1
        if op == 'ite' and AT.flags:
            q, l, r = self.intpoly(a[0]), *(self.intpoly(y if isinstance(y, E) else bv.sgn(y, x.w), signed) for y in a[1:])
            if q is None or l is None or r is None:
                return None
            return q[0]*l[0] + (1-q[0])*r[0], min(l[1], r[1]), max(l[2], r[2])
        if op in ('add', 'sub', 'mul', 'and', 'or'):
            if op in ('and', 'or') and not AT.flags:
                return None
            l, r = (self.intpoly(y if isinstance(y, E) else bv.sgn(y, x.w), signed) for y in a[:2])
            if l is None or r is None:
                return None
            if op in ('and', 'or'):
                if (l[1], l[2], r[1], r[2]) != (0, 1, 0, 1):
                    return None
                return (l[0]*r[0] if op == 'and' else l[0]+r[0]-l[0]*r[0]), 0, 1
            if op == 'mul':
                c = [y*z for y in l[1:] for z in r[1:]]
                q = l[0]*r[0], min(c), max(c)
            elif op == 'add':
                q = l[0]+r[0], l[1]+r[1], l[2]+r[2]
            else:
                q = l[0]-r[0], l[1]-r[2], l[2]-r[1]
            return q if q[1] >= -(1 << (x.w-1)) and q[2] < (1 << (x.w-1)) else None
        return None

    def intvar(self, x, signed):
        if not isinstance(x, E):
            return P.const(x)
        f = self.intpoly(x, signed)
        if f is not None:
            return f[0]
        while True:
            if x.op == 'sext':
                x = x.args[0]
                signed = True
                continue
            if x.op == 'concat' and x.args[0] == 0 and len(x.args) == 4 and isinstance(x.args[2], E):
                x = x.args[2]
                signed = False
                continue
            break
        if x.op == 'v':
            n = f"{x.args[0]}"
        else:
            n = f"int{x.id}"
        b = 2.0**(x.w-1) if signed else 2.0**x.w
        return P.of(AT.var(n, 'int', (x, signed), b))


# ------------------------------------------------------------ real queries
class Reals:
    """z3 view of polynomials and of the float comparisons of a path."""

    def __init__(self, tp, full=True):
        self.tp = tp
        self.full = full          # False: magnitudes and roots are free within their bounds
        self.vars = {}
        self.side = []

    def var(self, n):
        v = self.vars.get(n)
        if v is None:
            kind, data = AT.info[n]
            if kind == 'int':
                i = z3.Int(n)
                x, signed = data
                lo, hi = (-(1 << (x.w-1)), (1 << (x.w-1))-1) if signed else (0, (1 << x.w)-1)
                self.side += [i >= lo, i <= hi]
                v = z3.ToReal(i)
            else:
                v = z3.Real(n)
            self.vars[n] = v
            if kind == 'real':
                self.side += [v >= -AT.bound[n], v <= AT.bound[n]]
            elif kind == 'fabs':
                p = self.poly(data)
                self.side.append(v == z3.If(p < 0, -p, p))
            elif not self.full and kind in ('cabs', 'sqrt', 'inv'):
                if kind != 'inv':
                    self.side += [v >= 0, v <= z3.RealVal(fr(AT.bound[n]))]
            elif kind == 'cabs':
                p, q = self.poly(data[0]), self.poly(data[1])
                self.side += [v >= 0, v*v == p*p + q*q]
            elif kind == 'sqrt':
                self.side += [v >= 0, v*v == self.poly(data)]
            elif kind == 'inv':
                self.side.append(v*self.poly(data) == 1)
        return v

    def poly(self, p):
        t = []
        for (trig, vs), c in p.d.items():
            x = z3.RealVal(fr(c))
            if trig is not None:
                x = x * z3.Real(f"{trig[0]}:{zlib.crc32(repr(trig[1]).encode())}")
            for n in vs:
                x = x * self.var(n)
            t.append(x)
        return z3.Sum(t) if t else z3.RealVal(0)

    def cond(self, e):
        if not isinstance(e, E):
            return z3.BoolVal(bool(e))
        op = e.op
        if op == 'bnot':
            return z3.Not(self.cond(e.args[0]))
        if op in ('and', 'or'):
            x, y = self.cond(e.args[0]), self.cond(e.args[1])
            return z3.And(x, y) if op == 'and' else z3.Or(x, y)
        if op == 'xor':
            return z3.Xor(self.cond(e.args[0]), self.cond(e.args[1]))
        if op == 'ite':
            return z3.If(self.cond(e.args[0]), self.cond(e.args[1]), self.cond(e.args[2]))
        if op.startswith('fcmp_'):
            d = self.tp(e.args[0]) - self.tp(e.args[1])
            p = self.poly(d)
            r = op[5:][1:]
            return {'lt': p < 0, 'le': p <= 0, 'gt': p > 0, 'ge': p >= 0, 'eq': p == 0, 'ne': p != 0}[r]
        raise Unsupported(f"real condition {op}")


def fr(c):
    from fractions import Fraction
    f = Fraction(c)
    return f"{f.numerator}/{f.denominator}"


def has_fcmp(e, memo={}):
    if not isinstance(e, E):
        return False
    r = memo.get(e.id)
    if r is None:
        r = e.op.startswith('fcmp_') or any(has_fcmp(a) for a in e.args if isinstance(a, E) and a.sort == 'bv')
        memo[e.id] = r
    return r


class Kernel:
    """A module of numeric kernels with the stubs they need."""

    def __init__(self, files, name, omp=False):
        self.tp = ToPoly()
        self.plans = {}
        extra = ['-fopenmp', '-I' + common.VERIF + '/engine/include'] if omp else []
        self.mod = cmod.CModule(files, name, self.stubs(), extra=extra)
        self.ex = self.mod.ex
        self.ex.real = self
        self.nvals = 64
        self.cache = {}

    # -------------------------------------------------- hooks of the executor
    def feasible(self, st, cond):
        pcs = [p for p in st.pc if has_fcmp(p)]
        return self.sat(pcs + [cond])

    def is_real(self, cond):
        return has_fcmp(cond)

    def counts(self, x):
        """A computed integer (a count, a truth value), not a sample."""
        while isinstance(x, E) and (x.op == 'sext' or (x.op == 'concat' and x.args[0] == 0 and len(x.args) == 4)):
            x = x.args[0] if x.op == 'sext' else x.args[2]
        if not isinstance(x, E) or x.op == 'v':
            return False
        return self.tp.intpoly(x) is None

    def sat(self, conds, want_model=False, full=False):
        """Satisfiability over the reals of the float conditions.  Without
        `full` magnitudes are unconstrained symbols, which can only add cases."""
        key = (tuple(sorted(c.id for c in conds if isinstance(c, E))), full) if not want_model else None
        if key is not None and key in self.cache:
            return self.cache[key]
        R = Reals(self.tp, full)
        s = z3.Solver()
        s.set('timeout', solve.TIMEOUT_MS)
        for c in conds:
            s.add(R.cond(c))
        s.add(*R.side)
        t0 = time.time()
        r = s.check()
        solve.note(t0, r)
        if r == z3.unknown:
            raise solve.Unknown("real arithmetic")
        if want_model:
            return (s.model(), R) if r == z3.sat else None
        if key is not None:
            self.cache[key] = r == z3.sat
        return r == z3.sat

    def fork_int(self, st, e, w):
        """Alternatives [(state, value)] of a symbolic integer."""
        vals = self.ex.enum_values(st, e, self.nvals)
        alts = []
        for v in vals:
            s2 = st if v is vals[-1] else st.clone()
            alts.append((s2, v))
        for s2, v in alts:
            s2.pc.append(bv.icmp('eq', w, e, v))
        return alts

    def roundfork(self, st, x, mode):
        lo, hi = st.env.get('lround_lo', 0)-1, st.env.get('lround_hi', 3)+1
        pcs = [p for p in st.pc if has_fcmp(p)]

        def c(op, v):
            return bv.mk('fcmp_'+op, 1, (x, bv.fconst(v, 'f64')))
        def band(k):
            if mode == 'floor':
                return [c('oge', k), c('olt', k+1)]
            if mode == 'ceil':
                return [c('ogt', k-1), c('ole', k)]
            if mode == 'trunc':
                return [c('ogt', k-1), c('ole', k)] if k < 0 else [c('ogt', -1), c('olt', 1)] if k == 0 else [c('oge', k), c('olt', k+1)]
            return [c('oge', k-0.5), c('ole', k+0.5)]
        if lo < -10 or hi > 10:
            return self.roundwide(st, x, mode, lo, hi, pcs, c, band)
        if self.sat(pcs + [c('olt', lo-0.5)]) or self.sat(pcs + [c('ogt', hi+0.5)]):
            raise Unsupported("rounding out of the modelled range")
        alts = []
        for k in range(lo-1, hi+2):
            cs = band(k)
            if self.sat(pcs + cs):
                s2 = st.clone()
                s2.pc += cs
                alts.append((s2, k))
        return alts

    def roundwide(self, st, x, mode, lo, hi, pcs, c, band):
        """The integers reached, found by halving the range."""
        def where(a, b):
            # which integers of [a, b] are reached
            if not self.sat(pcs + [band(a)[0] if mode != 'trunc' or a > 0 else c('ogt', a-1), band(b)[1] if mode != 'trunc' or b < 0 else c('olt', b+1)]):
                return []
            if a == b:
                return [a]
            m = (a+b)//2
            return where(a, m) + where(m+1, b)
        if self.sat(pcs + [c('olt', lo-0.5)]) or self.sat(pcs + [c('ogt', hi+0.5)]):
            raise Unsupported("rounding out of the modelled range")
        alts = []
        for k in where(lo-1, hi+1):
            cs = band(k)
            if self.sat(pcs + cs):
                s2 = st.clone()
                s2.pc += cs
                alts.append((s2, k))
        return alts

    # ------------------------------------------------------------------ stubs
    def stubs(self):
        K = self

        def ret(v):
            return lambda ex, st, a, t: v

        def memalign(ex, st, a, t):
            p = pyapi.s_malloc(ex, st, [a[2]], None)
            m, off = ex.check_access(st, a[0], 8, 'posix_memalign')
            ex.raw_store(st.wobj(m.id), off, p, 8)
            return 0

        def getint(ex, st, p):
            m, off = ex.check_access(st, p, 4, 'plan dimension')
            return bv.sgn(ex.raw_load(m, off, 4), 32)

        def s32(v):
            if isinstance(v, E):
                raise Unsupported("symbolic plan parameter")
            return bv.sgn(v, 32)

        def plan_c2c(ex, st, a, t):
            if s32(a[0]) != 1:
                raise Unsupported("plan of rank > 1")
            p = pyapi.s_malloc(ex, st, [8], None)
            m = st.mem[p.obj]
            m.name = 'fftw plan'
            m.meta['plan'] = dict(kind='c2c', n=getint(ex, st, a[1]), many=s32(a[2]), istride=s32(a[5]), idist=s32(a[6]),
                                  ostride=s32(a[9]), odist=s32(a[10]), sign=s32(a[11]))
            if (a[4] != 0 or a[8] != 0):
                raise Unsupported("embedded plan")
            return p

        def plan_r2c(ex, st, a, t):
            if s32(a[0]) != 1:
                raise Unsupported("plan of rank > 1")
            p = pyapi.s_malloc(ex, st, [8], None)
            m = st.mem[p.obj]
            m.name = 'fftw plan'
            m.meta['plan'] = dict(kind='r2c', n=getint(ex, st, a[1]), many=s32(a[2]), istride=s32(a[5]), idist=s32(a[6]),
                                  ostride=s32(a[9]), odist=s32(a[10]), sign=-1)
            if (a[4] != 0 or a[8] != 0):
                raise Unsupported("embedded plan")
            return p

        def plan_1d(ex, st, a, t):
            p = pyapi.s_malloc(ex, st, [8], None)
            n = s32(a[0])
            st.mem[p.obj].meta['plan'] = dict(kind='c2c', n=n, many=1, istride=1, idist=n, ostride=1, odist=n, sign=s32(a[3]))
            return p

        def plan_r2c_1d(ex, st, a, t):
            p = pyapi.s_malloc(ex, st, [8], None)
            n = s32(a[0])
            st.mem[p.obj].meta['plan'] = dict(kind='r2c', n=n, many=1, istride=1, idist=n, ostride=1, odist=n//2+1, sign=-1)
            return p

        def plan_2d(ex, st, a, t):
            p = pyapi.s_malloc(ex, st, [8], None)
            st.mem[p.obj].meta['plan'] = dict(kind='c2c2', n=(s32(a[0]), s32(a[1])), sign=s32(a[4]))
            return p

        def plan_r2r(ex, st, a, t):
            p = pyapi.s_malloc(ex, st, [8], None)
            st.mem[p.obj].meta['plan'] = dict(kind='r2r', n=s32(a[0]), inp=a[1], out=a[2], mode=s32(a[3]))
            return p

        def fft2(ex, st, pl, src, dst):
            n0, n1 = pl['n']
            x = []
            for i in range(n0*n1):
                v = []
                for d in (0, 4):
                    mm, o = ex.check_access(st, ex.padd(src, 8*i+d), 4, 'FFT input')
                    v.append(ex.coerce(ex.raw_load(mm, o, 4), ('f32',), 4))
                x.append(tuple(v))
            rows = [[dft(x[r*n1:(r+1)*n1], q, n1, pl['sign']) for q in range(n1)] for r in range(n0)]
            for q in range(n1):
                col = [rows[r][q] for r in range(n0)]
                for k in range(n0):
                    for d, v in zip((0, 4), dft(col, k, n0, pl['sign'])):
                        mm, o = ex.check_access(st, ex.padd(dst, 8*(k*n1+q)+d), 4, 'FFT output')
                        ex.raw_store(st.wobj(mm.id), o, v, 4)

        def execute_plan(ex, st, a, t):
            m = st.mem[a[0].obj]
            if m.freed:
                raise Fault('use-after-free', 'FFT plan used after it was destroyed')
            pl = m.meta['plan']
            if pl['kind'] != 'r2r' or pl['mode'] != 4:
                raise Unsupported("fftwf_execute of this plan")
            n, x = pl['n'], []
            for k in range(n):
                mm, o = ex.check_access(st, ex.padd(pl['inp'], 4*k), 4, 'FFT input')
                v = ex.coerce(ex.raw_load(mm, o, 4), ('f32',), 4)
                if not bv.is_fc(v):
                    raise Unsupported("real transform of symbols")
                x.append(bv.fval(v))
            # REDFT01: Y_k = X_0 + 2 sum X_j cos(pi j (k+1/2)/n); only what is looked at later matters
            nz = [(j, v) for j, v in enumerate(x) if v != 0.0 and j]
            for k in range(n):
                y = x[0] + 2*sum(v*math.cos(math.pi*j*(k+0.5)/n) for j, v in nz)
                mm, o = ex.check_access(st, ex.padd(pl['out'], 4*k), 4, 'FFT output')
                ex.raw_store(st.wobj(mm.id), o, bv.fconst(y, 'f32'), 4)
            return None

        def execute(kind):
            def f(ex, st, a, t):
                m = st.mem[a[0].obj]
                if m.freed:
                    raise Fault('use-after-free', 'FFT plan used after it was destroyed')
                pl = m.meta['plan']
                if pl['kind'] == 'c2c2' and kind == 'c2c':
                    return fft2(ex, st, pl, a[1], a[2])
                if pl['kind'] != kind:
                    raise Fault('bad-plan', 'FFT executed with a plan of another kind')
                n, out = pl['n'], []

                def ld(p, off):
                    mm, o = ex.check_access(st, ex.padd(p, off), 4, 'FFT input')
                    return ex.coerce(ex.raw_load(mm, o, 4), ('f32',), 4)
                for h in range(pl['many']):
                    x = []
                    for k in range(n):
                        at = h*pl['idist'] + k*pl['istride']
                        if kind == 'c2c':
                            x.append((ld(a[1], 8*at), ld(a[1], 8*at+4)))
                        else:
                            x.append((ld(a[1], 4*at), None))
                    for q in range(n if kind == 'c2c' else n//2+1):
                        out.append((h*pl['odist'] + q*pl['ostride'], dft(x, q, n, pl['sign'])))
                for at, (re, im) in out:
                    for d, v in ((0, re), (4, im)):
                        mm, o = ex.check_access(st, ex.padd(a[2], 8*at+d), 4, 'FFT output')
                        ex.raw_store(st.wobj(mm.id), o, v, 4)
                return None
            return f

        def destroy(ex, st, a, t):
            if isinstance(a[0], Ptr) and 'plan' not in st.mem[a[0].obj].meta:
                raise Fault('bad-free', 'fftwf_destroy_plan of something else')
            return pyapi.s_free(ex, st, a, t)

        def rounder(mode, sort):
            """floor, ceil, trunc, round (halves either way) of a symbolic
            real: one path per integer; sort None for an integer result."""
            def f(ex, st, a, t):
                x = a[0]
                if bv.is_fc(x):
                    v = bv.fval(x)
                    r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round,
                         'round': lambda q: math.floor(abs(q)+0.5)*(1 if q >= 0 else -1)}[mode](v)
                    return r & bv.mask(64) if sort is None else bv.fconst(float(r), sort)
                return Forks([(s2, k & bv.mask(64) if sort is None else bv.fconst(float(k), sort)) for s2, k in K.roundfork(st, x, mode)])
            return f
        lround = rounder('round', None)

        def cexp(ex, st, a, t):
            re, im = a
            if bv.is_fc(re) and bv.is_fc(im):
                m = math.exp(bv.fval(re))
                return (bv.fconst(m*math.cos(bv.fval(im)), 'f64'), bv.fconst(m*math.sin(bv.fval(im)), 'f64'))
            r = K.tp(re)
            if not r.is_const():
                raise Unsupported("exponential with a symbolic magnitude")
            m = bv.fconst(math.exp(r.cval()), 'f64')
            return (bv.fop('fmul', 'f64', m, bv.fop('cos', 'f64', im)), bv.fop('fmul', 'f64', m, bv.fop('sin', 'f64', im)))

        def cabsf(ex, st, a, t):
            v = a[0] if isinstance(a[0], tuple) else tuple(a)
            return bv.mk('cabs', 32, (v[0], v[1]), 'f32') if not all(bv.is_fc(x) for x in v) else \
                bv.fconst(math.hypot(bv.fval(v[0]), bv.fval(v[1])), 'f32')

        def cabs(ex, st, a, t):
            return bv.mk('cabs', 64, (a[0], a[1]), 'f64') if not all(bv.is_fc(x) for x in a) else \
                bv.fconst(math.hypot(bv.fval(a[0]), bv.fval(a[1])), 'f64')

        def unary(fn, sort):
            def f(ex, st, a, t):
                if bv.is_fc(a[0]):
                    return bv.fconst(getattr(math, fn)(bv.fval(a[0])), sort)
                return bv.fop(fn, sort, a[0])
            return f

        def fromany(ex, st, a, t):
            src = st.mem[a[0].obj]
            if src.meta.get('py') != 'array':
                raise Unsupported("conversion of a non-array")
            typ = st.mem[a[1].obj].meta['typ'] if isinstance(a[1], Ptr) else src.meta['typ']
            lo, hi = bv.sgn(a[2], 32), bv.sgn(a[3], 32)
            nd = len(src.meta['dims'])
            if (lo and nd < lo) or (hi and nd > hi):
                st.err = ('ValueError', 'object of wrong depth')
                return 0
            if typ != src.meta['typ']:
                return convert(ex, st, a[0], typ)
            pyapi.incref(ex, st, a[0])
            return a[0]

        def convert(ex, st, p, typ):
            src = st.mem[p.obj]
            dims = list(src.meta['dims'])
            q = pyapi.make_array(ex, st, dims, typ, 'converted')
            n = 1
            for d in dims:
                n *= d
            dst = st.mem[st.mem[q.obj].meta['data'].obj]
            sm = st.mem[src.meta['data'].obj]
            ss, ds = pyapi.ITEMSIZE[src.meta['typ']], pyapi.ITEMSIZE[typ]
            fl = {pyapi.FLOAT32: 'f32', pyapi.FLOAT64: 'f64'}
            cx = {pyapi.COMPLEX64: 'f32', pyapi.COMPLEX128: 'f64'}
            for i in range(n):
                def num(off, sz, sort):
                    v = ex.coerce(ex.raw_load(sm, src.meta['data'].off + i*ss + off, sz), (sort,), sz)
                    return v
                if src.meta['typ'] in fl and typ in fl:
                    v = num(0, ss, fl[src.meta['typ']])
                    ex.raw_store(dst, i*ds, irexec.cast1(ex, st, 'fpext' if ds > ss else 'fptrunc', v, (fl[src.meta['typ']],), (fl[typ],)), ds)
                elif src.meta['typ'] in cx and typ in cx:
                    for k in (0, 1):
                        v = num(k*ss//2, ss//2, cx[src.meta['typ']])
                        ex.raw_store(dst, i*ds+k*ds//2,
                                     irexec.cast1(ex, st, 'fpext' if ds > ss else 'fptrunc', v, (cx[src.meta['typ']],), (cx[typ],)), ds//2)
                elif src.meta['typ'] in (pyapi.BOOL, pyapi.UINT8, pyapi.INT8) and typ in (pyapi.UINT8, pyapi.INT8, pyapi.BOOL):
                    ex.raw_store(dst, i, ex.raw_load(sm, src.meta['data'].off+i, 1), 1)
                else:
                    raise Unsupported(f"array conversion {src.meta['typ']} -> {typ}")
            return q

        def callobject(ex, st, a, t):
            f = st.mem[a[0].obj].meta.get('call')
            if f is None:
                raise Unsupported("call of a Python object")
            items = st.mem[a[1].obj].meta['items'] if isinstance(a[1], Ptr) else []
            return f(ex, st, [pyapi.py_int(st, i) for i in items])

        def bessel(ex, st, a, t):
            if not bv.is_fc(a[0]):
                raise Unsupported("Bessel function of a symbol")
            x = bv.fval(a[0])
            if x != x:
                return bv.fconst(x, 'f64')
            t, r, k = 1.0, 1.0, 1
            while t > 1e-18*r:
                t *= (x/2/k)**2
                r += t
                k += 1
            return bv.fconst(r, 'f64')

        def mulc(sort):
            def f(ex, st, a, t):
                ar, ai, br, bi = a
                F = bv.fop
                return (F('fsub', sort, F('fmul', sort, ar, br), F('fmul', sort, ai, bi)),
                        F('fadd', sort, F('fmul', sort, ar, bi), F('fmul', sort, ai, br)))
            return f

        def divc(sort):
            def f(ex, st, a, t):
                ar, ai, br, bi = a
                F = bv.fop
                if bv.is_fc(bi) and bv.fval(bi) == 0:
                    return (F('fdiv', sort, ar, br), F('fdiv', sort, ai, br))
                d = F('fadd', sort, F('fmul', sort, br, br), F('fmul', sort, bi, bi))
                return (F('fdiv', sort, F('fadd', sort, F('fmul', sort, ar, br), F('fmul', sort, ai, bi)), d),
                        F('fdiv', sort, F('fsub', sort, F('fmul', sort, ai, br), F('fmul', sort, ar, bi)), d))
            return f

        def vec(g):
            return lambda ex, st, a, t: g(ex, st, a, t)

        def guard_acquire(ex, st, a, t):
            m, o = ex.check_access(st, a[0], 1, 'load')
            return int(ex.raw_load(m, o, 1) == 0)

        def guard_release(ex, st, a, t):
            m, o = ex.check_access(st, a[0], 1, 'store')
            ex.raw_store(st.wobj(m.id), o, 1, 1)
            return None

        s = {
            '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release,
            'PyCallable_Check': lambda ex, st, a, t: int('call' in st.mem[a[0].obj].meta),
            'PyObject_CallObject': callobject,
            'PyUnicode_AsUTF8': ret(0), 'PyErr_WarnEx': ret(0), 'PyErr_Warn': ret(0),
            'PyBool_FromLong': lambda ex, st, a, t: pyapi.new_py(ex, st, 'bool', 32, ref=pyapi.IMMORTAL),
            'PyType_IsSubtype': ret(1),
            'posix_memalign': memalign, 'aligned_alloc': lambda ex, st, a, t: pyapi.s_malloc(ex, st, [a[1]], None),
            'fftwf_malloc': pyapi.s_malloc, 'fftwf_free': pyapi.s_free, 'fftwf_alloc_real': lambda ex, st, a, t: pyapi.s_malloc(ex, st, [a[0]*4], None),
            'fftwf_alloc_complex': lambda ex, st, a, t: pyapi.s_malloc(ex, st, [a[0]*8], None),
            'fftwf_plan_many_dft': plan_c2c, 'fftwf_plan_many_dft_r2c': plan_r2c,
            'fftwf_plan_dft_2d': plan_2d, 'fftwf_plan_r2r_1d': plan_r2r, 'fftwf_execute': execute_plan, 'gsl_sf_bessel_I0': bessel,
            'fftwf_plan_dft_1d': plan_1d, 'fftwf_plan_dft_r2c_1d': plan_r2c_1d,
            'fftwf_execute_dft': execute('c2c'), 'fftwf_execute_dft_r2c': execute('r2c'),
            'fftwf_destroy_plan': destroy, 'fftwf_import_wisdom_from_file': ret(0),
            'fopen': ret(0), 'fopen64': ret(0), 'fclose': ret(0),
            'lround': lround, 'lroundf': lround, 'cexp': cexp, 'cabsf': cabsf, 'cabs': cabs,
            'sin': unary('sin', 'f64'), 'cos': unary('cos', 'f64'), 'exp': unary('exp', 'f64'),
            'sinf': unary('sin', 'f32'), 'cosf': unary('cos', 'f32'),
            'llvm.sin.f64': unary('sin', 'f64'), 'llvm.cos.f64': unary('cos', 'f64'),
            'lrint': rounder('rint', None), 'lrintf': rounder('rint', None), 'llround': lround, 'llrint': rounder('rint', None),
            **{f"{m}{q}": rounder(m, w) for m in ('floor', 'ceil', 'trunc', 'round', 'rint') for q, w in (('', 'f64'), ('f', 'f32'))},
            **{f"llvm.{m}.{w}": rounder(m, w) for m in ('floor', 'ceil', 'trunc', 'round', 'rint') for w in ('f64', 'f32')},
            'nearbyint': rounder('rint', 'f64'), 'nearbyintf': rounder('rint', 'f32'),
            '__mulsc3': mulc('f32'), '__muldc3': mulc('f64'), '__divsc3': divc('f32'), '__divdc3': divc('f64'),
        }
        from .llvm import NPI
        for slot, nm in pyapi.api_slots(NPI).items():
            if nm == 'PyArray_FromAny':
                s[f"PyArray_API[{slot}]"] = fromany
        return s

    # ------------------------------------------------------------- inputs
    def array(self, st, dims, typ, name, elem=None, bound=None):
        """Array of symbols name[i]; elem(i) may give constants instead."""
        ex = self.ex
        p = pyapi.make_array(ex, st, dims, typ, name)
        m = st.mem[st.mem[p.obj].meta['data'].obj]
        isz = pyapi.ITEMSIZE[typ]
        n = 1
        for d in dims:
            n *= d
        cx = typ in (pyapi.COMPLEX64, pyapi.COMPLEX128)
        sort = {pyapi.FLOAT32: 'f32', pyapi.FLOAT64: 'f64', pyapi.COMPLEX64: 'f32', pyapi.COMPLEX128: 'f64'}.get(typ)
        for i in range(n):
            if cx:
                h = isz//2
                for k, s in ((0, 're'), (1, 'im')):
                    v = elem(i, k) if elem else bv.fvar(f"{name}{i}{s}", sort)
                    if v.op == 'v':
                        AT.var(v.args[0], 'real', None, bound or 16.0)
                    ex.raw_store(m, i*isz+k*h, v, h)
            elif sort:
                v = elem(i) if elem else bv.fvar(f"{name}{i}", sort)
                if v.op == 'v':
                    AT.var(v.args[0], 'real', None, bound or 16.0)
                ex.raw_store(m, i*isz, v, isz)
            else:
                v = elem(i) if elem else bv.var(f"{name}{i}", 8*isz)
                ex.raw_store(m, i*isz, v, isz)
        return p

    def window(self, st, name='w', bound=1.0, mode=''):
        """A callable returning an array of symbols (mode: or a bad one)."""
        def call(ex, st2, args):
            if mode == 'raises':
                st2.err = ('ArithmeticError', 'window')
                return 0
            if mode:
                n = bv.sgn(args[0], pyapi.IW)
                return self.array(st2, [1, n] if mode == 'deep' else [n + {'short': -1, 'long': 1}[mode]], pyapi.FLOAT64, name, bound=bound)
            return self.array(st2, [bv.sgn(args[0], pyapi.IW)], pyapi.FLOAT64, name, bound=bound)
        return pyapi.new_py(self.ex, st, 'function', 64, call=call)

    def none(self):
        return Ptr(self.ex.globmap['_Py_NoneStruct'], 0)

    def read(self, st, p, typ=None):
        """Array contents as lists of P (pairs for complex), row-major."""
        m = st.mem[p.obj]
        typ = m.meta['typ']
        isz = pyapi.ITEMSIZE[typ]
        d = st.mem[m.meta['data'].obj]
        n = 1
        for x in m.meta['dims']:
            n *= x
        sort = {pyapi.FLOAT32: 'f32', pyapi.FLOAT64: 'f64', pyapi.COMPLEX64: 'f32', pyapi.COMPLEX128: 'f64'}.get(typ)
        out = []
        for i in range(n):
            o = m.meta['data'].off + i*isz
            if typ in (pyapi.COMPLEX64, pyapi.COMPLEX128):
                h = isz//2
                re, im = (self.ex.coerce(self.ex.raw_load(d, o+k*h, h), (sort,), h) for k in (0, 1))
                out.append(Cx(self.tp(re), self.tp(im)))
            elif sort:
                out.append(self.tp(self.ex.coerce(self.ex.raw_load(d, o, isz), (sort,), isz)))
            else:
                out.append(self.ex.raw_load(d, o, isz))
        return m.meta['dims'], out


def dft(x, q, n, sign):
    """One output of the DFT of [(re, im|None)], exactly weighted terms."""
    F = bv.fop
    re = im = None

    def add(acc, w, v):
        if w == 0.0 or v is None:
            return acc
        t = v if w == 1.0 else F('fneg', 'f32', v) if w == -1.0 else F('fmul', 'f32', C(w), v)
        return t if acc is None else F('fadd', 'f32', acc, t)

    def C(w):
        # kept in double precision: the rounding of the library's twiddles is in the allowance
        return bv.fconst(w, 'f64')
    for k, (a, b) in enumerate(x):
        c, s = snap(math.cos(2*math.pi*((k*q) % n)/n)), snap(sign*math.sin(2*math.pi*((k*q) % n)/n))
        re = add(re, c, a)
        re = add(re, -s, b)
        im = add(im, s, a)
        im = add(im, c, b)
    z = bv.fconst(0.0, 'f32')
    return (re if re is not None else z, im if im is not None else z)


def snap(v):
    for s in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(v-s) < 1e-15:
            return s
    return v


def odft(x, q, sign=-1):
    """The oracle's DFT of a list of Cx."""
    n = len(x)
    r = Cx(0.0, 0.0)
    for k, v in enumerate(x):
        a = sign*2*math.pi*((k*q) % n)/n
        r = r + v*Cx(snap(math.cos(a)), snap(math.sin(a)))
    return r


# --------------------------------------------------------------- obligations
def differ(K, conds, pairs, tol=TOL):
    """Ask the solver for monomial values within bounds at which some output
    differs from what is prescribed.  Returns None (they agree) or the index
    of a differing pair."""
    todo = []
    sizes = [lift(want).size() for _, want in pairs]
    least = max([1e-12] + [1e-3*x for x in sizes])
    for i, (got, want) in enumerate(pairs):
        D = lift(got) - lift(want)
        todo.append((i, D, tol*max(least, sizes[i])))
    # one query over all outputs while it is small, else several
    batch, n = [], 0
    for x in todo:
        if not x[1].d:
            continue
        if batch and n + len(x[1].d) > 600:
            r = _differ(batch)
            if r is not None:
                return r
            batch, n = [], 0
        batch.append(x)
        n += len(x[1].d)
    return _differ(batch)


def _differ(todo):
    s = z3.Solver()
    s.set('timeout', solve.TIMEOUT_MS if len(todo) <= 1 else min(5000, solve.TIMEOUT_MS))
    mv = {}
    alts = []
    for i, D, lim in todo:
        t = []
        for k, c in D.d.items():
            v = mv.get(k)
            if v is None:
                v = mv[k] = z3.Real(f"m{len(mv)}")
                b = mbound(k)
                s.add(v >= z3.RealVal(fr(-b)), v <= z3.RealVal(fr(b)))
                if k == (None, ()):
                    s.add(v == 1)
            t.append(z3.RealVal(fr(c))*v)
        e = z3.Sum(t)
        L = z3.RealVal(fr(lim))
        b = z3.Bool(f"d{i}")
        s.add(b == z3.Or(e > L, e < -L))
        alts.append((i, b))
    s.add(z3.Or([b for _, b in alts]) if alts else z3.BoolVal(False))
    t0 = time.time()
    r = s.check()
    solve.note(t0, r)
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        if len(todo) <= 1:
            raise solve.Unknown("linear real query")
        for x in todo:
            i = _differ([x])
            if i is not None:
                return i
        return None
    m = s.model()
    for i, b in alts:
        if z3.is_true(m.eval(b, True)):
            return i
    return alts[0][0]


def peval(p, env):
    """Value of a polynomial at concrete samples."""
    r = 0.0
    for (trig, vs), c in lift(p).d.items():
        x = c
        if trig is not None:
            th = peval(AT.theta[trig[1]], env)
            x *= math.cos(th) if trig[0] == 'c' else math.sin(th)
        for n in vs:
            x *= aval(n, env)
        r += x
    return r


def aval(n, env):
    if n in env:
        return env[n]
    kind, data = AT.info[n]
    if kind == 'fabs':
        return abs(peval(data, env))
    if kind == 'cabs':
        return math.hypot(peval(data[0], env), peval(data[1], env))
    if kind == 'sqrt':
        return math.sqrt(peval(data, env))
    if kind == 'inv':
        return 1.0/peval(data, env)
    return 0.0


def ceval(tp, e, env, benv):
    """Concrete truth of a path condition."""
    if not isinstance(e, E):
        return bool(e)
    if not has_fcmp(e):
        return bool(solve.evaluate(e, benv))
    op = e.op
    if op == 'bnot':
        return not ceval(tp, e.args[0], env, benv)
    if op == 'and':
        return ceval(tp, e.args[0], env, benv) and ceval(tp, e.args[1], env, benv)
    if op == 'or':
        return ceval(tp, e.args[0], env, benv) or ceval(tp, e.args[1], env, benv)
    d = peval(tp(e.args[0]) - tp(e.args[1]), env)
    return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0, 'ne': d != 0}[op[5:][1:]]
