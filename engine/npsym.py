"""
Symbolic NumPy-level execution: the library's Python code runs unmodified on
object arrays whose elements are polynomials (`kern.P`) over symbols.

`V` is a complex polynomial.  Comparisons of real polynomials fork the run
(`Paths`); z3 decides over the reals which outcomes are feasible.  `NP` stands
in for the numpy module of the code under test: array creation gives arrays
that can hold symbols, everything else is numpy's own.
"""

import math
import numbers
import signal
import time

import numpy as np

from . import kern, solve
from .kern import AT, P, lift
from .solve import z3


class Unsupported(Exception):
    pass


class NaN(Exception):
    pass


class Abort(BaseException):
    pass


class Paths:
    """Explore a harness: every feasible outcome of every symbolic branch."""

    def __init__(self, limit=2000, exact=False):
        self.limit = limit
        self.exact = exact          # products and square roots as such in branch queries
        self.conds = None

    def run(self, fn):
        global CUR
        work, out = [[]], []
        while work:
            script = work.pop()
            if len(out) >= self.limit:
                raise Unsupported(f"more than {self.limit} paths")
            self.script, self.taken, self.conds, self.pending = script, [], [], []
            old, CUR = CUR, self
            try:
                r = fn()
            except Abort:
                work += self.pending
                continue
            finally:
                CUR = old
            work += self.pending
            out.append((list(self.conds), r))
        return out

    def sat(self, conds, model=False):
        """Every monomial is a number within its bounds, the smallest of a list
        is one of it; False is certain."""
        s = z3.Solver()
        s.set('timeout', solve.TIMEOUT_MS)
        mons, exts = {}, []
        roots = {}

        def atom(n):
            if AT.info[n][0] != 'sqrt':
                poly(lift(P.of(n)))
                return mons[(None, (n,))]
            if n not in roots:
                roots[n] = x = z3.Real(f"r{len(roots)}")
                s.add(x >= 0, x*x == poly(AT.info[n][1]))
            return roots[n]

        def poly(p):
            r = z3.RealVal(0)
            for (t, vs), c in lift(p).d.items():
                k = (t, vs)
                if t is None and not vs:
                    r += z3.RealVal(repr(float(c)))
                    continue
                if self.exact and (len(vs) > 1 or any(AT.info[n][0] == 'sqrt' for n in vs)):
                    if t is not None:
                        raise Unsupported("exact query with a phase")
                    x = z3.RealVal(repr(float(c)))
                    for n in vs:
                        x = x*atom(n)
                    r += x
                    continue
                if k not in mons:
                    x = z3.Real(f"m{len(mons)}")
                    if t is None and len(vs) == 1 and vs[0] in INTS:
                        x = z3.ToReal(z3.Int(f"m{len(mons)}"))
                    mons[k] = x
                    b = 1.0
                    for n in vs:
                        b *= AT.bound[n]
                    b = z3.RealVal(repr(float(b)))
                    s.add(x <= b, x >= (0 if t is None and all(n in AT.nonneg for n in vs) else -b))
                    if t is None:
                        exts.extend((n, x) for n in vs if AT.info[n][0] == 'ext' and len(vs) == 1)
                r += z3.RealVal(repr(float(c)))*mons[k]
            return r
        for p, op in conds:
            x = poly(p)
            s.add({'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0, 'eq': x == 0, 'ne': x != 0}[op])
        while exts:
            n, x = exts.pop()
            l, small = AT.info[n][1]
            l = [poly(p) for p in l]
            s.add(*[(x <= y) if small else (x >= y) for y in l], z3.Or(*[x == y for y in l]))
        t0 = time.time()
        r = s.check()
        solve.note(t0, r)
        if r == z3.unknown:
            raise solve.Unknown("real arithmetic")
        if model and r == z3.sat:
            m = s.model()
            env = {}
            for (t, vs), x in mons.items():
                if t is None and len(vs) == 1:
                    q = m.eval(x, model_completion=True)
                    if z3.is_algebraic_value(q):
                        q = q.approx(20)
                    env[vs[0]] = q.numerator_as_long()/q.denominator_as_long()
            return env
        return r == z3.sat

    def decide(self, p, op):
        p = kern.clean(lift(p))
        if p.is_const():
            c = p.cval()
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        neg = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[op]
        k = len(self.taken)
        if k < len(self.script):
            v = self.script[k]
        else:
            yes, no = self.sat(self.conds+[(p, op)]), self.sat(self.conds+[(p, neg)])
            if not (yes or no):
                raise Abort
            v = yes
            if yes and no:
                self.pending.append(self.taken + [False])
        self.taken = self.taken + [v]
        self.conds.append((p, op if v else neg))
        return v

    def choose(self, n):
        """Fork over range(n) (a choice of the harness)."""
        k = len(self.taken)
        if k < len(self.script):
            v = self.script[k]
        else:
            v = 0
            self.pending += [self.taken + [i] for i in range(1, n)]
        self.taken = self.taken + [v]
        return v


CUR = None


# ----------------------------------------------------------------- scalars
def norm(p):
    """Cancel x against 1/x."""
    if not any(n.endswith('~') for (_, vs) in p.d for n in vs):
        return p
    out = {}
    for (t, vs), c in p.d.items():
        l = list(vs)
        for n in vs:
            if n.endswith('~') and n in l and n[:-1] in l:
                l.remove(n)
                l.remove(n[:-1])
        k = (t, tuple(l))
        out[k] = out.get(k, 0.0) + c
    return P({k: v for k, v in out.items() if v != 0.0})


def inv(p):
    """1/p for a constant or a single monomial of non-zero symbols."""
    if p.is_const():
        if p.cval() == 0:
            raise ZeroDivisionError
        return P.const(1.0/p.cval())
    if len(p.d) == 1:
        ((t, vs), c), = p.d.items()
        if t is None and all((n[:-1] if n.endswith('~') else n) in AT.nonneg for n in vs):
            out = []
            for n in vs:
                m = n[:-1] if n.endswith('~') else n + '~'
                if m not in AT.info:
                    AT.var(m, 'recip', n, 1.0/LOW.get(n, 0.1))
                    AT.nonneg.add(m)
                out.append(m)
            return P({(None, tuple(sorted(out))): 1.0/c})
    return kern.inverse(p)


INTS = set()      # names of symbols that are whole numbers
LOW = {}         # name -> lower bound of a positive symbol


def isnum(x):
    return isinstance(x, (numbers.Number, np.number, np.bool_))


def val(x):
    if isinstance(x, V):
        return x
    if isinstance(x, P):
        return V(x)
    if hasattr(x, '__p__'):
        return x.__p__()
    if isinstance(x, np.ndarray) and x.shape == ():
        return val(x.item())
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        return V(P.const(float(x.real)), P.const(float(x.imag)))
    if isnum(x):
        return V(P.const(float(x)))
    return None


def _cmp(op):
    def f(self, o):
        o = val(o)
        if o is None:
            return NotImplemented
        d = self - o
        if op in ('eq', 'ne') and d.im.d:
            a = d.re.is_const() and d.im.is_const()
            if a:
                return (op == 'ne') == bool(d.re.cval() or d.im.cval())
            r = Bit(d.re, 'eq') and Bit(d.im, 'eq')
            return bool(r) == (op == 'eq')
        if self.im.d or o.im.d:
            if op in ('eq', 'ne'):
                return Bit(d.re, op)
            raise Unsupported("order of complex values")
        if math.isinf(o.re.cval()) and o.re.is_const():
            inf = o.re.cval()
            return {'lt': inf > 0, 'le': inf > 0, 'gt': inf < 0, 'ge': inf < 0, 'eq': False, 'ne': True}[op]
        return Bit(d.re, op)
    return f


def Bit(p, op):
    return CUR.decide(p, op)


class V:
    __slots__ = ('re', 'im', 'fz')

    def __init__(self, re, im=None, fz=False):
        self.re = lift(re)
        self.im = lift(im) if im is not None else P()
        self.fz = fz            # zero only up to rounding

    def __hash__(self):
        return 7

    def __add__(self, o):
        o = val(o)
        if o is None:
            return NotImplemented
        r = self.re+o.re
        fz = False
        if not self.re.is_const() and not o.re.is_const():
            m = max(abs(v) for v in self.re.d.values())
            fz = all(abs(v) <= 1e-13*m for v in r.d.values())
        return V(P() if fz else r, self.im+o.im, fz)
    __radd__ = __add__

    def __sub__(self, o):
        o = val(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return V(-self.re, -self.im)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = val(o)
        if o is None:
            return NotImplemented
        if not self.im.d and not o.im.d:
            return V(norm(self.re*o.re))
        return V(norm(self.re*o.re - self.im*o.im), norm(self.re*o.im + self.im*o.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = val(o)
        if o is None:
            return NotImplemented
        if not o.im.d:
            i = inv(o.re)
            return V(norm(self.re*i), norm(self.im*i))
        n = norm(o.re*o.re + o.im*o.im)
        return self * o.conjugate() / V(n)

    def __rtruediv__(self, o):
        o = val(o)
        return NotImplemented if o is None else o/self

    def __pow__(self, n):
        if isinstance(n, (int, float)) and float(n).is_integer() and 0 <= n <= 8:
            r = V(1.0)
            for _ in range(int(n)):
                r = r*self
            return r
        if n == 0.5:
            return self.sqrt()
        if n == -1:
            return V(1.0)/self
        if n == -0.5:
            return V(1.0)/self.sqrt()
        raise Unsupported(f"power {n}")

    def __abs__(self):
        if not self.im.d:
            if self.re.is_const():
                return V(abs(self.re.cval()))
            return self if Bit(self.re, 'ge') else -self
        return V(norm(self.re*self.re+self.im*self.im)).sqrt()

    @property
    def real(self):
        return V(self.re)

    @property
    def imag(self):
        return V(self.im)

    def conjugate(self):
        return V(self.re, -self.im)
    conj = conjugate

    def sqrt(self):
        if self.im.d:
            raise Unsupported("complex square root")
        p = self.re
        if self.fz:
            raise NaN("square root of a difference that rounding can make negative")
        if p.is_const():
            return V(math.sqrt(p.cval()))
        if len(p.d) == 1:
            ((t, vs), c), = p.d.items()
            if t is None and c > 0:
                cnt = {}
                for n in vs:
                    cnt[n] = cnt.get(n, 0) + 1
                if all(k % 2 == 0 and n in AT.nonneg for n, k in cnt.items()):
                    return V(P({(None, tuple(sorted(n for n, k in cnt.items() for _ in range(k//2)))): math.sqrt(c)}))
        n = f"sqrt{p.key()!r}"
        return V(P.of(AT.var(n, 'sqrt', p, math.sqrt(max(p.size(), 1e-300)))))

    def exp(self):
        if self.re.d:
            if not self.re.is_const():
                raise Unsupported("exponential of a symbol")
            f = math.exp(self.re.cval())
        else:
            f = 1.0
        t = kern.clean(self.im)
        if t.is_const():
            return V(f*math.cos(t.cval()), f*math.sin(t.cval()))
        return V(kern.cos(t)*f, kern.sin(t)*f)

    def cos(self):
        return V(kern.cos(kern.clean(self.re)))

    def sin(self):
        return V(kern.sin(kern.clean(self.re)))

    def _c(f):
        return lambda self, *a: V(P.const(f(self.const())))

    def const(self):
        if self.im.d or not self.re.is_const():
            raise Unsupported("number needed")
        return self.re.cval()

    def __float__(self):
        return float(self.const())

    def __int__(self):
        return int(self.const())

    def __complex__(self):
        if self.re.is_const() and self.im.is_const():
            return complex(self.re.cval(), self.im.cval())
        raise Unsupported("number needed")

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return f"V({self.re.d}, {self.im.d})"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def isfinite(self):
        return True

    def square(self):
        return self*self

    def absolute(self):
        return abs(self)

    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = (_cmp(o) for o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))


def var(name, bound=1.0):
    return V(P.of(AT.var(name, 'real', None, bound)))


def pos(name, low, bound):
    """A symbol between low > 0 and bound."""
    AT.var(name, 'real', None, bound)
    AT.nonneg.add(name)
    LOW[name] = low
    return V(P.of(name))


def ivar(name, bound):
    """A whole number from 0 to bound."""
    AT.var(name, 'real', None, bound)
    AT.nonneg.add(name)
    INTS.add(name)
    LOW[name] = 0
    return V(P.of(name))


def cvar(name, bound=1.0):
    return V(P.of(AT.var(name+'re', 'real', None, bound)), P.of(AT.var(name+'im', 'real', None, bound)))


# ------------------------------------------------------------------ arrays
def is_inf(x):
    return isnum(x) and not np.isfinite(x)


class Arr(np.ndarray):
    """Object array of symbols and numbers."""

    def __new__(cls, a):
        return np.asarray(a, dtype=object).view(cls)

    def _red(self, f, axis, out=None, keepdims=False, **k):
        if axis is None:
            return f(list(np.asarray(self).ravel()))
        a = np.moveaxis(np.asarray(self), axis, 0)
        r = np.empty(a.shape[1:], dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = f([a[(k,)+i] for k in range(a.shape[0])])
        return np.expand_dims(r, axis).view(Arr) if keepdims else r.view(Arr)

    def max(self, axis=None, out=None, **k):
        return self._red(lambda l: pick(l, False), axis, **k)

    def min(self, axis=None, out=None, **k):
        return self._red(lambda l: pick(l, True), axis, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return self._red(lambda l: sum(l[1:], l[0])/len(l), axis, **k)

    def conj(self):
        return np.conjugate(np.asarray(self)).view(Arr)
    conjugate = conj

    @property
    def real(self):
        return emap(lambda x: val(x).real, self)

    @real.setter
    def real(self, v):
        self[...] = emap2(lambda x, y: V(val(y).re, val(x).im), self, v)

    @property
    def imag(self):
        return emap(lambda x: val(x).imag, self)

    @imag.setter
    def imag(self, v):
        self[...] = emap2(lambda x, y: V(val(x).re, val(y).re), self, v)

    def astype(self, t, *a, **k):
        if np.dtype(t).kind in 'fcO':
            return self.copy()
        if all(isnum(x) for x in np.asarray(self).ravel()):
            return np.asarray(self).astype(t)
        raise Unsupported(f"symbols as {t}")


def pick(l, small):
    """Smallest (largest) of a list: a symbol tied to the list."""
    infs = [x for x in l if is_inf(x)]
    if any(np.isnan(x) for x in infs):
        return float('nan')
    for x in infs:
        if (x < 0) == small:
            return x
    l = [x for x in l if not is_inf(x)] or infs
    if all(isnum(x) for x in l):
        return min(l) if small else max(l)
    ps = {}
    for x in l:
        x = val(x)
        if x.im.d:
            raise Unsupported("order of complex values")
        p = kern.clean(x.re)
        ps[p.key()] = p
    if len(ps) == 1:
        return V(next(iter(ps.values())))
    n = ('min' if small else 'max') + repr(sorted(ps, key=repr))
    n = NAMES.setdefault(n, f"ext{len(NAMES)}")
    if n not in AT.info:
        AT.var(n, 'ext', (list(ps.values()), small), max(p.size() for p in ps.values()))
    return V(P.of(n))


NAMES = {}


def larger(x, y):
    x, y = val(x), val(y)
    d = (x-y).re
    if d.is_const():
        return V((x if d.cval() > 0 else y).re)
    if all(t is None and all(n in AT.nonneg for n in vs) for t, vs in d.d):
        if all(v >= 0 for v in d.d.values()):
            return V(x.re)
        if all(v <= 0 for v in d.d.values()):
            return V(y.re)
    return x if Bit(d, 'ge') else y


def emap(f, a):
    a = np.asarray(a, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = f(a[i])
    return r.view(Arr)


def emap2(f, a, b):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = f(a[i], b[i])
    return r.view(Arr)


def holds(dtype):
    return dtype is None or np.dtype(dtype).kind in 'fcO'


def symbolic(a):
    return isinstance(a, V) or (isinstance(a, np.ndarray) and a.dtype == object) or \
        (isinstance(a, (list, tuple)) and any(symbolic(x) for x in a))


class NP:
    """numpy with arrays that hold symbols."""

    def __init__(self, **over):
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def _new(f):
        def g(shape, dtype=None, *a, **k):
            if holds(dtype):
                return f(shape, dtype=object).view(Arr)
            return f(shape, dtype, *a, **k)
        return g

    @staticmethod
    def zeros(shape, dtype=None, *a, **k):
        return Arr(np.zeros(shape, dtype=object)) if holds(dtype) else np.zeros(shape, dtype, *a, **k)
    empty = zeros

    @staticmethod
    def ones(shape, dtype=None, *a, **k):
        return Arr(np.ones(shape, dtype=object)) if holds(dtype) else np.ones(shape, dtype, *a, **k)

    @staticmethod
    def full(shape, v, dtype=None, *a, **k):
        return Arr(np.full(shape, v, dtype=object)) if holds(dtype) else np.full(shape, v, dtype, *a, **k)

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        d = dtype if dtype is not None else np.asarray(a).dtype
        return Arr(np.zeros(np.shape(a), dtype=object)) if holds(d) else np.zeros_like(a, dtype, **k)
    empty_like = zeros_like

    @staticmethod
    def ones_like(a, dtype=None, **k):
        d = dtype if dtype is not None else np.asarray(a).dtype
        return Arr(np.ones(np.shape(a), dtype=object)) if holds(d) else np.ones_like(a, dtype, **k)

    @staticmethod
    def array(a, dtype=None, **k):
        if symbolic(a) and (dtype is None or np.dtype(dtype).kind in 'fcO'):
            return Arr(np.array(a, dtype=object, **k))
        return np.array(a, dtype=dtype, **k)

    @staticmethod
    def asarray(a, dtype=None, **k):
        if symbolic(a) and (dtype is None or np.dtype(dtype).kind in 'fcO'):
            return a if isinstance(a, Arr) else Arr(np.asarray(a, dtype=object))
        return np.asarray(a, dtype=dtype, **k)

    @staticmethod
    def isfinite(a):
        if isinstance(a, V):
            return True
        if symbolic(a):
            a = np.asarray(a, dtype=object)
            r = np.empty(a.shape, dtype=bool)
            for i in np.ndindex(*a.shape):
                r[i] = True if isinstance(a[i], V) else bool(np.isfinite(a[i]))
            return r
        return np.isfinite(a)

    @staticmethod
    def _un(name):
        f = getattr(np, name)

        def g(a, *r, **k):
            if isinstance(a, V):
                return getattr(a, name)()
            if symbolic(a):
                return emap(lambda x: getattr(x, name)() if isinstance(x, V) else f(x), a)
            return f(a, *r, **k)
        return g

    def __getattribute__(self, n):
        if n in ('exp', 'sqrt', 'cos', 'sin', 'square'):
            return NP._un(n)
        return object.__getattribute__(self, n)

    @staticmethod
    def conj(a):
        return emap(lambda x: x.conjugate(), a) if symbolic(a) and not isinstance(a, V) else np.conj(a) if not isinstance(a, V) else a.conjugate()
    conjugate = conj

    @staticmethod
    def abs(a):
        return emap(abs, a) if symbolic(a) and not isinstance(a, V) else abs(a)
    absolute = abs

    @staticmethod
    def maximum(a, b):
        return emap2(larger, a, b) if symbolic(a) or symbolic(b) else np.maximum(a, b)

    @staticmethod
    def minimum(a, b):
        return emap2(lambda x, y: -val(larger(-val(x), -val(y))), a, b) if symbolic(a) or symbolic(b) else np.minimum(a, b)

    @staticmethod
    def linspace(a, b, num=50, endpoint=True):
        if not (symbolic(a) or symbolic(b)):
            return np.linspace(a, b, num, endpoint)
        n = (num - 1) if endpoint else num
        return Arr([a + (b-a)*(i/n) for i in range(num)])

    @staticmethod
    def real(a):
        return a.real

    @staticmethod
    def imag(a):
        return a.imag


# ---------------------------------------------------------------- verdicts
def differ(pairs, tol=1e-9):
    """Index of the first pair of values that can differ by more than tol of the
    largest one, or None.  Decided by z3 with monomials free in their bounds."""
    prs = []
    for g, w in pairs:
        g, w = val(g), val(w)
        prs += [(g.re, w.re), (g.im, w.im)]
    r = kern.differ(None, (), prs, tol)
    return None if r is None else r//2


def model(conds, exact=False):
    """Values of all symbols that satisfy conditions linear in them."""
    env = Paths(exact=exact).sat(conds, model=True)
    if env is False:
        return None
    for n, (k, d) in AT.info.items():
        if k == 'real':
            env.setdefault(n, LOW.get(n, 0.0))
    return env


def sample(rng, conds, tries=400):
    """Concrete values of all symbols that satisfy the path conditions."""
    names = [n for n, (k, d) in AT.info.items() if k == 'real']
    best = None
    for t in range(tries):
        env = {}
        for n in names:
            b = AT.bound[n]
            env[n] = rng.uniform(LOW[n], b) if n in LOW else rng.uniform(-b, b)
        ok = True
        for p, op in conds:
            c = peval(p, env)
            if not {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': abs(c) < 1e-12, 'ne': c != 0}[op]:
                ok = False
                break
        if ok:
            return env
        best = best or env
    return None


def peval(p, env):
    r = 0.0
    for (trig, vs), c in lift(p).d.items():
        x = c
        if trig is not None:
            th = peval(AT.theta[trig[1]], env)
            x *= math.cos(th) if trig[0] == 'c' else math.sin(th)
        for n in vs:
            x *= aval(n, env)
        r += x
    return r


def aval(n, env):
    if n in env:
        return env[n]
    kind, data = AT.info[n]
    if kind == 'recip':
        return 1.0/aval(data, env)
    if kind == 'sqrt':
        return math.sqrt(peval(data, env))
    if kind == 'inv':
        return 1.0/peval(data, env)
    if kind == 'ext':
        return (min if data[1] else max)(peval(p, env) for p in data[0])
    raise Unsupported(n)


def ceval(v, env):
    v = val(v)
    return complex(peval(v.re, env), peval(v.im, env))


def reset():
    AT.__init__()
    LOW.clear()
    INTS.clear()
    NAMES.clear()


class limit:
    """Give up (Unsupported) after some seconds of work in a block."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*a):
            raise Unsupported(f"no result in {self.s} s")
        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
