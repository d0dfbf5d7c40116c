"""
Symbolic execution of the real Python code by proxy values.

The library's own functions run in this interpreter, unmodified, on `SInt`,
`SBool`, `SReal` and `SCplx` values.  Every branch on a symbolic condition
forks: the harness is executed again from the start for the other outcome
until every feasible path has been taken.  z3 decides which outcomes are
feasible and, for every assertion, whether a value of the inputs breaks it.

Integers are mathematical integers (Python's).  Floats are reals; with
FLOAT_ERR on, every float operation whose result is not provably exact is
given a relative error of up to 2**-53, so a claim proved covers the IEEE
result as well.
"""

import builtins
import math
import sys
import time
import types
from fractions import Fraction

import numpy as np

from . import relax, solve
from .solve import z3

_int, _float, _round, _abs, _min, _max, _sum, _divmod, _isinstance, _bool, _complex, _str, _len = (
    int, float, round, abs, min, max, sum, divmod, isinstance, bool, complex, str, len)
U = Fraction(1, 2**53)


class Abort(BaseException):
    """The current path is infeasible (an assumption failed)."""


class Limit(BaseException):
    """A stated bound was exceeded: inconclusive, never a pass."""


class Unsupported(BaseException):
    """The code used a symbolic value in a way the engine does not model."""


class Engine:
    def __init__(self):
        self.active = False
        self.timeout = int(solve.TIMEOUT_MS)
        self.max_decisions = 400
        self.max_concretise = 40
        self.float_err = False

    def begin(self, prefix):
        self.active = True
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.pc = []
        self.errs = []
        self.n = 0
        self.vars = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.memo = {}
        self.defs = {}
        self.rel = None

    def fresh(self, base, sort):
        self.n += 1
        return z3.Const(f"{base}!{self.n}", sort)

    def add(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        self.memo.clear()

    def check(self, *extra, ms=None):
        t0 = time.time()
        full = ms or self.timeout
        first = _min(full, 400)
        self.solver.set('timeout', first)
        r = self.solver.check(*extra)
        if r == z3.unknown:
            if self.rel is None:
                self.rel = relax.Relax()
            if self.rel.unsat(self.pc, extra, _min(full, 5000)):
                r = z3.unsat
            elif full > first:
                self.solver.set('timeout', full)
                r = self.solver.check(*extra)
        solve.note(t0, r)
        return r

    def sat(self, c, ms=None):
        """Can `c` be true here?  unknown counts as yes."""
        k = ('s', c.get_id())
        r = self.memo.get(k)
        if r is None:
            r = self.check(c, ms=ms) != z3.unsat
            self.memo[k] = r
            self.memo[('keep', c.get_id())] = c
        return r

    def must(self, c):
        """Is `c` necessarily true here?"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.sat(z3.Not(c), ms=1500)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if len(self.trace) >= self.max_decisions:
            raise Limit(f"more than {self.max_decisions} decisions on one path")
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            assert isinstance(d, bool), 'non-deterministic harness'
        else:
            t = self.sat(c)
            f = self.sat(z3.Not(c)) if t else True
            d = t
            if t and f:
                self.alts.append(self.trace + [False])
        self.trace.append(d)
        self.add(c if d else z3.Not(c))
        return d

    def concretise(self, t):
        """Fork over the possible values of an integer term."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            assert isinstance(d, tuple)
            v = d[1]
            if d[0] == 'next':
                # enumerate the next value not in d[2]
                v = self._pick(t, d[2])
                if v is None:
                    raise Abort()
        else:
            v, d = None, ('next', None, ())
            v = self._pick(t, ())
            if v is None:
                raise Abort()
        excl = d[2] if d[0] == 'next' else None
        if excl is not None:
            if len(excl) >= self.max_concretise:
                raise Limit(f"more than {self.max_concretise} values for an index or size")
            nxt = excl + (v,)
            if self.check(*[t != x for x in nxt]) != z3.unsat:
                self.alts.append(self.trace + [('next', None, nxt)])
        self.trace.append(('is', v))
        self.add(t == v)
        return v

    def _pick(self, t, excl):
        r = self.check(*[t != x for x in excl])
        if r == z3.unsat:
            return None
        if r != z3.sat:
            raise Limit('solver gave no verdict')
        return self.solver.model().eval(t, model_completion=True).as_long()


ENG = Engine()


# ---------------------------------------------------------------- values

def _frac(x):
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def is_sym(x):
    return _isinstance(x, (SInt, SBool, SReal, SCplx))


def _num(x):
    """Classify a Python number: ('i', z3 Int) / ('r', z3 Real) / None."""
    if _isinstance(x, SInt):
        return 'i', x.t
    if _isinstance(x, SReal):
        return 'r', x.t
    if _isinstance(x, SBool):
        return 'i', z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if _isinstance(x, (_bool, np.bool_)):
        return 'i', z3.IntVal(_int(x))
    if _isinstance(x, (_int, np.integer)):
        return 'i', z3.IntVal(_int(x))
    if _isinstance(x, Fraction):
        return 'r', _frac(x)
    if _isinstance(x, (_float, np.floating)):
        if not math.isfinite(x):
            return None
        return 'r', _frac(_float(x))
    return None


def _real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def _absr(t):
    return z3.If(t >= 0, t, -t)


def _const(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def fl(t, exact=False, isint=False, g=None):
    """A float result: the real term `t`, rounded unless exact.  Multiples of
    2**-g below 2**(53-g) need no rounding."""
    if isint:
        g = 0
    if not ENG.float_err or exact:
        return SReal(t, g=g)
    c = _const(t)
    if c is not None:
        return SReal(_frac(Fraction(_float(c))), g=_grid(Fraction(_float(c))))
    if g is not None and g <= 40 and ENG.must(z3.And(t <= 2**(53-_max(g, 0)), t >= -2**(53-_max(g, 0)))):
        return SReal(t, g=g)
    t = z3.simplify(t)
    k = ('fl', t.get_id())
    r = ENG.defs.get(k)
    if r is not None:
        return SReal(r, g=g)
    r = ENG.fresh('fl', z3.RealSort())
    ENG.defs[k] = r
    ENG.defs[('keep', t.get_id())] = t
    ENG.defs[('unrounded', r.get_id())] = t
    ENG.defs[('keep', r.get_id())] = r
    _near(r, t)
    ENG.errs.append(r == t)
    if g is not None and g <= 0:
        g = 0
        ENG.add(z3.Implies(z3.And(t <= 2**53, t >= -2**53), r == t))
        ENG.add(z3.IsInt(r))
    else:
        g = None
    return SReal(r, g=g)


def _near(r, t):
    lo, hi = _frac(1 - U), _frac(1 + U)
    if ENG.must(t >= 0):
        ENG.add(z3.And(r >= t*lo, r <= t*hi))
    elif ENG.must(t <= 0):
        ENG.add(z3.And(r <= t*lo, r >= t*hi))
    else:
        e = _frac(U)*_absr(t)
        ENG.add(z3.And(r >= t - e, r <= t + e))


def _floor(t):
    """floor of a real term, as a fresh integer."""
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long() // t.denominator_as_long())
    if t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    k = ('floor', t.get_id())
    r = ENG.defs.get(k)
    if r is None:
        r = ENG.fresh('k', z3.IntSort())
        ENG.add(z3.And(z3.ToReal(r) <= t, t < z3.ToReal(r) + 1))
        ENG.defs[k] = r
        ENG.defs[('keep', t.get_id())] = t
    return r


def _idiv(a, c):
    """a div c for a positive constant c, as a fresh integer."""
    a = z3.simplify(a)
    if z3.is_int_value(a):
        return z3.IntVal(a.as_long() // c)
    if c == 1:
        return a
    k = ('div', a.get_id(), c)
    r = ENG.defs.get(k)
    if r is None:
        r = ENG.fresh('q', z3.IntSort())
        ENG.add(z3.And(c*r <= a, a < c*r + c))
        ENG.defs[k] = r
        ENG.defs[('keep', a.get_id())] = a
    return r


def _imod(a, c):
    return a - c*_idiv(a, c)


def _pow2(c):
    """Is the rational c a (possibly negative) power of two?"""
    c = _abs(Fraction(c))
    if c == 0:
        return True
    n, d = c.numerator, c.denominator
    return n & (n-1) == 0 and d & (d-1) == 0


class _Val:
    __slots__ = ()
    __hash__ = None

    def __bool__(self):
        return ENG.decide(self._truth())

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return '<sym>'


def _monotone(a, b):
    """Rounding never crosses a double: for a rounded term compared with a
    constant that is one."""
    for x, c in ((a, b), (b, a)):
        t = ENG.defs.get(('unrounded', x.get_id()))
        v = _const(c) if t is not None else None
        if v is None or Fraction(_float(v)) != v or ('mono', x.get_id(), v) in ENG.defs:
            continue
        ENG.defs[('mono', x.get_id(), v)] = x
        c = _frac(v)
        ENG.add(z3.And(z3.Implies(t <= c, x <= c), z3.Implies(t >= c, x >= c)))


def _cmp(op):
    def f(self, o):
        if _isinstance(o, (_float, np.floating)) and not math.isfinite(o):
            if o != o:
                return op == 'ne'
            s = o > 0
            return {'lt': s, 'le': s, 'gt': not s, 'ge': not s, 'eq': False, 'ne': True}[op]
        if _isinstance(o, SCplx) or _isinstance(o, _complex):
            return getattr(cplx(self), f"__{op}__")(o)
        n = _num(o)
        if n is None:
            if op == 'eq':
                return NotImplemented if not (o is None or _isinstance(o, (_str, bytes))) else False
            if op == 'ne':
                return NotImplemented if not (o is None or _isinstance(o, (_str, bytes))) else True
            return NotImplemented
        a, b = _num(self)[1], n[1]
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        if ENG.float_err:
            _monotone(a, b)
        t = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
             'eq': lambda: a == b, 'ne': lambda: a != b}[op]()
        return mkbool(t)
    return f


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mkint(t):
    c = z3.simplify(t)
    if z3.is_int_value(c):
        return c.as_long()
    return SInt(c)


def _cellint(a, b, op):
    if op == 'add':
        return mkint(a + b)
    if op == 'sub':
        return mkint(a - b)
    if op == 'mul':
        return mkint(a * b)
    raise AssertionError


def _arith(op, swap=False):
    def f(self, o):
        if _isinstance(o, (SCplx, _complex, np.complexfloating)):
            a, b = (o, self) if swap else (self, o)
            return cplx_op(op, cplx(a), cplx(b))
        n = _num(o)
        if n is None:
            if _isinstance(o, (_float, np.floating)):
                raise Unsupported('arithmetic with inf/nan')
            return NotImplemented
        ka, a = _num(self)
        kb, b = n
        A, B = self, o
        if swap:
            ka, a, kb, b, A, B = kb, b, ka, a, B, A
        if op in ('add', 'sub', 'mul'):
            if ka == kb == 'i':
                return _cellint(a, b, op)
            A, B = to_float(A), to_float(B)
            x, y = _rt(A), _rt(B)
            ga, gb = _grid(A), _grid(B)
            g = None if ga is None or gb is None else (ga + gb if op == 'mul' else _max(ga, gb))
            t = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
            ca, cb = _const(x), _const(y)
            exact = False
            if op == 'mul':
                exact = (ca is not None and _pow2(ca)) or (cb is not None and _pow2(cb))
            else:
                exact = ca == 0 or cb == 0
                # x - int(x) loses no bits
                if op == 'sub' and y.decl().kind() == z3.Z3_OP_TO_REAL:
                    k = ENG.defs.get(('floor', z3.simplify(x).get_id()))
                    exact = exact or (k is not None and k.eq(y.arg(0)))
                    k = ENG.defs.get(('trunc', z3.simplify(x).get_id()))
                    exact = exact or (k is not None and k.eq(y.arg(0)))
                if ENG.float_err and not exact and (ga is None) != (gb is None):
                    exact = ENG.must((x if gb is None else y) == 0)
            r = fl(t, exact, g=g)
            if op == 'mul' and ENG.float_err and not exact and (ca is None) != (cb is None) and r.t is not t and r.t.num_args() == 0:
                # a double below 1 times c is a double below c
                c, v = (ca, y) if cb is None else (cb, x)
                if c > 1 and ('below', r.t.get_id()) not in ENG.defs:
                    ENG.defs[('below', r.t.get_id())] = r.t
                    ENG.add(z3.And(z3.Implies(v < 1, r.t < _frac(c)), z3.Implies(v > -1, r.t > -_frac(c))))
            return r
        if op == 'truediv':
            A, B = to_float(A), to_float(B)
            x, y = _rt(A), _rt(B)
            cb = _const(y)
            if cb is None:
                if ENG.decide(y == 0):
                    raise ZeroDivisionError('division by zero')
            elif cb == 0:
                raise ZeroDivisionError('division by zero')
            if cb is not None:
                return fl(x * _frac(1/Fraction(cb)), _pow2(cb))
            return fl(x / y)
        if op in ('floordiv', 'mod'):
            cb = _const(b)
            if cb is None:
                if ENG.decide(b == 0):
                    raise ZeroDivisionError('division by zero')
            elif cb == 0:
                raise ZeroDivisionError('division by zero')
            if ka == kb == 'i':
                return _ifloor(a, b, op)
            A, B = to_float(A), to_float(B)
            x, y = _rt(A), _rt(B)
            q = _floor(x * _frac(1/Fraction(cb))) if cb is not None else _floor(x / y)
            if op == 'floordiv':
                return fl(z3.ToReal(q), isint=True)
            return fl(x - y*z3.ToReal(q), exact=(cb is not None and cb > 0 and (not ENG.float_err or ENG.must(x >= 0))))
        raise AssertionError(op)
    return f


def _ifloor(a, b, op):
    cb = _const(b)
    if cb is not None:
        if cb > 0:
            return mkint(_idiv(a, cb)) if op == 'floordiv' else mkint(_imod(a, cb))
        q = _idiv(-a, -cb)
        return mkint(q) if op == 'floordiv' else mkint(a - q*b)
    if ENG.decide(b > 0):
        q = a / b
    else:
        q = (-a) / (-b)
    return mkint(q) if op == 'floordiv' else mkint(a - q*b)


def _rt(x):
    return x.t if _isinstance(x, SReal) else _frac(x)


def _isint(x):
    g = _grid(x)
    return g is not None and g <= 0


def _grid(x):
    if _isinstance(x, SReal):
        return x.g
    f = Fraction(x)
    n, d = _abs(f.numerator), f.denominator
    if d == 1:
        return -((n & -n).bit_length() - 1) if 0 < n < 2**53 else 0
    return d.bit_length() - 1 if d & (d-1) == 0 and d < 2**40 else None


def _pow(self, o, swap=False):
    a, b = (o, self) if swap else (self, o)
    if is_sym(b):
        raise Unsupported('symbolic exponent')
    if _isinstance(b, (_float, np.floating)) and _float(b).is_integer():
        b = _int(b)
        a = to_float(a)
    if not _isinstance(b, (_int, np.integer)):
        if b == 0.5:
            return sym_sqrt(to_float(a))
        raise Unsupported('fractional exponent')
    b = _int(b)
    if b < 0:
        return 1.0 / _pow(a, -b)
    r = 1 if not _isinstance(a, SReal) else 1.0
    for _ in range(b):
        r = r * a
    return r


# sym -> axioms about the square root used here
def sym_sqrt(x):
    x = to_float(x)
    if ENG.decide(_rt(x) < 0):
        raise ValueError('math domain error')
    r = ENG.fresh('sqrt', z3.RealSort())
    ENG.add(z3.And(r >= 0, r*r == _rt(x)))
    return SReal(r)


class _Num(_Val):
    __slots__ = ()
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = (_cmp(k) for k in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))
    __add__, __radd__ = _arith('add'), _arith('add', True)
    __sub__, __rsub__ = _arith('sub'), _arith('sub', True)
    __mul__, __rmul__ = _arith('mul'), _arith('mul', True)
    __truediv__, __rtruediv__ = _arith('truediv'), _arith('truediv', True)
    __floordiv__, __rfloordiv__ = _arith('floordiv'), _arith('floordiv', True)
    __mod__, __rmod__ = _arith('mod'), _arith('mod', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, m=None):
        return _pow(self, o)

    def __rpow__(self, o):
        return _pow(self, o, True)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._wrap(_absr(self.t))

    def __neg__(self):
        return self._wrap(-self.t)

    def __hash__(self):
        return 0x5EED

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self
    conj = conjugate

    def sqrt(self):
        return sym_sqrt(self)

    def _truth(self):
        return self.t != 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __round__(self, n=None):
        return sym_round(self, n)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return sym_ceil(self)

    def __trunc__(self):
        return sym_int(self)

    def rint(self):
        return to_float(sym_round(self))

    def floor(self):
        return to_float(sym_floor(self))

    def ceil(self):
        return to_float(sym_ceil(self))


def _formatting():
    """Is the C code that asked for a plain number doing a % format?"""
    import dis
    f = sys._getframe(2)
    co = f.f_code.co_code
    op = co[f.f_lasti]
    return dis.opname[op].startswith('BINARY_OP') and co[f.f_lasti+1] in (6, 19)


class SInt(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _wrap(self, t):
        return mkint(t)

    def __index__(self):
        return ENG.concretise(self.t)

    def __int__(self):
        if _formatting():
            return 0
        return ENG.concretise(self.t)

    def __float__(self):
        if _formatting():
            return 0.0
        return _float(ENG.concretise(self.t))

    def bit_length(self):
        raise Unsupported('bit_length')

    def is_integer(self):
        return True

    def __lshift__(self, o):
        return mkint(self.t * (1 << _int(o))) if not is_sym(o) else _shift(self, o, True)

    def __rlshift__(self, o):
        return o << ENG.concretise(self.t)

    def __rshift__(self, o):
        if is_sym(o):
            return self >> ENG.concretise(o.t)
        return mkint(_idiv(self.t, 1 << _int(o)))

    def __rrshift__(self, o):
        return o >> ENG.concretise(self.t)

    def __and__(self, o):
        if _isinstance(o, (SBool, _bool)):
            o = mkint(_num(o)[1])
        if is_sym(o):
            return _bitwise('and', self, o)
        if not _isinstance(o, (_int, np.integer)):
            return NotImplemented
        return _mask(self.t, _int(o))
    __rand__ = __and__

    def __or__(self, o):
        n = _num(o)
        if n is None or n[0] != 'i':
            return NotImplemented
        return _or(self.t, n[1], o, self)
    __ror__ = __or__

    def __xor__(self, o):
        n = _num(o)
        if n is None or n[0] != 'i':
            return NotImplemented
        return _bitwise('xor', self, o)
    __rxor__ = __xor__

    def __invert__(self):
        return mkint(-self.t - 1)

    def to_bytes(self, length=1, byteorder='big', signed=False):
        return sbytes_of(self, length, byteorder, signed)


def _shift(a, b, left):
    k = ENG.concretise(b.t)
    return a << k


def _mask(t, m):
    """t & m for a constant mask."""
    if m == 0:
        return 0
    if m < 0:
        return mkint(t - _num(_mask(t, ~m))[1])
    out = z3.IntVal(0)
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            out = out + _imod(_idiv(t, 1 << i), 1 << (j-i))*(1 << i)
            i = j
        else:
            i += 1
    return mkint(out)


def _low_zero_bits(t):
    """k such that t is syntactically a multiple of 2**k."""
    t = z3.simplify(t)
    c = _const(t)
    if c is not None:
        return 200 if c == 0 else (c & -c).bit_length() - 1
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        return _sum([_low_zero_bits(x) for x in t.children()])
    if k == z3.Z3_OP_ADD:
        return _min(_low_zero_bits(x) for x in t.children())
    return 0


def _or(a, b, o=None, s=None):
    for x, y in ((a, b), (b, a)):
        c = _const(y)
        k = _low_zero_bits(x)
        if k and ENG.must(z3.And(y >= 0, y < (1 << _min(k, 128)))):
            return mkint(x + y)
        if c is not None and c >= 0:
            # x | c = x + (c & ~x)
            r = x
            n = _num(_mask(x, c))[1]
            return mkint(x + c - n)
    return _bitwise('or', mkint(a), mkint(b))


def _bitwise(op, a, b):
    for w in (8, 16, 32, 64):
        ok = True
        for x in (a, b):
            t = _num(x)[1]
            ok = ok and ENG.must(z3.And(t >= 0, t < (1 << w)))
        if ok:
            x, y = z3.Int2BV(_num(a)[1], w), z3.Int2BV(_num(b)[1], w)
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
            return mkint(z3.BV2Int(r))
    raise Unsupported('bitwise operation on unbounded integers')


class SReal(_Num):
    # g: the value is a multiple of 2**-g (None: not known)
    __slots__ = ('t', 'g', 'dec')

    def __init__(self, t, isint=False, dec=None, g=None):
        self.t = t
        self.g = 0 if isint else g
        self.dec = dec

    @property
    def isint(self):
        return self.g is not None and self.g <= 0

    def _wrap(self, t):
        return SReal(t, g=self.g)

    def __float__(self):
        if _formatting():
            return 0.0
        raise Unsupported('a symbolic float reached C code')

    def __int__(self):
        if _formatting():
            return 0
        raise Unsupported('a symbolic float reached C code')

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def round(self, decimals=0):
        return to_float(sym_round(self, decimals or None))

    def astype(self, t):
        return self

    def item(self):
        return self


class SBool(_Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _truth(self):
        return self.t

    def __hash__(self):
        return 0x5EED

    def __and__(self, o):
        if _isinstance(o, (_bool, np.bool_)):
            return self if o else False
        if _isinstance(o, SBool):
            return mkbool(z3.And(self.t, o.t))
        return mkint(_num(self)[1]) & o
    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, (_bool, np.bool_)):
            return True if o else self
        if _isinstance(o, SBool):
            return mkbool(z3.Or(self.t, o.t))
        return mkint(_num(self)[1]) | o
    __ror__ = __or__

    def __xor__(self, o):
        if _isinstance(o, (_bool, np.bool_)):
            o = SBool(z3.BoolVal(_bool(o)))
        return mkbool(z3.Xor(self.t, o.t))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def logical_not(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if _isinstance(o, (_bool, np.bool_)):
            return self if o else mkbool(z3.Not(self.t))
        if _isinstance(o, SBool):
            return mkbool(self.t == o.t)
        return mkint(_num(self)[1]) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if _isinstance(r, _bool) else mkbool(z3.Not(r.t))

    def __int__(self):
        return 1 if ENG.decide(self.t) else 0
    __index__ = __int__

    def _i(self):
        return mkint(_num(self)[1])

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._i() << o

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __deepcopy__(self, memo):
        return self


def cplx(x):
    if _isinstance(x, SCplx):
        return x
    if _isinstance(x, (_complex, np.complexfloating)):
        return SCplx(_float(x.real), _float(x.imag))
    return SCplx(x, 0)


def cplx_op(op, a, b):
    if op in ('add', 'sub'):
        f = (lambda p, q: p + q) if op == 'add' else (lambda p, q: p - q)
        return SCplx(f(a.real, b.real), f(a.imag, b.imag))
    if op == 'mul':
        return SCplx(a.real*b.real - a.imag*b.imag, a.real*b.imag + a.imag*b.real)
    if op == 'truediv':
        n = b.real*b.real + b.imag*b.imag
        return SCplx((a.real*b.real + a.imag*b.imag)/n, (a.imag*b.real - a.real*b.imag)/n)
    raise Unsupported(f"complex {op}")


class SCplx(_Val):
    __slots__ = ('real', 'imag')

    def __init__(self, re, im=0):
        self.real = re
        self.imag = im

    def __hash__(self):
        return 0x5EED

    def _truth(self):
        return z3.Or(_real(_num(self.real)[1]) != 0, _real(_num(self.imag)[1]) != 0)

    def conjugate(self):
        return SCplx(self.real, -self.imag)
    conj = conjugate

    def _b(op, swap=False):
        def f(self, o):
            if not (is_sym(o) or _isinstance(o, (_int, _float, _complex, np.number, np.bool_, Fraction))):
                return NotImplemented
            a, b = (cplx(o), self) if swap else (self, cplx(o))
            if op == 'truediv' and not _isinstance(o, (SCplx, _complex, np.complexfloating)) and not swap:
                return SCplx(self.real/o, self.imag/o)
            return cplx_op(op, a, b)
        return f
    __add__, __radd__, __sub__, __rsub__ = _b('add'), _b('add', True), _b('sub'), _b('sub', True)
    __mul__, __rmul__, __truediv__, __rtruediv__ = _b('mul'), _b('mul', True), _b('truediv'), _b('truediv', True)

    def __neg__(self):
        return SCplx(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __eq__(self, o):
        if not (is_sym(o) or _isinstance(o, (_int, _float, _complex, np.number))):
            return NotImplemented
        o = cplx(o)
        return land(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __abs__(self):
        return sym_sqrt(self.real*self.real + self.imag*self.imag)

    def __pow__(self, o):
        if o == 2:
            return self*self
        raise Unsupported('complex power')

    def __complex__(self):
        raise Unsupported('a symbolic complex reached C code')

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------ functions

def tb(x):
    """Truth value as a z3 Bool (no fork)."""
    if _isinstance(x, SBool):
        return x.t
    if is_sym(x):
        return x._truth()
    return z3.BoolVal(_bool(x))


def land(*xs):
    return mkbool(z3.And(*[tb(x) for x in xs])) if xs else True


def lor(*xs):
    return mkbool(z3.Or(*[tb(x) for x in xs])) if xs else False


def lnot(x):
    return mkbool(z3.Not(tb(x)))


def implies(a, b):
    return mkbool(z3.Implies(tb(a), tb(b)))


def ite(c, a, b):
    """Value-level if (no fork)."""
    if not is_sym(c):
        return a if c else b
    if _isinstance(a, SCplx) or _isinstance(b, SCplx) or _isinstance(a, _complex) or _isinstance(b, _complex):
        a, b = cplx(a), cplx(b)
        return SCplx(ite(c, a.real, b.real), ite(c, a.imag, b.imag))
    if _isinstance(a, (SBool, _bool)) and _isinstance(b, (SBool, _bool)):
        return mkbool(z3.If(tb(c), tb(a), tb(b)))
    (ka, x), (kb, y) = _num(a), _num(b)
    if ka == kb == 'i':
        return mkint(z3.If(tb(c), x, y))
    return SReal(z3.If(tb(c), _real(x), _real(y)), isint=_isint(to_float(a)) and _isint(to_float(b)))


def to_float(x):
    if _isinstance(x, SReal):
        return x
    if _isinstance(x, (SInt, SBool)):
        return fl(_real(_num(x)[1]), isint=True)
    if _isinstance(x, Fraction):
        return x
    return _float(x)


def sym_int(x):
    if _isinstance(x, SInt):
        return x
    if _isinstance(x, SBool):
        return mkint(_num(x)[1])
    if _isinstance(x, SReal):
        if x.dec is not None and ENG.must(z3.And(x.t < 2**45, x.t > -2**45)):
            k, m = x.dec
            if ENG.must(k >= 0):
                return mkint(_idiv(k, m))
            return mkint(z3.If(k >= 0, _idiv(k, m), -_idiv(-k, m)))
        if x.isint:
            k = _floor(x.t)
            if ENG.float_err:
                ENG.add(z3.ToReal(k) == x.t)
            return mkint(k)
        if ENG.must(x.t >= 0):
            return mkint(_floor(x.t))
        if ENG.must(x.t <= 0):
            return _trunc(x, -_floor(-x.t))
        if ENG.float_err:
            return mkint(_floor(x.t)) if ENG.decide(x.t >= 0) else _trunc(x, -_floor(-x.t))
        return mkint(z3.If(x.t >= 0, _floor(x.t), -_floor(-x.t)))
    return None


def _trunc(x, k):
    t, k = z3.simplify(x.t), z3.simplify(k)
    ENG.defs[('trunc', t.get_id())] = k
    ENG.defs[('keep', t.get_id())] = t
    return mkint(k)


def sym_floor(x):
    if _isinstance(x, SInt):
        return x
    return mkint(_floor(x.t))


def sym_ceil(x):
    if _isinstance(x, SInt):
        return x
    return mkint(-_floor(-x.t))


def sym_round(x, n=None):
    if _isinstance(x, (SInt, SBool)):
        if n is not None and n < 0:
            raise Unsupported('round to tens')
        return sym_int(x)
    scale = Fraction(10)**(n or 0)
    t = x.t * _frac(scale)
    # nearest integer, ties to even
    k = ENG.fresh('rnd', z3.IntSort())
    h = _frac(Fraction(1, 2))
    kr = z3.ToReal(k)
    ENG.add(z3.And(kr <= t + h, kr >= t - h))
    ENG.add(z3.Implies(z3.Or(kr == t + h, kr == t - h), k % 2 == 0))
    if n is None:
        return mkint(k)
    return fl(z3.ToReal(k) * _frac(1/scale), exact=(n == 0), isint=(n == 0)) if n == 0 else _round_dec(k, scale)


def _round_dec(k, scale):
    """The double nearest to k/scale; exact when k/scale is an integer."""
    t = z3.ToReal(k) * _frac(1/scale)
    dec = (k, _int(scale)) if scale >= 1 else None
    if not ENG.float_err:
        return SReal(t, dec=dec)
    r = ENG.fresh('rd', z3.RealSort())
    _near(r, t)
    ENG.errs.append(r == t)
    return SReal(r, dec=dec)


# ---------------------------------------------------- shadowed builtins

class _Meta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, cls._real) or _isinstance(x, cls._sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) or issubclass(c, cls._sym)

    def __getattr__(cls, n):
        return getattr(type.__getattribute__(cls, '_real'), n)

    def __eq__(cls, o):
        return o is cls or o is type.__getattribute__(cls, '_real')

    def __hash__(cls):
        return hash(type.__getattribute__(cls, '_real'))

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __or__(cls, o):
        return (cls, o)


class Int(metaclass=_Meta):
    _real = _int
    _sym = SInt

    @staticmethod
    def _make(*a, **k):
        if a and is_sym(a[0]):
            return sym_int(a[0])
        if a and hasattr(type(a[0]), '__sym_int__'):
            return a[0].__sym_int__()
        return _int(*a, **k)


class Float(metaclass=_Meta):
    _real = _float
    _sym = SReal

    @staticmethod
    def _make(*a, **k):
        if a and is_sym(a[0]):
            return to_float(a[0])
        if a and hasattr(type(a[0]), '__float__') and _isinstance(a[0], object) and type(a[0]).__module__.startswith('lsl'):
            return type(a[0]).__float__(a[0])
        return _float(*a, **k)


class Bool(metaclass=_Meta):
    _real = _bool
    _sym = SBool

    @staticmethod
    def _make(*a, **k):
        if a and is_sym(a[0]):
            return mkbool(tb(a[0]))
        return _bool(*a, **k)


class Complex(metaclass=_Meta):
    _real = _complex
    _sym = SCplx

    @staticmethod
    def _make(*a, **k):
        if any(is_sym(x) for x in a):
            if len(a) == 1:
                return cplx(a[0])
            return cplx(a[0]) + cplx(a[1])*1j
        return _complex(*a, **k)


def s_round(x, n=None):
    if is_sym(x):
        return sym_round(x, n)
    return _round(x, n) if n is not None else _round(x)


def s_abs(x):
    return _abs(x)


def _pick(cmpf, a, key, default=None, nodef=True):
    if len(a) == 1:
        a = list(a[0])
    if not a:
        if nodef:
            raise ValueError('arg is an empty sequence')
        return default
    if key is None and all(is_sym(x) or _isinstance(x, (_int, _float, np.number)) for x in a) and any(is_sym(x) for x in a):
        r = a[0]
        for x in a[1:]:
            c = cmpf(x, r)
            r = ite(c, x, r) if is_sym(c) else (x if c else r)
        return r
    k = key or (lambda x: x)
    r = a[0]
    for x in a[1:]:
        if cmpf(k(x), k(r)):
            r = x
    return r


_ND = object()


def s_min(*a, key=None, default=_ND):
    return _pick(lambda x, r: x < r, a, key, default, default is _ND)


def s_max(*a, key=None, default=_ND):
    return _pick(lambda x, r: x > r, a, key, default, default is _ND)


SHADOW = {'int': Int, 'float': Float, 'bool': Bool, 'complex': Complex, 'round': s_round, 'min': s_min, 'max': s_max}


# --------------------------------------------------------------- bytes

def sbytes_of(v, n, order, signed=False):
    t = _num(v)[1]
    lo, hi = (-(1 << (8*n-1)), 1 << (8*n-1)) if signed else (0, 1 << 8*n)
    if ENG.decide(z3.Or(t < lo, t >= hi)):
        raise OverflowError('int too big to convert')
    out = [mkint(_imod(_idiv(t, 1 << 8*i), 256)) for i in range(n)]
    return out[::-1] if order == 'big' else out


# ----------------------------------------------------------- module glue

class SymMath(types.SimpleNamespace):
    """math with symbolic floor/ceil/sqrt/... ; anything else must be concrete."""

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(is_sym(x) for x in a):
                raise Unsupported(f"math.{n} of a symbolic value")
            return f(*a)
        return g

    @staticmethod
    def floor(x):
        return sym_floor(x) if is_sym(x) else math.floor(x)

    @staticmethod
    def ceil(x):
        return sym_ceil(x) if is_sym(x) else math.ceil(x)

    @staticmethod
    def trunc(x):
        return sym_int(x) if is_sym(x) else math.trunc(x)

    @staticmethod
    def sqrt(x):
        return sym_sqrt(x) if is_sym(x) else math.sqrt(x)

    @staticmethod
    def fabs(x):
        return abs(x) if is_sym(x) else math.fabs(x)

    @staticmethod
    def fmod(x, y):
        if is_sym(x) or is_sym(y):
            q = sym_int(to_float(x)/y) if is_sym(to_float(x)/y) else _int(x/y)
            return x - y*q
        return math.fmod(x, y)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else math.isnan(x)

    @staticmethod
    def isfinite(x):
        return True if is_sym(x) else math.isfinite(x)

    @staticmethod
    def modf(x):
        if is_sym(x):
            i = to_float(sym_int(x))
            return x - i, i
        return math.modf(x)


SMATH = SymMath()


def patch(mod, **extra):
    """Shadow the builtins in a module of the library; returns an undo list."""
    undo = []
    d = dict(SHADOW)
    if _isinstance(getattr(mod, 'math', None), types.ModuleType) and mod.math is math:
        d['math'] = SMATH
    d.update(extra)
    for k, v in d.items():
        had = k in mod.__dict__
        undo.append((mod, k, had, mod.__dict__.get(k)))
        mod.__dict__[k] = v
    return undo


def unpatch(undo):
    for mod, k, had, old in reversed(undo):
        if had:
            mod.__dict__[k] = old
        else:
            mod.__dict__.pop(k, None)
