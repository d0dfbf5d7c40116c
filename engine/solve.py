"""
Translation of `bv.E` nodes to z3 and the (cached, counted) queries.
"""

import os
import sys
import time
import struct
import itertools
from fractions import Fraction

for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
import z3

from . import bv
from .bv import E


class Unknown(Exception):
    """The solver gave no verdict: inconclusive, never a pass."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0

    def as_dict(self):
        return {'queries': self.queries, 'discharged_by_renaming_cache': self.cached,
                'solver_s': round(self.solver_s, 3), 'unsat': self.unsat, 'sat': self.sat}


STATS = Stats()
TIMEOUT_MS = int(os.environ.get('VERIF_SOLVER_MS', '120000'))


def note(t0, r):
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1


class Conv:
    """E -> z3, bit-precise (floats as IEEE, round to nearest even)."""

    def __init__(self, rename=None):
        self.memo = {}
        self.rename = rename or {}
        self.side = []

    def bvv(self, x, w):
        if isinstance(x, E):
            return self.conv(x)
        return z3.BitVecVal(x, w)

    def boo(self, e):
        """1-bit value as z3 Bool."""
        if not isinstance(e, E):
            return z3.BoolVal(bool(e))
        k = ('b', e.id)
        r = self.memo.get(k)
        if r is not None:
            return r
        op = e.op
        if op.startswith('icmp_'):
            a, b = e.args
            w = a.w if isinstance(a, E) else b.w
            x, y = self.bvv(a, w), self.bvv(b, w)
            r = {'eq': lambda: x == y, 'ult': lambda: z3.ULT(x, y), 'slt': lambda: x < y}[op[5:]]()
        elif op.startswith('fcmp_'):
            x, y = (self.conv(a) for a in e.args)
            p = op[5:]
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': lambda: z3.fpEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y),
                    'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y),
                    'ne': lambda: z3.Not(z3.fpEQ(x, y)), 'no': lambda: z3.BoolVal(False)}
            if p == 'ord':
                r = z3.Not(un)
            elif p == 'uno':
                r = un
            else:
                r = base[p[1:]]()
                r = z3.And(z3.Not(un), r) if p[0] == 'o' else z3.Or(un, r)
        elif op == 'bnot':
            r = z3.Not(self.boo(e.args[0]))
        elif op in ('and', 'or', 'xor'):
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
            r = f(self.boo(e.args[0]), self.boo(e.args[1]))
        elif op == 'ite':
            r = z3.If(self.boo(e.args[0]), self.boo(e.args[1]), self.boo(e.args[2]))
        else:
            r = self.conv(e) == z3.BitVecVal(1, 1)
        self.memo[k] = r
        return r

    def conv(self, e):
        r = self.memo.get(e.id)
        if r is not None:
            return r
        r = self._conv(e)
        self.memo[e.id] = r
        return r

    def _fs(self, sort):
        return z3.Float32() if sort == 'f32' else z3.Float64()

    def _conv(self, e):
        op, w, a = e.op, e.w, e.args
        rne = z3.RNE()
        if op == 'v':
            name = self.rename.get(e.id, a[0])
            return z3.BitVec(name, w) if e.sort == 'bv' else z3.FP(name, self._fs(e.sort))
        if op == 'fc':
            return z3.fpBVToFP(z3.BitVecVal(bv.to_bits(e), w), self._fs(e.sort))
        if op.startswith('icmp_') or op.startswith('fcmp_') or op == 'bnot':
            return z3.If(self.boo(e), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.bvv(a[0], w), self.bvv(a[1], w)
            return {'add': lambda: x+y, 'sub': lambda: x-y, 'mul': lambda: x*y, 'and': lambda: x & y,
                    'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                    'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y),
                    'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        if op == 'extract':
            return z3.Extract(a[1], a[2], self.conv(a[0]))
        if op == 'concat':
            return z3.Concat(*[self.bvv(v, vw) for v, vw in zip(a[0::2], a[1::2])])
        if op == 'sext':
            return z3.SignExt(w - a[0].w, self.conv(a[0]))
        if op == 'ite':
            if e.sort == 'bv':
                return z3.If(self.boo(a[0]), self.bvv(a[1], w), self.bvv(a[2], w))
            return z3.If(self.boo(a[0]), self.conv(a[1]), self.conv(a[2]))
        if op == 'tbl':
            return self._tbl(e)
        if op == 'bits2f':
            return z3.fpBVToFP(self.conv(a[0]), self._fs(e.sort))
        if op == 'f2bits':
            return z3.fpToIEEEBV(self.conv(a[0]))
        if op == 'sitofp':
            return z3.fpSignedToFP(rne, self.conv(a[0]), self._fs(e.sort))
        if op == 'uitofp':
            return z3.fpUnsignedToFP(rne, self.conv(a[0]), self._fs(e.sort))
        if op in ('fptosi', 'fptoui'):
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            return f(z3.RTZ(), self.conv(a[0]), z3.BitVecSort(w))
        if op in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(rne, self.conv(a[0]), self._fs(e.sort))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return f(rne, self.conv(a[0]), self.conv(a[1]))
        if op == 'fneg':
            return z3.fpNeg(self.conv(a[0]))
        if op == 'fabs':
            return z3.fpAbs(self.conv(a[0]))
        if op == 'sqrt':
            return z3.fpSqrt(rne, self.conv(a[0]))
        if op == 'round':
            return z3.fpRoundToIntegral(z3.RNA(), self.conv(a[0]))
        if op == 'floor':
            return z3.fpRoundToIntegral(z3.RTN(), self.conv(a[0]))
        raise NotImplementedError(f"no z3 translation for '{op}'")

    def _tbl(self, e):
        tid, off, n = e.args
        vals = bv.table_values(tid)
        ow = off.w
        nb = max(1, (len(vals)-1).bit_length())

        def entry(o):
            v = 0
            for k in range(n):
                v |= (vals[o+k] if o+k < len(vals) else 0) << (8*k)
            return v

        bits = [bv.extract(off, i, i) for i in range(min(nb, ow))]
        zb = [self.boo(b) for b in bits]

        def build(base, i):
            if i < 0:
                return z3.BitVecVal(entry(base), 8*n)
            b = bits[i]
            if not isinstance(b, E):
                return build(base | (b << i), i-1)
            lo = build(base, i-1)
            hi = build(base | (1 << i), i-1)
            if lo.eq(hi):
                return lo
            return z3.If(zb[i], hi, lo)
        return build(0, len(bits)-1)


def _canon(e, ren, order):
    """Canonical key of an expression modulo the renaming of variables."""
    memo = {}

    def go(x):
        if not isinstance(x, E):
            return x
        k = memo.get(x.id)
        if k is not None:
            return k
        if x.op == 'v':
            if x.id not in ren:
                ren[x.id] = len(ren)
                order.append(x)
            k = ('v', ren[x.id], x.w, x.sort)
        else:
            k = (x.op, x.w, x.sort) + tuple(go(a) for a in x.args)
        # intern the tuples to keep comparisons cheap
        k = _intern.setdefault(k, len(_intern))
        k = ('#', k)
        memo[x.id] = k
        return k
    sys.setrecursionlimit(100000)
    return go(e)


_intern = {}
_cache = {}


def relevant(pc, goal):
    """Path conditions sharing (transitively) a variable with the goal."""
    want = set(v.id for v in bv.leaves(goal)) if isinstance(goal, E) else set()
    rest = [(p, _leafset(p)) for p in pc if isinstance(p, E)]
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for p, vs in rest:
            if vs & want:
                out.append(p)
                want |= vs
                changed = True
            else:
                keep.append((p, vs))
        rest = keep
    return out


_leafmemo = {}


def _leafset(p):
    r = _leafmemo.get(p.id)
    if r is None:
        r = frozenset(v.id for v in bv.leaves(p))
        _leafmemo[p.id] = r
    return r


def check_sat(conds, timeout=None):
    """Satisfiability of a conjunction of 1-bit values.  Returns (bool, model)
    where model maps variable name -> int (bit pattern)."""
    cs = []
    for c in conds:
        if not isinstance(c, E):
            if not c:
                return False, None
        else:
            cs.append(c)
    if not cs:
        return True, {}
    conv = Conv()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT_MS)
    for c in cs:
        s.add(conv.boo(c))
    t0 = time.time()
    r = s.check()
    note(t0, r)
    if r == z3.unknown:
        raise Unknown(s.reason_unknown())
    if r == z3.unsat:
        return False, None
    m = s.model()
    out = {}
    for c in cs:
        for v in bv.leaves(c):
            z = conv.conv(v)
            if v.sort == 'bv':
                out[v.args[0]] = m.eval(z, model_completion=True).as_long()
            else:
                b = m.eval(z3.fpToIEEEBV(z), model_completion=True)
                out[v.args[0]] = b.as_long()
    return True, out


def feasible(pc, cond):
    """Is pc & cond satisfiable?  (pc is known satisfiable.)"""
    if not isinstance(cond, E):
        return bool(cond)
    rel = relevant(pc, cond)
    ren, order = {}, []
    key = ('feas', _canon(cond, ren, order), tuple(sorted((_canon(p, ren, order) for p in rel), key=str)))
    if key in _cache:
        STATS.cached += 1
        return _cache[key]
    r, _ = check_sat(rel + [cond])
    _cache[key] = r
    return r


def valid(pc, claim):
    """Does pc imply claim?  Returns (True, None) or (False, model)."""
    if not isinstance(claim, E):
        if claim:
            return True, None
        r, m = check_sat(list(pc))
        return (False, m) if r else (True, None)
    rel = relevant(pc, claim)
    ren, order = {}, []
    key = ('valid', _canon(claim, ren, order), tuple(sorted((_canon(p, ren, order) for p in rel), key=str)))
    if key in _cache:
        STATS.cached += 1
        if _cache[key]:
            return True, None
    r, m = check_sat(rel + [bv.bnot(claim)])
    _cache[key] = not r
    if not r:
        return True, None
    # complete the model over the whole path condition
    r2, m2 = check_sat(list(pc) + [bv.bnot(claim)])
    return False, (m2 if r2 else m)


# --------------------------------------------------- floats as exact reals
class RealConv:
    """Translate a float expression to a z3 Real, every float operation taken
    as exact.  Integer leaves under sitofp/uitofp become reals through bv2int;
    opaque float leaves become real variables."""

    def __init__(self, pc=()):
        self.memo = {}
        self.bvc = Conv()
        self.den = []
        self.opaque = {}
        self.pc = list(pc)
        self.intleaves = []

    def conv(self, e):
        r = self.memo.get(e.id)
        if r is None:
            r = self._conv(e)
            self.memo[e.id] = r
        return r

    def _leaf(self, e):
        if e.op in ('sitofp', 'uitofp'):
            # conversions of provably equal integers are one leaf
            for o, z in self.intleaves:
                a, b = e.args[0], o.args[0]
                if o.op == e.op and a.w == b.w and valid(self.pc, bv.icmp('eq', a.w, a, b))[0]:
                    return z
            z = z3.Real(f"real!{e.id}")
            self.intleaves.append((e, z))
            self.opaque[f"real!{e.id}"] = e
            return z
        n = f"real!{e.id}"
        self.opaque[n] = e
        return z3.Real(n)

    def _conv(self, e):
        op, a = e.op, e.args
        if op == 'fc':
            fr = Fraction(a[0])
            return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.conv(a[0]), self.conv(a[1])
            if op == 'fadd':
                return x + y
            if op == 'fsub':
                return x - y
            if op == 'fmul':
                return x * y
            self.den.append(y)
            return x / y
        if op == 'fma':
            return self.conv(a[0])*self.conv(a[1]) + self.conv(a[2])
        if op == 'fneg':
            return -self.conv(a[0])
        if op in ('fpext', 'fptrunc'):
            return self.conv(a[0])
        if op == 'ite':
            return z3.If(self.bvc.boo(a[0]), self.conv(a[1]), self.conv(a[2]))
        return self._leaf(e)


def real_equal(pc, a, b, leaf_eq=None):
    """a == b with exact real arithmetic, equal opaque leaves identified by
    node identity.  Returns (True, None) or (False, None) on refutation."""
    rc = RealConv(pc)
    x, y = rc.conv(a), rc.conv(b)
    s = z3.Solver()
    s.set('timeout', TIMEOUT_MS)
    for d in rc.den:
        s.add(d != 0)
    s.add(x != y)
    t0 = time.time()
    r = s.check()
    note(t0, r)
    if r == z3.unknown:
        raise Unknown(s.reason_unknown())
    return r == z3.unsat


# ------------------------------------------------------- concrete evaluation
def evaluate(e, env):
    """Concrete value of an expression (ints for bv, Python float for floats)."""
    memo = {}

    def go(x):
        if not isinstance(x, E):
            return x
        if x.id in memo:
            return memo[x.id]
        op, w, a = x.op, x.w, x.args
        if op == 'v':
            r = env.get(a[0], 0)
            if x.sort != 'bv':
                r = bv.fval(bv.from_bits(r, x.sort))
        elif op == 'fc':
            r = a[0]
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            r = bv.binop(op, w, go(a[0]), go(a[1]))
        elif op == 'extract':
            r = bv.extract(go(a[0]), a[1], a[2])
        elif op == 'concat':
            r = 0
            for v, vw in zip(a[0::2], a[1::2]):
                r = (r << vw) | go(v)
        elif op == 'sext':
            r = bv.sext(go(a[0]), a[0].w, w)
        elif op == 'ite':
            r = go(a[1]) if go(a[0]) else go(a[2])
        elif op == 'bnot':
            r = 1 - go(a[0])
        elif op.startswith('icmp_'):
            ww = a[0].w if isinstance(a[0], E) else a[1].w
            r = bv.icmp(op[5:], ww, go(a[0]), go(a[1]))
        elif op == 'tbl':
            vals = bv.table_values(a[0])
            o = go(a[1])
            r = sum((vals[o+k] if o+k < len(vals) else 0) << (8*k) for k in range(a[2]))
        elif op == 'bits2f':
            r = bv.fval(bv.from_bits(go(a[0]), x.sort))
        elif op == 'f2bits':
            r = bv.to_bits(bv.fconst(go(a[0]), a[0].sort))
        elif op == 'sitofp':
            r = bv.fval(bv.sitofp(go(a[0]), a[0].w, x.sort))
        elif op == 'uitofp':
            r = bv.fval(bv.uitofp(go(a[0]), a[0].w, x.sort))
        elif op in ('fpext', 'fptrunc'):
            r = bv.fval(bv.fconst(go(a[0]), x.sort))
        elif op in ('fptosi', 'fptoui'):
            r = int(go(a[0])) & bv.mask(w)
        elif x.sort != 'bv':
            r = bv.fval(bv.fop(op, x.sort, *[bv.fconst(go(v), v.sort) for v in a]))
        else:
            raise NotImplementedError(op)
        memo[x.id] = r
        return r
    sys.setrecursionlimit(100000)
    return go(e)
