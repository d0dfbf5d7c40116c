import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, kern
from kern_common import *


def channels(cx, name, typ, at):
    if typ == INT8:
        return Cx(cx.get(name, 2*at), cx.get(name, 2*at+1))
    return cx.get(name, at)


def conj(z):
    return Cx(z.re, z.im*(-1.0))


def xengine(typ, nst, L, nf, kind):
    """kind: 2 - one product, 3 - four linear products, 'S' - Stokes."""

    def oracle(cx):
        fl = {'a': 'u', 'b': 'v'}
        for p, q in fl.items():
            for s in range(nst):
                for f in range(nf):
                    # blanked transforms come as zeros from the F engines
                    for ch in range(L):
                        at = (s*L+ch)*nf+f
                        for k in ((2*at, 2*at+1) if typ == INT8 else (at,)):
                            cx.blank(p, k, q, s*nf+f)

        def mean(p, s1, q, s2, ch):
            if ch == 0:
                cx.some([((fl[p], s1*nf+f), (fl[q], s2*nf+f)) for f in range(nf)])
            v, n = Cx(0.0, 0.0), 0.0
            for f in range(nf):
                both = cx.fl(fl[p], s1*nf+f)*cx.fl(fl[q], s2*nf+f)
                v = v + channels(cx, p, typ, (s1*L+ch)*nf+f)*conj(channels(cx, q, typ, (s2*L+ch)*nf+f))*both
                n = n + both
            return v/n

        bl = [(s1, s2) for s1 in range(nst) for s2 in range(s1, nst)]
        if kind == 2:
            return [([len(bl), L], [mean('a', s1, 'b', s2, ch) for s1, s2 in bl for ch in range(L)])]
        prod = [[mean(p, s1, q, s2, ch) for s1, s2 in bl for ch in range(L)] for p, q in ('aa', 'ab', 'ba', 'bb')]
        if kind == 'S':
            XX, XY, YX, YY = prod
            prod = [[x+y for x, y in zip(XX, YY)], [x+y*(-1.0) for x, y in zip(XX, YY)], [z+conj(z) for z in XY],
                    [(z+conj(z)*(-1.0))*Cx(0.0, -1.0) for z in XY]]
        return [([4, len(bl), L], sum(prod, []))]
    return oracle


def case(typ, nst, L, nf, kind):
    dims = [nst, L, nf] + ([2] if typ == INT8 else [])
    args = [Arr('a', dims, typ), Arr('b', dims, typ), Arr('u', [nst, nf], UINT8, flag=True), Arr('v', [nst, nf], UINT8, flag=True)]
    lab = f"{NP[typ]}{' pairs' if typ == INT8 else ''}, {nst} inputs x {L} channels x {nf} transforms"
    c = Case(lab, 'XEngine2' if kind == 2 else 'XEngine3', args, xengine(typ, nst, L, nf, kind), key=f"{kind} {lab}")

    def fix(env):
        for k in list(env):
            if k[0] in 'uv':
                env[k] = 1
    c.fix_env = fix
    c.pre = lambda K, st: None
    return c


def mismatch(typ, kind, dims, vd):
    """Arrays of different dimensions: refused."""
    def oracle(cx):
        raise Stop
    n3 = [] if typ != INT8 else [2]
    args = [Arr('a', dims[0]+n3, typ), Arr('b', dims[1]+n3, typ), Arr('u', vd[0], UINT8, flag=True), Arr('v', vd[1], UINT8, flag=True)]
    c = Case(f"{NP[typ]} arrays {dims[0]} and {dims[1]}, validity {vd[0]} and {vd[1]}", 'XEngine2' if kind == 2 else 'XEngine3', args, oracle)
    c.refuse = True
    return c


def body(c):
    core = Bench(c, ['lsl/correlator/core.cpp'], '_core', 'lsl.correlator._core', 'lsl/correlator/_core')
    stokes = Bench(c, ['lsl/correlator/stokes.cpp'], '_stokes', 'lsl.correlator._stokes', 'lsl/correlator/_stokes')
    work = []
    for typ in (INT8, COMPLEX64, COMPLEX128):
        for k in (2, 3):
            work += [(core, case(typ, 2, 2, 2, k)), (core, case(typ, 4, 2, 3, k)), (core, case(typ, 1, 3, 6, k)), (core, case(typ, 3, 5, 1, k))]
        work += [(core, case(typ, 3, 1, 2, 2))]
    for typ in (COMPLEX64, COMPLEX128):
        work += [(stokes, case(typ, 2, 2, 2, "S")), (stokes, case(typ, 4, 2, 3, "S")), (stokes, case(typ, 1, 3, 6, "S")), (stokes, case(typ, 3, 5, 1, "S"))]
    if common.thorough():
        for typ in (INT8, COMPLEX64, COMPLEX128):
            for k in (2, 3):
                work += [(core, case(typ, 5, 3, 4, k)), (core, case(typ, 6, 2, 2, k)), (core, case(typ, 2, 8, 8, k))]
            if typ != INT8:
                work += [(stokes, case(typ, 5, 3, 4, 'S')), (stokes, case(typ, 6, 2, 2, 'S')), (stokes, case(typ, 2, 8, 8, 'S'))]
    ok3, ok2 = [2, 2, 2], [2, 2]
    for b, ks, typs in ((core, (2, 3), (INT8, COMPLEX64)), (stokes, ('S',), (COMPLEX64,))):
        for k in ks:
            for typ in typs:
                for d2 in ([1, 2, 2], [2, 1, 2], [2, 2, 1], [3, 2, 2]):
                    work.append((b, mismatch(typ, k, (ok3, d2), (ok2, ok2))))
                for v in ([1, 2], [2, 1], [2, 3]):
                    work.append((b, mismatch(typ, k, (ok3, ok3), (v, ok2))))
                    work.append((b, mismatch(typ, k, (ok3, ok3), (ok2, v))))
    c.bounds += ["all channel values symbols (floating point within +-16, int8 over all values), all validity flags symbols",
                 "1-4 inputs, 1-3 channels, 1-5 transforms, every pattern of flags with at least one valid transform per product"]
    c.stubs += ["NumPy array creation and conversion", "floating-point arithmetic is arithmetic on the reals, agreement to 2e-5 of the largest possible output"]
    c.outside += ["baselines with no valid transform (0/0)", "validity flags other than 0 and 1",
                  "transforms flagged invalid whose channels are not zero (the F engines never produce these: K01)"]
    k = 8
    common.parallel(c, [(lambda c, i=i: [b.run(x) for b, x in work[i::k]]) for i in range(k)])


if __name__ == '__main__':
    common.run('K02', "symbolic execution of the LLVM IR of the X engines; polynomial equality under every flag pattern decided by z3", body)
