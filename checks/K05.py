import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, kern
from kern_common import *


def bengine(typ, ci8, nin, nch, nt):
    def oracle(cx):
        out = []
        for q in 'uv':
            fl = [cx.fl(q, i) for i in range(nin)]
            n = 0.0
            for f in fl:
                n = n + f
            if not cx.any([(q, i) for i in range(nin)]):
                out += [Cx(0.0, 0.0)]*(nch*nt)
                continue
            for ch in range(nch):
                for t in range(nt):
                    v = Cx(0.0, 0.0)
                    for i in range(nin):
                        at = (i*nch+ch)*nt+t
                        s = Cx(cx.get('x', 2*at), cx.get('x', 2*at+1)) if ci8 else cx.get('x', at)
                        s = s if isinstance(s, Cx) else Cx(s)
                        v = v + cx.get('c', i*nch+ch)*s*fl[i]
                    out.append(v/n)
        return [([2, nch, nt], out)]
    return oracle


def case(typ, ci8, ctyp, nin, nch, nt):
    args = [Arr('c', [nin, nch], ctyp, bound=2.0), Arr('x', [nin, nch, nt]+([2] if ci8 else []), typ),
            Arr('u', [nin], UINT8, flag=True), Arr('v', [nin], UINT8, flag=True)]
    lab = f"{NP[typ]}{' pairs' if ci8 else ''} with {NP[ctyp]} coefficients, {nin} inputs x {nch} channels x {nt} times"
    return Case(lab, 'BEngine', args, bengine(typ, ci8, nin, nch, nt))


def mismatch(cd, xd, ud, vd, typ=COMPLEX64):
    def oracle(cx):
        raise Stop
    c = Case(f"coefficients {cd}, data {xd}, validity {ud} and {vd}", 'BEngine',
             [Arr('c', cd, COMPLEX64), Arr('x', xd, typ), Arr('u', [ud], UINT8, flag=True), Arr('v', [vd], UINT8, flag=True)], oracle)
    c.refuse = True
    return c


def body(c):
    b = Bench(c, ['lsl/misc/beamformer.cpp'], '_beamformer', 'lsl.misc._beamformer', 'lsl/misc/_beamformer')
    cs = []
    for typ, ci8 in ((INT8, 0), (INT16, 0), (INT32, 0), (INT64, 0), (FLOAT32, 0), (FLOAT64, 0), (INT8, 1), (COMPLEX64, 0), (COMPLEX128, 0)):
        for ctyp in (COMPLEX64, COMPLEX128):
            cs += [case(typ, ci8, ctyp, 5, 3, 3), case(typ, ci8, ctyp, 2, 2, 67), case(typ, ci8, ctyp, 1, 1, 32)]
            if common.thorough():
                cs += [case(typ, ci8, ctyp, 12, 4, 33), case(typ, ci8, ctyp, 2, 3, 97)]
    for cd, xd, u, v in (([2, 2], [3, 2, 2], 2, 2), ([3, 2], [2, 2, 2], 3, 3), ([2, 2], [2, 3, 2], 2, 2), ([2, 3], [2, 2, 2], 2, 2),
                         ([2, 2], [2, 2, 2], 3, 2), ([2, 2], [2, 2, 2], 1, 2), ([2, 2], [2, 2, 2], 2, 3), ([2, 2], [2, 2, 2], 2, 1)):
        cs.append(mismatch(cd, xd, u, v))
    c.bounds += ["samples of every supported type, complex coefficients (within +-2) of both precisions and all validity flags are symbols",
                 "1-12 inputs, 1-4 channels, 3-97 times (the kernel works in blocks of 32), every pattern of flags, none valid included"]
    c.stubs += ["NumPy array creation and conversion", "floating-point arithmetic is arithmetic on the reals, agreement to 2e-5 of the largest possible output"]
    c.outside += ["rounding errors beyond the allowance, NaN and infinite samples", "validity flags other than 0 and 1"]
    common.parallel(c, [(lambda c, i=i: [b.run(x) for x in cs[i::16]]) for i in range(16)])


if __name__ == '__main__':
    common.run('K05', "symbolic execution of the LLVM IR of the beamformer kernel; polynomial equality under every flag pattern decided by z3", body)
