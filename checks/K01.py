import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, kern
from kern_common import *

TAPS = 4


def samples(cx, real, ci8, i, ns, k):
    """Sample k of input i, zero before the start."""
    if k < 0:
        return Cx(0.0, 0.0) if not real else 0.0
    at = i*ns + k
    if ci8:
        return Cx(cx.get('x', 2*at), cx.get('x', 2*at+1))
    return cx.get('x', at)


def pfb_coeff(i, n):
    x = (i - n*TAPS/2.0 + 0.5)/n
    s = 1.0 if x == 0 else math.sin(math.pi*x)/(math.pi*x)
    return s*(0.54 - 0.46*math.cos(2*math.pi*i/(n*TAPS)))


def spectrum(cx, src, real, L, n, start, weight, clip):
    """One transform: (channels, valid)."""
    T = len(weight)//n if weight else 1
    xs = [src(start - n*(T-1) + k) for k in range(n*T)]
    ok = True
    if clip:
        for s in xs:
            if cx.atleast(s, clip):
                ok = False
                break
    if not ok:
        return None
    xs = [s if isinstance(s, Cx) else Cx(s) for s in xs]
    if weight:
        xs = [s*w for s, w in zip(xs, weight)]
    out = []
    for ch in range(L):
        b = ch if real else (ch - L//2) % L
        v = Cx(0.0, 0.0)
        for t in range(T):
            v = v + kern.odft(xs[t*n:(t+1)*n], b)
        out.append(v)
    return out


def windows(ns, n, overlap):
    """How many transforms that start every n/overlap samples fit."""
    j = 0
    while n*j//overlap + n <= ns:
        j += 1
    return j


def fengine(real, ci8, ns, nst, L, overlap, SR, clip, window, pfb, dmax):
    n = 2*L if real else L

    def oracle(cx):
        fifo = [cx.rnd(cx.get('d', i*L + L//2)*SR, 0, dmax) if dmax is not None else 0 for i in range(nst)]
        nfft = windows(ns - max(fifo), n, overlap)
        if nfft < 1:
            raise Stop
        w = [pfb_coeff(k, n) for k in range(n*TAPS)] if pfb else [cx.get('w', k) for k in range(n)] if window else None
        F = [None]*(nst*L*nfft)
        V = [0]*(nst*nfft)
        ref = 0 if real else L//2
        for i in range(nst):
            for j in range(nfft):
                s = spectrum(cx, lambda k: samples(cx, real, ci8, i, ns, k), real, L, n, fifo[i]+n*j//overlap, w, clip)
                V[i*nfft+j] = 0 if s is None else 1
                for ch in range(L):
                    if s is None:
                        v = Cx(0.0, 0.0)
                    else:
                        f, d = cx.get('f', ch), cx.get('d', i*L+ch)
                        ph = f*(d - fifo[i]/SR)*(2*math.pi) + cx.get('f', ref)*(fifo[i]/SR*2*math.pi)
                        v = s[ch]*kern.expi(ph)*(1/math.sqrt(n))
                    F[(i*L+ch)*nfft+j] = v
        return [([nst, L, nfft], F), ([nst, nfft], V)]
    return oracle


def case(typ, ci8, ns, nst, L, overlap, clip=0, window=False, pfb=False, dmax=0, SR=2.0):
    real = typ not in CPLX and not ci8
    n = 2*L if real else L
    dims = [nst, ns] + ([2] if ci8 else [])
    args = [Arr('x', dims, typ), Arr('f', [L], FLOAT64, bound=4.0), Arr('d', [nst, L], FLOAT64, bound=(dmax+0.49)/SR),
            L, overlap, SR, clip, Win('w', n) if window else None]
    lab = (f"{NP[typ]}{' pairs' if ci8 else ''}, {nst} inputs x {ns} samples, {L} channels, overlap {overlap}"
           f"{', clip level %i' % clip if clip else ''}{', window' if window else ''}, delays up to {dmax}.5 samples")

    def pre(K, st):
        for i in range(nst*L):
            d = bv.fvar(f"d{i}", 'f64')
            st.pc.append(bv.mk('fcmp_oge', 1, (d, bv.fconst(0.0, 'f64'))))
    c = Case(lab, 'PFBEngine' if pfb else 'FEngine', args,
             fengine(real, ci8, ns, nst, L, overlap, SR, clip, window, pfb, dmax), pre, (0, dmax))

    def fix(env):
        for k in env:
            if k[0] == 'd':
                env[k] = abs(env[k])
    c.fix_env = fix
    return c


def cases(thorough):
    out = []
    A = out.append
    # every sample type
    for typ, ci8 in ((INT8, 0), (INT16, 0), (INT32, 0), (INT64, 0), (FLOAT32, 0), (FLOAT64, 0), (INT8, 1), (COMPLEX64, 0), (COMPLEX128, 0)):
        A(case(typ, ci8, 9, 2, 2, 1, window=True, dmax=1))
        A(case(typ, ci8, 18, 1, 2, 1, pfb=True, dmax=1))
    # overlap, odd and even channel counts, delays
    for typ, L, ov, ns in ((INT16, 3, 2, 17), (INT16, 3, 4, 15), (COMPLEX64, 4, 2, 11), (COMPLEX64, 5, 2, 12), (COMPLEX64, 3, 3, 8),
                           (FLOAT32, 4, 3, 21), (INT8, 2, 4, 9)):
        A(case(typ, 0, ns, 2, L, ov, dmax=2))
        A(case(typ, 0, ns, 1, L, ov, pfb=True, dmax=1))
    A(case(INT8, 1, 12, 2, 5, 3, dmax=2))
    # blanking
    A(case(INT8, 0, 8, 1, 2, 1, clip=5))
    A(case(FLOAT32, 0, 6, 1, 2, 2, clip=5, window=True))
    A(case(COMPLEX64, 0, 4, 1, 2, 1, clip=5))
    A(case(INT8, 1, 4, 1, 2, 2, clip=5, window=True))
    A(case(COMPLEX64, 0, 4, 1, 2, 2, clip=7, pfb=True))
    A(case(INT16, 0, 4, 1, 1, 2, clip=7, pfb=True))
    if thorough:
        for typ, ci8 in ((INT8, 0), (FLOAT64, 0), (INT8, 1), (COMPLEX128, 0)):
            for L, ov in itertools.product((1, 2, 3, 5, 6, 8), (1, 2, 3, 4)):
                n = L if (ci8 or typ in CPLX) else 2*L
                if ov > n:
                    continue
                A(case(typ, ci8, 2*n+3, 2, L, ov, window=True, dmax=2))
                A(case(typ, ci8, 3*n+1, 2, L, ov, pfb=True, dmax=1))
    return out


def body(c):
    b = Bench(c, ['lsl/correlator/core.cpp'], '_core', 'lsl.correlator._core', 'lsl/correlator/_core')
    cs = cases(common.thorough())
    c.bounds += ["samples of every supported type are symbols (floating-point samples within +-16), window coefficients within +-1, "
                 "frequencies within +-4, delays from 0 to 2.49 samples: all symbols",
                 f"{len(cs)} shapes: 1-2 inputs, 1-8 channels, overlap 1-4, up to 29 samples, blanking off or at 5 or 7 counts; 4 filter bank taps"]
    c.stubs += ["FFTW plan/execute: the discrete Fourier transform they document", "array conversion of NumPy: the same values, contiguous",
                "floating-point arithmetic is arithmetic on the reals, agreement to 2e-5 of the largest possible output",
                "the number of threads does not matter (T and memory: K06)"]
    c.outside += ["rounding errors beyond the allowance, NaN and infinite samples", "negative delays (the callers remove the smallest delay)"]
    k = 8
    common.parallel(c, [(lambda c, i=i: [b.run(x) for x in cs[i::k]]) for i in range(k)])


if __name__ == '__main__':
    common.run('K01', "symbolic execution of the LLVM IR of the F engines; equality of trigonometric polynomials decided by z3", body)
