import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, kern
from kern_common import *
from K01 import pfb_coeff, windows, TAPS
import K01


def samples(cx, name, real, ci8, i, ns, k):
    if k < 0:
        return Cx(0.0, 0.0) if not real else 0.0
    at = i*ns + k
    if ci8:
        return Cx(cx.get(name, 2*at), cx.get(name, 2*at+1))
    return cx.get(name, at)


def psd(real, ci8, ns, nst, L, overlap, clip, window, pfb, stokes):
    n = 2*L if real else L
    nfft = windows(ns, n, overlap)

    def oracle(cx):
        w = [pfb_coeff(k, n) for k in range(n*TAPS)] if pfb else [cx.get('w', k) for k in range(n)] if window else None
        np_ = 4 if stokes else 1
        out = [0.0]*(np_*nst*L)
        for i in range(nst):
            good = 0
            for j in range(nfft):
                S = []
                for name in ('xy' if stokes else 'x'):
                    S.append(K01.spectrum(cx, lambda k: samples(cx, name, real, ci8, i, ns, k), real, L, n, n*j//overlap, w, clip))
                    if S[-1] is None:
                        break
                if S[-1] is None:
                    continue
                good += 1
                for ch in range(L):
                    if stokes:
                        X, Y = S[0][ch], S[1][ch]
                        xy = X*Y.conj()
                        v = (X.abs2()+Y.abs2(), X.abs2()-Y.abs2(), xy.re*2.0, xy.im*2.0)
                    else:
                        v = (S[0][ch].abs2(),)
                    for p in range(np_):
                        out[(p*nst+i)*L+ch] = out[(p*nst+i)*L+ch] + v[p]
            if not good:
                raise Stop
            for p in range(np_):
                for ch in range(L):
                    at = (p*nst+i)*L+ch
                    out[at] = out[at]*(1.0/(n*good))
        return [(([4] if stokes else [])+[nst, L], out)]
    return oracle


def case(typ, ci8, ns, nst, L, overlap, clip=0, window=False, pfb=False, stokes=False):
    real = typ not in CPLX and not ci8
    n = 2*L if real else L
    dims = [nst, ns] + ([2] if ci8 else [])
    args = [Arr('x', dims, typ)] + ([Arr('y', dims, typ)] if stokes else []) + [L, overlap, clip, Win('w', n) if window else None]
    lab = (f"{NP[typ]}{' pairs' if ci8 else ''}, {nst} inputs x {ns} samples, {L} channels, overlap {overlap}"
           f"{', clip level %i' % clip if clip else ''}{', window' if window else ''}")
    return Case(lab, 'PFBPSD' if pfb else 'FPSD', args, psd(real, ci8, ns, nst, L, overlap, clip, window, pfb, stokes))


def cases(thorough, stokes):
    out = []

    def A(*a, **k):
        out.append(case(*a, stokes=stokes, **k))
    m = 1 if stokes else 2
    for typ, ci8 in ((INT8, 0), (INT16, 0), (INT32, 0), (INT64, 0), (FLOAT32, 0), (FLOAT64, 0), (INT8, 1), (COMPLEX64, 0), (COMPLEX128, 0)):
        A(typ, ci8, 9, m, 2, 1, window=True)
        A(typ, ci8, 13, 1, 2, 1, pfb=True)
    for typ, ci8, L, ov, ns in ((INT16, 0, 3, 2, 17), (INT16, 0, 3, 4, 11), (COMPLEX64, 0, 4, 2, 7), (COMPLEX64, 0, 5, 2, 8), (COMPLEX64, 0, 3, 3, 7),
                                (COMPLEX128, 0, 3, 1, 7), (COMPLEX64, 0, 1, 1, 3), (FLOAT32, 0, 4, 3, 12), (INT8, 0, 2, 4, 7), (INT8, 1, 5, 3, 8)):
        A(typ, ci8, ns, 2, L, ov)
        A(typ, ci8, ns, 2, L, ov, pfb=True)
    A(INT8, 0, 8 if not stokes else 4, 1, 2, 1, clip=5)
    A(INT8, 0, 4, 1, 1, 1, clip=5, window=True)
    A(FLOAT32, 0, 6 if not stokes else 3, 1, 2 if not stokes else 1, 2, clip=5, window=True)
    A(COMPLEX64, 0, 4 if not stokes else 2, 1, 2 if not stokes else 1, 1, clip=5)
    A(INT8, 1, 4 if not stokes else 2, 1, 2 if not stokes else 1, 2 if not stokes else 1, clip=5, window=True)
    A(COMPLEX64, 0, 4 if not stokes else 2, 1, 2 if not stokes else 1, 2 if not stokes else 1, clip=7, pfb=True)
    A(INT16, 0, 4, 1, 1, 2 if not stokes else 1, clip=7, pfb=True)
    A(COMPLEX128, 0, 2, 2 if not stokes else 1, 1, 1, clip=3, pfb=True)
    if thorough:
        for typ, ci8 in ((INT8, 0), (FLOAT64, 0), (INT8, 1), (COMPLEX128, 0)):
            for L, ov in itertools.product((1, 2, 3, 5, 6, 8), (1, 2, 3, 4)):
                n = L if (ci8 or typ in CPLX) else 2*L
                if ov > n:
                    continue
                A(typ, ci8, 2*n+1, 2, L, ov, window=True)
                A(typ, ci8, 2*n+1, 1, L, ov, pfb=True)
    return out


def mismatch(typ, xd, yd):
    def oracle(cx):
        raise Stop
    c = Case(f"{NP[typ]} inputs {xd} and {yd}", 'FPSD', [Arr('x', xd, typ), Arr('y', yd, typ), 2, 1, 0, None], oracle)
    c.refuse = True
    return c


def body_for(stokes):
    def body(c):
        if stokes:
            b = Bench(c, ['lsl/correlator/stokes.cpp'], '_stokes', 'lsl.correlator._stokes', 'lsl/correlator/_stokes')
        else:
            b = Bench(c, ['lsl/correlator/spec.cpp'], '_spec', 'lsl.correlator._spec', 'lsl/correlator/_spec')
        cs = cases(common.thorough(), stokes)
        if stokes:
            for m in ('FPSD', 'PFBPSD'):
                for xd, yd in (([2, 9], [1, 9]), ([2, 9], [2, 8]), ([1, 9], [2, 9]), ([2, 8], [2, 9])):
                    for typ in (INT16, COMPLEX64):
                        cs.append(mismatch(typ, xd, yd))
                        cs[-1].method = m
        c.bounds += ["samples of every supported type are symbols (floating-point samples within +-16), window coefficients within +-1",
                     f"{len(cs)} shapes: 1-2 inputs, 1-8 channels, overlap 1-4, up to 33 samples, blanking off or at 3, 5 or 7 counts; 4 filter bank taps"]
        c.stubs += ["FFTW plan/execute: the discrete Fourier transform they document", "array conversion of NumPy: the same values, contiguous",
                    "floating-point arithmetic is arithmetic on the reals, agreement to 2e-5 of the largest possible output"]
        c.outside += ["rounding errors beyond the allowance, NaN and infinite samples", "inputs with every transform blanked (0/0)"]
        cs.sort(key=lambda x: -x.args[-2])       # the blanked ones take longest
        common.parallel(c, [(lambda c, x=x: b.run(x)) for x in cs])
    return body


if __name__ == '__main__':
    common.run('K03', "symbolic execution of the LLVM IR of the spectrometer kernels; polynomial equality decided by z3", body_for(False))
