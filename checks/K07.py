import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, kern
from kern_common import *

KS, OS = 7, 64


def i0(x):
    t = r = 1.0
    k = 1
    while t > 1e-18*r:
        t *= (x/2/k)**2
        r += t
        k += 1
    return r


def table():
    """sinc times Kaiser-Bessel at 1/64 pixel steps."""
    out = []
    for i in range(KS*OS//2+1):
        x = i/OS
        q = 1.0 - (2*x/KS)**2
        s = 1.0 if x == 0 else math.sin(math.pi*x)/(math.pi*x)
        out.append(s*i0(8.6*math.sqrt(q))/i0(8.6) if q >= 0 else 0.0)
    return out


KERN = table()


def ssqrt(w):
    return math.copysign(math.sqrt(abs(w)), w)


def dft2(G, n, sign):
    rows = [[rowdft(G[r*n:(r+1)*n], q, n, sign) for q in range(n)] for r in range(n)]
    out = [None]*(n*n)
    for q in range(n):
        col = [rows[r][q] for r in range(n)]
        for k in range(n):
            out[k*n+q] = rowdft(col, k, n, sign)
    return out


def rowdft(x, q, n, sign):
    v = Cx(0.0, 0.0)
    for k, a in enumerate(x):
        ph = 2*math.pi*((k*q) % n)/n
        v = v + a*Cx(kern.snap(math.cos(ph)), kern.snap(sign*math.sin(ph)))
    return v


def gridder(n, res, wres, nv, us, vs, ws, pos=None):
    def oracle(cx):
        # planes: a new one where sqrt(w) has grown by wres
        planes, first = [], None
        w = [ws[i] if ws is not None else cx.get('w', i) for i in range(nv)]
        for i in range(nv):
            if first is None or (ws is not None and ssqrt(ws[i]) >= first + wres):
                planes.append([])
                first = ssqrt(ws[i]) if ws is not None else 0.0
            planes[-1].append(i)
        out = []
        for name in 'xy':
            total = [Cx(0.0, 0.0)]*(n*n)
            for pl in planes:
                G = [Cx(0.0, 0.0)]*(n*n)
                for i in pl:
                    u, v = us[i], vs[i]
                    if abs(u) > n//2*res or abs(v) > n//2*res:
                        continue
                    ci, cj = v/-res, u/res
                    ci, cj = ci + n*(ci < 0), cj + n*(cj < 0)
                    for m in range(-(KS//2), KS//2+1):
                        p = math.floor(ci+0.5) + m
                        a = KERN[int(abs(ci-p)*OS)]
                        for l in range(-(KS//2), KS//2+1):
                            q = math.floor(cj+0.5) + l
                            b = KERN[int(abs(cj-q)*OS)]
                            at = (p % n)*n + q % n
                            G[at] = G[at] + cx.get(name, i)*(a*b)
                avg = 0.0
                for i in pl:
                    avg = avg + w[i]
                avg = avg*(1.0/len(pl))
                F = dft2(G, n, -1)
                for r in range(n):
                    for c in range(n):
                        dm, dl = (x - n*(x > n//2) for x in (r, c))
                        q = (dl*dl + dm*dm)/(n*res)**2
                        F[r*n+c] = F[r*n+c]*kern.expi(avg*(-2*math.pi*(math.sqrt(1-q)-1)))*(1/n**2) if q < 1 else Cx(0.0, 0.0)
                total = [s+t for s, t in zip(total, dft2(F, n, 1))]
            out.append(([n, n], total))
        N = n*OS//2
        half = KERN[:KS*OS//2]
        c1 = [(half[0] + 2*sum(k*math.cos(math.pi*j*(i+0.5)/N) for j, k in enumerate(half) if j))/OS for i in range(n//2+2)]
        side = [c1[i] if i < n//2 else c1[n-i] for i in range(n)]
        out.append(([n, n], [a*b for a in side for b in side]))
        return out
    return oracle


def pts(vals):
    return [float(v) for v in vals]


def case(typ, size, res, wres, us, vs, ws, before=None, wsym=None):
    nv, n = len(us), int(size/res+0.5)
    A = lambda nm, v: Arr(nm, [nv], FLOAT64, vals=pts(v))
    args = [A('pu', us), A('pv', vs), A('pw', ws) if wsym is None else Arr('w', [nv], FLOAT64, bound=wsym),
            Arr('x', [nv], typ, bound=16.0), Arr('y', [nv], typ, bound=4.0), size, res, wres]
    lab = f"{NP[typ]}, {n} x {n} pixels of {res}, {nv} visibilities at u={us} v={vs} w={ws if wsym is None else 'any'}" + \
        (f", after a {before[0]/before[1]:g} pixel plane" if before else '')

    def pre(K, st):
        if wsym is not None:
            prev = bv.fconst(0.0, 'f64')
            AT.nonneg = {f"w{i}" for i in range(nv)}
            for i in range(nv):
                w = bv.fvar(f"w{i}", 'f64')
                st.pc.append(bv.mk('fcmp_oge', 1, (w, prev)))
                st.pc.append(bv.mk('fcmp_ole', 1, (w, bv.fconst(wsym, 'f64'))))
                prev = w
    c = Case(lab, 'WProjection', args, gridder(n, res, wres, nv, us, vs, ws if wsym is None else None), pre)

    def fix(env):
        if wsym is not None:
            for i, v in enumerate(sorted(abs(env[f"w{i}"]) for i in range(nv))):
                env[f"w{i}"] = v
    c.fix_env = fix
    c.tol = 1e-4
    if before:
        bs, br = before
        one = [[1.0, 0.0]]
        c.before = [('WProjection', [Arr('b', [1], FLOAT64, vals=[0.0]), Arr('b', [1], FLOAT64, vals=[0.0]), Arr('b', [1], FLOAT64, vals=[0.0]),
                                     Arr('b', [1], typ, vals=one), Arr('b', [1], typ, vals=one), bs, br, wres])]
    return c


def mismatch(k):
    def oracle(cx):
        raise Stop
    n = [2]*5
    n[k] = 1
    args = [Arr(nm, [m], FLOAT64, vals=[0.1*(j+1) for j in range(m)]) for nm, m in zip('pqr', n)] + \
        [Arr('x', [n[3]], COMPLEX64), Arr('y', [n[4]], COMPLEX64), 4.0, 0.5, 0.1]
    c = Case(f"arrays of {n} values", 'WProjection', args, oracle)
    c.refuse = True
    return c


def cases(thorough):
    out = []
    for typ in (COMPLEX64, COMPLEX128):
        out += [case(typ, 4.0, 0.5, 0.1, [0.3], [0.4], [0.0]),                                  # one plane
                case(typ, 4.0, 0.5, 0.1, [0.3, -1.2, 0.7], [0.0, 1.1, -0.45], [0.0, 0.001, 0.002]),
                case(typ, 4.0, 0.5, 0.1, [0.3, -1.2, 0.7, 1.6], [0.0, 1.1, -0.45, -1.7], [0.0, 0.3, 0.31, 2.0]),
                case(typ, 4.0, 0.5, 0.1, [-0.62, 1.31, 0.2], [0.9, -1.4, 0.1], [-1.3, -0.4, 0.25])]
    T = COMPLEX64
    out += [case(T, 4.0, 0.5, 0.1, [0.3, -1.2, 0.7, 1.3, -0.4], [0.0, 1.1, -0.45, -1.7, 0.6], [0.0, 0.0064, 0.0225, 0.0529, 0.0676]),   # steps of 0.8-1.5
            case(T, 4.5, 0.5, 0.1, [-1.9, 0.7], [1.93, -0.71], [0.0, 0.5]),                      # odd size
            case(T, 8.0, 1.0, 0.3, [3.9, -3.93], [-3.96, 3.8], [0.5, 0.9]),                      # wrap around the edges
            case(T, 4.0, 0.5, 0.1, [0.3, 2.2, -9.7, 1e6], [0.4, 0.1, 0.2, -1e6], [0.0, 0.1, 0.2, 0.3]),   # off the plane
            case(T, 4.0, 0.5, 0.1, [0.3, 0.1], [0.4, -7.7], [0.0, 0.0]),
            case(T, 4.0, 0.5, 0.1, [0.3], [0.4], [0.2], before=(8.0, 0.5)),                      # history
            case(T, 8.0, 0.8, 0.1, [0.3, 1.0], [0.4, -2.1], [0.2, 1.7], before=(8.0, 1.0)),
            case(T, 4.0, 0.5, 0.1, [0.3, -1.2], [0.4, 0.9], None, wsym=0.009),                   # any w within one plane
            case(T, 4.0, 0.5, 0.1, [], [], [])]
    out += [mismatch(k) for k in range(5)]
    if thorough:
        for k in range(12):
            us = [round(-1.9 + 0.31*((5*k+3*j) % 12), 3) for j in range(4)]
            vs = [round(1.88 - 0.33*((7*k+5*j) % 11), 3) for j in range(4)]
            out.append(case(T if k % 2 else COMPLEX128, 4.0, 0.5, 0.05*(1+k % 3), us, vs, sorted(round(0.17*((3*k+j*j) % 9)-0.6, 3) for j in range(4))))
        out.append(case(T, 6.0, 0.5, 0.1, [0.3, -1.2, 2.8], [0.4, 0.9, -2.9], [0.0, 0.7, 1.9]))
    return out


def body(c):
    b = Bench(c, ['lsl/imaging/gridder.cpp'], '_gridder', 'lsl.imaging._gridder', 'lsl/imaging/_gridder')
    cs = cases(common.thorough())
    c.bounds += ["visibilities and weights are symbols (within +-16 and +-4); w is a symbol in two cases, else concrete",
                 f"{len(cs)} sets of up to 5 positions on planes of 8-12 pixels a side, off-plane and edge positions, 1-4 w planes, a call for another size before"]
    c.stubs += ["FFTW plan/execute (2-D complex, 1-D REDFT01): the transforms they document", "gsl_sf_bessel_I0 by its series",
                "NumPy array creation and conversion", "floating-point arithmetic is arithmetic on the reals, agreement to 2e-5 of the largest possible output"]
    c.outside += ["more than 1024 w planes", "positions within rounding of a kernel table step", "rounding errors beyond the allowance"]
    common.parallel(c, [(lambda c, x=x: b.run(x)) for x in cs])


if __name__ == '__main__':
    common.run('K07', "symbolic execution of the LLVM IR of the gridder; polynomial equality decided by z3", body)
