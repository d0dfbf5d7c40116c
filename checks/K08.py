import json
import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from engine import common, kern, npsym, pyrun, realtree, solve
from engine.npsym import Arr, V, ceval, cvar, differ, pos, val, var

C = 299792458.0
FS = 196e6


class Ant:
    def __init__(self, pol, stand, cable):
        self.pol, self.stand, self.cable = pol, stand, cable
        self.status = self.combined_status = 33


class Cable:
    """delay() and gain() by channel of the frequency axis the case uses."""
    def __init__(self, freqs, delays, gains):
        self.f, self.d, self.g = freqs, delays, gains

    def _at(self, freq, t):
        freq = np.atleast_1d(np.asarray(freq, dtype=float))
        out = np.empty(freq.shape, dtype=object)
        for i, f in enumerate(freq):
            k = [j for j, x in enumerate(self.f) if abs(x-f) < 1e-3]
            if not k:
                raise BadFreq(f"cable asked for {f:.3f} Hz, channels are {list(self.f)}")
            out[i] = t[k[0]]
        return out.view(Arr)

    def delay(self, frequency=49e6):
        return self._at(frequency, self.d)

    def gain(self, frequency=49e6):
        return self._at(frequency, self.g)


class BadFreq(Exception):
    pass


class Wrong(Exception):
    pass


class Tok:
    """An element of a kernel's result: nothing can be computed with it."""
    __slots__ = ('v',)

    def __init__(self, *v):
        self.v = v


def freqs(s):
    n = s['L'] if s['data'] != 'real' else 2*s['L']
    sr = s['sr'] or FS
    if s['data'] == 'real':
        return [k*sr/n for k in range(s['L'])] if n > 1 else [0.0]
    return [((k - n//2)*sr/n) + s['cf'] for k in range(n)]


def ants(s, stands_mod, mk):
    """mk(name, kind) gives values: symbols or numbers."""
    f = freqs(s)
    out = []
    seen = {}
    for sid, pol in s['order']:
        if sid not in seen:
            st = stands_mod.Stand(sid, 0, 0, 0)
            st.x, st.y, st.z = (mk(f"p{sid}{a}", 'pos') for a in 'xyz')
            seen[sid] = st
        d = [mk(f"d{sid}_{pol}_{k}", 'delay') for k in range(len(f))]
        if s.get('dc'):
            d[min(range(len(f)), key=lambda k: abs(f[k]))] = math.inf
        h = [mk(f"h{sid}_{pol}_{k}", 'gain') for k in range(len(f))]
        out.append(Ant(pol, seen[sid], Cable(f, d, [x*x for x in h])))
    return out


def center(s, mk):
    """(argument, az, alt): values or cos/sin-able symbols, in radians."""
    pc = s['pc']
    if pc == 'z':
        return 'z', 0.0, math.pi/2
    if pc == 'sym':
        az, alt = mk('az', 'deg'), mk('alt', 'deg')
        return (az, alt), az*(math.pi/180), alt*(math.pi/180)
    az, alt = math.radians(pc[1]), math.radians(pc[2])
    if pc[0] == 'ephem':
        import ephem
        b = ephem.FixedBody()
        b.compute(ephem.Observer())

        class Body:
            pass
        o = ephem.Observer()
        b._ra, b._dec = '0:00', '1:00'
        o.lat, o.lon, o.date, o.pressure = '34', '-107', '2020/1/1 0:00', 0
        b.compute(o)
        return b, float(b.az), float(b.alt)
    from astropy.coordinates import AltAz, SkyCoord
    import astropy.units as u
    fr = AltAz(az=az*u.rad, alt=alt*u.rad)
    return (fr if pc[0] == 'altaz' else SkyCoord(fr)), az, alt


def ctrig(x):
    if isinstance(x, V):
        return x.cos(), x.sin()
    return math.cos(x), math.sin(x)


def prescribed(s, A, az, alt):
    """delay[antenna][channel]."""
    (ca, sa), (ce, se) = ctrig(az), ctrig(alt)
    src = (ce*sa, ce*ca, se)
    return [[d - (src[0]*a.stand.x + src[1]*a.stand.y + src[2]*a.stand.z)/C if not npsym.is_inf(d) else d for d in a.cable.d] for a in A]


def layout(s):
    """(indices 1, indices 2, baselines as pairs of positions, all pairs)."""
    p1, p2 = (0, 1) if 'S' in s['fn'] else [{'X': 0, 'Y': 1, 'R': 0, 'L': 1}[c] for c in s['pol'].upper()]
    i1 = [i for i, (sid, p) in enumerate(s['order']) if p == p1]
    i2 = [i for i, (sid, p) in enumerate(s['order']) if p == p2]
    n = len(i1)
    full = [(i, j) for i in range(n) for j in range(i, n)]
    return i1, i2, [b for b in full if s['auto'] or b[0] != b[1]], full


def signals(s):
    n, ns = len(s['order']), s.get('ns', 6)
    if s['fn'] in ('X', 'XS'):
        d = np.zeros((n, s['L'], 3), dtype=np.complex64)
    elif s['data'] == 'real':
        d = np.zeros((n, ns), dtype=np.int16)
    elif s['data'] == 'ci8':
        from lsl.reader.base import CI8
        d = np.zeros((n, ns), dtype=CI8)
        d['re'] = d['im'] = np.arange(n)[:, None]+1
        return d
    else:
        d = np.zeros((n, ns), dtype=np.complex64)
    d += (np.arange(n)+1).reshape((n,) + (1,)*(d.ndim-1)).astype(d.dtype)
    return d


def rows(a, s):
    """Which rows of the input these are."""
    a = np.asarray(a)
    want = {'X': 3, 'XS': 3}.get(s['fn'], 3 if s['data'] == 'ci8' else 2)
    if a.ndim != want or (s['data'] == 'ci8' and a.dtype != np.int8):
        raise Wrong(f"kernel given {a.dtype} data of shape {a.shape}")
    full = signals(s)
    n = 2*full.shape[1] if s['data'] == 'ci8' and s['fn'] not in ('X', 'XS') else full[0].size
    out = []
    for r in a:
        v = {complex(x).real for x in r.ravel()}
        if len(v) != 1 or r.size != n:
            raise Wrong(f"kernel given a row that is not one of the input: {r.shape}")
        out.append(int(v.pop())-1)
    return out


class Kernels:
    def __init__(self, s):
        self.s = s
        self.calls = []
        self.nfft = {}

    def feng(self, pfb):
        def f(signals, freqs, delays, LFFT=64, overlap=1, sample_rate=FS, clip_level=0, window=None):
            self.calls.append({'pfb': pfb, 'rows': rows(signals, self.s), 'freqs': np.asarray(freqs), 'delays': np.asarray(delays, dtype=object), 'LFFT': LFFT, 'overlap': overlap,
                               'sr': sample_rate, 'clip': clip_level, 'window': window})
            n, k = len(self.calls[-1]['rows']), len(self.calls)-1
            # the number of transforms depends on the longest delay
            key = tuple(self.calls[-1]['rows'])
            if key not in self.nfft:
                self.nfft[key] = 2 + (npsym.CUR.choose(2) if len(self.nfft) < 2 else 0)
            nt = self.nfft[key]
            F = np.empty((n, LFFT, nt), dtype=object)
            v = np.empty((n, nt), dtype=object)
            for i in range(n):
                for t in range(nt):
                    v[i, t] = Tok('valid', k, i, t)
                    for c in range(LFFT):
                        F[i, c, t] = Tok('F', k, i, c, t)
            return F.view(Arr), v.view(Arr)
        return f

    def who(self, F, v):
        """Rows of what an X engine is given: [(call, row)]."""
        s = self.s
        if s['fn'] in ('X', 'XS'):
            v = np.asarray(v)
            if v.shape != (F.shape[0], F.shape[2]) or not (v == 1).all():
                raise Wrong(f"validity of shape {v.shape}")
            return [(None, r) for r in rows(F, s)]
        out = []
        nt = min(self.nfft.values())
        if F.shape[2:] != (nt,) or v.shape != (F.shape[0], nt):
            raise RuntimeError(f"X engine given {F.shape} transforms and {v.shape} flags of {nt} in common")
        for i in range(F.shape[0]):
            k, r = F[i, 0, 0].v[1:3]
            for c in range(F.shape[1]):
                for t in range(nt):
                    if F[i, c, t].v != ('F', k, r, c, t):
                        raise Wrong("X engine given reordered channels")
            for t in range(nt):
                if v[i, t].v != ('valid', k, r, t):
                    raise Wrong("validity flags of another input")
            out.append((k, r))
        if F.shape[1] != s['L']:
            raise Wrong("channels lost before the X engine")
        return out

    def xeng(self, np_):
        def f(signals1, signals2, sigValid1, sigValid2):
            a, b = self.who(signals1, sigValid1), self.who(signals2, sigValid2)
            self.x = (a, b)
            n, L = len(a), signals1.shape[1]
            full = [(i, j) for i in range(n) for j in range(i, n)]
            sh = (len(full), L) if np_ == 1 else (np_, len(full), L)
            out = np.empty(sh, dtype=object)
            for ix in np.ndindex(*sh):
                p, bl, c = ((0,) + ix)[-3:]
                i, j = full[bl]
                out[ix] = cvar(f"v{p}_{self.src(a[i])}_{self.src(b[j])}_{c}")
            return out.view(Arr)
        return f

    def src(self, t):
        k, r = t
        return r if k is None else self.calls[k]['rows'][r]

    def psd(self, pfb, stokes):
        def f(*a, LFFT=64, overlap=1, clip_level=0, window=None):
            m = 2 if stokes else 1
            self.calls.append({'pfb': pfb, 'rows': [rows(x, self.s) for x in a[:m]], 'LFFT': LFFT, 'overlap': overlap, 'clip': clip_level, 'window': window})
            n = len(self.calls[-1]['rows'][0])
            out = np.empty(((4,) if stokes else ()) + (n, LFFT), dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = cvar('v' + '_'.join(map(str, ix)))
            return out.view(Arr)
        return f

    def module(self):
        class M:
            FEngine, PFBEngine = staticmethod(self.feng(False)), staticmethod(self.feng(True))
            XEngine2, XEngine3 = staticmethod(self.xeng(1)), staticmethod(self.xeng(4))
        return M

    def specs(self, stokes):
        class M:
            FPSD, PFBPSD = staticmethod(self.psd(False, stokes)), staticmethod(self.psd(True, stokes))
            XEngine3 = staticmethod(self.xeng(4))
        return M


def mywindow(n):
    return np.arange(n)+1.0


def call(fx, s, A, pc, sig):
    kw = {}
    if s['fn'] not in ('X', 'XS'):
        kw.update(LFFT=s['L'], central_freq=s['cf'], pfb=s['pfb'], clip_level=s['clip'])
        if s['sr']:
            kw['sample_rate'] = s['sr']
        if s['window']:
            kw['window'] = mywindow
    if s['fn'] in ('FX', 'FXS'):
        kw['overlap'] = s['overlap']
    if s['fn'] in ('FX', 'FXS', 'X', 'XS'):
        kw.update(include_auto=s['auto'], gain_correct=s['gain'], return_baselines=s['bl'], phase_center=pc)
    if s['fn'] in ('FX', 'X'):
        kw['pol'] = s['pol']
    f = np.array(freqs(s))
    return {'FX': lambda: fx.FXMaster(sig, A, **kw), 'FXS': lambda: fx.FXStokes(sig, A, **kw), 'X': lambda: fx.XMaster(f, sig, A, **kw),
            'XS': lambda: fx.XStokes(f, sig, A, **kw), 'P': lambda: fx.SpecMaster(sig, **kw), 'PS': lambda: fx.StokesMaster(sig, A, **kw)}[s['fn']]()


def unpack(s, r):
    """(baselines or None, freq or None, output)."""
    r = r if isinstance(r, tuple) else (r,)
    want = 1 + (s['fn'] not in ('X', 'XS')) + (s['bl'] and s['fn'] not in ('P', 'PS'))
    if len(r) != want:
        raise Wrong(f"{len(r)} values returned")
    out = r[-1]
    f = r[-2] if s['fn'] not in ('X', 'XS') else None
    return (r[0] if s['bl'] and s['fn'] not in ('P', 'PS') else None), f, out


def symbolic(fx, stations, s):
    """One path: list of (what, got, want)."""
    def mk(n, kind):
        if kind == 'gain':
            return pos(n, 0.5, 2.0)
        return var(n, {'pos': 100.0, 'delay': 1e-6, 'deg': 360.0}[kind])
    A = ants(s, stations, mk)
    pc, az, alt = center(s, mk)
    K = Kernels(s)
    fx._core, fx._stokes, fx._spec = K.module(), K.specs(True), K.specs(False)
    sig = signals(s)
    bls, f, out = unpack(s, call(fx, s, A, pc, sig))
    F = freqs(s)
    pairs = []
    if f is not None:
        if np.shape(f) != (s['L'],):
            raise Wrong(f"{np.shape(f)} frequencies returned")
        pairs += [(f"frequency {k}", x, y) for k, (x, y) in enumerate(zip(f, F))]
    i1, i2, bl, full = layout(s)
    if s['fn'] in ('P', 'PS'):
        c, = K.calls
        want = [list(range(len(A)))] if s['fn'] == 'P' else [i1, i2]
        if c['rows'] != want:
            raise Wrong(f"kernel given rows {c['rows']} instead of {want}")
        settings(s, c)
        if c['overlap'] != 1:
            raise Wrong("kernel given overlapping transforms")
        sh = np.shape(out)
        for ix in np.ndindex(*sh):
            pairs.append((f"output {ix}", out[ix], cvar('v' + '_'.join(map(str, ix)))))
        return pairs, A, pc
    for c in K.calls:
        settings(s, c)
        if c['overlap'] != s['overlap'] or c['sr'] != (s['sr'] or FS):
            raise Wrong("kernel given another overlap or sample rate")
        pairs += [(f"frequency {k} of the F engine", x, y) for k, (x, y) in enumerate(zip(c['freqs'], F))]
    D = prescribed(s, A, az, alt)
    if K.calls:
        used = {t: (K.src(t), K.calls[t[0]]['delays'][t[1]]) for side in K.x for t in side}
        (r0, d0) = used[K.x[0][0]]
        ref = len(F)//2
        for t, (r, d) in used.items():
            if len(d) != len(F):
                raise Wrong("delays for another number of channels")
            for k in range(len(F)):
                if npsym.is_inf(D[r][k]):
                    if npsym.is_inf(d[k]):
                        raise Wrong("infinite delay given to the F engine")
                    continue
                if not npsym.is_inf(D[r0][k]):
                    pairs.append((f"delay of input {r} against input {r0}, channel {k}", (d[k]-d0[k])*1e6, (D[r][k]-D[r0][k])*1e6))
            pairs.append((f"delay of input {r} across the band", (d[ref]-d[-1])*1e6 if not npsym.is_inf(D[r][-1]) and not npsym.is_inf(D[r][ref]) else 0.0,
                          (D[r][ref]-D[r][-1])*1e6 if not npsym.is_inf(D[r][-1]) and not npsym.is_inf(D[r][ref]) else 0.0))
            for k in (ref,):
                if not isinstance(d[k], V) or d[k].re.is_const():
                    ok = float(d[k]) >= -1e-15
                else:
                    ok = not npsym.CUR.sat(npsym.CUR.conds + [(val(d[k]).re + 1e-12, 'lt')])
                if not ok:
                    raise Wrong(f"input {r} is given a negative delay at mid-band")
        lead = [d[ref] for r, d in used.values()]
    st = s['fn'] in ('FXS', 'XS')
    sh = ((4,) if st else ()) + (len(bl), len(F))
    if np.shape(out) != sh:
        raise Wrong(f"output of shape {np.shape(out)} instead of {sh}")
    if bls is not None:
        got = [(next(i for i, a in enumerate(A) if a is x), next(i for i, a in enumerate(A) if a is y)) for x, y in bls]
        if got != [(i1[i], i2[j]) for i, j in bl]:
            raise Wrong(f"baselines {got}")
    for p in range(4 if st else 1):
        for n, (i, j) in enumerate(bl):
            a, b = A[i1[i]], A[i2[j]]
            for c in range(len(F)):
                w = cvar(f"v{p}_{i1[i]}_{i2[j]}_{c}")
                if s['fn'] in ('X', 'XS'):
                    if npsym.is_inf(D[i1[i]][c]) or npsym.is_inf(D[i2[j]][c]):
                        continue
                    w = w*((D[i1[i]][c]-D[i2[j]][c])*(2j*math.pi*F[c])).exp()
                if s['gain']:
                    w = w/(a.cable.g[c]*b.cable.g[c]).sqrt()
                pairs.append((f"output {p} baseline {n} channel {c}", (out[p] if st else out)[n, c], w))
    return pairs, A, pc


def settings(s, c):
    if c['LFFT'] != s['L'] or c['clip'] != s['clip'] or c['pfb'] != s['pfb']:
        raise Wrong("kernel given other settings")
    w = c['window']
    if (w is not mywindow) if s['window'] else (w is not None and not np.array_equal(w(8), np.ones(8))):
        raise Wrong("kernel given another window")


# ------------------------------------------------------------------ replay
REPLAY = '''
sys.path.insert(0, ARGS['checks'])
import json, math, numpy as np
import K08
from lsl.correlator import fx, _core, _stokes, _spec
from lsl.common import stations
s, env = ARGS['s'], ARGS['env']
s['order'] = [tuple(x) for x in s['order']]
print(json.dumps(K08.real(fx, stations, _core, _stokes, _spec, s, env)))
'''


def real(fx, stations, core, stokes, spec, s, env):
    """The library against the compiled kernels called as prescribed."""
    import warnings
    warnings.simplefilter('ignore')
    mk = lambda n, kind: env[n]
    A = ants(s, stations, mk)
    for a in A:
        a.cable._at = lambda f, t, o=a.cable._at: np.asarray(o(f, t), dtype=float)
    pc, az, alt = center(s, mk)
    rng = np.random.RandomState(1)
    s = dict(s, ns=4096)
    n = len(A)
    if s['fn'] in ('X', 'XS'):
        sig = (rng.randn(n, s['L'], 50) + 1j*rng.randn(n, s['L'], 50)).astype(np.complex64)
    elif s['data'] == 'real':
        sig = (rng.randn(n, 4096)*100).astype(np.int16)
    elif s['data'] == 'complex':
        sig = (rng.randn(n, 4096) + 1j*rng.randn(n, 4096)).astype(np.complex64)
    else:
        from lsl.reader.base import CI8
        sig = np.zeros((n, 4096), dtype=CI8)
        sig['re'], sig['im'] = rng.randint(-7, 8, (n, 4096)), rng.randint(-7, 8, (n, 4096))
    x = sig
    if s['data'] == 'ci8' and s['fn'] not in ('X', 'XS'):
        x = sig.view(np.int8).reshape(n, 4096, 2)
    i1, i2, bl, full = layout(s)
    F = np.array(freqs(s))
    D = np.array(prescribed(s, A, az, alt), dtype=float)
    try:
        bls, f, out = unpack(s, call(fx, s, A, pc, sig))
    except Exception as e:
        return {'bad': f"raised {type(e).__name__}: {e}"}
    if f is not None and not np.allclose(f, F, atol=1e-3):
        return {'bad': f"frequencies {list(map(float, f))} instead of {list(map(float, F))}"}
    win = mywindow if s['window'] else None
    if s['fn'] in ('P', 'PS'):
        m = spec if s['fn'] == 'P' else stokes
        k = getattr(m, 'PFBPSD' if s['pfb'] else 'FPSD')
        want = k(*([x] if s['fn'] == 'P' else [x[i1], x[i2]]), LFFT=s['L'], overlap=1, clip_level=s['clip'], window=win)
    else:
        if s['fn'] in ('FX', 'FXS'):
            bad = ~np.isfinite(D)
            if bad.any():
                D[bad] = D[~bad].max()
            D = D - min(D[i1][:, len(F)//2].min(), D[i2][:, len(F)//2].min())
            k = getattr(core, 'PFBEngine' if s['pfb'] else 'FEngine')
            g = lambda ix: k(x[ix], F, D[ix], LFFT=s['L'], overlap=s['overlap'], sample_rate=s['sr'] or FS, clip_level=s['clip'], window=win)
            (F1, v1), (F2, v2) = g(i1), g(i2)
            nt = min(F1.shape[2], F2.shape[2])
            F1, v1, F2, v2 = F1[:, :, :nt], v1[:, :nt], F2[:, :, :nt], v2[:, :nt]
        else:
            F1, F2 = x[i1], x[i2]
            v1 = v2 = np.ones((len(i1), F1.shape[2]), dtype=np.uint8)
        X = stokes.XEngine3(F1, F2, v1, v2) if s['fn'] in ('FXS', 'XS') else core.XEngine2(F1, F2, v1, v2)[None]
        X = X.astype(complex)
        want = np.empty((X.shape[0], len(bl), len(F)), dtype=complex)
        for n_, (i, j) in enumerate(bl):
            v = X[:, full.index((i, j)), :]
            a, b = A[i1[i]], A[i2[j]]
            if s['fn'] in ('X', 'XS'):
                v = v*np.exp(2j*np.pi*F*(D[i1[i]]-D[i2[j]]))
            if s['gain']:
                v = v/np.sqrt(np.array(a.cable.g)*np.array(b.cable.g))
            want[:, n_] = v
        if s['fn'] in ('FX', 'X'):
            want = want[0]
        if bls is not None:
            got = [(A.index(p), A.index(q)) for p, q in bls]
            if got != [(i1[i], i2[j]) for i, j in bl]:
                return {'bad': f"baselines {got}"}
    if np.shape(out) != np.shape(want):
        return {'bad': f"output of shape {np.shape(out)} instead of {np.shape(want)}"}
    ok = np.isfinite(want)
    sc = np.abs(want[ok]).max() if ok.any() else 1.0
    d = np.abs(np.asarray(out)[ok]-want[ok])
    if not (d <= 2e-3*sc).all():
        k = np.unravel_index(np.nanargmax(np.where(ok, np.abs(np.asarray(out)-want), 0)), np.shape(want))
        return {'bad': f"output {tuple(map(int, k))} is {complex(out[k]):.4g} instead of {complex(want[k]):.4g}"}
    return {'ok': True}


# -------------------------------------------------------------------- cases
def std(n, how='xy'):
    if how == 'xy':
        return [(i+1, p) for i in range(n) for p in (0, 1)]
    if how == 'yx':
        return [(i+1, p) for i in range(n) for p in (1, 0)]
    if how == 'split':
        return [(i+1, p) for p in (0, 1) for i in range(n)]
    if how == 'tilps':
        return [(i+1, p) for p in (1, 0) for i in range(n)]
    if how == 'x':
        return [(i+1, 0) for i in range(n)]
    return [(n-i, p) for i in range(n) for p in ((0, 1) if i % 2 else (1, 0))]       # 'mixed'


def base(fn, **k):
    s = dict(fn=fn, order=std(2), L=2, data='complex', sr=None, cf=0.0, pfb=False, window=False, overlap=1, clip=0, auto=False, gain=False, bl=True, pol='XX', pc='z', dc=False)
    s.update(k)
    return s


EXT = ('lsl/correlator/_core', 'lsl/correlator/_stokes', 'lsl/correlator/_spec')


def cases(thorough):
    out = []
    A = lambda fn, **k: out.append(base(fn, **k))
    for fn in ('FX', 'FXS', 'X', 'XS'):
        S = fn.endswith('S')
        for auto in (False, True):
            for how in ('xy', 'yx', 'split', 'tilps', 'mixed'):
                for pol in (('XX',) if S else ('XX', 'YY', 'XY', 'YX', 'rl', 'LL')):
                    A(fn, order=std(2, how), auto=auto, pol=pol, pc='sym' if auto else 'z', L=2)
        for g in (False, True):
            A(fn, order=std(3), gain=g, pc='sym', auto=g, L=3)
            A(fn, order=std(3, 'mixed'), gain=True, auto=not g, pol='XY', L=2)
            A(fn, order=std(4, 'xy'), gain=True, auto=g, pol='YX', L=1)
        for pc in (('altaz', 33.0, 58.0), ('sky', 211.0, 41.0), ('ephem', 0, 0), 'sym'):
            A(fn, pc=pc, L=2, gain=True)
            A(fn, pc=pc, L=2, pol='XY', bl=False)
        if fn[0] == 'X':
            A(fn, order=std(3), data='complex', cf=38e6, sr=19.6e6, L=5, pc='sym')
        if not S:
            A(fn, order=std(3, 'x'), gain=True)
            A(fn, order=std(3, 'x'), auto=True)
    for fn in ('FX', 'FXS'):
        A(fn, data='real', dc=True, L=3)
        A(fn, data='real', dc=True, L=4, pol='XY', auto=True, gain=True)
        A(fn, data='ci8', L=2)
        A(fn, data='ci8', L=2, order=std(2, 'split'), pol='YY')
        A(fn, data='real', L=2, sr=98e6, overlap=2, clip=5)
        A(fn, data='complex', L=3, sr=19.6e6, cf=74.03e6, overlap=3, clip=9, window=True)
        A(fn, data='complex', L=4, sr=9.8e6, cf=38e6, pfb=True, overlap=2)
        A(fn, data='complex', L=5, sr=25e3, cf=38e6, pfb=True, clip=7)
    for fn in ('P', 'PS'):
        for how in ('xy', 'yx', 'split', 'tilps', 'mixed'):
            for data in ('real', 'complex', 'ci8'):
                A(fn, order=std(2, how), data=data, L=3, cf=0.0 if data == 'real' else 38e6, sr=None if how == 'xy' else 19.6e6)
        A(fn, data='complex', L=4, clip=5, window=True)
        A(fn, data='real', L=4, clip=6, pfb=True)
        A(fn, data='complex', L=1)
    if thorough:
        for fn in ('FX', 'FXS', 'X', 'XS'):
            for how in ('xy', 'yx', 'split', 'tilps', 'mixed'):
                for auto in (False, True):
                    A(fn, order=std(4, how), auto=auto, gain=True, pol='XY', pc='sym', L=3)
                    A(fn, order=std(3, how), auto=auto, gain=True, pol='YX', pc='sym', L=6)
    return out


def label(s):
    return f"{ {'FX': 'FXMaster', 'FXS': 'FXStokes', 'X': 'XMaster', 'XS': 'XStokes', 'P': 'SpecMaster', 'PS': 'StokesMaster'}[s['fn']]} " + \
        ', '.join(f"{k}={s[k]}" for k in ('order', 'L', 'data', 'pol', 'auto', 'gain', 'pc', 'pfb', 'window', 'overlap', 'clip', 'sr', 'cf', 'dc'))


def body(c):
    fx = pyrun.imp('lsl.correlator.fx')
    uv = pyrun.imp('lsl.correlator.uvutils')
    stations = pyrun.imp('lsl.common.stations')
    pyrun._watch()
    fx.np = npsym.NP()
    cs = cases(common.thorough())
    c.bounds += ["antenna positions, cable delays and gains of every channel, visibilities and (where noted) the phase centre are symbols",
                 f"{len(cs)} arrangements: 2-4 stands in 5 antenna orders, all polarization pairs, 1-6 channels, real, complex and 8-bit complex data"]
    c.stubs += ["the compiled engines by what K01-K05 establish: their results are symbols tied to the inputs they are given; counterexamples run on the compiled engines",
                "float arithmetic is arithmetic on the reals, agreement to 1e-9"]
    c.outside += ["antennas whose X and Y lists are not in the same stand order", "phase centres by name other than 'z'"]

    def one(c, s):
        rng = random.Random(common.SEED)
        npsym.reset()
        lab = label(s)

        def go():
            try:
                pairs, A, pc = symbolic(fx, stations, s)
            except (Wrong, BadFreq) as e:
                return ('wrong', str(e))
            except npsym.Unsupported:
                raise
            except Exception as e:
                return ('wrong', f"raised {type(e).__name__}: {e}")
            return ('pairs', pairs)
        try:
            with npsym.limit(100):
                paths = npsym.Paths(400).run(go)
        except npsym.Unsupported as e:
            if not replay(c, s, lab, rng, [], str(e)):
                c.open(f"{lab}: {e}")
            return
        n = 0
        for conds, (kind, x) in paths:
            if kind == 'wrong':
                bad = x
            else:
                n += len(x)
                try:
                    with npsym.limit(100):
                        k = differ([(g, w) for _, g, w in x])
                except (npsym.Unsupported, solve.Unknown) as e:
                    k = 0
                if k is None:
                    continue
                bad = x[k][0] + ' differs'
            if not replay(c, s, lab, rng, conds, bad):
                c.open(f"{lab}: {bad} (not reproduced)")
        c.ob(lab[:120], n=n, paths=len(paths))
        c.extra['paths'] = c.extra.get('paths', 0) + len(paths)
        c.func(*pyrun.SEEN)

    def replay(c, s, lab, rng, conds, why):
        for t in range(4):
            env = npsym.sample(rng, conds if t < 2 else [])
            if env is None:
                continue
            rng2 = random.Random(t)
            full = dict(env)
            for sid, pol in s['order']:
                for a in 'xyz':
                    full.setdefault(f"p{sid}{a}", rng2.uniform(-100, 100))
                for k in range(len(freqs(s))):
                    full.setdefault(f"d{sid}_{pol}_{k}", rng2.uniform(0, 1e-6))
                    full.setdefault(f"h{sid}_{pol}_{k}", rng2.uniform(0.5, 2))
            full.setdefault('az', 40.0)
            full.setdefault('alt', 50.0)
            full = {k: v for k, v in full.items() if k[0] in 'pdha'}
            rc, out, err = realtree.run_py(REPLAY, EXT, {'s': s, 'env': full, 'checks': os.path.dirname(os.path.abspath(__file__))})
            if rc == 0 and out and 'bad' in out:
                c.violation(f"{lab}: {out['bad']}", lab, {'case': s, 'values': full, 'why': why, 'observed': out['bad']})
                return True
            if rc != 0 and os.environ.get('VERIF_DEBUG'):
                print(err[-800:])
        return False
    common.parallel(c, [(lambda c, i=i: [one(c, s) for s in cs[i::16]]) for i in range(16)])


if __name__ == '__main__':
    common.run('K08', "symbolic execution of lsl/correlator/fx.py on arrays of polynomials; identities and branches decided by z3", body)
