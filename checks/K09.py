import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from engine import common, npsym, pyrun, realtree, solve
from engine.npsym import Arr, V, differ, pos, val, var

C = 299792458.0
D2R = math.pi/180


class Site:
    def __init__(self, lat):
        self.lat = lat


class Bad(Exception):
    pass


def trig(x):
    return (x.cos(), x.sin()) if isinstance(x, V) else (math.cos(x), math.sin(x))


def frame(H, d, lat):
    """Unit vectors (u, v, w) in east, north, up for a source at hour angle H."""
    (cH, sH), (cd, sd), (cl, sl) = trig(H), trig(d), trig(lat)
    w = (cd*sH*-1.0, sd*cl - cd*cH*sl, sd*sl + cd*cH*cl)
    v = (sd*sH, cd*cl + sd*cH*sl, cd*sl - sd*cH*cl)          # towards larger declination
    u = (cH*1.0, sH*sl*-1.0, sH*cl)                              # towards larger right ascension
    return u, v, w


def antennas(st, n, mk, order=None):
    out = []
    for i in range(n):
        s = st.Stand(i+1, 0, 0, 0)
        s.x, s.y, s.z = (mk(f"p{i}{a}", 100.0) for a in 'xyz')
        out.append(st.Antenna(i+1 if order is None else order[i], stand=s))
    return out


def angles(s, mk):
    """(HA argument, radians), (dec argument, radians), (site argument, radians)."""
    import ephem
    from astropy.coordinates import Angle, EarthLocation
    import astropy.units as u
    from lsl import astro
    h = {'sym': lambda: (lambda x: (x, x*15.0*D2R))(mk('HA', 24.0)),
         'num': lambda: (-3.75, -3.75*15*D2R),
         'hms': lambda: (astro.hms(3, 25, 12.5), (3+25/60+12.5/3600)*15*D2R),
         'dms': lambda: (astro.dms(True, 33, 25, 12.5), -(33+25/60+12.5/3600)*D2R),
         'angle': lambda: (Angle(-41.25, unit=u.deg), -41.25*D2R),
         'hangle': lambda: (Angle(2.5, unit=u.hourangle), 2.5*15*D2R),
         'ephem': lambda: (ephem.hours('-2:30:00'), -2.5*15*D2R)}[s['ha']]()
    d = {'sym': lambda: (lambda x: (x, x*D2R))(mk('dec', 90.0)),
         'num': lambda: (12.5, 12.5*D2R),
         'dms': lambda: (astro.dms(True, 13, 25, 12.5), -(13+25/60+12.5/3600)*D2R),
         'angle': lambda: (Angle(61.25, unit=u.deg), 61.25*D2R),
         'ephem': lambda: (ephem.degrees('-12:30:00'), -12.5*D2R)}[s['dec']]()
    if s['site'] == 'sym':
        lat = mk('lat', math.pi/2)
        site = Site(lat), lat
    else:
        site = EarthLocation.from_geodetic(-107.0*u.deg, 34.5*u.deg, 2000*u.m), 34.5*D2R
    return h, d, site


def freqs(s, mk):
    f = s['freq']
    if f == 'scalar':
        return (lambda x: (x, (1,), [x]))(mk('f0', 88e6))
    if f == 'list':
        l = [mk(f"f{i}", 88e6) for i in range(2)]
        return l, (2,), l
    sh = f
    l = [mk(f"f{i}", 88e6) for i in range(int(np.prod(sh)))]
    return np.array(l, dtype=object if isinstance(l[0], V) else float).reshape(sh), sh, l


def uvw_case(uv, st, s, mk):
    A = antennas(st, s['n'], mk)
    (ha, H), (dec, d), (site, lat) = angles(s, mk)
    f, fsh, fl = freqs(s, mk)
    if isinstance(f, np.ndarray) and f.dtype == object:
        f = f.view(Arr)
    full = [(i, j) for i in range(s['n']) for j in range(i, s['n']) if s['auto'] or i != j]
    if s['given'] == 'antennas':
        arg, kw = A, {'include_auto': s['auto']}
    else:
        full = full[::-1] + [(j, i) for i, j in full]
        arg, kw = [(A[i], A[j]) for i, j in full], {}
    out = uv.compute_uvw(arg, HA=ha, dec=dec, freq=f, site=site, **kw)
    if np.shape(out) != (len(full), 3) + tuple(fsh):
        raise Bad(f"shape {np.shape(out)} instead of {(len(full), 3)+tuple(fsh)}")
    out = np.asarray(out).reshape(len(full), 3, -1)
    U = frame(H, d, lat)
    pairs = []
    for k, (i, j) in enumerate(full):
        b = (A[i].stand.x-A[j].stand.x, A[i].stand.y-A[j].stand.y, A[i].stand.z-A[j].stand.z)
        for a in range(3):
            m = U[a][0]*b[0] + U[a][1]*b[1] + U[a][2]*b[2]
            for q in range(len(fl)):
                pairs.append((f"{'uvw'[a]} of baseline {i}-{j}, frequency {q}", out[k, a, q], m*fl[q]*(1.0/C)))
    return pairs


def track_case(uv, st, s, mk):
    """Baselines by their distance from and along the Earth's axis."""
    (_, _), (dec, d), (site, lat) = angles(dict(s, ha='num'), mk)
    cl, sl = trig(lat)
    A, B, given = [], [], []
    f = mk('f0', 88e6)
    for i in range(s['n']):
        rho = mk(f"r{i}", 100.0, 1e-3)
        phi = mk(f"a{i}", math.pi)
        z = mk(f"z{i}", 100.0)
        c, t = trig(phi)
        X, Y = rho*c, rho*t
        o = [mk(f"p{i}{a}", 100.0) for a in 'xyz']
        s1, s2 = st.Stand(2*i+1, 0, 0, 0), st.Stand(2*i+2, 0, 0, 0)
        s2.x, s2.y, s2.z = o
        s1.x, s1.y, s1.z = o[0] + Y, o[1] + (z*cl - X*sl), o[2] + (X*cl + z*sl)
        given.append((st.Antenna(2*i+1, stand=s1), st.Antenna(2*i+2, stand=s2)))
        B.append((rho, z))
    arg = given if s['n'] > 1 else list(given[0])
    if s.get('list'):
        arg = [list(g) for g in given]
    out = uv.compute_uv_track(arg, dec=dec, freq=f, site=site)
    if np.shape(out) != (s['n'], 2, 512):
        raise Bad(f"shape {np.shape(out)}")
    cd, sd = trig(d)
    pairs = []
    for i, (rho, z) in enumerate(B):
        for k in range(512):
            j = k if k < 256 else 511-k
            t = -1.0 + 2.0*j/255
            w = math.sqrt(max(0.0, 1-t*t))*(1 if k < 256 else -1)
            pairs.append((f"u of point {k}", out[i, 0, k], rho*f*(t/C)))
            pairs.append((f"v of point {k}", out[i, 1, k], (rho*sd*w + z*cd)*f*(1.0/C)))
    return pairs


def index_case(uv, st, s, mk):
    """Antenna identities are symbols: which baseline is it?"""
    n = s['n']
    ids = [mk(f"id{i}", 1000.0) for i in range(n)]
    q = [mk('q0', 1000.0), mk('q1', 1000.0)]
    for i in range(n):
        for j in range(i):
            if ids[i] == ids[j]:
                raise npsym.Abort
    two = s['two']
    mkant = lambda x: (lambda a: (setattr(a, 'id', x), a)[1])(st.Antenna(1, stand=st.Stand(1, 0, 0, 0)))
    A1 = [mkant(x) for x in ids[:n if not two else n//2]]
    A2 = [mkant(x) for x in ids[n//2:]] if two else None
    Q = [mkant(x) for x in q]
    m = len(A1)
    full = [(i, j) for i in range(m) for j in range(i, m) if s['auto'] or i != j]
    want = [(A1[i], (A2 or A1)[j]) for i, j in full]
    lst = uv.get_baselines(A1, antennas2=A2, include_auto=s['auto'])
    if len(lst) != len(want) or any(len(a) != 2 or a[0] is not b[0] or a[1] is not b[1] for a, b in zip(lst, want)):
        raise Bad("get_baselines: other baselines")
    kw = {'baseline_list': lst} if s['lst'] else {}
    for k in range(len(want)):
        g = uv.baseline_to_antennas(k, A1, antennas2=A2, include_auto=s['auto'], **kw)
        if g[0] is not want[k][0] or g[1] is not want[k][1]:
            raise Bad(f"baseline_to_antennas({k})")
    got = uv.antennas_to_baseline(Q[0], Q[1], A1, antennas2=A2, include_auto=s['auto'], **kw)
    exp = -1
    for k, (a, b) in enumerate(want):
        if (Q[0].id == a.id and Q[1].id == b.id) or (Q[0].id == b.id and Q[1].id == a.id):
            exp = k
            break
    if got != exp:
        raise Bad(f"antennas_to_baseline gives {got} instead of {exp}")
    return []


KIND = {'uvw': uvw_case, 'track': track_case, 'index': index_case}


def cases(thorough):
    out = []
    b = dict(kind='uvw', n=2, ha='sym', dec='sym', site='sym', freq='scalar', auto=False, given='antennas')
    A = lambda **k: out.append(dict(b, **k))
    for given in ('antennas', 'baselines'):
        for n in (2, 3):
            A(n=n, given=given, freq='list', auto=n == 3)
        A(given=given, freq=(2, 3))
        A(given=given, freq=(1,), site='earth')
    for h in ('num', 'hms', 'dms', 'angle', 'hangle', 'ephem'):
        A(ha=h)
        A(ha=h, site='earth', auto=True)
    for d in ('num', 'dms', 'angle', 'ephem'):
        A(dec=d)
        A(dec=d, ha='hms', freq=(3,))
    for n in (1, 2):
        for d in ('sym', 'num', 'angle', 'ephem'):
            out.append(dict(kind='track', n=n, dec=d, site='earth' if n == 2 and d == 'num' else 'sym', list=d == 'num'))
    for n in (2, 3, 4) + ((5,) if thorough else ()):
        for auto in (False, True):
            for lst in (False, True):
                out.append(dict(kind='index', n=n, auto=auto, lst=lst, two=False))
                if n % 2 == 0:
                    out.append(dict(kind='index', n=n, auto=auto, lst=lst, two=True))
    if thorough:
        A(n=5, freq=(4,), auto=True)
        A(n=4, freq=(2, 2, 2), given='baselines')
    return out


REPLAY = '''
sys.path.insert(0, ARGS['checks'])
import json, numpy as np
import K09
from lsl.correlator import uvutils
from lsl.common import stations
print(json.dumps(K09.real(uvutils, stations, ARGS['s'], ARGS['env'])))
'''


def real(uv, st, s, env):
    mk = lambda n, b, low=None: env[n]
    try:
        pairs = KIND[s['kind']](uv, st, s, mk)
    except Bad as e:
        return {'bad': str(e)}
    except Exception as e:
        return {'bad': f"raised {type(e).__name__}: {e}"}
    sc = max([abs(w) for _, _, w in pairs] or [1.0])
    for what, g, w in pairs:
        if not abs(float(g)-float(w)) <= 1e-6*sc:
            return {'bad': f"{what} is {float(g):.9g} instead of {float(w):.9g}"}
    return {'ok': True}


def body(c):
    uv = pyrun.imp('lsl.correlator.uvutils')
    st = pyrun.imp('lsl.common.stations')
    pyrun._watch()
    uv.np = npsym.NP()
    cs = cases(common.thorough())
    c.bounds += ["positions, frequencies, latitude, hour angle and declination are symbols (angle types other than numbers and EarthLocation: one value each)",
                 "2-5 antennas, frequency arrays of up to three dimensions; antenna identities are symbols in the look-ups"]
    c.stubs += ["float arithmetic is arithmetic on the reals, agreement to 1e-9"]

    def one(c, s):
        rng = random.Random(common.SEED)
        npsym.reset()
        lab = ' '.join(f"{k}={v}" for k, v in s.items())

        def mk(n, b, low=None):
            return var(n, b) if low is None else pos(n, low, b)

        def go():
            try:
                return ('pairs', KIND[s['kind']](uv, st, s, mk))
            except npsym.Unsupported:
                raise
            except Bad as e:
                return ('wrong', str(e))
            except Exception as e:
                return ('wrong', f"raised {type(e).__name__}: {e}")
        try:
            with npsym.limit(100):
                paths = npsym.Paths(20000).run(go)
        except npsym.Unsupported as e:
            if not replay(c, s, lab, rng, [], str(e)):
                c.open(f"{lab}: {e}")
            return
        n = 0
        for conds, (kind, x) in paths:
            if kind == 'pairs':
                n += max(1, len(x))
                try:
                    with npsym.limit(100):
                        k = differ([(g, w) for _, g, w in x])
                except (npsym.Unsupported, solve.Unknown) as e:
                    k = 0
                if k is None:
                    continue
                x = x[k][0] + ' differs'
            if not replay(c, s, lab, rng, conds, x):
                c.open(f"{lab}: {x} (not reproduced)")
            break
        c.ob(lab, n=n, paths=len(paths))
        c.func(*pyrun.SEEN)

    def replay(c, s, lab, rng, conds, why):
        envs = [npsym.model(conds)] if s['kind'] == 'index' else [npsym.sample(rng, []) for _ in range(3)]
        for env in envs:
            if env is None:
                continue
            rc, out, err = realtree.run_py(REPLAY, (), {'s': s, 'env': env, 'checks': os.path.dirname(os.path.abspath(__file__))})
            if rc == 0 and out and 'bad' in out:
                c.violation(f"{lab}: {out['bad']}", lab, {'case': s, 'values': env, 'why': why, 'observed': out['bad']})
                return True
            if rc != 0 and os.environ.get('VERIF_DEBUG'):
                print(err[-800:])
        return False
    common.parallel(c, [(lambda c, i=i: [one(c, s) for s in cs[i::8]]) for i in range(8)])


if __name__ == '__main__':
    common.run('K09', "symbolic execution of lsl/correlator/uvutils.py on arrays of polynomials; identities and branches decided by z3", body)
