import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from engine import common, npsym, pyrun, realtree, solve
from engine.npsym import Arr, V, cvar, differ, ivar, pos, val, var

LIN, STK, CIR = ('XX', 'YY', 'XY', 'YX'), ('I', 'Q', 'U', 'V'), ('RR', 'LL', 'RL', 'LR')


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


# --------------------------------------------------------------- building
def stub():
    import aipy

    class Array(aipy.amp.AntennaArray):
        """Phases and uvw of a pair of antennas towards a source: given numbers."""
        def __init__(self, stands, W):
            self.st, self.W, self.jd, self.log = stands, W, None, []

        def __copy__(self):
            return Array(self.st, self.W)

        def get_stands(self):
            return self.st

        def set_jultime(self, t=None):
            self.jd = t

        def _tag(self, src, i, j):
            key = 'z' if isinstance(src, str) else src.name
            if not isinstance(src, str) and src.at is not self.jd:
                raise Bad("source not computed for the time of the data")
            key += '' if isinstance(src, str) else f"@{float(self.jd)}"      # sources move with time, the zenith does not
            return f"{key}_{min(i, j)}_{max(i, j)}", 1.0 if i <= j else -1.0

        def gen_uvw(self, i, j, src='z', **k):
            t, s = self._tag(src, i, j)
            out = np.empty((3, 1, self.W.nc), dtype=object)
            for a in range(3):
                for c in range(self.W.nc):
                    out[a, 0, c] = self.W.mk(f"w{t}_{a}_{c}", 100.0)*s
            return self.W.arr(out)

        def _rot(self, vis, src, i, j, sign):
            t, s = self._tag(src, i, j)
            return self.W.arr([vis[c]*self.W.cis(self.W.mk(f"f{t}_{c}", math.pi)*(s*sign)) for c in range(len(vis))])

        def phs2src(self, vis, src, i, j):
            return self._rot(vis, src, i, j, -1.0)

        def unphs2src(self, vis, src, i, j):
            return self._rot(vis, src, i, j, 1.0)
    return Array


class Src:
    def __init__(self, name):
        self.name, self.at = name, None

    def compute(self, obs):
        self.at = obs.jd


class W:
    """The modules under test and where values come from."""
    def __init__(self, D, U, vis, mk, cmk, imk, sym, nc=2):
        self.D, self.U, self.vis, self.mk, self.cmk, self.imk, self.sym, self.nc = D, U, vis, mk, cmk, imk, sym, nc
        self.pairs = []
        self.combos = False
        self.Array = stub()

    def arr(self, l, kind='c'):
        a = np.array(l, dtype=object)
        return a.view(Arr) if self.sym else a.astype({'c': np.complex128, 'f': float}[kind])

    def cis(self, x):
        return (x*1j).exp() if self.sym else np.exp(1j*x)

    def row(self, tag, pol):
        return ([self.cmk(f"v{tag}{pol}{c}") for c in range(self.nc)], [self.mk(f"w{tag}{pol}{c}", 10.0) for c in range(self.nc)],
                [self.bit(tag, pol, c) for c in range(self.nc)])

    def bit(self, tag, pol, c):
        if self.combos:             # every combination of flags in the two parts of a product
            k = 2*'ab'.index(tag) + c
            return bool((k >> (pol in ('YY', 'YX', 'Q', 'V'))) & 1)
        return bool((hash3(tag, pol) >> c) & 1)

    def pol(self, name, rows):
        r = [self.row(t, name) for t in rows]
        return self.D.PolarizationDataSet(name, data=self.arr([x[0] for x in r]), weight=self.arr([x[1] for x in r], 'f'), mask=np.array([x[2] for x in r]))

    def uvw(self, t):
        return [[self.mk(f"u{t}_{a}_{c}", 100.0) for c in range(self.nc)] for a in range(3)]

    def dataset(self, jd, rows, pols, aa=None, phase=None, order=None, **k):
        """rows: {tag: (i, j)} in order."""
        d = self.D.VisibilityDataSet(jd, np.array([30e6 + 1e6*c for c in range(self.nc)]), list(rows.values()), self.arr([self.uvw(t) for t in rows], 'f'),
                                     antennaarray=aa, phase_center=phase, **k)
        for p in pols:
            d.append(self.pol(p, list(rows)))
        return d

    def same(self, what, got, want):
        got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
        need(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}")
        for ix in np.ndindex(*want.shape):
            self.pairs.append((f"{what} {ix}", got[ix], want[ix]))

    def is_rows(self, d, rows, pols, what=''):
        """The data set holds exactly these rows, everything in step."""
        need(d.nbaseline == len(rows) == len(d.baselines), f"{what}{d.nbaseline} baselines instead of {len(rows)}")
        need(set(d.pols) == set(pols) and d.npol == len(set(pols)), f"{what}polarizations {d.pols}")
        for k, (t, b) in enumerate(rows):
            self.same(f"{what}baseline {k}", list(d.baselines[k]), list(b))
        if rows:
            self.same(f"{what}uvw", d.uvw, [self.uvw(t) for t, b in rows])
        need([p.polarization for p in d] == list(d.pols), f"{what}iteration order")
        for p in set(pols):
            self.is_pol(getattr(d, p), p, [t for t, b in rows], what)
            need(p in d, f"{what}{p} is not in the data set")

    def is_pol(self, P, name, tags, what=''):
        need(P.nbaseline == len(tags), f"{what}{P.nbaseline} baselines of data instead of {len(tags)}")
        r = [self.row(t, name) for t in tags]
        if r:
            self.same(f"{what}{name} data", P.data, [x[0] for x in r])
            self.same(f"{what}{name} weight", P.weight, [x[1] for x in r])
        need(np.array_equal(np.asarray(P.mask, dtype=bool).reshape(len(tags), -1) if tags else [], np.array([x[2] for x in r]) if r else []), f"{what}{name} mask")


def hash3(tag, pol):
    h = 7
    for ch in str(tag) + pol:
        h = (h*31 + ord(ch)) & 0xffff
    return h >> 3


def raises(f, *ex):
    try:
        f()
    except ex:
        return True
    return False


# ------------------------------------------------------------------ cases
def c_pol(w, s):
    """Growing, sorting and selecting one polarization."""
    P = w.D.PolarizationDataSet('xx')
    tags = []
    for n, op in enumerate(s['ops']):
        if op[0] == 'append':
            d, wt, m = w.row(n, 'XX')
            kw = {}
            if op[1]:
                kw = dict(weight=w.arr(wt, 'f'), mask=np.array(m))
            P.append(w.arr(d), **kw)
            tags.append((n, op[1]))
        elif op[0] == 'extend':
            r = [w.row(f"{n}e{k}", 'XX') for k in range(2)]
            kw = dict(weight=[w.arr(x[1], 'f') for x in r], mask=[np.array(x[2]) for x in r]) if op[1] else {}
            P.extend([w.arr(x[0]) for x in r], **kw)
            tags += [(f"{n}e{k}", op[1]) for k in range(2)]
        elif op[0] == 'bad':
            d, wt, m = w.row(n, 'XX')
            need(raises(lambda: P.append(w.arr(d), weight=w.arr(wt[:-1], 'f')), ValueError), "weights of another shape accepted")
            need(raises(lambda: P.append(w.arr(d), mask=np.array(m[:-1])), ValueError), "mask of another shape accepted")
        elif op[0] == 'sort':
            if not tags:
                continue
            o = list(range(len(tags)))
            o = o[1:] + o[:1]
            P.sort(o)
            tags = [tags[i] for i in o]
            need(raises(lambda: P.sort(o + [0]), ValueError), "order of another length accepted")
        elif op[0] == 'subset':
            if not tags:
                continue
            sel = [len(tags)-1, 0]
            Q, P2 = P.subset(sel), P
            P = Q
            full, tags = tags, [tags[i] for i in sel]
            check_pol(w, P2, full)
        elif op[0] == 'copy':
            if not tags:
                continue
            Q = P.copy()
            P.data[0, 0] = P.data[0, 0] + 1.0
            P.weight[0, 0] = P.weight[0, 0] + 1.0
            P.mask[0, 0] = not P.mask[0, 0]
            P = Q
        check_pol(w, P, tags)
    need(P.polarization == 'XX', "polarization name")


def check_pol(w, P, tags):
    if not tags:
        need(P.nbaseline == 0, "empty set has baselines")
        return
    r = [w.row(t, 'XX') for t, full in tags]
    need(P.nbaseline == len(tags), f"{P.nbaseline} visibilities instead of {len(tags)}")
    w.same("data", P.data, [x[0] for x in r])
    w.same("weight", P.weight, [x[1] if full else [1.0]*w.nc for x, (t, full) in zip(r, tags)])
    w.same("mask", np.asarray(P.mask).astype(int), [[int(b) if full else 0 for b in x[2]] for x, (t, full) in zip(r, tags)])


ROWS = {'a': (0, 1), 'b': (0, 2), 'c': (1, 2)}


def c_sets(w, s):
    """One data set: sequences of operations on rows that must stay together."""
    aa = w.Array([11, 12, 13], w)
    d = w.dataset(2455000.5, ROWS, s['pols'], aa=aa, phase='z', note=['x'])
    rows, pols = list(ROWS.items()), list(s['pols'])
    for op in s['ops']:
        if op == 'rot':
            o = list(range(len(rows)))
            o = o[1:] + o[:1]
            d.sort(order=o)
            rows = [rows[i] for i in o]
        elif op == 'sort':
            d.sort()
            rows = sorted(rows, key=lambda r: r[1])
        elif op == 'replace':
            if rows:
                d.append(w.pol(pols[0], [t for t, b in rows]))
        elif op == 'add':
            if 'YX' not in pols and rows:
                d.append(w.pol('YX', [t for t, b in rows]))
                pols.append('YX')
        elif op == 'mismatch':
            need(raises(lambda: d.append(w.pol('RR', ['a']*(len(rows)+1))), RuntimeError), "polarization with another number of baselines accepted")
            need(raises(lambda: d.append([1]), TypeError), "append of something else accepted")
        elif op == 'copy':
            e = d.copy()
            if rows:
                d.uvw[0, 0, 0] = d.uvw[0, 0, 0] + 1.0
                for p in d:
                    p.data[0, 0] = p.data[0, 0] + 1.0
                    p.weight[0, 0] = p.weight[0, 0] + 1.0
                    p.mask[0, 0] = not p.mask[0, 0]
            d.baselines.append((7, 8))
            d.freq[0] = d.freq[0] + 5
            d = e
            need(d.note == ['x'] and d.phase_center == 'z' and d.jd == 2455000.5 and d.antennaarray is not None, "copy lost attributes")
            need(list(d.freq) == [30e6+1e6*c for c in range(w.nc)], "copy shares the frequencies")
        elif op == 'bare':
            e = d.copy(include_pols=False)
            need(e.npol == 0 and list(e) == [], "copy without polarizations has some")
            continue
        elif op == 'keep':
            e = d.get_antenna_subset(include=[0, 2])
            w.is_rows(d, rows, pols, 'original after subset: ')
            d, rows = e, [r for r in rows if set(r[1]) <= {0, 2}]
        w.is_rows(d, rows, pols, f"after {op}: ")
        need(abs(d.mjd - (2455000.5 - 2400000.5)) < 1e-9 and d.nchan == w.nc, "mjd or channel count")


def c_order(w, s):
    """Baselines of unknown antennas: sorted by first, then second."""
    n = s['n']
    b = {t: (w.imk(f"i{t}", 2047), w.imk(f"j{t}", 2047)) for t in 'abcd'[:n]}
    d = w.dataset(2455000.5, b, ('XX',))
    d.sort()
    rows = list(b.items())
    for i in range(1, n):                       # insertion sort, stable
        k = i
        while k > 0:
            x, y = rows[k-1][1], rows[k][1]
            if x[0] < y[0] or (x[0] == y[0] and x[1] <= y[1]):
                break
            rows[k-1], rows[k] = rows[k], rows[k-1]
            k -= 1
    w.is_rows(d, rows, ('XX',))


def c_uvrange(w, s):
    rows = {t: ROWS[t] for t in 'abc'[:s['n']]}
    d = w.dataset(2455000.5, rows, ('XX', 'YY'))
    lo, hi = w.mk('lo', 100.0, 0.0), w.mk('hi', 100.0, 0.0)
    kw = {}
    if s['lo']:
        kw['min_uv'] = lo
    if s['hi']:
        kw['max_uv'] = hi
    e = d.get_uv_range(**kw)
    a, b = (lo if s['lo'] else 0.0), (hi if s['hi'] else math.inf)
    if s['lo'] and s['hi'] and a > b:
        a, b = b, a
    keep = []
    c = w.nc//2
    for t, bl in rows.items():
        u = w.uvw(t)
        q = u[0][c]*u[0][c] + u[1][c]*u[1][c]
        if (not s['lo'] or q >= a*a) and (not (s['hi']) or q < b*b):
            keep.append((t, bl))
    w.is_rows(e, keep, ('XX', 'YY'), 'selected: ')
    w.is_rows(d, list(rows.items()), ('XX', 'YY'), 'original: ')


def c_subset(w, s):
    """Antennas named by unknown indices or stand numbers."""
    st = [21, 5, 13]
    aa = w.Array(list(st), w) if s['aa'] else None
    mkset = lambda jd: w.dataset(jd, ROWS, ('XX',), aa=aa)
    d = mkset(2455000.5)
    if s['multi']:
        d = w.D.VisibilityData([d, mkset(2455001.5)])
    inc = [w.imk(f"n{k}", 25) for k in range(s['inc'])] if s['inc'] is not None else None
    exc = [w.imk(f"x{k}", 25) for k in range(s['exc'])] if s['exc'] is not None else None
    kw = {}
    if inc is not None:
        kw['include'] = inc
    if exc is not None:
        kw['exclude'] = exc[0] if s.get('int') else list(exc)
    if s['idx'] is not None:
        kw['indicies'] = s['idx']
    if inc is not None and not s.get('tuple'):
        kw['include'] = list(inc)
    elif inc is not None:
        kw['include'] = tuple(inc)
    e = d.get_antenna_subset(**kw)
    idx = s['idx'] is None or s['idx']
    name = (lambda k: k) if idx else (lambda k: st[k])
    ok = []
    for k in range(3):
        i = True if inc is None else any(x == name(k) for x in inc)
        if inc is None and exc is not None and any(x == name(k) for x in exc):
            i = False
        ok.append(i)
    rows = [(t, b) for t, b in ROWS.items() if ok[b[0]] and ok[b[1]]]
    if s['multi']:
        need(len(e) == 2, "integrations lost")
        for k, x in enumerate(e):
            w.is_rows(x, rows, ('XX',), f"integration {k}: ")
    else:
        w.is_rows(e, rows, ('XX',))


def c_many(w, s):
    """Several integrations."""
    jd = [w.mk(f"t{k}", 100.0) for k in range(3)]
    mk = lambda k, rows=ROWS, pols=('XX',): w.dataset(jd[k], rows, pols)
    a, b = mk(0), mk(1, rows=dict(reversed(ROWS.items())))
    dup = bool(jd[0] == jd[1])
    V_ = {'list': lambda: w.D.VisibilityData([a]), 'tuple': lambda: w.D.VisibilityData((a,)), 'one': lambda: w.D.VisibilityData(a), 'none': lambda: w.D.VisibilityData()}[s['init']]()
    have = [a] if s['init'] != 'none' else []
    if s['init'] == 'none':
        V_.append(a)
        have = [a]
    if s['how'] == 'append':
        r = raises(lambda: V_.append(b), ValueError)
    else:
        r = raises(lambda: V_.extend([b]), ValueError)
    need(r == dup, "integration of the same time accepted" if dup else "integration of another time refused")
    if not dup:
        have.append(b)
    need(raises(lambda: V_.append(mk(2, rows={'a': (0, 1)})), ValueError), "integration with other baselines accepted")
    need(raises(lambda: V_.extend([mk(2, pols=('XX', 'YY'))]), ValueError), "integration with other polarizations accepted")
    need(raises(lambda: V_.extend([3]), TypeError) and raises(lambda: V_.append(3), TypeError), "something else accepted")
    need(len(V_) == len(have) and all(x is y for x, y in zip(V_, have)), "other integrations held")
    need(V_.nbaseline == 3 and V_.npol == 1 and V_.nchan == w.nc and V_.baselines is a.baselines, "counts")
    if not dup:
        again = bool(jd[2] == jd[0] or jd[2] == jd[1])
        need(raises(lambda: V_.append(mk(2)), ValueError) == again, "third integration")
        if not again:
            V_.pop()
    w.same("times", list(V_.jds), [x.jd for x in have])
    c = V_.copy()
    need(len(c) == len(have) and all(x is not y for x, y in zip(c, have)), "copy shares integrations")
    if s['sort']:
        V_.sort()
        if len(have) == 2 and jd[1] < jd[0]:
            have = have[::-1]
        need(all(x is y for x, y in zip(V_, have)), "not in time order")
        rows = list(ROWS.items())
        for x in V_:
            w.is_rows(x, rows, ('XX',))
        for x in c:
            w.is_rows(x, rows if x.baselines[0] == (0, 1) else rows[::-1], ('XX',), 'copy: ')
    x = V_.pop(0)
    need(x is have[0] and len(V_) == len(have)-1, "pop")


def c_phase(w, s):
    aa = w.Array([1, 2, 3], w)
    src = {'z': 'z', 's1': Src('s1'), 's2': Src('s2')}
    rows = {'a': (0, 1), 'b': (2, 1)}
    d = w.dataset(2455000.5, rows, ('XX', 'YX'), aa=aa, phase=src[s['old']])
    if s['multi']:
        e = w.dataset(2455001.5, rows, ('XX', 'YX'), aa=aa, phase=src[s['old']])
        d = w.D.VisibilityData([d, e])
    for x in (d if s['multi'] else [d]):
        x.antennaarray.set_jultime(2456000.0)
    d.rephase(src[s['new']])
    for x in (d if s['multi'] else [d]):
        need(x.phase_center is src[s['new']] or x.phase_center == src[s['new']], "phase center not updated")
        need([tuple(b) for b in x.baselines] == list(rows.values()), "baselines")
        for k, (t, (i, j)) in enumerate(rows.items()):
            def tag(n):
                return f"{n}{'' if n == 'z' else f'@{float(x.jd)}'}_{min(i, j)}_{max(i, j)}", 1.0 if j <= i else -1.0
            (o, so), (n, sn) = tag(s['old']), tag(s['new'])
            for a in range(3):
                for c in range(w.nc):
                    w.pairs.append((f"uvw {k} {a} {c}", x.uvw[k, a, c], w.mk(f"w{n}_{a}_{c}", 100.0)*sn))
            for p in ('XX', 'YX'):
                v, wt, m = w.row(t, p)
                P = getattr(x, p)
                for c in range(w.nc):
                    ph = w.mk(f"f{o}_{c}", math.pi)*so - w.mk(f"f{n}_{c}", math.pi)*sn
                    w.pairs.append((f"{p} {k} {c}", P.data[k, c], v[c]*w.cis(ph)))
                w.same("weights", P.weight[k], wt)
                need(list(map(bool, P.mask[k])) == m, "mask")


def c_scale(w, s):
    rows = {'a': (0, 1), 'b': (1, 2), 'c': (0, 0)}
    d = w.dataset(2455000.5, rows, ('XX', 'YX'))
    if s['multi']:
        d = w.D.VisibilityData([d, w.dataset(2455001.5, dict(reversed(rows.items())), ('XX', 'YX'))])
    g = [w.mk(f"g{k}", 5.0) for k in range(3)]
    t = [w.mk(f"d{k}", 100.0) for k in range(3)]
    ph = [w.mk(f"o{k}", math.pi) for k in range(3)] if s['ph'] else None
    e = w.vis.scale_data(d, g, t, **({'phase_offsets': ph} if s['ph'] else {}))
    for n, (x, y) in enumerate(zip(e, d) if s['multi'] else [(e, d)]):
        rr = list(rows.items())[::-1] if n else list(rows.items())
        w.is_rows(y, rr, ('XX', 'YX'), 'original: ')
        for k, (tg, (i, j)) in enumerate(rr):
            for p in ('XX', 'YX'):
                v, wt, m = w.row(tg, p)
                for c in range(w.nc):
                    f = (30e6+1e6*c)/1e9
                    a = (t[i]-t[j])*(2*math.pi*f)
                    if s['ph']:
                        a = a + (ph[i]-ph[j])
                    w.pairs.append((f"{p} {k} {c}", getattr(x, p).data[k, c], v[c]*(g[i]*g[j])*w.cis(a)))


FORM = {'stokes': (LIN, STK, (('XX', 'YY'), ('XY', 'YX')), {
            'I': ('XX', 'YY', 1, 1), 'Q': ('XX', 'YY', 1, -1), 'U': ('XY', 'YX', 1, 1), 'V': ('XY', 'YX', 1j, -1j)}),
        'linear': (STK, LIN, (('I', 'Q'), ('U', 'V')), {
            'XX': ('I', 'Q', .5, .5), 'YY': ('I', 'Q', .5, -.5), 'XY': ('U', 'V', .5, -.5j), 'YX': ('U', 'V', .5, .5j)}),
        'circular': (STK, CIR, (('I', 'V'), ('Q', 'U')), {
            'RR': ('I', 'V', 1, 1), 'LL': ('I', 'V', 1, -1), 'RL': ('Q', 'U', 1, 1j), 'LR': ('Q', 'U', 1, -1j)})}


def c_conv(w, s):
    src, dst, groups, F = FORM[s['to']]
    f = getattr(w.U, f"convert_to_{s['to']}")
    have = list(s['pols'])
    w.combos = True
    rows = {'a': (0, 1), 'b': (1, 2)}
    d = w.dataset(2455000.5, rows, have, note='x')
    if s['multi']:
        d = w.D.VisibilityData([d, w.dataset(2455001.5, rows, have, note='x')])
    if any(p in dst for p in have) or not any(set(g) <= set(have) for g in groups):
        need(raises(lambda: f(d), RuntimeError), f"{have} accepted")
        return
    e = f(d)
    if s['multi']:
        need(len(e) == 2 and e[1].jd == 2455001.5, "integrations")
    for x in (e if s['multi'] else [e]):
        want = [p for p in dst if set(F[p][:2]) <= set(have)]
        need(sorted(x.pols) == sorted(want), f"{x.pols} instead of {want}")
        need(x.note == 'x' and [tuple(b) for b in x.baselines] == list(rows.values()), "attributes lost")
        w.same("uvw", x.uvw, [w.uvw(t) for t in rows])
        for p in want:
            A, B, ca, cb = F[p]
            P = getattr(x, p)
            need(P.polarization == p and np.shape(P.data) == (2, w.nc) == np.shape(P.weight) == np.shape(P.mask), f"{p}: shapes")
            for k, t in enumerate(rows):
                va, wa, ma = w.row(t, A)
                vb, wb, mb = w.row(t, B)
                for c in range(w.nc):
                    w.pairs.append((f"{p} {k} {c}", P.data[k, c], va[c]*ca + vb[c]*cb))
                    w.pairs.append((f"{p} weight {k} {c}", P.weight[k, c], (wa[c]+wb[c])*0.5))
                    need(bool(P.mask[k, c]) == (ma[c] or mb[c]), f"{p}: mask of {k}, {c}")
    for n, x in enumerate(d if s['multi'] else [d]):
        w.is_rows(x, list(rows.items()), have, 'original: ')


KIND = {'pol': c_pol, 'sets': c_sets, 'order': c_order, 'uvrange': c_uvrange, 'subset': c_subset, 'many': c_many, 'phase': c_phase, 'scale': c_scale, 'conv': c_conv}


def cases(thorough):
    import itertools
    out = []
    O = [('append', True), ('append', False), ('extend', True), ('extend', False), ('bad',), ('sort',), ('subset',), ('copy',)]
    for ops in itertools.product(O, repeat=4 if thorough else 3):
        out.append(dict(kind='pol', ops=ops))
    O = ['rot', 'sort', 'replace', 'add', 'mismatch', 'copy', 'bare', 'keep']
    for ops in itertools.product(O, repeat=4 if thorough else 3):
        out.append(dict(kind='sets', ops=ops, pols=('YY', 'XX')))
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        out.append(dict(kind='order', n=n))
    for n in (1, 2) + ((3,) if thorough else ()):
        for lo in (False, True):
            for hi in (False, True):
                out.append(dict(kind='uvrange', n=n, lo=lo, hi=hi))
    for multi in (False, True):
        for idx in (None, True, False):
            for inc, exc in ((None, None), (1, None), (2, None), (None, 1), (None, 2), (2, 1), (1, 2)):
                for aa in ((True, False) if idx is not False else (True,)):
                    out.append(dict(kind='subset', multi=multi, idx=idx, inc=inc, exc=exc, aa=aa, tuple=(inc == 2)))
    for init in ('list', 'tuple', 'one', 'none'):
        for how in ('append', 'extend'):
            for so in (False, True):
                out.append(dict(kind='many', init=init, how=how, sort=so))
    for multi in (False, True):
        for o in ('z', 's1'):
            for n in ('z', 's1', 's2'):
                out.append(dict(kind='phase', multi=multi, old=o, new=n))
        for ph in (False, True):
            out.append(dict(kind='scale', multi=multi, ph=ph))
        for to in ('stokes', 'linear', 'circular'):
            src, dst = FORM[to][:2]
            for k in range(5):
                for ps in itertools.combinations(src, k):
                    out.append(dict(kind='conv', to=to, pols=ps, multi=multi))
                    if k:
                        out.append(dict(kind='conv', to=to, pols=ps[::-1], multi=multi))
            for x in dst:
                out.append(dict(kind='conv', to=to, pols=src + (x,), multi=multi))
    return out


REPLAY = '''
sys.path.insert(0, ARGS['checks'])
import json
import V01
from lsl.imaging import data, utils
from lsl.sim import vis
print(json.dumps(V01.real(data, utils, vis, ARGS['s'], ARGS['env'])))
'''


def real(D, U, vis, s, env):
    def get(n):
        if n not in env:
            env[n] = random.Random(n).uniform(0.1, 3.0)
        return env[n]
    w = W(D, U, vis, lambda n, b, low=None: get(n), lambda n: complex(get(n+'re'), get(n+'im')), lambda n, b: int(round(get(n))), False)
    try:
        KIND[s['kind']](w, s)
    except Bad as e:
        return {'bad': str(e)}
    except Exception as e:
        return {'bad': f"raised {type(e).__name__}: {e}"}
    for what, g, x in w.pairs:
        if not abs(complex(g)-complex(x)) <= 1e-5*max(1.0, abs(complex(x))):
            return {'bad': f"{what} is {complex(g):.6g} instead of {complex(x):.6g}"}
    return {'ok': True}


def body(c):
    D = pyrun.imp('lsl.imaging.data')
    U = pyrun.imp('lsl.imaging.utils')
    vis = pyrun.imp('lsl.sim.vis')
    pyrun._watch()
    D.np = U.np = vis.np = npsym.NP()
    cs = cases(common.thorough())
    c.bounds += ["data, weights, uvw, times, antenna identities, uv cuts, phases, gains and delays are symbols; masks are fixed patterns",
                 f"up to 3-4 baselines, 2 channels, 2 integrations; every sequence of {4 if common.thorough() else 3} operations"]
    c.stubs += ["aipy's AntennaArray: uvw and phase of a pair of antennas towards a source are free numbers, antisymmetric in the pair",
                "float arithmetic is arithmetic on the reals, agreement to 1e-9"]

    def one(c, s):
        rng = random.Random(common.SEED)
        npsym.reset()
        lab = ' '.join(f"{k}={v}" for k, v in s.items())

        def mk(n, b, low=None):
            return var(n, b) if low is None else pos(n, max(low, 1e-9), b)

        def go():
            w = W(D, U, vis, mk, cvar, ivar, True)
            try:
                KIND[s['kind']](w, s)
            except npsym.Unsupported:
                raise
            except Bad as e:
                return ('wrong', str(e))
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
                return ('wrong', f"raised {type(e).__name__}: {e}")
            return ('pairs', w.pairs)
        try:
            with npsym.limit(200):
                paths = npsym.Paths(20000, exact=s['kind'] == 'uvrange').run(go)
        except npsym.Unsupported as e:
            if not replay(c, s, lab, rng, [], str(e)):
                c.open(f"{lab}: {e}")
            return
        n = 0
        for conds, (kind, x) in paths:
            if kind == 'pairs':
                n += max(1, len(x))
                try:
                    with npsym.limit(100):
                        k = differ([(g, w) for _, g, w in x])
                except (npsym.Unsupported, solve.Unknown):
                    k = 0
                if k is None:
                    continue
                x = x[k][0] + ' differs'
            if not replay(c, s, lab, rng, conds, x):
                c.open(f"{lab}: {x} (not reproduced)")
            break
        c.extra['paths'] = c.extra.get('paths', 0) + len(paths)
        c.extra[s['kind']] = c.extra.get(s['kind'], 0) + n
        c.func(*pyrun.SEEN)
        return n

    def replay(c, s, lab, rng, conds, why):
        envs = [npsym.model(conds, exact=s['kind'] == 'uvrange')] + [npsym.sample(rng, conds) for _ in range(2)]
        for env in envs:
            if env is None:
                continue
            rc, out, err = realtree.run_py(REPLAY, (), {'s': s, 'env': env, 'checks': os.path.dirname(os.path.abspath(__file__))})
            if rc == 0 and out and 'bad' in out:
                c.violation(f"{lab}: {out['bad']}", lab, {'case': s, 'values': env, 'why': why, 'observed': out['bad']})
                return True
            if rc != 0 and os.environ.get('VERIF_DEBUG'):
                print(err[-800:])
        return False

    def many(c, l):
        by = {}
        for s in l:
            n = one(c, s)
            if n is not None:
                k = by.setdefault(s['kind'], [0, 0])
                k[0] += 1
                k[1] += n
        for k, (a, b) in by.items():
            c.ob(f"{k}: {a} cases", n=b)
    common.parallel(c, [(lambda c, i=i: many(c, cs[i::16])) for i in range(16)])


if __name__ == '__main__':
    common.run('V01', "symbolic execution of lsl/imaging/data.py, conversions in lsl/imaging/utils.py and lsl/sim/vis.py on arrays of polynomials; identities and branches decided by z3", body)
