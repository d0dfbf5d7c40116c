import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps

CUT = 61849368000000000


def mods(env, *names):
    import importlib
    if env.sym:
        return [pyrun.imp(n) for n in names]
    return [importlib.import_module(n) for n in names]


def payload(kind, k):
    import numpy as np
    if kind.endswith('ci8'):
        from importlib import import_module
        CI8 = import_module('lsl.reader.base').CI8
        a = np.zeros(3, dtype=CI8)
        a['re'] = 1+k
        a['im'] = 2
        return a
    if kind.startswith('VDIF'):
        return np.full(4, 1+k, dtype=np.float32)
    if kind.startswith('COR'):
        a = np.full((2, 2, 2), 1+k, dtype=np.complex64)
        a[0, 0, 0] = np.nan
        return a
    return np.full(3, 1+k+1j, dtype=np.complex64)


def make(env, kind, ident, t, k):
    """The k-th frame: source `ident`, time `t`."""
    b = kind[:-4] if kind.endswith('-ci8') else kind
    m, = mods(env, f"lsl.reader.{b.lower()}")
    f = m.Frame()
    f.payload._data = payload(kind, k)
    if b in ('DRX', 'DRX8'):
        beam, tune, pol = ident
        f.header.drx_id = beam | tune << 3 | pol << 7 | (64 if b == 'DRX8' else 0)
        f.header.decimation = 10
        f.header.time_offset = 0
        f.payload.timetag = t
    elif b == 'TBX':
        f.header.frame_id = 8
        f.header.first_chan = ident
        f.payload.timetag = t
    elif b == 'COR':
        f.payload.stand0, f.payload.stand1, f.header.first_chan = ident
        f.payload.timetag = t
    else:
        f.header.station_id = 11
        f.header.thread_id = ident
        f.header.seconds_from_epoch, f.header.frame_in_second = t
    return f


def ident_of(kind, f):
    if kind.startswith('DRX'):
        return f.id
    if kind.startswith('TBX'):
        return f.header.first_chan
    if kind.startswith('COR'):
        return f.id + (f.header.first_chan,)
    return f.header.thread_id


def time_of(kind, f):
    if kind == 'VDIF':
        return f.header.seconds_from_epoch, f.header.frame_in_second
    return f.payload.timetag


def order_key(kind, i):
    return (i[2], i[0], i[1]) if kind.startswith('COR') else i


def lt(kind, a, b):
    if kind == 'VDIF':
        if a[0] < b[0]:
            return True
        if a[0] > b[0]:
            return False
        return bool(a[1] < b[1])
    return bool(a < b)


def same(kind, a, b):
    return not lt(kind, a, b) and not lt(kind, b, a)


def buffers(env, kind, ids, nseg, reorder):
    buf, = mods(env, 'lsl.reader.buffer')
    if kind.startswith('DRX'):
        cls = buf.DRX8FrameBuffer if kind.startswith('DRX8') else buf.DRXFrameBuffer
        return cls(beams=sorted({i[0] for i in ids}), tunes=sorted({i[1] for i in ids}), pols=sorted({i[2] for i in ids}),
                   nsegments=nseg, reorder=reorder)
    if kind.startswith('TBX'):
        return buf.TBXFrameBuffer(chans=list(ids), nsegments=nseg, reorder=reorder)
    if kind.startswith('COR'):
        return buf.CORFrameBuffer(chans=sorted({i[2] for i in ids}), nsegments=nseg, reorder=reorder)
    return buf.VDIFFrameBuffer(threads=list(ids), nsegments=nseg, reorder=reorder)


def times(env, kind, k):
    if kind == 'VDIF':
        return env.int(f"sec{k}", 0, 2**30-1), env.int(f"frame{k}", 0, 999999)
    if kind.startswith('DRX'):
        return env.int(f"tag{k}", 0, 2**63-1)
    return env.int(f"tag{k}", 1, 2**63-1)


class Model:
    def __init__(self, env, kind, ids, nseg, reorder):
        self.env, self.kind, self.ids, self.nseg, self.reorder = env, kind, [tuple(i) if isinstance(i, list) else i for i in ids], nseg, reorder
        self.last = None
        self.pend = []      # (time, [(ident, frame)])
        self.dropped = self.full = self.partial = self.missing = 0

    def accepts(self, t):
        if self.last is None:
            return bool(t > CUT) if self.kind.startswith('DRX') else True
        return lt(self.kind, self.last, t)

    def add(self, ident, t, f):
        if not self.accepts(t):
            self.dropped += 1
            return False
        for tt, fr in self.pend:
            if same(self.kind, tt, t):
                fr.append((ident, f))
                return True
        self.pend.append((t, [(ident, f)]))
        return True

    def take(self, out, what):
        """The set `out` has to be the oldest one pending."""
        env, kind = self.env, self.kind
        i = 0
        for k in range(1, len(self.pend)):
            if lt(kind, self.pend[k][0], self.pend[i][0]):
                i = k
        t, fr = self.pend.pop(i)
        first = {}
        for ident, f in fr:
            if ident in first:
                self.dropped += 1
            else:
                first[ident] = f
        env.check(out is not None, f"{what}: nothing returned although a set is due")
        out = list(out)
        env.check(len(out) == len(self.ids), f"{what}: set of {len(out)} frames instead of {len(self.ids)}")
        got = {}
        for f in out:
            ident = ident_of(kind, f)
            env.check(ident in self.ids, f"{what}: frame of an unexpected source")
            env.check(ident not in got, f"{what}: two frames of the same source")
            got[ident] = f
            tt = time_of(kind, f)
            if kind == 'VDIF':
                env.eq(tt[0], t[0], f"{what}: frame of another time")
                env.eq(tt[1], t[1], f"{what}: frame of another time")
            else:
                env.eq(tt, t, f"{what}: frame of another time")
            if ident in first:
                env.check(f is first[ident], f"{what}: not the frame that was put in first")
                env.check(f.valid is True, f"{what}: a received frame is marked invalid")
            else:
                env.check(f.valid is False, f"{what}: fill frame marked valid")
                d = f.payload._data
                z = all(bool((d[n] == 0).all()) for n in d.dtype.names) if d.dtype.names else bool((d == 0).all())
                env.check(z, f"{what}: fill frame holds data")
                if kind.startswith('DRX'):
                    env.check(((f.header.drx_id >> 6) & 1) == (1 if kind.startswith('DRX8') else 0), f"{what}: fill frame of another format")
        if self.reorder:
            ks = [order_key(kind, ident_of(kind, f)) for f in out]
            env.check(ks == sorted(ks), f"{what}: set is not in order of the sources")
        if len(first) == len(self.ids):
            self.full += 1
        else:
            self.partial += 1
            self.missing += len(self.ids) - len(first)
        self.last = t

    def counters(self, b, what):
        for n in ('full', 'partial', 'missing', 'dropped'):
            self.env.eq(getattr(b, n), getattr(self, n), f"{what}: count of {n}")


def check_data(env, kind, frames):
    import numpy as np
    for k, f in enumerate(frames):
        want = payload(kind, k)
        env.check(want.tobytes() == f.payload._data.tobytes() and f.valid is True, 'a frame that was put in got changed')


def run(env, kind, ids, pool, nseg, reorder, n, batch=False, viaput=False):
    ids = [tuple(i) if isinstance(i, list) else i for i in ids]
    b = buffers(env, kind, ids, nseg, reorder)
    m = Model(env, kind, ids, nseg, reorder)
    frames = []
    k = 0
    while k < n:
        fs = []
        for j in range(2 if batch else 1):
            if k >= n:
                break
            ident = ids[pool[k]]
            t = times(env, kind, k)
            f = make(env, kind, ident, t, k)
            fs.append((ident, t, f))
            frames.append(f)
            k += 1
        want = [m.add(*x) for x in fs]
        r = (b.put if viaput else b.append)([x[2] for x in fs] if batch else fs[0][2])
        if not batch:
            env.check(bool(r) == want[0], 'append() does not say whether the frame was kept')
        env.check(b.is_empty() == (not m.pend), 'is_empty()')
        due = len(m.pend) >= nseg
        env.check(bool(b.filled) == due, 'filled')
        p = b.peek()
        env.check((p is None) == (not due), 'peek()')
        out = b.get()
        if due:
            m.take(out, 'get()')
            env.reach('get')
        else:
            env.check(out is None, 'get() before the buffer is full')
    for out in b.flush():
        env.check(bool(m.pend), 'flush() returns too much')
        env.reach('flush')
        m.take(out, 'flush()')
    env.check(not m.pend, 'flush() leaves frames behind')
    env.check(b.is_empty() and b.get() is None, 'buffer not empty after flush()')
    m.counters(b, 'end')
    check_data(env, kind, frames)


def reset(env, kind, ids, nseg):
    """reset() brings back a clean buffer"""
    ids = [tuple(i) if isinstance(i, list) else i for i in ids]
    b = buffers(env, kind, ids, nseg, False)
    m = Model(env, kind, ids, nseg, False)
    for k in range(3):
        t = times(env, kind, k)
        f = make(env, kind, ids[0], t, k)
        if k == 1:
            b.reset()
            env.check(b.is_empty(), 'reset() leaves frames behind')
            m.pend, m.last = [], None
        want = m.add(ids[0], t, f)
        env.check(bool(b.append(f)) == want, f"frame {'after reset() ' if k else ''}wrongly kept or dropped")
        if len(m.pend) >= nseg:
            m.take(b.get(), 'get()')
            env.reach('get')


H = {'run': run, 'reset': reset}
DRX4 = [(2, t, p) for t in (1, 2) for p in (0, 1)]
DRX2 = [(3, 1, 1), (3, 2, 1)]
BEAMS = [(1, 2, 0), (4, 2, 0)]


def pools(n, k):
    """Source of each of the n frames, up to renaming of the sources."""
    for v in itertools.product(range(k), repeat=n):
        seen = []
        for x in v:
            if x not in seen:
                seen.append(x)
        if seen == sorted(seen):
            yield list(v)


def body(c):
    names = ['lsl.reader.buffer'] + [f"lsl.reader.{n}" for n in ('drx', 'drx8', 'tbx', 'cor', 'vdif')]
    undo = []
    for n in names:
        undo += ps.patch(pyrun.imp(n))
    S = os.path.abspath(__file__)
    T = common.thorough()
    jobs = []

    def go(label, func, params, **kw):
        jobs.append(lambda c: pyrun.explore(c, label, func, S, params, **kw))

    two = [('DRX', DRX2), ('DRX8', DRX2), ('DRX-ci8', BEAMS), ('DRX8-ci8', BEAMS), ('TBX', [17, 900]), ('TBX-ci8', [64, 0]), ('VDIF', [5, 2])]
    n4 = 4
    for kind, ids in two:
        full = kind in ('DRX', 'VDIF') or T
        for nseg in (1, 2, 3):
            if nseg == 3 and not full:
                continue
            n = n4 if (kind == 'DRX' or T) else 3
            for pool in pools(n, 2):
                if not full and n == 3 and nseg == 1 and pool[0] == pool[-1] == 0 and pool[1] == 0:
                    continue
                go(f"run | {kind} {nseg} {pool}", run, dict(kind=kind, ids=ids, pool=pool, nseg=nseg, reorder=(nseg != 2), n=n), reach=('flush',) if nseg == 3 else ('get',))
    for pool in pools(3 if not T else 4, 4):
        go(f"run | DRX four {pool}", run, dict(kind='DRX', ids=DRX4, pool=pool, nseg=2, reorder=True, n=len(pool)), reach=('get', 'flush'))
    go("run | DRX batch", run, dict(kind='DRX', ids=DRX2, pool=[0, 1, 1, 0], nseg=2, reorder=False, n=4, batch=True), reach=('flush',))
    go("run | DRX put", run, dict(kind='DRX', ids=DRX2, pool=[0, 1, 1], nseg=2, reorder=False, n=3, viaput=True), reach=('get',))
    go("run | VDIF put", run, dict(kind='VDIF', ids=[0, 1], pool=[0, 1, 1], nseg=1, reorder=False, n=3, viaput=True), reach=('get',))
    cor = [(a, b, 1234) for a in range(1, 257) for b in range(a, 257)]
    for pool in ([0], [500]):
        go(f"run | COR {pool}", run, dict(kind='COR', ids=cor, pool=pool, nseg=1, reorder=pool == [0], n=1), reach=('get',))
    for kind, ids in two:
        for nseg in (1, 2):
            go(f"reset | {kind} {nseg}", reset, dict(kind=kind, ids=ids, nseg=nseg), reach=('get',))
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds += [f"histories of up to 4 frames (COR: 1), ring of 1 to 3 segments, 2 or 4 expected sources (COR: all 32896 baselines of one start channel)",
                 'time tags: every value 0..2^63-1 (VDIF: every second of the 30-bit epoch counter, frame numbers 0..999999); every order, every coincidence of the tags',
                 'every assignment of the sources to the frames, up to renaming of the sources']
    c.outside.append('frames of sources the buffer was not told to expect; VDIF frame rates of a million and more per second; two VDIF stations in one buffer')


if __name__ == "__main__":
    pyrun.main('F01', 'symbolic execution of the frame buffers of lsl/reader/buffer.py over histories of appends with symbolic time tags; reference model in the harness; z3 decides every branch and obligation', body, H, __file__)
