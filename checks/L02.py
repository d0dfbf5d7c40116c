import os
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, pyrun, pysym as ps
from ldp_common import EXTS, FH, FS, SYNC, NPX, digits, expand, real_file, setup
from fractions import Fraction as Fr

PROD = {0x01: ['XX'], 0x09: ['XX', 'YY'], 0x0F: ['XX', 'XY_real', 'XY_imag', 'YY'], 0x10: ['I'], 0xF0: ['I', 'Q', 'U', 'V'], 0x90: ['I', 'V']}


# ------------------------------------------------------------------ TBX
def tpay(tag, n):
    """Real and imaginary part of the n values of frame `tag`"""
    import numpy as np
    if tag == 0:
        return np.zeros((2, n), dtype=np.int8)
    return np.array([digits(tag, n), ((np.arange(n) % 11) - 5).astype(np.int8)])


def tsize(r):
    return 28 + 2*r['nchan']*r['nstand']


def tblob(r):
    h = SYNC + struct.pack('>IIIHHQ', 8 << 24 | r['frame_count'], 0, r['first_chan'], r['nstand'], r['nchan'], r['timetag'])
    re, im = tpay(r['tag'], 2*r['nchan']*r['nstand'])
    return h + bytes((int(a) & 15) << 4 | (int(b) & 15) for a, b in zip(re, im))


def tstub(m, ci8):
    """What the compiled reader does (property R03)."""
    import numpy as np

    def read(fh, frame):
        o = fh.where()
        r = fh.at.get(o)
        if r is None:
            if fh.size - o < 28:
                fh.pos = max(fh.size, o)
                raise m.gEOFError('end of file')
            fh.pos = o
            raise m.gSyncError('sync')
        fh.pos = o + tsize(r)
        h, p = frame.header, frame.payload
        h.frame_id, h.frame_count, h.second_count = 8, r['frame_count'], 0
        h.first_chan, h.nstand, h.nchan = r['first_chan'], r['nstand'], r['nchan']
        p.timetag = r['timetag']
        re, im = tpay(r['tag'], 2*r['nchan']*r['nstand'])
        if ci8:
            p._data = np.stack([re, im], axis=1).reshape(r['nchan'], r['nstand'], 4).copy()
        else:
            p._data = (re + 1j*im).astype(np.complex64).reshape(r['nchan'], r['nstand'], 2)
        return frame
    return read


def tbx(env, chans, nchan, nstand, step, sets, ops, nseg=3, fill=4, jitter=(), gapat=None, ignore=False, ci8=False, tail=0, drop=None):
    import numpy as np
    m, L = setup(env, 'tbx', {'tbx_buffer_size': nseg, 'tbx_autofill_size': fill})
    L.np = NPX(np) if env.sym else np
    T0 = env.int('T0', 1, 2**62)
    sets = [(t*step, list(h)) for t, h in sets]
    if drop is not None:
        for k in drop:
            sets[k] = (sets[k][0], [i for i in sets[k][1] if not bool(env.bool(f"missing{k}_{i}"))])
    if gapat is not None:
        g = env.int('gap', 0, (fill+2)*step)
        sets = [(t + g if k >= gapat else t, h) for k, (t, h) in enumerate(sets)]
    recs, stream, tag = [], [], 0
    for k, (t, have) in enumerate(sets):
        row = {}
        for i in have:
            tag += 1
            recs.append(dict(frame_count=1+k, first_chan=chans[i], nstand=nstand, nchan=nchan, timetag=T0+t, tag=tag))
            row[i] = tag
        stream.append((t, row))
    for a, b in jitter:
        recs[a], recs[b] = recs[b], recs[a]
    if env.sym:
        m.__dict__['read_tbx'], m.__dict__['read_tbx_ci8'] = tstub(m, False), tstub(m, True)
        fh = FH('tbx', recs, tsize, tail)
        f = L.TBXFile(fh=fh, ignore_timetag_errors=ignore)
    else:
        with real_file([tblob(recs[0]), bytes(2**20)]) as g_:      # the compiled reader remembers the size of the last frame
            with open(g_.name, 'rb') as h_:
                m.read_frame(h_)
        fh = real_file([tblob(r) for r in recs] + [bytes(tail)])
        f = L.TBXFile(filename=fh.name, ignore_timetag_errors=ignore)
    rate = FS/step
    n_all = nchan*len(chans)

    def data_ok(data, got, what):
        env.check(data.shape[:2] == (2*nstand, n_all), f"{what}: array of {data.shape}")
        c = data.shape[2]
        re, im = (data['re'], data['im']) if ci8 else (data.real, data.imag)
        for k in range(c):
            for i, ch in enumerate(sorted(chans)):
                w = tpay(got[k][1].get(chans.index(ch), 0) if k < len(got) else 0, 2*nchan*nstand).reshape(2, nchan, 2*nstand)
                s = slice(nchan*i, nchan*(i+1))
                env.check(bool((re[:, s, k].T == w[0]).all() and (im[:, s, k].T == w[1]).all()), f"{what}: wrong samples in channels of {ch}, time {k}")
        return c
    try:
        due = expand(env, stream, step, fill)
        d = f.description
        env.check(d['nchan'] == n_all and d['nantenna'] == 2*nstand and d['frame_channel_count'] == nchan and d['nframe'] == len(recs), 'description')
        env.close(d['sample_rate'], rate, 1e-6, 'sample_rate')
        want = [(ch + j)*rate for ch in sorted(chans) for j in range(nchan)]
        env.check(len(d['freq1']) == n_all and all(abs(float(a)-b) < 1 for a, b in zip(d['freq1'], want)), 'frequencies of the channels')
        env.eq(d['start_time_samples'], T0 + due[0][0], 'start_time_samples')
        follow(env, L, f, due, ops, T0, 0, step, ignore, ci8, data_ok, 1.0, 'exact' if drop is None and gapat is None else 'most')
    finally:
        f.close()


# --------------------------------------------------------------- DRSpec
def sval(tag, p, t, j):
    return float(tag*64 + p*8 + t*4 + j % 3 + 1)


def ssize(r):
    return 76 + 8*len(PROD[r['format']])*r['lfft']


def sblob(r):
    import numpy as np
    h = bytearray(76)
    h[0:4] = bytes.fromhex('dec0dec0')
    struct.pack_into('<Q', h, 4, r['timetag'])
    struct.pack_into('<H', h, 12, r['time_offset'])
    struct.pack_into('<H', h, 14, r['decimation'])
    struct.pack_into('<II', h, 16, *r['tuning'])
    for k in range(4):
        struct.pack_into('<I', h, 24+4*k, r['nints'])
    h[44], h[45], h[46] = r['beam'], r['format'], 2
    struct.pack_into('<I', h, 48, r['lfft'])
    struct.pack_into('<I', h, 52, r['nints'])
    h[72:76] = bytes.fromhex('0ced0ced')
    return bytes(h)


def drspec_file(L, recs, tail):
    """Raw values are normalized by the reader; the replay asks it for one frame at a time, so only their order counts."""
    import numpy as np
    out = []
    for r in recs:
        P = PROD[r['format']]
        v = np.zeros((2, r['lfft'], len(P)), dtype=np.float32)
        for t in (0, 1):
            for p in range(len(P)):
                for j in range(r['lfft']):
                    v[t, j, p] = sval(r['tag'], p, t, j)
        out.append(sblob(r) + v.tobytes())
    return real_file(out + [bytes(tail)])


def sstub(m):
    import numpy as np

    def read(fh, frame):
        o = fh.where()
        r = fh.at.get(o)
        if r is None:
            if fh.size - o < 76:
                fh.pos = max(fh.size, o)
                raise m.gEOFError('end of file')
            fh.pos = o
            raise m.gSyncError('sync')
        fh.pos = o + ssize(r)
        h, p = frame.header, frame.payload
        h.beam, h.format, h.decimation, h.nints, h.time_offset = r['beam'], r['format'], r['decimation'], r['nints'], r['time_offset']
        p.timetag, p.tuning_words = r['timetag'], list(r['tuning'])
        for t in (0, 1):
            for k, n in enumerate(PROD[r['format']]):
                setattr(p, f"{n}{t}", np.array([sval(r['tag'], k, t, j) for j in range(r['lfft'])], dtype=np.float32))
        return frame
    return read


def drspec(env, format, lfft, nints, dec, n, ops, gapat=None, ignore=False, tail=0):
    import numpy as np
    m, L = setup(env, 'drspec', {})
    T0 = env.int('T0', 10**6, 2**61)
    toff = env.int('time_offset', 0, 65535)
    step = nints*lfft*dec
    ticks = [k*step for k in range(n)]
    if gapat is not None:
        g = env.int('gap', 0, 3*step)
        env.assume(env.lor(g == 0, g > step//100))
        ticks = [t + g if k >= gapat else t for k, t in enumerate(ticks)]
    recs = [dict(beam=2, format=format, decimation=dec, nints=nints, time_offset=toff, timetag=T0+t, tuning=(1000, 2000), lfft=lfft, tag=k+1) for k, t in enumerate(ticks)]
    if env.sym:
        m.__dict__['read_drspec'] = sstub(m)
        fh = FH('drspec', recs, ssize, tail)
        f = L.DRSpecFile(fh=fh, ignore_timetag_errors=ignore)
    else:
        fh = drspec_file(L, recs, tail)
        f = L.DRSpecFile(filename=fh.name, ignore_timetag_errors=ignore)
        single = {}
        with open(fh.name, 'rb') as g_:
            for k in range(n):
                single[k+1] = m.read_frame(g_).payload
    P = PROD[format]

    def data_ok(data, got, what):
        env.check(data.shape[0] == 2*len(P) and data.shape[2] == lfft, f"{what}: array of {data.shape}")
        for k in range(data.shape[1]):
            for t in (0, 1):
                for p, name in enumerate(P):
                    if k >= len(got):
                        w = np.zeros(lfft)
                    elif env.sym:
                        w = np.array([sval(got[k][1], p, t, j) for j in range(lfft)])
                    else:
                        w = getattr(single[got[k][1]], f"{name}{t}")
                    env.check(bool((data[t*len(P)+p, k] == w).all()), f"{what}: wrong spectrum of {name}, tuning {t+1}, time {k}")
        return data.shape[1]
    try:
        due, last = [], None
        for k, t in enumerate(ticks):
            if last is not None and bool(t - last > step + step//1000):
                due.append('gap')
            due.append((t, k+1))
            last = t
        d = f.description
        env.check(d['LFFT'] == lfft and d['nint'] == nints and d['data_products'] == P and d['nproduct'] == len(P) and d['beam'] == 2 and d['nframe'] == n + (tail // ssize(recs[0])), 'description')
        env.close(d['tint'], step/FS, 1e-9, 'tint')
        env.eq(d['start_time_samples'], T0 - toff, 'start_time_samples')
        follow(env, L, f, due, ops, T0, toff, step, ignore, False, data_ok, 0.501, False)
    finally:
        f.close()


# -------------------------------------------------------------- in common
def follow(env, L, f, due, ops, T0, toff, step, ignore, ci8, data_ok, tol, capped):
    """Do the operations and compare with what is due.  capped: a read never asks for more than the file can hold
    ('most': frames are missing from it, so that this is an estimate)."""
    pos = 0
    for n, op in enumerate(ops):
        if op[0] in ('read', 'all', 'whole'):
            x = env.real(f"times{n}", Fr(op[1]), Fr(op[2])) if op[0] != 'whole' else None
            for _ in range(1 if op[0] == 'read' else 100):
                samples = (n + len(ops)) % 2 == 1
                kw = dict(time_in_samples=samples)
                if ci8:
                    kw['return_ci8'] = True
                left = due[pos:]
                try:
                    dur, t, data = f.read(x*step/FS, **kw) if x is not None else f.read(**kw)
                except L.errors.EOFError:
                    env.check(not left, f"read {n}: end of file although {len(left)} times are left")
                    env.reach('eof')
                    break
                except RuntimeError as e:
                    env.check('gap' in left and not ignore, f"read {n}: {e}")
                    env.reach('gap')
                    return
                env.check(bool(left), f"read {n}: data after the end")
                if ignore:
                    left = [e for e in left if e != 'gap']
                c = data.shape[2] if capped else data.shape[1]
                if x is None:
                    env.check(c >= len([e for e in left if e != 'gap' and e[1]]), f"read {n}: not all that is left")
                else:
                    xx = ps.ite(x >= 1, x, 1) if ps.is_sym(x) else max(x, 1)
                    if capped == 'exact' and c < len(left):
                        env.close(xx, c, 0.5001, f"read {n}: number of times")
                    elif capped:
                        env.check(c <= xx + 0.5001, f"read {n}: number of times")
                    else:
                        env.close(xx, c, 0.5001, f"read {n}: number of times")
                got = left[:c]
                env.check('gap' not in got, f"read {n}: a gap that cannot be filled goes unnoticed")
                env.close(dur*FS/step, len(got), 1e-6, f"read {n}: duration")
                want = T0 + got[0][0] - toff
                if samples:
                    env.eq(t, want, f"read {n}: time of the first sample")
                elif env.sym:
                    env.eq(t.v, want/FS, f"read {n}: time of the first sample")
                else:
                    env.eq(t, L.FrameTimestamp.from_dp_timetag(want), f"read {n}: time of the first sample")
                data_ok(data, got, f"read {n}")
                k = 0
                while k < len(got):
                    k += due[pos] != 'gap'
                    pos += 1
                env.reach('read')
        elif op[0] == 'offset':
            x = env.real(f"offset{n}", Fr(op[1]), Fr(op[2]))
            r = f.offset(x*step/FS)*FS/step
            env.close(r, x, tol + 0.001, f"offset {n}: not where asked")
            i = None
            for j, e in enumerate(due):
                dd = r - Fr(e[0] - due[pos][0], step)
                if bool(env.land(dd < 1e-4, dd > -1e-4)):
                    i = j
            env.check(i is not None, f"offset {n}: returned a time that is not in the file")
            pos = i
            env.eq(f.description['start_time_samples'], T0 + due[pos][0] - toff, f"offset {n}: start_time_samples")
            env.reach('offset')
        elif op[0] == 'reset':
            f.reset()
            pos = 0


H = {'tbx': tbx, 'drspec': drspec}


def cases(T):
    out = []

    def go(label, func, **k):
        out.append((label, func, k))
    A, B, W = ('read', '0', '2.4'), ('all', '2.6', '3.4'), ('whole',)
    plain = lambda n, i: [(k, list(range(i))) for k in range(n)]
    C1, C2, C3, G2, G3 = [100], [64, 68], [8, 0, 4], [64, 80], [200, 300, 204]
    go('tbx one', tbx, chans=C1, nchan=4, nstand=64, step=8192, sets=plain(9, 1), ops=[A, B], nseg=2)
    go('tbx two', tbx, chans=C2, nchan=4, nstand=64, step=8192, sets=plain(9, 2), ops=[A, A, B], ci8=True)
    go('tbx three', tbx, chans=C3, nchan=4, nstand=64, step=7840, sets=plain(9, 3), ops=[A, ('all', '1.6', '4.4')], nseg=4, tail=20)
    go('tbx apart', tbx, chans=G2, nchan=4, nstand=64, step=8192, sets=plain(8, 2), ops=[A, B])
    go('tbx apart 3', tbx, chans=G3, nchan=4, nstand=64, step=8192, sets=plain(8, 3), ops=[A, B], ci8=True)
    go('tbx whole', tbx, chans=C2, nchan=4, nstand=64, step=8192, sets=plain(30, 2), ops=[W], nseg=25, fill=25)
    go('tbx rest', tbx, chans=C1, nchan=4, nstand=64, step=8192, sets=plain(30, 1), ops=[A, W], nseg=25, fill=25)
    go('tbx missing', tbx, chans=C2, nchan=4, nstand=64, step=8192, sets=plain(12, 2), ops=[('all', '3.6', '4.4')], drop=(2, 5, 6))
    go('tbx missing at the end', tbx, chans=C2, nchan=4, nstand=64, step=7840, sets=plain(12, 2), ops=[('all', '3.6', '4.4')], drop=(8, 10, 11), ci8=True)
    go('tbx order', tbx, chans=C2, nchan=4, nstand=64, step=8192, sets=plain(10, 2), ops=[A, B], jitter=((3, 4), (8, 11)))
    for at in (3, 9) + ((6, 11) if T else ()):
        for ig in (False, True):
            go(f"tbx gap at {at}{' ignored' if ig else ''}", tbx, chans=C1, nchan=4, nstand=64, step=8192 if at == 3 else 7840, sets=plain(12, 1), ops=[A, B], gapat=at, ignore=ig, ci8=ig)
    go('tbx offset', tbx, chans=C2, nchan=4, nstand=64, step=8192, sets=plain(14, 2), ops=[('offset', '0', '9'), A, B])
    go('tbx offset after read', tbx, chans=C2, nchan=4, nstand=64, step=8192, sets=plain(16, 2), ops=[A, ('offset', '-1', '4'), A, B])
    go('tbx offset back', tbx, chans=C1, nchan=4, nstand=64, step=7840, sets=plain(16, 1), ops=[('read', '4.6', '6.4'), ('offset', '-4', '0'), B])
    go('tbx reset', tbx, chans=C2, nchan=4, nstand=64, step=8192, sets=plain(9, 2), ops=[A, ('reset',), A, B])
    for fmt in PROD:
        go(f"drspec {fmt}", drspec, format=fmt, lfft=16 if fmt & 1 else 32, nints=768, dec=10, n=7, ops=[A, B], tail=0)
    go('drspec cut off', drspec, format=9, lfft=16, nints=6144, dec=20, n=6, ops=[A, ('all', '1.6', '3.4')], tail=60)
    for ig in (False, True):
        go(f"drspec gap {ig}", drspec, format=0x90, lfft=16, nints=100, dec=196, n=7, ops=[A, B], gapat=4, ignore=ig)
    go('drspec offset', drspec, format=9, lfft=16, nints=768, dec=40, n=12, ops=[('offset', '0', '8'), A, B])
    go('drspec offset after read', drspec, format=9, lfft=16, nints=768, dec=784, n=12, ops=[A, ('offset', '-1', '6'), A, B])
    go('drspec reset', drspec, format=1, lfft=16, nints=768, dec=98, n=6, ops=[A, ('reset',), A, B])
    return out


def body(c):
    undo = []
    for n in ('lsl.reader.base', 'lsl.common.ndp', 'lsl.reader.utils', 'lsl.reader.buffer', 'lsl.reader.ldp', 'lsl.reader.tbx', 'lsl.reader.drspec', 'lsl.reader.cor'):
        undo += ps.patch(pyrun.imp(n))
    S = os.path.abspath(__file__)
    T = common.thorough()
    jobs = []
    only = os.environ.get('VERIF_ONLY')
    for label, func, k in cases(T):
        if not only or only in label:
            jobs.append(lambda c, label=label, func=func, k=k: pyrun.explore(c, f"{func.__name__} | {label}", func, S, k, exts=EXTS, max_paths=4000, decisions=20000, concretise=64, budget=400))
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds += ['TBX: files of 8 to 30 times of 1 to 3 blocks of channels (adjacent or not), both time tag steps, ring of 2 to 4 or the default 25 times, gaps filled below 4 or the default 25 times',
                 'DR spectrometer: files of 6 to 12 spectra of all products',
                 'start time, time offset, durations, offsets and the length of one gap are symbols; every pattern of missing frames in three times']
    c.stubs += ['the compiled readers by what R03 and R05 establish, FrameTimestamp by what T01 does; counterexamples run on real files and the compiled code']
    c.outside.append('frames of other formats in between, read_frame() between reads, mixing complex and 8-bit reads, offsets that leave no frame')


pyrun.EXTS['L02'] = EXTS
if __name__ == "__main__":
    pyrun.main('L02', 'symbolic execution of lsl/reader/ldp.py with the frame buffers over files of symbolic frames', body, H, __file__)
