import os
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, pyrun, pysym as ps
from ldp_common import EXTS, FH, FS, SIZE, SYNC, TS, digits, expand, real_file, setup
from fractions import Fraction as Fr

CUT = 61849368000000000


def pay(fmt, tag):
    """Real and imaginary part of the samples of frame `tag` (0: zeros)."""
    import numpy as np
    if tag == 0:
        return np.zeros((2, 4096), dtype=np.int8)
    re = digits(tag, 4096)
    im = ((np.arange(4096) % 5) - 2).astype(np.int8)
    return np.array([re, im])


def blob(fmt, r):
    if r['kind'] == 'junk':
        return bytes(1 + k % 7 for k in range(SIZE[fmt]))
    h = SYNC + struct.pack('>IIHHQII', r['drx_id'] << 24 | 1, 0, r['decimation'], r['time_offset'], r['timetag'], r['tuning_word'], 0)
    re, im = pay(fmt, r['tag'])
    if fmt == 'drx':
        return h + bytes((int(a) & 15) << 4 | (int(b) & 15) for a, b in zip(re, im))
    return h + bytes(x & 255 for a, b in zip(re, im) for x in (int(a), int(b)))


def stub(fmt, m, ci8):
    """What the compiled reader does (properties R01, R02)."""
    import numpy as np

    def read(fh, frame):
        o = fh.where()
        r = fh.at.get(o)
        if o + SIZE[fmt] > fh.size:
            fh.pos = max(fh.size, o)
            raise m.gEOFError('end of file')
        fh.pos = o + SIZE[fmt]
        if r is None or r['kind'] == 'junk':
            raise m.gSyncError('sync')
        h, p = frame.header, frame.payload
        h.drx_id, h.decimation, h.time_offset = r['drx_id'], r['decimation'], r['time_offset']
        h.frame_count, h.second_count = 1, 0
        p.timetag, p.tuning_word, p.flags = r['timetag'], r['tuning_word'], 0
        re, im = pay(fmt, r['tag'])
        p._data = np.stack([re, im], axis=1).reshape(-1).copy() if ci8 else (re + 1j*im).astype(np.complex64)
        return frame
    return read


def build(env, fmt, ids, dec, sets, jitter, T0, toff, junk):
    """sets: (tick or None for a symbolic place, indices of the IDs there)."""
    recs, stream = [], []
    tag = 0
    for k, (t, have) in enumerate(sets):
        time = T0 + t
        row = {}
        for i in have:
            tag += 1
            b, tu, po = ids[i]
            recs.append(dict(kind='frame', drx_id=b | tu << 3 | po << 7 | (64 if fmt == 'drx8' else 0), decimation=dec, time_offset=toff,
                             timetag=time, tuning_word=1000*tu, tag=tag, set=k))
            row[2*(tu-1) + po] = tag
        stream.append((t, row))
    for a, b in jitter:                       # frames out of order in the file
        recs[a], recs[b] = recs[b], recs[a]
    for a in junk:                            # unreadable frames
        r = recs[a]
        for k, (t, row) in enumerate(stream):
            if k == r['set']:
                for i in [i for i, v in row.items() if v == r['tag']]:
                    del row[i]
        recs[a] = dict(kind='junk')
    return recs, stream


def same_data(env, fmt, got, due, n, ci8, what):
    import numpy as np
    env.check(got.shape == (4, n*4096), f"{what}: array of {got.shape} for {n} frames")
    if ci8:
        re, im = got['re'], got['im']
    else:
        re, im = got.real, got.imag
    for i in range(4):
        for k in range(n):
            w = pay(fmt, due[k][1].get(i, 0) if k < len(due) else 0)
            s = slice(4096*k, 4096*(k+1))
            env.check(bool((re[i, s] == w[0]).all() and (im[i, s] == w[1]).all()), f"{what}: wrong samples in input {i}, frame {k}")


def run(env, fmt, ids, dec, sets, ops, nseg=3, fill=4, jitter=(), junk=(), gapat=None, ignore=False, ci8=False, tail=0, drop=None):
    """Open the file, do the operations, compare with what is due."""
    import numpy as np
    m, L = setup(env, fmt, {'drx_buffer_size': nseg, 'drx_autofill_size': fill})
    skip = 4096*dec
    rate = Fr(FS, dec)
    T0 = env.int('T0', CUT+1, 2**62)
    toff = env.int('time_offset', 0, 65535)
    sets = [(t*skip, list(h)) for t, h in sets]
    if drop is not None:                       # every pattern of frames missing from some sets
        for k in drop:
            sets[k] = (sets[k][0], [i for i in sets[k][1] if not bool(env.bool(f"missing{k}_{i}"))])
    if gapat is not None:                      # a gap of any length
        g = env.int('gap', 0, (fill+2)*skip)
        sets = [(t + g if k >= gapat else t, h) for k, (t, h) in enumerate(sets)]
    recs, stream = build(env, fmt, ids, dec, sets, jitter, T0, toff, junk)
    if env.sym:
        m.__dict__[f"read_{fmt}"] = stub(fmt, m, False)
        m.__dict__[f"read_{fmt}_ci8"] = stub(fmt, m, True)
        fh = FH(fmt, recs, lambda r: SIZE[fmt], tail)
    else:
        fh = real_file([blob(fmt, r) for r in recs] + [bytes(tail)])
        path = fh.name
    cls = L.DRXFile if fmt == 'drx' else L.DRX8File
    f = cls(fh=fh, ignore_timetag_errors=ignore) if env.sym else cls(filename=path, ignore_timetag_errors=ignore)
    try:
        due = expand(env, stream, skip, fill)
        pos = 0
        start = due[0]
        d = f.description
        env.eq(d['start_time_samples'], T0 + start[0] - toff, 'start_time_samples')
        env.check(d['nbeampol'] == len(ids) and d['beam'] == ids[0][0] and d['frame_size'] == SIZE[fmt] and d['nframe'] == len(recs) and d['data_bits'] == (4 if fmt == 'drx' else 8), 'description')
        env.close(d['sample_rate'], FS/dec, 1e-6, 'sample_rate')
        for tu, key in ((1, 'freq1'), (2, 'freq2')):
            env.close(d[key], (1000*tu*FS/2**32 if any(i[1] == tu for i in ids) else 0.0), 1e-3, key)
        for n, op in enumerate(ops):
            if op[0] in ('read', 'all'):
                lo, hi = op[1:3]
                x = env.real(f"frames{n}", Fr(lo), Fr(hi))
                for _ in range(1 if op[0] == 'read' else 100):
                    samples = (n + len(ops)) % 2 == 1
                    kw = dict(time_in_samples=samples)
                    if ci8:
                        kw['return_ci8'] = True
                    left = due[pos:]
                    try:
                        dur, t, data = f.read(x*4096*dec/FS, **kw)
                    except L.errors.EOFError:
                        env.check(not left, f"read {n}: end of file although {len(left)} times are left")
                        env.reach('eof')
                        if op[0] == 'read':
                            continue
                        break
                    except RuntimeError as e:
                        env.check('gap' in left and not ignore, f"read {n}: {e}")
                        env.reach('gap')
                        return
                    env.check(bool(left), f"read {n}: data after the end")
                    c = data.shape[1]//4096
                    env.close(max(x, 1) if not ps.is_sym(x) else ps.ite(x >= 1, x, 1), c, 0.5001, f"read {n}: number of frames")
                    if ignore:
                        left = [e for e in left if e != 'gap']
                    got = left[:c]
                    env.check('gap' not in got[1:] and got[0] != 'gap', f"read {n}: a gap that cannot be filled goes unnoticed")
                    env.close(dur*FS/dec/4096, len(got), 1e-6, f"read {n}: duration")
                    want = T0 + got[0][0] - toff
                    if samples:
                        env.eq(t, want, f"read {n}: time of the first sample")
                    elif env.sym:
                        env.eq(t.v, want/FS, f"read {n}: time of the first sample")
                    else:
                        env.eq(t, L.FrameTimestamp.from_dp_timetag(want), f"read {n}: time of the first sample")
                    same_data(env, fmt, data, got, c, ci8, f"read {n}")
                    k = 0
                    while k < len(got):
                        k += due[pos] != 'gap'
                        pos += 1
                    env.reach('read')
            elif op[0] == 'offset':
                lo, hi = op[1:3]
                x = env.real(f"offset{n}", Fr(lo), Fr(hi))
                r = f.offset(x*4096*dec/FS)
                r = r*FS/dec/4096           # in frames
                env.close(r, x, 2.001, f"offset {n}: not where asked")
                i = None
                for j, e in enumerate(due):
                    dd = r - Fr(e[0] - due[pos][0], skip)
                    if bool(env.land(dd < 1e-4, dd > -1e-4)):
                        i = j
                env.check(i is not None, f"offset {n}: returned a time that is not in the file")
                pos = i
                env.eq(f.description['start_time_samples'], T0 + due[pos][0] - toff, f"offset {n}: start_time_samples")
                env.reach('offset')
            elif op[0] == 'reset':
                f.reset()
                pos = 0
    finally:
        f.close()


H = {'run': run}
I1, I2, I4 = [(2, 1, 1)], [(1, 1, 0), (1, 2, 1)], [(4, t, p) for t in (1, 2) for p in (0, 1)]
X2, T2 = [(3, 1, 0), (3, 1, 1)], [(3, 2, 0), (3, 2, 1)]


def cases(T):
    out = []

    def go(label, **k):
        out.append((label, k))
    A, B = ('read', '0', '2.4'), ('all', '2.6', '3.4')
    plain = lambda n, i: [(k, list(range(len(i)))) for k in range(n)]
    for fmt in ('drx', 'drx8'):
        ci = fmt == 'drx8'
        go(f"{fmt} one input", fmt=fmt, ids=I1, dec=10, sets=plain(32, I1), ops=[A, B], nseg=2, ci8=ci)
        go(f"{fmt} two inputs", fmt=fmt, ids=I2, dec=784, sets=plain(17, I2), ops=[A, A, B], ci8=not ci)
        go(f"{fmt} four inputs", fmt=fmt, ids=I4, dec=20, sets=plain(9, I4), ops=[A, ('all', '1.6', '4.4')], nseg=4, tail=100)
        go(f"{fmt} full buffer", fmt=fmt, ids=I4, dec=40, sets=plain(24, I4), ops=[('read', '1.6', '2.4'), ('all', '4.6', '5.4')], nseg=20, fill=50)
        go(f"{fmt} missing", fmt=fmt, ids=I2, dec=20, sets=plain(20, I2), ops=[('all', '3.6', '4.4')], drop=(0, 4, 9), ci8=ci)
        go(f"{fmt} missing at the end", fmt=fmt, ids=I2, dec=20, sets=plain(20, I2), ops=[('all', '3.6', '4.4')], drop=(15, 16, 18, 19), ci8=not ci)
        go(f"{fmt} order", fmt=fmt, ids=I2, dec=10, sets=plain(17, I2), ops=[A, B], jitter=((3, 4), (10, 13), (20, 21)))
        go(f"{fmt} unreadable", fmt=fmt, ids=I2, dec=10, sets=plain(40, I2), ops=[A, ('all', '4.6', '5.4')], junk=(66, 70, 71))
        for at in (4, 14) + ((9, 16) if T else ()):
            for ig in (False, True):
                go(f"{fmt} gap at {at}{' ignored' if ig else ''}", fmt=fmt, ids=X2 if at == 4 else T2, dec=10, sets=plain(17, X2), ops=[A, B], gapat=at, ignore=ig, ci8=ig)
        go(f"{fmt} offset", fmt=fmt, ids=I4, dec=20, sets=plain(20, I4), ops=[('offset', '0', '9'), A, B])
        go(f"{fmt} offset after read", fmt=fmt, ids=I2, dec=10, sets=plain(40, I2), ops=[A, ('offset', '-1.5', '3'), A, ('offset', '-1', '1'), ('all', '7.6', '8.4')])
        go(f"{fmt} reset", fmt=fmt, ids=I2, dec=98, sets=plain(17, I2), ops=[A, ('reset',), A, B])
    for d in (4, 5, 7, 14, 25, 28, 49, 100) + ((3, 31, 50, 112, 160, 320, 392, 196) if T else ()):
        go(f"drx decimation {d}", fmt='drx', ids=I4, dec=d, sets=plain(8, I4), ops=[('all', '2', '3')], nseg=2)
    return out


def body(c):
    undo = []
    for n in ('lsl.reader.base', 'lsl.common.ndp', 'lsl.reader.utils', 'lsl.reader.buffer', 'lsl.reader.ldp', 'lsl.reader.drx', 'lsl.reader.drx8'):
        undo += ps.patch(pyrun.imp(n))
    S = os.path.abspath(__file__)
    T = common.thorough()
    jobs = []
    only = os.environ.get('VERIF_ONLY')
    for label, k in cases(T):
        if not only or only in label:
            jobs.append(lambda c, label=label, k=k: pyrun.explore(c, f"run | {label}", run, S, k, exts=EXTS, max_paths=4000, decisions=20000, concretise=64, budget=400))
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds += ['files of 32 to 104 frames (8 to 32 times of 1, 2 or 4 inputs), ring of 2 to 4 or the default 20 times, gaps filled below 4 or the default 50 times',
                 'start time, time offset, durations, offsets and the length of one gap are symbols; every pattern of missing frames in three or four times']
    c.stubs += ['the compiled readers by what R01 and R02 establish, FrameTimestamp by what T01 does; counterexamples run on real files and the compiled code']
    c.outside.append('files that begin with more than 300 s of gap, read_frame() between reads, mixing complex and 8-bit reads, offsets from the end of the file')


pyrun.EXTS['L01'] = EXTS
if __name__ == "__main__":
    pyrun.main('L01', 'symbolic execution of lsl/reader/ldp.py with the frame buffers over files of symbolic frames', body, H, __file__)
