import os
import struct
import sys
import tempfile
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps

EXTS = ('lsl/reader/_gofast',)
SYNC = bytes.fromhex('dec0de5c')
RATES = {784: (250000, 1), 392: (500000, 2), 196: (1000000, 3), 98: (2000000, 4), 40: (4900000, 5), 20: (9800000, 6), 10: (19600000, 7)}
PROD = {0x01: ['XX'], 0x09: ['XX', 'YY'], 0x0F: ['XX', 'XY_real', 'XY_imag', 'YY'], 0x10: ['I'], 0xF0: ['I', 'Q', 'U', 'V'], 0x90: ['I', 'V']}


def size_of(fmt, r):
    if r['kind'] == 'junk':
        return r['n']
    return {'drx': lambda: 4128, 'drx8': lambda: 8224, 'tbx': lambda: 28 + r['nchan']*r['nstand']*2, 'cor': lambda: 32 + 32*r['nchan'],
            'drspec': lambda: 76 + 8*len(PROD[r['format']])*r['lfft'], 'vdif': lambda: 8*r['words']}[fmt]()


def encode(fmt, r):
    """The bytes of one record (concrete values)."""
    n = size_of(fmt, r)
    if r['kind'] == 'junk':
        return bytes(1 + (k % 7) for k in range(n))
    if fmt in ('drx', 'drx8'):
        h = SYNC + struct.pack('>IIHHQII', r['drx_id'] << 24 | 1, 0, r['decimation'], 0, r.get('timetag', 0), 0, 0)
    elif fmt == 'tbx':
        h = SYNC + struct.pack('>IIIHHQ', r['frame_id'] << 24 | r['frame_count'], 0, r['first_chan'], r['nstand'], r['nchan'], 0)
    elif fmt == 'cor':
        h = SYNC + struct.pack('>IIHHQIHH', r['adp_id'] << 24, 0, r['first_chan'], 0, 0, 1, 1, 2)
    elif fmt == 'drspec':
        return bytes(drspec_header(r)) + bytes(n - 76)
    else:
        w0 = r['sec']
        w1 = r['epoch'] << 24 | r['frame']
        w2 = 1 << 29 | r['words']
        w3 = (r['bits']-1) << 26 | r['thread'] << 16 | 5
        h = struct.pack('<8I', w0, w1, w2, w3, 0, 0, 0, 0)
    return h + bytes(n - len(h))


def drspec_header(r):
    """76-byte header laid out as reader_specs.drspec reads it"""
    h = bytearray(76)
    h[0:4] = bytes.fromhex('dec0dec0')
    struct.pack_into('<H', h, 14, r['decimation'])
    for k in range(4):
        struct.pack_into('<I', h, 24+4*k, 1)
    h[44] = r['beam']
    h[45] = r['format']
    h[46] = 2
    struct.pack_into('<I', h, 48, r['lfft'])
    struct.pack_into('<I', h, 52, r['nints'])
    h[72:76] = bytes.fromhex('0ced0ced')
    return h


class FH:
    """File handle of the symbolic run: records at known places."""

    def __init__(self, fmt, base, recs):
        self.fmt, self.base, self.recs = fmt, base, recs
        self.pos = base
        self.at = {}
        o = 0
        for r in recs:
            self.at[o] = r
            o += size_of(fmt, r)
        self.end = o

    def tell(self):
        return self.pos

    def seek(self, p, w=0):
        self.pos = p if w == 0 else (self.pos + p if w == 1 else self.base + self.end + p)
        return self.pos

    def close(self):
        pass


def stub(fmt, mod, ci8):
    """What the compiled reader does (properties R01-R06)."""
    import numpy as np

    def read(fh, frame, **kw):
        o = fh.pos - fh.base
        if ps.is_sym(o):
            o = ps.ENG.concretise(o.t)
        r = fh.at.get(o)
        if r is None or r['kind'] == 'junk':
            left = fh.end - o
            if fmt in ('drx', 'drx8'):
                if left < mod.FRAME_SIZE:
                    raise mod.gEOFError('end of file')
                fh.pos = fh.pos + mod.FRAME_SIZE
            elif left < 28:
                raise mod.gEOFError('end of file')
            raise mod.gSyncError('sync')
        fh.pos = fh.pos + size_of(fmt, r)
        h, p = frame.header, frame.payload
        if fmt in ('drx', 'drx8'):
            h.drx_id, h.decimation, h.time_offset = r['drx_id'], r['decimation'], 0
            p._data = np.zeros(4096, dtype=np.complex64)
        elif fmt == 'tbx':
            for k in ('frame_id', 'frame_count', 'first_chan', 'nchan', 'nstand'):
                setattr(h, k, r[k])
            p._data = np.zeros((r['nchan'], r['nstand'], 2), dtype=np.complex64)
        elif fmt == 'cor':
            h.adp_id, h.first_chan, h.gain = r['adp_id'], r['first_chan'], 0
            p.stand0, p.stand1 = 1, 2
            p._data = np.zeros((r['nchan'], 2, 2), dtype=np.complex64)
        elif fmt == 'drspec':
            for k in ('beam', 'format', 'decimation', 'nints'):
                setattr(h, k, r[k])
            for t in (0, 1):
                for n in PROD[r['format']]:
                    setattr(p, f"{n}{t}", np.zeros(r['lfft'], dtype=np.float32))
        else:
            h.seconds_from_epoch, h.frame_in_second, h.thread_id = r['sec'], r['frame'], r['thread']
            h.ref_epoch, h.frame_length, h.bits_per_sample, h.nchan, h.is_complex = r['epoch'], r['words'], r['bits'], 1, 0
            p._data = np.zeros((8*r['words']-32)*8//r['bits'], dtype=np.float32)
        if ci8:
            p._data = np.zeros(p._data.shape[:-1] + (2*p._data.shape[-1],), dtype=np.int8)
        return frame
    return read


def opened(env, fmt, recs, start=True):
    import importlib
    if env.sym:
        m = pyrun.imp(f"lsl.reader.{fmt}")
        base = env.int('base', 0, 10**6) if start else 0
        for n in list(vars(m)):
            if n.startswith('read_') and n.startswith(f"read_{fmt}") and (n == f"read_{fmt}" or n[len(f"read_{fmt}"):] in ('_ci8', '_i8')):
                m.__dict__[n] = stub(fmt, m, n.endswith('ci8'))
        return m, FH(fmt, base, recs), base
    m = importlib.import_module(f"lsl.reader.{fmt}")
    base = env.int('base', 0, 10**6) if start else 0
    f = tempfile.TemporaryFile()
    f.write(bytes(base))
    for r in recs:
        f.write(encode(fmt, r))
    f.seek(base)
    return m, f, base


def where(env, fh, base, what):
    env.eq(fh.tell(), base, f"{what} moved the file position")


def distinct(env, xs):
    out = []
    for x in xs:
        if not any(bool(x == y) for y in out):
            out.append(x)
    return out


def drx(env, fmt, k, what):
    """k IDs taking turns over 33 frames"""
    ids = [env.int(f"beam{j}", 1, 4) + 8*env.int(f"tune{j}", 1, 2) + 128*env.int(f"pol{j}", 0, 1) + (64 if fmt == 'drx8' else 0) for j in range(k)]
    d = env.choice('decimation', [10, 784]) if what == 'rate' else 10
    recs = [dict(kind='frame', drx_id=ids[j % k] if j < 32 else 1, decimation=d) for j in range(33)]
    m, fh, base = opened(env, fmt, recs)
    if what == 'rate':
        env.eq(m.get_sample_rate(fh), RATES[d][0], 'get_sample_rate()')
        where(env, fh, base, 'get_sample_rate()')
        env.eq(m.get_sample_rate(fh, filter_code=True), RATES[d][1], 'get_sample_rate(filter_code=True)')
        where(env, fh, base, 'get_sample_rate()')
        return
    if what == 'beams':
        n = m.get_beam_count(fh)
        env.eq(n, len(distinct(env, [i % 8 for i in ids])), 'get_beam_count()')
        where(env, fh, base, 'get_beam_count()')
        return
    per = m.get_frames_per_obs(fh)
    where(env, fh, base, 'get_frames_per_obs()')
    u = distinct(env, ids)
    env.check(len(per) == 4, 'get_frames_per_obs() is not a 4-tuple')
    for b in range(1, 5):
        env.eq(per[b-1], sum(1 for i in u if bool(i % 8 == b)), f"frames per observation of beam {b}")


def errors(env, fmt, name):
    """sync errors and end of file: the right error, and where"""
    good = {'drx': dict(kind='frame', drx_id=9, decimation=10), 'drx8': dict(kind='frame', drx_id=73, decimation=10),
            'tbx': dict(kind='frame', frame_id=8, frame_count=1, first_chan=7, nchan=16, nstand=256), 'cor': dict(kind='frame', adp_id=2, first_chan=7, nchan=192),
            'drspec': dict(kind='frame', beam=1, format=9, decimation=10, nints=3, lfft=16)}[fmt]
    recs = [dict(kind='junk', n=9000), good]
    m, fh, base = opened(env, fmt, recs)
    f = getattr(m, name)
    try:
        f(fh)
        env.fail('junk is read as a frame')
    except m.SyncError as e:
        env.eq(e.location, base, 'location of a sync error is not where the frame starts')
    except m.EOFError:
        env.fail('junk is reported as end of file')
    # at the end of the file
    fh.seek(base + 9000)
    f(fh)
    env.eq(fh.tell(), base + 9000 + size_of(fmt, good), 'position after a frame')
    env.check(env.raises(m.EOFError, f, fh) is not None, 'no end-of-file error at the end of the file')
    # helpers keep the place when they fail
    if fmt in ('drx', 'drx8', 'drspec'):
        for n in ('get_sample_rate',) + (('get_beam_count', 'get_frames_per_obs') if fmt != 'drspec' else
                                         ('get_data_products', 'is_linear', 'is_stokes', 'get_frame_size', 'get_ffts_per_integration', 'get_transform_size', 'get_integration_time')):
            fh.seek(base)
            env.check(env.raises(m.SyncError, getattr(m, n), fh) is not None, f"{n}() on junk")
            where(env, fh, base, f"{n}() that fails")


def tbx(env, k, what, other):
    ch = [env.int(f"chan{j}", 0, 4095) for j in range(k)]
    fc = [env.int(f"count{j}", 0, 2**24-1) for j in range(k)]
    n = 16
    recs = []
    for j in range(k):
        if other == j:
            recs.append(dict(kind='frame', frame_id=1, frame_count=env.int('countx', 0, 2**24-1), first_chan=env.int('chanx', 0, 4095), nchan=n, nstand=256))
        recs.append(dict(kind='frame', frame_id=8, frame_count=fc[j], first_chan=ch[j], nchan=n, nstand=256))
    m, fh, base = opened(env, 'tbx', recs, start=(what != 'first'))
    u = distinct(env, ch)
    if what == 'per':
        env.eq(m.get_frames_per_obs(fh), len(u), 'get_frames_per_obs()')
        where(env, fh, base, 'get_frames_per_obs()')
        env.eq(m.get_channel_count(fh), len(u)*n, 'get_channel_count()')
        where(env, fh, base, 'get_channel_count()')
    elif what == 'first':
        c = m.get_first_frame_count(fh)
        where(env, fh, base, 'get_first_frame_count()')
        # every channel seen for the first time: at the last new channel
        last = max(j for j in range(k) if not any(bool(ch[j] == ch[i]) for i in range(j)))
        want = fc[0]
        for j in range(1, last+1):
            want = fc[j] if fc[j] < want else want
        env.eq(c, want, 'get_first_frame_count()')
    else:
        lo = u[0]
        for x in u:
            lo = x if x < lo else lo
        env.eq(m.get_first_channel(fh), lo, 'get_first_channel()')
        where(env, fh, base, 'get_first_channel()')
        a = m.get_first_channel(fh, all_frames=True)
        env.check(len(a) == len(u), 'get_first_channel(all_frames=True)')
        for i in range(len(a)-1):
            env.check(a[i] < a[i+1], 'first channels are not sorted')
        for x in a:
            env.check(any(bool(x == y) for y in u), 'first channel that is not there')
        f = m.get_first_channel(fh, frequency=True)
        w = lo*Fr(196000000, 8192)
        env.check(env.land(f - w <= 16, f - w >= -16) if env.sym else abs(Fr(float(f)) - w) <= 16, 'get_first_channel(frequency=True)')


def framesize(env, fmt, junk, par):
    recs = ([dict(kind='junk', n=junk)] if junk else [])
    g = {'tbx': dict(kind='frame', frame_id=8, frame_count=1, first_chan=7, nchan=par, nstand=64), 'cor': dict(kind='frame', adp_id=2, first_chan=7, nchan=par),
         'drspec': dict(kind='frame', beam=1, format=9, decimation=10, nints=3, lfft=par),
         'vdif': dict(kind='frame', sec=1, epoch=40, frame=0, words=par, bits=8, thread=0)}[fmt]
    recs += [g]*24
    m, fh, base = opened(env, fmt, recs)
    env.eq(m.get_frame_size(fh), size_of(fmt, g), 'get_frame_size()')
    where(env, fh, base, 'get_frame_size()')


def cor(env, k, what):
    ch = [env.int(f"chan{j}", 0, 4095) for j in range(k)]
    recs = [dict(kind='frame', adp_id=2, first_chan=x, nchan=192) for x in ch]
    m, fh, base = opened(env, 'cor', recs)
    u = distinct(env, ch)
    if what == 'count':
        env.eq(m.get_channel_count(fh), 192*len(u), 'get_channel_count()')
        where(env, fh, base, 'get_channel_count()')
        env.eq(m.get_frames_per_obs(fh), len(u)*32896, 'get_frames_per_obs()')
        where(env, fh, base, 'get_frames_per_obs()')
        env.eq(m.get_baseline_count(fh), 32896, 'get_baseline_count()')
        return
    lo = u[0]
    for x in u:
        lo = x if x < lo else lo
    env.eq(m.get_first_channel(fh), lo, 'get_first_channel()')
    where(env, fh, base, 'get_first_channel()')
    a = m.get_first_channel(fh, all_frames=True)
    env.check(len(a) == len(u), 'get_first_channel(all_frames=True)')
    for i in range(len(a)-1):
        env.check(a[i] < a[i+1], 'first channels are not sorted')


def drspec(env, fmt, lfft):
    d = env.choice('decimation', [10, 40, 784])
    n = env.int('nints', 1, 2**20)
    r = dict(kind='frame', beam=env.int('beam', 1, 4), format=fmt, decimation=d, nints=n, lfft=lfft)
    m, fh, base = opened(env, 'drspec', [r, r])
    env.check(list(m.get_data_products(fh)) == PROD[fmt], 'get_data_products()')
    env.eq(bool(m.is_linear(fh)), fmt < 16, 'is_linear()')
    env.eq(bool(m.is_stokes(fh)), fmt >= 16, 'is_stokes()')
    env.eq(m.get_sample_rate(fh), RATES[d][0], 'get_sample_rate()')
    env.eq(m.get_sample_rate(fh, filter_code=True), RATES[d][1], 'get_sample_rate(filter_code=True)')
    env.eq(m.get_frame_size(fh), size_of('drspec', r), 'get_frame_size()')
    env.eq(m.get_ffts_per_integration(fh), n, 'get_ffts_per_integration()')
    env.eq(m.get_transform_size(fh), lfft, 'get_transform_size()')
    t = m.get_integration_time(fh)
    w = n*Fr(lfft, RATES[d][0])
    env.check(env.land(t - w <= 1e-6, t - w >= -1e-6) if env.sym else abs(Fr(t) - w) <= 1e-6, 'get_integration_time()')
    where(env, fh, base, 'a helper')


def vdif(env, fps, nthread, first, words, bits):
    """a file that starts with frame `first` of a second"""
    s0 = env.int('second', 0, 2**30-3)
    ths = [env.int('thread0', 0, 1023)]
    if nthread > 1:
        ths.append((ths[0] + env.int('apart', 1, 1023)) % 1024)
    recs = []
    for j in range(first, first + 2*fps + 1):
        for t in ths:
            recs.append(dict(kind='frame', sec=s0 + j//fps, epoch=40, frame=j % fps, words=words, bits=bits, thread=t))
    m, fh, base = opened(env, 'vdif', recs)
    env.eq(m.get_frame_size(fh), 8*words, 'get_frame_size()')
    where(env, fh, base, 'get_frame_size()')
    env.eq(m.get_thread_count(fh), nthread, 'get_thread_count()')
    where(env, fh, base, 'get_thread_count()')
    env.eq(m.get_frames_per_second(fh), fps, 'get_frames_per_second()')
    where(env, fh, base, 'get_frames_per_second()')
    env.eq(m.get_sample_rate(fh), fps*(8*words-32)*8//bits, 'get_sample_rate()')
    where(env, fh, base, 'get_sample_rate()')


H = {'drx': drx, 'errors': errors, 'tbx': tbx, 'framesize': framesize, 'cor': cor, 'drspec': drspec, 'vdif': vdif}


def body(c):
    undo = []
    for n in ('lsl.reader.base', 'lsl.common.ndp') + tuple(f"lsl.reader.{x}" for x in ('utils', 'drx', 'drx8', 'drspec', 'tbx', 'cor', 'vdif')):
        undo += ps.patch(pyrun.imp(n))
    S = os.path.abspath(__file__)
    T = common.thorough()
    from engine import realtree
    jobs = []

    def go(label, func, **params):
        jobs.append(lambda c: pyrun.explore(c, label, func, S, params, exts=EXTS, max_paths=20000, decisions=2000, concretise=64))
    for f in ('drx', 'drx8'):
        go(f"drx | {f} rate", drx, fmt=f, k=1, what='rate')
        for k in (1, 2, 3, 4) if T else (1, 2, 3):
            go(f"drx | {f} beams {k}", drx, fmt=f, k=k, what='beams')
        for k in (1, 2, 3) if T else (1, 2):
            go(f"drx | {f} per {k}", drx, fmt=f, k=k, what='per')
    for f in ('drx', 'drx8', 'tbx'):
        go(f"errors | {f} ci8", errors, fmt=f, name='read_frame_ci8')
    for f in ('drx', 'drx8', 'tbx', 'cor', 'drspec'):
        go(f"errors | {f}", errors, fmt=f, name='read_frame')
    for w in ('per', 'first', 'chan'):
        for k in (1, 2, 3):
            for o in (None, 0, k-1) if k > 1 else (None, 0):
                go(f"tbx | {w} {k} {o}", tbx, k=k, what=w, other=o)
    for j in (0, 1, 5):
        go(f"framesize | tbx {j}", framesize, fmt='tbx', junk=j, par=(4, 8, 12)[j % 3])
        go(f"framesize | cor {j}", framesize, fmt='cor', junk=j, par=(33, 72, 112)[j % 3])
    go('framesize | drspec', framesize, fmt='drspec', junk=0, par=64)
    go('framesize | vdif', framesize, fmt='vdif', junk=0, par=129)
    for k in (1, 2, 3):
        go(f"cor | count {k}", cor, k=k, what='count')
        go(f"cor | chan {k}", cor, k=k, what='chan')
    for f in PROD:
        go(f"drspec | {f}", drspec, fmt=f, lfft=32)
    for fps in (1, 2, 3, 4):
        for nt in (1, 2):
            for first in range(fps):
                go(f"vdif | {fps} {nt} {first}", vdif, fps=fps, nthread=nt, first=first, words=12, bits=(8, 2, 4, 1)[fps-1])
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds += ['DRX/DRX8: up to 3 (thorough: 4) different IDs in the 32 frames looked at, every beam 1-4, tuning and polarization, any starting position',
                 'TBX and COR: up to 3 frames of every start channel and frame count, with a non-TBX frame in between',
                 'VDIF: 1 to 4 frames per second, 1 or 2 threads of any ID, files that start at every frame of a second']
    c.stubs.append('the compiled readers by what R01-R06 establish about them; counterexamples run on the compiled code')


pyrun.EXTS['F04'] = EXTS
if __name__ == "__main__":
    pyrun.main('F04', 'symbolic execution of the file-level functions of lsl/reader over files of symbolic frames', body, H, __file__)
