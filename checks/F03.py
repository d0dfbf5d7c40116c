import os
import sys
from datetime import datetime, timezone
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps, symdt

FS = 196000000
TMIN, TMAX = 63072000, 4102444800
RATES = {784: (250000, 1), 392: (500000, 2), 196: (1000000, 3), 98: (2000000, 4), 40: (4900000, 5), 20: (9800000, 6), 10: (19600000, 7)}


def mod(env, n):
    import importlib
    return pyrun.imp(n) if env.sym else importlib.import_module(n)


def near(env, x, want, tol, what):
    if env.sym:
        d = x - want
        env.check(env.land(d <= tol, d >= -tol), what)
    else:
        env.check(abs(Fr(float(x)) - Fr(want)) <= tol, f"{what}: {float(x)!r} instead of {float(want)!r}")


def q(env, a, b):
    """a/b exactly"""
    if env.sym and ps.is_sym(a):
        return ps.SReal(ps._real(ps._num(a)[1])*ps._frac(Fr(1)/Fr(b)))
    return Fr(a)/Fr(b)


def over(env, a, d):
    """a/d exactly, d symbolic"""
    if env.sym:
        return ps.SReal(ps._frac(Fr(a))/ps._real(ps._num(d)[1]))
    return Fr(a)/Fr(d)


def drx(env, fmt):
    m = mod(env, f"lsl.reader.{fmt}")
    f = m.Frame()
    i = env.int('drx_id', 0, 255)
    f.header.drx_id = i
    beam, tune, pol = f.id
    env.eq(beam, i % 8, 'beam is not bits 0-2 of the ID')
    env.eq(tune, (i // 8) % 8, 'tuning is not bits 3-5 of the ID')
    env.eq(pol, (i // 128) % 2, 'polarization is not bit 7 of the ID')
    env.eq(f.header.id[0], beam, 'ID of the header')
    wide = (i // 64) % 2
    is8 = f.is_drx if fmt == 'drx' else f.is_drx8
    env.eq(env.ite(is8, 1, 0), 1 - wide if fmt == 'drx' else wide, 'format flag is not bit 6 of the ID')
    d = env.int('decimation', 1, 65535)
    f.header.decimation = d
    near(env, f.sample_rate, over(env, FS, d), 1e-6, 'sample rate')
    w = env.int('tuning_word', 0, 2**32-1)
    f.payload.tuning_word = w
    near(env, f.central_freq, q(env, w, Fr(2**32, FS)), 1e-6, 'central frequency')


def codes(env, fmt):
    m = mod(env, f"lsl.reader.{fmt}")
    f = m.Frame()
    d = env.choice('decimation', sorted(RATES))
    f.header.decimation = d
    env.eq(f.sample_rate, RATES[d][0], 'sample rate of a filter code')
    env.eq(f.filter_code, RATES[d][1], 'filter code of a decimation')
    env.eq(m.FILTER_CODES[RATES[d][1]], RATES[d][0], 'table of filter codes')


def when(env, fmt):
    """time of a frame: its time tag less its time offset"""
    m = mod(env, f"lsl.reader.{fmt}")
    f = m.Frame()
    tt = env.int('timetag', TMIN*FS, TMAX*FS)
    f.payload.timetag = tt
    off = 0
    if fmt in ('drx', 'drx8', 'drspec'):
        off = env.int('time_offset', 0, 65535)
        f.header.time_offset = off
    t = f.time
    env.eq(t.dp_timetag, tt - off, 'time of the frame is not its time tag less its time offset')


def drspec(env):
    m = mod(env, 'lsl.reader.drspec')
    f = m.Frame()
    fmt = env.int('format', 0, 255)
    f.header.format = fmt
    names = ['XX', 'XY_real', 'XY_imag', 'YY', 'I', 'Q', 'U', 'V']
    got = f.data_products
    k = 0
    for b, n in enumerate(names):
        on = (fmt // 2**b) % 2 == 1
        if on:
            env.check(k < len(got) and got[k] == n, f"product {n} (bit {b}) missing or out of order")
            k += 1
    env.check(k == len(got), 'products the frame does not have')
    if fmt > 0 and ((fmt % 16 == 0) or fmt < 16):
        env.check(bool(f.is_linear) == bool(fmt < 16), 'is_linear')
        env.check(bool(f.is_stokes) == bool(fmt >= 16), 'is_stokes')
    d = env.int('decimation', 1, 65535)
    f.header.decimation = d
    near(env, f.sample_rate, over(env, FS, d), 1e-6, 'sample rate')
    b = env.int('beam', 0, 255)
    f.header.beam = b
    env.eq(f.id, b, 'beam')
    w = [env.int(f"word{j}", 0, 2**32-1) for j in (0, 1)]
    f.payload.tuning_words = list(w)
    c = f.central_freq
    for j in (0, 1):
        near(env, c[j], q(env, w[j], Fr(2**32, FS)), 1e-6, f"central frequency of tuning {j+1}")


def drspecint(env, prod, nchan):
    import numpy as np
    m = mod(env, 'lsl.reader.drspec')
    f = m.Frame()
    fmt = {'XX': 1, 'YY': 8, 'I': 16, 'V': 128}[prod]
    f.header.format = fmt
    f.header.decimation = env.choice('decimation', sorted(RATES))
    n = env.int('nints', 0, 2**31)
    f.header.nints = n
    for j in (0, 1):
        setattr(f.payload, f"{prod}{j}", np.zeros(nchan, dtype=np.float32))
    env.eq(f.transform_size, nchan, 'transform length')
    env.eq(f.ffts_per_integration, n, 'FFT windows per integration')
    near(env, f.integration_time, q(env, n*nchan, RATES[f.header.decimation][0]), 1e-3, 'integration time')


def tbx(env, nchan):
    m = mod(env, 'lsl.reader.tbx')
    f = m.Frame()
    i = env.int('frame_id', 0, 255)
    f.header.frame_id = i
    env.check(bool(f.is_tbx) == bool(i == 8), 'is_tbx')
    c = env.int('first_chan', 0, 4095)
    f.header.first_chan = c
    f.header.nchan = nchan
    f.header.nstand = 64
    fr = f.channel_freqs
    env.check(len(fr) == nchan, 'number of channel frequencies')
    for k in range(nchan):
        near(env, fr[k], q(env, c + k, Fr(8192, FS)) if ps.is_sym(c) else Fr(c+k)*FS/8192, 16, f"frequency of channel {k}")
    env.check(f.nchan == nchan and f.nstand == 64, 'channel and stand counts')


def cor(env, nchan):
    import numpy as np
    m = mod(env, 'lsl.reader.cor')
    f = m.Frame()
    i = env.int('adp_id', 0, 255)
    f.header.adp_id = i
    env.check(bool(f.is_cor) == (bool(i == 2) or bool(i == 6)), 'is_cor')
    a, b = env.int('stand0', 1, 256), env.int('stand1', 1, 256)
    f.payload.stand0, f.payload.stand1 = a, b
    env.eq(f.id[0], a, 'first stand')
    env.eq(f.id[1], b, 'second stand')
    c = env.int('first_chan', 0, 4095)
    f.header.first_chan = c
    f.payload._data = np.zeros((nchan, 2, 2), dtype=np.complex64)
    n = env.int('navg', 0, 2**31-1)
    f.payload.navg = n
    near(env, f.integration_time, q(env, n, 1/T2), 1e-3, 'integration time')
    fr = f.channel_freqs
    env.check(len(fr) == nchan, 'number of channel frequencies')
    for k in range(nchan):
        near(env, fr[k], q(env, c + k, Fr(8192, FS)), 16, f"frequency of channel {k}")
    g = env.int('gain', 0, 65535)
    f.header.gain = g
    env.eq(f.gain, g, 'gain')


T2 = Fr(1, 100)
MON = {0: 1, 1: 7}


def vdif(env, epoch, nbits, cplx, nchan, legacy, words, rate, how):
    """time of a VDIF frame"""
    m = mod(env, 'lsl.reader.vdif')
    if how == 'told':
        h = m.FrameHeader(sample_rate=float(rate))
    else:
        h = m.FrameHeader()
        unit = 1 if how == 'MHz' else 0
        h.extended_data_1 = 1 << 24 | unit << 23 | (rate // 10**6 if unit else rate // 1000)
        h.extended_data_2 = h.extended_data_3 = h.extended_data_4 = 0
    h.ref_epoch = epoch
    h.is_legacy = int(legacy)
    h.bits_per_sample, h.is_complex, h.nchan = nbits, int(cplx), nchan
    data = 8*words - (16 if legacy else 32)
    h.frame_length = words
    nsamp = data*8 // nbits // nchan // (2 if cplx else 1)
    assert rate % nsamp == 0, (rate, nsamp)
    fps = rate // nsamp
    s = env.int('seconds', 0, 2**30-1)
    k = env.int('frame', 0, fps-1)
    h.seconds_from_epoch, h.frame_in_second = s, k
    symdt.Contract.leaps = True
    try:
        t = m.Frame(header=h).time
    finally:
        symdt.Contract.leaps = False
    e0 = int(datetime(2000 + epoch//2, MON[epoch % 2], 1, tzinfo=timezone.utc).timestamp())
    want = s + e0 + q(env, k, fps)
    near(env, t.unix, want, 1e-6, 'time of a VDIF frame')


def eud(env, edv):
    """extended user data"""
    m = mod(env, 'lsl.reader.vdif')
    h = m.FrameHeader()
    lo = env.int('w1', 0, 2**24-1)
    h.extended_data_1 = lo + (edv << 24)
    w2, w3, w4 = (env.int(f"w{k}", 0, 2**32-1) for k in (2, 3, 4))
    h.extended_data_2, h.extended_data_3, h.extended_data_4 = w2, w3, w4
    d = m.Frame(header=h).extended_user_data
    if edv in (1, 3):
        env.eq(d['sample_rate'], lo % 2**23, 'sample rate of the extended user data')
        env.check(d['sample_rate_units'] == ('MHz' if lo >= 2**23 else 'kHz'), 'sample rate unit')
        env.eq(d['sync_pattern'], w2, 'sync pattern')
    if edv == 1:
        env.eq(d['station_name'], w4*2**32 + w3, 'station name')
    if edv == 2:
        env.eq(d['sync_word'], lo % 65536, 'sync word')
        env.eq(d['pic_status_word'], w2, 'PIC status word')
        env.eq(d['packet_serial_number'], w4*2**32 + w3, 'packet serial number')
    if edv == 3:
        env.eq(d['tuning_word'], w3, 'tuning word')
        env.eq(d['dbe_unit'], (w4 // 2**24) % 16, 'DBE unit')
        env.eq(d['if_input_number'], (w4 // 2**20) % 16, 'IF input number')
        env.eq(d['subband'], (w4 // 2**17) % 8, 'subband')
        env.check(d['electronic_sideband'] == ('USB' if (w4 // 2**16) % 2 == 1 else 'LSB'), 'sideband')
    if edv == 0:
        env.check(d == {}, 'empty extended user data')


def vdifid(env):
    m = mod(env, 'lsl.reader.vdif')
    h = m.FrameHeader(station_id=env.int('station', 0, 65535), thread_id=env.int('thread', 0, 1023))
    f = m.Frame(header=h)
    env.eq(f.id[0], h.station_id, 'station ID')
    env.eq(f.id[1], h.thread_id, 'thread ID')


def arith(env, op, fmt):
    """Arithmetic of frames acts on the samples and leaves the operands alone"""
    import numpy as np
    m = mod(env, f"lsl.reader.{fmt}")
    L = 2
    def frame(n):
        f = m.Frame()
        v = [env.real(f"{n}{k}", -100, 100) for k in range(L)]
        if fmt == 'drspec':
            f.header.format = 9
            for j, p in enumerate(('XX0', 'XX1', 'YY0', 'YY1')):
                x = np.empty(L, dtype=object if env.sym else np.float64)
                x[:] = v
                setattr(f.payload, p, x + j)
        else:
            x = np.empty(L, dtype=object if env.sym else np.float64)
            x[:] = v
            f.payload._data = x
        return f, v
    def parts(f):
        if fmt == 'drspec':
            return [getattr(f.payload, p) for p in ('XX0', 'XX1', 'YY0', 'YY1')]
        return [f.payload._data]
    a, va = frame('a')
    b, vb = frame('b')
    if op in ('truediv', 'itruediv'):
        for p in parts(b):
            for x in p:
                env.assume(env.lor(x >= 1, x <= -1))
    import operator
    fn = getattr(operator, op)
    r = fn(a, b)
    base = op.lstrip('i') if op != 'itruediv' else 'truediv'
    pr = parts(r)
    for j in range(len(pr)):
        for k in range(L):
            want = getattr(operator, base)(va[k]+j if j else va[k], vb[k]+j if j else vb[k])
            near(env, pr[j][k], want if env.sym else Fr(want), 1e-3, f"{op} of frames")
    if not op.startswith('i'):
        env.check(r is not a and r is not b, f"{op} gives an operand back")
        for j, p in enumerate(parts(a)):
            for k in range(L):
                near(env, p[k], va[k]+j, 1e-6, f"{op} changed its operand")
    else:
        env.check(r is a, f"{op} is not in place")
    for j, p in enumerate(parts(b)):
        for k in range(L):
            near(env, p[k], vb[k]+j, 1e-6, f"{op} changed its operand")


H = {'drx': drx, 'codes': codes, 'when': when, 'drspec': drspec, 'drspecint': drspecint, 'tbx': tbx, 'cor': cor, 'vdif': vdif, 'eud': eud,
     'vdifid': vdifid, 'arith': arith}


def body(c):
    base = pyrun.imp('lsl.reader.base')
    undo = ps.patch(base, AstroTime=symdt.TimeStub, AstroDelta=symdt.DeltaStub, datetime=symdt.Datetime, timedelta=symdt.Timedelta)
    for n in ('lsl.common.ndp', 'lsl.reader.drx', 'lsl.reader.drx8', 'lsl.reader.drspec', 'lsl.reader.tbx', 'lsl.reader.cor'):
        undo += ps.patch(pyrun.imp(n))
    undo += ps.patch(pyrun.imp('lsl.reader.vdif'), AstroTime=symdt.TimeStub, AstroDelta=symdt.DeltaStub)
    S = os.path.abspath(__file__)
    jobs = []

    def go(label, func, **params):
        jobs.append(lambda c: pyrun.explore(c, label, func, S, params, float_err=True))
    for f in ('drx', 'drx8'):
        go(f"drx | {f}", drx, fmt=f)
    for f in ('drx', 'drx8', 'drspec'):
        go(f"codes | {f}", codes, fmt=f)
    for f in ('drx', 'drx8', 'drspec', 'tbx', 'cor'):
        go(f"when | {f}", when, fmt=f)
    go('drspec', drspec)
    for p, n in (('XX', 1024), ('YY', 512), ('I', 64), ('V', 4096)):
        go(f"drspecint | {p} {n}", drspecint, prod=p, nchan=n)
    for n in (4, 8, 12, 16):
        go(f"tbx | {n}", tbx, nchan=n)
    for n in (33, 72):
        go(f"cor | {n}", cor, nchan=n)
    lay = [(8, False, 1, False, 629, 19200000), (8, True, 1, False, 254, 16000000), (4, False, 2, True, 1002, 16000000),
           (2, False, 1, False, 629, 32000000), (1, True, 4, False, 254, 16000000)]
    for e in ((0, 12, 13, 20, 33, 34, 37, 46, 51, 63) if not common.thorough() else range(64)):
        for k, (nb, cx, nc, lg, w, r) in enumerate(lay):
            if common.thorough() or (k + e) % 3 == 0:
                data = 8*w - (16 if lg else 32)
                ns = data*8//nb//nc//(2 if cx else 1)
                r = r - r % ns if r % ns else r
                for how in ('told', 'kHz', 'MHz'):
                    if how == 'kHz' and (r % 1000 or lg or r // 1000 >= 2**23):
                        continue
                    if how == 'MHz' and (r % 10**6 or lg):
                        continue
                    go(f"vdif | {e} {nb} {cx} {nc} {how}", vdif, epoch=e, nbits=nb, cplx=cx, nchan=nc, legacy=lg, words=w, rate=r, how=how)
    for e in (0, 1, 2, 3):
        go(f"eud | {e}", eud, edv=e)
    go('vdifid', vdifid)
    for op in ('add', 'sub', 'mul', 'truediv', 'iadd', 'isub', 'imul', 'itruediv'):
        for f in ('drx', 'drspec'):
            go(f"arith | {op} {f}", arith, op=op, fmt=f)
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds += ['every ID byte, decimation, tuning word, format byte, time tag from 1972 to 2100, time offset, first channel, integration count',
                 f"VDIF: reference epochs {'0 to 63' if common.thorough() else '0, 12, 13, 20, 33, 34, 37, 46, 51, 63'}, every second and frame number, five sample layouts",
                 'frame arithmetic: two samples per product, every value']
    c.stubs += ['astropy Time/TimeDelta as exact UTC instants (days of 86400 s) with errors up to 3e-11 s per operation',
                'IEEE double operations as real operations with relative error up to 2^-53; float32 channel frequencies to 16 Hz']
    c.outside += ['VDIF times on the days that end with a leap second (astropy stretches those by 1/86400)', 'VDIF extended user data version 0xAB', 'frame arithmetic rounding']


if __name__ == "__main__":
    pyrun.main('F03', 'symbolic execution of the frame classes of lsl/reader (header and payload attributes) over every header value', body, H, __file__)
