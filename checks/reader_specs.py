"""Specifications of the frame formats, as functions of the file bytes.  They
work on symbolic bytes (the proof) and on concrete ones (the replay)."""

import numpy as np

from engine import bv, pyapi
from engine.bv import E
from engine.readerlib import be, le, bits, conj, IW

SYNC5C = bytes.fromhex('dec0de5c')


def byte_eq(v, k):
    return bv.icmp('eq', 8, v, k)


def bytes_eq(content, off, bs):
    return conj([byte_eq(content(off+i), b) for i, b in enumerate(bs)])


def sync5c(content, off=0):
    return bytes_eq(content, off, SYNC5C)


def nib(v, hi):
    """Signed 4-bit field of a byte, as an 8-bit value."""
    n = bv.extract(v, 7, 4) if hi else bv.extract(v, 3, 0)
    return bv.sext(n, 4, 8)


def comp(v, kind):
    return bv.sitofp(v, 8, 'f32') if kind == 'cf32' else v


def lut(index, w, values, vw):
    """values[index] for a w-bit index (constants of vw bits)."""
    if not isinstance(index, E):
        return values[index]
    def go(base, b):
        if b < 0:
            return values[base]
        return bv.ite(bv.extract(index, b, b), go(base | (1 << b), b-1), go(base, b-1), vw)
    return go(0, w-1)


def cplx(shape, pairs, kind):
    """(dims, type, components per element) for complex samples."""
    if kind == 'cf32':
        return (tuple(shape), pyapi.COMPLEX64, pairs)
    s = list(shape)
    s[-1] *= 2
    return (tuple(s), pyapi.INT8, [[c] for p in pairs for c in p])


def drx(content, kind, wide):
    size = 32 + 4096*(2 if wide else 1)
    word = be(content, 4, 4)
    hdr = {'frame_count': bits(word, 0, 24), 'drx_id': bits(word, 24, 8), 'second_count': be(content, 8, 4),
           'decimation': be(content, 12, 2), 'time_offset': be(content, 14, 2)}
    pay = {'timetag': be(content, 16, 8), 'tuning_word': be(content, 24, 4), 'flags': be(content, 28, 4)}

    def sample(i):
        if wide:
            return [comp(content(32+2*i), kind), comp(content(32+2*i+1), kind)]
        b = content(32+i)
        return [comp(nib(b, True), kind), comp(nib(b, False), kind)]
    return {'size': size, 'valid': sync5c(content), 'header': hdr, 'payload': pay,
            'data': {'_data': cplx((4096,), [sample(i) for i in range(4096)], kind)}}


def tbx(content, kind, nstand, nchan):
    size = 28 + nchan*nstand*2
    word = be(content, 4, 4)
    hdr = {'frame_count': bits(word, 0, 24), 'frame_id': bits(word, 24, 8), 'second_count': be(content, 8, 4),
           'first_chan': be(content, 12, 4), 'nstand': nstand, 'nchan': nchan}
    pay = {'timetag': be(content, 20, 8)}
    pairs = [[comp(nib(content(28+i), True), kind), comp(nib(content(28+i), False), kind)]
             for i in range(nchan*nstand*2)]
    return {'size': size, 'valid': sync5c(content), 'header': hdr, 'payload': pay,
            'assume': [bv.icmp('eq', 1, bv.extract(pay['timetag'], 63, 63), 0)],
            'data': {'_data': cplx((nchan, nstand, 2), pairs, kind)}}


def lef(content, off):
    """Native (little-endian) 32-bit word, as raw bits."""
    return bv.extract(le(content, off, 4), 31, 0)


def cor(content, nchan):
    size = 32 + 32*nchan
    word = be(content, 4, 4)
    s0, s1 = be(content, 28, 2), be(content, 30, 2)
    hdr = {'frame_count': bits(word, 0, 24), 'adp_id': bits(word, 24, 8), 'second_count': be(content, 8, 4),
           'first_chan': be(content, 12, 2), 'gain': be(content, 14, 2)}
    pay = {'timetag': be(content, 16, 8), 'navg': be(content, 24, 4), 'stand0': s0, 'stand1': s1}
    auto = bv.icmp('eq', IW, s0, s1)
    data = []
    for c in range(nchan):
        v = [[lef(content, 32+32*c+8*k), lef(content, 32+32*c+8*k+4)] for k in range(4)]
        conj_xy = [v[1][0], bv.binop('xor', 32, v[1][1], 0x80000000)]
        v[2] = [bv.ite(auto, conj_xy[0], v[2][0], 32), bv.ite(auto, conj_xy[1], v[2][1], 32)]
        data.extend(v)
    return {'size': size, 'valid': sync5c(content), 'header': hdr, 'payload': pay,
            'assume': [bv.icmp('eq', 1, bv.extract(pay['timetag'], 63, 63), 0),
                       bv.icmp('eq', 1, bv.extract(pay['navg'], 31, 31), 0),
                       bv.icmp('eq', 1, bv.extract(s0, 15, 15), 0), bv.icmp('eq', 1, bv.extract(s1, 15, 15), 0)],
            'data': {'_data': ((nchan, 2, 2), pyapi.COMPLEX64, data)}}


def f32bits(x):
    return int(np.float32(x).view(np.uint32))


VDIF_F = {1: [f32bits(v) for v in (-1, 1)],
          2: [f32bits(v) for v in (-3.3359, -1, 1, 3.3359)],
          4: [f32bits(np.float32(k-8)/np.float32(2.95)) for k in range(16)],
          8: [f32bits((2*k-255)/256.) for k in range(256)]}
VDIF_I = {1: [-1, 1], 2: [-3, -1, 1, 3], 4: list(range(-8, 8)), 8: list(range(-128, 128))}


def vdif(content, kind, nwords, legacy, nbits, complex_, log2_nchan):
    """nwords: frame length in 8-byte units."""
    w0, w1, w2, w3 = (le(content, 4*k, 4) for k in range(4))
    hs = 16 if legacy else 32
    hdr = {'seconds_from_epoch': bits(w0, 0, 30), 'is_legacy': int(legacy), 'is_invalid': bits(w0, 31, 1),
           'frame_in_second': bits(w1, 0, 24), 'ref_epoch': bits(w1, 24, 6),
           'frame_length': nwords, 'nchan': 1 << log2_nchan, 'version': bits(w2, 29, 3),
           'station_id': bits(w3, 0, 16), 'thread_id': bits(w3, 16, 10), 'bits_per_sample': nbits, 'is_complex': int(complex_)}
    for k in range(4):
        hdr[f"extended_data_{k+1}"] = 0 if legacy else le(content, 16+4*k, 4)
    ndata = 8*nwords - hs
    per = 8 // nbits
    nchan = 1 << log2_nchan

    def sample(i):
        b = content(hs + i//per)
        f = bv.extract(b, (i % per)*nbits + nbits-1, (i % per)*nbits)
        if kind == 'f32':
            return lut(f, nbits, VDIF_F[nbits], 32)
        if complex_:
            return lut(f, nbits, [f32bits(v) for v in VDIF_I[nbits]], 32)
        return lut(f, nbits, [v & 0xFF for v in VDIF_I[nbits]], 8)
    n = ndata*per
    if complex_:
        elems = [[sample(2*i), sample(2*i+1)] for i in range(n//2)]
        typ = pyapi.COMPLEX64
    else:
        elems = [[sample(i)] for i in range(n)]
        typ = pyapi.FLOAT32 if kind == 'f32' else pyapi.INT8
    if nchan > 1:
        nt = len(elems)//nchan
        # stored time-major, returned as (channel, time)
        elems = [elems[t*nchan+c] for c in range(nchan) for t in range(nt)]
        shape = (nchan, nt)
    else:
        shape = (len(elems),)
    return {'size': 8*nwords, 'valid': 1, 'header': hdr, 'payload': {}, 'data': {'_data': (shape, typ, elems)}}


def vdif_header(nwords, legacy, nbits, complex_, log2_nchan):
    """Constraints (byte, mask, value) fixing the layout fields of a header."""
    w = {}
    w[3] = (0x40, 0x40 if legacy else 0)
    for k in range(3):
        w[8+k] = (0xFF, (nwords >> (8*k)) & 0xFF)
    w[11] = (0x1F, log2_nchan)
    w[15] = (0xFC, ((nbits-1) << 2) | (0x80 if complex_ else 0))
    return w


MAGIC1 = bytes.fromhex('dec0dec0')
MAGIC2 = bytes.fromhex('0ced0ced')
DRSPEC_FORMATS = {0x01: ['XX'], 0x02: ['XY_real'], 0x04: ['XY_imag'], 0x08: ['YY'], 0x09: ['XX', 'YY'],
                  0x06: ['XY_real', 'XY_imag'], 0x0F: ['XX', 'XY_real', 'XY_imag', 'YY'],
                  0x10: ['I'], 0x20: ['Q'], 0x40: ['U'], 0x80: ['V'], 0x90: ['I', 'V'], 0xF0: ['I', 'Q', 'U', 'V']}


def drspec(content, fmt, nfreq):
    prods = DRSPEC_FORMATS[fmt]
    nset = 2*len(prods)
    size = 76 + 4*nset*nfreq
    fills = [le(content, 24+4*k, 4) for k in range(4)]
    hdr = {'beam': bv.zext(content(44), 8, IW), 'format': fmt, 'decimation': le(content, 14, 2),
           'time_offset': le(content, 12, 2), 'nints': le(content, 52, 4)}
    pay = {'timetag': le(content, 4, 8)}
    lists = {'tuning_words': [le(content, 16+4*k, 4) for k in range(2)], 'fills': fills,
             'errors': [bv.zext(content(40+k), 8, IW) for k in range(4)],
             'saturations': [le(content, 56+4*k, 4) for k in range(4)]}

    def fill(prod, tuning):
        x, y = (bv.extract(f, 31, 0) for f in fills[2*tuning:2*tuning+2])
        if prod == 'XX':
            return x
        if prod == 'YY':
            return y
        return bv.ite(bv.icmp('ult', 32, x, y), x, y, 32)
    data = {}
    for t in range(2):
        for j, p in enumerate(prods):
            n = bv.uitofp(bv.binop('mul', 32, fill(p, t), nfreq), 32, 'f32')
            elems = []
            for i in range(nfreq):
                if len(prods) == 1:
                    pos = t*nfreq + i
                else:
                    pos = t*nfreq*len(prods) + i*len(prods) + j
                v = bv.from_bits(lef(content, 76+4*pos), 'f32')
                elems.append([bv.fop('fdiv', 'f32', v, n)])
            data[f"{p}{t}"] = ((nfreq,), pyapi.FLOAT32, elems)
    # the number of samples averaged has to fit the 32-bit arithmetic
    lim = 0xFFFFFFFF//nfreq
    assume = [bv.icmp('ule', 32, bv.extract(f, 31, 0), lim) for f in fills]
    # values that make a difference visible when a case is replayed
    f32 = [bv.extract(f, 31, 0) for f in fills]
    order = []
    for perm in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1), (0, 2, 1, 3), (3, 1, 2, 0)):
        order.append([bv.icmp('ule', 32, 1, f32[perm[0]])] + [bv.icmp('ult', 32, f32[a], f32[b]) for a, b in zip(perm, perm[1:])] +
                     [bv.icmp('ult', 32, f32[perm[3]], 1000)])
    return {'show': order, 'size': size, 'valid': bv.band(bytes_eq(content, 0, MAGIC1), bytes_eq(content, 72, MAGIC2)), 'header': hdr,
            'payload': pay, 'lists': lists, 'data': data, 'real': True, 'assume': assume}
