import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps

FS = Fr(196000000)


def mods(env):
    if env.sym:
        ndp, mcs = pyrun.imp('lsl.common.ndp'), pyrun.imp('lsl.common.mcs')
    else:
        from lsl.common import ndp, mcs
    return ndp, mcs


def word(env):
    """tuning word -> frequency -> tuning word"""
    ndp, mcs = mods(env)
    w = env.int('word', 0, 2**32-1)
    f = ndp.word_to_freq(w)
    env.close(f, ps.to_float(w)*FS/2**32 if env.sym else w*196e6/2**32, 1e-6, 'frequency of a tuning word')
    env.eq(ndp.freq_to_word(f), w, 'tuning word lost in the round trip')


def freq(env):
    """frequency -> closest tuning word"""
    ndp, mcs = mods(env)
    f = env.real('freq', 0, 98e6)
    w = ndp.freq_to_word(f)
    env.check(env.land(w >= 0, w <= 2**32), 'tuning word out of range')
    d = (w*Fr(196000000, 2**32) - f) if env.sym else w*196e6/2**32 - f
    env.check(env.land(d <= Fr(196000000, 2**33) + Fr(1, 10**6), d >= -Fr(196000000, 2**33) - Fr(1, 10**6)),
              'tuning word is not the closest one')


def swap16(x):
    return (x % 256)*256 + (x // 256) % 256


def delay(env, kind):
    """delay in ns -> fixed point -> ns: at most one 1/16 sample lower"""
    ndp, mcs = mods(env)
    to, fro = (ndp.delay_to_ndpd, ndp.ndpd_to_delay) if kind == 'ndp' else (mcs.delay_to_mcsd, mcs.mcsd_to_delay)
    step = Fr(10**9)/FS/16
    d = env.real('delay', 0, float(step*65535))
    w = to(d)
    env.check(env.land(w >= 0, w <= 65535), 'delay word does not fit 16 bits')
    code = swap16(w) if kind == 'ndp' else w
    v = code*step if env.sym else float(code*step)
    env.check(env.land(v <= d + Fr(1, 10**6), v > d - step - Fr(1, 10**6)), 'delay word is not the delay truncated to 1/16 sample')
    env.close(fro(w), v, 1e-6, 'delay word decodes to another delay')


def delayword(env, kind):
    ndp, mcs = mods(env)
    fro = ndp.ndpd_to_delay if kind == 'ndp' else mcs.mcsd_to_delay
    w = env.int('word', 0, 65535)
    code = swap16(w) if kind == 'ndp' else w
    step = Fr(10**9)/FS/16
    env.close(fro(w), code*step if env.sym else float(code*step), 1e-6, 'delay word decodes to another delay')


def gain(env, kind):
    ndp, mcs = mods(env)
    to, fro = (ndp.gain_to_ndpg, ndp.ndpg_to_gain) if kind == 'ndp' else (mcs.gain_to_mcsg, mcs.mcsg_to_gain)
    g = env.real('gain', 0, 1)
    w = to(g)
    env.check(env.land(w >= 0, w <= 65535), 'gain word does not fit 16 bits')
    code = swap16(w) if kind == 'ndp' else w
    v = code*Fr(1, 32767)
    env.check(env.land(v <= g + Fr(1, 10**9), v > g - Fr(1, 32767) - Fr(1, 10**9)), 'gain word is not the gain in 1/32767')
    env.close(fro(w), v if env.sym else float(v), 1e-9, 'gain word decodes to another gain')


H = {'word': word, 'freq': freq, 'delay': delay, 'delayword': delayword, 'gain': gain}


def body(c):
    ndp, mcs = pyrun.imp('lsl.common.ndp'), pyrun.imp('lsl.common.mcs')
    undo = ps.patch(ndp) + ps.patch(mcs)
    S = os.path.abspath(__file__)
    pyrun.explore(c, 'word', word, S, float_err=True)
    pyrun.explore(c, 'freq', freq, S, float_err=True)
    for k in ('ndp', 'mcs'):
        pyrun.explore(c, f"delay | {k}", delay, S, {'kind': k}, float_err=True)
        pyrun.explore(c, f"delayword | {k}", delayword, S, {'kind': k}, float_err=True)
        pyrun.explore(c, f"gain | {k}", gain, S, {'kind': k}, float_err=True)
    ps.unpatch(undo)
    c.bounds.append('no bound on the values: all 2^32 tuning words, all frequencies in [0, 98] MHz, all delays the 16-bit format holds, all gains in [0, 1]')
    c.stubs.append('IEEE double operations as real operations with relative error up to 2^-53')


if __name__ == "__main__":
    pyrun.main('M01', 'symbolic execution of lsl/common/ndp.py and lsl/common/mcs.py unit conversions; float rounding as bounded relative error; z3 decides every obligation', body, H, __file__)
