import os
import sys
from datetime import timedelta
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps, symdt

FS = 196000000
TMIN = 63072000            # 1972-01-01, when UTC seconds became SI seconds
TMAX = 4102444800          # 2100-01-01
FT = None


def ft():
    if FT is not None:
        return FT
    from lsl.reader.base import FrameTimestamp
    return FrameTimestamp


def secs(env, tt):
    """Exact seconds of a tick count."""
    return ps.SReal(ps._rt_ticks(tt)) if env.sym else Fr(tt, FS)


def exact(env, num, den):
    return ps.SReal(ps._real(ps._num(num)[1])*ps._frac(Fr(1, den))) if env.sym and ps.is_sym(num) else Fr(num, den)


def unix_ok(env, t, want, what, tol=1e-6):
    """t is the instant `want` (exact seconds) as float."""
    u = t.unix
    env.check(env.land(u - want <= tol, u - want >= -tol), what) if env.sym else env.check(abs(Fr(float(u)) - want) <= tol, what)


def ticks(env):
    """time tag -> timestamp -> time tag"""
    F = ft()
    tt = env.int('timetag', TMIN*FS, TMAX*FS)
    off = env.int('offset', 0, 196000000)
    t = F.from_dp_timetag(tt, off)
    env.eq(t.dp_timetag, tt - off, 'time tag lost in the round trip')
    unix_ok(env, t, exact(env, tt - off, FS), 'instant of a time tag')


def ticksleap(env):
    """the same inside a day that has a leap second"""
    F = ft()
    tt = env.int('timetag', 1483142400*FS, (1483142400+86399)*FS)
    if env.sym:
        symdt.Contract.leap = True
    try:
        env.eq(F.from_dp_timetag(tt).dp_timetag, tt, 'time tag lost in the round trip on a leap second day')
    finally:
        symdt.Contract.leap = False


def order(env):
    """timestamps sort like their time tags"""
    F = ft()
    a = env.int('a', TMIN*FS, TMAX*FS)
    b = env.int('b', TMIN*FS, TMAX*FS)
    env.assume(a < b)
    ta, tb = F.from_dp_timetag(a), F.from_dp_timetag(b)
    env.check(ta < tb, 'earlier time tag does not compare earlier')
    env.check(tb > ta, 'later time tag does not compare later')
    env.check(env.land(ta <= tb, tb >= ta), 'ordering')
    env.check(env.lnot(tb <= ta), 'ordering')
    env.check(env.lnot(ta == tb), 'different time tags compare equal')
    env.check(ta != tb, 'different time tags compare equal')
    env.check(env.land(ta == F.from_dp_timetag(a), ta <= F.from_dp_timetag(a)), 'equal time tags compare different')
    d = tb - ta
    w = exact(env, b - a, FS)
    # differences to a few ns over up to ten days
    env.assume(b - a <= 10*86400*FS)
    env.check(env.land(d - w <= 4e-9, d - w >= -4e-9) if env.sym else abs(Fr(float(d)) - w) <= 4e-9, 'difference of two timestamps')


def numbers(env):
    """comparison with, and conversion to, a number"""
    F = ft()
    a = env.int('a', TMIN*FS, TMAX*FS)
    t = F.from_dp_timetag(a)
    w = exact(env, a, FS)
    x = env.real('x', 0, TMAX)
    f = t.__float__()
    env.check(env.land(f - w <= 1e-6, f - w >= -1e-6) if env.sym else abs(Fr(f) - w) <= 1e-6, 'float value')
    for n, r in (('<', t < x), ('<=', t <= x), ('>', t > x), ('>=', t >= x)):
        d = x - w if env.sym else Fr(x) - w
        if n in ('<', '<='):
            env.check(env.implies(d > 1e-6, r), f"comparison {n} with a number")
            env.check(env.implies(d < -1e-6, env.lnot(r)), f"comparison {n} with a number")
        else:
            env.check(env.implies(d > 1e-6, env.lnot(r)), f"comparison {n} with a number")
            env.check(env.implies(d < -1e-6, r), f"comparison {n} with a number")
    i, fr = t[0], t[1]
    env.check(env.land(fr >= 0, fr < 1), 'fractional part out of [0,1)')
    s = i + fr
    env.check(env.land(s - w <= 1e-6, s - w >= -1e-6) if env.sym else abs(Fr(float(s)) - w) <= 1e-6, 'seconds plus fraction')


def build(env, how):
    """construction from seconds and fraction"""
    F = ft()
    if how == 'int':
        si = env.int('si', TMIN, TMAX)
    else:
        si = env.real('si', TMIN, TMAX)
    sf = env.real('sf', -1000, 1000)
    t = F(si, sf)
    w = (si + sf if how == 'int' else ps.SReal(si.t + sf.t)) if env.sym else Fr(si) + Fr(sf)
    w = ps.SReal(ps._real(ps._num(si)[1]) + sf.t) if env.sym else w
    unix_ok(env, t, w, 'instant of (seconds, fraction)')
    ref = F(si, 0.0)
    d = t - ref
    tol = 1e-9 if how == 'int' else 1e-6
    env.check(env.land(d - sf <= tol, d - sf >= -tol) if env.sym else abs(d - sf) <= tol, 'fraction lost')


def arith(env, kind):
    """adding and subtracting seconds"""
    F = ft()
    a = env.int('a', TMIN*FS, TMAX*FS)
    if kind == 'timedelta':
        us = env.int('us', -86400*10**6, 86400*10**6)
        x = symdt.STD(us) if env.sym else timedelta(microseconds=us)
        w = exact(env, us, 10**6)
    elif kind == 'int':
        x = env.int('x', -86400, 86400)
        w = x
    else:
        x = env.real('x', -86400, 86400)
        w = x
    t0 = F.from_dp_timetag(a)
    for n in ('+', '-', '+=', '-='):
        t = F.from_dp_timetag(a)
        if n == '+':
            r = t + x
        elif n == '-':
            r = t - x
        elif n == '+=':
            t += x
            r = t
        else:
            t -= x
            r = t
        d = r - t0
        s = w if '+' in n else -w
        env.check(env.land(d - s <= 4e-9, d - s >= -4e-9) if env.sym else abs(Fr(float(d)) - Fr(s)) <= 4e-9, f"timestamp {n} {kind}")
        e = t0 - F.from_dp_timetag(a)
        env.check(env.land(e <= 4e-9, e >= -4e-9), f"the operand of {n} changed")
        unix_ok(env, r, (exact(env, a, FS) + s) if env.sym else Fr(a, FS) + Fr(s), f"instant after {n} {kind}")


def mjdmpm(env):
    """MJD and milliseconds past midnight"""
    F = ft()
    mjd = env.int('mjd', 41317, 88069)
    mpm = env.int('mpm', 0, 86399999)
    t = F.from_mjd_mpm(mjd, mpm)
    w = (mjd - 40587)*86400 + exact(env, mpm, 1000)
    unix_ok(env, t, w, 'instant of (MJD, MPM)')
    ref = F((mjd - 40587)*86400, 0.0)
    d = t - ref
    env.check(env.land(d - exact(env, mpm, 1000) <= 1e-9, d - exact(env, mpm, 1000) >= -1e-9) if env.sym
              else abs(Fr(float(d)) - Fr(mpm, 1000)) <= 1e-9, 'milliseconds past midnight')


def pulsar(env):
    """(MJD, seconds of day, fraction)"""
    F = ft()
    a = env.int('a', TMIN*FS, TMAX*FS)
    t = F.from_dp_timetag(a)
    mjd, sec, frac = t.pulsar_mjd
    env.check(env.land(sec >= 0, sec < 86400), 'seconds of the day out of [0, 86400)')
    env.check(env.land(frac >= 0, frac < 1), 'fraction of a second out of [0, 1)')
    w = exact(env, a, FS)
    tot = (mjd - 40587)*86400 + sec
    d = (w - tot) - frac if env.sym else w - int(tot) - Fr(float(frac))
    env.check(env.land(d <= 1e-9, d >= -1e-9), 'parts do not add up to the instant')


def pulsarback(env):
    F = ft()
    mjd = env.int('mjd', 41317, 88069)
    sec = env.int('sec', 0, 86399)
    frac = env.real('frac', 0, 1)
    t = F.from_pulsar_mjd(mjd, sec, frac)
    d = t - F((mjd - 40587)*86400, 0.0)
    env.check(env.land(d - sec - frac <= 1e-9, d - sec - frac >= -1e-9), 'instant of (MJD, seconds, fraction)')


H = {'ticks': ticks, 'ticksleap': ticksleap, 'order': order, 'numbers': numbers, 'build': build, 'arith': arith, 'mjdmpm': mjdmpm, 'pulsar': pulsar, 'pulsarback': pulsarback}


def body(c):
    global FT
    base = pyrun.imp('lsl.reader.base')
    ndp = pyrun.imp('lsl.common.ndp')
    undo = ps.patch(base, AstroTime=symdt.TimeStub, AstroDelta=symdt.DeltaStub, datetime=symdt.Datetime, timedelta=symdt.Timedelta) + ps.patch(ndp)
    FT = base.FrameTimestamp
    S = os.path.abspath(__file__)
    for n in ('ticks', 'ticksleap', 'order', 'numbers', 'mjdmpm', 'pulsar', 'pulsarback'):
        pyrun.explore(c, n, H[n], S, float_err=True)
    for k in ('int', 'float'):
        pyrun.explore(c, f"build | {k}", build, S, {'how': k}, float_err=True)
    for k in ('int', 'float', 'timedelta'):
        pyrun.explore(c, f"arith | {k}", arith, S, {'kind': k}, float_err=True)
    ps.unpatch(undo)
    FT = None
    c.bounds.append('every time tag from 1972 to 2100, every offset up to one second, every pair of time tags; sums and differences up to a day')
    c.stubs.append('astropy Time/TimeDelta as exact UTC instants (days of 86400 s) with errors up to 2e-11 s per operation')
    c.stubs.append('IEEE double operations as real operations with relative error up to 2^-53')
    c.outside.append('differences across leap seconds; times before 1972')


if __name__ == "__main__":
    pyrun.main('T01', 'symbolic execution of FrameTimestamp (lsl/reader/base.py) over contract models of astropy Time', body, H, __file__)
