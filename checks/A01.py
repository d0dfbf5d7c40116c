import math
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps

TOL = 1e-9          # degrees


def A(env):
    if env.sym:
        return pyrun.imp('lsl.astro')
    from lsl import astro
    return astro


def ex(env, x):
    """exact value of a number"""
    if env.sym:
        return ps.SReal(ps._real(ps._num(x)[1])) if ps.is_sym(x) else Fr(x)
    return Fr(x)


def lin(env, *terms):
    """exact sum of coefficient*value"""
    if env.sym:
        t = 0
        for k, x in terms:
            t = t + ps._frac(Fr(k))*ps._real(ps._num(x)[1])
        return ps.SReal(t)
    return sum(Fr(k)*Fr(x) for k, x in terms)


def near(env, a, b, what, tol=TOL):
    d = lin(env, (1, a), (-1, b))
    tol = Fr(tol)
    env.check(env.land(d <= tol, d >= -tol), what)


def wrapped(env, x, full):
    """x reduced to [0, full)"""
    if env.sym:
        k = ps._floor(ex(env, x).t/full)
        return ps.SReal(ex(env, x).t - full*ps.z3.ToReal(k))
    return Fr(x) % full


def nearmod(env, a, x, full, what, tol=TOL):
    """a is x up to whole turns"""
    w = wrapped(env, x, full)
    d = lin(env, (1, a), (-1, w))
    tol = Fr(tol)
    env.check(env.lor(*[env.land(d - k <= tol, d - k >= -tol) for k in (-full, 0, full)]), what)


def parts(env, v, top, what):
    """minutes and seconds (and the leading part) are in their ranges"""
    lead = v.degrees if hasattr(v, 'degrees') and not hasattr(v, 'hours') else v.hours
    for n, x in ((what, lead), ('minutes', v.minutes)):
        env.check(isinstance(x, int) or (env.sym and isinstance(x, ps.SInt)), f"{n} not an integer")
    env.check(env.land(lead >= 0, lead <= top), f"{what} out of range")
    env.check(env.land(v.minutes >= 0, v.minutes <= 59), 'minutes out of range')
    env.check(env.land(v.seconds >= 0, v.seconds < 60), 'seconds out of range')


def dmsval(env, v):
    t = lin(env, (1, v.degrees), (Fr(1, 60), v.minutes), (Fr(1, 3600), v.seconds))
    if v.neg:
        return -t
    return t


def hmsval(env, v):
    return lin(env, (15, v.hours), (Fr(1, 4), v.minutes), (Fr(1, 240), v.seconds))


def mkdms(env, m, p=''):
    neg = env.choice('neg'+p, (False, True))
    d, mi, s = env.int('d'+p, 0, 359), env.int('m'+p, 0, 59), env.real('s'+p, 0, math.nextafter(60, 0))
    return m.dms(neg, d, mi, s)


def mkhms(env, m, p=''):
    h, mi, s = env.int('h'+p, 0, 23), env.int('m'+p, 0, 59), env.real('s'+p, 0, math.nextafter(60, 0))
    return m.hms(h, mi, s)


def todms(env, how):
    m = A(env)
    if how == 'deg':
        x = env.real('x', -360, 360)
        env.assume(env.land(x > -360, x < 360))
        v = m.deg_to_dms(x)
        w = ex(env, x)
    else:
        x = env.real('x', -6.28, 6.28)
        v = m.rad_to_dms(x)
        w = lin(env, (Fr(180)/Fr(math.pi), x))
    parts(env, v, 360, 'degrees')
    near(env, dmsval(env, v), w, 'degrees, minutes, seconds of an angle')
    if x < 0:
        env.check(v.neg, 'sign lost')
    else:
        env.check(env.lnot(v.neg), 'sign of a positive angle')


def tohms(env, how):
    m = A(env)
    if how == 'deg':
        x = env.real('x', -1080, 1080)
        v = m.deg_to_hms(x)
        w = ex(env, x)
    else:
        x = env.real('x', -10, 10)
        v = m.rad_to_hms(x)
        w = lin(env, (Fr(180)/Fr(math.pi), x))
    parts(env, v, 23, 'hours')
    nearmod(env, hmsval(env, v), w, 360, 'hours, minutes, seconds of an angle')


def fromdms(env):
    m = A(env)
    v = mkdms(env, m)
    w = dmsval(env, v)
    near(env, v.to_deg(), w, 'degrees of a dms')
    near(env, v.to_rad(), w*(Fr(math.pi)/180), 'radians of a dms', 1e-11)
    near(env, m.dms_to_deg(v), w, 'degrees of a dms')
    near(env, m.dms_to_rad(v), w*(Fr(math.pi)/180), 'radians of a dms', 1e-11)
    n = -v
    near(env, dmsval(env, n), -w, 'negative of a dms')
    near(env, dmsval(env, v), w, 'the operand of - changed')
    h = v.to_hms()
    parts(env, h, 23, 'hours')
    nearmod(env, hmsval(env, h), w, 360, 'dms to hms')


def fromhms(env):
    m = A(env)
    v = mkhms(env, m)
    w = hmsval(env, v)
    near(env, v.to_deg(), w, 'degrees of an hms')
    near(env, v.to_rad(), w*(Fr(math.pi)/180), 'radians of an hms', 1e-11)
    near(env, v.to_sec(), w*240, 'seconds of an hms', 1e-7)
    near(env, m.hms_to_deg(v), w, 'degrees of an hms')
    near(env, m.hms_to_rad(v), w*(Fr(math.pi)/180), 'radians of an hms', 1e-11)
    near(env, m.hms_to_sec(v), w*240, 'seconds of an hms', 1e-7)
    d = v.to_dms()
    near(env, dmsval(env, d), w, 'hms to dms')
    parts(env, d, 360, 'degrees')


def limits(env, kind):
    """parts outside of their range are refused, others taken as they are"""
    m = A(env)
    a, b, s = env.int('a', -400, 400), env.int('b', -100, 100), env.real('s', -100, 100)
    top = 23 if kind == 'hms' else 359
    ok = env.land(a >= 0, a <= top, b >= 0, b <= 59, s >= 0, s < 60)
    try:
        v = m.hms(a, b, s) if kind == 'hms' else m.dms(False, a, b, s)
    except ValueError:
        env.check(env.lnot(ok), 'valid parts refused')
        return
    env.check(ok, 'parts out of range accepted')
    env.eq(v.hours if kind == 'hms' else v.degrees, a, 'leading part')
    env.eq(v.minutes, b, 'minutes')
    env.eq(v.seconds, s, 'seconds')


def addsecs(env):
    m = A(env)
    v = mkhms(env, m)
    x = env.real('x', -100000, 100000)
    w = lin(env, (1, hmsval(env, v)), (Fr(1, 240), x))
    r = m.add_secs_hms(v, x)
    parts(env, r, 23, 'hours')
    nearmod(env, hmsval(env, r), w, 360, 'hms plus seconds', 1e-8)


def addhms(env, how):
    m = A(env)
    a, b = mkhms(env, m, 'a'), mkhms(env, m, 'b')
    wa, wb = hmsval(env, a), hmsval(env, b)
    w = lin(env, (1, wa), (1, wb))
    if how == '+=':
        a += b
        src = b
        ws = wb
        r = a
    else:
        r = m.add_hms(b, a)
        src, ws = b, wb
        parts(env, a, 23, 'hours')
        nearmod(env, hmsval(env, a), w, 360, 'the second argument of add_hms() is not the sum')
    parts(env, r, 23, 'hours')
    nearmod(env, hmsval(env, r), w, 360, 'sum of two hms')
    near(env, hmsval(env, src), ws, 'the angle added changed')


def order(env, ka, kb):
    m = A(env)
    mk = {'dms': (mkdms, dmsval), 'hms': (mkhms, hmsval)}
    a = mk[ka][0](env, m, 'a')
    wa = mk[ka][1](env, a)
    if kb == 'number':
        b = env.real('x', -360, 360)
        wb = ex(env, b)
    else:
        b = mk[kb][0](env, m, 'b')
        wb = mk[kb][1](env, b)
    d = lin(env, (1, wa), (-1, wb))
    env.assume(env.lor(d > Fr(TOL), d < -Fr(TOL)))
    less = d < 0
    if less:
        ok = (a < b) and (a <= b) and not (a > b) and not (a >= b) and not (a == b) and a != b
    else:
        ok = (a > b) and (a >= b) and not (a < b) and not (a <= b) and not (a == b) and a != b
    env.check(ok, f"comparison of {ka} and {kb}")


def same(env, ka):
    m = A(env)
    mk = {'dms': mkdms, 'hms': mkhms}[ka]
    a = mk(env, m, 'a')
    b = m.dms(a.neg, a.degrees, a.minutes, a.seconds) if ka == 'dms' else m.hms(a.hours, a.minutes, a.seconds)
    env.check(a == b and a <= b and a >= b and not (a < b) and not (a > b) and not (a != b), f"equal {ka} compare as different")


def ranges(env):
    m = A(env)
    x = env.real('x', -100000, 100000)
    r = m.range_degrees(x)
    env.check(env.land(r >= -1e-9, r <= 360 + 1e-9), 'range_degrees() out of range')
    nearmod(env, r, x, 360, 'range_degrees() gives another direction', 1e-8)
    y = env.real('y', -10000, 10000)
    r = m.range_hours(y)
    env.check(env.land(r >= -1e-9, r <= 24 + 1e-9), 'range_hours() out of range')
    nearmod(env, r, y, 24, 'range_hours() gives another time', 1e-9)


def units(env):
    m = A(env)
    x = env.real('x', -1000, 1000)
    near(env, m.rad_to_deg(x), lin(env, (Fr(180)/Fr(math.pi), x)), 'radians to degrees')
    near(env, m.deg_to_rad(x), lin(env, (Fr(math.pi)/180, x)), 'degrees to radians')
    near(env, m.deg_to_rad(m.rad_to_deg(x)), x, 'radians to degrees and back')
    near(env, m.deg_to_sec(x), lin(env, (240, x)), 'degrees to seconds of time', 1e-8)
    near(env, m.sec_to_jd(x), lin(env, (Fr(1, 86400), x)), 'seconds to days')
    near(env, m.jd_to_sec(x), lin(env, (86400, x)), 'days to seconds', 1e-5)


def compass(env):
    m = A(env)
    az, alt = env.real('az', 0, 360), env.real('alt', -90, 90)
    env.assume(az < 360)
    r = m.hrz_to_nswe(m.hrz_posn(az, alt))
    want = env.ite(env.lor(az < 45, az >= 315), 0, env.ite(az < 135, 1, env.ite(az < 225, 2, 3)))
    env.eq('NESW'.find(r), want, 'compass direction')


RANGES = {  # name: (first attribute, low, high, low end allowed, high end allowed (None: not claimed), second attribute)
    'hrz_posn': ('az', 0, 360, True, False, 'alt'),
    'equ_posn': ('ra', 0, 360, True, False, 'dec'),
    'gal_posn': ('l', -360, 360, True, False, 'b'),
    'ecl_posn': ('lng', -360, 360, True, None, 'lat'),
    'geo_posn': ('lng', -360, 360, False, False, 'lat'),
}


def posn(env, kind, how):
    """longitude and latitude are kept, out of range ones refused"""
    m = A(env)
    lon, lo, hi, loin, hiin, lat = RANGES[kind]
    x, y = env.real('x', -800, 800), env.real('y', -200, 200)
    cls = getattr(m, kind)
    okx = env.land(x >= lo if loin else x > lo, x <= hi if hiin else x < hi)
    if hiin is None:
        env.assume(env.lnot(x == hi))
    ok = env.land(okx, y >= -90, y <= 90)
    try:
        if how == 'init':
            p = cls(x, y)
        elif how == 'attr':
            p = cls(1.0, 2.0)
            setattr(p, lon, x)
            setattr(p, lat, y)
        else:
            p = cls(1.0, 2.0)
            p[0] = x
            p[1] = y
    except ValueError:
        env.check(env.lnot(ok), f"valid position refused ({kind})")
        return
    env.check(ok, f"position out of range accepted ({kind})")
    env.eq(getattr(p, lon), x, f"longitude of {kind}")
    env.eq(getattr(p, lat), y, f"latitude of {kind}")
    env.eq(p[0], x, f"longitude of {kind} by index")
    env.eq(p[1], y, f"latitude of {kind} by index")
    env.check(p.astropy is None, 'astropy object of a position given by numbers')
    if kind == 'hrz_posn':
        near(env, p.zen(), lin(env, (1, 90), (-1, y)), 'zenith angle')
        z = env.real('z', 0, 180)
        p.zen(z)
        near(env, p.alt, lin(env, (1, 90), (-1, z)), 'altitude from a zenith angle')
        env.eq(p.az, x, 'azimuth changed with the zenith angle')


def posnangles(env, kind):
    """positions from dms and hms objects, and back by format()"""
    m = A(env)
    lon, lo, hi, loin, hiin, lat = RANGES[kind]
    a = mkhms(env, m, 'a') if kind == 'equ_posn' else mkdms(env, m, 'a')
    b = mkdms(env, m, 'b')
    wa = hmsval(env, a) if kind == 'equ_posn' else dmsval(env, a)
    wb = dmsval(env, b)
    env.assume(env.land(wb <= 90 - Fr(TOL), wb >= -90 + Fr(TOL), wa < 360 - Fr(TOL), wa > lo + Fr(TOL) if lo else wa >= 0))
    p = getattr(m, kind)(a, b)
    near(env, getattr(p, lon), wa, f"longitude of {kind} from an angle object")
    near(env, getattr(p, lat), wb, f"latitude of {kind} from an angle object")
    f = p.format()
    nearmod(env, hmsval(env, f[0]) if kind == 'equ_posn' else dmsval(env, f[0]), wa, 360, f"longitude in the format of {kind}")
    near(env, dmsval(env, f[1]), wb, f"latitude in the format of {kind}")


def posneq(env, kind):
    m = A(env)
    n = 3 if kind == 'geo_posn' else 2
    xs = [[env.real(f"{p}{i}", 0, 80) for i in range(n)] for p in 'ab']
    a, b = (getattr(m, kind)(*x) for x in xs)
    if kind == 'rect_posn':
        a, b = m.rect_posn(*xs[0]), m.rect_posn(*xs[1])
    eq = env.land(*[x == y for x, y in zip(*xs)])
    r, q = a == b, a != b
    env.check(env.implies(eq, r), f"equal {kind} differ")
    env.check(env.implies(env.lnot(eq), env.lnot(r)), f"different {kind} compare equal")
    env.check(env.implies(eq, env.lnot(q)), f"equal {kind} compare unequal")
    env.check(env.implies(env.lnot(eq), q), f"different {kind} not unequal")


H = {'todms': todms, 'tohms': tohms, 'fromdms': fromdms, 'fromhms': fromhms, 'limits': limits, 'addsecs': addsecs, 'addhms': addhms,
     'order': order, 'same': same, 'ranges': ranges, 'units': units, 'compass': compass, 'posn': posn, 'posnangles': posnangles, 'posneq': posneq}


def body(c):
    m = pyrun.imp('lsl.astro')
    undo = ps.patch(m)
    S = os.path.abspath(__file__)
    jobs = []

    def go(n, **k):
        lab = ' '.join(map(str, k.values()))
        jobs.append(lambda c: pyrun.explore(c, f"{n} | {lab}" if lab else n, H[n], S, k, float_err=True))
    for how in ('deg', 'rad'):
        go('todms', how=how)
        go('tohms', how=how)
    go('fromdms')
    go('fromhms')
    for k in ('dms', 'hms'):
        go('limits', kind=k)
        go('same', ka=k)
        for b in ('dms', 'hms', 'number'):
            go('order', ka=k, kb=b)
    go('addsecs')
    for h in ('+=', 'add_hms'):
        go('addhms', how=h)
    go('ranges')
    go('units')
    go('compass')
    for k in RANGES:
        for h in ('init', 'attr', 'item'):
            go('posn', kind=k, how=h)
        if k != 'hrz_posn':
            go('posnangles', kind=k)
        if k != 'ecl_posn':
            go('posneq', kind=k)
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds.append('all angles: degrees to (-360, 360), hours to +-3 turns, all parts of dms and hms objects, ranges to +-100000; all longitudes and latitudes to +-800')
    c.stubs.append('IEEE double operations as real operations with relative error up to 2^-53')
    c.outside.append('transformations between coordinate frames (done by astropy), angles beyond the bounds, string forms')


if __name__ == "__main__":
    pyrun.main('A01', 'symbolic execution of the angle and position classes of lsl/astro.py; float rounding as bounded relative error; z3 decides every obligation', body, H, __file__)
