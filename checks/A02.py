import datetime as _dt
import math
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps, symdt, symtime
from checks.A01 import ex, lin, near

JD0 = Fr('2400000.5')
T0, T1 = 2441317.5, 2488069.5       # 1972 to 2100
LEAPS = [(1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7),
         (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1),
         (2012, 7), (2015, 7), (2017, 1)]
STEPS = [(_dt.date(y, m, 1) - _dt.date(1858, 11, 17)).days for y, m in LEAPS]
MS = Fr(1, 10**4)                   # a double of Julian days resolves 4e-5 s


def A(env):
    if env.sym:
        return pyrun.imp('lsl.astro')
    from lsl import astro
    return astro


def days(env, y, m, d):
    """MJD of a calendar day"""
    if env.sym:
        return symdt.days_from_civil(y, m, d) + 40587
    return (_dt.date(y, m, d) - _dt.date(1858, 11, 17)).days


def normal(env, mjd):
    """not a day that ends with a leap second"""
    env.assume(env.land(*[env.lor(mjd < s - 1, mjd >= s) for s in STEPS]))


DATES = ((1999, 12, 31), (2000, 1, 1), (2000, 2, 28), (2000, 2, 29), (2001, 2, 28), (2001, 3, 1), (2010, 10, 31), (2024, 12, 31))


def mkzone(env, m, p, when):
    y, mo, d = when
    off = env.int('off'+p, -720, 720)*60
    h, mi, s = env.int('h'+p, 0, 23), env.int('mi'+p, 0, 59), env.real('s'+p, 0, 59.9999)
    dd = days(env, y, mo, d)
    z = m.zonedate(y, mo, d, h, mi, s, off)
    return z, lin(env, (1, secs(env, z, dd)), (-1, off))


def mkdate(env, m, p='', zone=None, month=None, top=math.nextafter(60, 0)):
    y, mo, d = env.int('y'+p, 1973, 2099), env.int('mo'+p, 1, 12), env.int('d'+p, 1, 31)
    if month is not None:
        env.assume(mo == month)
        mo = month
    leap = env.land(y % 4 == 0, env.lor(y % 100 != 0, y % 400 == 0))
    env.assume(env.implies(env.lor(mo == 4, mo == 6, mo == 9, mo == 11), d <= 30))
    env.assume(env.implies(mo == 2, d <= env.ite(leap, 29, 28)))
    h, mi, s = env.int('h'+p, 0, 23), env.int('mi'+p, 0, 59), env.real('s'+p, 0, top)
    dd = days(env, y, mo, d)
    normal(env, dd)
    if zone is None:
        return m.date(y, mo, d, h, mi, s), dd
    normal(env, dd + 1)
    normal(env, dd - 1)
    return m.zonedate(y, mo, d, h, mi, s, zone), dd


def secs(env, d, dd=None):
    """exact seconds since MJD 0 of calendar fields"""
    if dd is None:
        dd = days(env, d.years, d.months, d.days)
    return lin(env, (86400, dd), (3600, d.hours), (60, d.minutes), (1, d.seconds))


def fields(env, d, what):
    env.check(env.land(d.months >= 1, d.months <= 12, d.days >= 1, d.days <= 31), f"{what}: day or month out of range")
    env.check(env.land(d.hours >= 0, d.hours <= 23, d.minutes >= 0, d.minutes <= 59), f"{what}: hours or minutes out of range")
    env.check(env.land(d.seconds >= 0, d.seconds <= 60 if 'to_' in what else d.seconds < 60), f"{what}: seconds out of range")
    for x in (d.years, d.months, d.days, d.hours, d.minutes):
        env.check(isinstance(x, int) or (env.sym and isinstance(x, ps.SInt)), f"{what}: not an integer")


def jdsec(env, jd, mjd=False):
    return lin(env, (86400, jd), (-86400, 0 if mjd else JD0))


def tojd(env, month):
    m = A(env)
    d, dd = mkdate(env, m, month=month)
    w = secs(env, d, dd)
    near(env, jdsec(env, m.get_julian_day(d)), w, 'Julian day of a date', MS)
    near(env, jdsec(env, d.to_jd()), w, 'Julian day of a date', MS)
    near(env, secs(env, d, dd), w, 'the date changed', 0)


def fromjd(env):
    m = A(env)
    jd = env.real('jd', T0 + 400, T1)
    normal(env, lin(env, (1, jd), (-1, JD0)))
    d = m.get_date(jd)
    fields(env, d, 'get_date()')
    near(env, secs(env, d), jdsec(env, jd), 'date of a Julian day', Fr(1, 10**5))


def weekday(env, month):
    m = A(env)
    d, dd = mkdate(env, m, month=month)
    env.eq(m.get_day_of_week(d), (dd + 3) % 7, 'day of the week')


def tozone(env, how):
    m = A(env)
    d, dd = mkdate(env, m)
    off = env.int('off', -43200, 43200)
    w = secs(env, d, dd)
    z = d.to_zone(off) if how == 'method' else m.date_to_zonedate(d, off)
    env.check(isinstance(z, m.zonedate), 'not a zonedate')
    env.eq(z.gmtoff, off, 'offset from UTC')
    fields(env, z, 'to_zone()')
    near(env, secs(env, z), lin(env, (1, w), (1, off)), 'local time of a date', Fr(1, 10**6))
    near(env, secs(env, d, dd), w, 'the date changed', 0)


def fromzone(env, how):
    m = A(env)
    off = env.int('off', -43200, 43200)
    z, dd = mkdate(env, m, zone=off)
    w = secs(env, z, dd)
    d = z.to_date() if how == 'method' else m.zonedate_to_date(z)
    env.check(isinstance(d, m.date), 'not a date')
    fields(env, d, 'to_date()')
    near(env, secs(env, d), lin(env, (1, w), (-1, off)), 'UTC of a local time', Fr(1, 10**6))


def localjd(env, when):
    m = A(env)
    z, w = mkzone(env, m, '', when)
    near(env, jdsec(env, z.to_jd()), w, 'Julian day of a local time', MS)
    near(env, jdsec(env, m.get_julian_local_date(z)), w, 'Julian day of a local time', MS)


def order(env, kinds, op, when=None):
    m = A(env)
    w, v = [], []
    for i, k in enumerate(kinds):
        if k == 'z':
            d, t = mkzone(env, m, str(i), when)
        else:
            d, dd = mkdate(env, m, str(i), month=(2, 3)[i], top=59.9999)
            t = secs(env, d, dd)
        w.append(t)
        v.append(d)
    a, b = v
    gap = lin(env, (1, w[0]), (-1, w[1]))
    env.assume(env.lor(gap > 2*MS, gap < -2*MS))
    r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
    want = {'<': gap < 0, '<=': gap < 0, '>': gap > 0, '>=': gap > 0, '==': False, '!=': True}[op]
    env.check(env.implies(want, r), f"dates in this order: not {op}")
    env.check(env.implies(r, want), f"dates not in this order: {op}")


def limits(env, kind):
    m = A(env)
    y, mo, d, h, mi, s = env.int('y', 1900, 2100), env.int('mo', -2, 15), env.int('d', -2, 40), env.int('h', -2, 30), env.int('mi', -2, 70), env.real('s', -5, 70)
    ok = env.land(mo >= 1, mo <= 12, d >= 1, d <= 31, h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s < 60)
    try:
        v = m.date(y, mo, d, h, mi, s) if kind == 'date' else m.zonedate(y, mo, d, h, mi, s, 3600)
    except ValueError:
        env.check(env.lnot(ok), 'valid fields refused')
        return
    env.check(ok, 'fields out of range accepted')
    for n, x in (('years', y), ('months', mo), ('days', d), ('hours', h), ('minutes', mi), ('seconds', s)):
        env.eq(getattr(v, n), x, n)


# ------------------------------------------------------------- time scales

def dat(env, mjd):
    """TAI-UTC of a UTC day"""
    n = 10
    for s in STEPS:
        n = n + env.ite(mjd >= s, 1, 0)
    return n


def jdin(env, name='jd', lo=T0, hi=T1):
    jd = env.real(name, lo, hi)
    env.assume(jd < hi)
    if env.sym:
        jd = ps.SReal(jd.t, g=31)       # doubles of this size are multiples of 2^-31
    return jd, lin(env, (1, jd), (-1, JD0))


def leap(env):
    m = A(env)
    jd, mjd = jdin(env)
    near(env, m.leap_secs(jd), dat(env, mjd), 'number of leap seconds', Fr(1, 1000))


def leapearly(env):
    m = A(env)
    jd = env.real('jd', 2430000, T0)
    env.assume(jd < T0)
    env.check(env.raises(ValueError, m.leap_secs, jd) is not None, 'leap seconds before 1972 not refused')


def utcin(env):
    m = A(env)
    jd, mjd = jdin(env, hi=T1 - 1)
    normal(env, mjd)
    s, n = jdsec(env, jd), dat(env, mjd)
    w = lin(env, (1, s), (1, n))
    near(env, jdsec(env, m.utc_to_tai(jd)), w, 'utc_to_tai()', MS)
    near(env, jdsec(env, m.utcjd_to_taimjd(jd), True), w, 'utcjd_to_taimjd()', MS)
    near(env, jdsec(env, m.utc_to_tt(jd)), lin(env, (1, w), (Fr('32.184'), 1)), 'utc_to_tt()', MS)
    u = lin(env, (1, s), (-40587*86400, 1))
    near(env, m.utcjd_to_unix(jd), u, 'utcjd_to_unix()', MS)
    near(env, m.get_timet_from_julian(jd), u, 'get_timet_from_julian()', MS)


def unixin(env):
    m = A(env)
    u = env.real('u', 63072000, 4102358400)
    mjd = lin(env, (Fr(1, 86400), u), (40587, 1))
    normal(env, mjd)
    s = lin(env, (1, u), (40587*86400, 1))
    near(env, jdsec(env, m.unix_to_utcjd(u)), s, 'unix_to_utcjd()', MS)
    near(env, jdsec(env, m.get_julian_from_timet(u)), s, 'get_julian_from_timet()', MS)
    near(env, jdsec(env, m.unix_to_taimjd(u), True), lin(env, (1, s), (1, dat(env, mjd))), 'unix_to_taimjd()', MS)


def taiin(env, scale):
    """TAI or TT to UTC: the UTC whose TAI it is"""
    m = A(env)
    jd, mjd = jdin(env, lo=T0 + 2, hi=T1 - 1)
    tai = jdsec(env, jd)
    if scale == 'tt':
        tai = lin(env, (1, tai), (-Fr('32.184'), 1))
    # clear of the leap seconds and of the days that end with them
    for i, s in enumerate(STEPS):
        env.assume(env.lor(tai < (s - 1)*86400 + 9 + i, tai > s*86400 + 12 + i))
    n = 10
    for i, s in enumerate(STEPS):
        n = n + env.ite(tai >= s*86400 + 11 + i, 1, 0)
    w = lin(env, (1, tai), (-1, n))
    if scale == 'tai':
        near(env, jdsec(env, m.tai_to_utc(jd)), w, 'tai_to_utc()', MS)
        mj = env.real('mj', T0 - 2400000.5 + 2, T1 - 2400001.5)
        env.assume(mj == (mjd if env.sym else float(mjd)))
        near(env, jdsec(env, m.taimjd_to_utcjd(mj)), w, 'taimjd_to_utcjd()', MS)
        near(env, m.taimjd_to_unix(mj), lin(env, (1, w), (-40587*86400, 1)), 'taimjd_to_unix()', MS)
    else:
        near(env, jdsec(env, m.tt_to_utc(jd)), w, 'tt_to_utc()', MS)


def tt(env):
    m = A(env)
    jd, _ = jdin(env)
    s = jdsec(env, jd)
    near(env, jdsec(env, m.tai_to_tt(jd)), lin(env, (1, s), (Fr('32.184'), 1)), 'tai_to_tt()', MS)
    near(env, jdsec(env, m.tt_to_tai(jd)), lin(env, (1, s), (-Fr('32.184'), 1)), 'tt_to_tai()', MS)
    near(env, jdsec(env, m.tt_to_tdb(jd)), s, 'tt_to_tdb() is more than 2 ms away', Fr(2, 1000))


def mjd(env):
    m = A(env)
    x = env.real('x', 2300000, 2600000)
    try:
        r = m.jd_to_mjd(x)
    except ValueError:
        env.check(x < 2400000.5, 'jd_to_mjd() refused a valid day')
    else:
        env.check(x >= 2400000.5, 'jd_to_mjd() of a day before MJD 0')
        near(env, r, lin(env, (1, x), (-1, JD0)), 'jd_to_mjd()')
    y = env.real('y', -1000, 100000)
    try:
        r = m.mjd_to_jd(y)
    except ValueError:
        env.check(y < 0, 'mjd_to_jd() refused a valid day')
    else:
        env.check(y >= 0, 'mjd_to_jd() of a negative day')
        near(env, r, lin(env, (1, y), (1, JD0)), 'mjd_to_jd()')


H = {'tojd': tojd, 'fromjd': fromjd, 'weekday': weekday, 'tozone': tozone, 'fromzone': fromzone, 'localjd': localjd, 'order': order, 'limits': limits,
     'leap': leap, 'leapearly': leapearly, 'utcin': utcin, 'unixin': unixin, 'taiin': taiin, 'tt': tt, 'mjd': mjd}


def body(c):
    m = pyrun.imp('lsl.astro')
    undo = ps.patch(m, AstroTime=symtime.ATime, datetime=symdt.Datetime, timedelta=symdt.Timedelta, time=symtime.STime(), timegm=symtime.timegm)
    S = os.path.abspath(__file__)
    jobs = []
    only = os.environ.get('VERIF_ONLY')

    def go(n, **k):
        lab = ' '.join(map(str, k.values()))
        if not only or only in n:
            jobs.append(lambda c: setattr(symdt.Contract, 'fork_days', n in ('localjd', 'order')) or pyrun.explore(c, f"{n} | {lab}" if lab else n, H[n], S, k, float_err=True, decisions=3000))
    for mo in range(1, 13):
        go('tojd', month=mo)
    for mo in (1, 2, 3, 12):
        go('weekday', month=mo)
    go('fromjd')
    for h in ('method', 'function'):
        go('tozone', how=h)
        go('fromzone', how=h)
    for w in DATES:
        go('localjd', when=w)
        for op in ('<', '==', '>'):
            for k in ('zz', 'dz', 'zd'):
                if w in (DATES[:6:3] if k == 'zz' else DATES[3:4]):
                    go('order', kinds=k, op=op, when=w)
    for op in ('<', '<=', '>', '>=', '==', '!='):
        go('order', kinds='dd', op=op)
    for k in ('date', 'zonedate'):
        go('limits', kind=k)
    go('leap')
    go('leapearly')
    go('utcin')
    go('unixin')
    for s in ('tai', 'tt'):
        go('taiin', scale=s)
    go('tt')
    go('mjd')
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds.append('every date, Julian day, UNIX time and TAI or TT day from 1972 (dates from 1973) to 2100, every offset from UTC up to 12 h')
    c.stubs.append('astropy Time by its definition with the table of leap seconds of erfa (the oracle has one of its own); calendar.timegm, time.gmtime, datetime by the calendar')
    c.stubs.append('IEEE double operations as real operations with relative error up to 2^-53')
    c.outside.append('calendar time on days that end with a leap second, times before 1972, string forms, the system clock, sidereal time (astropy)')


if __name__ == "__main__":
    pyrun.main('A02', 'symbolic execution of the calendar and time scale functions of lsl/astro.py; z3 decides every obligation', body, H, __file__)
