"""Contract model of astropy.time.Time with the scales UTC, TAI, TT and TDB.

An instant is an exact number of days (MJD) of its scale.  UTC follows the table of leap
seconds (from erfa, which astropy uses); on a day that ends with one, astropy
stretches the day: a day fraction counts 86401 seconds.  Conversions are exact
here; astropy's error (two doubles of days, below 1e-9 s) has to be covered by the
tolerance of the assertions."""

import datetime as _dt
from fractions import Fraction

from . import pysym as ps, symdt
from .pysym import ENG, z3

JD0 = Fraction('2400000.5')
TT = Fraction('32.184')
NOW = []


def table():
    """(MJD from which it holds, TAI-UTC), from 1972 on."""
    if not NOW:
        import erfa
        for r in erfa.leap_seconds.get():
            if r['year'] >= 1972:
                d = (_dt.date(int(r['year']), int(r['month']), 1) - _dt.date(1858, 11, 17)).days
                NOW.append((d, Fraction(str(float(r['tai_utc'])))))
    return NOW


def F(x):
    return ps._frac(Fraction(x))


def interval(lt):
    """Fork over the steps of TAI-UTC; lt(i) is the condition `before step i`."""
    t = table()
    for i in range(1, len(t)):
        if ENG.decide(lt(i)):
            return i - 1
    return len(t) - 1


def utc_to_tai(u):
    """seconds of TAI since MJD 0 of a UTC MJD"""
    t = table()
    if ENG.decide(u < t[0][0]):
        raise ps.Unsupported('UTC before 1972')
    i = interval(lambda k: u < t[k][0])
    if i + 1 < len(t):
        d = t[i+1][0] - 1
        if ENG.decide(u >= d):
            return z3.simplify(F(d*86400 + t[i][1]) + (u - d)*F(86400 + t[i+1][1] - t[i][1]))
    return z3.simplify(u*86400 + F(t[i][1]))


def tai_to_utc(s):
    t = table()
    if ENG.decide(s < F(t[0][0]*86400 + t[0][1])):
        raise ps.Unsupported('UTC before 1972')
    i = interval(lambda k: s < F(t[k][0]*86400 + t[k][1]))
    if i + 1 < len(t):
        d = t[i+1][0] - 1
        a = F(d*86400 + t[i][1])
        if ENG.decide(s >= a):
            return z3.simplify(d + (s - a)*F(1/(86400 + t[i+1][1] - t[i][1])))
    return z3.simplify((s - F(t[i][1]))*F(Fraction(1, 86400)))


class Angle:
    def __init__(self, hours):
        self.hourangle = self.hour = hours
        self.deg = self.degree = hours*15


class _Meta(type):
    def __instancecheck__(cls, x):
        from astropy.time import Time
        return type.__instancecheck__(cls, x) or isinstance(x, Time)

    def __call__(cls, *a, **k):
        if any(ps.is_sym(x) or isinstance(x, symdt.SDT) for x in a):
            return type.__call__(cls, *a, **k)
        if a and type.__instancecheck__(cls, a[0]):
            return a[0]
        from astropy.time import Time
        return Time(*a, **k)

    def __getattr__(cls, n):
        from astropy.time import Time
        return getattr(Time, n)


class ATime(metaclass=_Meta):
    def __init__(self, val, val2=None, format=None, scale='utc', precision=None):
        self.scale = scale or 'utc'
        if self.scale not in ('utc', 'tai', 'tt', 'tdb'):
            raise ps.Unsupported(f"Time scale {scale}")
        if isinstance(val, symdt.SDT) or format == 'datetime':
            if self.scale != 'utc':
                raise ps.Unsupported('datetime in another scale')
            self.u = z3.simplify(F(Fraction(1, symdt.DAY_US))*z3.ToReal(ps._num(val.total)[1]) + symdt.UNIX_MJD)
            self._noleap()
            return
        v = symdt._rv(val) + (symdt._rv(val2) if val2 is not None else 0)
        if format == 'jd':
            v = v - F(JD0)
        elif format == 'unix':
            if self.scale != 'utc':
                raise ps.Unsupported('unix time in another scale')
            v = v*F(Fraction(1, 86400)) + symdt.UNIX_MJD
        elif format != 'mjd':
            raise ps.Unsupported(f"Time format {format}")
        self.u = z3.simplify(v)

    def _noleap(self):
        t = table()
        if ENG.decide(z3.Or(*[z3.And(self.u >= t[k][0] - 1, self.u < t[k][0]) for k in range(1, len(t))])):
            raise ps.Unsupported('calendar time on a day with a leap second')

    def _tai(self):
        if self.scale == 'utc':
            return utc_to_tai(self.u)
        s = self.u*86400
        if self.scale == 'tai':
            return z3.simplify(s)
        if self.scale == 'tdb':
            s = s - self._tdb(self.u)
        return z3.simplify(s - F(TT))

    @staticmethod
    def _tdb(u):
        e = ENG.fresh('tdb', z3.RealSort())
        ENG.add(z3.And(e >= F('-0.0017'), e <= F('0.0017')))
        return e

    def _to(self, scale):
        if scale == self.scale:
            return self
        s = self._tai()
        if scale == 'utc':
            m = tai_to_utc(s)
        elif scale == 'tai':
            m = s*F(Fraction(1, 86400))
        else:
            m = (s + F(TT))*F(Fraction(1, 86400))
            if scale == 'tdb':
                m = m + self._tdb(m)*F(Fraction(1, 86400))
        return _mk(scale, z3.simplify(m))

    utc = property(lambda self: self._to('utc'))
    tai = property(lambda self: self._to('tai'))
    tt = property(lambda self: self._to('tt'))
    tdb = property(lambda self: self._to('tdb'))

    @property
    def jd(self):
        return ps.fl(self.u + F(JD0))

    @property
    def mjd(self):
        return ps.fl(self.u)

    @property
    def unix(self):
        return ps.fl((self._to('utc').u - symdt.UNIX_MJD)*86400)

    @property
    def datetime(self):
        if self.scale == 'utc':
            self._noleap()
        return symdt.SDT.from_us(ps.sym_round(ps.SReal((self.u - symdt.UNIX_MJD)*symdt.DAY_US)))

    def to_datetime(self, timezone=None):
        d = self.datetime
        d.tzinfo = timezone
        return d

    def sidereal_time(self, kind, longitude=None):
        lon = 0 if longitude is None else float(longitude.to('hourangle').value) if hasattr(longitude, 'to') else None
        if lon is None:
            raise ps.Unsupported('longitude')
        k = (kind, z3.simplify(self._to('utc').u).get_id())
        g = ENG.defs.get(k)
        if g is None:
            g = ENG.vars['gast'] if 'gast' in ENG.vars else z3.Real('gast')
            ENG.vars['gast'] = g
            ENG.add(z3.And(g >= 0, g < 24))
            ENG.defs[k] = g
        if lon:
            raise ps.Unsupported('sidereal time elsewhere')
        return Angle(ps.SReal(g))

    def __sub__(self, o):
        return symdt.DeltaStub(None, _s=z3.simplify(self._tai() - _other(o)))

    def __rsub__(self, o):
        return symdt.DeltaStub(None, _s=z3.simplify(_other(o) - self._tai()))


def _mk(scale, m):
    t = object.__new__(ATime)
    t.scale, t.u = scale, m
    return t


def _other(o):
    if type(o) is ATime:
        return o._tai()
    from astropy.time import Time
    if isinstance(o, Time):
        t = o.tai
        return F(Fraction(t.jd1)*86400 + Fraction(t.jd2)*86400 - JD0*86400)
    raise ps.Unsupported('difference with something else')


# ------------------------------------------------------------- calendar, time

class STime:
    """The time module: conversions between UNIX seconds and calendar fields."""

    def __getattr__(self, n):
        import time
        f = getattr(time, n)
        return f

    @staticmethod
    def gmtime(t=None):
        import time
        if not ps.is_sym(t):
            return time.gmtime(t)
        if isinstance(t, ps.SReal):
            t = ps.sym_floor(t)
        d = symdt.SDT.from_us(t*10**6)
        w = (t // 86400 + 3) % 7
        yd = symdt.days_from_civil(d.year, d.month, d.day) - symdt.days_from_civil(d.year, 1, 1) + 1
        return (d.year, d.month, d.day, d.hour, d.minute, d.second, w, yd, 0)


def timegm(t):
    import calendar
    y, m, d, h, mi, s = tuple(t)[:6]
    if not any(map(ps.is_sym, (y, m, d, h, mi, s))):
        return calendar.timegm(t)
    return ((symdt.days_from_civil(y, m, d)*24 + h)*60 + mi)*60 + s
