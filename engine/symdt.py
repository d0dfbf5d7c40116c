"""Contract models of datetime and timedelta on symbolic values (proleptic
Gregorian calendar, microsecond resolution), and of astropy's Time."""

import datetime as _dt
import math
from fractions import Fraction

from . import pysym as ps
from .pysym import ENG, z3, SInt, SReal

DAY_US = 86400*10**6
UNIX_MJD = 40587


def days_from_civil(y, m, d):
    """Days since 1970-01-01 (month known or symbolic)."""
    if not ps.is_sym(m):
        y2 = y - (1 if m <= 2 else 0)
        mp = (m + 9) % 12
    else:
        y2 = ps.ite(m <= 2, y - 1, y)
        mp = ps.ite(m <= 2, m + 9, m - 3)
    era = y2 // 400
    yoe = y2 - era*400
    doy = (153*mp + 2)//5 + d - 1
    doe = yoe*365 + yoe//4 - yoe//100 + doy
    return era*146097 + doe - 719468


def month_len(y, m):
    leap = ps.land(y % 4 == 0, ps.lor(ps.lnot(y % 100 == 0), y % 400 == 0))
    if not ps.is_sym(m):
        if m == 2:
            return ps.ite(leap, 29, 28)
        return 30 if m in (4, 6, 9, 11) else 31
    return ps.ite(m == 2, ps.ite(leap, 29, 28), ps.ite(ps.lor(m == 4, m == 6, m == 9, m == 11), 30, 31))


class STD:
    """timedelta: a number of microseconds."""

    def __init__(self, us):
        self.us = us

    @property
    def days(self):
        return self.us // DAY_US

    @property
    def seconds(self):
        return (self.us % DAY_US) // 10**6

    @property
    def microseconds(self):
        return self.us % 10**6

    def total_seconds(self):
        return ps.to_float(self.us)/1e6 if ps.is_sym(self.us) else self.us/1e6

    def _us(o):
        if isinstance(o, STD):
            return o.us
        if isinstance(o, _dt.timedelta):
            return o.days*DAY_US + o.seconds*10**6 + o.microseconds
        return None

    def __add__(self, o):
        u = STD._us(o)
        if u is None:
            return NotImplemented
        return STD(self.us + u)
    __radd__ = __add__

    def __sub__(self, o):
        u = STD._us(o)
        return NotImplemented if u is None else STD(self.us - u)

    def __neg__(self):
        return STD(-self.us)

    def __mul__(self, k):
        return STD(self.us*k)
    __rmul__ = __mul__

    def __eq__(self, o):
        return self.us == STD._us(o)

    def __lt__(self, o):
        return self.us < STD._us(o)

    def __le__(self, o):
        return self.us <= STD._us(o)

    def __gt__(self, o):
        return self.us > STD._us(o)

    def __ge__(self, o):
        return self.us >= STD._us(o)

    def __hash__(self):
        return 1


class SDT:
    """datetime: civil fields, each possibly symbolic; UTC or naive."""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, _check=True):
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo = tzinfo
        if _check:
            for v, lo, hi in ((year, 1, 9999), (month, 1, 12), (day, 1, month_len(year, month)), (hour, 0, 23), (minute, 0, 59),
                              (second, 0, 59), (microsecond, 0, 999999)):
                if not isinstance(v, (int, SInt)):
                    raise TypeError('integer argument expected, got float')
                if not ps.land(v >= lo, v <= hi):
                    raise ValueError('field out of range')

    @property
    def total(self):
        """Microseconds since 1970-01-01T00:00:00."""
        d = days_from_civil(self.year, self.month, self.day)
        return ((d*24 + self.hour)*60 + self.minute)*60*10**6 + self.second*10**6 + self.microsecond

    @classmethod
    def from_us(cls, us, tz=None):
        """The civil date and time `us` microseconds after the epoch (contract:
        the unique valid fields that add up to it)."""
        if not ps.is_sym(us):
            t = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=us)
            return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, tz)
        day, rem = us // DAY_US, us % DAY_US
        lo = (_dt.date(1, 1, 1) - _dt.date(1970, 1, 1)).days
        hi = (_dt.date(9999, 12, 31) - _dt.date(1970, 1, 1)).days
        if ps.lor(day < lo, day > hi):
            raise OverflowError('date value out of range')
        if Contract.fork_days:
            t = _dt.date(1970, 1, 1) + _dt.timedelta(days=ENG.concretise(day.t) if ps.is_sym(day) else day)
            return cls(t.year, t.month, t.day, rem // (3600*10**6), (rem // (60*10**6)) % 60, (rem // 10**6) % 60, rem % 10**6, tz, _check=False)
        y, m, d = (ps.SInt(ENG.fresh(n, z3.IntSort())) for n in ('year', 'month', 'day'))
        ENG.add(z3.And(y.t >= 1, y.t <= 9999, m.t >= 1, m.t <= 12, d.t >= 1))
        ENG.add(ps.tb(d <= month_len(y, m)))
        ENG.add(ps.tb(days_from_civil(y, m, d) == day))
        return cls(y, m, d, rem // (3600*10**6), (rem // (60*10**6)) % 60, (rem // 10**6) % 60, rem % 10**6, tz, _check=False)

    def astimezone(self, tz=None):
        if tz is _dt.timezone.utc or (tz is not None and getattr(tz, 'zone', '') == 'UTC'):
            r = self.replace(tzinfo=tz)
            return r
        raise ps.Unsupported('time zones other than UTC')

    def replace(self, **k):
        f = {n: getattr(self, n) for n in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')}
        f.update(k)
        return SDT(**f, _check=bool(set(k) - {'tzinfo'}))

    def _other(self, o):
        if isinstance(o, SDT):
            return o.total
        if isinstance(o, _dt.datetime):
            d = o.replace(tzinfo=None) - _dt.datetime(1970, 1, 1)
            return d.days*DAY_US + d.seconds*10**6 + d.microseconds
        return None

    def __add__(self, o):
        u = STD._us(o)
        if u is None:
            return NotImplemented
        return SDT.from_us(self.total + u, self.tzinfo)
    __radd__ = __add__

    def __sub__(self, o):
        u = STD._us(o)
        if u is not None:
            return SDT.from_us(self.total - u, self.tzinfo)
        t = self._other(o)
        if t is None:
            return NotImplemented
        return STD(self.total - t)

    def __rsub__(self, o):
        return STD(self._other(o) - self.total)

    def __eq__(self, o):
        t = self._other(o)
        return False if t is None else self.total == t

    def __lt__(self, o):
        return self.total < self._other(o)

    def __le__(self, o):
        return self.total <= self._other(o)

    def __gt__(self, o):
        return self.total > self._other(o)

    def __ge__(self, o):
        return self.total >= self._other(o)

    def __hash__(self):
        return 1

    def utcoffset(self):
        return None if self.tzinfo is None else _dt.timedelta(0)

    def strftime(self, f):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __format__(self, s):
        return '<sym>'

    def timetuple(self):
        raise ps.Unsupported('timetuple')

    def weekday(self):
        return (days_from_civil(self.year, self.month, self.day) + 3) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def timestamp(self):
        return ps.to_float(self.total)/1e6


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SDT, _dt.datetime))

    def __getattr__(cls, n):
        return getattr(_dt.datetime, n)

    def __call__(cls, *a, **k):
        if any(ps.is_sym(x) for x in a) or any(ps.is_sym(x) for x in k.values()):
            return SDT(*a, **k)
        return _dt.datetime(*a, **k)


class Datetime(metaclass=_DTMeta):
    @staticmethod
    def fromtimestamp(t, tz=None):
        if not ps.is_sym(t):
            return _dt.datetime.fromtimestamp(t, tz=tz)
        if tz is not None and tz is not _dt.timezone.utc:
            raise ps.Unsupported('time zone')
        # rounded to the nearest microsecond, ties to even
        if isinstance(t, SReal):
            us = ps.sym_round(ps.SReal(t.t*10**6))
        else:
            us = t*10**6
        return SDT.from_us(us, tz)
    utcfromtimestamp = fromtimestamp

    @staticmethod
    def combine(d, t):
        raise ps.Unsupported('combine')


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (STD, _dt.timedelta))

    def __getattr__(cls, n):
        return getattr(_dt.timedelta, n)

    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        vals = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(ps.is_sym(v) for v in vals):
            return _dt.timedelta(*vals)
        tot = 0
        exact = True
        for v, k in ((weeks, 7*DAY_US), (days, DAY_US), (hours, 3600*10**6), (minutes, 60*10**6), (seconds, 10**6), (milliseconds, 1000), (microseconds, 1)):
            if isinstance(v, SReal) or isinstance(v, float):
                exact = False
                x = ps.SReal(v.t*k) if isinstance(v, SReal) else ps.SReal(ps._frac(Fraction(v)*k))
            else:
                x = v*k
            if isinstance(tot, SReal) or isinstance(x, SReal):
                tot = ps.SReal(ps._real(ps._num(tot)[1]) + ps._real(ps._num(x)[1]))
            else:
                tot = tot + x
        if not exact:
            tot = ps.sym_round(tot)
        return STD(tot)


class Timedelta(metaclass=_TDMeta):
    pass


# ------------------------------------------------------------- astropy Time

class Contract:
    """What we rely on from astropy: conversions and differences are right to
    EPS seconds (two doubles of days: about 1e-11 s)."""
    EPS = Fraction(3, 10**11)       # sums and differences (by way of TAI)
    EPSC = Fraction(73, 10**13)      # construction: one rounding of the day fraction
    EPSI = Fraction(73, 10**13)      # whole seconds
    leap = False                    # inside a leap-second day: TAI seconds are longer by 86401/86400
    fork_days = False               # one path for each calendar day (where few are possible)
    leaps = False                   # count the leap seconds between instants (times from 2000 on)


# the instants (UTC seconds since 1970) from which TAI-UTC is one second more
LEAPS = [int(_dt.datetime(y, m, 1, tzinfo=_dt.timezone.utc).timestamp()) for y, m in ((2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1))]


def _tai(sec):
    if not Contract.leaps:
        return sec
    r = sec
    for b in LEAPS:
        r = r + z3.If(sec >= b, z3.RealVal(1), z3.RealVal(0))
    return r


def _utc(tai):
    if not Contract.leaps:
        return tai
    r = tai
    for k, b in enumerate(LEAPS):
        r = r - z3.If(tai >= b + k + 1, z3.RealVal(1), z3.RealVal(0))
    return r


def _fuzz(t, eps=None):
    if not ENG.float_err:
        return t
    eps = Contract.EPS if eps is None else eps
    t = z3.simplify(t)
    k = ('ap', t.get_id())
    if k in ENG.defs:
        return ENG.defs[k]
    r = ENG.fresh('ap', z3.RealSort())
    ENG.add(z3.And(r >= t - ps._frac(eps), r <= t + ps._frac(eps)))
    ENG.errs.append(r == t)
    ENG.defs[k] = r
    ENG.defs[('keep', t.get_id())] = t
    return r


def _rv(x):
    n = ps._num(x)
    if n is None:
        raise TypeError('not a number')
    return ps._real(n[1])


def _zero(x):
    return (isinstance(x, float) and x == 0) or (isinstance(x, SReal) and z3.is_rational_value(z3.simplify(x.t)) and z3.simplify(x.t == 0).eq(z3.BoolVal(True)))


class TimeStub:
    """astropy.time.Time as an exact number of UTC seconds since 1970 (days of
    86400 s: no leap second inside the span of one computation)."""

    def __init__(self, val, val2=None, format=None, scale=None, _sec=None):
        if _sec is not None:
            self.sec = _sec
            return
        v2 = 0 if val2 is None else val2
        if isinstance(val, TimeStub):
            self.sec = val.sec
            return
        if format == 'unix':
            whole = isinstance(val, (int, ps.SInt)) and (isinstance(v2, (int, ps.SInt)) or _zero(v2))
            self.sec = _fuzz(_rv(val) + _rv(v2), Contract.EPSI if whole else Contract.EPSC)
        elif format == 'mjd':
            self.sec = _fuzz(z3.simplify((_rv(val) + _rv(v2) - UNIX_MJD)*86400), Contract.EPSC)
        elif format == 'jd':
            self.sec = _fuzz(z3.simplify((_rv(val) + _rv(v2) - UNIX_MJD - ps._frac(Fraction('2400000.5')))*86400), Contract.EPSC)
        elif isinstance(val, str):
            d, _, h = val.replace('T', ' ').partition(' ')
            y, mo, dd = (int(x) for x in d.split('-'))
            hh, mm, ss = (h or '0:0:0').split(':')
            self.sec = z3.RealVal(str(Fraction(int(_dt.datetime(y, mo, dd, int(hh), int(mm), tzinfo=_dt.timezone.utc).timestamp())) + Fraction(ss)))
        else:
            raise ps.Unsupported(f"Time format {format}")
        if scale not in (None, 'utc'):
            raise ps.Unsupported(f"Time scale {scale}")

    @property
    def unix(self):
        return ps.fl(self.sec)

    @property
    def mjd(self):
        return ps.fl(self.sec/86400 + UNIX_MJD)

    @property
    def jd(self):
        return ps.fl(self.sec/86400 + UNIX_MJD + ps._frac(Fraction('2400000.5')))

    def _split(self):
        # jd1 is the whole number (or .5) nearest; jd2 the rest, |jd2| <= 1/2
        t = z3.simplify(self.sec/86400 + UNIX_MJD + ps._frac(Fraction('2400000.5')))
        k = ENG.defs.get(('jd1', t.get_id()))
        if k is None:
            k = ENG.fresh('jd1', z3.IntSort())
            h = ps._frac(Fraction(1, 2))
            ENG.add(z3.And(z3.ToReal(k) <= t + h, z3.ToReal(k) >= t - h))
            ENG.defs[('jd1', t.get_id())] = k
            ENG.defs[('keep', t.get_id())] = t
        return k, t

    @property
    def jd1(self):
        k, t = self._split()
        return ps.SReal(z3.ToReal(k), True)

    @property
    def jd2(self):
        k, t = self._split()
        return ps.SReal(z3.simplify(t - z3.ToReal(k)))

    @property
    def datetime(self):
        return SDT.from_us(ps.sym_round(ps.SReal(self.sec*10**6)))

    @property
    def utc(self):
        return self

    def to_datetime(self, timezone=None):
        d = self.datetime
        d.tzinfo = timezone
        return d

    def __add__(self, o):
        if isinstance(o, DeltaStub):
            return TimeStub(None, _sec=_fuzz(z3.simplify(_utc(_tai(self.sec) + o.s))))
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, DeltaStub):
            return TimeStub(None, _sec=_fuzz(z3.simplify(_utc(_tai(self.sec) - o.s))))
        if isinstance(o, TimeStub):
            k = ps._frac(Fraction(86401, 86400)) if Contract.leap else 1
            return DeltaStub(None, _s=_fuzz(z3.simplify((_tai(self.sec) - _tai(o.sec))*k)))
        return NotImplemented

    def _cmp(op):
        def f(self, o):
            if not isinstance(o, TimeStub):
                return NotImplemented
            return ps.mkbool({'lt': self.sec < o.sec, 'le': self.sec <= o.sec, 'gt': self.sec > o.sec, 'ge': self.sec >= o.sec,
                              'eq': self.sec == o.sec, 'ne': self.sec != o.sec}[op])
        return f
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = list(map(_cmp, ('lt', 'le', 'gt', 'ge', 'eq', 'ne')))
    __hash__ = None

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self


class DeltaStub:
    def __init__(self, val, val2=None, format=None, scale=None, _s=None):
        if _s is not None:
            self.s = _s
            return
        if isinstance(val, DeltaStub):
            self.s = val.s
            return
        if isinstance(val, (STD, _dt.timedelta)):
            self.s = z3.simplify(ps._real(ps._num(STD._us(val))[1])/10**6)
            return
        v = _rv(val) + (_rv(val2) if val2 is not None else 0)
        if format == 'sec':
            self.s = v
        elif format in ('jd', None):
            self.s = v*86400
        else:
            raise ps.Unsupported(f"TimeDelta format {format}")
        self.s = z3.simplify(self.s)

    @property
    def sec(self):
        return ps.fl(self.s)

    @property
    def jd(self):
        return ps.fl(self.s/86400)

    def __neg__(self):
        return DeltaStub(None, _s=-self.s)

    def __add__(self, o):
        if isinstance(o, DeltaStub):
            return DeltaStub(None, _s=_fuzz(self.s + o.s))
        if isinstance(o, TimeStub):
            return o + self
        return NotImplemented
