from props.base import P

A = 'lsl/astro.py'
PYR = 'symbolic execution of the Python code on proxy numbers; float rounding as bounded relative error; z3 decides every obligation'
P('A01', 'Angles survive every conversion between degrees, radians, dms and hms',
  "deg_to_dms, rad_to_dms, deg_to_hms, rad_to_hms give parts in range (minutes and seconds below 60, hours below 24) that add up to the angle given, hours up to whole turns of either sign; dms and hms objects convert to the degrees, radians, seconds and the other form they stand for, the sign included; out of range parts are refused and others kept; -dms, add_secs_hms, add_hms and += give the exact sum modulo 24 h, the latter two in the object added to, leaving the other as it was; dms, hms and numbers compare by the angle. range_degrees and range_hours return the same direction within one turn; hrz_to_nswe names the quadrant of the azimuth. Horizontal, equatorial, galactic, ecliptic and geographic positions keep the longitude and latitude they are given as numbers, dms or hms objects, by argument, attribute or index, refuse those out of range, compare equal exactly when all coordinates are, and format() gives the same position.",
  ['inputs'], 'every angle, every triple of parts, every longitude and latitude',
  'the tests convert a handful of round angles; the failures are at doubles next to whole minutes, negative angles and sums past 24 h',
  [A], [('_float_to_sexa, deg_to_dms, deg_to_hms, dms_to_deg, hms_to_deg, add_hms, range_degrees, range_hours', A), ('dms, hms, hrz_posn, equ_posn, gal_posn, ecl_posn, geo_posn', A)],
  tech=PYR, note='Agreement to 1e-9 degrees; transformations between frames are astropy\'s and not claimed')
P('A02', 'Calendar dates, Julian days and time scales name the same instant',
  "get_julian_day and date.to_jd give the Julian day of the date, get_date the date of a Julian day with all fields in range, get_day_of_week the right day at any time of day; date_to_zonedate and zonedate_to_date (to_zone, to_date) shift by exactly the offset from UTC with valid fields and leave their argument as it was; zonedate.to_jd is the UTC Julian day; dates and zonedates compare by instant; fields out of range are refused. leap_secs is TAI-UTC at every time from 1972 on and refuses earlier ones; utc_to_tai, tai_to_utc, utcjd_to_taimjd, taimjd_to_utcjd, utc_to_tt, tt_to_utc, tai_to_tt, tt_to_tai differ by exactly the leap seconds and 32.184 s; tt_to_tdb stays within 2 ms; unix_to_utcjd, utcjd_to_unix, unix_to_taimjd, taimjd_to_unix, get_julian_from_timet, get_timet_from_julian agree with UNIX time; jd_to_mjd and mjd_to_jd differ by 2400000.5.",
  ['inputs'], 'every date, Julian day, UNIX time and offset from UTC from 1972 to 2100',
  'the tests convert a few fixed dates; the failures are at midnight, just before a whole second, around leap seconds and at month ends in another time zone',
  [A], [('get_julian_day, get_date, get_day_of_week, date_to_zonedate, zonedate_to_date, date, zonedate', A), ('leap_secs, utc_to_tai, tai_to_utc, tt_to_utc, utcjd_to_unix, tt_to_tdb', A)],
  tech=PYR, note='Agreement to 0.1 ms (a Julian day in a double resolves 0.04 ms); days that end with a leap second only for leap_secs (astropy stretches them)')
