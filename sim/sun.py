"""
An independent computation of sunset (NOAA solar calculator formulas, after
Meeus' low accuracy sun), used as an oracle; nothing is taken from the package.
"""
from math import (sin, cos, tan, asin, acos, atan2, radians as rad,
                  degrees as deg, floor)

UNIX_JD = 2440587.5


def sun(jd):
    """-> declination (degrees), equation of time (minutes)"""
    t = (jd - 2451545.0) / 36525
    l0 = (280.46646 + t * (36000.76983 + t * 0.0003032)) % 360
    m = 357.52911 + t * (35999.05029 - 0.0001537 * t)
    e = 0.016708634 - t * (0.000042037 + 0.0000001267 * t)
    c = (sin(rad(m)) * (1.914602 - t * (0.004817 + 0.000014 * t)) +
         sin(rad(2 * m)) * (0.019993 - 0.000101 * t) +
         sin(rad(3 * m)) * 0.000289)
    om = 125.04 - 1934.136 * t
    lam = l0 + c - 0.00569 - 0.00478 * sin(rad(om))
    eps0 = 23 + (26 + (21.448 - t * (46.815 + t * (
        0.00059 - t * 0.001813))) / 60) / 60
    eps = eps0 + 0.00256 * cos(rad(om))
    decl = deg(asin(sin(rad(eps)) * sin(rad(lam))))
    y = tan(rad(eps / 2)) ** 2
    eot = 4 * deg(y * sin(2 * rad(l0)) - 2 * e * sin(rad(m)) +
                  4 * e * y * sin(rad(m)) * cos(2 * rad(l0)) -
                  0.5 * y * y * sin(4 * rad(l0)) -
                  1.25 * e * e * sin(2 * rad(m)))
    return decl, eot


def sunset_near(ts, lat, lon):
    """
    The sunset (POSIX seconds) nearest to ts, or None in polar conditions.
    Universal time; the slow drift of the earth's rotation is ignored.
    """
    best = None
    day0 = floor(ts / 86400 + lon / 360.0)

    for d in (day0 - 1, day0, day0 + 1):
        s = sunset_of(d, lat, lon)
        if s is not None and (best is None or abs(s - ts) < abs(best - ts)):
            best = s

    return best


def sunset_of(day, lat, lon):
    """Sunset of the solar day (days since 1970, local mean time)."""
    t = day * 86400 + (0.75 - lon / 360.0) * 86400

    for _ in range(4):
        decl, eot = sun(t / 86400 + UNIX_JD)
        x = (cos(rad(90.833)) / (cos(rad(lat)) * cos(rad(decl))) -
             tan(rad(lat)) * tan(rad(decl)))

        if not -1 < x < 1:
            return None

        ha = deg(acos(x))
        minutes = 720 + 4 * ha - 4 * lon - eot
        t = day * 86400 + minutes * 60

    return t
