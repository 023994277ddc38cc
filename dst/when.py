"""What a lock or a refund time given by a user means: written from the documentation, independent of the library."""
import calendar
import datetime
import re
from fractions import Fraction

UNIT = {'s': 1, 'm': 60, 'h': 3600, 'd': 86400, 'w': 604800, 'M': 2628000, 'Y': 31536000}
ZONES = {'UTC': 0, 'XST-5:30': 19800, 'YST8': -28800, 'ZST-14': 50400}


def seconds(text):
    """'1d2h3m4s', '1.5h' or a plain number of seconds"""
    t = text.replace(' ', '').replace("'", '').replace('"', '').lstrip('+')
    if re.fullmatch(r'\d+', t):
        return int(t)
    total = Fraction(0)
    for n, u in re.findall(r'([\d.]+)([a-zA-Z])', t):
        total += Fraction(n) * UNIT[u]
    return int(total)


def east(tz):
    return ZONES[tz or 'UTC']


def calendar_time(text, now, off):
    """a calendar date (and time) in local time"""
    t = text.replace("'", '').replace('"', '').strip()
    day, _, clock = t.partition(' ')
    p = day.split('/')
    if len(p) == 2:
        y = (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=now + off)).year
        mo, d = int(p[0]), int(p[1])
    elif len(p[0]) == 4:
        y, mo, d = int(p[0]), int(p[1]), int(p[2])
    elif len(p[2]) == 4:
        d, mo, y = int(p[0]), int(p[1]), int(p[2])
    else:
        y, mo, d = int(p[0]), int(p[1]), int(p[2])
        y += 1900 if y >= 69 else 2000
    h = mi = s = 0
    if clock:
        c = clock.strip().lower().split(':')
        half = None
        if c[0][-2:] in ('am', 'pm'):
            half, c[0] = c[0][-2:], c[0][:-2]
        h, mi = int(c[0]), int(c[1])
        s = int(c[2]) if len(c) > 2 else 0
        if half:
            h = h % 12 + (12 if half == 'pm' else 0)
    return calendar.timegm((y, mo, d, h, mi, s)) - off


def ranges(lock, lo, hi, off, base=None):
    """the values a lock may get: [(from, to)], for a local clock between lo and hi;
    base: what '+' durations count from, if not the local clock"""
    if isinstance(lock, bool) or isinstance(lock, int):
        return [(lock, lock)]
    if isinstance(lock, dict):
        if '$td' in lock:
            n = int(Fraction(str(lock['$td'])))
            return [(lo + n, hi + n)]
        if 'off' in lock:
            v = calendar.timegm(tuple(lock['$dt']) + (0,) * (6 - len(lock['$dt']))) - lock['off'] * 60
        else:
            v = calendar.timegm(tuple(lock['$dt']) + (0,) * (6 - len(lock['$dt']))) - off
        return [(v, v)]
    t = lock.strip()
    if t.startswith('+'):
        n = seconds(t)
        return [(x + n, x + n) for x in base] if base is not None else [(lo + n, hi + n)]
    if t.startswith('-'):
        n = seconds(t[1:])
        return [(lo - n, hi - n)]
    return [(v, v) for v in sorted({calendar_time(t, x, off) for x in (lo, hi)})]


def show(ts, form, off):
    """a calendar text for an instant"""
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ts + off)
    day = ['%d/%02d/%02d' % (d.year, d.month, d.day), '%d/%d/%d' % (d.year, d.month, d.day), '%02d/%02d/%d' % (d.day, d.month, d.year),
           '%02d/%02d/%02d' % (d.year % 100, d.month, d.day), '%02d/%02d' % (d.month, d.day)][form % 5]
    k = (form // 5) % 5
    if k == 0:
        return day
    h12 = '%02d%s' % (d.hour % 12 or 12, 'am' if d.hour < 12 else 'pm')
    return day + ' ' + ['%02d:%02d' % (d.hour, d.minute), '%02d:%02d:%02d' % (d.hour, d.minute, d.second),
                        '%s:%02d' % (h12, d.minute), '%s:%02d:%02d' % (h12, d.minute, d.second)][k - 1]
