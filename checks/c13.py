# -*- coding: utf-8 -*-
"""C13: ISO 8601 dates, times, time points and durations, against java.time and integer arithmetic."""
import itertools
import mclib

from java.time import LocalDate, DateTimeException
from java.time.temporal import IsoFields, ChronoField, ChronoUnit
from java.util import GregorianCalendar, TimeZone
from java.lang import Long, Throwable

import pyslet.iso8601 as iso
from pyslet.iso8601 import Date, Time, TimePoint, Duration, Truncation, Precision, DateTimeError

EPOCH = LocalDate.of(1, 1, 1).toEpochDay()
LAST = LocalDate.of(9999, 12, 31).toEpochDay() - EPOCH + 1
T = Truncation


def failure(err):
    return '%s: %s' % (err.__class__.__name__, err)


def attempt(fn):
    """(value, None) or (None, failure)"""
    try:
        return fn(), None
    except mclib.StopExploring:
        raise
    except Exception, err:
        return None, failure(err)


def rejected(fail):
    """Refusing a value means DateTimeError, or another ValueError from the parser"""
    return fail is not None and (fail.startswith('DateTimeError') or fail.startswith('RFCSyntaxError') or fail.startswith('ValueError'))


# ------------------------------------------------------------------ days
def jdate(n):
    return LocalDate.ofEpochDay(EPOCH + n - 1)


def facts(n):
    """Everything about day n: calendar, ordinal, week tuples"""
    d = jdate(n)
    y = d.getYear()
    wy = d.get(IsoFields.WEEK_BASED_YEAR)
    return ((y // 100, y % 100, d.getMonthValue(), d.getDayOfMonth()),
            (y // 100, y % 100, d.getDayOfYear()),
            (wy // 100, wy % 100 // 10, wy % 10, d.get(IsoFields.WEEK_OF_WEEK_BASED_YEAR), d.getDayOfWeek().getValue()))


PURE = GregorianCalendar(TimeZone.getTimeZone('UTC'))


def julian(n):
    return (PURE.get(1), PURE.get(2) + 1, PURE.get(5))


def windows(ctx):
    if ctx.thorough:
        spans = [(1, 9999)]
    else:
        spans = [(1, 5), (99, 101), (399, 401), (1581, 1583), (1899, 1901), (1998, 2026), (2099, 2101), (2399, 2401), (9998, 9999)]
    for a, b in spans:
        for y in range(a, b + 1):
            yield y


STRINGS = [
    ('YYYY-MM-DD', lambda d: d.GetCalendarString(), lambda c, o, w: '%02i%02i-%02i-%02i' % c),
    ('YYYYMMDD', lambda d: d.GetCalendarString(True), lambda c, o, w: '%02i%02i%02i%02i' % c),
    ('YYYY-DDD', lambda d: d.GetOrdinalString(), lambda c, o, w: '%02i%02i-%03i' % o),
    ('YYYYDDD', lambda d: d.GetOrdinalString(True), lambda c, o, w: '%02i%02i%03i' % o),
    ('YYYY-Www-D', lambda d: d.GetWeekString(), lambda c, o, w: '%02i%i%i-W%02i-%i' % w),
    ('YYYYWwwD', lambda d: d.GetWeekString(True), lambda c, o, w: '%02i%i%iW%02i%i' % w),
]


def days(ctx):
    """Every day: each representation of it is right and leads back to it."""
    from java.util import Date as JDate
    PURE.setGregorianChange(JDate(Long.MAX_VALUE))
    years = list(windows(ctx))
    ctx.bounds['years of which every day is checked'] = len(years)
    for y in years:
        if not ctx.mine():
            continue
        ctx.case({'part': 'days', 'year': y})
        first = LocalDate.of(y, 1, 1).toEpochDay() - EPOCH + 1
        prev = None
        for n in range(first, first + LocalDate.of(y, 1, 1).lengthOfYear()):
            c, o, w = facts(n)
            key = 'day|%04i-%02i-%02i' % (y, c[2], c[3])
            ctx.transitions += 1
            try:
                d = Date(absoluteDay=n)
                ctx.check(d.GetCalendarDay() == c, key, 'day %i is %r' % (n, d.GetCalendarDay()))
                ctx.check(d.GetOrdinalDay() == o, key, 'ordinal day %r' % (d.GetOrdinalDay(),))
                ctx.check(d.GetWeekDay() == w, key, 'week day %r, not %r' % (d.GetWeekDay(), w))
                ctx.check(d.GetAbsoluteDay() == n, key, 'day %i, not %i' % (d.GetAbsoluteDay(), n))
                ctx.check(bool(d.LeapYear()) == LocalDate.of(y, 1, 1).isLeapYear(), key, 'leap year')
                ctx.check(d.Complete() and d.GetPrecision() == Precision.Complete, key, 'precision')
                same = [Date(century=c[0], year=c[1], month=c[2], day=c[3]), Date(century=o[0], year=o[1], ordinalDay=o[2]), Date(d)]
                inside = 0 < w[0] * 100 + w[1] * 10 + w[2] < 10000
                if inside:
                    same.append(Date(century=w[0], decade=w[1], year=w[2], week=w[3], weekday=w[4]))
                for fmt, get, ref in STRINGS:
                    s = get(d)
                    if 'W' in fmt and not inside:
                        continue
                    ctx.check(s == ref(c, o, w), key + '|' + fmt, '%s is written %r' % (fmt, s))
                    e, f = Date.FromStringFormat(s)
                    ctx.check(f == fmt, key + '|' + fmt, '%r read as %s' % (s, f))
                    same.append(e)
                PURE.setTimeInMillis((EPOCH + n - 1) * 86400000L)
                j = d.GetJulianDay()
                if n > 2 or PURE.get(0) == 1:
                    if PURE.get(0) == 1:
                        ctx.check(j == julian(n), key, 'Julian date %r, not %r' % (j, julian(n)))
                        same.append(Date.FromJulian(*j))
                for e in same:
                    ctx.check(e == d and hash(e) == hash(d) and e.GetCalendarDay() == c and not e < d and not e > d, key, '%r is not %r' % (e, d))
                if prev is not None:
                    ctx.check(prev < d and d > prev and prev != d, key, 'order of %s and %s' % (prev, d))
                    ctx.check(d.Offset(days=-1) == prev and prev.Offset(days=1) == d, key, 'one day from %s' % prev)
                st = [0] * 9
                d.UpdateStructTime(st)
                ctx.check(st == [y, c[2], c[3], 0, 0, 0, w[4] - 1, o[2], 0] and Date.FromStructTime(st) == d, key, 'struct time %r' % st)
                prev = d
            except mclib.StopExploring:
                raise
            except Exception, err:
                ctx.violation(key, failure(err))
        ctx.state((y, LocalDate.of(y, 1, 1).isLeapYear(), facts(first)[2][4]))


def validdates(ctx):
    """Exactly the days that exist can be constructed or read."""
    years = [1, 4, 99, 100, 1900, 1999, 2000, 2004, 2005, 2009, 2015, 2020, 9999]
    if ctx.thorough:
        years += range(1970, 2040)
    for y in years:
        if not ctx.mine():
            continue
        ctx.case({'part': 'valid', 'year': y})
        c, yy = y // 100, y % 100
        leap = LocalDate.of(y, 1, 1).isLeapYear()

        def tryout(kind, kw, text, ok):
            ctx.transitions += 1
            for what, fn in (('', lambda: Date(**kw)), ('text', lambda: Date.FromString(text))):
                v, fail = attempt(fn)
                key = 'valid|%s|%s|%s' % (kind, text, what)
                if ok:
                    ctx.check(fail is None, key, '%s is refused: %s' % (text, fail))
                elif ctx.check(fail is not None, key, '%s, which does not exist, is %r' % (text, v)):
                    ctx.check(rejected(fail), key, '%s is refused with %s' % (text, fail))
                ctx.outcome((kind, ok, fail and fail.split(':')[0]))
        for m in range(0, 14):
            for d in range(0, 33):
                ok = 1 <= m <= 12 and 1 <= d <= LocalDate.of(y, m, 1).lengthOfMonth()
                tryout('calendar', dict(century=c, year=yy, month=m, day=d), '%04i-%02i-%02i' % (y, m, d), ok)
            tryout('month', dict(century=c, year=yy, month=m), '%04i-%02i' % (y, m), 1 <= m <= 12)
        for o in range(0, 370):
            tryout('ordinal', dict(century=c, year=yy, ordinalDay=o), '%04i-%03i' % (y, o), 1 <= o <= 365 + leap)
        weeks = LocalDate.of(y, 6, 1).range(IsoFields.WEEK_OF_WEEK_BASED_YEAR).getMaximum()
        for w in range(0, 55):
            tryout('week', dict(century=c, decade=yy // 10, year=yy % 10, week=w), '%04i-W%02i' % (y, w), 1 <= w <= weeks)
            for d in range(0, 9):
                ok = 1 <= w <= weeks and 1 <= d <= 7
                if ok and y == 1 and False or y == 9999 and w == weeks:
                    continue            # runs over the end of the calendar
                tryout('weekday', dict(century=c, decade=yy // 10, year=yy % 10, week=w, weekday=d), '%04i-W%02i-%i' % (y, w, d), ok)
    for n in [0, -1, -400, LAST + 1, LAST + 400]:
        if not ctx.mine():
            continue
        ctx.case({'part': 'valid', 'absolute': n})
        v, fail = attempt(lambda: Date(absoluteDay=n))
        ctx.check(rejected(fail), 'valid|absolute|%i' % n, 'day %i: %r, %s' % (n, v, fail))
    # text that is not a date
    good = ['1969-07-20', '19690720', '1969-201', '1969201', '1969-W29-7', '1969W297', '1969-07', '1969', '19', '1969-W29', '1969W29']
    wrong = []
    for g in good:
        for x in 'a', '-', ' ', 'T', 'W', ':', 'Z', '.5':
            wrong.append(g + x)
        for i in range(len(g)):
            for x in 'a- W:':
                if g[i] != x:
                    wrong.append(g[:i] + x + g[i + 1:])
    wrong += ['', '-', '--', '---', '1', '196', '1969-0', '1969-W', '1969-W2', '1969-W29-', '1969-07-2', '1969-0720', '196907-20', '1969W29-7', '1969-W297', '19690']
    import re
    ISO = re.compile(r'(\d\d|\d{4}|\d{4}-\d\d|\d{8}|\d{4}-\d\d-\d\d|\d{7}|\d{4}-\d{3}|\d{4}-?W\d\d|\d{4}W\d{3}|\d{4}-W\d\d-\d)$')
    base = Date(century=19, year=60, month=1, day=1)
    TRUNC = re.compile(r'(\d{6}|\d\d-\d\d-\d\d|-\d{4}|-\d\d-\d\d|-\d\d|--\d\d-?\d\d|--\d\d|---\d\d|\d{5}|\d\d-\d{3}|-\d{3}|\d\dW\d\d\d?|\d\d-W\d\d(-\d)?|-\dW\d\d\d?|-\d-W\d\d(-\d)?|--W\d\d|-W\d\d\d?|-W\d\d-\d|-W-\d)$')
    for s in sorted(set(wrong)):
        if not ctx.mine():
            continue
        ctx.case({'part': 'text', 'text': s})
        ctx.transitions += 1
        for b in None, base:
            if ISO.match(s) or b is not None and TRUNC.match(s):
                continue
            v, fail = attempt(lambda: Date.FromString(s, b))
            if ctx.check(fail is not None, 'text|%s' % s, '%r is read as the date %r' % (s, v)):
                ctx.check(rejected(fail), 'text|%s' % s, '%r is refused with %s' % (s, fail))


# ------------------------------------------------------------------ truncated forms
def truncated(ctx):
    """A truncated date is the first one on or after the base that it describes."""
    def cal(n):
        return facts(n)[0]
    FORMS = [
        # name, years to search, period (the part taken from the base), key of a day, texts
        ('YYMMDD', 100, lambda c, o, w: c[0], lambda c, o, w: c[1:], lambda d: [(d.GetCalendarString(True, T.Century), 'YYMMDD'), (d.GetCalendarString(False, T.Century), 'YY-MM-DD')]),
        ('MMDD', 9, lambda c, o, w: c[0] * 100 + c[1], lambda c, o, w: c[2:], lambda d: [(d.GetCalendarString(True, T.Year), '--MMDD'), (d.GetCalendarString(False, T.Year), '--MM-DD')]),
        ('DD', 1, lambda c, o, w: (c[0] * 100 + c[1]) * 12 + c[2], lambda c, o, w: c[3:], lambda d: [(d.GetCalendarString(True, T.Month), '---DD'), (d.GetCalendarString(False, T.Month), '---DD')]),
        ('YYDDD', 100, lambda c, o, w: c[0], lambda c, o, w: o[1:], lambda d: [(d.GetOrdinalString(True, T.Century), 'YYDDD'), (d.GetOrdinalString(False, T.Century), 'YY-DDD')]),
        ('DDD', 9, lambda c, o, w: c[0] * 100 + c[1], lambda c, o, w: o[2:], lambda d: [(d.GetOrdinalString(True, T.Year), '-DDD'), (d.GetOrdinalString(False, T.Year), '-DDD')]),
        ('YYWwwD', 100, lambda c, o, w: w[0], lambda c, o, w: w[1:], lambda d: [(d.GetWeekString(True, T.Century), 'YYWwwD'), (d.GetWeekString(False, T.Century), 'YY-Www-D')]),
        ('YWwwD', 20, lambda c, o, w: w[0] * 10 + w[1], lambda c, o, w: w[2:], lambda d: [(d.GetWeekString(True, T.Decade), '-YWwwD'), (d.GetWeekString(False, T.Decade), '-Y-Www-D')]),
        ('WwwD', 9, lambda c, o, w: w[0] * 100 + w[1] * 10 + w[2], lambda c, o, w: w[3:], lambda d: [(d.GetWeekString(True, T.Year), '-WwwD'), (d.GetWeekString(False, T.Year), '-Www-D')]),
        ('D', 1, lambda c, o, w: (w[0] * 100 + w[1] * 10 + w[2], w[3]), lambda c, o, w: w[4:], lambda d: [(d.GetWeekString(True, T.Week), '-W-D'), (d.GetWeekString(False, T.Week), '-W-D')]),
    ]
    bases = [(1999, 12, 31), (2000, 2, 29), (1969, 7, 20), (2004, 12, 27), (2009, 12, 28), (1989, 12, 31), (2019, 12, 30)]
    if ctx.thorough:
        bases += [(2000, 1, 1), (1996, 2, 28), (2010, 1, 3), (1, 1, 1), (101, 3, 1), (2099, 12, 31), (1900, 2, 28)]
        bases += [(y, 1, d) for y in range(2001, 2012) for d in (1, 2, 3, 4)] + [(y, 12, d) for y in range(2001, 2012) for d in (28, 29, 30, 31)]
    ctx.bounds['base dates for truncated forms'] = len(bases)
    for ymd in bases:
        n0 = LocalDate.of(*ymd).toEpochDay() - EPOCH + 1
        b = Date(absoluteDay=n0)
        for name, years, period, part, texts in FORMS:
            if years == 100 and bases.index(ymd) > 1 and not ctx.thorough:
                continue
            if not ctx.mine():
                continue
            ctx.case({'part': 'truncated', 'base': ymd, 'form': name})
            seen = {}
            p0 = period(*facts(n0))
            periods = [p0]          # the base's own and the next one
            step = 1
            n = n0
            while n < n0 + years * 366 + 2:
                f = facts(n)
                p = period(*f)
                if p not in periods and len(periods) < 2:
                    periods.append(p)
                k = part(*f)
                if k not in seen:
                    seen[k] = (n, p in periods)
                    if years < 100 or ctx.thorough or n - n0 < 400 or len(seen) % 7 == 0:
                        d = Date(absoluteDay=n)
                        for s, fmt in texts(d):
                            ctx.transitions += 1
                            key = 'truncated|%s|%04i-%02i-%02i|%s' % ((name,) + ymd + (s,))
                            r, fail = attempt(lambda: Date.FromStringFormat(s, b))
                            if fail is not None:
                                # no such day in this period or the next: cannot be told apart from a wrong date
                                ctx.check(rejected(fail) and not determined(name, b, k, n, n0), key, '%s on or after %s is refused: %s' % (s, b, fail))
                            else:
                                ctx.check(r[1] == fmt, key, '%s read as %s, not %s' % (s, r[1], fmt))
                                ctx.check(r[0].GetAbsoluteDay() == n, key, '%s on or after %s is %s, not %s' % (s, b, r[0], d))
                        ctx.state((name, k, n - n0))
                n += step


def determined(name, b, k, n, n0):
    """Whether day n is in the period of b, or in the next one and all of what describes it comes first there"""
    c0, o0, w0 = facts(n0)
    c, o, w = facts(n)
    if name in ('YYMMDD', 'YYDDD'):
        return c[0] - c0[0] == (0 if (c[1:] if name == 'YYMMDD' else o[1:]) >= (c0[1:] if name == 'YYMMDD' else o0[1:]) else 1)
    if name in ('MMDD', 'DDD'):
        late = (c[2:] if name == 'MMDD' else o[2:]) < (c0[2:] if name == 'MMDD' else o0[2:])
        return (c[0] * 100 + c[1]) - (c0[0] * 100 + c0[1]) == (1 if late else 0)
    if name == 'DD':
        late = c[3] < c0[3]
        return (c[0] * 1200 + c[1] * 12 + c[2]) - (c0[0] * 1200 + c0[1] * 12 + c0[2]) == (1 if late else 0)
    wy, wy0 = w[0] * 100 + w[1] * 10 + w[2], w0[0] * 100 + w0[1] * 10 + w0[2]
    if name == 'YYWwwD':
        return wy // 100 - wy0 // 100 == (1 if w[1:] < w0[1:] else 0)
    if name == 'YWwwD':
        return wy // 10 - wy0 // 10 == (1 if w[2:] < w0[2:] else 0)
    if name == 'WwwD':
        return wy - wy0 == (1 if w[3:] < w0[3:] else 0)
    return True


def reduced(ctx):
    """Reduced precision: written and read back; with truncation, the first one not before the base's."""
    years = [1, 99, 100, 1969, 1999, 2000, 2004, 2009, 2019, 9999]
    for y in years:
        if not ctx.mine():
            continue
        ctx.case({'part': 'reduced', 'year': y})
        c, yy = y // 100, y % 100

        def back(d, s, fmt, prec):
            key = 'reduced|%s|%s' % (fmt, s)
            ctx.transitions += 1
            e, fail = attempt(lambda: Date.FromStringFormat(s))
            if ctx.check(fail is None, key, '%r: %s' % (s, fail)):
                ctx.check(e[1] == fmt and e[0] == d and hash(e[0]) == hash(d) and e[0].GetPrecision() == prec and not e[0].Complete(),
                          key, '%r reads as %r (%s)' % (s, e[0], e[1]))
        if c:
            back(Date(century=c), Date(century=c).GetCalendarString(), 'YY', Precision.Century)
        d = Date(century=c, year=yy)
        for s in (d.GetCalendarString(), d.GetCalendarString(True), d.GetOrdinalString(), d.GetWeekString(), str(d)):
            ctx.check(s == '%04i' % y, 'reduced|%i' % y, 'year %i is written %r' % (y, s))
            back(d, s, 'YYYY', Precision.Year)
        last = None
        for m in range(1, 13):
            d = Date(century=c, year=yy, month=m)
            for s in (d.GetCalendarString(), d.GetCalendarString(True)):
                ctx.check(s == '%04i-%02i' % (y, m), 'reduced|%i-%i' % (y, m), 'month %i is written %r' % (m, s))
                back(d, s, 'YYYY-MM', Precision.Month)
            ctx.check(last is None or last < d, 'reduced|%i-%i' % (y, m), 'order')
            last = d
        last = None
        for w in range(1, LocalDate.of(y, 6, 1).range(IsoFields.WEEK_OF_WEEK_BASED_YEAR).getMaximum() + 1):
            d = Date(century=c, decade=yy // 10, year=yy % 10, week=w)
            for basic, fmt, ref in ((False, 'YYYY-Www', '%04i-W%02i'), (True, 'YYYYWww', '%04iW%02i')):
                s = d.GetWeekString(basic)
                ctx.check(s == ref % (y, w), 'reduced|%i-W%i' % (y, w), 'week %i is written %r' % (w, s))
                back(d, s, fmt, Precision.Week)
            ctx.check(d.GetWeekDay() == (c, yy // 10, yy % 10, w, None), 'reduced|%i-W%i' % (y, w), 'week day %r' % (d.GetWeekDay(),))
            ctx.check(last is None or last < d, 'reduced|%i-W%i' % (y, w), 'order')
            last = d
    # truncated and reduced
    bases = [(1999, 12, 31), (2000, 1, 1), (1969, 7, 20), (2009, 12, 28), (2010, 1, 3), (1990, 6, 15)]
    for ymd in bases:
        if not ctx.mine():
            continue
        ctx.case({'part': 'reduced', 'base': ymd})
        n0 = LocalDate.of(*ymd).toEpochDay() - EPOCH + 1
        b = Date(absoluteDay=n0)
        c0, o0, w0 = facts(n0)
        y0, wy0 = ymd[0], w0[0] * 100 + w0[1] * 10 + w0[2]

        def expect(s, fmt, ref):
            key = 'reduced|%04i-%02i-%02i|%s' % (ymd + (s,))
            ctx.transitions += 1
            r, fail = attempt(lambda: Date.FromStringFormat(s, b))
            if ref is None:
                ctx.check(r is None or r[0].Complete() is False, key, '%s' % (r,))
            elif ctx.check(fail is None, key, '%s after %s: %s' % (s, b, fail)):
                ctx.check(r[1] == fmt, key, '%s read as %s' % (s, r[1]))
                ctx.check(r[0].GetCalendarDay() + (r[0].week,) == ref, key, '%s after %s is %r, not %r' % (s, b, r[0], ref))
        for yy in range(100):
            y = y0 - y0 % 100 + yy
            y += 100 * (y < y0)
            expect('-%02i' % yy, '-YY', (y // 100, yy, None, None, None))
            for m in range(1, 13):
                y = y0 - y0 % 100 + yy
                y += 100 * ((y, m) < ymd[:2])
                expect('-%02i-%02i' % (yy, m), '-YY-MM', (y // 100, yy, m, None, None))
                expect('-%02i%02i' % (yy, m), '-YYMM', (y // 100, yy, m, None, None))
            for w in range(1, 53):
                y = wy0 - wy0 % 100 + yy
                y += 100 * ((y, w) < (wy0, w0[3]))
                expect('%02iW%02i' % (yy, w), 'YYWww', (y // 100, yy, None, None, w))
                expect('%02i-W%02i' % (yy, w), 'YY-Www', (y // 100, yy, None, None, w))
        for m in range(1, 13):
            y = y0 + (m < ymd[1])
            expect('--%02i' % m, '--MM', (y // 100, y % 100, m, None, None))
        for w in range(1, 53):
            y = wy0 + (w < w0[3])
            expect('-W%02i' % w, '-Www', (y // 100, y % 100, None, None, w))
            for yy in range(10):
                y = wy0 - wy0 % 10 + yy
                y += 10 * ((y, w) < (wy0, w0[3]))
                expect('-%iW%02i' % (yy, w), '-YWww', (y // 100, y % 100, None, None, w))
                expect('-%i-W%02i' % (yy, w), '-Y-Www', (y // 100, y % 100, None, None, w))
                ctx.state((ymd, yy, w))
    # without a base, truncated forms are refused; so they are with an incomplete one
    if ctx.mine():
        ctx.case({'part': 'reduced', 'base': None})
        for s in ['690720', '69-07-20', '-69', '-6907', '-69-07', '--07', '--0720', '--07-20', '---20', '69201', '69-201', '-201', '69W29', '69W297', '-9W29', '-9W297', '-W29', '-W297', '-W29-7', '-W-7']:
            for b in None, Date(century=19), Date(century=19, year=69), Date(century=19, year=69, month=7):
                v, fail = attempt(lambda: Date.FromString(s, b))
                ctx.check(rejected(fail), 'nobase|%s|%s' % (s, b), '%s with base %s: %r %s' % (s, b, v, fail))
        ds = [Date(century=19), Date(century=19, year=69), Date(century=19, year=69, month=7), Date(century=19, decade=6, year=9, week=29), Date(century=19, year=69, month=7, day=20)]
        for a in ds:
            for b in ds:
                v, fail = attempt(lambda: cmp(a, b))
                ctx.check((fail is None and v == 0) if a is b else fail is not None, 'compare|%s|%s' % (a.GetPrecision(), b.GetPrecision()), '%r %s' % (v, fail))


def offsets(ctx):
    """date + offset"""
    starts = [(1, 1, 1), (1999, 12, 31), (2000, 2, 29), (2000, 1, 1), (1969, 7, 20), (1900, 2, 28), (2099, 11, 30), (9999, 12, 31), (100, 3, 15), (2001, 10, 31)]
    amounts = {'days': [-400, -366, -365, -31, -30, -1, 0, 1, 28, 29, 31, 365, 366, 1461, 36524, 36525, 146097],
               'weeks': [-53, -1, 1, 4, 52, 53, 5218],
               'months': [-25, -24, -13, -12, -11, -2, -1, 1, 2, 3, 11, 12, 13, 23, 24, 25, 1200],
               'years': [-101, -100, -99, -4, -1, 1, 4, 30, 31, 99, 100, 101, 400],
               'centuries': [-1, 1, 4, 79]}
    for ymd in starts:
        for unit in sorted(amounts):
            if not ctx.mine():
                continue
            ctx.case({'part': 'offset', 'date': ymd, 'unit': unit})
            j = LocalDate.of(*ymd)
            d = Date(century=ymd[0] // 100, year=ymd[0] % 100, month=ymd[1], day=ymd[2])
            for k in amounts[unit]:
                ctx.transitions += 1
                key = 'offset|%04i-%02i-%02i|%s|%i' % (ymd + (unit, k))
                if unit == 'centuries':
                    r = j.plusYears(100 * k)
                else:
                    r = getattr(j, 'plus' + unit.capitalize())(k)
                v, fail = attempt(lambda: d.Offset(**{unit: k}))
                exact = r.getDayOfMonth() == ymd[2] or unit in ('days', 'weeks')
                if 1 <= r.getYear() <= 9999 and exact:
                    if ctx.check(fail is None, key, '%s + %i %s: %s' % (d, k, unit, fail)):
                        ctx.check(v.GetCalendarDay() == (r.getYear() // 100, r.getYear() % 100, r.getMonthValue(), r.getDayOfMonth()), key,
                                  '%s + %i %s is %s, not %s' % (d, k, unit, v, r))
                else:
                    ctx.check(rejected(fail), key, '%s + %i %s is %r %s' % (d, k, unit, v, fail))
                ctx.state((ymd, unit, k))
                # days first, then months
                if unit == 'months':
                    for dd in (-20, 5, 15, 40):
                        r = j.plusDays(dd)
                        rr = r.plusMonths(k)
                        r2 = j.plusMonths(k).plusDays(dd)
                        v, fail = attempt(lambda: d.Offset(days=dd, months=k))
                        if fail is None:
                            ctx.check(str(v) in (str(rr), str(r2)), key + '|%i' % dd, '%s + %i months and %i days is %s, not %s' % (d, k, dd, v, rr))
                        elif r.getDayOfMonth() <= 28 and 1 <= rr.getYear() <= 9999 and 1 <= r.getYear() <= 9999:
                            ctx.violation(key + '|%i' % dd, '%s + %i months and %i days: %s' % (d, k, dd, fail))


# ------------------------------------------------------------------ times
ZONES = [None, (0, 0, 0), (1, 0, 0), (-1, 0, 0), (1, 1, None), (1, 5, 30), (-1, 5, 0), (-1, 3, 30), (1, 14, 0), (-1, 12, 0), (1, 23, 59), (-1, 23, 59)]


def zkw(z):
    return {} if z is None else dict(zDirection=z[0], zHour=z[1], zMinute=z[2])


def zoff(z):
    return None if z is None else z[0] * (z[1] * 60 + (z[2] or 0))


def ztext(z, basic):
    if z is None:
        return ''
    if z[0] == 0:
        return 'Z'
    return ('+' if z[0] > 0 else '-') + '%02i' % z[1] + ('' if basic else ':') + '%02i' % (z[2] or 0)


HMS = [(h, m, s) for h in (0, 1, 9, 12, 22, 23) for m in (0, 1, 29, 30, 58, 59) for s in (0, 1, 30, 59)] + [(23, 59, 60), (24, 0, 0), (0, 0, 60), (11, 59, 60)]


def timestrings(ctx):
    for z in ZONES:
        for part in ('whole', 'fraction', 'reduced'):
            if not ctx.mine():
                continue
            ctx.case({'part': 'time', 'zone': z, 'what': part})
            if part == 'whole':
                vals = HMS
            elif part == 'fraction':
                vals = [(h, m, s + f) for h, m, s in ((0, 0, 0), (20, 17, 40), (23, 59, 59), (12, 30, 9)) for f in (0.5, 0.25, 0.125, 0.0625, 0.999)]
                vals += [(h, m + f, None) for h, m in ((0, 0), (20, 17), (23, 59), (22, 59)) for f in (0.5, 0.25, 0.125)]
                vals += [(h + f, None, None) for h in (0, 20, 23) for f in (0.5, 0.25, 0.125)]
            else:
                vals = [(h, m, None) for h in range(24) for m in (0, 1, 30, 59)] + [(h, None, None) for h in range(24)] + [(24, 0, None), (24, None, None)]
            for h, m, s in vals:
                key = 'time|%r|%r' % (z, (h, m, s))
                ctx.transitions += 1
                t, fail = attempt(lambda: Time(hour=h, minute=m, second=s, **zkw(z)))
                if not ctx.check(fail is None, key, 'refused: %s' % fail):
                    continue
                ctx.check(t.GetTime() == (h, m, s) and t.GetZoneOffset() == zoff(z), key, '%r' % t)
                prec = Precision.Complete if s is not None else Precision.Minute if m is not None else Precision.Hour
                ctx.check(t.GetPrecision() == prec and t.Complete() == (s is not None), key, 'precision')
                vs = [v for v in (h, m, s) if v is not None]
                frac = isinstance(vs[-1], float)
                for basic in (False, True):
                    for ndp, dp in ((0, ','), (1, ','), (3, '.'), (6, ',')):
                        if (ndp == 0) == frac:
                            continue
                        if ndp == 1 and int(vs[-1] * 10) != vs[-1] * 10 or ndp == 3 and abs(round(vs[-1] * 1000) - vs[-1] * 1000) > 1e-6:
                            continue
                        ref = ('' if basic else ':').join(['%02i' % int(v) for v in vs])
                        if ndp:
                            ref += dp + ('%.*f' % (ndp, vs[-1])).split('.')[1]
                        ref += ztext(z, basic)
                        got, fail = attempt(lambda: t.GetString(basic, ndp=ndp, dp=dp))
                        if not ctx.check(fail is None and got == ref, key + '|text', 'written %r %s, not %r' % (got, fail, ref)):
                            continue
                        back, fail = attempt(lambda: Time.FromStringFormat(got))
                        if ctx.check(fail is None, key + '|back', '%r: %s' % (got, fail)):
                            u, over, fmt = back
                            rf = ('' if basic else ':').join(['hh', 'mm', 'ss'][:len(vs)]) + ((dp + 'hms'[len(vs) - 1]) if ndp else '')
                            rf += '' if z is None else 'Z' if z[0] == 0 else '+hhmm' if basic else '+hh:mm'
                            ctx.check(over == 0 and fmt == rf, key + '|back', '%r read as %s' % (got, fmt))
                            ctx.check(u == t and hash(u) == hash(t) and u.GetZoneOffset() == zoff(z), key + '|back', '%r reads as %r' % (got, u))
                            ctx.check(Time.FromString(got) == t, key + '|back', 'FromString')
                        ctx.state(got)
                if z is not None and z[0] and not (z[2] or 0):
                    got = t.GetString(zonePrecision=Precision.Hour, ndp=6 if frac else 0)
                    u, fail = attempt(lambda: Time.FromString(got))
                    ctx.check(fail is None and u == t and got.endswith('%02i' % z[1]), key + '|hourzone', '%r reads as %r %s' % (got, u, fail))
                if z is not None:
                    naked = t.WithZone(None)
                    for zs in set((ztext(z, True), ztext(z, False))):
                        u, fail = attempt(lambda: naked.WithZoneString(zs))
                        ctx.check(fail is None and u == t, key + '|WithZoneString', '%s: %r %s' % (zs, u, fail))
                        u, fail = attempt(lambda: naked.WithZoneStringFormat(zs)[0])
                        ctx.check(fail is None and u == t, key + '|WithZoneString', '%s: %r %s' % (zs, u, fail))


def badtimes(ctx):
    if not ctx.mine():
        return
    ctx.case({'part': 'badtimes'})
    for h in range(0, 27):
        for m in [None] + range(0, 63):
            for s in ([None] if m is None else [None, 0, 59, 60, 61, 60.5]):
                sec = s or 0
                ok = h < 24 and (m or 0) < 60 and sec < 61 or h == 24 and not m and not s
                v, fail = attempt(lambda: Time(hour=h, minute=m, second=s))
                key = 'badtime|%r' % ((h, m, s),)
                ctx.transitions += 1
                ctx.check((fail is None) if ok else rejected(fail), key, '%r %s' % (v, fail))
                if s is None or isinstance(s, int):
                    text = ':'.join(['%02i' % x for x in (h, m, s) if x is not None])
                    v, fail = attempt(lambda: Time.FromString(text))
                    ctx.check((fail is None) if ok else rejected(fail), key + '|text', '%s: %r %s' % (text, v, fail))
    for zh in range(0, 30):
        for zm in (0, 1, 30, 59, 60, 75, 99):
            for sign in '+-':
                text = '12:00:00%s%02i:%02i' % (sign, zh, zm)
                v, fail = attempt(lambda: Time.FromString(text))
                ok = zh < 24 and zm < 60
                ctx.check((fail is None) if ok else rejected(fail), 'badzone|%s' % text, '%r %s' % (v, fail))
    bad = ['', '1', '12:', '12:3', '12:30:', '12:30:4', '1:30', '12:3045', '1230:45', '12:30:45.', '12:30:45,', '12:30:45+', '12:30:45+1', '12:30:45+0100',
           '123045+01:00', '12:30:45Zz', '12:30:45z', '12:30:45x', '12:30x', '12x', '12.5:30', '12:30.5:45', '12:30:45:00', '12:30:45.5.5', '123', '12304', '1230456', '12:30:45 ', ' 12:30:45',
           '12:30:45+01:00x', '12:30:45Z+01:00', 'T', 'Tx', '+01:00', 'Z', ':30', '12:30:45-', '12:30:45+01:']
    for s in bad:
        v, fail = attempt(lambda: Time.FromString(s))
        if ctx.check(fail is not None, 'badtime|%s' % s, '%r is read as %r' % (s, v)):
            ctx.check(rejected(fail), 'badtime|%s' % s, '%r is refused with %s' % (s, fail))
    for s in ['-3045', '-30:45', '-30', '--45']:
        v, fail = attempt(lambda: Time.FromString(s))
        ctx.check(rejected(fail), 'badtime|%s' % s, '%r without a base: %r %s' % (s, v, fail))


def secs(h, m, s):
    return h * 3600 + m * 60 + (59 if s == 60 else s)


def timearith(ctx):
    """Offset, ShiftZone, Extend, WithPrecision, order and hash of times."""
    offs = [0, 1, -1, 59, 60, 61, -59, -60, -61, 3599, 3600, 3601, 86399, 86400, 86401, -86399, -86400, -86401, 159460, 0.5, -0.5, 60.25, -60.25, 86400.5, -86400.5]
    for i, (h, m, s) in enumerate([x for x in HMS if x[2] < 60]):
        if not ctx.mine():
            continue
        ctx.case({'part': 'arith', 'time': (h, m, s)})
        for z in (None, (-1, 5, 30)):
            t = Time(hour=h, minute=m, second=s, **zkw(z))
            n = secs(h, m, s)
            ctx.check(t.GetTotalSeconds() == n, 'total|%r' % ((h, m, s),), '%r' % t.GetTotalSeconds())
            for o in offs:
                key = 'arith|%r|%r|%r' % (z, (h, m, s), o)
                ctx.transitions += 1
                r, fail = attempt(lambda: t.Offset(seconds=o))
                if ctx.check(fail is None, key, '%s + %r s: %s' % (t, o, fail)):
                    total = n + o
                    ref = total % 86400
                    if o == 0:
                        ctx.check(r[0] == t and r[0].GetTotalSeconds() + r[1] * 86400 == total, key, 'offset 0')
                        continue
                    ctx.check(r[0].GetTotalSeconds() == ref and r[1] == total // 86400 and r[0].GetZoneOffset() == zoff(z), key, '%s + %r s is %s, %r' % (t, o, r[0].GetString(ndp=3), r[1]))
                if o == int(o):
                    o = int(o)
                    r, fail = attempt(lambda: t.Offset(minutes=o))
                    if ctx.check(fail is None, key + 'min', '%s + %r min: %s' % (t, o, fail)):
                        total = n + 60 * o
                        ctx.check((r[0].GetTotalSeconds(), r[1]) == (total % 86400, total // 86400), key + 'min', '%s + %r min is %s, %r' % (t, o, r[0], r[1]))
                    if abs(o) < 100:
                        r = t.Offset(hours=o)
                        total = n + 3600 * o
                        ctx.check((r[0].GetTotalSeconds(), r[1]) == (total % 86400, total // 86400), key + 'h', '%s + %r h is %s, %r' % (t, o, r[0], r[1]))
            # minute precision
            t2 = Time(hour=h, minute=m, **zkw(z))
            for o in (1, -1, 60, 1439, -1439, 0.5, -0.5, 60.5, -1440.5):
                for f in (0, 0.5):
                    tf = Time(hour=h, minute=m + f, **zkw(z)) if f and h < 24 else t2
                    start = h * 60 + tf.minute
                    key = 'arith|%r|%r|%r' % (z, (h, tf.minute), o)
                    r, fail = attempt(lambda: tf.Offset(minutes=o))
                    if ctx.check(fail is None, key, '%r + %r min: %s' % (tf, o, fail)):
                        total = start + o
                        ctx.check(r[0].hour * 60 + r[0].minute == total % 1440 and r[1] == total // 1440, key, '%r + %r min is %r, %r' % (tf, o, r[0], r[1]))
            if n < 86400:
                u = Time(totalSeconds=n)
                ctx.check(u == t.WithZone(None) and hash(u) == hash(t.WithZone(None)), 'total|%r' % ((h, m, s),), '%r' % u)
        # zones
        for z1 in ZONES[1:]:
            for z2 in ZONES[1:]:
                for vals in ((h, m, s), (h, m + 0.5, None), (h, m, None)):
                    if h == 24 and vals[1] != 0:
                        continue
                    key = 'shift|%r|%r|%r' % (vals, z1, z2)
                    ctx.transitions += 1
                    v, fail = attempt(lambda: Time(hour=vals[0], minute=vals[1], second=vals[2], **zkw(z1)).ShiftZone(*z2))
                    if not ctx.check(fail is None, key, fail):
                        continue
                    total = h * 60 + vals[1] + zoff(z2) - zoff(z1)
                    r, over = v
                    ctx.check(r.hour * 60 + r.minute + over * 1440 == total and 0 <= r.hour * 60 + r.minute <= 1440 and r.second == vals[2] and r.GetZoneOffset() == zoff(z2), key,
                              '%r, %r' % (r, over))
        # precision
        if h < 24:
            t = Time(hour=h, minute=m, second=s)
            for trunc in (False, True):
                v, fail = attempt(lambda: t.WithPrecision(Precision.Minute, trunc))
                ctx.check(fail is None and v.second is None and abs(v.hour * 60 + v.minute - (h * 60 + m + (0 if trunc else s / 60.0))) < 1e-9, 'precision|%r|%r' % ((h, m, s), trunc), '%r %s' % (v, fail))
                w, fail = attempt(lambda: t.WithPrecision(Precision.Hour, trunc))
                ctx.check(fail is None and w.minute is None and w.second is None and abs(w.hour - (h if trunc else h + m / 60.0 + s / 3600.0)) < 1e-9, 'precision|%r|%r' % ((h, m, s), trunc), '%r %s' % (w, fail))
                for x, ref in ((v, h * 3600 + m * 60 + (0 if trunc else s)), (w, h * 3600 + (0 if trunc else m * 60 + s))):
                    if x is not None:
                        y, fail = attempt(lambda: x.WithPrecision(Precision.Complete))
                        ctx.check(fail is None and y.Complete() and abs(y.GetTotalSeconds() - ref) < 1e-6, 'precision|%r|back' % ((h, m, s),), '%r: %r %s' % (x, y, fail))
                        y, fail = attempt(lambda: x.WithPrecision(Precision.Complete, True))
                        ctx.check(fail is None and y.Complete() and isinstance(y.second, int) and abs(y.GetTotalSeconds() - ref) < 1 + 1e-6, 'precision|%r|back' % ((h, m, s),), '%r: %r %s' % (x, y, fail))
    # order and hash
    if ctx.mine():
        ctx.case({'part': 'order'})
        ts = [x for x in HMS if x[2] < 60]
        for a in ts:
            for b in ts:
                ctx.transitions += 1
                p, q = Time(hour=a[0], minute=a[1], second=a[2]), Time(hour=b[0], minute=b[1], second=b[2])
                na, nb = secs(*a), secs(*b)
                if 24 in (a[0], b[0]):
                    continue        # a bare Time leaves open which of the two midnights comes first
                ctx.check(cmp(p, q) == cmp(na, nb), 'order|%r|%r' % (a, b), 'order of %s and %s' % (p, q))
                ctx.check((p == q) == (na == nb) and (p != q) == (na != nb), 'order|%r|%r' % (a, b), 'equality')
        for z1 in ZONES:
            for z2 in ZONES:
                p, q = Time(hour=1, minute=2, second=3, **zkw(z1)), Time(hour=1, minute=2, second=3, **zkw(z2))
                v, fail = attempt(lambda: p == q)
                if zoff(z1) == zoff(z2):
                    ctx.check(v is True and hash(p) == hash(q), 'order|%r|%r' % (z1, z2), '%r %s' % (v, fail))
                else:
                    ctx.check(fail is not None, 'order|%r|%r' % (z1, z2), '%r %s' % (v, fail))
    # truncated: first one on or after the base
    for base in [(20, 17, 40), (23, 59, 59), (0, 0, 0), (23, 30, 15), (12, 59, 30)]:
        for z in (None, (1, 1, 0)):
            if not ctx.mine():
                continue
            ctx.case({'part': 'extend', 'base': base, 'zone': z})
            b = Time(hour=base[0], minute=base[1], second=base[2], **zkw(z))
            n0 = secs(*base)

            def expect(text, fmt, total, prec):
                key = 'extend|%r|%r|%s' % (base, z, text)
                ctx.transitions += 1
                r, fail = attempt(lambda: Time.FromStringFormat(text, b))
                if ctx.check(fail is None, key, fail):
                    t, over, f = r
                    got = t.hour * 3600 + (t.minute or 0) * 60 + (t.second or 0) + over * 86400
                    ctx.check(got == total and f == fmt and t.GetPrecision() == prec and t.GetZoneOffset() == zoff(z), key, '%s on or after %s is %s, %r (%s)' % (text, b, t, over, f))
            for m in range(60):
                first = m * 60 + (n0 // 3600) * 3600
                if m * 60 + 59 < n0 % 3600:
                    first += 3600
                expect('-%02i' % m, '-mm', first, Precision.Minute)
                for s in (0, 1, 15, 30, 39, 40, 41, 59):
                    first = m * 60 + s + (n0 // 3600) * 3600
                    first += 3600 * (first < n0)
                    expect('-%02i:%02i' % (m, s), '-mm:ss', first, Precision.Complete)
                    expect('-%02i%02i' % (m, s), '-mmss', first, Precision.Complete)
                    u = Time(hour=first // 3600 % 24, minute=m, second=s)
                    ctx.check(u.GetString(False, T.Hour) == '-%02i:%02i' % (m, s) and u.GetString(True, T.Hour) == '-%02i%02i' % (m, s) and u.GetString(True, T.Minute) == '--%02i' % s,
                              'extend|string', 'truncated text of %s' % u)
            for s in range(60):
                first = s + (n0 // 60) * 60
                first += 60 * (first < n0)
                expect('--%02i' % s, '--ss', first, Precision.Complete)
                ctx.state((base, s))


# ------------------------------------------------------------------ time points
def timepoints(ctx):
    pts = []
    for ymd in [(1969, 7, 20), (1999, 12, 31), (2000, 1, 1), (2000, 2, 29), (2001, 3, 1)]:
        for hms in [(0, 0, 0), (0, 30, 0), (12, 0, 1), (23, 59, 59), (24, 0, 0), (20, 17, 40)]:
            pts.append((ymd, hms))

    def make(ymd, hms, z):
        return TimePoint(date=Date(century=ymd[0] // 100, year=ymd[0] % 100, month=ymd[1], day=ymd[2]), time=Time(hour=hms[0], minute=hms[1], second=hms[2], **zkw(z)))

    def instant(ymd, hms, z):
        return (LocalDate.of(*ymd).toEpochDay() - EPOCH) * 86400 + secs(*hms) - 60 * (zoff(z) or 0)
    for z1 in ZONES:
        if not ctx.mine():
            continue
        ctx.case({'part': 'timepoint', 'zone': z1})
        for ymd, hms in pts:
            p = make(ymd, hms, z1)
            key = 'timepoint|%r|%r|%r' % (ymd, hms, z1)
            c = p.date
            cc, oo, ww = facts(c.GetAbsoluteDay())
            ctx.check(p.GetCalendarTimePoint() == cc + hms and p.GetOrdinalTimePoint() == oo + hms and p.GetWeekDayTimePoint() == ww + hms, key, 'parts')
            for fn in ('GetCalendarString', 'GetOrdinalString', 'GetWeekString'):
                for basic in (False, True):
                    ctx.transitions += 1
                    s = getattr(p, fn)(basic)
                    ref = getattr(c, fn)(basic) + 'T' + ('%02i%02i%02i' if basic else '%02i:%02i:%02i') % hms + ztext(z1, basic)
                    ctx.check(s == ref, key, '%r, not %r' % (s, ref))
                    q, fail = attempt(lambda: TimePoint.FromStringFormat(s))
                    if ctx.check(fail is None, key, '%r: %s' % (s, fail)):
                        ctx.check(q[0] == p and hash(q[0]) == hash(p) and q[0].GetCalendarTimePoint() == p.GetCalendarTimePoint() and q[0].GetZone() == p.GetZone(), key, '%r reads as %r' % (s, q[0]))
                        fd = {'GetCalendarString': ('YYYY-MM-DD', 'YYYYMMDD'), 'GetOrdinalString': ('YYYY-DDD', 'YYYYDDD'), 'GetWeekString': ('YYYY-Www-D', 'YYYYWwwD')}[fn][basic]
                        zf = '' if z1 is None else 'Z' if z1[0] == 0 else '+hhmm' if basic else '+hh:mm'
                        ctx.check(q[1] == fd + 'T' + ('hhmmss' if basic else 'hh:mm:ss') + zf, key, 'format %s' % q[1])
                    for d2 in (' ', 't'):
                        q, fail = attempt(lambda: TimePoint.FromString(getattr(p, fn)(basic, tDesignator=d2), tDesignators='T' + d2))
                        ctx.check(fail is None and q == p, key, 'designator %r: %r %s' % (d2, q, fail))
                    # mixed forms, or rubbish
                    for bad in (s + 'x', s[:-1] if z1 is None or z1[0] else s + 'Z', s.replace('T', ' '), s.replace('T', ''), s.split('T')[0], s.split('T')[0] + 'T', getattr(c, fn)(not basic) + s[s.index('T'):]):
                        q, fail = attempt(lambda: TimePoint.FromString(bad))
                        ctx.check(rejected(fail), key + '|bad|' + bad, '%r is read as %r %s' % (bad, q, fail))
            # reduced precision
            for prec in (Precision.Minute, Precision.Hour, Precision.Complete):
                v, fail = attempt(lambda: p.WithPrecision(prec, True))
                if ctx.check(fail is None, key + '|precision', '%s' % fail):
                    ctx.check(v.GetPrecision() == prec and v.date == p.date and v.time == p.time.WithPrecision(prec, True), key + '|precision', '%r' % v)
                    q, fail = attempt(lambda: TimePoint.FromString(str(v)))
                    ctx.check(fail is None and q == v, key + '|precision', '%s: %r %s' % (v, q, fail))
            if z1 is not None:
                for z2 in ZONES[1:]:
                    v, fail = attempt(lambda: p.ShiftZone(*z2))
                    if ctx.check(fail is None, key + '|shift|%r' % (z2,), fail):
                        i2 = (v.date.GetAbsoluteDay() - 1) * 86400 + v.time.GetTotalSeconds() - 60 * zoff(z2)
                        ctx.check(i2 == instant(ymd, hms, z1) and v.time.GetZoneOffset() == zoff(z2), key + '|shift|%r' % (z2,), '%s in %r is %s' % (p, z2, v))
                        ctx.check(v == p and hash(v) == hash(p) and not v != p, key + '|shift|%r' % (z2,), '%s is not %s' % (v, p))
            else:
                v, fail = attempt(lambda: p.ShiftZone(0))
                ctx.check(rejected(fail), key, 'shift without zone')
            for z2 in ZONES:
                for ymd2, hms2 in pts:
                    q = make(ymd2, hms2, z2)
                    v, fail = attempt(lambda: cmp(p, q))
                    key = 'compare|%r|%r|%r|%r|%r|%r' % (ymd, hms, z1, ymd2, hms2, z2)
                    ctx.transitions += 1
                    if (z1 is None) != (z2 is None):
                        ctx.check(fail is not None, key, '%r' % v)
                    else:
                        ref = cmp(instant(ymd, hms, z1), instant(ymd2, hms2, z2))
                        if ctx.check(fail is None and v == ref, key, 'cmp(%s,%s) is %r %s' % (p, q, v, fail)) and ref == 0:
                            ctx.check(hash(p) == hash(q), key, '%s and %s have different hashes' % (p, q))
        ctx.state(('tp', z1))
    # unix times
    from java.time import Instant, ZoneOffset
    for base in (0, 86400 * 365, 951782400, 946684799, 2147483647, 4102444800, -1, -86400, -2208988800, -62135596800):
        if not ctx.mine():
            continue
        ctx.case({'part': 'unix', 'time': base})
        for k in range(-3, 4) + [-86401, -86400, -86399, 86399, 86400, 86401, 0.5, -0.5, 0.25, -86400.75]:
            n = base + k
            if n < -62135596800:
                continue
            v, fail = attempt(lambda: TimePoint.FromUnixTime(n))
            key = 'unix|%r' % n
            ctx.transitions += 1
            if ctx.check(fail is None, key, fail):
                ref = Instant.ofEpochSecond(int(n // 1)).atOffset(ZoneOffset.UTC)
                got = v.GetCalendarTimePoint()
                ctx.check(got[0] * 100 + got[1] == ref.getYear() and got[2:] == (ref.getMonthValue(), ref.getDayOfMonth(), ref.getHour(), ref.getMinute(), ref.getSecond() + n % 1) and v.GetZone() == (None, None), key, '%r' % v)
            st = [0] * 9
            if fail is None and k == int(k):
                v.UpdateStructTime(st)
                ctx.check(TimePoint.FromStructTime(st) == v, key, 'struct time')


# ------------------------------------------------------------------ durations
def durations(ctx):
    comps = ('years', 'months', 'days', 'hours', 'minutes', 'seconds')
    pool = [(None, ''), (0, '0'), (1, '1'), (12, '12'), (36, '36')]
    des = 'YMDHMS'
    for present in itertools.product((0, 1), repeat=6):
        if not ctx.mine():
            continue
        ctx.case({'part': 'duration', 'present': present})
        idx = [i for i in range(6) if present[i]]
        for vals in itertools.product((0, 1, 36), repeat=len(idx)):
            for frac in ('', ',5', '.25'):
                full = [None] * 6
                texts = [''] * 6
                fmt = [''] * 6
                for i, v in zip(idx, vals):
                    last = i == idx[-1]
                    full[i] = v + (float('0' + frac.replace(',', '.')) if frac and last else 0)
                    texts[i] = str(v) + (frac if last else '') + des[i]
                    fmt[i] = 'n' + ((frac[0] + 'n') if frac and last else '') + des[i]
                s = 'P' + ''.join(texts[:3]) + ('T' + ''.join(texts[3:]) if any(texts[3:]) else '')
                f = 'P' + ''.join(fmt[:3]) + ('T' + ''.join(fmt[3:]) if any(texts[3:]) else '')
                if not idx:
                    d, fail = attempt(lambda: Duration(s))
                    ctx.check(rejected(fail), 'duration|' + s, '%s' % fail)
                    continue
                for i in range(idx[-1]):
                    if full[i] is None:
                        full[i] = 0
                key = 'duration|' + s
                ctx.transitions += 1
                d = Duration()
                got, fail = attempt(lambda: d.SetFromString(s))
                if not ctx.check(fail is None, key, fail):
                    continue
                ctx.check(got == f, key, 'format %s, not %s' % (got, f))
                ctx.check(d.GetCalendarDuration() == tuple(full), key, '%r' % (d.GetCalendarDuration(),))
                for trunc in (0, 1):
                    for ndp in ([0] if not frac else [2, -2]):
                        out, fail = attempt(lambda: d.GetString(trunc, ndp))
                        if ctx.check(fail is None, key, 'GetString: %s' % fail):
                            e, fail = attempt(lambda: Duration(out))
                            ctx.check(fail is None and e == d and not (e != d), key + '|back', '%r reads as %r %s' % (out, fail is None and e.__dict__, fail))
                ctx.check(Duration(d) == d and Duration(s) == d and not (Duration(d) != d), key + '|eq', 'copy')
                ctx.state(s)
    if ctx.mine():
        ctx.case({'part': 'duration', 'present': 'weeks'})
        for w, s in ((0, 'P0W'), (1, 'P1W'), (52, 'P52W'), (1.5, 'P1,5W'), (2.25, 'P2.25W')):
            d, fail = attempt(lambda: Duration(s))
            if ctx.check(fail is None and d.GetWeekDuration() == w, 'duration|' + s, '%s' % fail):
                out, fail = attempt(lambda: d.GetString(0, 2 if w != int(w) else 0))
                e, fail = attempt(lambda: Duration(out))
                ctx.check(fail is None and e == d and isinstance(out, basestring), 'duration|%s|back' % s, '%r %s' % (out, fail))
                v, fail = attempt(lambda: d.GetCalendarDuration())
                ctx.check(rejected(fail), 'duration|%s|mode' % s, '%s' % fail)
        for s in ['', 'P', 'PT', 'P1', 'P1S', 'P1H', 'PT1Y', 'P1YT', 'P1D1Y', 'P1M1Y', 'PT1S1M', 'P1.5Y1M', 'P1.Y', 'P1WT1H', 'P1W1D', 'P1Y1W', '1Y', 'p1Y', 'P-1Y', 'P1Yx', 'PT1Sx', 'P1Y ', 'PT1H1', 'P1YT1', 'PTT1H', 'P1Y1Y', 'PT1.5H1M', 'P1,5DT1H']:
            d, fail = attempt(lambda: Duration(s))
            if ctx.check(fail is not None, 'duration|' + s, '%r is read as %r' % (s, fail is None and d.__dict__)):
                ctx.check(rejected(fail), 'duration|' + s, '%r is refused with %s' % (s, fail))


def explore(ctx):
    ctx.case_limit = 90
    days(ctx)
    validdates(ctx)
    truncated(ctx)
    reduced(ctx)
    offsets(ctx)
    timestrings(ctx)
    badtimes(ctx)
    timearith(ctx)
    timepoints(ctx)
    durations(ctx)


def replay(ctx, case):
    ctx.nshards, ctx.shard, ctx.index = 1, 0, -1
    explore(ctx)
