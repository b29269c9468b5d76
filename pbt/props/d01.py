"""Timestamps against integer arithmetic on the instant, under generated process timezones."""
import datetime as dt, os, re, time
from fractions import Fraction
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises, harvest
from big.time import timestamp_human, timestamp_3339Z, parse_timestamp_3339Z

prop = Prop('D01',
    "an instant in years 1..9999 expressed as int, float, gmtime/localtime/plain struct_time, naive datetime (with fold) or aware "
    "datetime in a fixed-offset or named zone, x want_microseconds (None/True/False/other truthy) x process timezone; plus arbitrary "
    "RFC 3339 strings to the parser. Non-trivial: process timezone or argument timezone is not UTC, or the instant has microseconds.")
UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)
prop.findings['float-without-microseconds'] = lambda: '.' not in timestamp_3339Z(0.5)
FLOAT_MICRO = not prop.findings['float-without-microseconds']()

ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', '<+0530>-5:30', 'GMT+5', 'GMT0BST,M3.5.0/1,M10.5.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', '<-0930>9:30',
         'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Pacific/Apia', 'Australia/Lord_Howe', 'CET-1CEST,M3.5.0,M10.5.0/3']
LO, HI = -62135596800 + 3 * 86400, 253402300799 - 3 * 86400
DST = [1710054000, 1730613600, 1711846800, 1729990800, 1143961200]

instants = st.one_of(
    st.integers(LO, HI), st.integers(-10**9, 3 * 10**9), st.integers(0, 2 * 10**9), st.integers(-86400, 86400),
    st.builds(lambda a, b: a + b, st.sampled_from(DST), st.integers(-7300, 7300)))
micros = st.one_of(st.just(0), st.integers(0, 999999), st.sampled_from([1, 999999, 500000, 100000, 99999, 9]))
offsets = st.one_of(st.just(0), st.integers(-23 * 60, 23 * 60), st.sampled_from([330, -570, 345, 60, -300, 1439, -1439]))


def settz(z):
    os.environ['TZ'] = z
    time.tzset()


def instant(us):
    "UTC datetime from integer microseconds"
    return EPOCH + dt.timedelta(microseconds=us)


def render(d, sep, mid, tail):
    return f"{d.year:04d}{sep}{d.month:02d}{sep}{d.day:02d}{mid}{d.hour:02d}:{d.minute:02d}:{d.second:02d}"


def micro(d, tail=''):
    return f".{d.microsecond:06d}" + tail


NAMED = ['UTC', 'GMT', 'Z', 'UTC+00:00', 'local', '', 'CET', 'utc']


class Falsy(dt.tzinfo):
    def __init__(self, m):
        self.m = m
    def utcoffset(self, d):
        return dt.timedelta(minutes=self.m)
    def dst(self, d):
        return dt.timedelta(0)
    def tzname(self, d):
        return 'UTC'
    def __bool__(self):
        return False
    def __len__(self):
        return 0


def make(kind, sec, us, off):
    """-> (argument, exact instant in microseconds or None, allowed error in us, default microseconds)"""
    full = sec * 10**6 + us
    if kind == 'int':
        return sec, sec * 10**6, False
    if kind == 'float':
        f = sec + us / 10**6
        return f, None, True
    if kind == 'gmtime':
        return time.gmtime(sec), sec * 10**6, False
    if kind == 'localtime':
        return time.localtime(sec), sec * 10**6, False
    if kind == 'tuple':
        lt = time.localtime(sec)
        t = time.struct_time(tuple(lt)[:8] + ([lt.tm_isdst, lt.tm_isdst, -1, 0, 1][us % 5],))
        return t, int(time.mktime(t)) * 10**6, False
    if kind == 'naive':
        d = dt.datetime.fromtimestamp(sec).replace(microsecond=us)
        return d, full, True
    if kind == 'wall':      # arbitrary wall-clock fields, possibly ambiguous or in a gap
        d = (instant(full) + dt.timedelta(minutes=off)).replace(tzinfo=None, fold=sec & 1)
        whole = d.replace(microsecond=0)
        return d, round(whole.timestamp()) * 10**6 + us, True
    if kind == 'utc':
        return instant(full), full, True
    if kind == 'aware':
        z = dt.timedelta(minutes=off)       # what a timezone calls itself says nothing of where it is
        return instant(full).astimezone(dt.timezone(z, NAMED[sec % len(NAMED)]) if sec % 3 else dt.timezone(z)), full, True
    if kind == 'odd':
        return instant(full).astimezone(dt.timezone(dt.timedelta(minutes=off % 1400 if sec & 1 else 0, seconds=sec % 60 if sec & 2 else 0, microseconds=sec % 999983 if sec & 4 else 0))), full, True
    if kind == 'named':
        import zoneinfo
        z = zoneinfo.ZoneInfo(['America/New_York', 'Europe/London', 'Asia/Kolkata', 'UTC'][off % 4])
        return instant(full).astimezone(z), full, True
    if kind == 'falsytz':
        d = (instant(full) + dt.timedelta(minutes=off)).replace(tzinfo=Falsy(off))
        return d, full, True
    raise RuntimeError(kind)


KINDS = ['int', 'float', 'float', 'gmtime', 'localtime', 'tuple', 'naive', 'wall', 'utc', 'aware', 'aware', 'odd', 'named', 'falsytz']


@prop.sub(lambda: st.tuples(st.sampled_from(ZONES), st.sampled_from(KINDS), instants, micros, offsets,
                            st.sampled_from([None, None, True, False, 0, 1, 'yes', ''])), quick=30000)
def stamp(case):
    zone, kind, sec, us, off, want = case
    settz(zone)
    try:
        t, exact, default = make(kind, sec, us, off)
        if kind in ('utc', 'aware', 'odd', 'falsytz'):      # where it means nothing
            t = t.replace(fold=us & 1)
        if kind == 'float':
            # fromtimestamp rounds to the nearest microsecond
            exact = round(Fraction(t) * 10**6)
        for name, fn in (('3339Z', timestamp_3339Z), ('human', timestamp_human)):
            if want is None and kind == 'float' and name == '3339Z':
                show = FLOAT_MICRO
            else:
                show = default if want is None else bool(want)
            s = fn(t) if want is None else fn(t, want)
            equal(s, fn(t, want_microseconds=want), 'keyword and positional')
            d = instant(exact)
            if name == '3339Z':
                w = render(d, '-', 'T', '') + (micro(d) if show else '') + 'Z'
                ensure(re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?Z', s), 'not RFC 3339', s)
                equal(s, w, name, t)
                back = parse_timestamp_3339Z(s)
                ensure(back.tzinfo is not None and back.utcoffset() == dt.timedelta(0), 'parsed timestamp is not UTC', back)
                equal(back - EPOCH, (d if show else d.replace(microsecond=0)) - EPOCH, 'parse(timestamp)', s)
                equal(parse_timestamp_3339Z(s, timezone=dt.timezone(dt.timedelta(minutes=77))) - EPOCH, back - EPOCH, 'default timezone overrode Z')
            else:
                if kind in ('naive', 'wall'):
                    l = t       # naive datetimes are already local: shown as they are
                else:
                    lt = time.localtime(exact // 10**6)
                    l = dt.datetime(*lt[:6], microsecond=exact % 10**6)
                equal(s, render(l, '/', ' ', '') + (micro(l) if show else ''), name, t)
    finally:
        settz('UTC')
    return f"{kind}" if (zone != 'UTC' or us or off) else False


@prop.sub(lambda: st.tuples(st.sampled_from(ZONES), instants, micros, offsets,
                            st.sampled_from(['Z', 'z', 'offset', 'offset', 'none']), st.sampled_from([0, 1, 2, 3, 6]),
                            st.one_of(st.none(), offsets), st.sampled_from(['T', 't', ' '])), quick=15000)
def parse(case):
    zone, sec, us, off, suffix, digits, default, mid = case
    settz(zone)
    try:
        us = us // 10**(6 - digits) * 10**(6 - digits) if digits else 0
        d = instant(sec * 10**6 + us)
        local = d if suffix in 'Zz' else (d + dt.timedelta(minutes=off))
        s = render(local, '-', mid, '')
        if digits:
            s += '.' + f"{us:06d}"[:digits]
        if suffix in 'Zz':
            s += suffix
        elif suffix == 'offset':
            s += f"{'-' if off < 0 else '+'}{abs(off) // 60:02d}:{abs(off) % 60:02d}"
        tz = None if default is None else dt.timezone(dt.timedelta(minutes=default))
        got = parse_timestamp_3339Z(s, timezone=tz)
        ensure(isinstance(got, dt.datetime))
        if suffix == 'none':
            ensure(got.tzinfo is tz, 'default timezone', got.tzinfo)
            equal(got.replace(tzinfo=None), local.replace(tzinfo=None), 'wall clock', s)
        else:
            ensure(got.tzinfo is not None, 'timezone lost', s)
            equal(got - EPOCH, d - EPOCH, 'instant', s)
            if suffix == 'offset':
                equal(got.utcoffset(), dt.timedelta(minutes=off), 'offset', s)
                equal(got.replace(tzinfo=None), local.replace(tzinfo=None), 'wall clock', s)
    finally:
        settz('UTC')
    return suffix


@prop.sub(enum=lambda tier: [(z, w) for z in ZONES for w in (None, True, False)] * (3 if tier == 'quick' else 50))
def now(case):
    zone, want = case
    settz(zone)
    try:
        for fn, fmt in ((timestamp_3339Z, '-T'), (timestamp_human, '/ ')):
            before = time.time_ns() // 1000
            s = fn(None, want) if want is not None else (fn() if zone < 'E' else fn(None))
            after = time.time_ns() // 1000 + 1
            m = re.fullmatch(r'(\d{4})%s(\d\d)%s(\d\d)%s(\d\d):(\d\d):(\d\d)(\.\d{6})?(Z?)' % (fmt[0], fmt[0], fmt[1]), s)
            ensure(m, 'format', s)
            ensure((m[7] is not None) == (want is not False), 'microseconds', s)
            ensure((m[8] == 'Z') == (fmt == '-T'), 'Z', s)
            d = dt.datetime(*map(int, m.groups()[:6]), microsecond=int((m[7] or '.000000')[1:]))
            if fmt == '-T':
                got = (d.replace(tzinfo=UTC) - EPOCH) // dt.timedelta(microseconds=1)
                ensure(before - (10**6 if want is False else 2) <= got <= after + 2, 'not now', s)
            else:
                lo = dt.datetime.fromtimestamp(before // 10**6) - dt.timedelta(seconds=1)
                hi = dt.datetime.fromtimestamp(after // 10**6) + dt.timedelta(seconds=2)
                ensure(lo <= d <= hi, 'not local now', s)
    finally:
        settz('UTC')
    for bad in ('abcde', b'', [], {}, 3j, dt.date(2020, 1, 1)):
        with raises(TypeError, 'unsupported type', bad):
            timestamp_3339Z(bad)
        with raises(TypeError, 'unsupported type', bad):
            timestamp_human(bad)
    return True
