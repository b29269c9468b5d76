"""Timezone helpers against datetime.replace."""
import datetime as dt
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt.props.d01 import Falsy, offsets, render, micro
from big.time import datetime_set_timezone, datetime_ensure_timezone, parse_timestamp_3339Z

prop = Prop('D02',
    "datetimes over the whole range (microseconds, fold, naive / fixed offset / named zone / falsy tzinfo) x target timezone of any kind "
    "including None. Non-trivial: fold, microseconds, or an aware datetime.")


class NoOffset(dt.tzinfo):
    def utcoffset(self, d):
        return None
    def dst(self, d):
        return None
    def tzname(self, d):
        return None


class Sub(dt.datetime):
    pass


def tz(spec):
    kind, off = spec
    if kind == 'none':
        return None
    if kind == 'utc':
        return dt.timezone.utc
    if kind == 'fixed':
        return dt.timezone(dt.timedelta(minutes=off))
    if kind == 'falsy':
        return Falsy(off)
    if kind == 'nooffset':
        return NoOffset()
    import zoneinfo
    return zoneinfo.ZoneInfo(['America/New_York', 'Europe/London', 'Asia/Kolkata'][off % 3])


tzs = st.tuples(st.sampled_from(['none', 'utc', 'fixed', 'falsy', 'named', 'nooffset']), offsets)
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'fold')


@prop.sub(lambda: st.tuples(
    st.datetimes(min_value=dt.datetime(1, 1, 3), max_value=dt.datetime(9999, 12, 29)).map(
        lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)),
    st.integers(0, 1), tzs, tzs, st.booleans()), quick=40000)
def helpers(case):
    fields, fold, have, want, sub = case
    h, w = tz(have), tz(want)
    d = (Sub if sub else dt.datetime)(*fields, tzinfo=h, fold=fold)
    def same_wall(r):
        ensure(isinstance(r, dt.datetime))
        equal(tuple(getattr(r, f) for f in FIELDS), fields + (fold,), 'fields')
    r = datetime_set_timezone(d, w)
    same_wall(r)
    ensure(r.tzinfo is w, 'set: tzinfo', r.tzinfo)
    e = datetime_ensure_timezone(d, w)
    same_wall(e)
    if h is None:
        ensure(e.tzinfo is w, 'ensure: tzinfo', e.tzinfo)
    else:
        ensure(e is d or (e == d and e.tzinfo is h), 'ensure changed an aware datetime')
        ensure(e.tzinfo is h, 'ensure replaced the timezone')
    equal(tuple(getattr(d, f) for f in FIELDS) + (d.tzinfo,), fields + (fold, h), 'argument changed')
    naive = dt.datetime(*fields)
    s = render(naive, '-', 'T', '') + micro(naive)
    p = parse_timestamp_3339Z(s, timezone=w)
    ensure(p.tzinfo is w and p.replace(tzinfo=None) == naive, 'parse with default timezone', s, p)
    p = parse_timestamp_3339Z(s + 'Z', timezone=w)
    ensure(p.utcoffset() == dt.timedelta(0) and p.replace(tzinfo=None) == naive, 'parse: default timezone must not override', s, p)
    off = have[1] if sub else 0
    p = parse_timestamp_3339Z(f"{s}{'-' if off < 0 or fold else '+'}{abs(off) // 60:02d}:{abs(off) % 60:02d}", timezone=w)
    ensure(p.tzinfo is not None and abs(p.utcoffset()) == dt.timedelta(minutes=abs(off)) and p.replace(tzinfo=None) == naive, 'parse: default timezone must not override an offset', s, off, p)
    return f"{have[0]}" if (fold or fields[6] or h is not None) else False
