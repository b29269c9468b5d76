"""lines, LineInfo and its clip methods, and the accounting invariant over pipelines of lines modifiers."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc, FORMS, text_and_seps
from pbt.linesgen import source, make, inflate, FEEDS, width, model_lines
from pbt.sizes import sizes
import big.text as bt

prop = Prop('T13',
    "texts with generated linebreaks (or generated separators, or iterables of lines or of pairs), starting line/column numbers and tab "
    "widths: lines against a model; clip histories and pipelines of 1-5 lines modifiers (str and bytes): leading+line+trailing+end == "
    "info.line, column_number == start + width of leading with tabs expanded, a line clipped away lies in trailing, metadata untouched. "
    "Non-trivial: something was clipped.",
    ["tabs are expanded from the left margin; text clipped contains no carriage movement other than tabs"])

NUM = {'line_number': st.sampled_from([1, 1, 0, 7, -1, -3, 255, 2**31, -2**63]),
       'column_number': st.sampled_from([1, 1, 0, 5, -1, -2, -4, -8, 100, 2**31]), 'tab_width': st.sampled_from([8, 8, 4, 1, 3, 2, 16, 100, 0])}
settings_ = st.fixed_dictionaries({}, optional=NUM)


@prop.sub(lambda: st.tuples(st.one_of(source().map(lambda s: (s, None)), text_and_seps(), st.text('ab\n\r\v\x0c\x1c\x1d\x1e\x1f\x85\u2028\u2029 ', max_size=8).map(lambda s: (s, None))),
                            st.booleans(), st.sampled_from(FEEDS), st.sampled_from(FORMS), settings_), quick=8000)
def lines_model(case):
    (s, seps), as_bytes, feed, form, kw = case
    if as_bytes:
        s = s.replace('\u2028', '').replace('\u2029', '')
        s, seps = enc(s), enc(seps)
    li, want = make(s, seps, feed, form, quark='q', **kw)
    n = kw.get('line_number', 1)
    count = 0
    ensure(iter(li) is li, 'lines is an iterator')
    equal((li.quark, li.tab_width, li.column_number), ('q', kw.get('tab_width', 8), kw.get('column_number', 1)), 'settings')
    for info, line in li:
        ensure(count < len(want), 'more lines than the text has')
        wl, we = want[count]
        equal((line, info.end, info.line), (wl, we, wl + we), 'line', count)
        equal((info.line_number, info.column_number, info.leading, info.trailing, info.indent, info.match),
              (n + count, kw.get('column_number', 1), s[:0], s[:0], 0, None), 'metadata')
        ensure(info.lines is li, 'info.lines')
        other = bt.LineInfo(li, info.line, info.line_number, info.column_number, end=info.end)
        ensure(info == other, 'equal LineInfos compare equal')
        other.extra = 1
        ensure(info != other, 'different LineInfos compare different')
        count += 1
    equal(count, len(want), 'number of lines')
    return {'feed ' + feed, 'separators' if seps else 'linebreaks'} if len(want) > 1 else False


prop.sub(lambda: st.tuples(inflate(source()).map(lambda s: (s, None)), st.booleans(), st.sampled_from(FEEDS), st.sampled_from(FORMS), settings_),
         quick=300, thorough=6000, name='lines_scale')(lines_model)


def check_info(info, line, start, tab_width, plain=True):
    empty = line[:0]
    equal(info.leading + line + info.trailing + info.end, info.line, 'leading + line + trailing + end', line)
    equal(info.column_number, start + width(info.leading, tab_width), 'column number, leading', info.leading)
    if not line:
        equal(info.leading, empty, 'leading of a line clipped away')
    ensure(type(info.leading) is type(info.trailing) is type(info.line), 'types')


@prop.sub(lambda: st.tuples(st.lists(st.sampled_from([' ', '\t', 'a', 'b', '  ', 'é']), max_size=10).map(''.join), st.sampled_from(['', '\n', '\r\n', 'a', 'b', ' ', 'ab', '\t', 'é']), st.booleans(), settings_,
                            st.lists(st.tuples(st.sampled_from('LT'), st.integers(0, 9), st.booleans()), min_size=1, max_size=6)), quick=8000)
def clips(case):
    line, end, as_bytes, kw, ops = case
    if as_bytes:
        line, end = enc(line), enc(end)
    li = bt.lines([(line, end)], **kw)
    info, line = next(li)
    start, tab = kw.get('column_number', 1), kw.get('tab_width', 8)
    whole = line
    lead, trail = line[:0], line[:0]
    clipped = False
    for op, n, as_int in ops:
        n = min(n, len(line))
        if op == 'L':
            t, rest = line[:n], line[n:]
            got = info.clip_leading(line, n if as_int else t)
            lead += t
        else:
            rest, t = line[:len(line) - n], line[len(line) - n:]
            got = info.clip_trailing(line, n if as_int else t)
            trail = t + trail
        clipped = clipped or n
        if not rest:
            lead, trail = line[:0], whole
        equal(got, rest, 'rest after', op, n, as_int)
        equal((info.leading, info.trailing), (lead, trail), 'leading, trailing after', op, n, as_int)
        line = got
        check_info(info, line, start, tab)
    equal((info.line, info.end, info.line_number), (whole + end, end, kw.get('line_number', 1)), 'untouched')
    return bool(clipped) and {'clipped away' if not line and whole else 'clipped', 'tabs' if (b'\t' if as_bytes else '\t') in whole else 'no tabs'}


prop.sub(lambda: st.tuples(inflate(st.lists(st.sampled_from([' ', '\t', 'a', 'b', '  ', 'é', 'ab']), min_size=1, max_size=8).map(''.join), 2000), st.sampled_from(['', '\n', 'a', 'ab']), st.booleans(), settings_,
                           st.lists(st.tuples(st.sampled_from('LT'), st.one_of(st.integers(0, 9), st.sampled_from([40, 255, 256, 1000])), st.booleans()), min_size=1, max_size=40)),
         quick=400, thorough=8000, name='clips_scale')(clips)
prop.sub(lambda: st.tuples(inflate(st.lists(st.sampled_from([' ', '\t', 'a', 'b', '  ', 'é', 'ab']), min_size=1, max_size=8).map(''.join), 12000), st.sampled_from(['', '\n', 'a', 'ab']), st.booleans(), settings_,
                           st.lists(st.tuples(st.sampled_from('LTT'), st.one_of(st.integers(0, 9), sizes(6000)), st.booleans()), min_size=1, max_size=6)),
         quick=400, thorough=8000, name='clips_far')(clips)


SEPS = [None, None, ('a', 'b'), ('ab',), ('ab', 'b', ' '), (' ', '\t'), ('#', 'a', 'Foo')]


@st.composite
def mods(draw):
    k = draw(st.sampled_from(['rstrip', 'strip', 'strip', 'comments', 'comments', 'filter_comments', 'containing', 'grep', 'sort', 'indent', 'indent', 'empty', 'clip']))
    if k in ('rstrip', 'strip'):
        return k, draw(st.sampled_from(SEPS))
    if k == 'comments':
        return k, draw(st.sampled_from([('#',), ('//',), ('#', '//'), ('a', 'ab')])), draw(st.sampled_from([(), (), ('"',), ('"', "'")])), draw(st.sampled_from([(), (), ('"""',)]))
    if k == 'filter_comments':
        return k, draw(st.sampled_from([('#',), ('//', '#')]))
    if k == 'containing':
        return k, draw(st.sampled_from(['a', '', 'foo', ' ', '#'])), draw(st.booleans())
    if k == 'grep':
        return k, draw(st.sampled_from(['a', '^[^#]', 'o+', '$', '^$'])), draw(st.booleans())
    if k == 'sort':
        return k, draw(st.booleans())
    if k == 'clip':
        return k, draw(st.sampled_from('LT')), draw(st.integers(0, 3))
    return (k,)


def user_clip(li, side, n):
    for info, line in li:
        m = min(n, len(line))
        if side == 'L':
            line = info.clip_leading(line, m)
        else:
            line = info.clip_trailing(line, line[len(line) - m:])
        yield info, line


def apply(li, m, f):
    k = m[0]
    if k == 'rstrip':
        return bt.lines_rstrip(li) if m[1] is None else bt.lines_rstrip(li, f(m[1]))
    if k == 'strip':
        return bt.lines_strip(li) if m[1] is None else bt.lines_strip(li, f(m[1]))
    if k == 'comments':
        return bt.lines_strip_line_comments(li, f(m[1]), quotes=f(m[2]), multiline_quotes=f(m[3]))
    if k == 'filter_comments':
        return bt.lines_filter_line_comment_lines(li, f(m[1]))
    if k == 'containing':
        return bt.lines_containing(li, f(m[1]), invert=m[2])
    if k == 'grep':
        return bt.lines_grep(li, f(m[1]), invert=m[2])
    if k == 'sort':
        return bt.lines_sort(li, reverse=m[1])
    if k == 'indent':
        return bt.lines_strip_indent(li)
    if k == 'clip':
        return user_clip(li, m[1], m[2])
    return bt.lines_filter_empty_lines(li)


@prop.sub(lambda: st.tuples(source(), st.booleans(), st.sampled_from(FEEDS), settings_, st.lists(mods(), min_size=1, max_size=5)), quick=12000)
def pipelines(case):
    s, as_bytes, feed, kw, ms = case
    f = (lambda x: enc(x)) if as_bytes else (lambda x: x)
    s = f(s)
    li, want = make(s, None, feed, **kw)
    by_number = {kw.get('line_number', 1) + i: le for i, le in enumerate(want)}
    start, tab = kw.get('column_number', 1), kw.get('tab_width', 8)
    it = li
    for m in ms:
        it = apply(it, m, f)
    seen = set()
    labels = set()
    kinds = {m[0] for m in ms}
    may_raise = SyntaxError if any(m[0] == 'comments' and (m[2] or m[3]) for m in ms) or 'indent' in kinds else ()
    order = []
    try:
        for info, line in it:
            ensure(info.line_number in by_number, 'line number', info.line_number)
            ensure(info.line_number not in seen, 'line yielded twice', info.line_number)
            seen.add(info.line_number)
            order.append(info.line_number)
            wl, we = by_number[info.line_number]
            equal((info.line, info.end), (wl + we, we), 'line and end')
            check_info(info, line, start, tab)
            if info.leading or info.trailing:
                labels.add('clipped')
            if info.leading and info.trailing:
                labels.add('clipped both sides')
    except may_raise:
        labels.add('error')
    else:
        if not kinds & {'filter_comments', 'containing', 'grep', 'empty'}:
            equal(len(seen), len(want), 'number of lines')
    if 'sort' not in kinds:
        equal(order, sorted(order), 'order')
    if not labels:
        return False
    return labels | {m[0] for m in ms}


prop.sub(lambda: st.tuples(inflate(source(), 3000), st.booleans(), st.sampled_from(FEEDS), settings_, st.lists(mods(), min_size=1, max_size=5)),
         quick=400, thorough=8000, name='pipelines_scale')(pipelines)


@prop.sub(lambda: st.tuples(st.sampled_from([1.5, None, 'x', b'x']), st.text('ab \n', max_size=4)), quick=300)
def arguments(case):
    bad, s = case
    for k in ('line_number', 'column_number', 'tab_width'):
        with raises(TypeError, k):
            bt.lines(s, **{k: bad})
    with raises(ValueError, 'separators for an iterable'):
        bt.lines([s], separators=('x',))
    li = bt.lines(s)
    with raises(TypeError, 'line_number'):
        bt.LineInfo(li, s, bad, 1)
    with raises(TypeError, 'column_number'):
        bt.LineInfo(li, s, 1, bad)
    for k in ('leading', 'trailing', 'end'):
        with raises(TypeError, k):
            bt.LineInfo(li, s, 1, 1, **{k: 3 if isinstance(bad, str) or bad is None else bad})
    import re
    m = re.match('', s)
    ensure(bt.LineInfo(li, s, 1, 1, match=m).match is m, 'match objects are kept')
    ensure(bt.LineInfo(li, s, 1, 1, zebra=m).zebra is m, 'extra attributes are kept')
    return 'arguments'
