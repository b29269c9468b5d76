"""lines_strip, lines_rstrip, lines_strip_line_comments against models."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc, FORMS, as_form, model_strip, text_and_seps, big_text_and_seps, STR_WS, BYTES_WS
from pbt.linesgen import source, make, inflate, SIZES, FEEDS, width
from pbt.props.t11 import model as quoted_model, Unterminated
import big.text as bt

prop = Prop('T15',
    "generated texts through lines_strip and lines_rstrip (default and with generated separators in every iterable form) and "
    "lines_strip_line_comments (generated marker sets, quotes, multi-line quotes, escapes): line, leading, trailing and column of every line "
    "(or the SyntaxError) against models built on str.strip, a separator-stripping model and a character-by-character quote scanner. "
    "Non-trivial: some line is shortened.",
    ["comment markers contain no quote mark, linebreak or escape character, and quoted lines contain no linebreak of their own"])


def expect(info, line, lead, text, trail, whole, what):
    if not text:
        lead, text, trail = whole[:0], whole[:0], whole
    equal((line, info.leading, info.trailing), (text, lead, trail), what, whole)
    equal(info.leading + line + info.trailing + info.end, info.line, 'accounting')


ws_source = source(words=['a', 'b', 'a b', 'é', '\xa0', '\x1f', '\x85x', '\x0c', 'ab', 'ba'], indent=['', ' ', '\t', '  \t', '\xa0', '\x0b', 'a'])


@prop.sub(lambda: st.tuples(ws_source, st.booleans(), st.sampled_from(FEEDS), st.sampled_from(['strip', 'rstrip'])), quick=5000)
def whitespace(case):
    s, as_bytes, feed, which = case
    s = enc(s) if as_bytes else s
    li, want = make(s, None, feed)
    n = 0
    labels = set()
    for info, line in getattr(bt, 'lines_' + which)(li):
        w = want[n][0]
        n += 1
        t = w.strip() if which == 'strip' else w.rstrip()
        lead = w[:len(w) - len(w.lstrip())] if which == 'strip' else w[:0]
        expect(info, line, lead, t, w[len(lead) + len(t):], w, which)
        equal(info.column_number, 1 + width(info.leading, 8), 'column')
        if t != w:
            labels.add('stripped' if t else 'emptied')
    equal(n, len(want), 'every line')
    return labels


@st.composite
def long_lines(draw):
    "lines with a long middle (or a long margin) and a mixture of whitespace on either side"
    s = ''
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.sampled_from(SIZES))
        ws = st.lists(st.sampled_from([' ', '\t', '\xa0', '\x1f', '  ']), max_size=4).map(''.join)
        parts = [draw(ws), draw(st.sampled_from(['a', 'ab ', 'a\t', ' ', ''])), draw(ws)]
        k = draw(st.sampled_from([0, 1, 1, 1, 2]))
        parts[k] *= min(n, 3000 // max(1, len(parts[k])))
        s += ''.join(parts) + draw(st.sampled_from(['\n', '\r\n']))
    return s


prop.sub(lambda: st.tuples(st.one_of(long_lines(), long_lines(), inflate(ws_source), inflate(source(words=['a', ' ', '\t', '\xa0', ' \t'], max_lines=2))), st.booleans(), st.sampled_from(FEEDS), st.sampled_from(['strip', 'rstrip'])),
         quick=500, thorough=9000, name='whitespace_scale')(whitespace)


@prop.sub(lambda: st.tuples(text_and_seps(), st.booleans(), st.sampled_from(['lines', 'pairs']), st.sampled_from(['strip', 'rstrip']), st.sampled_from(FORMS), st.integers(1, 4)), quick=10000)
def separators(case):
    (s, seps), as_bytes, feed, which, form, n_lines = case
    if as_bytes:
        s, seps = enc(s), enc(seps)
    # cut the text into lines: the separators may well be linebreaks
    step = max(1, len(s) // n_lines)
    chunks = [s[i:i + step] for i in range(0, len(s), step)] or [s]
    end = b'|' if as_bytes else '|'
    li = bt.lines(chunks if feed == 'lines' else [(c, end) for c in chunks])
    n = 0
    labels = set()
    for info, line in getattr(bt, 'lines_' + which)(li, as_form(seps, form)):
        w = chunks[n]
        n += 1
        rest = model_strip(w, seps, True, False) if which == 'strip' else w
        t = model_strip(rest, seps, False, True)
        expect(info, line, w[:len(w) - len(rest)], t, rest[len(t):], w, which)
        equal(info.end, end if feed == 'pairs' else s[:0], 'end')
        if t != w:
            labels.add('stripped' if t else 'emptied')
    equal(n, len(chunks), 'every line')
    return labels and labels | {form}


prop.sub(lambda: st.tuples(st.one_of(big_text_and_seps(), st.tuples(text_and_seps(), st.sampled_from(SIZES)).map(lambda t: (t[0][0] * min(t[1], 4000 // max(1, len(t[0][0]))), t[0][1]))),
                           st.booleans(), st.sampled_from(['lines', 'pairs']), st.sampled_from(['strip', 'rstrip']), st.sampled_from(FORMS), st.sampled_from([1, 2, 40])),
         quick=300, thorough=6000, name='separators_scale')(separators)


MARKERS = [['#'], ['//'], ['#', '//'], ['/', '//'], ['--', ';'], ['.'], ['a', 'ab'], ['rem ', 'REM'], ['|', '*'], ['$$', '$'], ['[', '^']]
QUOTES = [[], ['"'], ["'"], ['"', "'"], ['`'], ['<<'], ['%', '"']]
MULTI = [[], [], ['"""'], ["'''"], ['"""', "'''"], ['~'], ['==']]


@st.composite
def comment_cases(draw, big=False):
    markers, quotes, multi = draw(st.sampled_from(MARKERS)), draw(st.sampled_from(QUOTES)), draw(st.sampled_from(MULTI))
    if draw(st.integers(0, 2)) == 0:
        # made up: markers and quotes that begin alike, contain and overlap one another
        markers = draw(st.lists(st.text('#/-', min_size=1, max_size=4), min_size=1, max_size=5, unique=True))
        marks = draw(st.lists(st.text('"~', min_size=1, max_size=3), max_size=4, unique=True))
        k = draw(st.integers(0, len(marks)))
        quotes, multi = marks[:k], marks[k:]
    escape = draw(st.sampled_from(['\\', '\\', '\\', '', None, '!', '^^']))
    if escape == '^^' and '^' in markers:
        escape = '!'
    q = quotes + multi
    words = ['a', 'b ', 'x', ' '] + markers * 2 + [m[:-1] for m in markers] + [m[1:] for m in markers]
    for m in q:
        body = draw(st.lists(st.sampled_from(['a', ' ', 'k'] + markers + ([escape + m, escape * 2] if escape else [])), max_size=3))
        words += [m + ''.join(body) + m] * 2
        words += [m] if m in multi or draw(st.integers(0, 3)) == 0 else []
        if m in multi:
            words += [m + 'y' * draw(st.sampled_from([2, 9, 17, 33, 70, 130]))] * draw(st.integers(0, 2))
    if q and draw(st.integers(0, 5)) == 0:
        words += [q[0][:1]] + ([escape] if escape else [])
    s = draw(inflate(source(words=words, max_lines=6), 3000) if big else source(words=words, max_lines=6))
    return s, markers, quotes, multi, escape


def clipped(li, how):
    "lines as earlier modifiers hand them on: every how-th a character short at one end or both, or stripped"
    if isinstance(how, str):
        yield from getattr(bt, 'lines_' + how)(li)
        return
    for n, (info, line) in enumerate(li):
        if n % 4 in how and line:
            line = info.clip_leading(line, 1)
        if -(n % 4) in how and line:
            line = info.clip_trailing(line, 1)
        yield info, line


def comments_model(wants, markers, quotes, multi, escape):
    "[(text, removed)] for each line, ending with Unterminated when a SyntaxError is due at that point"
    out = []
    state = None
    markers = sorted(markers, key=len, reverse=True)
    for w, _ in wants:
        e = w[:0]
        if quotes or multi:
            triples, _ = quoted_model(w, quotes, multi, escape or e, state or e)
        else:
            triples = [(e, w, e)] if w else []
        pos = 0
        cut = None
        first = True
        for t in triples:
            if t is Unterminated:
                return None
            l, seg, r = t
            inside = bool(l) or (first and bool(state))
            first = False
            if not inside:
                for i in range(len(seg)):
                    if any(seg[i:i + len(m)] == m for m in markers):
                        cut = pos + i
                        break
            if cut is not None:
                state = None
                break
            if inside:
                if r:
                    state = None
                else:
                    state = l or state
            pos += len(l) + len(seg) + len(r)
        if cut is not None:
            out.append((w[:cut], w[cut:]))
            continue
        if state and state not in multi:
            out.append(Unterminated)
            return out
        out.append((w, e))
    if state:
        out.append(Unterminated)
    return out


@prop.sub(lambda: st.tuples(comment_cases(), st.booleans(), st.sampled_from(FEEDS), st.tuples(st.sampled_from(FORMS + ['string']), st.sampled_from(FORMS + ['string']), st.sampled_from(FORMS + ['string']))), quick=15000)
def comments(case, before=None):
    (s, markers, quotes, multi, escape), as_bytes, feed, forms = case
    if as_bytes:
        s, markers, quotes, multi, escape = (enc(x) for x in (s, markers, quotes, multi, escape))
    li, wants = make(s, None, feed)
    whole = wants
    ends = [(s[:0], s[:0])] * len(wants)
    if before:
        # what an earlier modifier leaves of every line, and what it clipped off
        seen = [(line, info.leading, info.trailing) for info, line in clipped(make(s, None, feed)[0], before)]
        wants = [(line, None) for line, _, _ in seen]
        ends = [t[1:] for t in seen]
        li = clipped(li, before)
    model = comments_model(wants, markers, quotes, multi, escape)
    if model is None:
        return False

    def shape(x, form):
        if form == 'string' and any(len(m) != 1 for m in x):
            form = 'tuple'
        # no quotes: anything false
        return as_form(x, form) if x else {'list': [], 'set': None, 'string': s[:0], 'tuple': ()}.get(form, False)
    kw = {}
    if quotes or forms[0] == 'list':
        kw['quotes'] = shape(quotes, forms[1])
    if multi or forms[0] == 'tuple':
        kw['multiline_quotes'] = shape(multi, forms[2])
    if escape not in ('\\', b'\\') or forms[0] == 'set':
        kw['escape'] = escape
    got = []
    try:
        for info, line in bt.lines_strip_line_comments(li, shape(markers, forms[0]), **kw):
            n = len(got)
            ensure(n < len(model) and model[n] is not Unterminated, 'no SyntaxError at line', n + 1)
            text, removed = model[n]
            expect(info, line, ends[n][0], text, removed + ends[n][1], whole[n][0], 'comments')
            equal(info.column_number, 1 + width(info.leading, 8), 'column')
            got.append((text, removed))
    except SyntaxError:
        ensure(len(got) < len(model) and model[len(got)] is Unterminated, 'SyntaxError not due at line', len(got) + 1)
        got.append(Unterminated)
    equal(len(got), len(model), 'number of lines')
    labels = {'error'} if Unterminated in model else set()
    if any(m is not Unterminated and m[1] for m in model):
        labels.add('cut')
    labels |= ({'multi'} if multi else set()) | ({'escape seen'} if escape and escape in s else set()) if labels else set()
    return labels


prop.sub(lambda: st.tuples(comment_cases(True), st.booleans(), st.sampled_from(FEEDS), st.tuples(*[st.sampled_from(FORMS)] * 3)), quick=500, thorough=9000, name='comments_scale')(comments)


@prop.sub(lambda: st.tuples(comment_cases(), st.booleans(), st.sampled_from(FEEDS), st.tuples(*[st.sampled_from(FORMS)] * 3),
                            st.one_of(st.sampled_from(['strip', 'strip', 'rstrip', 'strip_indent']), st.lists(st.integers(-3, 3), min_size=1, max_size=4))), quick=5000)
def comments_after(case):
    "lines an earlier modifier has clipped at the start, at the end or altogether"
    base, before = case[:4], case[4]
    try:
        labels = comments(base, before)
    except IndentationError:
        return False
    return labels and labels | {before if isinstance(before, str) else 'clipped'}


@prop.sub(lambda: st.tuples(st.text('ab#\n', max_size=5), st.sampled_from([[], (), None, '', b'', [3], 0])), quick=200)
def arguments(case):
    s, bad = case
    with raises(ValueError, 'markers'):
        bt.lines_strip_line_comments(bt.lines(s), bad)
    with raises(ValueError, 'in both'):
        bt.lines_strip_line_comments(bt.lines(s), ('#',), quotes=('"',), multiline_quotes=("'", '"'))
    return 'arguments'
