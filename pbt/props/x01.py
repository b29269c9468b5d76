"""The deprecated parsers against index-based scanners written from their documentation."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc
from pbt.linesgen import source, make, FEEDS
import big.text as bt
from big.deprecated import split_quoted_strings, parse_delimiters, lines_strip_comments, Delimiter
from big.deprecated import parse_delimiters_default_delimiters as DEFAULTS, parse_delimiters_default_delimiters_bytes as BYTES_DEFAULTS

prop = Prop('X01',
    "texts assembled from quotes (single, doubled, tripled), delimiters, escapes, comment markers and filler, str and bytes, with default and "
    "generated quote/delimiter/marker tables; every text over a small alphabet to a bounded length: the pieces of split_quoted_strings, the "
    "triples (and ValueError) of parse_delimiters and the lines of lines_strip_comments against scanners. Non-trivial: a quoted piece, a "
    "delimiter or a comment is present.",
    ["is_quoted is judged by its truth", "no character is both an opening delimiter and another delimiter's closing one"])


def chars(s):
    return [s[i:i + 1] for i in range(len(s))]


def scan_quotes(s, quotes, triple, backslash):
    "[(quoted, segment)]"
    out, i, n, plain = [], 0, len(s), 0
    while i < n:
        q = s[i:i + 1]
        if q not in quotes:
            i += 1
            continue
        if i > plain:
            out.append((False, s[plain:i]))
        mark = q * 3 if triple and s[i:i + 3] == q * 3 else q
        j = i + len(mark)
        while j < n:
            if backslash and s[j:j + 1] == backslash:
                j += 2
            elif s[j:j + len(mark)] == mark:
                j += len(mark)
                break
            else:
                j += 1
        j = min(j, n)
        out.append((True, s[i:j]))
        i = plain = j
    if n > plain:
        out.append((False, s[plain:]))
    return out


QUOTES = [None, None, None, ('"',), ["'"], {'"', "'"}, '"\'', '`', ('"', "'", '`'), ('.', '*'), ()]
ESCAPES = [None, None, None, '\\', '!', '']


@st.composite
def quoted_texts(draw):
    quotes, backslash = draw(st.sampled_from(QUOTES)), draw(st.sampled_from(ESCAPES))
    qs = sorted(quotes) if quotes else ['"', "'"]
    b = '\\' if backslash is None else backslash
    pool = [q * k for q in qs for k in (1, 1, 1, 2, 3, 3, 4)] + ['a', 'b c', ' ', '\n', 'é', b, b + qs[0], b * 2, 'x' + qs[-1], qs[0] + qs[-1]]
    return ''.join(draw(st.lists(st.sampled_from(pool), max_size=14))), quotes, backslash


def check_split(s, quotes, triple, backslash, as_bytes):
    if as_bytes:
        s = enc(s)
        quotes = {enc(q) for q in quotes} if isinstance(quotes, set) else enc(quotes) if quotes is not None else None
        backslash = enc(backslash) if backslash is not None else None
    kw = {}
    if quotes is not None: kw['quotes'] = quotes
    if backslash is not None: kw['backslash'] = backslash
    if not triple: kw['triple_quotes'] = False
    got = list(split_quoted_strings(s, **kw))
    ensure(all(len(t) == 2 and type(t[1]) is type(s) for t in got), got)
    if quotes is None: model_quotes = enc(('"', "'")) if as_bytes else ('"', "'")
    elif isinstance(quotes, (str, bytes)): model_quotes = chars(quotes)
    else: model_quotes = quotes
    if backslash is None: backslash = b'\\' if as_bytes else '\\'
    want = scan_quotes(s, model_quotes, triple, backslash)
    equal([(bool(q), seg) for q, seg in got], want, 'split_quoted_strings', s, kw)
    equal(s[:0].join(seg for _, seg in got), s, 'pieces joined')
    tags = set()
    for q, seg in want:
        if q:
            tags.add('triple' if triple and len(seg) >= 6 and seg[:1] * 3 == seg[:3] else 'quoted')
    if want and want[-1][0] and (len(want[-1][1]) < 2 or want[-1][1][-1:] != want[-1][1][:1]):
        tags.add('unterminated')
    return tags


@prop.sub(lambda: st.tuples(quoted_texts(), st.booleans(), st.booleans()), quick=12000,
          examples=[(('a"', None, None), True, False), (("''", None, None), True, True)])
def split(case):
    (s, quotes, backslash), triple, as_bytes = case
    return check_split(s, quotes, triple, backslash, as_bytes)


def all_texts(tier):
    import itertools
    for n in range(8 if tier == 'quick' else 10):
        for t in itertools.product('"\'\\a' if n < 7 else '"\\a', repeat=n):
            yield ''.join(t)


@prop.sub(enum=all_texts)
def split_exhaustive(s):
    return check_split(s, None, True, None, False) | check_split(s, None, False, None, False)


PAIRS = ['()', '[]', '{}', '<>', 'ab', '/|', '«»', '.^']
SAME = ["''", '""', '``', '||', '%%']


def build(table, as_bytes):
    out = []
    for t in table:
        if isinstance(t, str):
            out.append(enc(t) if as_bytes else t)
        else:
            o, c, b, n = t
            if as_bytes: o, c = enc(o), enc(c)
            kw = {}
            if b or o == c: kw['backslash'] = b
            if not n: kw['nested'] = n
            out.append(Delimiter(o, c, **kw))
    return out


DEFAULT_TABLE = ['()', '[]', '{}', ("'", "'", True, False), ('"', '"', True, False)]


def scan_delimiters(s, table):
    "triples, then an error if any"
    openers = {(t[0]): (t[0], t[1], False, True) if isinstance(t, str) else t for t in table}
    closers = {d[1] for d in openers.values() if d[1] != d[0]}
    out, stack, text, i = [], [], '', 0
    while i < len(s):
        c = s[i]
        top = stack[-1] if stack else None
        if top and c == top[1]:
            out.append((text, '', c))
            text = ''
            stack.pop()
        elif top and top[2] and c == '\\':
            text += s[i:i + 2]
            i += 1
        elif not top or top[3]:
            if c in closers:
                return out, True
            if c in openers:
                out.append((text, c, ''))
                text = ''
                stack.append(openers[c])
            else:
                text += c
        else:
            text += c
        i += 1
    if stack:
        return out, True
    if text:
        out.append((text, '', ''))
    return out, False


@st.composite
def tables(draw):
    if draw(st.integers(0, 2)) == 0:
        return None
    out, used = [], set()
    for _ in range(draw(st.integers(1, 4))):
        pair = draw(st.one_of(st.sampled_from(PAIRS + SAME + ['<)', '{)', '(]']), st.text('()[]{}<>abcx|.^$*+?-\'"#\u00ab\u00e9', min_size=2, max_size=2)))
        # an opener may be used once, and isn't also a closer; closers may be shared
        openers = {t[0] for t in out}
        closers = {t[1] for t in out if t[1] != t[0]}
        if pair[0] in openers or pair[0] in closers or (pair[1] != pair[0] and pair[1] in openers):
            continue
        if draw(st.booleans()) and pair[0] != pair[1]:
            out.append(pair)
        else:
            out.append((pair[0], pair[1], draw(st.booleans()), draw(st.booleans())))
    return out or None


@st.composite
def delimited(draw, table):
    "mostly balanced text"
    ds = [(t[0], t[1], False, True) if isinstance(t, str) else t for t in (table or DEFAULT_TABLE)]
    out, stack = [], []
    for _ in range(draw(st.integers(0, 16))):
        k = draw(st.sampled_from(['open', 'open', 'close', 'close', 'text', 'text', 'escape', 'noise']))
        nested = not stack or stack[-1][3]
        if k == 'open' and nested:
            d = draw(st.sampled_from(ds))
            out.append(d[0]); stack.append(d)
        elif k == 'close' and stack:
            out.append(stack.pop()[1])
        elif k == 'text':
            out.append(draw(st.sampled_from(['x', 'yz', ' ', '\n', '\\', 'é'] if draw(st.integers(0, 4)) == 0 else ['x', 'yz', ' '])))
        elif k == 'escape':
            out.append('\\' + draw(st.sampled_from(['\\', 'n'] + [d[1] for d in ds])) if stack and stack[-1][2] else 'q')
        elif k == 'noise':
            d = draw(st.sampled_from(ds))
            if not nested and d[0] != stack[-1][1]:
                out.append(d[0])
            elif draw(st.integers(0, 5)) == 0:
                out.append(d[draw(st.integers(0, 1))])
    if draw(st.integers(0, 4)):
        out += [d[1] for d in reversed(stack)]
    return ''.join(out)


def check_delimiters(s, table, form, as_bytes):
    empty = b'' if as_bytes else ''
    kw = {}
    if table is not None:
        ds = build(table, as_bytes)
        kw['delimiters'] = tuple(ds) if form == 'tuple' else set(ds) if form == 'set' else ds if form == 'list' else dict.fromkeys(ds)
    elif form == 'tuple':
        kw['delimiters'] = None
    elif form == 'list':
        kw['delimiters'] = BYTES_DEFAULTS if as_bytes else DEFAULTS
    want, bad = scan_delimiters(s, table or DEFAULT_TABLE)
    if as_bytes:
        s, want = enc(s), enc(want)
    got, failed = [], False
    try:
        for t in parse_delimiters(s, **kw):
            got.append(t)
    except ValueError:
        failed = True
    equal((got, failed), (want, bad), 'parse_delimiters', s, table)
    for t in got:
        ensure(any(t) and not (t[1] and t[2]), 'an empty or double triple', t)
    if not failed:
        equal(empty.join(empty.join(t) for t in got), s, 'pieces joined')
    return {'error'} if failed else {'delimiter'} if any(t[1] for t in want) else set()


@prop.sub(lambda: tables().flatmap(lambda t: st.tuples(delimited(t), st.just(t))).flatmap(lambda x: st.tuples(st.just(x), st.sampled_from(['tuple', 'list', 'set', 'dict']), st.booleans())), quick=12000,
          examples=[(('x(', None), 'list', True)])
def delimiters(case):
    (s, table), form, as_bytes = case
    return check_delimiters(s, table, form, as_bytes)


def all_nests(tier):
    import itertools
    for n in range(6 if tier == 'quick' else 8):
        for t in itertools.product('()["\\x', repeat=n):
            yield ''.join(t)


@prop.sub(enum=all_nests)
def delimiters_exhaustive(s):
    return check_delimiters(s, None, 'none', False)


BAD = [(['<>', '<>'], ValueError), (['<>', '<|'], ValueError), (['\\/'], ValueError), (['/\\'], ValueError), (['()', 'abc'], ValueError), (['(', '[]'], ValueError), ([], ValueError),
       ([''], ValueError), ([3], TypeError), (['()', None], TypeError), (['()', ('[', ']')], TypeError)]


@prop.sub(lambda: st.tuples(st.sampled_from(range(len(BAD))), st.booleans(), st.sampled_from(['', 'x', 'a(b)'])), quick=60)
def bad_tables(case):
    i, as_bytes, s = case
    ds, error = BAD[i]
    if as_bytes:
        ds, s = [enc(d) if isinstance(d, str) else d for d in ds], enc(s)
    with raises(error, ds):
        list(parse_delimiters(s, ds))
    other = '()' if as_bytes else b'()'
    with raises(TypeError, 'the other type'):
        list(parse_delimiters(s, [other]))
    with raises(TypeError, 'mixed Delimiter'):
        Delimiter('(', b')') if as_bytes else Delimiter(b'(', ')')
    return 'refused'


MARKERS = [['#'], ['//'], ['#', '//'], ['/', '//'], ['--', ';'], ['.'], ['a', 'ab'], ['$$', '$'], ['[', '^']]
LQUOTES = ['default', 'default', None, (), ('"',), ['`'], '"', ('%', '"')]


@st.composite
def comment_cases(draw):
    markers, quotes = draw(st.one_of(st.sampled_from(MARKERS), st.lists(st.text('#/-', min_size=1, max_size=4), min_size=1, max_size=5, unique=True))), draw(st.sampled_from(LQUOTES))
    backslash = draw(st.sampled_from(['\\', '\\', '!']))
    qs = ['"', "'"] if quotes == 'default' else list(quotes or ['"'])
    words = ['a', 'b ', ' ', 'k\t', backslash] + markers * 2
    for q in qs:
        words += [q, q * 3]
        for mark in (q, q, q * 3):
            words.append(mark + ''.join(draw(st.lists(st.sampled_from(['a', ' ', backslash + q, backslash * 2] + markers), max_size=3))) + mark)
    return draw(source(words=words, max_lines=5)), markers, quotes, backslash


@prop.sub(lambda: st.tuples(comment_cases(), st.booleans(), st.sampled_from(FEEDS), st.booleans(), st.booleans(), st.sampled_from(['tuple', 'list', 'join']), st.sampled_from([None, None, 'strip'])), quick=9000)
def comments(case):
    (s, markers, quotes, backslash), as_bytes, feed, rstrip, triple, form, before = case
    if form == 'join' and any(len(m) > 1 for m in markers):
        form = 'tuple'
    model_quotes = ('"', "'") if quotes == 'default' else tuple(quotes or ())
    kw = {}
    if quotes != 'default': kw['quotes'] = quotes
    if backslash != '\\': kw['backslash'] = backslash
    if not rstrip: kw['rstrip'] = False
    if not triple: kw['triple_quotes'] = False
    if as_bytes:
        s, markers, model_quotes, backslash = enc(s), enc(markers), enc(model_quotes), enc(backslash)
        kw = {k: enc(v) for k, v in kw.items()}
    m = s[:0].join(markers) if form == 'join' else tuple(markers) if form == 'tuple' else list(markers)
    li, wants = make(s, None, feed)
    if before:
        li = bt.lines_strip(li)
    tags, n = set(), 0
    for info, line in lines_strip_comments(li, m, **kw):
        whole = wants[n][0]
        w = whole.strip() if before else whole
        n += 1
        cut, pos = None, 0
        for quoted, seg in scan_quotes(w, model_quotes, triple, backslash):
            if not quoted:
                hits = [seg.find(x) for x in markers if x in seg]
                if hits:
                    cut = pos + min(hits)
                    break
            pos += len(seg)
        kept = w if cut is None else w[:cut].rstrip() if rstrip else w[:cut]
        equal(line, kept, 'line', whole, m, kw)
        equal(info.leading + line + info.trailing + info.end, info.line, 'accounting')
        equal(info.line_number, n, 'line number')
        if cut is not None:
            tags.add('comment')
        elif any(x in w for x in markers):
            tags.add('quoted marker')
    equal(n, len(wants), 'every line')
    return tags


@prop.sub(lambda: st.sampled_from([None, '', b'', (), []]), quick=10)
def no_markers(m):
    with raises(ValueError, m):
        list(lines_strip_comments(bt.lines('a\nb'), m))
    return 'refused'


import big.deprecated as bd

NAMED = [('delimiter_parentheses', '()'), ('delimiter_square_brackets', '[]'), ('delimiter_curly_braces', '{}'), ('delimiter_angle_brackets', '<>'),
         ('delimiter_single_quote', ("'", "'", True, False)), ('delimiter_double_quotes', ('"', '"', True, False))]


@st.composite
def named_cases(draw):
    picks = draw(st.lists(st.sampled_from(NAMED), min_size=1, max_size=6, unique_by=lambda p: p[0]))
    return draw(delimited([t for _, t in picks])), picks, draw(st.sampled_from([tuple, list]))


@prop.sub(named_cases, quick=3000)
def named_delimiters(case):
    "the public names mean the delimiters they are named for"
    s, picks, form = case
    want, bad = scan_delimiters(s, [t for _, t in picks])
    got, failed = [], False
    try:
        for t in parse_delimiters(s, form(getattr(bd, name) for name, _ in picks)):
            got.append(t)
    except ValueError:
        failed = True
    equal((got, failed), (want, bad), 'parse_delimiters', s, picks)
    return {'error'} if failed else {'delimiter'} if any(t[1] for t in want) else set()


@prop.sub(lambda: st.tuples(*[st.one_of(st.sampled_from(['(', ')', b'(', b')', 3, None, 2.5, bytearray(b'(')]), st.characters())] * 2), quick=400)
def delimiter_types(case):
    o, c = case
    same = any(isinstance(o, t) and isinstance(c, t) for t in (str, bytes))
    if same:
        d = Delimiter(o, c)
        equal((d.open, d.close, bool(d.backslash), bool(d.nested)), (o, c, False, True), 'attributes')
        return 'kept'
    with raises(TypeError, 'Delimiter', case):
        Delimiter(o, c)
    return 'refused'
