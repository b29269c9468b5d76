"""multisplit: losslessness, agreement of the keep modes, agreement with the builtin splitters."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt.textgen import *
from pbt.sizes import sizes
from big.text import multisplit, ALTERNATING, AS_PAIRS, PROGRESSIVE, whitespace, bytes_whitespace, linebreaks, bytes_linebreaks, \
    unicode_whitespace, ascii_whitespace, unicode_linebreaks, ascii_linebreaks

prop = Prop('T02',
    "metamorphic: join of keep=True/ALTERNATING/AS_PAIRS pieces is the text and they carry the same split as keep=False; differential: "
    "the README's recipes against str/bytes split, rsplit, splitlines on whitespace-dense and arbitrary texts. Non-trivial: a split happened.",
    ["separators are non-empty strings"])


@prop.sub(lambda: st.tuples(text_and_seps(), st.one_of(st.none(), st.integers(-1, 6), st.sampled_from(HUGE)), st.booleans(), st.booleans(), st.booleans()), quick=20000)
def keep_modes(case):
    (s, seps), maxsplit, reverse, separate, as_bytes = case
    if as_bytes:
        s, seps = enc(s), enc(seps)
    n = len(s)
    kw = dict(maxsplit=maxsplit, reverse=truth(reverse, n), separate=truth(separate, n // 2))
    e = s[:0]
    drop = list(multisplit(s, seps, keep=truth(False, n // 3), **kw))
    kept = list(multisplit(s, seps, keep=truth(True, n // 5), **kw))
    alt = list(multisplit(s, seps, keep=ALTERNATING, **kw))
    pairs = list(multisplit(s, seps, keep=AS_PAIRS, **kw))
    equal(e.join(kept), s, 'keep=True join')
    equal(e.join(alt), s, 'ALTERNATING join')
    equal(e.join(a + b for a, b in pairs), s, 'AS_PAIRS join')
    ensure(len(alt) % 2 == 1, 'ALTERNATING length', alt)
    equal(alt[::2], drop, 'ALTERNATING texts')
    equal([a for a, b in pairs], drop, 'AS_PAIRS texts')
    equal([b for a, b in pairs], alt[1::2] + [e], 'AS_PAIRS separators')
    equal([a + b for a, b in pairs], kept, 'keep=True pieces')
    for sep in alt[1::2]:
        ensure(sep and (sep in seps if separate else True), 'not a separator', sep)
    if maxsplit is not None and maxsplit >= 0:
        ensure(len(drop) <= maxsplit + 1, 'too many splits')
    return len(drop) > 1 and f'{min(len(drop) - 1, 5)} splits'


@prop.sub(lambda: st.tuples(text_and_seps(max_seps=1), st.one_of(st.integers(-1, 8), st.sampled_from(HUGE)), st.booleans()), quick=15000)
def like_split_sep(case):
    (s, (sep,)), maxsplit, as_bytes = case
    if as_bytes:
        s, sep = enc(s), enc(sep)
    equal(list(multisplit(s, (sep,), separate=True, maxsplit=maxsplit)), s.split(sep, maxsplit), 'split')
    equal(list(multisplit(s, (sep,), separate=True, maxsplit=maxsplit, reverse=True)), s.rsplit(sep, maxsplit), 'rsplit')
    return sep in s and ('many' if s.count(sep) > 1 else 'one')


@prop.sub(lambda: st.tuples(st.one_of(ws_text, uni_ws_text, st.text(max_size=8)), st.one_of(st.integers(-1, 6), st.sampled_from(HUGE))), quick=15000)
def like_split_whitespace(case):
    s, maxsplit = case
    def go(s, ws):
        for reverse in (False, True):
            got = list(multisplit(s, ws, keep=truth(False, len(s)), maxsplit=maxsplit, reverse=reverse, separate=False, strip=PROGRESSIVE))
            if got and not got[-1]:
                got.pop()
            equal(got, s.rsplit(None, maxsplit) if reverse else s.split(None, maxsplit), 'rsplit' if reverse else 'split', maxsplit, s)
    go(s, whitespace)
    b = s.encode('utf-8', 'replace')
    go(b, bytes_whitespace)
    return len(s.split()) > 1 and ('limited' if 0 <= maxsplit < len(s.split()) else 'unlimited')


@prop.sub(lambda: st.one_of(ws_text, uni_ws_text, st.lists(st.sampled_from(['a', 'bc', '\n', '\r', '\r\n', '\v', '\f', '\x1c', '\x1d', '\x1e', '\x1f', '\x85', '\u2028', '\u2029']), max_size=10).map(''.join), st.text(max_size=8)), quick=15000)
def like_splitlines(case):
    def go(s, lb):
        for keepends in (False, True):
            got = list(multisplit(s, lb, keep=truth(keepends, len(s)), separate=True, strip=False))
            if got and not got[-1]:
                got.pop()
            equal(got, s.splitlines(keepends), 'splitlines', keepends, s)
    go(case, linebreaks)
    go(case.encode('utf-8', 'replace'), bytes_linebreaks)
    return len(case.splitlines()) > 1 and 'lines'


@st.composite
def runs(draw):
    "words and separators, some of them in long runs"
    bits = draw(st.lists(st.tuples(st.sampled_from(['a', 'bc', ' ', ' ', '\t', '\n', '\r\n', '\xa0', ' \t']), st.booleans()), min_size=1, max_size=6))
    n = draw(sizes(5000))
    limit = draw(st.one_of(st.integers(-1, 6), st.sampled_from([n - 2, n - 1, n, n + 1, 2 * n, 10 ** 9, 10 ** 9])))
    s = ''.join(b * n if many else b for b, many in bits)[:12000]
    where = draw(st.integers(0, 3))
    return (' ' * n if where & 1 else '') + s + (' ' * n if where & 2 else ''), max(limit, -1)


@prop.sub(runs, quick=600, thorough=6000)
def long_runs(case):
    "thousands of separators in a row, at the start, between words, or at the end"
    s, maxsplit = case
    like_split_whitespace((s, maxsplit))
    like_splitlines(s)
    for sep in (' ', '\t', '\n', 'a'):
        like_split_sep(((s, (sep,)), maxsplit, False))
    for separate in (False, True):
        for keep in (False, True, ALTERNATING, AS_PAIRS):
            e = multisplit(s, ' ', keep=keep, maxsplit=maxsplit, separate=separate, strip=PROGRESSIVE)
            t = [x for p in e for x in (p if keep == AS_PAIRS else [p])]
            equal(sorted(set(''.join(t)) - {' '}), sorted(set(s) - {' '}), 'characters')
            if keep:
                core = s.lstrip(' ')
                out = ''.join(t)
                ensure(core.startswith(out) and not core[len(out):].strip(' '), 'PROGRESSIVE strips separators only')
            equal(''.join(t).replace(' ', ''), s.replace(' ', ''), 'the text, without separators')
    return len(s) > 50 and 'long'


@prop.sub(enum=lambda tier: sorted(TABLES))
def table_contents(name):
    import big.text
    t = getattr(big.text, name)
    equal(sorted(set(t)), sorted(TABLES[name]), name)
    ensure(name in big.text.__all__, 'not exported', name)
    return name


@prop.sub(lambda: st.tuples(table_texts(), st.integers(-1, 5), st.booleans(), st.booleans()), quick=6000)
def exported_tables(case):
    "losslessness with the exported tables, and splitting backwards cuts at the same places where no limit applies"
    (name, seps, s), maxsplit, reverse, separate = case
    import big.text
    t = getattr(big.text, name)
    e = s[:0]
    kw = dict(maxsplit=maxsplit, reverse=reverse, separate=separate)
    kept = list(multisplit(s, t, keep=True, **kw))
    equal(e.join(kept), s, 'join')
    equal([a for a, b in multisplit(s, t, keep=AS_PAIRS, **kw)], list(multisplit(s, t, **kw)), 'texts')
    if maxsplit < 0:
        equal(list(multisplit(s, t, keep=ALTERNATING, separate=separate)), list(multisplit(s, t, keep=ALTERNATING, separate=separate, reverse=True)), 'both directions')
    return len(kept) > 1 and name


def every_char(tier):
    step = 997
    yield from range(0, 0x3100)
    yield from range(0x3100, 0x110000, step if tier == 'quick' else 7)


@prop.sub(enum=every_char)
def whitespace_tables(n):
    "each character splits exactly when Python says it is whitespace / a linebreak"
    c = chr(n)
    s = 'a' + c + 'b'
    equal(len(list(multisplit(s, separate=True))) == 2, c.isspace(), 'default separators', n)
    equal(c in whitespace, c.isspace(), 'whitespace', n)
    equal(c in unicode_whitespace, c.isspace() and not '\x1c' <= c <= '\x1f', 'unicode_whitespace', n)
    equal(c in ascii_whitespace, c in ' \t\n\r\v\f', 'ascii_whitespace', n)
    lb = len(s.splitlines()) == 2
    equal(c in linebreaks, lb, 'linebreaks', n)
    equal(c in unicode_linebreaks, lb and not '\x1c' <= c <= '\x1f', 'unicode_linebreaks', n)
    equal(c in ascii_linebreaks, c in '\n\r\v\f', 'ascii_linebreaks', n)
    if n < 256:
        b = bytes([n])
        equal(b in bytes_whitespace, b.isspace(), 'bytes_whitespace', n)
        equal(b in bytes_linebreaks, len((b'a' + b + b'a').splitlines()) == 2, 'bytes_linebreaks', n)
    for t, crlf in ((whitespace, '\r\n'), (linebreaks, '\r\n'), (bytes_whitespace, b'\r\n'), (bytes_linebreaks, b'\r\n')):
        ensure(crlf in t, 'crlf missing')
    return (c.isspace() or lb) and 'whitespace'
