"""Shared generators and models for the big.text properties."""
from hypothesis import strategies as st

# whitespace as Python defines it, independent of big's tables
STR_WS = tuple(c for c in map(chr, range(0x3001)) if c.isspace()) + ('\r\n',)
BYTES_WS = tuple(bytes([i]) for i in range(128) if bytes([i]).isspace()) + (b'\r\n',)
STR_LB = tuple(c for c in map(chr, range(0x2030)) if len(('a' + c + 'a').splitlines()) == 2) + ('\r\n',)
BYTES_LB = (b'\n', b'\r', b'\r\n')

SPECIAL = list('.*+?^$()[]{}|\\-#&~/')
POOLS = ['ab', 'abc', 'xX', 'a\n', ' \t', '\r\n', 'a\r\n', 'ab ', 'aé', 'a\xa0 ', '.*', '^$\n', '|\\', '()[', 'a.\\', '-]^', '+?{', '# \n', 'ab\x00', 'a\x1c\x85']


def enc(o):
    "literal str structure -> the same in bytes (latin-1)"
    if isinstance(o, str):
        return o.encode('latin-1')
    if isinstance(o, (list, tuple)):
        return type(o)(enc(x) for x in o)
    return o


@st.composite
def text_and_seps(draw, max_seps=4, max_len=14, min_seps=1):
    "a text full of (overlapping) separators, with the separators; all latin-1"
    pool = draw(st.one_of(st.sampled_from(POOLS), st.lists(st.sampled_from(list('abcXYZ \n\t\r,;') + SPECIAL), min_size=1, max_size=4, unique=True).map(''.join)))
    seps = draw(st.lists(st.one_of(st.text(pool, min_size=1, max_size=3), st.sampled_from(list(pool))), min_size=min_seps, max_size=max_seps))
    piece = st.one_of(st.sampled_from(seps), st.sampled_from(list(pool)), st.sampled_from(list(pool + 'qZ')), st.just('q')) if seps else st.sampled_from(list(pool) + ['q'])
    s = ''.join(draw(st.lists(piece, max_size=max_len)))
    k = draw(st.integers(0, 40)) - 33
    if k > 0:
        s, seps = stretch(s, k), [stretch(p, k) for p in seps]
    return s, seps


def stretch(s, k):
    "every character followed by k more: long separators, which overlap as the short ones did"
    return ''.join(c + '0123456789'[:k] for c in s)


# values that count as true or false
TRUE = [True, 1, 'x', [0], 2.5, 'False']
FALSE = [False, 0, None, '', (), 0.0]


HUGE = [7, 20, 1000] + sorted({2 ** k + d for k in (7, 8, 12, 15, 16, 24, 30, 31, 32, 62) for d in (-1, 0, 1, 2)} | {2 ** 63 - 1})


def truth(flag, n):
    return (TRUE if flag else FALSE)[n % 6]


TRUTHY = st.sampled_from(list(TRUE) + list(FALSE))


@st.composite
def big_text_and_seps(draw, most=12000):
    "a long text, or many separators, or long ones"
    s, seps = draw(text_and_seps())
    what = draw(st.sampled_from(['repeat', 'run', 'many', 'wide', 'dense', 'dense']))
    n = draw(st.sampled_from([5, 16, 60, 130, 257, 520, 1100, 4100, 9000]))
    if what == 'repeat':
        s = (s * (n // max(1, len(s)) + 1))[:most]
    elif what == 'run':
        p = draw(st.sampled_from(seps))
        run = (p * (n // len(p) + 1))
        s = draw(st.sampled_from([run + s, s + run, s + run + s, run + 'q' + run]))[:most]
    elif what == 'dense':
        seps = draw(st.lists(st.text('abc', min_size=1 + n % 2, max_size=4), min_size=5, max_size=30, unique=True))
        s = ''.join(draw(st.lists(st.one_of(st.sampled_from(seps), st.sampled_from(['q', 'a', 'b', 'c', ' '])), max_size=30)))
    elif what == 'many':
        seps = seps + [chr(0xa1 + i % 90) + 'ab'[i % 2] * (i // 90) for i in range(min(n, 300))]
        s = s + ''.join(p + 'q' for p in seps)
    else:
        seps = seps + [p * n for p in seps[:2]] + [seps[0] * n + 'q']
        s = s + seps[-1] + s + seps[-2] + s
    return s, seps


STRIPS22 = [False, True, "LEFT", "RIGHT", "PROGRESSIVE"]
ws_text = st.lists(st.sampled_from(['a', 'b', 'Cd', ' ', ' ', '\t', '\n', '\r\n', '\r', '\n\r', '\v', '\f', '\x1c', '\x1d', '\x1f', '\x85', '\xa0', '\x00', '\x1b', '\x84', 'é']), max_size=14).map(''.join)
uni_ws_text = st.lists(st.sampled_from(['a', 'é', '\u200b', '\u2060', '\ufeff', '\u180e'] + list(STR_WS)), max_size=10).map(''.join)


def find_next(s, seps, pos, end):
    "leftmost longest separator in s[pos:end], as (start, stop) or None; seps sorted longest first"
    for i in range(pos, end):
        for p in seps:
            if i + len(p) <= end and s[i:i + len(p)] == p:
                return i, i + len(p)
    return None


def find_prev(s, seps, end):
    "the separator ending rightmost in s[:end], longest first"
    for j in range(end, 0, -1):
        for p in seps:
            if j - len(p) >= 0 and s[j - len(p):j] == p:
                return j - len(p), j
    return None


def model_strip(s, seps, left, right):
    seps = sorted(set(seps), key=len, reverse=True)
    if left:
        again = True
        while again:
            again = False
            for p in seps:
                if s[:len(p)] == p:
                    s = s[len(p):]
                    again = True
                    break
    if right:
        again = True
        while again:
            again = False
            for p in seps:
                if len(s) >= len(p) and s[len(s) - len(p):] == p:
                    s = s[:len(s) - len(p)]
                    again = True
                    break
    return s


def model_split(s, seps, maxsplit=-1, reverse=False, separate=False, strip=False):
    "the alternating list text, separator, text, ..., text"
    seps = sorted(set(seps), key=len, reverse=True)
    if maxsplit is None or maxsplit < 0:
        maxsplit = float('inf')
    progressive = strip == 'PROGRESSIVE'
    if progressive:
        if maxsplit == float('inf'):
            s = model_strip(s, seps, True, True)
        else:
            s = model_strip(s, seps, not reverse, reverse)
    elif strip:
        s = model_strip(s, seps, strip != 'RIGHT', strip != 'LEFT')
    out = []
    if not reverse:
        pos = 0
        splits = 0
        while splits < maxsplit:
            m = find_next(s, seps, pos, len(s))
            if m is None:
                break
            start, stop = m
            if not separate:
                while True:
                    n = find_next(s, seps, stop, len(s))
                    if n is None or n[0] != stop:
                        break
                    stop = n[1]
            out += [s[pos:start], s[start:stop]]
            pos = stop
            splits += 1
        out.append(s[pos:])
        if progressive and maxsplit:
            while len(out) > 1 and not out[-1]:
                del out[-2:]
    else:
        end = len(s)
        splits = 0
        while splits < maxsplit:
            m = find_prev(s, seps, end)
            if m is None:
                break
            start, stop = m
            if not separate:
                while True:
                    n = find_prev(s, seps, start)
                    if n is None or n[1] != start:
                        break
                    start = n[0]
            out = [s[start:stop], s[stop:end]] + out
            end = start
            splits += 1
        out = [s[:end]] + out
        if progressive and maxsplit:
            while len(out) > 1 and not out[0]:
                del out[:2]
    return out


def overlapping(s, seps):
    "two occurrences of separators overlap in s"
    spans = [(i, i + len(p)) for p in set(seps) for i in range(len(s)) if s[i:i + len(p)] == p]
    return any(a < d and c < b for n, (a, b) in enumerate(spans) for (c, d) in spans[n + 1:])


FORMS = ['list', 'tuple', 'set', 'frozenset', 'iter', 'dictkeys', 'gen']


def as_form(seps, form):
    if form == 'list':
        return list(seps)
    if form == 'tuple':
        return tuple(seps)
    if form == 'set':
        return set(seps)
    if form == 'frozenset':
        return frozenset(seps)
    if form == 'iter':
        return iter(list(seps))
    if form == 'dictkeys':
        return dict.fromkeys(seps).keys()
    if form == 'gen':
        return (x for x in list(seps))
    if form == 'string':        # a plain string: its characters
        return seps[0][:0].join(seps)
    assert 0, form


# every exported table of separators, as Python defines them
def _tables():
    out = {}
    for kind, full in (('whitespace', STR_WS), ('linebreaks', STR_LB)):
        uni = tuple(c for c in full if not '\x1c' <= c <= '\x1f')
        asc = tuple(c for c in uni if c < '\x80')
        by = BYTES_WS if kind == 'whitespace' else BYTES_LB
        for name, t in (('', full), ('str_', full), ('unicode_', uni), ('ascii_', asc), ('bytes_', by)):
            out[name + kind] = t
            out[name + kind + '_without_crlf'] = tuple(c for c in t if len(c) == 1)
    return out


TABLES = _tables()


@st.composite
def table_texts(draw):
    "(name of a table, its separators, text dense in them)"
    name = draw(st.sampled_from(sorted(TABLES)))
    seps = TABLES[name]
    e = seps[0][:0]
    f = (lambda x: x) if isinstance(e, str) else (lambda x: x.encode('utf-8'))
    other = [f(c) for c in ('a', 'é', '\x1c', '\x85', '\r\n', '\n\r', '\r', '\n', '\x00', '\v')]
    piece = st.one_of(st.sampled_from(seps), st.sampled_from(other), st.just(f('a')), st.just(f('bc')))
    s = e.join(draw(st.lists(piece, max_size=12)))
    if not draw(st.integers(0, 20)):
        s = s * draw(st.sampled_from([30, 300]))
    return name, seps, s[:3000]
