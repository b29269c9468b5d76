"""reversed_re_finditer against the regex package's REVERSE searching, a brute-force search, and re.finditer."""
import re
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt import regexgen
from pbt.sizes import sizes
from big.text import reversed_re_finditer
try:
    import regex
except ImportError:
    regex = None

prop = Prop('T06',
    "generated patterns and texts. Exact: against regex.finditer(REVERSE) for fixed-string alternations (longest first) and greedy sequences; "
    "against a brute-force search over all start positions for every pattern that cannot match the empty string; against reversed(re.finditer) "
    "for patterns that cannot overlap. Everywhere: matches genuine, ordered, disjoint, none skipped. Non-trivial: at least one match; labels "
    "count cases where reversed(re.finditer) is a different answer.",
    ["no lookaround or anchors in the pattern (re offers no way to demand where a match ends, so truncation changes what they see)",
     "lazy quantifiers are not generated"])


def variants(pattern, s, how):
    if how == 'bytes':
        pattern, s = pattern.encode('utf-8'), s.encode('utf-8')
    elif how == 'compiled bytes':
        pattern, s = re.compile(pattern.encode('utf-8')), s.encode('utf-8')
    elif how == 'compiled':
        pattern = re.compile(pattern)
    elif how == 'regex' and regex:
        pattern = regex.compile(pattern)
    return pattern, s


def spans(it):
    return [m.span() for m in it]


def forward_differs(pattern, s):
    return spans(re.finditer(pattern, s))[::-1] != spans(reversed_re_finditer(pattern, s))


def sane(p, s, ms):
    limit = len(s)
    last = None
    for m in ms:
        a, b = m.span()
        ensure(b <= limit, 'overlap or out of order', spans(ms))
        ensure(last is None or b != last[1], 'two matches end at the same place', spans(ms))
        f = p.fullmatch(s, a, b)
        ensure(f is not None, 'not a match of the pattern at its span', (a, b))
        equal(m.group(0), s[a:b], 'text at span')
        ensure(m.string == s, 'string of the match')
        last = (a, b)
        limit = a


def brute(p, s):
    "of the matches starting at each position before the previous match, the one ending rightmost, then the longest"
    out, limit, prev_end = [], len(s), None
    while True:
        best = None
        for start in range(limit + 1):
            m = p.match(s, start, limit)
            if m and m.end() != prev_end and (best is None or m.end() > best.end()):
                best = m
        if best is None:
            return out
        out.append((best.span(), best.groups(), best.regs))
        limit, prev_end = best.start(), best.end()


HOWS = ['str', 'bytes', 'compiled', 'compiled bytes', 'regex']


@prop.sub(lambda: st.tuples(st.one_of(regexgen.longest_first(), regexgen.greedy_seq), regexgen.text, st.sampled_from(HOWS)), quick=10000)
def like_regex_reverse(case):
    pattern, s, how = case
    if regex is None:
        return False
    p, t = variants(pattern, s, how)
    raw = p.pattern if hasattr(p, 'pattern') else p
    got = list(reversed_re_finditer(p, t))
    want = list(regex.compile(raw, regex.REVERSE).finditer(t))
    equal(spans(got), spans(want), 'spans', pattern, t)
    if '(' in pattern:
        equal([m.groups() for m in got], [m.groups() for m in want], 'groups')
    sane(re.compile(raw), t, got)
    return bool(got) and {how, 'differs from reversed finditer' if forward_differs(pattern, s) else 'same as reversed finditer'}


@prop.sub(lambda: st.tuples(regexgen.general(), regexgen.text, st.sampled_from(HOWS[:4])), quick=10000)
def like_brute_force(case):
    pattern, s, how = case
    p, t = variants(pattern, s, how)
    rp = re.compile(p) if not hasattr(p, 'pattern') else p
    got = list(reversed_re_finditer(p, t))
    sane(rp, t, got)
    if rp.fullmatch(t[:0]):
        return False
    equal([(m.span(), m.groups(), m.regs) for m in got], brute(rp, t), 'brute force', pattern, t)
    gap = len(t)
    for m in got:
        ensure(rp.search(t, m.end(), gap) is None, 'a match was skipped after', m.span())
        gap = m.start()
    ensure(rp.search(t, 0, gap) is None, 'a match was skipped at the start')
    return bool(got) and {how, 'differs from reversed finditer' if forward_differs(pattern, s) else 'same as reversed finditer'}


prop.sub(lambda: st.tuples(st.one_of(regexgen.longest_first(), regexgen.greedy_seq), regexgen.long_text(), st.sampled_from(HOWS)), quick=500, thorough=6000, name='scale')(like_regex_reverse)
prop.sub(lambda: st.tuples(regexgen.general(), regexgen.long_text(140), st.sampled_from(HOWS[:4])), quick=400, thorough=6000, name='scale_brute')(like_brute_force)


@st.composite
def runs(draw):
    "a few long runs, and patterns whose matches span them, overlap far inside one another and cut one another short"
    parts = draw(st.lists(st.tuples(st.sampled_from(['a', 'b', 'ab', 'c', 'ba', 'aab']), st.one_of(st.integers(1, 4), sizes(700))), min_size=1, max_size=4))
    room = 900
    s = ''
    for w, n in parts:
        s += w * min(n, room // len(w))
        room = 900 - len(s)
    s += draw(st.sampled_from(['', '', 'b', 'c', 'bc', 'ac', 'aab']))
    n = draw(st.sampled_from([2, 3, len(parts[0][0] * parts[0][1]) % 900 or 1]))
    alts = draw(st.lists(st.sampled_from(['a+', 'a+b', 'a{3}b', 'b+c', '(?:ab)+', '(?:ab)+a?', 'ac', 'bc', 'a+b+', 'b{2,}', 'c+', 'a{%d}b?' % n, '(a+)(b)?', '[ab]+', 'b[ab]+c', '[ab]{3}', 'ba']), min_size=1, max_size=4, unique=True))
    if draw(st.booleans()):
        # one long match, and one that begins inside it, a little or far, and ends further right
        w, end = draw(st.sampled_from(['a', 'a', 'ab', 'aab', 'b'])), draw(st.sampled_from(['b', 'c', 'bc', 'ac']))
        n = draw(st.one_of(st.integers(1, 8), sizes(700), st.integers(100, 900)))
        reps = max(1, n // len(w))
        k = draw(st.one_of(st.integers(1, 3), st.integers(1, reps)))
        s = draw(st.sampled_from(['', 'x', 'ba'])) + w * reps + end + draw(st.sampled_from(['', 'x', 'a']))
        alts = draw(st.permutations([f'(?:{w})+', draw(st.sampled_from([f'(?:{w}){{{k}}}{end}', f'{w}{end}', end, f'{w[-1]}{end}', f'{w}?{end[0]}']))]))
        alts = list(alts) + draw(st.sampled_from([[], [], [f'(?:{w})+' + end], [f'(?:{w}){{{reps}}}{end[0]}?'], ['[ab]{2}']]))
    return '|'.join(alts), s


@prop.sub(lambda: st.tuples(runs(), st.sampled_from(HOWS[:4])), quick=1500, thorough=15000)
def long_matches(case):
    (pattern, s), how = case
    return like_brute_force((pattern, s, how))


# single characters, words that cannot overlap themselves or each other, maximal runs
DISJOINT = ['a', '[ab]', '.', 'ab', 'abc', 'ab|c', 'abc|x', '(a)|(b)', 'a(b)c', 'a[^a]', r'\n', 'a.?b'[:1], '(?i:ab)']

@prop.sub(lambda: st.tuples(st.sampled_from(DISJOINT), regexgen.text, st.sampled_from(HOWS[:4]), st.sampled_from([0, re.I, re.S, re.I | re.M])), quick=8000)
def like_reversed_finditer(case):
    pattern, s, how, flags = case
    if pattern == 'a[^a]' or pattern.startswith('(?i') and how.startswith('bytes'):
        flags = 0
    p, t = variants(pattern, s, how)
    if hasattr(p, 'pattern'):
        got = list(reversed_re_finditer(p, t))
        flags = 0
    else:
        got = list(reversed_re_finditer(p, t, flags))
    want = list(re.finditer(p.pattern if hasattr(p, 'pattern') else p, t, flags))[::-1]
    equal([(m.span(), m.groups()) for m in got], [(m.span(), m.groups()) for m in want], 'reversed finditer')
    return bool(got) and (f'flags {int(flags)}' if flags else 'no flags')


prop.sub(lambda: st.tuples(st.sampled_from(DISJOINT), regexgen.long_text(70000), st.sampled_from(HOWS[:4]), st.sampled_from([0, re.I, re.S, re.I | re.M])), quick=200, thorough=3000, name='scale_disjoint')(like_reversed_finditer)


# patterns whose matches never overlap one another, under every combination of flags: which characters match is all that differs
FLAGGED = [r'\w', r'\w+', r'\W+', r'\d', r'\d+', r'\s', r'\S+', r'[^\W\d]', 'é', 'É', 's', 'K', '[a-z]', '[A-Z]+', '.', '.+', 'ab', 'a b', 'a # b', r'\n', '[^é]', 'i', 'µ', '(é)|(a)']
flagged_text = st.lists(st.sampled_from(['a', 'A', 'b', 'ab', 'aB', 'a b', ' ', '\n', 'é', 'É', '\xa0', '\u0663', '7', '\u017f', 's', 'S', '\u212a', 'k', 'K', '_', '-', 'İ', 'ı', 'i', 'I', 'µ', 'μ', '\x1c', '\u2028']), max_size=10).map(''.join)


@prop.sub(lambda: st.tuples(st.sampled_from(FLAGGED), flagged_text, st.lists(st.sampled_from(['A', 'I', 'S', 'M', 'X']), unique=True), st.sampled_from(HOWS[:4]), st.booleans()), quick=10000)
def flags(case):
    pattern, s, names, how, as_int = case
    f = re.RegexFlag(0)
    for n in names:
        f |= re.RegexFlag[n]
    if how.endswith('bytes'):
        pattern, s = pattern.encode('latin-1', 'replace'), s.encode('latin-1', 'replace')
    want = list(re.compile(pattern, f).finditer(s))[::-1]
    if how.startswith('compiled'):
        got = list(reversed_re_finditer(re.compile(pattern, f), s))
    elif as_int:
        got = list(reversed_re_finditer(pattern, s, int(f)))
    else:
        got = list(reversed_re_finditer(pattern, s, flags=f))
    equal([(m.span(), m.groups()) for m in got], [(m.span(), m.groups()) for m in want], 'reversed finditer', pattern, s, int(f))
    return bool(got) and {n for n in names} | {'str' if isinstance(s, str) else 'bytes'}
