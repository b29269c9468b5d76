"""re_partition / re_rpartition against the spans of re.finditer and reverse search."""
import re
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt import regexgen
from pbt.sizes import sizes
from big.text import re_partition, re_rpartition, reversed_re_finditer
try:
    import regex
except ImportError:
    regex = None

prop = Prop('T05',
    "patterns with and without lookaround, anchors, empty matches, flags; texts with repeated matches; counts 0..6; str/bytes/compiled/regex "
    "patterns. Text pieces are recomputed from the spans of re.finditer (forwards) and of a reverse search (backwards). Non-trivial: at "
    "least one match.",
    ["for patterns with lookaround or empty matches the expected reverse matches are reversed_re_finditer's own, which T06 decides"])

FLAGS = [0, 0, 0, re.I, re.M, re.S, re.I | re.M]


def compare(got, s, spans_wanted, count, reverse, groups_wanted):
    "spans_wanted: left to right"
    e = s[:0]
    pieces, pos = [], 0
    for a, b in spans_wanted:
        pieces.append(s[pos:a])
        pos = b
    pieces.append(s[pos:])
    n = len(spans_wanted)
    ensure(type(got) is tuple and len(got) == 2 * count + 1, 'length', got)
    texts, matches = list(got[::2]), list(got[1::2])
    pad = count - n
    if reverse:
        ensure(matches[:pad] == [None] * pad and texts[:pad] == [e] * pad, 'padding at the start', got)
        texts, matches = texts[pad:], matches[pad:]
    else:
        ensure(matches[n:] == [None] * pad and texts[n + 1:] == [e] * pad, 'padding at the end', got)
        texts, matches = texts[:n + 1], matches[:n]
    ensure(all(m is not None for m in matches), 'missing match', got)
    equal([m.span() for m in matches], list(spans_wanted), 'spans')
    equal([m.groups() for m in matches], list(groups_wanted), 'groups')
    equal(texts, pieces, 'texts', s)
    join = e.join([x if i % 2 == 0 else (x.group(0) if x else e) for i, x in enumerate(got)])
    equal(join, s, 'join')


def label(s, ms, pattern):
    if not ms:
        return False
    first = ms[0]
    out = {'found'}
    if any(s.find(m.group(0)) != m.start() for m in ms):
        out.add('matched text also appears elsewhere')
    if any(m.start() == m.end() for m in ms):
        out.add('empty match')
    return out


def prepare(pattern, s, how, flags):
    if 'bytes' in how:
        pattern, s = pattern.encode('utf-8'), s.encode('utf-8')
    rp = re.compile(pattern, flags)
    if how == 'compiled':
        return rp, rp, s, 0
    if how == 'regex' and regex:
        return regex.compile(pattern, int(flags)), rp, s, 0
    return pattern, rp, s, flags


HOWS = ['str', 'bytes', 'compiled', 'regex']


@prop.sub(lambda: st.tuples(st.one_of(regexgen.general(), regexgen.contextual()), regexgen.text, st.sampled_from(HOWS[:3]), st.sampled_from(FLAGS), st.integers(0, 6)), quick=12000)
def forward(case):
    pattern, s, how, flags, count = case
    p, rp, s, flags = prepare(pattern, s, how, flags)
    ms = list(rp.finditer(s))[:count]
    compare(re_partition(s, p, count, flags=flags), s, [m.span() for m in ms], count, False, [m.groups() for m in ms])
    if count == 1:
        compare(re_partition(s, p, flags=flags), s, [m.span() for m in ms], count, False, [m.groups() for m in ms])
    return label(s, ms, p)


@prop.sub(lambda: st.tuples(st.one_of(regexgen.longest_first(), regexgen.greedy_seq), regexgen.text, st.sampled_from(HOWS), st.integers(0, 6)), quick=8000)
def backward(case):
    pattern, s, how, count = case
    if regex is None:
        return False
    p, rp, s, flags = prepare(pattern, s, how, 0)
    ms = list(regex.compile(rp.pattern, regex.REVERSE).finditer(s))[:count][::-1]
    groups = [m.groups() for m in ms] if rp.groups else [()] * len(ms)
    for got in (re_rpartition(s, p, count), re_partition(s, p, count, reverse=True)):
        compare(got, s, [m.span() for m in ms], count, True, groups)
    if count == 1:
        compare(re_rpartition(s, p), s, [m.span() for m in ms], count, True, groups)
    return label(s, ms, p)


@prop.sub(lambda: st.tuples(st.one_of(regexgen.general(), regexgen.contextual()), regexgen.text, st.sampled_from(HOWS[:3]), st.sampled_from(FLAGS), st.integers(0, 6)), quick=8000)
def backward_context(case):
    pattern, s, how, flags, count = case
    p, rp, s, flags = prepare(pattern, s, how, flags)
    ms = list(reversed_re_finditer(rp, s))[:count][::-1]
    for got in (re_rpartition(s, p, count, flags=flags), re_partition(s, p, count, flags=flags, reverse=True)):
        compare(got, s, [m.span() for m in ms], count, True, [m.groups() for m in ms])
    if rp.search(s) is None:
        ensure(not ms, 'reverse search found what re.search does not')
    else:
        ensure(ms or not count, 'nothing found')
    with raises(ValueError, 'negative count'):
        re_rpartition(s, p, -1, flags=flags)
    with raises(ValueError, 'negative count'):
        re_partition(s, p, -2, flags=flags)
    return label(s, ms, p)


prop.sub(lambda: st.tuples(st.one_of(regexgen.general(), regexgen.contextual()), regexgen.long_text(), st.sampled_from(HOWS[:3]), st.sampled_from(FLAGS), st.one_of(st.integers(0, 6), sizes(6000))),
         quick=600, thorough=8000, name='scale_forward')(forward)
prop.sub(lambda: st.tuples(st.one_of(regexgen.longest_first(), regexgen.greedy_seq), regexgen.long_text(), st.sampled_from(HOWS), st.one_of(st.integers(0, 6), sizes(6000))),
         quick=500, thorough=6000, name='scale_backward')(backward)


# patterns whose matches never overlap one another, under every combination of flags: backwards is forwards reversed
FLAGGED = [r'\w', r'\w+', r'\W+', r'\d', r'\d+', r'\s', r'\S+', 'é', 'É', 's', 'K', '[a-z]', '[A-Z]+', '.', '.+', 'a.b', 'ab', 'a b', 'a # b', r'\n', '[^é]', '^.', '^a', 'a$', '(é)|(a)']
flagged_text = st.lists(st.sampled_from(['a', 'A', 'b', 'ab', 'aB', 'a b', 'a\nb', 'a\nb', ' ', '\n', 'é', 'É', '\xa0', '\u0663', '7', '\u017f', 's', 'S', '\u212a', 'k', 'K', '_', '-', '\u2028']), max_size=10).map(''.join)


@prop.sub(lambda: st.tuples(st.sampled_from(FLAGGED), flagged_text, st.lists(st.sampled_from(['A', 'I', 'S', 'M', 'X']), unique=True), st.sampled_from(HOWS[:3]), st.integers(0, 4), st.booleans()), quick=8000)
def flags(case):
    pattern, s, names, how, count, as_int = case
    f = re.RegexFlag(0)
    for n in names:
        f |= re.RegexFlag[n]
    if how == 'bytes':
        f &= ~re.A
        pattern, s = pattern.encode('latin-1', 'replace'), s.encode('latin-1', 'replace')
    rp = re.compile(pattern, f)
    every = list(rp.finditer(s))
    p, kw = (rp, {}) if how == 'compiled' else (pattern, {'flags': int(f) if as_int else f})
    for back, ms in ((False, every[:count]), (True, every[len(every) - count:] if count < len(every) else every)):
        gots = [re_partition(s, p, count, reverse=back, **kw)]
        if back: gots.append(re_rpartition(s, p, count, **kw))
        for got in gots:
            compare(got, s, [m.span() for m in ms], count, back, [m.groups() for m in ms])
    return bool(every) and count and {n for n in names} | {how}
