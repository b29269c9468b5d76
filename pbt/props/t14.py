"""lines filters against plain list comprehensions."""
import re
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc, FORMS, as_form
from pbt.linesgen import source, make, inflate, FEEDS
from pbt.regexgen import contextual, general
import big.text as bt

prop = Prop('T14',
    "generated texts (as text, lines or pairs; str and bytes) through lines_containing, lines_grep, lines_filter_empty_lines, "
    "lines_filter_line_comment_lines and lines_sort with generated arguments, marker collections in every iterable form: the yielded "
    "(info, line) pairs are exactly those a predicate on the line selects, the same objects in the same order. "
    "Non-trivial: some line is kept and some dropped (or the sort reorders).")


class Spy:
    "upstream iterator that records the pairs it hands out; a pair is never handed out twice"
    def __init__(self, li):
        self.li, self.seen = li, []
    def __iter__(self):
        return self
    def __next__(self):
        info, line = next(self.li)
        # what earlier modifiers and the program left there is none of a filter's business
        n = len(self.seen)
        k = (len(line) * 7 + n * 5 + hash(line[:1] == line[1:2])) % 6
        info.match = None if k < 3 else re.match(line[:0], line)
        if k in (1, 4):
            info.indent = n % 3
            info.extra = line[::-1]
        if k == 5 and info.end:
            info.end, info.trailing = info.end[:0], info.end
        if len(line) > 1 and (k == 2 or (n % 3 == 1 and k != 5)):
            # clipped by an earlier modifier, at either end
            if n % 2 or line[:1] == line[-1:]:
                info.leading, line = info.leading + line[:1], line[1:]
            else:
                info.trailing, line = line[-1:] + info.trailing, line[:-1]
        t = (info, line)
        self.seen.append((t, dict(info.__dict__)))
        return t


def verdict(case_name, spy, got, keep, changed=()):
    kept = [(t, d) for t, d in spy.seen if keep(t[1])]
    equal([l for _, l in got], [t[1] for t, _ in kept], case_name)
    for g, (t, d) in zip(got, kept):
        ensure(g[0] is t[0], 'the same LineInfo is passed through')
        equal(type(g), tuple, 'pair')
        now = {k: v for k, v in g[0].__dict__.items() if k not in changed}
        ensure(now == {k: v for k, v in d.items() if k not in changed}, 'LineInfo unchanged', now, d)
    return 0 < len(kept) < len(spy.seen)


def prepare(case):
    s, as_bytes, feed = case
    f = enc if as_bytes else (lambda x: x)
    li, want = make(f(s), None, feed)
    return f, Spy(li), want


src = st.tuples(source(), st.booleans(), st.sampled_from(FEEDS))
bigsrc = st.tuples(inflate(source(), 2500), st.booleans(), st.sampled_from(FEEDS))
EXOTIC = ['', '', ' ', '\t', '\xa0', '\x1f', '\x0b', '\x0c', ' \xa0', '\t\x1f ', '\x85', '\r']


@prop.sub(lambda: st.tuples(src, st.sampled_from(['a', '', 'foo', ' ', '#', '//', '\t', 'oo', 'é', 'x = 1']), st.sampled_from([None, False, True, 1, 0])), quick=6000)
def containing(case):
    base, sub, invert = case
    f, spy, want = prepare(base)
    sub = f(sub)
    got = list(bt.lines_containing(spy, sub) if invert is None else bt.lines_containing(spy, sub, invert=invert))
    equal(len(spy.seen), len(want), 'lines consumed')
    return verdict('containing', spy, got, (lambda l: sub not in l) if invert else (lambda l: sub in l)) and ('inverted' if invert else 'plain')


@prop.sub(lambda: src, quick=2500)
def empty(case):
    f, spy, want = prepare(case)
    got = list(bt.lines_filter_empty_lines(spy))
    equal(len(spy.seen), len(want), 'lines consumed')
    return verdict('empty', spy, got, lambda l: len(l) > 0) and 'filtered'


PATTERNS = ['a', '^a', 'a$', '^$', 'o+', '[#/]', r'^\s', r'\bfoo\b', 'FOO', r'(?P<x>.)b', '.', r'\S$', 'x = ', '', '(', r'\t', '^.{1,3}$']


@prop.sub(lambda: st.tuples(src, st.sampled_from([p for p in PATTERNS if p != '(']), st.sampled_from([None, False, True]), st.sampled_from([None, 0, int(re.I), int(re.X), int(re.M)]),
                            st.sampled_from(['str', 'compiled', 'regex']), st.sampled_from([None, 'match', 'other', 'line_match'])), quick=6000)
def grep(case):
    base, pat, invert, flags, form, attr = case
    f, spy, want = prepare(base)
    ref = re.compile(f(pat), flags or 0)
    kw = {}
    if invert is not None:
        kw['invert'] = invert
    if attr is not None:
        kw['match'] = attr
    if form == 'str':
        p = f(pat)
        if flags is not None:
            kw['flags'] = flags
    elif form == 'compiled':
        p = ref
    else:
        import regex
        if flags == int(re.X) or flags == int(re.M) or flags == int(re.I):
            p = ref
        else:
            p = regex.compile(f(pat), regex.V0)
    got = list(bt.lines_grep(spy, p, **kw))
    name = attr or 'match'
    if invert:
        r = verdict('grep', spy, got, lambda l: ref.search(l) is None, (name,))
        for info, line in got:
            ensure(getattr(info, name) is None, 'inverted grep sets the match to None')
    else:
        r = verdict('grep', spy, got, lambda l: ref.search(l) is not None, (name,))
        for info, line in got:
            m, w = getattr(info, name), ref.search(line)
            equal((m.span(), m.group(), m.string), (w.span(), w.group(), line), 'match')
    equal(len(spy.seen), len(want), 'lines consumed')
    return r and {'inverted' if invert else 'plain', form, 'attribute' if attr else 'default'}


@prop.sub(lambda: st.tuples(src, st.lists(st.tuples(st.sampled_from([p for p in PATTERNS if p != '(']), st.booleans(), st.sampled_from(['match', 'match', 'other', 'third'])), min_size=2, max_size=4)), quick=3000)
def greps(case):
    "one lines_grep after another: each overwrites the attribute it names, and no other"
    base, chain = case
    f, spy, want = prepare(base)
    li = spy
    for pat, invert, name in chain:
        li = bt.lines_grep(li, f(pat), invert=invert, match=name)
    got = list(li)
    refs = [(re.compile(f(pat)), invert, name) for pat, invert, name in chain]
    r = verdict('greps', spy, got, lambda l: all((ref.search(l) is None) == invert for ref, invert, _ in refs), ('match', 'other', 'third'))
    before = {id(t[0]): d['match'] for t, d in spy.seen}
    for info, line in got:
        wanted = {'match': before[id(info)]}
        for ref, invert, name in refs:
            wanted[name] = None if invert else ref.search(line)
        for name in ('match', 'other', 'third'):
            if name not in wanted:
                ensure(not hasattr(info, name), 'an attribute not asked for', name)
                continue
            m, w = getattr(info, name), wanted[name]
            ensure((m is None) == (w is None), name, m, w)
            if w: equal((m.span(), m.group(), m.re.pattern), (w.span(), w.group(), w.re.pattern), name)
    equal(len(spy.seen), len(want), 'lines consumed')
    return r and ('mixed' if len({i for _, i, _ in chain}) == 2 else 'alike')


MARKERS = [['#'], ['//'], ['#', '//'], ['/', '//', '///'], ['--', ';'], ['.', '*'], ['a', 'ab'], ['a'], ['foo', '"""'], ['\\', '|'], ['[', ']'], ['^'], ['x', '$', 'b']]


@prop.sub(lambda: st.tuples(st.tuples(source(words=['#', '//', '/', '--', ';', '.', '*', 'a', 'ab', 'foo', '"""', '\\', '|', '[', '^', '$', 'x'], max_words=3, indent=EXOTIC), st.booleans(), st.sampled_from(FEEDS)),
                            st.sampled_from(MARKERS), st.sampled_from(FORMS + ['string', 'string'])), quick=6000)
def comment_lines(case):
    base, markers, form = case
    f, spy, want = prepare(base)
    markers = f(markers)
    if form == 'string' and any(len(m) != 1 for m in markers):
        form = 'tuple'
    got = list(bt.lines_filter_line_comment_lines(spy, as_form(markers, form)))
    equal(len(spy.seen), len(want), 'lines consumed')
    return verdict('comments', spy, got, lambda l: not l.lstrip().startswith(tuple(markers))) and {'one' if len(markers) == 1 else 'several', form}


prop.sub(lambda: st.tuples(st.tuples(inflate(source(words=['#', '//', ' ', '\xa0', ';', 'a', 'foo', '\\', '['], max_words=3, indent=EXOTIC), 2500), st.booleans(), st.sampled_from(FEEDS)),
                            st.sampled_from(MARKERS + [[f'm{i}' for i in range(40)] + ['#', 'a', '\\']]), st.sampled_from(FORMS)), quick=300, thorough=6000, name='comment_lines_scale')(comment_lines)


def free_markers(alphabet='/*#ab'):
    "markers over a small alphabet, and texts whose lines begin with a marker, most of one, or one inside out"
    def build(t):
        markers, picks, ab, feed, form, ends = t
        near = []
        for k, (i, how, ws) in enumerate(picks):
            m = markers[i % len(markers)]
            m = [m, m[:-1], m[1:], m[::-1], 'x' + m, m + 'x', m[:1], '', m + m][how]
            near.append(ws + m + ends[k % len(ends)])
        return (('\n'.join(near), ab, feed), markers, form)
    return st.tuples(st.lists(st.text(alphabet=alphabet, min_size=1, max_size=4), min_size=1, max_size=5, unique=True),
                     st.lists(st.tuples(st.integers(0, 4), st.integers(0, 8), st.sampled_from(EXOTIC)), min_size=1, max_size=8), st.booleans(), st.sampled_from(FEEDS),
                     st.sampled_from(FORMS + ['string']), st.lists(st.sampled_from(['', ' ', 'x', ' a', '\n']), min_size=1, max_size=3)).map(build)


prop.sub(free_markers, quick=4000, name='comment_lines_free')(comment_lines)


@prop.sub(lambda: st.tuples(st.text(alphabet='abA \n\xe9', max_size=40), st.integers(0, 39), st.integers(1, 5), st.booleans(), st.sampled_from(FEEDS), st.sampled_from([None, False, True])), quick=2500)
def containing_piece(case):
    "what is looked for is cut from the text itself, so it is at either end of a line, is a whole line, or spans two"
    s, at, n, as_bytes, feed, invert = case
    return containing(((s, as_bytes, feed), s[at % (len(s) or 1):][:n], invert))


@prop.sub(lambda: st.tuples(st.text(alphabet='ab \n', max_size=40), st.booleans(), st.sampled_from(FEEDS), st.one_of(contextual(), general()), st.sampled_from([None, False, True])), quick=2500)
def grep_free(case):
    s, as_bytes, feed, pat, invert = case
    return grep(((s, as_bytes, feed), pat, invert, 0, 'str', None))


KEYS = {'none': None, 'false': 0, 'len': lambda t: len(t[1]), 'lower': lambda t: t[1].lower(), 'stripped': lambda t: t[1].strip(), 'number': lambda t: -t[0].line_number,
        'constant': lambda t: 0}


@prop.sub(lambda: st.tuples(src, st.sampled_from(sorted(KEYS)), st.sampled_from([None, False, True])), quick=5000)
def sort(case):
    base, key, reverse = case
    f, spy, want = prepare(base)
    kw = {}
    if key != 'none' or reverse is None:
        kw['key'] = KEYS[key]
    if reverse is not None:
        kw['reverse'] = reverse
    got = list(bt.lines_sort(spy, **kw))
    ref = sorted([t for t, d in spy.seen], key=KEYS[key] or (lambda t: t[1]), reverse=bool(reverse))
    equal(len(spy.seen), len(want), 'lines consumed')
    equal([t[1] for t in got], [t[1] for t in ref], 'sorted lines')
    for a, b in zip(got, ref):
        ensure(a[0] is b[0], 'stable order')
    for t, d in spy.seen:
        ensure(t[0].__dict__ == d, 'LineInfo unchanged')
    return [t[1] for t in ref] != [t[1] for t, d in spy.seen] and {'key ' + key, 'reverse' if reverse else 'forward'}


prop.sub(lambda: st.tuples(bigsrc, st.sampled_from(['a', '', 'foo', ' ' * 40, '#', 'aaaaaaaaaaaaaaaaaaaa']), st.sampled_from([None, False, True, 2, ''])), quick=200, thorough=4000,
         name='containing_scale')(containing)
prop.sub(lambda: bigsrc, quick=200, thorough=4000, name='empty_scale')(empty)
prop.sub(lambda: st.tuples(bigsrc, st.sampled_from(['a', '^a', 'a$', '^$', r'^\s', r'\S$', '.{30}', '^.{1,3}$']), st.sampled_from([None, False, True]), st.sampled_from([None, int(re.I)]),
                           st.sampled_from(['str', 'compiled', 'regex']), st.sampled_from([None, 'other'])), quick=200, thorough=4000, name='grep_scale')(grep)
prop.sub(lambda: st.tuples(bigsrc, st.sampled_from(sorted(KEYS)), st.sampled_from([None, False, True])), quick=200, thorough=4000, name='sort_scale')(sort)


@prop.sub(lambda: st.tuples(src, st.sampled_from(['1x', 'a b', '', 'x-y'])), quick=200)
def arguments(case):
    base, bad = case
    f, spy, want = prepare(base)
    with raises(ValueError, 'match is not an identifier'):
        bt.lines_grep(spy, f('a'), match=bad)
    for empty in ([], (), f('')):
        with raises(ValueError, 'no markers'):
            bt.lines_filter_line_comment_lines(spy, empty)
    return 'arguments'
