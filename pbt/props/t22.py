"""str / bytes / subclasses: every text function does the same with instances of subclasses, and the bytes result is the str result encoded."""
import re
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises, Violation
from pbt.textgen import enc, text_and_seps, as_form, ws_text, STRIPS22 as STRIPS
from pbt.linesgen import source
import big.text as bt
import big.file, big.time, big.version, big.deprecated
import big.all as big

prop = Prop('T22',
    "a table of every text-taking function of big.text (and the text-taking ones of big.builtin, big.file, big.time and "
    "big.version), each with generated ASCII arguments: called with plain str or bytes, and again with any subset of the arguments replaced "
    "by instances of two str/bytes subclasses; and the str against the bytes result. Non-trivial: an argument is an instance of a subclass "
    "and the call returned a value.",
    ["the subclasses add behaviour (repr, attributes) but do not override the methods of str or bytes"])


class S(str):
    def __repr__(self):
        return f'<S {str(self)!r}>'


class S2(S):
    __slots__ = ()


class B(bytes):
    def __repr__(self):
        return f'<B {bytes(self)!r}>'


class B2(B):
    pass


class Wrap:
    "turns literal str arguments into what this run wants; mask: which of the strings become instances of subclasses"
    def __init__(self, as_bytes, mask):
        self.as_bytes, self.mask, self.n, self.used = as_bytes, mask, 0, False

    def __call__(self, o):
        if isinstance(o, str):
            k = self.mask[self.n % len(self.mask)] if self.mask else 0
            self.n += 1
            if k:
                self.used = True
            if self.as_bytes:
                return (bytes, B, B2)[k](o.encode('ascii'))
            return (str, S, S2)[k](o)
        if isinstance(o, (list, tuple, set, frozenset)):
            return type(o)(self(x) for x in o)
        return o


def plain(o):
    "the result, comparable: match objects become their spans and groups; nothing but plain str and bytes is left"
    if isinstance(o, str):
        return str.__str__(o) + ''
    if isinstance(o, bytes):
        return b''.join([bytes(o)])
    if bt.isinstance_re_match(o):
        return ['match', *o.span(), plain(o.groups())]
    if isinstance(o, bt.LineInfo):
        return ['info', o.line_number, o.column_number, o.indent, plain((o.line, o.leading, o.trailing, o.end))]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if hasattr(o, '__next__'):
        return [plain(x) for x in o]
    return o


def decoded(o):
    if isinstance(o, bytes):
        return o.decode('ascii')
    if isinstance(o, (list, tuple)):
        return [decoded(x) for x in o]
    return o


def ascii_only(s):
    return all(c < '\x80' and c not in '\x1c\x1d\x1e\x1f' for c in s)


A = 'ab'
CALLS = {}


def call(strategy):
    def deco(fn):
        CALLS[fn.__name__.rstrip('_')] = (strategy, fn)
        return fn
    return deco


def a_filter(t):
    return ascii_only(t[0]) and all(map(ascii_only, t[1]))


ts = text_and_seps(max_len=8).filter(a_filter)
form = st.sampled_from(['list', 'tuple', 'set', 'iter', 'string'])
words = st.lists(st.sampled_from(['a', 'bb', 'Word', 'stop.', 'x-y', 'don\'t', '"q"', '\n', '\n\n', '    code', 'HTTPServer', 'aB']), max_size=8)
sentence = st.lists(st.sampled_from(['a', 'bb', ' ', '  ', '\n', '\t', '\r\n', 'Word', 'stop.', "don't", '"q', 'q"', "'", '(', '#', '//', 'HTTPServer', '    ', 'aBc']), max_size=14).map(''.join)


def seps_of(seps, f, w):
    return w(''.join(seps)) if f == 'string' else as_form(w(list(seps)), f)


@call(st.tuples(ts, form, st.booleans(), st.booleans()))
def multistrip(w, p, f, left, right):
    return bt.multistrip(w(p[0]), seps_of(p[1], f, w), left=left, right=right)


@call(st.tuples(ts, form, st.sampled_from([False, True, bt.ALTERNATING, bt.AS_PAIRS]), st.integers(-1, 3), st.booleans(), st.booleans(), st.sampled_from(STRIPS)))
def multisplit(w, p, f, keep, n, reverse, separate, strip):
    return bt.multisplit(w(p[0]), seps_of(p[1], f, w), keep=keep, maxsplit=n, reverse=reverse, separate=separate, strip=strip)


@call(st.tuples(sentence, st.sampled_from([False, True, bt.ALTERNATING, bt.AS_PAIRS]), st.integers(-1, 3), st.booleans(), st.sampled_from(STRIPS)))
def multisplit_default(w, s, keep, n, reverse, strip):
    return bt.multisplit(w(s), keep=keep, maxsplit=n, reverse=reverse, strip=strip)


@call(st.tuples(ts, form, st.integers(0, 4), st.booleans(), st.booleans()))
def multipartition(w, p, f, n, reverse, separate):
    return bt.multipartition(w(p[0]), seps_of(p[1], f, w), n, reverse=reverse, separate=separate)


@call(st.tuples(ts, form, st.integers(0, 4), st.booleans(), st.booleans()))
def multirpartition(w, p, f, n, reverse, separate):
    return bt.multirpartition(w(p[0]), seps_of(p[1], f, w), n, reverse=reverse, separate=separate)


pattern = st.sampled_from(['a', 'b+', '(a)(b)?', 'x*', '[ab]', 'a|ab', '^a', r'\s', 'zz', r'\bb', '(?i)A'])


@call(st.tuples(st.text('abx \n', max_size=10), pattern, st.integers(0, 3), st.booleans(), st.booleans()))
def re_partition(w, s, p, n, reverse, compiled):
    return bt.re_partition(w(s), re.compile(w(p)) if compiled else w(p), n, reverse=reverse)


@call(st.tuples(st.text('abx \n', max_size=10), pattern, st.integers(0, 3), st.booleans()))
def re_rpartition(w, s, p, n, compiled):
    return bt.re_rpartition(w(s), re.compile(w(p)) if compiled else w(p), n)


@call(st.tuples(st.text('abx \n', max_size=10), pattern, st.booleans()))
def reversed_re_finditer(w, s, p, compiled):
    return bt.reversed_re_finditer(re.compile(w(p)) if compiled else w(p), w(s))


@call(st.tuples(ts, form, st.sampled_from([None, '', '-', 'ab', '--'])))
def normalize_whitespace(w, p, f, r):
    return bt.normalize_whitespace(w(p[0]), seps_of(p[1], f, w), w(r))


@call(st.tuples(sentence, st.sampled_from([None, '', '-', '--'])))
def normalize_whitespace_default(w, s, r):
    return bt.normalize_whitespace(w(s), replacement=w(r))


@call(st.tuples(st.text('abABc1 .', max_size=12), st.booleans()))
def split_title_case(w, s, allcaps):
    return bt.split_title_case(w(s), split_allcaps=allcaps)


@call(st.tuples(st.lists(st.text('ab', min_size=1, max_size=4), max_size=5), st.lists(st.lists(st.integers(0, 12), max_size=4), max_size=3)))
def combine_splits(w, pieces, cuts):
    s = ''.join(pieces)
    arrays = [pieces]
    for c in cuts:
        c = sorted({min(x, len(s)) for x in c} | {0, len(s)})
        arrays.append([s[a:b] for a, b in zip(c, c[1:])])
    return bt.combine_splits(w(s), *[w(a) for a in arrays])


@call(st.tuples(sentence, st.sampled_from([None, ["'"], ['`', "'"], ("''", "'"), "'`"]), st.sampled_from([None, ['"'], ('``', '"'), '"`'])))
def gently_title(w, s, a, d):
    return bt.gently_title(w(s), apostrophes=w(a), double_quotes=w(d))


@call(st.tuples(sentence, st.sampled_from([('"', "'"), ('"',), ['"', '(']]), st.sampled_from(['\\', '', 'a']), st.sampled_from([(), ('//',), ['#', '//']]), st.sampled_from(['', '"', '#'])))
def split_quoted_strings(w, s, q, e, m, state):
    return bt.split_quoted_strings(w(s), w(q), escape=w(e), multiline_quotes=w(m), state=w(state))


@call(sentence.map(lambda s: (s,)))
def split_quoted_strings_default(w, s):
    return bt.split_quoted_strings(w(s))


@call(st.tuples(st.lists(st.sampled_from(['a', '(', ')', '[', ']', '"', "'", '\\', ' ', '\n', '{', '}']), max_size=10).map(''.join), st.lists(st.sampled_from(['(', '[', '"']), max_size=2)))
def split_delimiters_default(w, s, state):
    return bt.split_delimiters(w(s), state=w(state))


@call(st.tuples(st.lists(st.sampled_from(['a', '<', '>', '<<', '>>', '%', '|', '^', '\n']), max_size=10).map(''.join), st.booleans(), st.booleans(), st.lists(st.sampled_from(['<', '<<']), max_size=2)))
def split_delimiters(w, s, quoting, multiline, state):
    d = {w('<'): bt.Delimiter(w('>')), w('<<'): bt.Delimiter(w('>>'), multiline=multiline),
         w('%'): bt.Delimiter(w('|'), escape=w('^'), quoting=True, multiline=multiline) if quoting else bt.Delimiter(w('|'))}
    return bt.split_delimiters(w(s), d, state=w(state))


src = source(words=['a', 'b', 'foo', 'Foo', 'x = 1', '#', '//', '"', "'", 'ab'], ends=['\n', '\n', '\r\n'], indent=['', ' ', '    ', '\t', '  \t'])
feed = st.sampled_from(['text', 'text', 'seps', 'lines', 'pairs'])


def lines_of(w, s, f):
    if f == 'text':
        return bt.lines(w(s))
    if f == 'seps':
        return bt.lines(w(s), [w('\n'), w('a')])
    ls = [(a, '\n') for a in s.replace('\r', '').split('\n')]
    if f == 'lines':
        return bt.lines(w([a for a, b in ls]))
    return bt.lines(w(ls))


@call(st.tuples(src, feed))
def lines(w, s, f):
    return lines_of(w, s, f)


@call(st.tuples(src, feed, st.sampled_from(['lines_rstrip', 'lines_strip', 'lines_convert_tabs_to_spaces', 'lines_filter_empty_lines', 'lines_sort', 'lines_strip_indent'])))
def lines_simple(w, s, f, name):
    return getattr(bt, name)(lines_of(w, s, f))


@call(st.tuples(src, feed, st.sampled_from(['lines_rstrip', 'lines_strip']), st.sampled_from([(' ',), ['a', ' '], ('ab', 'b', '\t')])))
def lines_strip_seps(w, s, f, name, seps):
    return getattr(bt, name)(lines_of(w, s, f), w(seps))


@call(st.tuples(src, feed, st.sampled_from(['#', ('//', '#'), ['//'], '#/']), st.booleans()))
def lines_comments(w, s, f, markers, strip):
    if strip:
        return bt.lines_strip_line_comments(lines_of(w, s, f), w(markers), quotes=w(('"', "'")), multiline_quotes=w(("''",)), escape=w('\\'))
    return bt.lines_filter_line_comment_lines(lines_of(w, s, f), w(markers))


@call(st.tuples(src, feed, st.sampled_from(['#', ('//', '#')])))
def lines_comments_default(w, s, f, markers):
    return bt.lines_strip_line_comments(lines_of(w, s, f), w(markers))


@call(st.tuples(src, feed, st.sampled_from(['a', 'oo', '=']), st.booleans(), st.booleans()))
def lines_search(w, s, f, what, grep, invert):
    return (bt.lines_grep if grep else bt.lines_containing)(lines_of(w, s, f), w(what), invert=invert)


@call(st.tuples(words, st.sampled_from([1, 5, 12, 79]), st.booleans()))
def wrap_words(w, ws, margin, two):
    return bt.wrap_words(w(ws), margin, two_spaces=two)


@call(st.tuples(src, st.booleans(), st.booleans()))
def split_text_with_code(w, s, allow, convert):
    return bt.split_text_with_code(w(s), allow_code=allow, convert_tabs_to_spaces=convert)


@call(st.tuples(st.lists(st.tuples(st.lists(st.text('ab ', max_size=9), max_size=3).map('\n'.join), st.integers(1, 4), st.integers(5, 8)), min_size=1, max_size=3), st.sampled_from([' ', ' | ', '']),
               st.sampled_from(['INTRUDE_ALL', 'DELAY_ALL', 'RAISE'])))
def merge_columns(w, cols, sep, strategy):
    return bt.merge_columns(*[(w(t), a, b) for t, a, b in cols], column_separator=w(sep), overflow_strategy=bt.OverflowStrategy[strategy])


@call(st.tuples(sentence, form, st.sampled_from(['ascii', 'utf-8'])))
def encode_strings(w, s, f, e):
    c = list(s[:5]) or ['a']
    return bt.encode_strings(tuple(w(c)) if f == 'tuple' else {w(x): w(x) for x in c} if f == 'set' else w(c), encoding=e) if not w.as_bytes else w(s)


TEXT_ONLY = set()


def str_only(strategy):
    def deco(fn):
        TEXT_ONLY.add(fn.__name__.rstrip('_'))
        return call(strategy)(fn)
    return deco


@str_only(st.tuples(st.sampled_from(['1', '1.2', '1.0.0rc3', '2!1.post4', '1a1.dev2', '1+ab.3']), st.sampled_from(['1', '1.3', '1.2.0'])))
def Version(w, a, b):
    a, b = big.Version(w(a)), big.Version(w(b))
    return [a < b, a == b, str(a), hash(a) == hash(big.Version(str(a))), repr(a)]


@str_only(st.tuples(st.sampled_from(['2020-01-02T03:04:05Z', '2020-01-02T03:04:05.678Z', '1999-12-31T23:59:59.999999Z'])))
def parse_timestamp_3339Z(w, s):
    return big.parse_timestamp_3339Z(w(s))


@str_only(st.tuples(st.text('ab/<>:"|?*. ', max_size=8), st.booleans()))
def translate_filename(w, s, exfat):
    try:
        return (big.translate_filename_to_exfat if exfat else big.translate_filename_to_unix)(w(s))
    except ValueError as e:
        return 'ValueError'


@str_only(st.tuples(st.sampled_from(['3', ' 4 ', '2.5', 'x', '1_0', '0x1f', '', '1e3']),))
def numbers(w, s):
    return [big.get_int(w(s)), big.get_float(w(s)), big.get_int_or_float(w(s)), big.try_int(w(s)), big.try_float(w(s))]


CASES = st.sampled_from(sorted(CALLS)).flatmap(lambda n: st.tuples(st.just(n), CALLS[n][0], st.booleans(), st.lists(st.integers(0, 2), max_size=6)))


def outcome(name, params, w):
    try:
        return plain(CALLS[name][1](w, *params))
    except (SyntaxError, ValueError, OverflowError) as e:
        return type(e).__name__


@prop.sub(lambda: CASES, quick=16000)
def subclasses(case):
    name, params, as_bytes, mask = case
    as_bytes = as_bytes and name not in TEXT_ONLY
    want = outcome(name, params, Wrap(as_bytes, ()))
    w = Wrap(as_bytes, mask)
    got = outcome(name, params, w)
    if got != want:
        raise Violation(f'{name}{params!r} with instances of subclasses ({mask}): {got!r}, plain: {want!r}')
    if as_bytes and name not in NOT_PARALLEL:
        s = outcome(name, params, Wrap(False, ()))
        if s != decoded(want):
            raise Violation(f'{name}{params!r}: str gives {s!r}, bytes {want!r}')
    return w.used and got not in ('SyntaxError', 'ValueError', 'OverflowError') and {name, 'bytes' if as_bytes else 'str'}


NOT_PARALLEL = {'encode_strings'}


class Mixed(Wrap):
    "one of the strings is of the other type"
    def __init__(self, as_bytes, odd):
        super().__init__(as_bytes, ())
        self.odd = odd

    def __call__(self, o):
        if isinstance(o, str):
            flip = self.n == self.odd
            self.n += 1
            self.used = self.used or flip
            return o.encode('ascii') if self.as_bytes != flip else o
        return super().__call__(o)


CHECKED = sorted(['multistrip', 'multisplit', 'multipartition', 'multirpartition', 'normalize_whitespace', 'gently_title', 'lines_comments_default',
                  'lines_search', 're_partition', 're_rpartition', 'reversed_re_finditer'])


@prop.sub(lambda: st.sampled_from(CHECKED).flatmap(lambda n: st.tuples(st.just(n), CALLS[n][0], st.booleans(), st.integers(0, 5))), quick=5000)
def mixed_types(case):
    name, params, as_bytes, odd = case
    if name in ('re_partition', 're_rpartition') and params[2] == 0:
        return False
    w = Mixed(as_bytes, odd)
    try:
        got = plain(CALLS[name][1](w, *params))
    except TypeError:
        return w.used and 'TypeError'
    except (ValueError, SyntaxError) as e:
        got = e
    ensure(not w.used or w.n < 2, name, params, 'str and bytes mixed, argument', odd, 'gives', got)
    return False
