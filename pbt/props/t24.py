"""Collections in any iterable form; illegal arguments refused, whatever the rest of the call."""
import collections, re
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import text_and_seps, STRIPS22 as STRIPS
from pbt.sizes import sizes
import big.text as bt

prop = Prop('T24',
    "a table of every argument of a text function that is a collection of strings, each call with generated texts, items and options, as str or bytes. forms: the "
    "collection as a list against any of a dozen iterables. illegal: the collection made illegal in one generated way (nothing in it, an item of another "
    "kind at some position, an empty item, an item repeated, not iterable, a string of the other kind), and single arguments of the wrong kind or out of range: "
    "the documented exception must be raised. Non-trivial: every case in which an exception is due, or a form that isn't a list is used.",
    ["where two things are wrong with a call either exception would do, so exactly one is made wrong",
     "an empty string among the separators of multisplit and multipartition, or among comment markers, is not judged: what they do with it isn't documented",
     "a function that promises nothing about when it complains may do so when its iterator is advanced"])


class Mine:
    "iterable, and nothing else"
    def __init__(self, v):
        self.v = list(v)
    def __iter__(self):
        return iter(self.v)


class Once:
    "an iterator of the user's, without a length, a truth value of its own, or a second pass"
    def __init__(self, v):
        self.v = collections.deque(v)
    def __iter__(self):
        return self
    def __next__(self):
        if not self.v:
            raise StopIteration
        return self.v.popleft()


class MyList(list):
    pass


UNORDERED = {'set': set, 'frozenset': frozenset}
FORMS = dict(tuple=tuple, dict=dict.fromkeys, keys=lambda v: dict.fromkeys(v).keys(), values=lambda v: dict(enumerate(v)).values(),
             generator=lambda v: (x for x in list(v)), iterator=lambda v: iter(list(v)), deque=collections.deque, mine=Mine, once=Once, map=lambda v: map(lambda x: x, list(v)),
             mylist=MyList, reversed=lambda v: reversed(list(v)[::-1]), mapping=lambda v: collections.ChainMap(dict.fromkeys(v)))


def plain(o):
    if bt.isinstance_re_match(o):
        return ['match', o.span()]
    if isinstance(o, bt.LineInfo):
        return ['info', o.line_number, o.column_number, o.indent, o.line, o.leading, o.trailing, o.end]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if hasattr(o, '__next__'):
        return [plain(x) for x in o]
    return o


def outcome(fn):
    try:
        return ('returns', plain(fn()))
    except (TypeError, ValueError, SyntaxError) as e:
        return ('raises', type(e))


def enc(o, as_bytes):
    if isinstance(o, str) and as_bytes:
        return o.encode('ascii', 'replace')
    if isinstance(o, (list, tuple)):
        return type(o)(enc(x, as_bytes) for x in o)
    return o


keeps = st.sampled_from([False, True, bt.ALTERNATING, bt.AS_PAIRS])
few = st.integers(0, 3)
option = st.fixed_dictionaries(dict(keep=keeps, maxsplit=st.integers(-1, 3), reverse=st.booleans(), separate=st.booleans(), strip=st.sampled_from(STRIPS),
                                    left=st.booleans(), right=st.booleans(), count=few, invert=st.booleans()))
ascii_ts = text_and_seps(max_len=8, min_seps=1).filter(lambda t: t[0].isascii() and all(x.isascii() for x in t[1])).map(lambda t: (t[0], list(dict.fromkeys(t[1]))))
body = st.lists(st.sampled_from(['a', 'b ', ' ', '\n', '#', '//', '%', '^', '^b^', 'word', "d'a", '(', '\t']), max_size=10).map(''.join)
marks = st.lists(st.one_of(st.sampled_from(['#', '//', '%', ';', '^', '--', '<!']), st.text('#%/;', min_size=1, max_size=3)), min_size=1, max_size=3, unique=True)
chars = st.lists(st.sampled_from(list("'^%\"~b")), min_size=1, max_size=3, unique=True)
body_marks = st.tuples(body, marks)

# name: (text and items, ordered?, function of the text, the collection, the options; what else is true of it)
TABLE = {}


def slot(strategy, ordered=False, flags=()):
    def deco(fn):
        TABLE[fn.__name__] = (strategy, ordered, set(flags), fn)
        return fn
    return deco


@slot(ascii_ts, flags=['empty item', 'string'])
def multistrip(s, c, o):
    return bt.multistrip(s, c, left=o['left'], right=o['right'])


@slot(ascii_ts, flags=['string'])
def multisplit(s, c, o):
    return bt.multisplit(s, c, keep=o['keep'], maxsplit=o['maxsplit'], reverse=o['reverse'], separate=o['separate'], strip=o['strip'])


@slot(ascii_ts, flags=['string'])
def multipartition(s, c, o):
    return bt.multipartition(s, c, o['count'], reverse=o['reverse'], separate=o['separate'])


@slot(ascii_ts, flags=['string'])
def multirpartition(s, c, o):
    return bt.multirpartition(s, c, o['count'], reverse=o['reverse'], separate=o['separate'])


@slot(ascii_ts, flags=['empty item', 'string'])
def normalize_whitespace(s, c, o):
    return bt.normalize_whitespace(s, c)


@slot(ascii_ts, flags=['default'])
def lines(s, c, o):
    return bt.lines(s, c)


@slot(ascii_ts, flags=['lazy', 'lines', 'empty item', 'string'])
def lines_rstrip(s, c, o):
    return bt.lines_rstrip(bt.lines(s), c)


@slot(ascii_ts, flags=['lazy', 'lines', 'empty item', 'string'])
def lines_strip(s, c, o):
    return bt.lines_strip(bt.lines(s), c)


@slot(body_marks, flags=['lines', 'either', 'lazy', 'string'])
def lines_filter_line_comment_lines(s, c, o):
    return bt.lines_filter_line_comment_lines(bt.lines(s), c)


@slot(body_marks, flags=['lines', 'either', 'lazy', 'string'])
def lines_strip_line_comments(s, c, o):
    return bt.lines_strip_line_comments(bt.lines(s), c)


@slot(st.tuples(body, chars), flags=['lines', 'default', 'no repeats', 'empty item', 'lazy', 'either'])
def comments_quotes(s, c, o):
    return bt.lines_strip_line_comments(bt.lines(s), b'#' if isinstance(s, bytes) else '#', quotes=c)


@slot(st.tuples(body, chars), flags=['lines', 'default', 'no repeats', 'empty item', 'lazy', 'either'])
def comments_multiline_quotes(s, c, o):
    return bt.lines_strip_line_comments(bt.lines(s), b'#' if isinstance(s, bytes) else '#', multiline_quotes=c)


@slot(st.tuples(body, marks), flags=['no repeats', 'empty item', 'string'])
def quotes(s, c, o):
    return bt.split_quoted_strings(s, c)


@slot(st.tuples(body, marks), flags=['no repeats', 'empty item', 'string'])
def multiline_quotes(s, c, o):
    return bt.split_quoted_strings(s, (), multiline_quotes=c)


@slot(st.tuples(body, marks), flags=['no repeats', 'empty item', 'default'])
def also_multiline_quotes(s, c, o):
    return bt.split_quoted_strings(s, [b'\x01'] if isinstance(s, bytes) else ['\x01'], multiline_quotes=c)


@slot(st.tuples(body, chars), flags=['empty item', 'string'])
def apostrophes(s, c, o):
    return bt.gently_title(s, apostrophes=c)


@slot(st.tuples(body, chars), flags=['empty item', 'string'])
def double_quotes(s, c, o):
    return bt.gently_title(s, double_quotes=c)


# here anything is a legal value: only the forms are of interest
@slot(st.tuples(body, st.lists(body, max_size=4)), True, flags=['forms only'])
def lines_of(s, c, o):
    return bt.lines(c)


@slot(st.tuples(body, st.lists(st.sampled_from(['a', 'bb', 'stop.', 'cccc', '    code', '\n', '\n\n']), min_size=1, max_size=8)), True, flags=['forms only'])
def wrap_words(s, c, o):
    return bt.wrap_words(c, 9)


@slot(st.tuples(body, st.lists(st.sampled_from('([{'), max_size=4)), True, flags=['forms only'])
def state(s, c, o):
    return bt.split_delimiters(b'a)' if isinstance(s, bytes) else 'a)', state=c)


@slot(st.tuples(st.just('abcdefghij'), st.lists(st.integers(1, 3), max_size=3).map(lambda n: ['abcdefghij'[sum(n[:i]):sum(n[:i + 1])] for i in range(len(n))])), True, flags=['forms only'])
def combine_splits(s, c, o):
    return bt.combine_splits(s, c, [s[:1], s[1:4]])


# pairs, rather than strings
@slot(st.tuples(body, st.lists(st.tuples(body, st.sampled_from(['\n', '\r\n', ''])), max_size=4)), True, flags=['forms only'])
def lines_of_pairs(s, c, o):
    return bt.lines(c)


def choose(names):
    return st.sampled_from(names).flatmap(lambda n: st.tuples(st.just(n), TABLE[n][0], option, st.booleans()))


@prop.sub(lambda: st.tuples(choose(sorted(TABLE)), st.sampled_from(sorted(FORMS) + sorted(UNORDERED))), quick=7000)
def forms(case):
    (name, (s, items), o, as_bytes), form = case
    _, ordered, flags, fn = TABLE[name]
    if form in UNORDERED and ordered:
        return False
    if len(set(items)) != len(items) and form in ('dict', 'keys', 'mapping', 'set', 'frozenset'):
        return False
    s, items = enc(s, as_bytes), enc(items, as_bytes)
    make = FORMS.get(form) or UNORDERED[form]
    want = outcome(lambda: fn(s, list(items), o))
    equal(outcome(lambda: fn(s, make(items), o)), want, name, s, 'collection', items, 'as', form, 'options', o)
    return form


EMPTY = [[], (), set(), frozenset(), {}, 'string', 'iterator', 'generator', 'mine', 'once']
OTHERS = ['other string', 'none', 7, 0, 2.5, 'list', 'tuple', 'object', 'bytearray']


def wrong(kind, as_bytes):
    return {'other string': 'x' if as_bytes else b'x', 'none': None, 'list': ['x'], 'tuple': ('x', 'y'), 'object': object(), 'bytearray': bytearray(b'x')}.get(kind, kind) if isinstance(kind, str) else kind


place = st.one_of(st.integers(0, 5), st.integers(0, 160))
ways = st.one_of(
    st.tuples(st.just('nothing'), st.sampled_from(EMPTY)),
    st.tuples(st.just('item'), st.sampled_from(OTHERS), place, st.sampled_from(['list', 'tuple', 'generator', 'iterator', 'mine', 'once'])),
    st.tuples(st.just('empty item'), place, st.sampled_from(['list', 'tuple', 'generator', 'set', 'mine'])),
    st.tuples(st.just('repeat'), place, place, st.sampled_from(['list', 'tuple', 'generator', 'mine'])),
    st.tuples(st.just('not iterable'), st.sampled_from([7, 2.5, True, object])),
    st.tuples(st.just('other'), st.sampled_from(['x', 'xy', ' ,'])))

MAKE = dict(FORMS, **UNORDERED, list=list)


@prop.sub(lambda: st.tuples(choose(sorted(n for n, t in TABLE.items() if 'forms only' not in t[2])), ways, st.one_of(st.just(0), st.just(0), sizes(150))), quick=9000)
def illegal(case):
    (name, (s, items), o, as_bytes), way, many = case
    _, ordered, flags, fn = TABLE[name]
    s, items = enc(s, as_bytes), enc(list(items), as_bytes)
    if many and name not in ('apostrophes', 'double_quotes', 'comments_quotes', 'comments_multiline_quotes'):
        items += enc(['\x00' + hex(i) + '\x00' for i in range(many)], as_bytes)
    empty = b'' if as_bytes else ''
    expect = TypeError
    kind = way[0]
    if kind == 'nothing':
        if 'default' in flags:
            return False
        c = way[1]
        if isinstance(c, str):
            if c == 'string':
                c = empty
            else:
                c = MAKE[c]([])
        expect = ValueError
    elif kind == 'item':
        items.insert(way[2] % (len(items) + 1), wrong(way[1], as_bytes))
        c = MAKE[way[3]](items)
        if 'either' in flags:
            expect = (TypeError, ValueError, AttributeError)       # which isn't documented
    elif kind == 'empty item':
        if 'empty item' not in flags:
            return False
        items.insert(way[1] % (len(items) + 1), empty)
        c = MAKE[way[2]](items)
        expect = ValueError
    elif kind == 'repeat':
        if 'no repeats' not in flags:
            return False
        items.insert(way[2] % (len(items) + 1), items[way[1] % len(items)])
        c = MAKE[way[3]](items)
        expect = ValueError
    elif kind == 'not iterable':
        c = way[1]
    else:
        if 'string' not in flags:
            return False
        c = way[1] if as_bytes else way[1].encode()
    if 'lines' in flags:
        s = (b'x' if as_bytes else 'x') + s     # a line, for the function to look at
    with raises(expect, name, s, 'collection', way, c, 'options', o):
        r = fn(s, c, o)
        if 'lazy' in flags:
            list(r)
    return kind


# ---------------------------------------------------------------- single arguments
SINGLE = {}


def single(*strategies):
    def deco(fn):
        SINGLE[fn.__name__] = (st.tuples(*strategies), fn)
        return fn
    return deco


negative = st.one_of(st.integers(-5, -1), st.sampled_from([-2 ** 31, -2 ** 63, -10 ** 30]))
notint = st.sampled_from(['1', None, 1.0, 2.5, b'1', [1], (), object])
text = st.one_of(body, ascii_ts.map(lambda t: t[0]))
other_kind = st.sampled_from(['x', '\\', 'xy'])


@single(text, st.sampled_from(['a', 'b+', '(x)?', 'zz']), negative, st.booleans())
def re_partition_count(f, g, s, p, n, reverse):
    return ValueError, lambda: bt.re_partition(f(s), f(p), n, reverse=reverse)


@single(text, st.sampled_from(['a', 'b+', '(x)?', 'zz']), negative)
def re_rpartition_count(f, g, s, p, n):
    return ValueError, lambda: bt.re_rpartition(f(s), f(p), n)


@single(ascii_ts, negative, st.booleans(), st.booleans())
def multipartition_count(f, g, t, n, reverse, separate):
    return ValueError, lambda: bt.multipartition(f(t[0]), f(t[1]), n, reverse=reverse, separate=separate)


@single(ascii_ts, negative, st.booleans())
def multirpartition_count(f, g, t, n, reverse):
    return ValueError, lambda: bt.multirpartition(f(t[0]), f(t[1]), n, reverse=reverse)


@single(ascii_ts, other_kind)
def normalize_replacement(f, g, t, r):
    return TypeError, lambda: bt.normalize_whitespace(f(t[0]), f(t[1]), g(r))


@single(text, marks, st.sampled_from(['!', '@@', 'a']))
def quote_state(f, g, s, m, q):
    return ValueError, lambda: bt.split_quoted_strings(f(s), f(m), state=f(q))


@single(text, marks, st.integers(0, 5), st.booleans())
def quote_state_kind(f, g, s, m, k, multi):
    q = g(m[k % len(m)])
    return TypeError, lambda: bt.split_quoted_strings(f(s), () if multi else f(m), multiline_quotes=f(m) if multi else (), state=q)


@single(text, marks, other_kind, st.booleans())
def quote_escape_kind(f, g, s, m, e, multi):
    return TypeError, lambda: bt.split_quoted_strings(f(s), () if multi else f(m), multiline_quotes=f(m) if multi else (), escape=g('^' + e))


@single(text, marks, marks, st.integers(0, 5), st.integers(0, 5), st.sampled_from(['list', 'tuple', 'set', 'generator', 'mine']))
def quote_both(f, g, s, m, m2, k, at, form):
    m2 = [x for x in m2 if x not in m]
    m2.insert(at % (len(m2) + 1), m[k % len(m)])
    return ValueError, lambda: bt.split_quoted_strings(f(s), MAKE[form](f(m)), multiline_quotes=MAKE[form](f(m2)))


@single(text, notint, st.sampled_from(['line_number', 'column_number', 'tab_width']))
def lines_number(f, g, s, n, which):
    return TypeError, lambda: bt.lines(f(s), **{which: n})


@single(text, notint, st.sampled_from(['line_number', 'column_number', 'indent', 'leading', 'trailing', 'end', 'match', 'line']), other_kind)
def line_info(f, g, s, n, which, x):
    a = dict(line=f(s), line_number=1, column_number=1)
    if which in ('leading', 'trailing', 'end'):
        n = g(x)
    elif which == 'match' and n is None:
        n = x
    elif which == 'line':
        n = 7 if isinstance(n, (str, bytes)) else n
    a[which] = n
    a = {**a}
    return TypeError, lambda: bt.LineInfo(bt.lines(f(s)), a.pop('line'), a.pop('line_number'), a.pop('column_number'), **a)


@single(st.lists(body, max_size=3), ascii_ts)
def lines_separators(f, g, l, t):
    return ValueError, lambda: bt.lines(f(l), f(t[1]))


@single(text, st.sampled_from(['', 'a b', '1a', 'a-b', '.', 'é b', 'a.b', ' a', 'a\n']))
def grep_attribute(f, g, s, name):
    return ValueError, lambda: list(bt.lines_grep(bt.lines(f(s + 'a')), f('a'), match=name))


@single(st.one_of(notint, st.just(10.0 ** 20)), st.booleans(), st.booleans())
def words_of(f, g, n, flowery, ordinal):
    return ValueError, lambda: bt.int_to_words(n, flowery=flowery, ordinal=ordinal)


@single(st.sampled_from(['none', 'int', 'object', 'float', 'generator', 'frozenset']), st.lists(st.sampled_from(['list', 'tuple', 'dict', 'pair', 'key']), max_size=4), st.lists(body, max_size=2))
def encode(f, g, bad, nest, rest):
    o = dict(none=None, int=3, object=object(), float=2.5, generator=(x for x in ()), frozenset=frozenset('a'))[bad]
    for n in nest:
        if n == 'list': o = [*rest, o]
        elif n == 'tuple': o = (o, *rest)
        elif n == 'dict': o = {'k': o}
        elif n == 'pair': o = [['x'], o]
        elif n == 'key' and o.__hash__ and not isinstance(o, tuple): o = {o: 'v'}
    return TypeError, lambda: bt.encode_strings(o)


@single(st.integers(0, 100), st.sampled_from(['list', 'tuple', 'iterator', 'generator']), st.booleans())
def no_words(f, g, margin, form, two):
    return ValueError, lambda: bt.wrap_words(MAKE[form]([]), margin, two_spaces=two)


@single(st.sampled_from(['}', '>>', 'x']), st.sampled_from(['close', 'escape only', 'quoting only', 'multiline']), st.sampled_from(['\\', '^', 'ee']), st.booleans())
def delimiter(f, g, c, what, e, multi):
    if what == 'close':
        return ValueError, lambda: bt.Delimiter(f('\\'))
    if what == 'escape only':
        return ValueError, lambda: bt.Delimiter(f(c), escape=f(e), multiline=multi)
    if what == 'quoting only':
        return ValueError, lambda: bt.Delimiter(f(c), quoting=True, multiline=multi)
    return ValueError, lambda: bt.Delimiter(f(c), multiline=False)


@single(text, st.sampled_from(['none', 'backslash', 'value', 'open kind', 'close kind', 'escape kind', 'both', 'state']), st.sampled_from(['<', '<<', 'b']), st.integers(0, 2))
def delimiters(f, g, s, what, o, n):
    d = {f(k): bt.Delimiter(f(v)) for k, v in [('(', ')'), ('[', ']')][:n]}
    expect = TypeError
    state = ()
    if what == 'none':
        d, expect = {}, ValueError
    elif what == 'backslash':
        d[f('\\')] = bt.Delimiter(f('>'))
        expect = ValueError
    elif what == 'value':
        d[f(o)] = f('>')
    elif what == 'open kind':
        d = {g(o): bt.Delimiter(f('>')), **d} if n % 2 else {**d, g(o): bt.Delimiter(f('>'))}
    elif what == 'close kind':
        d[f(o)] = bt.Delimiter(g('>'))
    elif what == 'escape kind':
        d[f(o)] = bt.Delimiter(f('>'), escape=g('^'), quoting=True)
    elif what == 'both':
        d[f(o)] = bt.Delimiter(f('>'))
        d[f('>')] = bt.Delimiter(f('|'))
        expect = ValueError
    else:
        d[f(o)] = bt.Delimiter(f('>'))
        state, expect = f([o, '!'][-1 - n % 2:]), ValueError
        if state[-1] != f('!'):
            state = f([o, '>'])
    return expect, lambda: bt.split_delimiters(f(s), d, state=state)


@prop.sub(lambda: st.sampled_from(sorted(SINGLE)).flatmap(lambda n: st.tuples(st.just(n), SINGLE[n][0], st.booleans())), quick=6000)
def arguments(case):
    name, params, as_bytes = case
    expect, fn = SINGLE[name][1](lambda o: enc(o, as_bytes), lambda o: enc(o, not as_bytes), *params)
    with raises(expect, name, params, 'bytes' if as_bytes else 'str'):
        fn()
    return name
