"""Purity: arguments stay as they were; results don't depend on earlier calls, on iterators left half used, or on other threads."""
import re, sys, threading, types
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, Violation
from pbt.props import t22
from pbt.props.t22 import CALLS, TEXT_ONLY, Wrap, plain
import big.text

prop = Prop('T23',
    "programs of calls of the text functions (the call table of T22, plus int_to_words), made of a few sets of arguments recombined position by "
    "position, as str and as bytes, run in one copy of the module: each outcome must be the outcome of the same call in a newly loaded copy, "
    "whatever was called before, whatever was done to earlier results, with iterators advanced in turns or abandoned, in one thread or several; "
    "and every list, set, dict and Delimiter passed must be as it was. Non-trivial: at least two of the calls returned values.",
    ["what happens to an argument changed by the caller while an iterator over it is in use is not specified"])

CODE = compile(open(big.text.__file__, encoding='utf-8').read(), big.text.__file__, 'exec')


def fresh():
    m = types.ModuleType('big.text')
    m.__file__, m.__package__ = big.text.__file__, 'big'
    exec(CODE, m.__dict__)
    return m


def snapshot(o, d, seen=None):
    if isinstance(o, (str, bytes, int, float, type(None), bool)):
        return o
    t = type(o)
    if isinstance(o, (list, tuple)):
        return t, [snapshot(x, d) for x in o]
    if isinstance(o, (set, frozenset)):
        return t, {snapshot(x, d) for x in o}
    if isinstance(o, dict):
        return t, [(snapshot(k, d), snapshot(v, d)) for k, v in o.items()]
    if isinstance(o, d):
        return t, o.close, o.escape, o.quoting, o.multiline
    return id(o)


class Spy:
    "a copy of the module whose functions remember what they were given"
    def __init__(self, module):
        self.module, self.given = module, []

    def __getattr__(self, name):
        v = getattr(self.module, name)
        if not isinstance(v, types.FunctionType) or name.startswith('is'):
            return v
        def call(*args, **kwargs):
            d = self.module.Delimiter
            self.given.append((name, args, kwargs, snapshot(args, d), snapshot(kwargs, d)))
            return v(*args, **kwargs)
        return call

    def check(self):
        d = self.module.Delimiter
        for name, args, kwargs, a, k in self.given:
            equal((snapshot(args, d), snapshot(kwargs, d)), (a, k), 'arguments after', name)


def int_to_words(w, i, flowery, ordinal):
    return t22.bt.int_to_words(i, flowery=flowery, ordinal=ordinal)


TABLE = {k: v for k, v in CALLS.items() if k not in TEXT_ONLY}
TABLE['int_to_words'] = (st.tuples(st.one_of(st.integers(-200, 10**6), st.integers(-10**40, 10**40)), st.booleans(), st.booleans()), int_to_words)

def more(strategy):
    def deco(fn):
        TABLE[fn.__name__] = strategy, fn
        return fn
    return deco


MANY = [c + d for d in ('', 'q', '==') for c in 'abcdefghijklmnop']
many = st.tuples(st.sampled_from([1, 2, 4, 7, 8, 9, 15, 16, 17, 33, 40]), st.lists(st.sampled_from('rstuvw'), max_size=2)).map(lambda t: MANY[:t[0]] + t[1])
long_text = st.tuples(st.text('abqrst= .', max_size=6), st.sampled_from([0, 1, 10, 60, 300]), st.text('abqrst= .', max_size=6)).map(lambda t: t[0] + 'xay' * t[1] + t[2])
FLAGS = st.sampled_from([0, 0, re.I, re.M, re.S, re.X, re.A, re.I | re.M])
PATTERNS = st.sampled_from(['a', 'A', '^a', 'a .', 'x*', 'a$', 'b+', '(A)|b', 'a' * 20 + '?', 'a # b'])
re_text = st.text('aAbx \n', max_size=12)


@more(st.tuples(long_text, many, st.booleans(), st.booleans(), st.booleans()))
def multisplit_many(w, s, seps, keep, separate, reverse):
    return t22.bt.multisplit(w(s), w(seps), keep=keep, separate=separate, reverse=reverse)


@more(st.tuples(long_text, many, st.booleans(), st.booleans()))
def multistrip_many(w, s, seps, left, right):
    return t22.bt.multistrip(w(s), w(seps), left, right)


@more(st.tuples(long_text, many, st.integers(0, 2)))
def normalize_many(w, s, seps, k):
    return t22.bt.normalize_whitespace(w(s), w(seps), w('_' * k))


@more(st.tuples(long_text, many, st.sampled_from(['\\', 'q', ''])))
def quoted_many(w, s, quotes, escape):
    return t22.bt.split_quoted_strings(w(s), w(quotes), escape=w(escape))


@more(st.tuples(long_text, many, st.sampled_from('rstuvw'), st.booleans()))
def delimiters_many(w, s, openers, closer, multiline):
    D = t22.bt.Delimiter
    d = {w(o): D(w(closer + '=')) for o in openers if o != closer}
    d[w(closer)] = D(w('z'), escape=w('='), quoting=True, multiline=multiline)
    return t22.bt.split_delimiters(w(s), d)


@more(st.tuples(st.lists(st.sampled_from(['', 'a', 'bc', 'def']), max_size=6), st.lists(st.sampled_from([0, 1, 1, 2, 3, 5]), max_size=6), st.booleans()))
def combine_empties(w, pieces, sizes, as_list):
    s = ''.join(pieces)
    other, at = [], 0
    for n in sizes:
        other.append(s[at:at + n])
        at += n
    arrays = [pieces, other + [s[at:]]]
    return t22.bt.combine_splits(w(s), *[w(a if as_list else tuple(a)) for a in arrays])


@more(st.tuples(re_text, PATTERNS, FLAGS, st.integers(0, 3), st.booleans()))
def partition_flags(w, s, p, flags, n, reverse):
    return t22.bt.re_partition(w(s), w(p), n, flags=flags, reverse=reverse)


@more(st.tuples(re_text, PATTERNS, FLAGS))
def finditer_flags(w, s, p, flags):
    return t22.bt.reversed_re_finditer(w(p), w(s), flags)


@more(st.tuples(re_text, PATTERNS, FLAGS, st.booleans()))
def grep_flags(w, s, p, flags, invert):
    return t22.bt.lines_grep(t22.bt.lines(w(s)), w(p), flags=flags, invert=invert)


@more(st.tuples(st.lists(st.sampled_from(['a', '\t', ' ', '    ', 'code', '\n', '\n\n', 'b\tc']), max_size=12).map(''.join), st.integers(1, 9), st.integers(1, 8), st.booleans()))
def text_code(w, s, indent, tabs, convert):
    return t22.bt.wrap_words(t22.bt.split_text_with_code(w(s), code_indent=indent, tab_width=tabs, convert_tabs_to_spaces=convert), 20)


@more(st.tuples(st.lists(st.sampled_from(['a', '\t', ' ', '  \t', '\n', '\n', 'b\tc']), max_size=12).map(''.join), st.integers(1, 9), st.integers(0, 5), st.integers(0, 3), st.booleans()))
def lines_settings(w, s, tabs, first, column, indent):
    b = t22.bt
    li = b.lines(w(s), tab_width=tabs, line_number=first, column_number=column)
    return b.lines_strip_indent(li) if indent else b.lines_convert_tabs_to_spaces(li)


@more(st.tuples(st.lists(st.text('ab ', max_size=12), max_size=4).map('\n'.join), st.integers(1, 5), st.sampled_from(['INTRUDE_ALL', 'DELAY_ALL']), st.integers(0, 3), st.integers(0, 3)))
def columns(w, s, width, strategy, before, after):
    b = t22.bt
    return b.merge_columns((w(s), width, width), (w('1 2\n3\n4\n5\n6'), 3, 3), overflow_strategy=b.OverflowStrategy[strategy], overflow_before=before, overflow_after=after)


ERRORS = (SyntaxError, ValueError, OverflowError, TypeError)


class Using:
    def __init__(self, m): self.m = m
    def __enter__(self): self.old, t22.bt = t22.bt, self.m
    def __exit__(self, *a): t22.bt = self.old


def start(c):
    name, params, as_bytes = c
    return TABLE[name][1](Wrap(as_bytes, ()), *params)


def outcome(c):
    try:
        return plain(start(c))
    except ERRORS as e:
        return type(e).__name__


def alone(c):
    with Using(fresh()):
        return outcome(c)


@st.composite
def programs(draw, most=6):
    "calls of one or two functions, whose arguments come from a few draws, recombined"
    names = draw(st.lists(st.sampled_from(sorted(TABLE)), min_size=1, max_size=2))
    pools = [(n, draw(st.lists(TABLE[n][0], min_size=1, max_size=3))) for n in names]
    calls = []
    for _ in range(draw(st.integers(2, most))):
        n, pool = pools[draw(st.integers(0, len(pools) - 1))]
        width = len(pool[0])
        pick = draw(st.lists(st.integers(0, len(pool) - 1), min_size=width, max_size=width))
        calls.append((n, tuple(pool[k][i] for i, k in enumerate(pick)), draw(st.booleans())))
    return calls


def spoil(o):
    "what a caller may do to a result"
    if isinstance(o, list):
        for x in o: spoil(x)
        o[:] = [None]
    elif isinstance(o, dict):
        o.clear()
    elif isinstance(o, set):
        o.add('spoilt')
    elif isinstance(o, tuple):
        for x in o: spoil(x)


def verdict(wants, calls):
    good = [c[0] for c, w in zip(calls, wants) if not isinstance(w, str) or w not in [e.__name__ for e in ERRORS]]
    return len(good) > 1 and set(good)


@prop.sub(programs, quick=8000)
def history(calls):
    spy = Spy(fresh())
    wants = []
    for i, c in enumerate(calls):
        want = alone(c)
        wants.append(want)
        with Using(spy):
            try:
                raw = start(c)
                raw = list(raw) if hasattr(raw, '__next__') else raw
                got = plain(raw)
                got = got.copy() if hasattr(got, 'copy') else got
                spoil(raw)
            except ERRORS as e:
                got = type(e).__name__
        if got != want:
            raise Violation(f'call {i}, {c!r}: {got!r} after the calls before it, {want!r} alone')
        spy.check()
    for c, want in zip(calls, wants):
        with Using(spy):
            got = outcome(c)
        if got != want:
            raise Violation(f'{c!r} again: {got!r}, at first {want!r}')
    spy.check()
    return verdict(wants, calls)


@prop.sub(lambda: st.tuples(programs(5), st.lists(st.integers(0, 4), max_size=40), st.booleans()), quick=5000)
def in_turns(case):
    "the iterators of several calls, advanced in any order, some of them abandoned"
    calls, order, abandon = case
    wants = [alone(c) for c in calls]
    spy = Spy(fresh())
    with Using(spy):
        running, got, turns = [], [], 0
        for c in calls:
            try:
                r = start(c)
            except ERRORS as e:
                r = None
                got.append(type(e).__name__)
            else:
                got.append([])
            running.append(r)
        for i, r in enumerate(running):
            if r is not None and not hasattr(r, '__next__'):
                got[i], running[i] = plain(r), None
        live = [i for i, r in enumerate(running) if r is not None]

        def step(i):
            try:
                got[i].append(plain(next(running[i])))
            except StopIteration:
                live.remove(i)
            except ERRORS as e:
                got[i] = type(e).__name__
                live.remove(i)
        for k in order:
            if live:
                step(live[k % len(live)])
                turns += len(live) > 1
        dropped = live[0] if abandon and live else None
        if dropped is not None:
            live.remove(dropped)
            running[dropped] = None
        while live:
            step(live[-1])
    for i, (c, w) in enumerate(zip(calls, wants)):
        if i == dropped:
            if isinstance(w, list):
                equal(got[i], w[:len(got[i])], 'abandoned', c)
        elif got[i] != w:
            raise Violation(f'{c!r}: {got[i]!r} in turns with other iterators, {w!r} alone')
    spy.check()
    return bool(turns) and verdict(wants, calls)


@prop.sub(lambda: st.tuples(programs(4), st.integers(2, 4)), quick=700, thorough=6000)
def threads(case):
    "several threads make the calls, in different orders, with the interpreter switching between them as often as it can"
    calls, n = case
    wants = [alone(c) for c in calls]
    m = fresh()
    failures, barrier = [], threading.Barrier(n)

    def work(k):
        barrier.wait()
        for turn in range(3):
            for i in list(range(k, len(calls))) + list(range(k)):
                if i < len(calls):
                    try:
                        got = outcome(calls[i])
                    except Exception as e:
                        got = repr(e)
                    if got != wants[i]:
                        failures.append((calls[i], got, wants[i]))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with Using(m):
            ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            for t in ts: t.start()
            for t in ts: t.join()
    finally:
        sys.setswitchinterval(interval)
    if failures:
        c, got, want = failures[0]
        raise Violation(f'{c!r}: {got!r} while {n} threads call, {want!r} alone')
    return verdict(wants, calls)
