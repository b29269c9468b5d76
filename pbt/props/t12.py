"""split_delimiters against a stack machine written from its documentation."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.linesgen import SIZES
from pbt.textgen import enc, STR_LB, BYTES_LB
from big.text import split_delimiters, Delimiter, split_delimiters_default_delimiters, split_delimiters_default_delimiters_bytes
import big.text

prop = Prop('T12',
    "delimiter tables (the defaults, generated ones with nested, quoting, single-line, multi-character and overlapping delimiters) and "
    "texts assembled from their tokens, token fragments, escapes and linebreaks, str and bytes, with initial states: yielded triples (or "
    "SyntaxError after the same prefix of triples) against a stack machine; feeding the text in two pieces with the open delimiters as "
    "state must give the same parse. Non-trivial: a delimiter is opened or closed.",
    ["an escape string outside quoting delimiters, an escaped linebreak inside a single-line delimiter, and a text ending in the middle of an escape are not judged beyond "
     "the documented SyntaxError",
     "where several delimiter tokens start at one place outside quotes the longest wins, as multisplit documents"])

ERR = 'SyntaxError'


class Unspecified(Exception):
    pass


def model(s, table, state):
    """table: open -> (close, escape, multiline, quoting).  returns (triples [+ ERR], bounds [(index, stack)])"""
    e = s[:0]
    lbs = BYTES_LB if isinstance(s, bytes) else STR_LB
    tokens = set(table)
    escapes = set()
    for close, escape, multiline, quoting in table.values():
        tokens.add(close)
        if escape:
            tokens.add(escape)
            escapes.add(escape)
    tokens = sorted(tokens, key=len, reverse=True)
    stack = list(state)
    out, buf, i = [], e, 0
    bounds = [(0, tuple(stack))]
    while i < len(s):
        close = escape = None
        quoting = False
        if stack:
            close, escape, multiline, quoting = table[stack[-1]]
        if quoting:
            if s.startswith(close, i):
                out.append((buf, e, close))
                buf = e
                i += len(close)
                stack.pop()
            elif s.startswith(escape, i):
                j = i + len(escape)
                if j >= len(s):
                    out.append(ERR)
                    return out, bounds
                if s[j:j+1] in lbs and not multiline:
                    raise Unspecified()
                buf += s[i:j+1]
                i = j + 1
            elif not multiline and s[i:i+1] in lbs:
                out.append(ERR)
                return out, bounds
            else:
                buf += s[i:i+1]
                i += 1
        else:
            for t in tokens:
                if s.startswith(t, i):
                    break
            else:
                buf += s[i:i+1]
                i += 1
                bounds.append((i, tuple(stack)))
                continue
            if t in table:
                out.append((buf, t, e))
                stack.append(t)
            elif stack and t == close:
                out.append((buf, e, t))
                stack.pop()
            elif stack and t.startswith(close):
                t = close
                out.append((buf, e, t))
                stack.pop()
            elif t in escapes:
                raise Unspecified()
            else:
                out.append(ERR)
                return out, bounds
            buf = e
            i += len(t)
        bounds.append((i, tuple(stack)))
    if buf:
        out.append((buf, e, e))
    return out, bounds


DEFAULT = {'(': (')', '', True, False), '[': (']', '', True, False), '{': ('}', '', True, False),
           "'": ("'", '\\', False, True), '"': ('"', '\\', False, True)}

NESTED = [('(', ')'), ('[', ']'), ('{', '}'), ('<', '>'), ('<<', '>>'), ('[(', ')]'), ('([', '])'), ('begin', 'end'), ('Q', '\\>'), ('^S', '^Q'),
          ('<"<', '>">'), ('/*', '*/'), ('a', 'b'), ('X', ')')]
QUOTING = [("'", "'"), ('"', '"'), ('"""', '"""'), ('<[', ']>'), ('^X', '^X'), ('`', '`'), ('<', '>'), ('(', ')'), ('<(', ')>'), ('$', ';'), ('q', 'q'), ('|', '||')]
ESCAPES = ['\\', '\\', '\\', '**', ']', '^', '!', '[']


@st.composite
def tables(draw):
    if draw(st.integers(0, 3)) == 0:
        return None
    t = {}
    nested, quoting = st.sampled_from(NESTED), st.sampled_from(QUOTING)
    if draw(st.integers(0, 2)) == 0:
        # made up: delimiters that begin alike, contain and overlap one another
        nested = st.tuples(st.text('([', min_size=1, max_size=3), st.text(')]', min_size=1, max_size=3))
        quoting = st.one_of(st.text('"~', min_size=1, max_size=3).map(lambda q: (q, q)), st.tuples(st.text('"~', min_size=1, max_size=3), st.text('"~)', min_size=1, max_size=3)))
    for o, c in draw(st.lists(nested, max_size=4, unique=True)):
        t[o] = (c, '', True, False)
    for o, c in draw(st.lists(quoting, min_size=0 if t else 1, max_size=3, unique=True)):
        x = draw(st.sampled_from(ESCAPES))
        if x in c or c in x:
            x = '\\'
        t[o] = (c, x, draw(st.booleans()), True)
    if draw(st.integers(0, 3)) == 0:
        # an opener (or a closer) with the close or the escape of a quoting one inside it, and more around that
        for o, (c, x, m, q) in list(t.items()):
            if q and draw(st.booleans()):
                noise = st.text('<!-=k', min_size=1, max_size=draw(st.sampled_from([2, 2, 5, 20])))
                inner = draw(st.one_of(noise, noise, st.just(''))) + draw(st.sampled_from([c, c, x, c * 2])) + draw(st.one_of(noise, st.just('')))
                if inner == x:
                    inner += '-'
                if draw(st.booleans()):
                    t.setdefault(inner, (draw(st.sampled_from(['>', ')', '->', ']]>'])), '', True, False))
                else:
                    t.setdefault(draw(st.sampled_from(['<!', '((', '@'])), (inner, '', True, False))
    nested_closers = {v[0] for v in t.values() if not v[3]}
    for k in nested_closers & set(t):
        t.pop(k, None)
    return t or None


@st.composite
def tight_tables(draw):
    "a quoting delimiter, and others that begin with, end with or contain its close or its escape"
    o = draw(st.sampled_from(['"', "'", '"' * 3, '<', '$']))
    c = draw(st.sampled_from([o, o * 2, o + '~', '"' * 3, '-->', ';', '|||']))
    x = draw(st.sampled_from(['\\', '\\', '\\', '**', '%%%']))
    t = {o: (c, x, draw(st.booleans()), True)}
    some = st.sampled_from(['', '', '!', '(', 'k', '!!', c[:1], x[:1], '(('])
    for _ in range(draw(st.integers(1, 3))):
        inner = draw(some) + draw(st.sampled_from([c, c, x, c * 2, c[1:] or c, c[:-1] or c])) + draw(some) + draw(some)
        if inner in (o, c, x):
            inner += '('
        if draw(st.integers(0, 3)):
            t.setdefault(inner, (draw(st.sampled_from(['>', ')', '->', ']]>', '>' + c])), '', True, False))
        else:
            t.setdefault(draw(st.sampled_from(['<!', '((', '@'])), (inner, '', True, False))
    nested_closers = {v[0] for v in t.values() if not v[3]}
    for k in nested_closers & set(t):
        t.pop(k, None)
    return t or None


@st.composite
def cases(draw, tables=tables):
    table = draw(tables())
    t = DEFAULT if table is None else table
    toks = []
    for o, (c, x, m, q) in t.items():
        toks += [o, o, c, c, o[:1], c[:1], c[-1:], o[:-1], c[1:]]
        if x:
            toks += [x + c, x + x, x + o, x + 'k', x]
    every = draw(st.booleans())
    lb = draw(st.sampled_from(['\n', '\r\n', '\v', '\r'] + [c for c in STR_LB]))
    toks += ['k', ' ', 'text', '\n' if every else 'm', '\r\n' if every else '', lb if every else '']
    n = draw(st.integers(0, 14))
    state = draw(st.lists(st.sampled_from(sorted(t)), max_size=3)) if draw(st.booleans()) else []
    # only the innermost delimiter of a state may be a quoting one
    state = [d for d in state[:-1] if not t[d][3]] + state[-1:]
    s = ''
    # a walk that mostly keeps the text well-formed, so that parses get deep
    st_ = list(state)
    for _ in range(n):
        k = draw(st.integers(0, 9))
        if k < 3 and st_:
            s += t[st_.pop()][0]
        elif k < 6 and not (st_ and t[st_[-1]][3]):
            o = draw(st.sampled_from(sorted(t)))
            st_.append(o)
            s += o
        elif k < 9:
            s += draw(st.sampled_from(['k', ' ', 'text', lb if every else 'm', 'x'] + ([t[st_[-1]][1] + t[st_[-1]][0], t[st_[-1]][1] * 2] + toks if st_ and t[st_[-1]][3] else [])))
        else:
            s += draw(st.sampled_from(toks))
    return table, s, state


@st.composite
def deep_cases(draw):
    "nested many levels deep, a quoted string at the bottom, closed again (perhaps not quite); or a long run of small texts at one level"
    table = draw(tables())
    t = DEFAULT if table is None else table
    nest = sorted(o for o in t if not t[o][3])
    quote = sorted(o for o in t if t[o][3])
    bits = []
    for o in quote:
        c, x = t[o][:2]
        bits += [o + b + c for b in ('', 'k', x + c, 'k' + x + c + 'k', x * 2, o + 'k' if c != o and o not in c and c not in o else 'k')] * 2
    bits += ['k', ' ', 'text', '\n']
    bits += [o + 'k' + t[o][0] for o in nest]
    n = draw(st.sampled_from(SIZES[:-1] if not nest else [12, 13, 17, 33, 40, 65, 130, 300] + [x for x in SIZES if x < 400]))
    path = [draw(st.sampled_from(nest)) for _ in range(3)] if nest else []
    path = (path * n)[:n]
    pad = draw(st.sampled_from(['', '', 'k', ' ']))
    state = []
    if draw(st.integers(0, 3)) == 0:
        k = draw(st.integers(0, len(path)))
        state, path = path[:k], path[k:]
    s = pad.join(path)
    for _ in range(draw(st.integers(1, 4))):
        s += draw(st.sampled_from(bits)) * draw(st.sampled_from([1, 1, 2, n]))
    closes = [t[o][0] for o in reversed(state + path)]
    k = draw(st.sampled_from([0, 0, 0, 1, len(closes) // 2, len(closes)]))
    s += pad.join(closes[:len(closes) - k])
    s += draw(st.sampled_from(['', '', 'k'] + bits + closes[:1]))
    return table, s[:6000], state


def to_delims(table, as_bytes):
    f = enc if as_bytes else (lambda x: x)
    return {f(o): Delimiter(f(c), escape=f(x), multiline=m, quoting=q) for o, (c, x, m, q) in table.items()}


def drain(it):
    out = []
    try:
        for t in it:
            out.append(t)
    except SyntaxError:
        out.append(ERR)
    return out


def flatten(ts):
    out = []
    for t in ts:
        if t == ERR:
            out.append(t)
            continue
        text, o, c = t
        if text:
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + text)
            else:
                out.append(('text', text))
        if o:
            out.append(('open', o))
        if c:
            out.append(('close', c))
    return out


@prop.sub(lambda: st.tuples(cases(), st.booleans(), st.integers(0, 4), st.integers(0, 1000)), quick=15000)
def model_and_feeding(case):
    (table, s, state), as_bytes, form, cut = case
    t = DEFAULT if table is None else table
    if as_bytes:
        s, state = s.encode('utf-8'), enc(state)
        t = {enc(k): (enc(v[0]), enc(v[1]), v[2], v[3]) for k, v in t.items()}
    try:
        want, bounds = model(s, t, state)
    except Unspecified:
        return False
    if table is None:
        if form == 0:
            args = ()
        elif form == 1:
            args = (None,)
        elif form == 2:
            args = (split_delimiters_default_delimiters,)
        elif form == 3:
            args = (split_delimiters_default_delimiters_bytes,)
        else:
            args = (to_delims(DEFAULT, as_bytes),)
    else:
        args = (to_delims(table, as_bytes),)

    def call(s, state):
        return drain(split_delimiters(s, *args, state=state) if state or form % 2 else split_delimiters(s, *args))

    got = call(s, state)
    equal(got, want, 'triples of', s, t, state)
    for x in got:
        if x != ERR:
            ensure(all(type(y) is type(s) for y in x) and any(x) and not (x[1] and x[2]), 'triple', x)
    if want and want[-1] == ERR:
        return {'error', 'bytes' if as_bytes else 'str'} | ({'error after parse'} if len(want) > 2 else set())
    equal(s[:0].join(y for x in got for y in x), s, 'join')
    pos, stack = bounds[cut % len(bounds)]
    a, b = call(s[:pos], state), call(s[pos:], list(stack))
    if ERR not in a:        # an escape sequence is never cut: bounds are after whole tokens
        equal(flatten(a + b), flatten(got), 'fed in two pieces at', pos, s, t)
    if not any(x[1] or x[2] for x in want):
        return False
    return {'split', 'state' if state else 'no state', 'quoted' if any(x[1] and t[x[1]][3] for x in want) else 'not quoted',
            'default' if table is None else 'custom', 'deep' if max(len(b[1]) for b in bounds) > 2 else 'shallow'}


prop.sub(lambda: st.tuples(deep_cases(), st.booleans(), st.integers(0, 4), st.integers(0, 5000)), quick=600, thorough=12000, name='deep')(model_and_feeding)
prop.sub(lambda: st.tuples(cases(tight_tables), st.booleans(), st.integers(0, 4), st.integers(0, 1000)), quick=5000, name='tight')(model_and_feeding)


@prop.sub(lambda: st.tuples(cases(), st.booleans()), quick=1500)
def bad_arguments(case):
    (table, s, state), as_bytes = case
    t = DEFAULT if table is None else table
    f = enc if as_bytes else (lambda x: x)
    g = (lambda x: x) if as_bytes else enc
    s = s.encode('utf-8') if as_bytes else s
    d = to_delims(t, as_bytes)
    with raises(TypeError, 'wrong type of open delimiter'):
        list(split_delimiters(s, {**d, g('z'): Delimiter(g('y'))}))
    with raises(TypeError, 'wrong type of close delimiter'):
        list(split_delimiters(s, {**d, f('z'): Delimiter(g('y'))}))
    with raises(TypeError, 'not a Delimiter'):
        list(split_delimiters(s, {**d, f('z'): f('y')}))
    with raises(ValueError, 'backslash'):
        list(split_delimiters(s, {**d, f('\\'): Delimiter(f('y'))}))
    with raises(ValueError, 'no delimiters'):
        list(split_delimiters(s, {}))
    with raises(ValueError, 'both opens and closes'):
        list(split_delimiters(s, {**d, f('z'): Delimiter(sorted(d)[0])}))
    with raises(ValueError, 'state'):
        list(split_delimiters(s, d, state=[x for x in f_state(state, t, f)] + [f('nope')]))
    quoting = [o for o in t if t[o][3]]
    if quoting:
        with raises(ValueError, 'state inside quotes'):
            list(split_delimiters(s, d, state=[f(quoting[0]), f(sorted(t)[0])]))
    for o, x in d.items():
        ensure(x == Delimiter(x) and x == x.copy() and hash(x) == hash(x.copy()), 'copy', x)
        ensure((x.close, x.escape, x.multiline, x.quoting) == (f(t_ := dict((f(k), v) for k, v in t.items())[o][0]), f(dict((f(k), v) for k, v in t.items())[o][1]),
                dict((f(k), v) for k, v in t.items())[o][2], dict((f(k), v) for k, v in t.items())[o][3]), 'attributes', x)
    # two delimiters are equal exactly when their attributes are
    facts = lambda x: (x.close, x.escape, x.multiline, x.quoting)
    made = list(d.values()) + [Delimiter(f(c), escape=f(e), multiline=m, quoting=True) for c in 'yz' for e in '^z' for m in (True, False)] + [Delimiter(f(c)) for c in 'yz']
    for a in made:
        ensure(a != facts(a) and a != a.close, 'equal to something else', a)
        for b in made:
            equal(a == b, facts(a) == facts(b), '==', a, b)
            if a == b:
                equal(hash(a), hash(b), 'hash', a, b)
    return 'arguments'


def f_state(state, t, f):
    return [f(d) for d in state if not t[d][3]]
