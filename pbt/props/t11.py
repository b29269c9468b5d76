"""split_quoted_strings against a character-by-character scanner."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc, STR_LB
from pbt.sizes import sizes
from big.text import split_quoted_strings

prop = Prop('T11',
    "texts assembled from quote marks, escapes and linebreaks, with generated single-line/multi-line quote sets (multi-character, "
    "overlapping), escapes and initial states, str and bytes: yielded triples (or the SyntaxError) against a scanner written from the "
    "documentation; feeding the text in two pieces with the open quote as state must give the same segmentation. Non-trivial: a quoted "
    "segment appears.",
    ["a text cut for feeding in pieces is never cut inside a quote mark or an escape sequence"])


LB = [c for c in STR_LB if c < '\x80'] + ['\x85', '\x1c', '\u2028', '\u2029']


class Unterminated(Exception):
    pass


def has_linebreak(t):
    return len((t + (b'x' if isinstance(t, bytes) else 'x')).splitlines()) > 1


def model(s, single, multi, escape, state):
    """-> (triples, [open quote at each token boundary]); triples end with an Unterminated marker where SyntaxError is due"""
    e = s[:0]
    quotes = sorted(set(single) | set(multi), key=len, reverse=True)
    out, buf, quote, first = [], e, state, bool(state)
    bounds = [(0, quote)]
    i = 0

    def emit(close):
        nonlocal buf, first
        if quote and quote not in multi and has_linebreak(buf):
            out.append(Unterminated)
            return False
        out.append((e if first else quote, buf, close))
        first = False
        buf = e
        return True

    while i < len(s):
        if not quote:
            for q in quotes:
                if s.startswith(q, i):
                    break
            else:
                buf += s[i:i + 1]
                i += 1
                bounds.append((i, quote))
                continue
            if buf:
                emit(e)
            quote = q
            i += len(q)
        else:
            toks = sorted([quote] + ([escape + quote, escape + escape] if escape else []), key=len, reverse=True)
            for t in toks:
                if s.startswith(t, i):
                    break
            else:
                buf += s[i:i + 1]
                i += 1
                bounds.append((i, quote))
                continue
            i += len(t)
            if t == quote:
                if not emit(quote):
                    return out, bounds
                quote = e
            else:
                buf += t
        bounds.append((i, quote))
    if buf or (quote and not first):
        emit(e)
    return out, bounds


def drain(it):
    out = []
    try:
        for t in it:
            out.append(t)
    except SyntaxError:
        out.append(Unterminated)
    return out


def drop_empty(ts):
    return [t for t in ts if t is Unterminated or any(t)]


@st.composite
def configs(draw):
    quotes = draw(st.lists(st.sampled_from(["'", '"', '"""', "'''", '`', '$$', '<<', 'ab', 'ba', '^S', '\n', '.', '|', "'"]), min_size=1, max_size=4, unique=True))
    if draw(st.integers(0, 3)) == 0:
        quotes = draw(st.lists(st.text('"~', min_size=1, max_size=4), min_size=1, max_size=4, unique=True))
    k = draw(st.integers(0, len(quotes)))
    single, multi = quotes[:k], quotes[k:]
    escape = draw(st.sampled_from(['\\', '\\', '\\', '', 'xx', '^X', '.', '"']))
    if escape in quotes and escape != '"':
        escape = '\\'
    toks = quotes * 3 + [q[:1] for q in quotes] + [escape, escape, escape + quotes[0], 'a', 'b', ' ', '\n', draw(st.sampled_from(['\r\n', '\r\n', '\n\r'] + LB)), 'hello', 'é', '#']
    s = ''.join(draw(st.lists(st.sampled_from(toks), max_size=14)))
    state = draw(st.sampled_from(['', ''] + quotes))
    return s, single, multi, escape, state


def call(s, single, multi, escape, state, plain):
    kw = {}
    if plain and not multi and sorted(single) == ['"', "'"] or plain and not multi and sorted(single) == [b'"', b"'"]:
        args = ()
    else:
        args = (tuple(single),)
    if multi or not plain:
        kw['multiline_quotes'] = tuple(multi)
    if not (plain and escape in ('\\', b'\\')):
        kw['escape'] = escape
    if state or not plain:
        kw['state'] = state
    return drain(split_quoted_strings(s, *args, **kw))


@prop.sub(lambda: st.tuples(configs(), st.booleans(), st.booleans(), st.integers(0, 1000)), quick=25000)
def model_and_feeding(case):
    (s, single, multi, escape, state), as_bytes, plain, cut = case
    if as_bytes:
        s = s.encode('utf-8')
        single, multi, escape, state = (enc(x) for x in (single, multi, escape, state))
    want, bounds = model(s, single, multi, escape, state)
    got = call(s, single, multi, escape, state, plain)
    equal(drop_empty(got), drop_empty(want), 'triples', s)
    for t in got:
        if t is not Unterminated:
            ensure(type(t) is tuple and len(t) == 3 and all(type(x) is type(s[:0]) for x in t), 'types', t)
    if Unterminated not in want:
        equal(s[:0].join(x for t in got for x in t), s, 'join')
        # the same text in two pieces
        pos, open_quote = bounds[cut % len(bounds)]
        a = call(s[:pos], single, multi, escape, state, False)
        b = call(s[pos:], single, multi, escape, open_quote, False)
        ensure(Unterminated not in a and Unterminated not in b, 'error only when fed in pieces')
        if a and b and open_quote and any(a[-1]):
            # glue the open segment
            if a[-1][2] == s[:0] and b[0][0] == s[:0]:
                glued = a[:-1] + [(a[-1][0], a[-1][1] + b[0][1], b[0][2])] + b[1:]
            else:
                glued = a + b
        elif a and b and not open_quote and a[-1][0] == s[:0] and a[-1][2] == s[:0] and b[0][0] == s[:0] and not any(x for x in (b[0][2],)):
            glued = a[:-1] + [(a[-1][0], a[-1][1] + b[0][1], b[0][2])] + b[1:]
        else:
            glued = a + b
        equal(flatten(glued), flatten(got), 'fed in pieces at', pos, s)
    quoted = [t for t in want if t is Unterminated or t[0] or t[2]]
    if not quoted:
        return False
    return {'error' if Unterminated in want else 'split', 'state' if state else 'no state', 'escape seen' if escape and escape in s else 'no escape',
            'pieces' if Unterminated not in want and 0 < bounds[cut % len(bounds)][0] < len(s) else 'whole'}


def flatten(ts):
    "the segmentation as a list of (inside quotes?, text) with marks, independent of how text was fed"
    out = []
    for l, t, r in ts:
        if l:
            out.append(l)
        if t:
            if out and isinstance(out[-1], list):
                out[-1][0] += t
            else:
                out.append([t])
        if r:
            out.append(r)
    return out


@st.composite
def long_configs(draw):
    "many quote marks; or long ones; or a long text: many short segments, long segments, long runs of escapes"
    s, single, multi, escape, state = draw(configs())
    quotes = single + multi
    how = draw(st.sampled_from(['marks', 'wide', 'segments', 'long', 'escapes', 'late']))
    n = draw(sizes(3000))
    q = draw(st.sampled_from(quotes))
    if how == 'marks':
        more = [chr(0xa1 + i % 90) + 'xy'[i % 2] * (i // 90) for i in range(min(n, 300))]
        single = single + more
        s = s + draw(st.sampled_from(more)) + 'k' + draw(st.sampled_from(more)) + s + more[-1] + 'z' + (more[0] if draw(st.booleans()) else more[-1])
    elif how == 'wide':
        w = q[0] * n + '~'
        single = single + [w]
        s = s + w + q + 'k' + w[:-1] + escape + w + w + s + w
    elif how == 'segments':
        s = (s + draw(st.sampled_from(['', 'k']))) * n
    elif how == 'long':
        s = s + 'k' * n + q + 'k ' * n + s
    elif how == 'escapes':
        s = s + q + (escape + draw(st.sampled_from([q, escape]))) * n + draw(st.sampled_from([q, 'k' + q, ''])) + s
    else:
        s = q + 'k' * n + draw(st.sampled_from(['', '\n', escape + q])) + q + s
    return s[:8000], single, multi, escape, state


prop.sub(lambda: st.tuples(long_configs(), st.booleans(), st.booleans(), st.integers(0, 10000)), quick=800, thorough=10000, name='scale')(model_and_feeding)


@prop.sub(lambda: st.tuples(configs(), st.booleans()), quick=1500)
def bad_arguments(case):
    (s, single, multi, escape, state), as_bytes = case
    with raises(TypeError, 'bytes quotes for str'):
        split_quoted_strings(s, [enc(q) for q in single + multi])
    with raises(TypeError, 'str quotes for bytes'):
        split_quoted_strings(s.encode('utf-8'), (single + multi))
    with raises(ValueError, 'no quotes'):
        split_quoted_strings(s, ())
    with raises(ValueError, 'empty quote'):
        split_quoted_strings(s, single + multi + [''])
    with raises(ValueError, 'repeated quote'):
        split_quoted_strings(s, single + multi + [(single + multi)[0]])
    with raises(ValueError, 'both'):
        split_quoted_strings(s, single + multi, multiline_quotes=[(single + multi)[-1]])
    with raises(ValueError, 'state'):
        split_quoted_strings(s, single or ['"'], multiline_quotes=multi if single or '"' not in multi else (), state='not a quote')
    return 'arguments'


FORMS = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict.fromkeys, 'keys': lambda x: dict.fromkeys(x).keys()}


@prop.sub(lambda: st.tuples(configs(), st.booleans(), st.sampled_from(sorted(FORMS) + ['string', 'string', 'string']), st.sampled_from(sorted(FORMS) + ['string', 'string', 'none'])), quick=4000)
def containers(case):
    "the quote marks in any collection, one-character marks also as one string"
    (s, single, multi, escape, state), as_bytes, form, mform = case
    if 'string' in (form, mform):       # one character (one byte) each
        s = ''.join(c for c in s if c < '\x80')
        single, multi = ([q for q in g if len(q) == 1] for g in (single, multi))
        if not single and not multi:
            single = ['"']
        if state not in single + multi:
            state = ''
    if mform == 'none':
        multi = []
        single = single or ['"']
        if state not in single:
            state = ''
    if as_bytes:
        s = s.encode('utf-8')
        single, multi, escape, state = (enc(x) for x in (single, multi, escape, state))
    e = s[:0]
    put = lambda f, x: None if f == 'none' else e.join(x) if f == 'string' else FORMS[f](x)
    want, _ = model(s, single, multi, escape, state)
    got = drain(split_quoted_strings(s, put(form, single), multiline_quotes=put(mform, multi), escape=escape, state=state))
    equal(drop_empty(got), drop_empty(want), 'triples', s, form, mform)
    return any(t is Unterminated or t[0] or t[2] for t in want) and form
