"""wrap_words against a greedy layout model and layout invariants."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc, TRUTHY
from pbt.linesgen import SIZES
from big.text import wrap_words, split_text_with_code

prop = Prop('T17',
    "generated word arrays (words of any width, sentence ends, code lines with leading and internal spaces, line and paragraph breaks "
    "anywhere, repeated) with margins from 0 to 100, two_spaces in every form, str, bytes and subclasses, list or iterator: output against a "
    "greedy layout model, plus the invariants (words in order, margin, no word pushed that fits). Non-trivial: the words are broken into lines.",
    ["words contain no newline and are not only whitespace, except the break markers"])

WORDS = ['a', 'I', 'to', 'the', 'word', 'longer', 'sentence', 'e.', 'really?', 'no!', '...', 'x.y', '.', 'antidisestablishmentarianism', '    for i in code:', '  b', 'tail  ', 'stop.  ', '\tx', 'é', 'q)']


def end_of_sentence(w):
    return w[-1:] in ('.', '?', '!', b'.', b'?', b'!')


def model(words, margin, two_spaces):
    e = words[0][:0]
    nl, sp = (b'\n', b' ') if isinstance(e, bytes) else ('\n', ' ')
    out, line, prev = e, None, None
    for w in words:
        if w in (nl, nl * 2):
            out += (line or e) + w
            line, prev = None, None
            continue
        if line is None:
            line = w
        else:
            gap = sp * 2 if two_spaces and end_of_sentence(prev) else sp
            if len(line) + len(gap) + len(w) <= margin:
                line += gap + w
            elif not line:
                line = w
            else:
                out += line + nl
                line = w
        prev = w
    return out + (line or e)


TWO = st.one_of(st.none(), st.sampled_from([True, False, 1, 0]), TRUTHY)


class S(str):
    pass


class B(bytes):
    pass


@prop.sub(lambda: st.tuples(st.lists(st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), st.sampled_from(WORDS), st.text('abc.', min_size=1, max_size=9), st.sampled_from(['\n', '\n\n', '\n\n'])), min_size=1, max_size=30),
                            st.one_of(st.integers(0, 40), st.sampled_from([79, 78, 80, 100])), TWO, st.booleans(), st.sampled_from(['list', 'iter', 'tuple', 'subclass'])),
          quick=15000)
def layout(case):
    words, margin, two, as_bytes, form = case
    if as_bytes:
        words = enc(words)
    nl = b'\n' if as_bytes else '\n'
    given = words
    if form == 'iter':
        given = iter(words)
    elif form == 'tuple':
        given = tuple(words)
    elif form == 'subclass':
        given = [(B if as_bytes else S)(w) for w in words]
    kw = {} if two is None else {'two_spaces': two}
    if margin == 79:
        got = wrap_words(given, **kw)
    else:
        got = wrap_words(given, margin, **kw)
    want = model(words, margin, two is None or bool(two))
    equal(got, want, 'layout')
    # the same facts again, without the model
    squash = lambda t: t.replace(nl, nl[:0]).replace(b' ' if as_bytes else ' ', nl[:0])
    equal(squash(got), squash(nl[:0].join(words)), 'characters in order')
    singles = set(w for w in words)
    for line in got.split(nl):
        ensure(len(line) <= margin or line in singles, 'line wider than the margin', line)
    broken = got.count(nl) > sum(w.count(nl) for w in words)
    if not broken and nl not in words and nl * 2 not in words:
        return False
    return {'wrapped' if broken else 'breaks only', 'two_spaces=%r' % (two,), form, 'overwide' if any(len(l) > margin for l in got.split(nl)) else 'fits'}


@st.composite
def many_words(draw):
    ws = draw(st.lists(st.one_of(st.sampled_from(WORDS), st.text('abc.', min_size=1, max_size=9), st.sampled_from(['\n', '\n\n'])), min_size=1, max_size=8))
    n = draw(st.one_of(st.sampled_from(SIZES), st.just(5000)))
    i = draw(st.integers(0, len(ws) - 1))
    w = draw(st.integers(1, len(ws)))
    k = draw(st.sampled_from([0, 0, 0, 1]))
    if k:       # one very long word
        ws[i] = (ws[i] * n)[:n] if ws[i].strip() else ws[i]
        return ws
    return ws[:i] + ws[i:i + w] * min(n, max(1, 6000 // len(ws[i:i + w]))) + ws[i + w:]


def scaled(case):
    words, margin, *rest = case
    if isinstance(margin, tuple):       # a share of the whole text
        margin = sum(map(len, words)) * margin[0] // margin[1] + margin[2]
    return layout((words, max(0, margin)) + tuple(rest))


prop.sub(lambda: st.tuples(many_words(), st.one_of(st.tuples(st.integers(1, 9), st.integers(2, 9), st.integers(-9, 9)), st.integers(0, 90), st.sampled_from([79, 79, 127, 128, 255, 256, 300, 1000, 1024, 5000, 10**9])), TWO, st.booleans(), st.sampled_from(['list', 'iter', 'tuple', 'subclass'])),
         quick=500, thorough=9000, name='scale')(scaled)


@prop.sub(lambda: st.tuples(st.lists(st.sampled_from(['a b c', 'hello there.', 'word ', 'x', '\n', '\n\n', '\n    code  x\n', '\n\tcode\n', 'long-long-word ']), max_size=14).map(''.join), st.integers(5, 40), st.booleans()), quick=3000)
def pipeline(case):
    s, margin, as_bytes = case
    s = enc(s) if as_bytes else s
    words = split_text_with_code(s)
    got = wrap_words(words, margin)
    equal(got.split(), s.split(), 'words survive the pipeline')
    nl = b'\n' if as_bytes else '\n'
    for line in s.split(nl):
        if line.strip() and line.startswith((b'    ', b'\t') if as_bytes else ('    ', '\t')):
            ensure(line.expandtabs().rstrip() in got.split(nl), 'code line on its own line', line)
    # wrapping text that is already wrapped changes nothing, as long as no line looks like code
    if not any(l.startswith((b'    ', b'\t') if as_bytes else ('    ', '\t')) for l in s.split(nl)):
        equal(wrap_words(split_text_with_code(got), margin), got, 'idempotent')
    return bool(s.split()) and 'pipeline'


@prop.sub(lambda: st.tuples(st.sampled_from(['list', 'iter', 'tuple']), st.integers(0, 5)), quick=20)
def no_words(case):
    form, margin = case
    with raises(ValueError, 'no words'):
        wrap_words({'list': [], 'tuple': (), 'iter': iter(())}[form], margin)
    return 'empty'
