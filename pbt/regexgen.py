"""Generators of small regular expressions with texts that exercise them."""
from hypothesis import strategies as st
from pbt.sizes import sizes

ATOMS = ['a', 'b', 'c', 'a', 'b', '[ab]', '[bc]', '[^a]', '.', 'ab', 'bc']
CONTEXT = ['^', '$', r'\b', r'\B', '(?=b)', '(?!b)', '(?<=a)', '(?<!a)', r'(?<=\n)', r'(?=\n)', r'\Z']
QUANT = ['', '', '', '', '+', '*', '?', '{2}', '{1,2}']


def seq(atoms, quant=QUANT, max_size=3):
    return st.lists(st.tuples(st.sampled_from(atoms), st.sampled_from(quant)).map(
        lambda t: ('(?:%s)' % t[0] if len(t[0]) == 2 and t[1] else t[0]) + t[1]), min_size=1, max_size=max_size).map(''.join)


def alternation(part, max_size=3):
    return st.lists(part, min_size=1, max_size=max_size).map('|'.join)


@st.composite
def general(draw):
    "anything, without context assertions"
    def grouped(inner):
        return inner.map(lambda p: '(' + p + ')')
    e = st.recursive(alternation(seq(ATOMS)), lambda inner: st.tuples(grouped(inner), st.sampled_from(['', '', '?', '{2}', '{1,2}']), alternation(seq(ATOMS), 2)).map(''.join), max_leaves=3)
    return draw(e)


@st.composite
def contextual(draw):
    parts = draw(st.lists(st.one_of(st.sampled_from(CONTEXT), seq(ATOMS, max_size=1)), min_size=1, max_size=4))
    p = ''.join(parts)
    if draw(st.booleans()):
        p = p + '|' + draw(seq(ATOMS, max_size=2))
    if draw(st.booleans()):
        p = '(' + p + ')'
    return p


# alternatives no one of which can pre-empt a longer one: longest first, fixed strings, each in a group of its own or not
@st.composite
def longest_first(draw):
    words = draw(st.lists(st.text('abc', min_size=1, max_size=4), min_size=1, max_size=5, unique=True))
    words.sort(key=lambda w: -len(w))
    if draw(st.booleans()):
        return '|'.join('(%s)' % w for w in words)
    return '|'.join(words)


@st.composite
def long_text(draw, limit=3000):
    "a text in which matches are far apart, or long, or many, or at far offsets"
    a, b, c = draw(text), draw(text), draw(st.sampled_from(['', 'x', 'qq', 'a', '\n', 'é', 'ab']))
    n = draw(sizes(limit))
    how = draw(st.sampled_from(['repeat', 'far', 'between', 'run', 'tail']))
    if how == 'repeat':
        s = (a + c) * n
        s = s[:n]
    elif how == 'far':
        s = (c or 'x') * n + a
    elif how == 'between':
        s = a + (c or 'x') * n + b
    elif how == 'tail':
        s = a + (c or 'x') * n
    else:
        s = a + draw(st.sampled_from('abc')) * n + b
    return s[:limit + 20]


greedy_seq = seq(['a', 'b', 'c', '[ab]', '[bc]', '[^a]', '.'], ['', '', '', '+', '*', '?', '{2}', '{1,2}'])

text = st.one_of(st.text('abc', max_size=12), st.text('ab', max_size=10), st.text('abcx\n', max_size=12), st.text('aAbBéc \n', max_size=10),
                 st.lists(st.sampled_from(['ab', 'abc', 'bc', 'ca', 'aa', 'bb']), max_size=6).map(''.join))
