"""Shared generators and models for the lines / lines modifier properties."""
from hypothesis import strategies as st
from pbt.harness import harvest
from pbt.textgen import STR_LB, BYTES_LB, enc, model_split, as_form
import big.text as bt

WORDS = ['a', 'b', 'foo', 'Foo', 'x = 1', '#', '//', '"', "'", '"""', '\\', '\\"', 'ab', 'ba', 'é']
WS = [' ', '  ', '\t', ' \t', '    ', '\x0b' , '\xa0']
ENDS = ['\n', '\n', '\n', '\r\n', '\r']


@st.composite
def source(draw, words=None, ends=None, max_lines=8, indent=None, max_words=5):
    "a text as a literal str, with a controlled mix of indents, words and linebreaks"
    words = words or WORDS
    indent = indent or ['', '', ' ', '  ', '    ', '\t', ' \t', '  \t ', '\t\t']
    out = []
    n = draw(st.integers(0, max_lines))
    for i in range(n):
        out.append(draw(st.sampled_from(indent)))
        for _ in range(draw(st.integers(0, max_words))):
            out.append(draw(st.sampled_from(words + words + WS[:4])))
        if i < n - 1 or draw(st.booleans()):
            out.append(draw(st.sampled_from(ends or ENDS)))
    return ''.join(out)


SIZES = [12, 40, 300, 1100, 5000] + sorted(i for i in harvest()[0] if 8 <= i <= 5000)


@st.composite
def inflate(draw, base, limit=6000):
    "a text from base, one piece of it repeated many times: long lines, many lines, long runs of blanks or blank lines"
    s = draw(base)
    n = draw(st.sampled_from(SIZES))
    i = draw(st.integers(0, len(s)))
    w = draw(st.one_of(st.integers(1, 3), st.integers(1, 12)))
    piece = s[i:i + w]
    if not piece:
        return s
    return s[:i] + piece * max(1, min(n, limit // len(piece))) + s[i + w:]


def model_lines(s, seps=None):
    "[(line, end)]"
    if seps is None:
        seps = BYTES_LB if isinstance(s, bytes) else STR_LB
    parts = model_split(s, list(seps), separate=True)
    parts.append(s[:0])
    return [(parts[i], parts[i + 1]) for i in range(0, len(parts), 2)]


FEEDS = ['text', 'text', 'text', 'lines', 'pairs', 'listpairs']


def make(s, seps, feed, form='list', **kw):
    """-> (lines iterator, [(line, end)]).  feed: hand lines() the text, or an iterable of lines, or of (line, end)"""
    want = model_lines(s, seps)
    if feed == 'text':
        li = bt.lines(s, **kw) if seps is None else bt.lines(s, as_form(seps, form), **kw)
        return li, want
    if feed == 'lines':
        want = [(l, s[:0]) for l, e in want]
        return bt.lines(iter([l for l, e in want]) if form == 'iter' else [l for l, e in want], **kw), want
    if feed == 'listpairs':
        return bt.lines([list(p) for p in want], **kw), want
    return bt.lines((p for p in want) if form == 'iter' else list(want), **kw), want


def width(text, tab_width):
    "columns taken by text starting at the left margin, independent of expandtabs"
    col = 0
    for i in range(len(text)):
        c = text[i:i + 1]
        if c in ('\t', b'\t'):
            col += tab_width - col % tab_width if tab_width else 0      # 0: tabs take no room
        elif c in ('\n', '\r', b'\n', b'\r'):
            col = 0
        else:
            col += 1
    return col
