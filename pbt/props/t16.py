"""lines_strip_indent against an indent stack; lines_convert_tabs_to_spaces against expandtabs."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc
from pbt.linesgen import source, make, inflate, SIZES, FEEDS, width
import big.text as bt

prop = Prop('T16',
    "texts made by a generated walk over indents (deeper, same, out one or several levels, bad dedents, blank and whitespace-only lines, "
    "tabs and spaces mixed) with generated tab widths and starting columns, str and bytes: line, leading, trailing, column and indent of "
    "every line, or IndentationError, against an indent stack. Non-trivial: an indented line appears.",
    ["indents consist of tabs and spaces only", "lines_convert_tabs_to_spaces is judged on lines that still start at the left margin"])

TABS = st.sampled_from([8, 8, 8, 4, 2, 1, 3, 16, 100, 0])
START = st.sampled_from([1, 1, 0, 5, -1, -2, -3, -4, -8, 100])


def spell(draw, col, tab):
    "some mixture of tabs and spaces that is col columns wide"
    out, at = '', 0
    while at < col:
        if not tab:         # tabs take no room
            out += draw(st.sampled_from([' ', ' ', '\t ', ' \t']))
            at += 1
            continue
        nxt = at + tab - at % tab
        k = draw(st.integers(0, 2))
        if nxt <= col and k:
            pre = draw(st.integers(0, (tab - 1) - at % tab)) if k == 2 else 0
            out += ' ' * pre + '\t'
            at = nxt
        else:
            out += ' '
            at += 1
    return out


@st.composite
def indented(draw, big=False):
    tab = draw(TABS)
    stack = [0]
    s = ''
    n = draw(st.integers(20, 150) if big else st.integers(1, 12))
    for i in range(n):
        k = draw(st.integers(0, 11))
        if k == 0:
            s += draw(st.sampled_from(['', '', ' ', '\t', '   \t ', '\x0b', '          ']))
        else:
            if k <= 4:
                col = stack[-1] + draw(st.sampled_from([1, 2, 4, 3, 8, 7]))
                if col < (2000 if big else 50):
                    stack.append(col)
                col = stack[-1]
            elif k <= 6:
                col = stack[-1]
            elif k <= (7 if big else 10):
                d = draw(st.integers(1, len(stack)) if n < 100 or i % 7 == 0 else st.integers(1, 2))
                del stack[max(1, len(stack) - d):]
                col = stack[-1]
            elif big and i < n - 3:
                col = stack[-1]
            else:
                col = draw(st.integers(0, stack[-1] + 1))
            s += spell(draw, col, tab) + draw(st.sampled_from(['a', 'if:', 'x y', 'b\tc', 'z  ', '#', 'é\t']))
        if i < n - 1 or draw(st.booleans()):
            s += draw(st.sampled_from(['\n', '\n', '\r\n']))
    return s, tab


def model(wants, tab, start):
    "[(line, leading, trailing, column, indent) or None at the IndentationError]"
    rows = []
    stack = [0]
    for w, _ in wants:
        e = w[:0]
        t = w.lstrip()
        if not t:
            rows.append((e, e, w, start, None))
            continue
        lead = w[:len(w) - len(t)]
        col = width(lead, tab)
        if col > stack[-1]:
            stack.append(col)
        else:
            while stack[-1] > col:
                stack.pop()
            if stack[-1] != col:
                rows.append(None)
                break
        rows.append((t, lead, e, start + col, len(stack) - 1))
    out = []
    nxt = 0
    for r in reversed(rows):
        if r is None:
            nxt = None
        elif r[4] is None:
            r = r[:4] + (nxt,)
        else:
            nxt = r[4]
        out.append(r)
    return out[::-1]


FREE = st.tuples(st.one_of(st.text(' \tab\n', max_size=40), st.lists(st.sampled_from([' ', '  ', '\t', 'a', 'b c', '\n', '\n', '\x0b', '\xa0', '\r']), max_size=30).map(''.join)), TABS)


@prop.sub(lambda: st.tuples(st.one_of(indented(), indented(), FREE), st.booleans(), st.sampled_from(FEEDS), START), quick=15000)
def strip_indent(case, preset=None):
    (s, tab), as_bytes, feed, start = case
    if as_bytes:
        s = enc(s)
    li, wants = make(s, None, feed, tab_width=tab, column_number=start)
    want = model(wants, tab, start)
    if preset:
        li = stamped(li, preset)
    got = 0
    error = False
    try:
        for info, line in bt.lines_strip_indent(li):
            ensure(got < len(want) and want[got] is not None, 'no IndentationError at line', got + 1)
            w = want[got]
            if w[4] is not None or got == len(want) - 1:
                equal((line, info.leading, info.trailing, info.column_number, info.indent), w, 'line, leading, trailing, column, indent of line', got + 1)
            else:       # blank lines before an illegal dedent
                equal((line, info.leading, info.trailing, info.column_number), w[:4], 'blank line')
            equal(info.line_number, got + 1, 'line number')
            equal(info.line, wants[got][0] + wants[got][1], 'info.line')
            got += 1
    except IndentationError:
        error = True
        ensure(want[-1] is None, 'IndentationError not due')
        ensure(all(w is None or w[4] is None for w in want[got:]), 'IndentationError before the line it is due at')
    else:
        equal(got, len(want), 'number of lines')
        ensure(want[-1] is not None, 'IndentationError due at line', len(want))
    depth = max([w[4] or 0 for w in want if w], default=0)
    if not depth:
        return False
    ind = [w[4] for w in want if w and w[0]]
    return {'error' if error else 'ok', 'deep' if depth > 2 else 'shallow', 'multi-level dedent' if any(a - b > 1 and b for a, b in zip(ind, ind[1:])) else 'simple',
            'tabs' if (b'\t' if as_bytes else '\t') in s else 'spaces', 'blank' if any(w and not w[0] for w in want) else 'no blank'}


def stamped(li, preset):
    "info.indent and more already set, as by an earlier lines_strip_indent"
    for n, (info, line) in enumerate(li):
        info.indent = preset[n % len(preset)]
        info.match = line
        yield info, line


@prop.sub(lambda: st.tuples(indented(), st.booleans(), st.sampled_from(FEEDS), START, st.lists(st.sampled_from([0, 1, 2, 3, -1, 7, None]), min_size=1, max_size=4)), quick=4000)
def preset_indent(case):
    "whatever info.indent holds on the way in is overwritten"
    return strip_indent(case[:4], case[4])


@st.composite
def deep(draw):
    "a staircase many levels deep, back out in one go or in steps, perhaps not to a level seen before; runs of blank lines between"
    tab = draw(TABS)
    levels = draw(st.integers(2, 60))
    steps = [draw(st.sampled_from([1, 2, 4]))] * levels if draw(st.booleans()) else [draw(st.sampled_from([1, 2, 3, 4, 8])) for _ in range(levels)]
    cols = [0]
    for x in steps:
        cols.append(cols[-1] + x)
    rows = [' ' * c + 'a' for c in cols]
    blank = draw(st.sampled_from(['', ' ', '\t']))
    for _ in range(draw(st.integers(1, 4))):
        rows += [blank] * draw(st.sampled_from([0, 0, 1, 40, 300]))
        rows.append(' ' * (draw(st.sampled_from(cols)) + draw(st.sampled_from([0, 0, 0, 0, 1]))) + 'b')
    rows += [blank] * draw(st.sampled_from([0, 1, 40]))
    return '\n'.join(rows), tab


prop.sub(lambda: st.tuples(st.one_of(indented(True), deep()), st.booleans(), st.sampled_from(FEEDS), START), quick=700, thorough=15000, name='deep')(strip_indent)


def expand(s, tab):
    out = s[:0]
    col = 0
    for i in range(len(s)):
        c = s[i:i + 1]
        if c in ('\t', b'\t'):
            n = tab - col % tab if tab else 0
            out += (b' ' if isinstance(s, bytes) else ' ') * n
            col += n
        else:
            out += c
            col = 0 if c in ('\n', '\r', b'\n', b'\r') else col + 1
    return out


@prop.sub(lambda: st.tuples(source(), TABS, st.booleans(), st.sampled_from(FEEDS)), quick=4000)
def convert_tabs(case):
    s, tab, as_bytes, feed = case
    s = enc(s) if as_bytes else s
    li, wants = make(s, None, feed, tab_width=tab)
    n = 0
    changed = False
    for info, line in bt.lines_convert_tabs_to_spaces(li):
        w = wants[n]
        equal(line, expand(w[0], tab), 'line', w[0])
        equal((info.line, info.end, info.column_number), (w[0] + w[1], w[1], 1), 'info')
        changed = changed or line != w[0]
        n += 1
    equal(n, len(wants), 'number of lines')
    return changed and 'tabs'


prop.sub(lambda: st.tuples(inflate(source()), TABS, st.booleans(), st.sampled_from(FEEDS)), quick=400, thorough=8000, name='convert_scale')(convert_tabs)
