"""merge_columns against a row-by-row model."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc
from pbt.linesgen import SIZES
from big.text import merge_columns, OverflowStrategy

prop = Prop('T19',
    "1-5 columns of generated lines (blank lines, trailing blanks, indents, overlong lines at any place) given as text or as lists of lines, "
    "with generated minimum and maximum widths, separators, overflow strategies and overflow_before/after, str and bytes: output against a "
    "row-by-row model; OverflowError under RAISE exactly when a line is too wide; every line of every column appears, in order, at its "
    "column. Non-trivial: two or more columns.",
    ["min_width <= max_width", "overflow_after does not extend past the end of the overflowing column (pinned by the existing tests)",
     "lines contain no whitespace but spaces"])


def regions(lines, max_width, strategy, before, after):
    "for each line of a column: do later columns pause?"
    n = len(lines)
    over = [i for i, l in enumerate(lines) if len(l) > max_width]
    pause = [False] * n
    for i in over:
        for j in range(max(0, i - before), min(n, i + after + 1)):
            pause[j] = True
    if strategy == 'DELAY_ALL' and over:
        for j in range(min(n, over[-1] + after + 1)):
            pause[j] = True
    return pause


def model(columns, sep, strategy, before, after):
    "columns: (lines, min, max); lines already stripped on the right"
    e = sep[:0]
    sp = b' ' if isinstance(e, bytes) else ' '
    cols = []
    for lines, lo, hi in columns:
        longest = max(map(len, lines), default=0)
        if strategy == 'RAISE' and longest > hi:
            return OverflowError
        cols.append((lines, max(lo, min(hi, longest)), regions(lines, hi, strategy, before, after)))
    at = [0] * len(cols)
    rows = []
    while any(at[k] < len(c[0]) for k, c in enumerate(cols)):
        row = []
        for k, (lines, width, pause) in enumerate(cols):
            if at[k] >= len(lines):
                row.append(sp * width)
                continue
            i = at[k]
            at[k] += 1
            if pause[i]:
                row.append(lines[i])
                break
            row.append(lines[i].ljust(width))
        rows.append(sep.join(row).rstrip())
    nl = b'\n' if isinstance(e, bytes) else '\n'
    return nl.join(rows).rstrip()


@st.composite
def columns(draw, big=False):
    out = []
    letters = iter('abcdefghijklmnopqrstuvwxyz')
    for k in range(draw(st.sampled_from([1, 2, 3, 8, 13, 26]) if big else st.integers(1, 5))):
        c = next(letters)
        n = draw(st.sampled_from([0, 1, 2, 3, 4, 6, 8]))
        lo = draw(st.integers(0, 6))
        hi = lo + draw(st.integers(0, 6))
        if big and draw(st.booleans()):
            # wide, or tall
            lo, hi = sorted(draw(st.tuples(st.sampled_from([0, 10, 40, 80, 130, 256, 300]), st.sampled_from([0, 10, 40, 80, 130, 256, 300]))))
        lines = []
        for i in range(n):
            kind = draw(st.integers(0, 9))
            if kind == 0:
                l = ''
            elif kind == 1:
                l = ' ' * draw(st.integers(1, 3)) + c
            elif kind <= 3:
                l = c * (hi + draw(st.integers(1, 9)))
            elif kind == 4:
                l = c * hi
            elif kind == 5:
                l = c + ' ' + c
            else:
                l = c * draw(st.integers(1, max(1, hi)))
            lines.append(l + ' ' * draw(st.sampled_from([0, 0, 0, 1, 5, 14])))
        if big and lines and draw(st.integers(0, 2)) == 0:
            i = draw(st.integers(0, n - 1))
            w = draw(st.integers(1, 3))
            lines[i:i + w] = lines[i:i + w] * min(draw(st.sampled_from(SIZES)), 300 // w)
        out.append((lines, lo, hi))
    return out


class S(str):
    pass


@prop.sub(lambda: st.tuples(columns(), st.sampled_from([None, None, ' ', ' | ', '', '|', '  ', '--']), st.sampled_from([None, 'RAISE', 'INTRUDE_ALL', 'INTRUDE_ALL', 'DELAY_ALL', 'DELAY_ALL']),
                            st.integers(0, 3), st.integers(0, 3), st.booleans(), st.sampled_from(['text', 'text', 'lists', 'mixed'])), quick=15000)
def layout(case):
    cols, sep, strategy, before, after, as_bytes, form = case
    f = enc if as_bytes else (lambda x: x)
    nl = f('\n')
    kw = {}
    if sep is not None:
        kw['column_separator'] = f(sep)
    if strategy is not None:
        kw['overflow_strategy'] = getattr(OverflowStrategy, strategy)
    if before:
        kw['overflow_before'] = before
    if after:
        kw['overflow_after'] = after
    given, wanted = [], []
    for k, (lines, lo, hi) in enumerate(cols):
        lines = f(lines)
        as_list = lines and (form == 'lists' or (form == 'mixed' and k % 2)) and not isinstance(cols[0][0], str) and k > 0
        if as_list:
            given.append((list(lines), lo, hi))
            seen = [l.rstrip() for l in lines]
        else:
            text = nl.join(lines)
            given.append((text, lo, hi))
            seen = [l.rstrip() for l in text.rstrip().split(nl)]
        wanted.append((seen, lo, hi))
    want = model(wanted, f(' ' if sep is None else sep), strategy or 'RAISE', before, after)
    try:
        got = merge_columns(*given, **kw)
    except OverflowError:
        ensure(want is OverflowError, 'OverflowError though everything fits')
        return len(cols) > 1 and {'overflow error'}
    ensure(want is not OverflowError, 'no OverflowError')
    equal(got, want, 'layout')
    # independent of the model: nothing lost or reordered, and nothing overlaps
    for k, (lines, lo, hi) in enumerate(wanted):
        c = f('abcdefghijklmnopqrstuvwxyz'[k])
        own = [l for row in got.split(nl) for l in [f('').join(ch for ch in (row[i:i + 1] for i in range(len(row))) if ch == c)] if l]
        equal(own, [l for l in (x.replace(f(' '), f('')) for x in lines) if l], 'lines of column', k)
    over = any(len(l) > hi for lines, lo, hi in wanted for l in lines)
    return len(cols) > 1 and {strategy or 'default', 'overflow' if over else 'fits', 'separator %r' % (sep,), form}


prop.sub(lambda: st.tuples(columns(True), st.sampled_from([None, ' ', ' | ', '', ' ' * 20 + '|']), st.sampled_from([None, 'INTRUDE_ALL', 'INTRUDE_ALL', 'DELAY_ALL', 'DELAY_ALL']),
                           st.sampled_from([0, 1, 2, 5, 40, 1000]), st.sampled_from([0, 1, 2, 5, 40, 1000]), st.booleans(), st.sampled_from(['text', 'lists', 'mixed'])),
         quick=400, thorough=8000, name='scale')(layout)
