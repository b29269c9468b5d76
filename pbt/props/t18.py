"""split_text_with_code against a line-based model of text and code paragraphs."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import enc, TRUTHY
from pbt.linesgen import inflate, SIZES
from pbt.props.t16 import expand
from big.text import split_text_with_code

prop = Prop('T18',
    "texts assembled from text lines, code lines (spaces and tabs, internal runs of blanks, trailing blanks), blank and whitespace-only "
    "lines in any order, with and without a final newline, generated tab widths, code indents, allow_code and convert_tabs_to_spaces, str "
    "and bytes: the split text array against a line-based model. Non-trivial: at least two words or a code line.",
    ["the whitespace that decides code (leading, or inside code lines) consists of tabs and spaces, as documented for this function"])


def model(s, tab, allow, indent, convert):
    b = isinstance(s, bytes)
    nl = b'\n' if b else '\n'
    out = []
    prev, blanks = None, 0
    for line in s.split(nl):
        text = line.strip()
        if not text:
            blanks += 1
            continue
        lead = line[:len(line) - len(line.lstrip())]
        if allow and len(expand(lead, tab)) >= indent:
            if prev == 'code':
                out += [nl] * (blanks + 1)
            elif prev == 'text':
                out.append(nl * 2)
            body = line.rstrip()
            out.append(expand(body, tab) if convert else body)
            prev = 'code'
        else:
            if prev == 'code' or (prev == 'text' and blanks):
                out.append(nl * 2)
            out += line.split()
            prev = 'text'
        blanks = 0
    return out or [s[:0]]


@st.composite
def texts(draw):
    out = []
    n = draw(st.integers(0, 10))
    for i in range(n):
        k = draw(st.integers(0, 9))
        if k < 3:
            out.append(draw(st.sampled_from(['', '', '', ' ', '   ', '\t', '     ', '  \t ', '\r', '\x0c'])))
        elif k < 7:
            lead = draw(st.sampled_from(['', '', '', ' ', '  ', '   ', '    ', '\t', '       ']))
            sep = st.sampled_from([' ', '  ', '\t', ' \t '])
            line = lead + draw(st.sampled_from(['a', 'word', 'e.g.', '#', 'é']))
            for _ in range(draw(st.integers(0, 3))):
                line += draw(sep) + draw(st.sampled_from(['b', 'more', 'stop.', '--x']))
            out.append(line + draw(st.sampled_from(['', '', ' ', '\t', '\r'])))
        else:
            lead = draw(st.sampled_from(['    ', '    ', '     ', '\t', '\t\t', '  \t', ' ' * 8, '    \t', ' ' * 12, '  ']))
            line = lead + draw(st.sampled_from(['x = 1', 'for i in x:', 'a\tb', 'a  b\t\tc', '#  two', 'k']))
            out.append(line + draw(st.sampled_from(['', '', '   ', '\t', '\r'])))
    return '\n'.join(out) + draw(st.sampled_from(['', '', '\n', '\n\n', ' ', '\n  ']))


opts = st.fixed_dictionaries({}, optional={'tab_width': st.sampled_from([8, 4, 2, 1, 3, 5, 7, 11, 16, 40]), 'allow_code': st.one_of(st.booleans(), TRUTHY), 'code_indent': st.sampled_from([4, 2, 8, 1, 0, 5, -1, 12, 40, 100]), 'convert_tabs_to_spaces': st.one_of(st.booleans(), TRUTHY)})


class S(str):
    pass


class B(bytes):
    pass


FREE = st.one_of(st.text(' ab\n', max_size=60), st.text(' \tab\n', max_size=60), st.lists(st.sampled_from(['\n', '\n', '    ', '\t', 'a', 'b.', ' ', '  ', '\n\n']), max_size=30).map(''.join))


@prop.sub(lambda: st.tuples(st.one_of(texts(), texts(), FREE), opts, st.booleans(), st.booleans()), quick=20000)
def split(case):
    s, kw, as_bytes, sub = case
    s = enc(s) if as_bytes else s
    want = model(s, kw.get('tab_width', 8), kw.get('allow_code', True), kw.get('code_indent', 4), kw.get('convert_tabs_to_spaces', True))
    got = split_text_with_code((B if as_bytes else S)(s) if sub else s, **kw)
    equal(got, want, 'split text array')
    ensure(all(type(w) is type(s) for w in got), 'types')
    equal([x for w in got for x in w.split()], s.split(), 'words')
    code = sum(1 for w in got if w.strip() and (w.split() != [w]))
    paras = sum(1 for w in got if w in ('\n\n', b'\n\n'))
    if len(got) < 2 and not code:
        return False
    return {'code %d' % min(code, 3), 'paragraphs %d' % min(paras, 3), 'bytes' if as_bytes else 'str'}


@st.composite
def shaped(draw):
    "blocks of text and code, long lines, long gaps"
    out = ''
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.sampled_from(SIZES))
        k = draw(st.integers(0, 4))
        if k == 0:
            out += draw(st.sampled_from(['\n', ' \n', '\t\n'])) * min(n, 1200)
        elif k == 1:
            out += (draw(st.sampled_from(['    a', '\tb\tc', ' ' * 9 + 'd  e', ' ' * 41 + 'f', 'word', '  a b'])) + '\n') * draw(st.sampled_from([1, 1, 2, min(n, 300)]))
        elif k == 2:
            line = draw(st.sampled_from(['    ', '\t', ' ' * 30, '', '  ']))
            for _ in range(draw(st.integers(1, 4))):
                line += draw(st.sampled_from(['x', 'xy ', 'k\t', 'word  '])) * draw(st.sampled_from([1, 3, min(n, 400)])) + draw(st.sampled_from(['\t', ' ', '\t\t', '']))
            out += line + '\n'
        else:
            out += draw(st.sampled_from(['a b\n', '    code\n', '    a\tb\n', '\n', 'text'])) + '\n' * draw(st.sampled_from([0, 1, 2, 7, 8, 9, 15, 16, 17, 40]))
    return out


prop.sub(lambda: st.tuples(shaped(), opts, st.booleans(), st.booleans()), quick=900, thorough=15000, name='shaped')(split)
prop.sub(lambda: st.tuples(inflate(texts().map(lambda s: s.replace('\r', '').replace('\x0c', '')), 3000), opts, st.booleans(), st.booleans()), quick=700, thorough=12000, name='scale')(split)
