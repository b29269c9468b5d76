"""grep/fgrep against a line-by-line model, on generated files in a scratch directory."""
import os, pathlib, re
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises, scratch
from pbt.sizes import sizes
from pbt.regexgen import general, contextual
from big.file import grep, fgrep

prop = Prop('F01',
    "generated file contents (text in several encodings, all newline styles, missing final newline, empty, binary junk) x text or "
    "pattern (str, bytes, compiled, empty, anchors) x enumerate/case_insensitive/flags x path type. scale: files of up to millions of characters. Non-trivial: at least one line "
    "matches and at least one does not.")

WORDS = ['a', 'b', 'ab', 'B', 'Ab', 'abc', ' ', '\t', '', 'x.y', '(', 'é', 'É', 'Ä', 'ä', '\x0b', '\x0c', '\x1c', '0', '^', '$', 'aa', 'ba', '\x85', '\u2028', 'ΑΣ', 'Σ', 'σς', 'ß', 'ẞ', 'İ', 'i']
NL = ['\n', '\n', '\n', '\r\n', '\r', '\n\n']
lines = st.lists(st.tuples(st.lists(st.sampled_from(WORDS), max_size=4).map(''.join), st.sampled_from(NL)), max_size=8)
TEXTS = ['a', 'b', 'ab', '', 'B', 'AB', ' ', 'É', 'ä', 'x.', '(', 'abc', 'zzz', 'aa', '\t', '\r', '\x0b', 'BA', 'a b', 'Σ', 'Α', 'ς', 'ß', 'SS', 'İ', 'I']
PATS = ['a', 'ab?', '^', '$', '^$', '^a', 'b$', 'a.b', '[ab]c', 'a|B', r'\bab\b', '(?i:AB)', '', 'É', '^[ ]*$', '(?=b)', r'\w', r'\s', 'x.y', 'a\nb', r'\Aab', r'b\Z', 'a b # c', '.']


def expected_lines(raw, binary, encoding):
    if binary:
        parts = raw.split(b'\n')
    else:
        parts = raw.decode(encoding or 'utf-8').replace('\r\n', '\n').replace('\r', '\n').split('\n')
    if not parts[-1]:
        parts.pop()
    return parts


def lower(s):
    "case doesn't matter: the two small sigmas are one letter"
    return s.lower() if isinstance(s, bytes) else s.lower().replace('ς', 'σ')


def encodes(s, enc):
    try:
        s.encode(enc)
        return True
    except UnicodeEncodeError:
        return False


@prop.sub(lambda: st.tuples(lines, st.booleans(), st.sampled_from(['utf-8', 'utf-8', None, 'latin-1', 'utf-16']),
                            st.booleans(), st.sampled_from(['str', 'bytes', 'path']),
                            st.one_of(st.tuples(st.just('fgrep'), st.one_of(st.sampled_from(TEXTS), st.integers(0, 7)), st.booleans()),
                                      st.tuples(st.just('grep'), st.sampled_from(PATS), st.sampled_from([0, 0, re.I.value, re.X.value, re.S.value,
                                                                                                   re.M.value, (re.I | re.M).value]))),
                            st.sampled_from(['plain', 'compiled'])), quick=24000)
def search(case):
    content, final, encoding, binary, pathkind, what, form = case
    if encoding not in ('utf-8', None):
        content = [(''.join(c for c in t if encodes(c, encoding)), n) for t, n in content]
    text = ''.join(t + n for t, n in content)
    if not final:
        text = text.rstrip('\r\n')
    raw = text.encode(encoding or 'utf-8')
    name = os.path.join(scratch(), 'f')
    with open(name, 'wb') as f:
        f.write(raw)
    path = {'str': name, 'bytes': os.fsencode(name), 'path': pathlib.Path(name)}[pathkind]
    ls = expected_lines(raw, binary, encoding)
    kw = {} if binary or encoding is None else {'encoding': encoding}
    codec = encoding or 'utf-8'
    if what[0] == 'fgrep':
        needle, ci = what[1], what[2]
        if isinstance(needle, int):         # a line of the file itself, perhaps with the case swapped
            needle = ls[needle % len(ls)] if ls else ''
            if isinstance(needle, bytes):
                needle = needle[:3]
            elif ci:
                needle = needle.swapcase()
        elif binary:
            needle = needle.encode('utf-8' if codec == 'utf-16' or not encodes(needle, codec) else codec)
        if ci:
            hit = [lower(needle) in lower(l) for l in ls]
            kw['case_insensitive'] = True
        else:
            hit = [needle in l for l in ls]
        fn = lambda **k: fgrep(path, needle, **kw, **k)
    else:
        pat, flags = what[1], what[2]
        if binary:
            pat = pat.encode('utf-8' if codec == 'utf-16' else codec)
        rx = re.compile(pat, flags)
        hit = [rx.search(l) is not None for l in ls]
        if form == 'compiled':
            # the flags of grep are for patterns it compiles itself
            more = {'flags': re.I | re.M} if len(ls) % 2 else {}
            fn = lambda **k: grep(path, rx, **more, **kw, **k)
        else:
            fn = lambda **k: grep(path, pat, flags=flags, **kw, **k)
    equal(fn(), [l for l, h in zip(ls, hit) if h], what[0])
    equal(fn(enumerate=True), [(i, l) for i, (l, h) in enumerate(zip(ls, hit), 1) if h], what[0], 'enumerate')
    if binary:
        with raises(ValueError, 'encoding with bytes'):
            (fgrep if what[0] == 'fgrep' else grep)(path, b'x', encoding='utf-8')
    return (what[0] + (' binary' if binary else ' text')) if any(hit) and not all(hit) else False


@prop.sub(lambda: st.tuples(st.text('abcAB é\n', max_size=40), st.booleans(), st.sampled_from(['str', 'bytes', 'path']),
                            st.one_of(st.tuples(st.just('fgrep'), st.tuples(st.integers(0, 39), st.integers(1, 6)), st.booleans()),
                                      st.tuples(st.just('grep'), st.one_of(general(), contextual()), st.sampled_from([0, 0, re.I.value, re.S.value, re.M.value]))),
                            st.sampled_from(['plain', 'compiled'])), quick=8000)
def search_free(case):
    "what is looked for is cut from the file's text (it may span lines, and then is nowhere), and patterns are made up"
    text, binary, pathkind, what, form = case
    if what[0] == 'fgrep':
        at, n = what[1]
        what = ('fgrep', text[at % (len(text) or 1):][:n], what[2])
    content = [(l, '\n') for l in text.split('\n')]
    return search((content[:-1] + [(content[-1][0], '')] if content[-1][0] else content[:-1], True, 'utf-8', binary, pathkind, what, form))


def big_files():
    return st.tuples(st.lists(st.tuples(st.sampled_from(WORDS + ['needle', 'a b']), sizes(3000), st.sampled_from(['\n', '\n', '\r\n', ''])), min_size=1, max_size=5),
                     sizes(1000000), st.sampled_from(['a', 'needle', 'zzz', '']), st.booleans(), st.sampled_from(['fgrep', 'fgrep ci', 'grep', 'grep ci']), st.booleans())


@prop.sub(big_files, quick=240, thorough=3000)
def scale(case):
    "files of up to millions of characters, thousands of lines, enormous lines"
    pieces, at, needle, binary, how, last = case
    body = ''.join((w * 3 + nl) * k for w, k, nl in pieces)
    if len(body) < 50:
        body += 'x' * 50
    # fill up to `at` characters, so that what follows lands around a boundary
    filler = body * (at // len(body) + 1)
    text = filler[:at] + '\n' + needle + ' here\nAB' + needle + '\n' + body[:200] + ('\n' if last else '')
    raw = text.encode('utf-8')
    name = os.path.join(scratch(), 'big')
    try:
        with open(name, 'wb') as f:
            f.write(raw)
        ls = expected_lines(raw, binary, 'utf-8')
        want = needle.encode() if binary else needle
        if how.endswith('ci'):
            want = want.upper()
            hits = [(i, l) for i, l in enumerate(ls, 1) if lower(want) in lower(l)]
        else:
            hits = [(i, l) for i, l in enumerate(ls, 1) if want in l]
        kw = {} if binary else {'encoding': 'utf-8'}
        if how.startswith('fgrep'):
            fn = lambda **k: fgrep(name, want, case_insensitive=how.endswith('ci'), **kw, **k)
        else:
            fn = lambda **k: grep(name, want, flags=re.I if how.endswith('ci') else 0, **kw, **k)
        def agree(got, want, what):
            ensure(len(got) == len(want), what, len(got), 'lines, expected', len(want), 'of', len(ls))
            for g, w in zip(got, want):
                ensure(g == w and type(g) is type(w), what, repr(g)[:200], 'expected', repr(w)[:200])
        agree(fn(), [l for i, l in hits], how)
        agree(fn(enumerate=True), hits, how + ' enumerate')
    finally:
        os.unlink(name)
    return 0 < len(hits) < len(ls) and how
