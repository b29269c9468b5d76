"""gently_title against a word-by-word statement of the rules."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt.sizes import sizes
from big.text import gently_title, apostrophes as APOS, double_quotes as QUOTES

prop = Prop('T10',
    "texts dense in apostrophes, quotes, parentheses, O/D prefixes and whitespace; default and custom apostrophe/quote collections in "
    "several forms; str and bytes; against a rule-per-word model. Non-trivial: some letter changed and the text has an apostrophe, quote or "
    "parenthesis.",
    ["'(' separates words like whitespace does", "an O or D followed by a run of two or more quote marks: both readings are accepted (the "
     "documentation is ambiguous)"])


def model(s, isspace, apos, quotes, upper, run_counts):
    "s: list of characters; words are maximal runs of non-separators"
    out = []
    i, n = 0, len(s)
    while i < n:
        if isspace(s[i]):
            out.append(s[i])
            i += 1
            continue
        j = i
        while j < n and not isspace(s[j]):
            j += 1
        word = list(s[i:j])
        k = 0
        while k < len(word) and (word[k] in apos or word[k] in quotes):
            word[k] = upper(word[k]) if k == 0 else word[k]
            k += 1
        if k < len(word):
            first = upper(word[k])
            word[k] = first
            # O'Toole, D'Arcy -- only when the O or D is what starts the word
            if k == 0 and first in ('O', 'D', b'O', b'D') and len(word) > 1 and word[1] in apos:
                m = 2
                if run_counts:
                    while m < len(word) and (word[m] in apos or word[m] in quotes):
                        m += 1
                if m < len(word):
                    word[m] = upper(word[m])
        out.extend(word)
        i = j
    return out


def run(s, apos, quotes, apos_arg, quotes_arg):
    if isinstance(s, bytes):
        chars = [s[i:i + 1] for i in range(len(s))]
        isspace = lambda c: c.isspace() or c == b'('
        upper = bytes.upper
    else:
        chars = list(s)
        isspace = lambda c: c.isspace() or c == '('
        upper = str.upper
    wants = [s[:0].join(model(chars, isspace, apos, quotes, upper, r)) for r in (False, True)]
    kw = {}
    if apos_arg is not None:
        kw['apostrophes'] = apos_arg
    if quotes_arg is not None:
        kw['double_quotes'] = quotes_arg
    got = gently_title(s, **kw)
    ensure(type(got) is type(wants[0]) and got in wants, 'got', got, 'want', wants[0], 'for', s)
    return got


WORDS = st.lists(st.sampled_from(["o", "d", "O", "D", "'", "'", '"', "’", '“', '«', ' ', ' ', '\n', '(', ')', 'a', 'bc', "don't", "o'toole", "d'arcy", '-', '1st', 'éa', 'ß', 'Q', '.', '\t', 'x', '_', '\xa0', 'ⅷ', 'ǆ']), max_size=14).map(''.join)


@prop.sub(lambda: st.one_of(WORDS, st.text(max_size=10)), quick=20000)
def default_marks(s):
    got = run(s, set(APOS), set(QUOTES), None, None)
    ensure(set("'‘’‚‛") == set(APOS) and set('"“”„‟«»‹›') == set(QUOTES), 'default marks')
    if got != s and all(len(c.upper()) == 1 for c in s):
        equal(len(got), len(s), 'length')
        equal(got.upper(), s.upper(), 'only case changes')
    b = s.encode('utf-8')
    run(b, {b"'"}, {b'"'}, None, None)
    return got != s and any(c in s for c in "'\"’“«(") and 'changed'


@prop.sub(lambda: st.tuples(st.lists(st.sampled_from(list("abod OD'\"*!~( \n")), max_size=14).map(''.join), st.sampled_from(["'", '*', "'*", '!']), st.sampled_from(['"', '~', '~"']),
                           st.sampled_from(['string', 'list', 'set']), st.booleans()), quick=12000)
def custom_marks(case):
    s, a, q, form, as_bytes = case
    if as_bytes:
        s, a, q = s.encode(), a.encode(), q.encode()
    aset = {a[i:i + 1] for i in range(len(a))}
    qset = {q[i:i + 1] for i in range(len(q))}
    f = {'string': lambda x, xs: x, 'list': lambda x, xs: sorted(xs), 'set': lambda x, xs: set(xs)}[form]
    got = run(s, aset, qset, f(a, aset), f(q, qset))
    return got != s and any(c in s for c in (a[:1], q[:1])) and form


@prop.sub(lambda: st.tuples(st.lists(st.tuples(st.one_of(WORDS, st.sampled_from(["'", '"', '‘', "o'", "O'", "d'", ' ', '(', 'a', "'a", "o'a", ' a', '-'])), sizes(9000)), min_size=1, max_size=4)), quick=300, thorough=4000)
def scale(case):
    (parts,) = case
    s = ''.join((w * n)[:max(n, 20)] for w, n in parts)[:20000]
    got = run(s, set(APOS), set(QUOTES), None, None)
    run(s.encode('utf-8'), {b"'"}, {b'"'}, None, None)
    return got != s
