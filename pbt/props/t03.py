"""multistrip against a naive loop and against str.strip."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt.textgen import *
from big.text import multistrip

prop = Prop('T03',
    "texts dense in separators, every iterable form of separators, left/right truth values, str and bytes: naive repeated removal of the "
    "longest separator at the end, plus independent invariants; and str.strip/lstrip/rstrip for single characters. Non-trivial: something "
    "was stripped.", ["separators are non-empty strings"])


def is_run(t, seps):
    "t is a concatenation of separators"
    ok = {0}
    for i in range(len(t)):
        if i in ok:
            ok.update(i + len(p) for p in seps if t.startswith(p, i))
    return len(t) in ok


def one(s, seps, arg, left, right):
    n = len(s)
    got = multistrip(s, arg, truth(left, n), truth(right, n // 3))
    i, j = 0, len(s)
    # which occurrence of the result within s was kept: left part removed only if left
    want = model_strip(s, seps, left, right)
    equal(got, want, 'multistrip', s, seps, left, right)
    if left:
        ensure(not any(got.startswith(p) for p in seps), 'starts with separator', got)
    else:
        ensure(s.startswith(got), 'left side changed')
    if right:
        ensure(not any(got.endswith(p) for p in seps), 'ends with separator', got)
    else:
        ensure(s.endswith(got), 'right side changed')
    if left != right:
        removed = s[:len(s) - len(got)] if left else s[len(got):]
        ensure(is_run(removed, seps), 'removed', removed)
    return len(got) < len(s)


@prop.sub(lambda: st.tuples(text_and_seps(), st.sampled_from(FORMS), st.booleans(), st.booleans(), st.booleans()), quick=30000)
def model(case):
    (s, seps), form, left, right, as_bytes = case
    if as_bytes:
        s, seps = enc(s), enc(seps)
    return one(s, seps, as_form(seps, form), left, right) and f'{type(s).__name__} {form}'


@prop.sub(lambda: st.tuples(text_and_seps(), st.booleans()), quick=12000)
def single_characters(case):
    (s, seps), as_bytes = case
    chars = ''.join(seps)
    singles = list(chars)
    if as_bytes:
        s, chars, singles = enc(s), enc(chars), enc(singles)
    for arg in (chars, singles, set(singles), iter(singles)):
        equal(multistrip(s, arg if not hasattr(arg, '__next__') else list(arg)), s.strip(chars), 'strip')
    equal(multistrip(s, iter(singles), left=True, right=False), s.lstrip(chars), 'lstrip')
    equal(multistrip(s, chars, left=False, right=True), s.rstrip(chars), 'rstrip')
    return s.strip(chars) != s and 'stripped'


@prop.sub(lambda: st.tuples(st.one_of(ws_text, uni_ws_text), st.booleans(), st.booleans()), quick=6000)
def whitespace_table(case):
    s, left, right = case
    from big.text import whitespace, bytes_whitespace
    one(s, STR_WS, whitespace, left, right)
    equal(multistrip(s, whitespace), s.strip(), 'like str.strip')
    b = s.encode('utf-8')
    equal(multistrip(b, bytes_whitespace), b.strip(), 'like bytes.strip')
    one(b, BYTES_WS, bytes_whitespace, left, right)
    return s.strip() != s and 'stripped'


@prop.sub(lambda: st.tuples(table_texts(), st.booleans(), st.booleans()), quick=6000)
def exported_tables(case):
    (name, seps, s), left, right = case
    import big.text
    return one(s, seps, getattr(big.text, name), left, right) and name


@prop.sub(lambda: st.tuples(big_text_and_seps(), st.booleans(), st.booleans()), quick=300, thorough=6000)
def scale(case):
    (s, seps), left, right = case
    return one(s, seps, seps, left, right) and one(enc(s), enc(seps), enc(seps), left, right)


@prop.sub(lambda: st.tuples(text_and_seps(max_seps=4, max_len=4), st.integers(20, 400), st.sampled_from(['q', '', 'qq\n', '\n'])), quick=1500)
def long_runs(case):
    "a long run of separators, in the middle or at an end, is handled in reasonable time and as the model says"
    (s, seps), n, end = case
    t = 'q' + s + (''.join(seps) * n)[:n] + s + end
    return one(t, seps, seps, True, True) or one(t, seps, seps, False, True) or 'kept'
