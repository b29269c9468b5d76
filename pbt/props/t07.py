"""normalize_whitespace against the scanner model and against split/join."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt.textgen import *
from big.text import normalize_whitespace, whitespace, whitespace_without_crlf, bytes_whitespace, ascii_whitespace, linebreaks

prop = Prop('T07',
    "whitespace-dense str and bytes with default separators, big's tables and generated separators in every form, and arbitrary replacements: "
    "every maximal run of separators found by a left-to-right scan becomes one replacement. Non-trivial: the text contains a separator.",
    ["separators are non-empty strings"])


def want(s, seps, replacement):
    return replacement.join(model_split(s, seps)[::2])


repl = st.sampled_from([None, None, ' ', '', '  ', '-', 'ab', '\n', '\\1', 'xX'])


@prop.sub(lambda: st.tuples(st.one_of(ws_text, uni_ws_text), st.sampled_from(['default', 'whitespace', 'nocrlf', 'copy', 'list', 'string', 'linebreaks']), repl), quick=20000)
def whitespace_runs(case):
    s, which, r = case
    seps = {'default': None, 'whitespace': whitespace, 'nocrlf': whitespace_without_crlf, 'copy': tuple(list(whitespace)), 'list': list(whitespace),
            'string': ''.join(c for c in whitespace_without_crlf), 'linebreaks': linebreaks}[which]
    model = STR_LB if which == 'linebreaks' else STR_WS
    w = want(s, model, ' ' if r is None else r)
    got = normalize_whitespace(s, seps, r)
    equal(got, w, which)
    if r is None and which != 'linebreaks':
        equal(normalize_whitespace(got), got, 'twice')
        equal(got.split(), s.split(), 'words')
    b = s.encode('utf-8')
    if which == 'default':
        equal(normalize_whitespace(b, None, None if r is None else r.encode()), want(b, BYTES_WS, b' ' if r is None else r.encode()), 'bytes default')
    elif which == 'whitespace':
        equal(normalize_whitespace(b, bytes_whitespace, None if r is None else r.encode()), want(b, BYTES_WS, b' ' if r is None else r.encode()), 'bytes table')
    edge = s and (s[0] in model) + 2 * (s[-1] in model)
    return any(c in model for c in s) and {which, f'edge runs {int(edge)}', 'all separators' if not s.strip() else 'mixed'}


@prop.sub(lambda: st.tuples(text_and_seps(), st.sampled_from(FORMS + ['string']), st.one_of(repl, st.text('abq \n', max_size=3)), st.booleans()), quick=20000)
def separators(case):
    (s, seps), form, r, as_bytes = case
    if form == 'string':
        seps = list(''.join(seps))
    default = ' '
    if as_bytes:
        s, seps, r, default = enc(s), enc(seps), enc(r), b' '
    if r is None:
        got = normalize_whitespace(s, as_form(seps, form))
    else:
        got = normalize_whitespace(s, as_form(seps, form), r)
    equal(got, want(s, seps, default if r is None else r), s, seps, r)
    return any(p in s for p in seps) and {form, 'overlap' if overlapping(s, seps) else 'no overlap'}


@prop.sub(lambda: st.tuples(big_text_and_seps(), st.sampled_from(FORMS), repl, st.booleans()), quick=600, thorough=9000)
def scale(case):
    (s, seps), form, r, as_bytes = case
    r = '-' if r is None else r
    if as_bytes:
        s, seps, r = enc(s), enc(seps), enc(r)
    ensure(normalize_whitespace(s, as_form(seps, form), r) == want(s, seps, r), 'normalize_whitespace')
    return True


@prop.sub(lambda: st.tuples(st.one_of(ws_text, uni_ws_text), st.sampled_from([40, 300, 5000, 70000]), repl), quick=200, thorough=3000)
def long_whitespace(case):
    s, n, r = case
    s = s * (n // max(1, len(s)))
    ensure(normalize_whitespace(s, None, r) == want(s, STR_WS, ' ' if r is None else r), 'normalize_whitespace')
    return bool(s)
