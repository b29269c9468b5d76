"""multisplit against a direct left-to-right / right-to-left scanner."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt.textgen import *
from big.text import multisplit, ALTERNATING, AS_PAIRS, LEFT, RIGHT, PROGRESSIVE

prop = Prop('T01',
    "texts dense in (overlapping, nested, regex-special) separators, every form of the separators argument, all of maxsplit/reverse/"
    "separate/strip, and for each case all four keep modes, as str and as bytes, against a scanner written from the documentation. "
    "Non-trivial: at least one split happened; labels tell overlap, reverse, limit and strip cases apart.",
    ["separators are non-empty strings", "where runs of several overlapping separators can be cut in several ways, 'greedy' means: the "
     "longest separator at the point reached, scanning in the direction of the split"])

STRIPS = [False, True, 'LEFT', 'RIGHT', 'PROGRESSIVE', 1, None, 'x']
opts = st.tuples(st.one_of(st.sampled_from([-1, -1, None, 0, 1, 2, 3, 4, -2]), st.integers(-3, 12), st.sampled_from(HUGE)), st.booleans(), st.booleans(), st.sampled_from(STRIPS[:5] + STRIPS))
assert (LEFT, RIGHT, PROGRESSIVE) == ('LEFT', 'RIGHT', 'PROGRESSIVE')


def keep_forms(alt, empty):
    pairs = [(alt[i], alt[i + 1] if i + 1 < len(alt) else empty) for i in range(0, len(alt), 2)]
    return [(False, [a for a, b in pairs]), (None, [a for a, b in pairs]), (True, [a + b for a, b in pairs]), (1, [a + b for a, b in pairs]),
            (ALTERNATING, alt), (AS_PAIRS, pairs), ('', [a for a, b in pairs]), (('x',), [a + b for a, b in pairs]), (0, [a for a, b in pairs]),
            (''.join(['ALTER', 'NATING']), alt), (''.join(['AS_', 'PAIRS']), pairs), ('False', [a + b for a, b in pairs])]


def run_case(s, seps, arg, o):
    "arg(): a fresh separators argument"
    maxsplit, reverse, separate, strip = o
    alt = model_split(s, seps, maxsplit, reverse, separate, strip)
    n = len(s) + len(alt)
    forms = keep_forms(alt, s[:0])
    for keep, want in forms[:2] + forms[3:6] + [forms[6 + n % 6]]:
        n += 1
        reverse, separate = truth(o[1], n), truth(o[2], n + n // 6)
        got = list(multisplit(s, arg(), keep=keep, maxsplit=maxsplit, reverse=reverse, separate=separate, strip=strip))
        if got != want or any(type(x) is not type(y) for x, y in zip(got, want)):
            equal(got, want, 'multisplit', s, seps, dict(keep=keep, maxsplit=maxsplit, reverse=reverse, separate=separate, strip=strip))
    if len(alt) < 3:
        return False
    return {'reverse' if reverse else 'forward', 'separate' if separate else 'merged', f'strip {strip}',
            'limited' if maxsplit not in (-1, None, -2, -3) else 'unlimited', 'long' if len(s) > 200 else 'overlap' if overlapping(s, seps) else 'no overlap', type(s).__name__}


@prop.sub(lambda: st.tuples(text_and_seps(), st.sampled_from(FORMS), opts), quick=25000)
def separators(case):
    (s, seps), form, o = case
    a = run_case(s, seps, lambda: as_form(seps, form), o)
    s, seps = enc(s), enc(seps)
    b = run_case(s, seps, lambda: as_form(seps, form), o)
    return a and (a | b | {form})


@prop.sub(lambda: st.tuples(big_text_and_seps(), st.sampled_from(FORMS), opts), quick=250, thorough=6000)
def scale(case):
    (s, seps), form, o = case
    return run_case(s, seps, lambda: as_form(seps, form), o) and run_case(enc(s), enc(seps), lambda: as_form(enc(seps), form), o)


@prop.sub(lambda: st.tuples(text_and_seps(), opts), quick=4000)
def plain_string(case):
    (s, seps), o = case
    string = ''.join(seps)
    a = run_case(s, list(string), lambda: string, o)
    s, bs = enc(s), enc(string)
    b = run_case(s, [bs[i:i + 1] for i in range(len(bs))], lambda: bs, o)
    return a and (a | b)


@prop.sub(lambda: st.tuples(st.one_of(ws_text, ws_text, uni_ws_text), opts), quick=6000)
def default_whitespace(case):
    s, o = case
    r = run_case(s, STR_WS, lambda: None, o)
    if max(s, default='a') < '\x80':
        run_case(enc(s), BYTES_WS, lambda: None, o)
    return r


@prop.sub(lambda: st.tuples(table_texts(), opts), quick=8000)
def exported_tables(case):
    (name, seps, s), o = case
    import big.text
    arg = getattr(big.text, name)
    r = run_case(s, seps, lambda: arg, o)
    return r and (r | {name})


# every text of up to 6 characters over three letters, with a few sets of overlapping separators
import itertools
def small(tier):
    for seps in (['a'], ['a', 'ab'], ['ab', 'ba'], ['aa', 'a'], ['aba', 'b'], ['ab', 'abc', 'cd']):
        for n in range(0, 6 if tier == 'quick' else 8):
            for t in itertools.product('abc', repeat=n):
                yield ''.join(t), seps


@prop.sub(enum=small)
def exhaustive_small(case):
    s, seps = case
    out = False
    for maxsplit in (-1, 0, 1, 2):
        for reverse in (False, True):
            for separate in (False, True):
                for strip in STRIPS[:5]:
                    out = run_case(s, seps, lambda: seps, (maxsplit, reverse, separate, strip)) or out
    return bool(out) and 'exhaustive'
