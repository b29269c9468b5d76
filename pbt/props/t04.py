"""multipartition / multirpartition against the scanner model and str.partition."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import *
from pbt.sizes import sizes
from big.text import multipartition, multirpartition

prop = Prop('T04',
    "separator-dense texts, all forms of separators, counts 0..8, reverse, separate, str and bytes, against the scanner model with padding; "
    "single separator against str.partition/rpartition. Non-trivial: at least one separator was found.", ["separators are non-empty strings"])


@prop.sub(lambda: st.tuples(text_and_seps(), st.sampled_from(FORMS + ['string']), st.integers(0, 8), st.booleans(), st.booleans(), st.booleans()), quick=30000)
def model(case):
    (s, seps), form, count, reverse, separate, as_bytes = case
    if form == 'string':
        seps = list(''.join(seps))
    if as_bytes:
        s, seps = enc(s), enc(seps)
    alt = model_split(s, seps, count, reverse, separate)
    pad = [s[:0]] * (2 * count + 1 - len(alt))
    want = tuple(pad + alt if reverse else alt + pad)
    kw = dict(count=count, separate=separate)
    kw['separate'] = truth(separate, len(s))
    got = multipartition(s, as_form(seps, form), reverse=truth(reverse, len(s) + count), **kw)
    equal(got, want, 'multipartition', s, seps, reverse)
    equal(multirpartition(s, as_form(seps, form), reverse=not reverse, **kw), want, 'multirpartition')
    equal(s[:0].join(got), s, 'join')
    ensure(len(got) == 2 * count + 1, 'length')
    return len(alt) > 1 and {'padded' if pad else 'full', 'reverse' if reverse else 'forward', 'overlap' if overlapping(s, seps) else 'no overlap'}


@prop.sub(lambda: st.tuples(big_text_and_seps(), st.sampled_from([1, 2, 3, 17, 130, 300, 5000]), st.booleans(), st.booleans(), st.booleans()), quick=250, thorough=6000)
def scale(case):
    (s, seps), count, reverse, separate, as_bytes = case
    if as_bytes:
        s, seps = enc(s), enc(seps)
    alt = model_split(s, seps, count, reverse, separate)
    pad = [s[:0]] * (2 * count + 1 - len(alt))
    want = tuple(pad + alt if reverse else alt + pad)
    ensure(multipartition(s, seps, count, reverse=reverse, separate=separate) == want == multirpartition(s, seps, count, reverse=not reverse, separate=separate), 'multipartition')
    return len(alt) > 2


@prop.sub(lambda: st.tuples(st.sampled_from(['q', 'xq', 'q\n', 'Zz']), sizes(20000, 0), st.sampled_from([',', 'ab', '\t', 'xx']), st.lists(sizes(20000, 0), max_size=3),
                               st.sampled_from([0, 1, 1, 2, 5, 300]), st.booleans(), st.booleans()), quick=600, thorough=8000)
def sparse(case):
    "long texts with no separator, or only a few"
    unit, n, sep, places, count, separate, as_bytes = case
    s = unit * n
    for p in places:
        s = s[:p] + sep + s[p:]
    seps = [sep, '!!']
    if as_bytes:
        s, seps = enc(s), enc(seps)
    e = s[:0]
    for reverse in (False, True):
        # no two separators are found by anything but str.find here
        alt = model_sparse(s, seps[0], count, separate, reverse)
        pad = [e] * (2 * count + 1 - len(alt))
        want = tuple(pad + alt if reverse else alt + pad)
        ensure(multipartition(s, seps, count, reverse=reverse, separate=separate) == want, 'multipartition', reverse)
        ensure(multirpartition(s, seps, count, reverse=not reverse, separate=separate) == want, 'multirpartition', reverse)
    return f'{min(len(places), 2)} separators'


def model_sparse(s, sep, count, separate, reverse):
    out = []
    k = len(sep)
    for _ in range(count):
        if reverse:
            head, p, tail = s.rpartition(sep)
            if not p:
                break
            while not separate and head.endswith(sep):
                head, p = head[:-k], p + sep
            out = [p, tail] + out
            s = head
        else:
            head, p, tail = s.partition(sep)
            if not p:
                break
            while not separate and tail.startswith(sep):
                tail, p = tail[k:], p + sep
            out += [head, p]
            s = tail
    return [s] + out if reverse else out + [s]


@prop.sub(lambda: st.tuples(table_texts(), st.integers(0, 6), st.booleans(), st.booleans()), quick=6000)
def exported_tables(case):
    (name, seps, s), count, reverse, separate = case
    import big.text
    alt = model_split(s, seps, count, reverse, separate)
    pad = [s[:0]] * (2 * count + 1 - len(alt))
    want = tuple(pad + alt if reverse else alt + pad)
    equal(multipartition(s, getattr(big.text, name), count, reverse=reverse, separate=separate), want, name)
    equal(multirpartition(s, getattr(big.text, name), count, reverse=not reverse, separate=separate), want, name)
    return len(alt) > 1 and name


@prop.sub(lambda: st.tuples(text_and_seps(max_seps=1), st.booleans()), quick=12000)
def like_partition(case):
    (s, (sep,)), as_bytes = case
    if as_bytes:
        s, sep = enc(s), enc(sep)
    equal(multipartition(s, (sep,)), s.partition(sep), 'partition')
    equal(multirpartition(s, [sep]), s.rpartition(sep), 'rpartition')
    equal(multipartition(s, [sep], 1, reverse=True), s.rpartition(sep), 'partition reverse')
    with raises(ValueError, 'negative count'):
        multipartition(s, [sep], -1)
    return sep in s and 'found'
