"""split_title_case against cut points defined by character class."""
import itertools
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal
from pbt.sizes import sizes
from big.text import split_title_case

prop = Prop('T09',
    "all strings over {upper, lower, uncased} up to length 7 (8 thorough) plus generated Unicode text, both split_allcaps settings, str and "
    "bytes; cut points from the definition. Non-trivial: at least one cut.", ["the empty string yields itself"])


def want(s, allcaps, up, low):
    n = len(s)
    cuts = [i for i in range(1, n) if up(s[i]) and (low(s[i - 1]) or (allcaps and up(s[i - 1]) and i + 1 < n and low(s[i + 1])))]
    pts = [0] + cuts + [n]
    return [s[a:b] for a, b in zip(pts, pts[1:])]


def one(s):
    out = set()
    for allcaps in (True, False, None, 1):
        w = want(s, allcaps, str.isupper, str.islower)
        kw = {} if allcaps is None else {'split_allcaps': allcaps}
        if allcaps is None:
            w = want(s, True, str.isupper, str.islower)
        got = list(split_title_case(s, **kw))
        equal(got, w, s, allcaps)
        equal(''.join(got), s, 'join')
        if len(got) > 1:
            out.add('cut' if allcaps else 'cut without allcaps')
    b = s.encode('utf-8')
    chars = b.decode('latin-1')
    asc = want(chars, True, lambda c: 'A' <= c <= 'Z', lambda c: 'a' <= c <= 'z')
    equal(list(split_title_case(b)), [x.encode('latin-1') for x in asc], 'bytes', b)
    asc = want(chars, False, lambda c: 'A' <= c <= 'Z', lambda c: 'a' <= c <= 'z')
    equal(list(split_title_case(b, split_allcaps=False)), [x.encode('latin-1') for x in asc], 'bytes no allcaps', b)
    return out


@prop.sub(lambda: st.lists(st.tuples(st.sampled_from(['A', 'Z', 'É', 'a', 'z', 'é', '1', '_', 'aB', 'Ab', 'ABc', 'aBC', '1A', 'A1']), sizes(3000)), min_size=1, max_size=5), quick=400, thorough=6000)
def scale(case):
    return one(''.join((unit * n)[:3000] for unit, n in case)) and 'long'


def small(tier):
    for n in range(0, 8 if tier == 'quick' else 10):
        for t in itertools.product('Aa1', repeat=n):
            yield ''.join(t)


@prop.sub(enum=small)
def exhaustive(case):
    return one(case)


@prop.sub(lambda: st.one_of(st.text(st.sampled_from('ABZabz01_ -éÉßǅªʰⅧⅷİı中'), max_size=14), st.text(max_size=8),
                           st.lists(st.sampled_from(['When', 'I', 'Was', 'A', 'HTTP', 'x', '2', 'Tea', 'pot', 'ID', '_']), max_size=8).map(''.join)), quick=12000)
def generated(case):
    return one(case)
