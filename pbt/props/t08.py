"""combine_splits against the union of cut points."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.sizes import sizes
from big.text import combine_splits, multisplit

prop = Prop('T08',
    "a text and 0..5 split arrays given by their cut points (with empty pieces, coinciding cuts, arrays covering only a prefix, any iterable), "
    "in every order: pieces must be exactly the text cut at the union; uneven: pieces of one to hundreds of thousands of characters side by side. Non-trivial: at least two arrays with different internal cuts.",
    ["a split that covers only a prefix of the text cuts at its end"])


@st.composite
def cases(draw):
    s = draw(st.text('abcé \n', max_size=16))
    n = len(s)
    arrays = []
    for _ in range(draw(st.integers(0, 5))):
        cuts = draw(st.lists(st.integers(0, n), max_size=8))
        end = draw(st.one_of(st.just(n), st.just(n), st.just(n), st.integers(0, n)))
        arrays.append((sorted(c for c in cuts if c <= end), end))
    return s, arrays, draw(st.booleans()), draw(st.sampled_from(['list', 'tuple', 'iter']))


def build(s, cuts, end, form):
    out, pos = [], 0
    for c in cuts + [end]:
        out.append(s[pos:c])
        pos = c
    return {'list': list, 'tuple': tuple, 'iter': iter}[form](out)


@prop.sub(cases, quick=30000)
def union_of_cuts(case):
    s, arrays, as_bytes, form = case
    if as_bytes:
        s = s.encode('latin-1')
    points = sorted({0, len(s)} | {c for cuts, end in arrays for c in cuts + [end]})
    want = [s[a:b] for a, b in zip(points, points[1:])]
    for order in (arrays, arrays[::-1], arrays[1:] + arrays[:1]):
        args = [build(s, cuts, end, form) for cuts, end in order]
        before = [list(a) for a in args] if form != 'iter' else None
        got = list(combine_splits(s, *args))
        equal(got, want, s, arrays)
        if before is not None:
            ensure([list(a) for a in args] == before, 'argument modified')
    equal(s[:0].join(got), s, 'join')
    distinct = {tuple(sorted(set(c for c in cuts + [end] if 0 < c < len(s)))) for cuts, end in arrays}
    return len(distinct - {()}) > 1 and f'{len(arrays)} arrays'


@st.composite
def long_cases(draw):
    "split arrays which all run past the end without stopping there"
    n = draw(st.one_of(st.integers(0, 12), sizes(5000)))
    arrays = []
    for _ in range(draw(st.integers(1, 4))):
        cuts = sorted(draw(st.lists(st.integers(0, max(0, n - 1)), max_size=6)))
        arrays.append((cuts, n + draw(st.one_of(st.just(1), st.just(1), sizes(300)))))
    # a shorter one may be there as well
    if n and draw(st.booleans()):
        end = draw(st.integers(0, n - 1))
        arrays.insert(draw(st.integers(0, len(arrays))), (sorted(draw(st.lists(st.integers(0, end), max_size=4))), end))
    return n, arrays, draw(st.booleans())


@prop.sub(long_cases, quick=6000)
def past_the_end(case):
    n, arrays, as_bytes = case
    longer = 'abcdefg' * ((max(e for c, e in arrays) + 7) // 7)
    if as_bytes:
        longer = longer.encode()
    args = [build(longer, cuts, end, 'list') for cuts, end in arrays]
    s = longer[:n]
    got = []
    with raises(ValueError, 'split array longer than the text', n, arrays):
        for x in combine_splits(s, *args):
            got.append(x)
    points = sorted({0} | {c for cuts, end in arrays for c in cuts + [end] if c < n})
    pieces = [s[a:b] for a, b in zip(points, points[1:])]
    equal(got, pieces[:len(got)], 'pieces before the error')
    return f'{len(arrays)} arrays'


@prop.sub(lambda: st.tuples(st.text('ab, \n', max_size=14), st.lists(st.sampled_from([',', ' ', '\n', 'ab', 'a']), min_size=1, max_size=4)), quick=6000)
def of_multisplits(case):
    s, seps = case
    arrays = [list(multisplit(s, (p,), keep=True, separate=True)) for p in seps]
    points = {0, len(s)}
    for a in arrays:
        pos = 0
        for x in a:
            pos += len(x)
            points.add(pos)
    points = sorted(points)
    equal(list(combine_splits(s, *arrays)), [s[a:b] for a, b in zip(points, points[1:])])
    return len(set(seps)) > 1 and len(points) > 2 and 'multisplit arrays'


@prop.sub(lambda: st.tuples(st.text('abc', min_size=1, max_size=9), st.sampled_from([30, 100, 260, 1100, 5000]), st.sampled_from([1, 5, 17, 40, 130, 257, 600]), st.randoms(use_true_random=False).map(lambda r: r.getrandbits(32)), st.integers(1, 40)), quick=250, thorough=4000)
def scale(case):
    s, n, arrays, seed, gap = case
    s = (s * n)[:n]
    import random
    r = random.Random(seed)
    points = {0, n}
    args = []
    for _ in range(arrays):
        cuts = sorted(r.sample(range(n), min(n, max(1, n // gap // arrays))))
        points.update(cuts)
        args.append(build(s, cuts, n, 'list'))
    points = sorted(points)
    ensure(list(combine_splits(s, *args)) == [s[a:b] for a, b in zip(points, points[1:])], 'combine_splits')
    return arrays > 1 and f'{arrays} arrays'


TEXT = ''.join(map(str, range(40000)))


@prop.sub(lambda: st.tuples(sizes(180000), st.lists(st.lists(sizes(180000), max_size=4), max_size=4), st.booleans(), st.sampled_from(['list', 'tuple', 'iter'])), quick=1500, thorough=20000)
def uneven(case):
    "a few pieces of very different lengths, up to hundreds of thousands of characters"
    n, arrays, as_bytes, form = case
    s = TEXT[:n]
    if as_bytes:
        s = s.encode()
    points, args = {0, n}, []
    for pieces in arrays:
        cuts, pos = [], 0
        for k in pieces:
            if pos + k > n:
                break
            pos += k
            cuts.append(pos)
        points.update(cuts)
        args.append(build(s, cuts, n, form))
    points = sorted(points)
    got = list(combine_splits(s, *args))
    equal([len(p) for p in got], [b - a for a, b in zip(points, points[1:])], 'lengths of the pieces')
    ensure(s[:0].join(got) == s, 'the pieces do not join to the text')
    ensure(all(type(p) is type(s) for p in got), 'type')
    return len(points) > 2 and f'{len(arrays)} arrays'
