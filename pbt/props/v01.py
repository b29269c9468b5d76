"""Version ordering, equality and hashing against packaging.version (PEP 440)."""
import functools
from hypothesis import strategies as st
from packaging.version import Version as PV
from pbt.harness import Prop, ensure, equal, raises, harvest
from big.version import Version

prop = Prop('V01',
    "lists of 2..7 PEP 440 strings, most derived from one another by changing one segment or only the spelling; every "
    "pair compared with packaging.version, the list sorted. Non-trivial: the list holds two different spellings of equal "
    "versions, or a pair that differs only in one segment kind.")
prop.findings['dev-of-final-after-prereleases'] = lambda: Version('1.0a1') < Version('1.0.dev1')

INTS, _ = harvest()
# near-equal big numbers: a float, a fixed width or a string comparison orders some of these wrongly
BIG = st.one_of(st.sampled_from([k for b in (8, 15, 16, 31, 32, 53, 63, 64, 100) for k in (2**b - 1, 2**b, 2**b + 1)]),
                st.sampled_from([k for d in (1, 2, 3, 4, 9, 15, 16, 17, 20, 40) for k in (10**d - 1, 10**d, 10**d + 1)]),
                st.integers(20200101, 20260131), st.integers(0, 10**20))
NUM = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 40), st.sampled_from([i for i in INTS if 0 <= i < 10**6]), BIG)
EPOCH = st.one_of(st.integers(0, 2), st.integers(0, 2), NUM)
SEP = st.sampled_from(['', '.', '-', '_'])


def casing(s):
    return st.sampled_from([s, s, s.upper(), s.title()])


def opt(x):
    return st.one_of(st.none(), x)


# a version is a dict of segments; spelling happens in render()
LOCALSEG = st.one_of(st.integers(0, 12).map(str), st.sampled_from(['a', 'b', 'abc', 'abd', '1a', 'a1', 'z', '0a', '00', '01', '001', 'ABC']),
                     BIG.map(str), st.builds(lambda z, n: '0' * z + str(n), st.integers(1, 20), BIG),
                     st.text('ab019z', min_size=1, max_size=24),
                     st.builds(lambda c, n, t: c * n + t, st.sampled_from(['a', 'ab', '0a', 'z9']), st.sampled_from([8, 16, 32, 64, 130]), st.text('ab09z', max_size=2)))
LOCAL = st.one_of(st.lists(LOCALSEG, min_size=1, max_size=3), st.lists(LOCALSEG, min_size=1, max_size=8))
segments = st.fixed_dictionaries(dict(
    epoch=opt(EPOCH),
    release=st.one_of(st.lists(NUM, min_size=1, max_size=4), st.lists(NUM, min_size=1, max_size=9)),
    pre=opt(st.tuples(st.sampled_from(['a', 'b', 'c', 'rc', 'alpha', 'beta', 'pre', 'preview']), opt(NUM))),
    post=opt(st.tuples(st.sampled_from(['post', 'rev', 'r', '-']), opt(NUM))),
    dev=opt(st.tuples(opt(NUM))),
    local=opt(LOCAL)))
spelling = st.tuples(st.sampled_from(['', '', 'v', 'V', ' ', ' v', '\n']), SEP, SEP, SEP, SEP, SEP, SEP,
                     st.sampled_from(['.', '.', '-', '_']), st.integers(0, 2), st.sampled_from([0, 0, 1, 2, 3, 4]),
                     st.sampled_from(['', '', '', ' ', '\t\n']))


def render(seg, sp):
    lead, s1, s2, s3, s4, s5, s6, ls, zeros, case, tail = sp
    z = '0' * zeros
    t = lead
    if seg['epoch'] is not None:
        t += f"{z}{seg['epoch']}!"
    t += '.'.join(z + str(n) for n in seg['release'])
    if seg['pre']:
        l, n = seg['pre']
        t += s1 + l
        if n is not None:
            t += s2 + z + str(n)
    if seg['post']:
        l, n = seg['post']
        if l == '-' and n is not None:
            t += '-' + z + str(n)
        else:
            t += s3 + (l if l != '-' else 'post')
            if n is not None:
                t += s4 + z + str(n)
    if seg['dev']:
        n, = seg['dev']
        t += s5 + 'dev'
        if n is not None:
            t += s6 + z + str(n)
    if seg['local']:
        t += '+' + ls.join(seg['local'])
    t = [t, t.upper(), t.title(), t.title().swapcase(), ''.join(c.upper() if i % 3 == zeros else c for i, c in enumerate(t))][case]
    return t + tail


MUT = st.one_of(
    st.tuples(st.just('epoch'), opt(EPOCH)),
    st.tuples(st.just('bump'), st.integers(0, 8), NUM),
    st.tuples(st.just('nudge'), st.integers(0, 30), st.sampled_from([-1, 1, 1, 2, 9, 10])),
    st.tuples(st.just('zeros'), st.sampled_from([1, 1, 2, 3, 6, 20])),
    st.tuples(st.just('extend'), NUM),
    st.tuples(st.just('chop')),
    st.tuples(st.just('pre'), opt(st.tuples(st.sampled_from(['a', 'b', 'c', 'rc', 'alpha', 'beta', 'pre', 'preview']), opt(NUM)))),
    st.tuples(st.just('post'), opt(st.tuples(st.sampled_from(['post', 'rev', 'r', '-']), opt(NUM)))),
    st.tuples(st.just('dev'), opt(st.tuples(opt(NUM)))),
    st.tuples(st.just('local'), opt(LOCAL)),
    st.tuples(st.just('localextend'), LOCALSEG),
    st.tuples(st.just('shuffle'), st.sampled_from(['local', 'local', 'release', 'pieces']), st.integers(0, 5)),
    st.tuples(st.just('localtail'), st.integers(0, 7), st.sampled_from('abz09')),
    st.tuples(st.just('move'), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just('respell')))


def mutate(seg, mut):
    seg = dict(seg)
    k = mut[0]
    if k == 'bump':
        r = list(seg['release']); r[mut[1] % len(r)] = mut[2]; seg['release'] = r
    elif k == 'zeros':
        seg['release'] = seg['release'] + [0] * mut[1]
    elif k == 'extend':
        seg['release'] = seg['release'] + [mut[1]]
    elif k == 'nudge':
        # move one number of the version, wherever it is, by a little
        where = [('release', i) for i in range(len(seg['release']))]
        where += [('epoch',)] * (seg['epoch'] is not None)
        where += [(p,) for p in ('pre', 'post', 'dev') if seg[p] and seg[p][-1] is not None]
        where += [('local', i) for i, x in enumerate(seg['local'] or ()) if x.isdigit()]
        w = where[mut[1] % len(where)]
        if w[0] == 'epoch':
            seg['epoch'] = max(0, seg['epoch'] + mut[2])
        elif len(w) == 2:
            l = list(seg[w[0]])
            n = max(0, int(l[w[1]]) + mut[2])
            l[w[1]] = str(n) if w[0] == 'local' else n
            seg[w[0]] = l
        else:
            l = list(seg[w[0]])
            l[-1] = max(0, l[-1] + mut[2])
            seg[w[0]] = tuple(l)
    elif k == 'localextend':
        seg['local'] = list(seg['local'] or ()) + [mut[1]]
    elif k == 'shuffle':
        # the same numbers and words, elsewhere
        if mut[1] == 'pieces':
            l = [''.join(p)[::-1] for p in seg['local'] or ()]
        else:
            l = list(seg[mut[1]] or ())
            l = [l[::-1], sorted(l, key=str), l[1:] + l[:1], l + l, l[:1] + l, l[:-1]][mut[2]]
        seg['release' if mut[1] == 'release' else 'local'] = l or seg['release' if mut[1] == 'release' else 'local']
    elif k == 'localtail':
        # one segment of the local version ends differently
        if seg['local']:
            l = list(seg['local']); i = mut[1] % len(l); l[i] = l[i][:-1] + mut[2]; seg['local'] = l
    elif k == 'move':
        # one number changes places with another, wherever it is
        def places(s):
            out = [(s.__setitem__, 'epoch', s['epoch'])] if s['epoch'] is not None else []
            out += [(s['release'].__setitem__, i, n) for i, n in enumerate(s['release'])]
            out += [((lambda p, v: s.__setitem__(p, s[p][:-1] + (v,))), p, s[p][-1]) for p in ('pre', 'post', 'dev') if s[p] and s[p][-1] is not None]
            return out + [((lambda i, v: s['local'].__setitem__(i, str(v))), i, int(n)) for i, n in enumerate(s['local'] or ()) if n.isdigit()]
        seg['release'] = list(seg['release'])
        seg['local'] = list(seg['local']) if seg['local'] else seg['local']
        at = places(seg)
        a, b = at[mut[1] % len(at)], at[mut[2] % len(at)]
        a[0](a[1], b[2])
        b[0](b[1], a[2])
    elif k == 'chop':
        seg['release'] = seg['release'][:-1] or seg['release']
    elif k != 'respell':
        seg[k] = mut[1]
    return seg


def family():
    @st.composite
    def build(draw):
        segs = [draw(segments)]
        for _ in range(draw(st.integers(1, 6))):
            base = segs[draw(st.integers(0, len(segs) - 1))]
            segs.append(mutate(base, draw(MUT)))
        return [render(s, draw(spelling)) for s in segs]
    return build()


def deviant(p, q):
    "the recorded finding: dev-of-final against a pre-release of the same release"
    def devonly(v):
        return v.pre is None and v.post is None and v.dev is not None
    def rel(v):
        r = list(v.release)
        while len(r) > 1 and not r[-1]:
            r.pop()
        return v.epoch, r
    return rel(p) == rel(q) and ((devonly(p) and q.pre is not None) or (devonly(q) and p.pre is not None))


DEVIATES = Version('1.0a1') < Version('1.0.dev1')


def sign(p, q):
    if DEVIATES and deviant(p, q):
        return -1 if p.pre is not None else 1
    return -1 if p < q else 1 if q < p else 0


def compare(strings):
    vs = [Version(s) for s in strings]
    ps = [PV(s) for s in strings]
    label = set()
    for i, (v, p) in enumerate(zip(vs, ps)):
        for j, (w, q) in enumerate(zip(vs, ps)):
            c = sign(p, q)
            ctx = (strings[i], strings[j])
            equal(v < w, c < 0, 'less than', ctx)
            equal(v > w, c > 0, 'greater than', ctx)
            equal(v == w, c == 0, 'equal', ctx)
            equal(v != w, c != 0, 'not equal', ctx)
            if c == 0:
                equal(hash(v), hash(w), 'hash of equal versions', ctx)
                if strings[i] != strings[j]:
                    label.add('equal, different spelling')
            elif i < j:
                a, b = p, q
                d = [n for n in ('epoch', 'release', 'pre', 'post', 'dev', 'local') if getattr(a, n) != getattr(b, n)]
                if len(d) == 1:
                    label.add('differs only in ' + d[0])
    order = sorted(range(len(vs)), key=lambda i: vs[i])
    want = sorted(range(len(vs)), key=functools.cmp_to_key(lambda a, b: sign(ps[a], ps[b])))
    equal(order, want, 'sorted', strings)
    uniq = len(set(vs))
    equal(uniq, len({i for i in range(len(ps)) if not any(sign(ps[i], ps[j]) == 0 for j in range(i))}), 'set size', strings)
    for v in vs[:1]:
        for o in (1.3, 'abc', None, strings[0], v.release):
            ensure(not (v == o) and v != o, 'a Version is not equal to ', o)
            with raises(TypeError, 'ordering against', o):
                v < o
            with raises(TypeError, 'ordering against', o):
                v > o
    return label


@prop.sub(family, quick=12000)
def lists(case):
    return compare(case)


def grid(tier):
    pres = ['', 'a', 'a0', 'a1', 'b1', 'rc', 'rc1', 'c2']
    posts = ['', '.post', '.post0', '.post1']
    devs = ['', '.dev', '.dev0', '.dev1']
    locs = ['', '+a', '+a.1', '+1', '+01', '+a.b', '+2.a']
    rels = ['1', '1.0', '1.0.1', '2', '0!1', '1!0']
    small = [r + p + q + d for r in ('1', '1.0.0') for p in pres for q in posts for d in devs]
    step = 8
    for i in range(0, len(small)):
        yield [small[i], small[(i * 7 + 3) % len(small)], small[(i * 13 + 5) % len(small)], small[(i + 1) % len(small)]]
    for i in range(len(small)):
        for j in range(i % 3, len(small), 3 if tier == 'quick' else 1):
            yield [small[i], small[j]]
    mixed = [r + p + d + l for r in rels for p in ('', 'b1', '.post1') for d in ('', '.dev1') for l in locs]
    for i in range(len(mixed)):
        for j in range(i % 5, len(mixed), 5 if tier == 'quick' else 1):
            yield [mixed[i], mixed[j]]


@prop.sub(enum=grid)
def pairs(case):
    return compare(case)
