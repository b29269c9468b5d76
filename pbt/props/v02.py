"""Version parsing, printing and keyword construction against packaging's parser and the PEP 440 grammar."""
import re
from hypothesis import strategies as st
from packaging.version import Version as PV, InvalidVersion
from pbt.harness import Prop, ensure, equal, raises, Violation, harvest
from pbt.props.v01 import segments, spelling, render, NUM
from big.version import Version

prop = Prop('V02',
    "spelled: every segment combination in every PEP 440 spelling (case, separators, v, leading zeros, padding); nearmiss: valid "
    "strings with one character inserted, deleted or replaced, and short strings over the grammar's alphabet, accepted exactly when "
    "packaging accepts them; keywords: valid and invalid keyword combinations. Non-trivial: a string with a segment beyond the "
    "release, or one within an edit of a valid string.")

LEVEL = {None: 'final', 'a': 'alpha', 'b': 'beta', 'rc': 'rc'}
# the form of version strings the documentation gives (README, "Version"), with a number wherever it has one
NORMAL = re.compile(r'(\d+!)?\d+(\.\d+)*((a|b|rc)\d*)?(\.post\d+)?(\.dev\d+)?(\+[a-z0-9]+(\.[a-z0-9]+)*)?', re.A).fullmatch

ATTRS = ('epoch', 'release', 'release_level', 'serial', 'post', 'dev', 'local')


def attrs(v):
    return {a: getattr(v, a) for a in ATTRS}


def verify(s, v):
    p = PV(s)
    rel = list(p.release)
    while len(rel) > 1 and not rel[-1]:
        rel.pop()
    equal(v.epoch or 0, p.epoch, 'epoch')
    equal(v.release, tuple(rel), 'release')
    equal((v.major, v.minor, v.micro), tuple((rel + [0, 0])[:3]), 'major minor micro')
    equal(v.release_level, LEVEL[p.pre and p.pre[0]], 'release_level')
    equal(v.releaselevel, v.release_level, 'releaselevel')
    equal(v.serial or 0, p.pre[1] if p.pre else 0, 'serial')
    equal(v.post, p.post, 'post')
    equal(v.dev, p.dev, 'dev')
    def norm(l):
        return None if l is None else tuple(int(x) if x.isdigit() else x for x in l)
    equal(norm(v.local), norm(tuple(p.local.split('.')) if p.local else None), 'local')
    t = str(v)
    ensure(isinstance(t, str))
    ensure(NORMAL(t), 'str is not in the documented form', t)
    equal(str(Version(str(p))), t, 'another spelling of the same version prints differently', str(p))
    back = Version(t)
    equal((v == back, hash(v) == hash(back)), (True, True), 'Version(str(v))', t)
    ensure(PV(t) == p, 'str(v) denotes another version: ', t)
    equal(str(back), t, 'str is not stable')
    r = repr(v)
    ensure(eval(r, {'Version': Version}) == v, 'eval(repr(v))', r)
    a = attrs(v)
    again = Version(**a)
    ensure(again == v and hash(again) == hash(v), 'from keywords', a)
    equal(str(again), t, 'str of keyword-built twin')
    equal({k: x for k, x in attrs(again).items() if k not in ('epoch', 'serial')},
          {k: x for k, x in a.items() if k not in ('epoch', 'serial')}, 'attributes of keyword-built twin')
    for name in ATTRS + ('major', 'minor', 'micro'):
        try:
            setattr(v, name, getattr(v, name))
        except AttributeError:
            continue
        raise Violation(f'{name} is writable')
    return p


@prop.sub(lambda: st.tuples(segments, spelling).map(lambda t: render(*t)), quick=20000)
def spelled(case):
    p = verify(case, Version(case))
    with raises(ValueError, 'string and keywords together'):
        Version(case, release=(1,))
    return bool(p.epoch or p.pre or p.post is not None or p.dev is not None or p.local) or False


def accept(s):
    try:
        if not s.strip().isascii():     # (packaging lets a Kelvin sign pass for a "k")
            raise InvalidVersion(s)
        PV(s)
    except InvalidVersion:
        with raises(ValueError, 'not a PEP 440 version', s):
            Version(s)
        return 'rejected'
    verify(s, Version(s))
    return 'accepted'


ALPH = '0123456789.!+-_ avbcrdeposticlhABRC~=*/,'
EDIT = st.tuples(st.integers(0, 60), st.sampled_from(['insert', 'delete', 'replace', 'dup', 'swap']), st.sampled_from(list(ALPH) + ['\n', '\x00', '\t', '\xa0', '\u3000', 'ſ', '\u212a', 'ı', 'İ', 'é', '٣', '²', '１', 'ａ']))


def edited(t):
    s, edits = t
    for pos, kind, ch in edits:
        i = pos % (len(s) + 1)
        if kind == 'insert':
            s = s[:i] + ch + s[i:]
        elif kind == 'delete':
            s = s[:i] + s[i + 1:]
        elif kind == 'replace':
            s = s[:i] + ch + s[i + 1:]
        elif kind == 'dup':
            s = s[:i] + s[i:i + 4] + s[i:]
        else:
            s = s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
    return s


@prop.sub(lambda: st.one_of(
    st.tuples(st.tuples(segments, spelling).map(lambda t: render(*t)), st.lists(EDIT, min_size=1, max_size=2)).map(edited),
    st.lists(st.sampled_from(['1', '0', '.', '-', '_', '!', '+', 'a', 'b', 'rc', 'c', 'post', 'dev', 'rev', 'r', 'v', 'pre', 'preview', 'alpha',
                              'x', ' ', 'beta', 'final', '2']), max_size=7).map(''.join)), quick=30000)
def nearmiss(case):
    return accept(case)


LOOKALIKE = {'s': 'ſ', 'S': 'ſ', 'i': 'ı', 'I': 'İ', 'k': '\u212a', 'K': '\u212a', '1': '１', '0': '٠', '3': '³', '2': '２', 'a': 'а', '.': '．', '-': '−', ' ': '\xa0', '\n': '\x85', '\t': '\u2003'}


@prop.sub(lambda: st.tuples(st.tuples(segments, spelling).map(lambda t: render(*t)), st.integers(0, 60)), quick=6000)
def lookalikes(case):
    "one character replaced with another that resembles it"
    s, k = case
    spots = [i for i, c in enumerate(s) if c in LOOKALIKE]
    if spots:
        i = spots[k % len(spots)]
        s = s[:i] + LOOKALIKE[s[i]] + s[i + 1:]
    return accept(s)


def short(tier):
    toks = ['1', '.', '-', '_', 'a', 'rc', 'post', 'r', 'dev', '+', '!', 'v']
    def rec(prefix, n):
        yield prefix
        if n:
            for t in toks:
                yield from rec(prefix + t, n - 1)
    yield from rec('', 3)
    yield from rec('1', 3)
    if tier == 'thorough':
        yield from rec('1', 5)


@prop.sub(enum=short)
def grammar(case):
    return accept(case) + ' (enumerated)'


def opt(x):
    return st.one_of(st.none(), x)


BAD = st.sampled_from(['1', '', -1, 1.5, -7, [1], (), b'1', -(10**9)])


@prop.sub(lambda: st.tuples(
    opt(st.one_of(NUM, BAD)),
    st.one_of(st.lists(NUM, min_size=1, max_size=5).map(tuple), st.lists(st.sampled_from([0, 1, -1]), max_size=4).map(tuple),
              st.sampled_from([None, 1, '1.0', [1, 2], (1, '2'), (1.0,), (), (1, None)])),
    opt(st.sampled_from(['alpha', 'beta', 'rc', 'final', 'a', 'b', 'rc', 'alpha', 'beta', 'ALPHAX', '', 'gamma', 3, 'f', 'releasecandidate'])),
    opt(st.one_of(NUM, BAD)), opt(st.one_of(NUM, BAD)), opt(st.one_of(NUM, BAD)),
    st.one_of(st.none(), st.lists(st.sampled_from(['a', 'B', '1', '01', 'abc1', 'Zz', '0']), min_size=1, max_size=3).map(tuple),
              st.sampled_from([(), '', 'abc', ('a', ''), ('a.b',), ('a_b',), ('a', 1), ['a'], ('a\n',), (' a',), ('é',), 5]))), quick=20000)
def keywords(case):
    kw = dict(zip(ATTRS, case))
    def nat(x):
        return x is None or (isinstance(x, int) and x >= 0)
    rel, loc, level = kw['release'], kw['local'], kw['release_level']
    ok = (nat(kw['epoch']) and nat(kw['serial']) and nat(kw['post']) and nat(kw['dev'])
          and isinstance(rel, tuple) and rel and all(isinstance(x, int) and x >= 0 for x in rel)
          and (level is None or level in ('alpha', 'beta', 'rc', 'final', 'a', 'b'))
          and (loc is None or (isinstance(loc, tuple) and loc and all(isinstance(x, str) and x and x.isascii() and x.isalnum() for x in loc))))
    if ok and level in (None, 'final') and kw['serial']:
        ok = False
    if not ok:
        with raises(ValueError, 'invalid keywords', kw):
            Version(**kw)
        return 'invalid'
    v = Version(**kw)
    level = {None: 'final', 'a': 'alpha', 'b': 'beta'}.get(level, level)
    s = ''
    if kw['epoch']:
        s += f"{kw['epoch']}!"
    s += '.'.join(map(str, rel))
    if level != 'final':
        s += {'alpha': 'a', 'beta': 'b', 'rc': 'rc'}[level] + str(kw['serial'] or 0)
    if kw['post'] is not None:
        s += f".post{kw['post']}"
    if kw['dev'] is not None:
        s += f".dev{kw['dev']}"
    if loc:
        s += '+' + '.'.join(loc)
    ensure(Version(s) == v and hash(Version(s)) == hash(v), 'keywords and string disagree', s, str(v))
    verify(s, v)
    return 'valid'


INFO = []


@prop.sub(lambda: st.tuples(st.integers(0, 40), st.integers(0, 40), st.one_of(st.just(0), st.integers(0, 40)),
                            st.sampled_from(['alpha', 'beta', 'candidate', 'final']), st.one_of(st.integers(0, 3), st.integers(0, 40))), quick=600)
def version_info(case):
    "Version(sys.version_info), for the sys.version_info of any Python there was or will be"
    import collections, importlib.util, sys
    import big.version
    real = sys.version_info
    if not INFO:
        INFO.append(collections.namedtuple('version_info', 'major minor micro releaselevel serial'))
        sys.version_info = INFO[0](*real)
        try:
            spec = importlib.util.spec_from_file_location('big_version_here', big.version.__file__)
            INFO.append(importlib.util.module_from_spec(spec))
            spec.loader.exec_module(INFO[1])
        finally:
            sys.version_info = real
    level, serial = case[3], case[4] if case[3] != 'final' else 0
    V = INFO[1].Version
    sys.version_info = info = INFO[0](*case[:3], level, serial)
    try:
        v = V(info)
    finally:
        sys.version_info = real
    want = V('.'.join(map(str, case[:3])) + ({'alpha': 'a', 'beta': 'b', 'candidate': 'rc'}[level] + str(serial) if level != 'final' else ''))
    ensure(v == want and hash(v) == hash(want), 'Version of', info, 'is', v)
    equal(str(v), str(want), 'Version of', info)
    equal((v.major, v.minor, v.micro), case[:3], 'major minor micro of', info)
    v = Version(real)
    equal((v.major, v.minor, v.micro, v.serial or 0), (real.major, real.minor, real.micro, real.serial), 'Version(sys.version_info)', v)
    return level
