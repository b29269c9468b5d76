"""Filename translation: legality, preservation, idempotence."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.sizes import sizes
from big.file import translate_filename_to_exfat as exfat, translate_filename_to_unix as unix

prop = Prop('F03',
    "all strings of length up to 3 over the forbidden characters and their neighbours, and random unicode strings rich in them. "
    "scale: thousands of characters. Non-trivial: the string contains a forbidden character.")
CONTROL = ''.join(map(chr, range(1, 32)))
FORBIDDEN = '\x00' + CONTROL + '/\\:*?"<>|'
prop.findings['exfat-control-characters'] = lambda: '?' in exfat('\x01')
PERSISTS = prop.findings['exfat-control-characters']()

REPL = {'\x00': '@', '/': '-', '\\': '-', '*': '@', '?': '.', '"': "'", '<': '{', '>': '}', '|': '!'}


def model_exfat(s):
    out = []
    for i, c in enumerate(s):
        if c == ':':
            out.append(' -' if s[i + 1:i + 2] == ' ' else '.')
        elif c in CONTROL:
            out.append(f'?{ord(c):02x}' if PERSISTS else exfat(c))
        else:
            out.append(REPL.get(c, c))
    return ''.join(out)


def check(s):
    r = exfat(s)
    ensure(type(r) is str)
    controls = any(c in CONTROL for c in s)
    bad = FORBIDDEN if not (controls and PERSISTS) else FORBIDDEN.replace('?', '')
    ensure(not any(c in bad for c in r), 'forbidden character in ', r)
    equal(r, model_exfat(s), 'exfat', s)
    legal = ''.join(c for c in s if c not in FORBIDDEN)
    if len(legal) == len(s):
        equal(r, s, 'legal name changed')
    if not (controls and PERSISTS):
        equal(exfat(r), r, 'not idempotent', s)
    u = unix(s)
    ensure('/' not in u and '\x00' not in u, 'forbidden character in ', u)
    equal(u, s.replace('/', '-').replace('\x00', '@'), 'unix', s)
    equal(unix(u), u, 'not idempotent')
    return any(c in FORBIDDEN for c in s)


def short(tier):
    alpha = list('\x00\x01\x1f\x20:/\\*?"<>|a-.\x7f@!')
    for a in alpha:
        yield a
        for b in alpha:
            yield a + b
            for c in alpha:
                yield a + b + c
    for i in range(0x250):
        yield chr(i)
        yield ':' + chr(i)
        yield 'x' + chr(i) + ': y'
    step = 7 if tier == 'quick' else 1
    for i in range(0x250, 0x110000, step):
        if not 0xd800 <= i < 0xe000:
            yield chr(i)


@prop.sub(enum=short)
def enumerated(case):
    return check(case)


@prop.sub(lambda: st.one_of(st.text(st.one_of(st.sampled_from(list(FORBIDDEN + ' abc.:-')), st.characters()), min_size=1, max_size=25),
                            st.lists(st.sampled_from([': ', ':', ' :', ':  ', ' - ', '::', 'a', 'ab', '/', '?', '\t', '\n', '\x00', '..', '<', 'x: y']),
                                     min_size=1, max_size=14).map(''.join)), quick=20000)
def random(case):
    return check(case)


@prop.sub(enum=lambda tier: ['', None, 35, b'abc', ('a',), ['a']])
def rejects(case):
    for f in (exfat, unix):
        with raises(ValueError, 'not a filename', case):
            f(case)
    return True


@prop.sub(lambda: st.tuples(st.lists(st.tuples(st.sampled_from(list(FORBIDDEN) + ['a', ' ', ': ', 'ab: ', ':x', 'name', 'é', '\U0001F600']), sizes(5000)), min_size=1, max_size=5),
                            st.booleans()), quick=1500, thorough=20000)
def scale(case):
    "names of thousands of characters"
    parts, shuffle = case
    s = ''.join(p * k for p, k in parts)
    if shuffle:
        s = ''.join(s[i::7] for i in range(7))
    return check(s)


class Name(str):
    pass


@prop.sub(lambda: st.lists(st.sampled_from(list(FORBIDDEN + ' abc.:-')), min_size=1, max_size=8).map(''.join), quick=1000)
def subclasses(case):
    "a str subclass is translated like the str it equals"
    for f in (exfat, unix):
        r = f(Name(case))
        ensure(isinstance(r, str) and str(r) == f(case), f.__name__, 'of a str subclass', r)
    return any(c in FORBIDDEN for c in case)
