"""encode_strings against a structural model."""
import collections, copy
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.linesgen import SIZES
import big.text as bt

prop = Prop('T21',
    "nested structures of str, bytes, list, tuple, set, dict and subclasses of them (built from literal specs, namedtuple, defaultdict "
    "and OrderedDict included) and encodings: the result has the same types, shape and order with every str encoded, bytes unchanged, "
    "the argument is not modified, and a structure containing anything else or an unencodable string raises. "
    "Non-trivial: at least one container and one str inside.")


class MyStr(str): pass
class MyBytes(bytes): pass
class MyList(list): pass
class MyTuple(tuple): pass
class MySet(set): pass
class MyDict(dict): pass
Pair = collections.namedtuple('Pair', 'first second')
NAMED = [collections.namedtuple(f'Named{n}', [f'f{i}' for i in range(n)]) for n in range(7)]
NAMED[2] = Pair
Odd = object()
BAD = {'int': 1, 'none': None, 'float': 1.5, 'obj': Odd, 'bytearray': bytearray(b'x'), 'zero': 0, 'false': False, 'range': range(2), 'frozenset': frozenset(['a']), 'deque': collections.deque(['a'])}


def build(spec):
    k = spec[0]
    if k == 'long': return (spec[1] * spec[2])[:spec[2]] + spec[3]
    if k == 'wrap':
        o = build(spec[2])
        for c in (spec[3] * spec[1])[:spec[1]]:
            o = [o] if c == 'l' else (o, 'x') if c == 't' else {'k': o} if c == 'd' else ['a', o, b'c']
        return o
    if k == 'wide':
        kids = [build(x) for x in spec[3]]
        return {f'k{i}': kids[i % len(kids)] for i in range(spec[1])} if spec[2] else [kids[i % len(kids)] for i in range(spec[1])]
    if k == 's': return spec[1]
    if k == 'S': return MyStr(spec[1])
    if k == 'b': return spec[1]
    if k == 'B': return MyBytes(spec[1])
    if k == 'bad': return BAD[spec[1]]
    kids = spec[1]
    if k in ('dict', 'mydict', 'odict', 'ddict'):
        items = [(build(a), build(b)) for a, b in kids]
        if k == 'dict': return dict(items)
        if k == 'mydict': return MyDict(items)
        if k == 'odict': return collections.OrderedDict(items)
        return collections.defaultdict((list, None, MyStr)[len(items) % 3], items)
    items = [build(x) for x in kids]
    if k == 'pair': return Pair(*(items + ['', ''])[:2])
    if k == 'named': return NAMED[len(items)](*items)
    return dict(list=list, tuple=tuple, set=set, mylist=MyList, mytuple=MyTuple, myset=MySet)[k](items)


merged = []


def model(o, enc):
    if isinstance(o, bytes):
        return o
    if isinstance(o, str):
        return str.encode(o, enc)
    t = type(o)
    if isinstance(o, dict):
        items = [(model(k, enc), model(v, enc)) for k, v in o.items()]
        return t(o.default_factory, items) if isinstance(o, collections.defaultdict) else t(items)
    if isinstance(o, (list, tuple, set)):
        items = [model(x, enc) for x in o]
        if t in (set, MySet) and len(set(items)) < len(items):
            merged.append(1)        # 'a' and b'a' were both there: which of them stays isn't specified
        return t(*items) if t in NAMED else t(items)
    raise TypeError


def same(a, b, path='o'):
    ensure(type(a) is type(b), path, 'type', type(a), type(b))
    if isinstance(b, dict):
        ensure(a == b, path, a, b)
        equal(list(a), list(b), path, 'key order')
        for k in b:
            same(a[k], b[k], f'{path}[{k!r}]')
        if isinstance(b, collections.defaultdict):
            ensure(a.default_factory is b.default_factory, path, 'default_factory')
    elif isinstance(b, (list, tuple)):
        equal(len(a), len(b), path)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f'{path}[{i}]')
    else:
        ensure(a == b, path, a, b)
        if isinstance(b, set) and not merged:
            ensure(collections.Counter(map(types_of, a)) == collections.Counter(map(types_of, b)), path, 'types of the elements', a, b)


def types_of(o):
    return (type(o), o, tuple(map(types_of, o)) if isinstance(o, tuple) else None)


text = st.text(st.sampled_from('ab\x00\x7fé\xff\u0141\u20ac\U0001f600 \n'), max_size=4)
ascii_text = st.text(st.sampled_from('abcXYZ \n\x00\x7f'), max_size=4)
ENCODINGS = [None, 'ascii', 'utf-8', 'utf-16', 'utf-16-le', 'utf-32', 'latin-1', 'cp1252', 'utf-7', 'punycode']


def specs(t, bad):
    leaf = [t.map(lambda s: ('s', s)), t.map(lambda s: ('S', s)), st.binary(max_size=3).map(lambda b: ('b', b)), st.binary(max_size=2).map(lambda b: ('B', b))]
    hleaf = st.one_of(leaf)
    if bad:
        leaf = leaf + [st.sampled_from(sorted(BAD)).map(lambda n: ('bad', n))]
    hashable = st.recursive(hleaf, lambda c: st.tuples(st.sampled_from(['tuple', 'mytuple', 'pair', 'named']), st.lists(c, max_size=3)), max_leaves=4)
    def extend(c):
        return st.one_of(st.tuples(st.sampled_from(['list', 'tuple', 'mylist', 'mytuple', 'pair', 'named']), st.lists(c, max_size=4)),
                         st.tuples(st.sampled_from(['set', 'myset']), st.lists(hashable, max_size=4)),
                         st.tuples(st.sampled_from(['dict', 'mydict', 'odict', 'ddict']), st.lists(st.tuples(hashable, c), max_size=4)))
    return st.recursive(st.one_of(leaf), extend, max_leaves=12)


def big_specs(t):
    leaf = specs(t, False)
    return st.one_of(st.tuples(st.just('long'), t.filter(len), st.sampled_from(SIZES), t),
                     st.tuples(st.just('wrap'), st.sampled_from([5, 17, 40, 130, 200]), leaf, st.text('ltdx', min_size=1, max_size=5)),
                     st.tuples(st.just('wide'), st.sampled_from(SIZES), st.booleans(), st.lists(leaf, min_size=1, max_size=4)))


def count(o):
    if isinstance(o, dict): return 1 + sum(count(k) + count(v) for k, v in o.items())
    if isinstance(o, (list, tuple, set)): return 1 + sum(map(count, o))
    return 1


@prop.sub(lambda: st.one_of(st.tuples(specs(ascii_text, False), st.sampled_from(ENCODINGS)),
                            st.tuples(specs(text, True), st.sampled_from(ENCODINGS)),
                            st.tuples(specs(text, False), st.sampled_from(['utf-8', 'utf-16', 'utf-32']))), quick=12000)
def encode(case):
    spec, enc = case
    o = build(spec)
    before = copy.deepcopy(o) if 'obj' not in repr(spec) else None
    call = (lambda: bt.encode_strings(o)) if enc is None else (lambda: bt.encode_strings(o, enc) if len(repr(spec)) % 2 else bt.encode_strings(o, encoding=enc))
    e = enc or 'ascii'
    merged.clear()
    try:
        want = model(o, e)
        err = None
    except (TypeError, UnicodeError) as x:
        err = type(x)
    if err:
        # with both kinds of problem in one structure, which is met first is not specified
        with raises((TypeError, UnicodeError), spec):
            call()
        out = 'refused'
    else:
        got = call()
        same(got, want)
        out = {'encoded', type(o).__name__, e}
    if before is not None:
        same(o, before, 'argument after the call')
    return count(o) > 2 and out


@prop.sub(lambda: st.tuples(specs(ascii_text, False), st.sampled_from(['ascii', 'utf-8', 'utf-16'])), quick=2500)
def round_trip(case):
    spec, enc = case
    o = build(spec)
    got = bt.encode_strings(o, enc)
    again = bt.encode_strings(got, enc)
    same(again, got, 'encoding twice changes nothing')
    def walk(a, b):
        if isinstance(a, str): equal(b.decode(enc), str(a), 'decodes back')
        elif isinstance(a, bytes): ensure(a is b or a == b)
        elif isinstance(a, (list, tuple)):
            for x, y in zip(a, b): walk(x, y)
    walk(o, got)
    return count(o) > 2 and 'round trip'


prop.sub(lambda: st.one_of(st.tuples(big_specs(ascii_text), st.sampled_from(ENCODINGS)), st.tuples(big_specs(text), st.sampled_from(ENCODINGS))), quick=500, thorough=9000, name='scale')(encode)
