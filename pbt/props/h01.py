"""Heap against a sorted-list model, driven by generated operation histories."""
import bisect
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises, harvest
from pbt.sizes import sizes
from big.heap import Heap

prop = Prop('H01',
    "history: random initial contents, then up to 40 append/extend/popleft/remove/append_and_popleft/"
    "popleft_and_append/clear/copy operations, every observation compared with a sorted list after each; "
    "index: every index and slice of heaps of 0..24 elements. Non-trivial: the heap had at least 2 elements "
    "at some point and at least 2 operations (or a non-empty heap is indexed); scale: up to thousands of objects in seven arrangements, long runs of one operation; interrupted: extend with an iterable that raises part way.")

INTS, _ = harvest()
BIGSIZES = sorted({i for i in INTS if 12 <= i <= 300})[:12] or [64]


class Empty:
    "an iterable that takes itself for empty"
    def __init__(self, v):
        self.v = v
    def __iter__(self):
        return iter(self.v)
    def __bool__(self):
        return False


def make(kind, values):
    if kind == 'false':
        return Heap(Empty(values))
    if kind == 'tuple':
        return Heap(tuple(values))
    if kind == 'gen':
        return Heap(v for v in values)
    if kind == 'iter':
        return Heap(iter(values))
    if kind == 'append':
        h = Heap()
        for v in values:
            h.append(v)
        return h
    if kind == 'extend':
        h = Heap()
        h.extend(iter(values))
        return h
    if kind == 'none':
        h = Heap(None)
        h.extend(values)
        return h
    return Heap(list(values))


# held by no heap here, and comparable with few of the things that are
STRANGERS = [None, 'no such text', b'no', (None, None), 0.5, 1j, [], Exception, float('nan')]


def outcome(fn):
    try:
        return ('ok', fn())
    except (IndexError, ValueError, TypeError, KeyError) as e:
        return ('err', type(e))


def same(a, b, *msg):
    ensure(a[0] == b[0] and (a[0] == 'err' and a[1] is b[1] or (type(a[1]) is type(b[1]) and a[1] == b[1])), *msg, ' heap:', a, ' list:', b)


def compare(h, m, probes, full):
    equal(h.queue, list(m), 'queue')
    equal(len(h), len(m), 'len')
    equal(bool(h), bool(m), 'bool')
    equal(list(h), list(m), 'iteration')
    for p in probes:
        equal(p in h, p in m, 'contains', p)
    for p in STRANGERS:
        if p not in m:
            ensure(p not in h, 'contains', p)
            with raises(ValueError, 'remove missing', p):
                h.remove(p)
            equal(len(h), len(m), 'len after a failed remove')
    n = len(m)
    if full or n <= 6:
        idx = range(-n - 2, n + 2)
    else:
        idx = [0, 1, n // 2, n - 1, n, -1, -2, -3, -n, -n - 1, 9, 10, 11, -9, -10, -11]
    for i in idx:
        same(outcome(lambda: h[i]), outcome(lambda: m[i]), 'index', i)
    ensure(isinstance(repr(h), str), 'repr')


def apply(h, m, op):
    """apply op to the real heap and to the sorted list model"""
    k = op[0]
    if k == 'append':
        equal(h.append(op[1]), None); bisect.insort(m, op[1])
    elif k == 'extend':
        src = list(op[1])
        equal(h.extend(iter(src) if op[2] else src), None)
        equal(src, list(op[1]), 'extend changed its argument')
        m.extend(op[1]); m.sort()
    elif k == 'popleft':
        if m:
            equal(h.popleft(), m.pop(0), 'popleft')
        else:
            with raises(IndexError, 'popleft on empty'):
                h.popleft()
    elif k == 'remove':
        v = op[1]
        if op[2] is not None and m:
            v = m[op[2] % len(m)]
        if v in m:
            equal(h.remove(v), None); m.remove(v)
        else:
            with raises(ValueError, 'remove missing', v):
                h.remove(v)
    elif k == 'ap':
        bisect.insort(m, op[1])
        equal(h.append_and_popleft(op[1]), m.pop(0), 'append_and_popleft', op[1])
    elif k == 'pa':
        if m:
            want = m.pop(0)
            bisect.insort(m, op[1])
            equal(h.popleft_and_append(op[1]), want, 'popleft_and_append', op[1])
        else:
            with raises(IndexError, 'popleft_and_append on empty'):
                h.popleft_and_append(op[1])
    elif k == 'clear':
        equal(h.clear(), None); m.clear()
    else:
        raise RuntimeError(op)


def ops(value):
    return st.one_of(
        st.tuples(st.just('append'), value),
        st.tuples(st.just('append'), value),
        st.tuples(st.just('extend'), st.lists(value, max_size=12), st.booleans()),
        st.tuples(st.just('popleft')),
        st.tuples(st.just('remove'), value, st.one_of(st.none(), st.integers(0, 40))),
        st.tuples(st.just('ap'), value),
        st.tuples(st.just('pa'), value),
        st.tuples(st.just('clear')),
        st.tuples(st.just('slice'), st.one_of(st.none(), st.integers(-45, 45)), st.one_of(st.none(), st.integers(-45, 45)),
                  st.sampled_from([None, None, 1, 1, 2, -1, -2, 3, 7])),
        st.tuples(st.just('index'), st.integers(-60, 60)),
        st.tuples(st.just('fork')),
        st.tuples(st.just('eq'), st.lists(value, max_size=4)),
    )


def histories():
    def mk(value):
        return st.tuples(st.sampled_from(['list', 'tuple', 'gen', 'iter', 'append', 'extend', 'none', 'false']),
                         st.lists(value, max_size=40), st.lists(ops(value), min_size=1, max_size=40),
                         st.lists(value, max_size=4))
    return st.one_of(mk(st.integers(0, 9)), mk(st.integers(-10**6, 10**6)),
                     mk(st.text('abc', max_size=3)), mk(st.tuples(st.integers(0, 3), st.integers(0, 3))))


@prop.sub(histories, quick=16000)
def history(case):
    kind, initial, oplist, probes = case
    h, m = make(kind, initial), sorted(initial)
    compare(h, m, probes, False)
    biggest = len(m)
    for op in oplist:
        if op[0] == 'slice':
            s = slice(*op[1:])
            same(outcome(lambda: h[s]), outcome(lambda: m[s]), 'slice', s)
            continue
        if op[0] == 'index':
            i = op[1]
            same(outcome(lambda: h[i]), outcome(lambda: m[i]), 'index', i)
            continue
        if op[0] == 'fork':
            h2 = h.copy()
            ensure(h2 == h and h == h2 and not (h != h2), 'copy not equal')
            ensure(type(h2) is type(h))
            if m:
                h2.popleft()
                ensure(not (h2 == h) and h2 != h, 'copy shares state / eq ignores contents')
            equal(h.queue, list(m), 'mutating a copy changed the original')
            h3 = h.copy()
            h3.append(m[-1] if m else 0)
            equal(h.queue, list(m), 'mutating a copy changed the original')
            h = h.copy()
            continue
        if op[0] == 'eq':
            other = Heap(op[1])
            want = sorted(op[1]) == m
            equal(h == other, want, '==', op[1])
            equal(h != other, not want, '!=', op[1])
            equal(Heap(reversed(m)) == h, True)
            ensure(not (h == m) and h != list(m), 'a heap is not equal to a list')
            continue
        apply(h, m, op)
        biggest = max(biggest, len(m))
        compare(h, m, probes, False)
    compare(h, m, probes, len(m) < 30)
    return biggest >= 2 and len(oplist) >= 2


def index_cases(tier):
    sizes = list(range(0, 25)) + (BIGSIZES if tier == 'thorough' else BIGSIZES[:4])
    for n in sizes:
        for pat in ('distinct', 'dups'):
            for step in (None, 1, 2, -1, -3, 0):
                yield (n, pat, step)


@prop.sub(enum=index_cases)
def index(case):
    n, pat, step = case
    values = [(i * 7919) % (n * 3 + 1) if pat == 'distinct' else (i * 7) % 4 for i in range(n)]
    h, m = Heap(values), sorted(values)
    for i in range(-n - 13, n + 13):
        same(outcome(lambda: h[i]), outcome(lambda: m[i]), 'index', i)
    if n <= 24:
        r = [None] + list(range(-n - 3, n + 4))
    else:
        r = [None, 0, 1, 2, n // 2, n - 1, n, n + 1, n + 5, -1, -2, -n // 2, -n + 1, -n, -n - 1, 9, 10, 11, -9, -10, -11]
    for a in r:
        for b in r:
            s = slice(a, b, step)
            same(outcome(lambda: h[s]), outcome(lambda: m[s]), 'slice', s)
    equal(h.queue, m)
    return n > 0


class Item:
    "orderable only through <; equality by key; carries an identity"
    def __init__(self, key, uid):
        self.key, self.uid = key, uid
    def __lt__(self, other):
        return self.key < other.key
    def __eq__(self, other):
        return isinstance(other, Item) and self.key == other.key
    __hash__ = None


@prop.sub(lambda: st.tuples(st.lists(st.integers(0, 4), max_size=15),
                            st.lists(st.tuples(st.sampled_from(['append', 'extend', 'popleft', 'remove', 'ap', 'pa']),
                                               st.integers(0, 4)), max_size=25)), quick=10000)
def conservation(case):
    "objects, told apart by identity, are neither lost, duplicated nor replaced by equal ones"
    initial, oplist = case
    n = 0
    def new(key):
        nonlocal n
        n += 1
        return Item(key, n)
    items = [new(k) for k in initial]
    h = Heap(items)
    alive = {i.uid: i.key for i in items}
    for op, k in oplist:
        low = min(alive.values(), default=None)
        if op == 'append':
            i = new(k); h.append(i); alive[i.uid] = k
        elif op == 'extend':
            new_items = [new(k), new(4 - k)]; h.extend(new_items); alive.update({i.uid: i.key for i in new_items})
        elif op == 'popleft' and alive:
            i = h.popleft(); equal(i.key, low); ensure(alive.pop(i.uid, None) is not None, 'popped an object not in the heap')
        elif op == 'remove':
            if k in alive.values():
                h.remove(Item(k, -1))
                left = {i.uid: i.key for i in h.queue}
                gone = [u for u in alive if u not in left]
                ensure(len(gone) == 1 and alive[gone[0]] == k, 'remove dropped', gone)
                alive = left
        elif op == 'ap':
            i = new(k); r = h.append_and_popleft(i); alive[i.uid] = k
            equal(r.key, min(alive.values())); ensure(alive.pop(r.uid, None) is not None, 'append_and_popleft')
        elif op == 'pa' and alive:
            i = new(k); r = h.popleft_and_append(i)
            equal(r.key, low); ensure(alive.pop(r.uid, None) is not None); alive[i.uid] = k
        q = h.queue
        equal({i.uid: i.key for i in q}, dict(alive), 'contents')
        equal(len(q), len(alive))
        ensure(all(not (b < a) for a, b in zip(q, q[1:])), 'queue unsorted')
        equal({i.uid for i in h}, set(alive))
    return len(alive) > 1 and len(oplist) > 1


PATTERNS = {
    'shuffled': lambda n, k: [(i * 7919 + k) % (2 * n + 1) for i in range(n)],
    'sorted': lambda n, k: list(range(k, n + k)),
    'reversed': lambda n, k: list(range(n + k, k, -1)),
    'few': lambda n, k: [(i * 5 + k) % 4 for i in range(n)],
    'same': lambda n, k: [k] * n,
    'saw': lambda n, k: [i % 17 if i % 2 else n - i for i in range(n)],
    'float': lambda n, k: [((i * 7919 + k) % (2 * n + 1)) + 0.25 for i in range(n)],
}
BULK = st.one_of(
    st.tuples(st.just('extend'), st.sampled_from(sorted(PATTERNS)), sizes(3000), st.integers(-5, 5)),
    st.tuples(st.just('append'), st.sampled_from(sorted(PATTERNS)), sizes(600), st.integers(-5, 5)),
    st.tuples(st.sampled_from(['popleft', 'remove', 'remove', 'pa', 'ap']), sizes(300), st.integers(0, 10**4)),
    st.tuples(st.just('probe'), sizes(3000), sizes(3000)),
    st.tuples(st.sampled_from(['fork', 'iterate'])))


@prop.sub(lambda: st.tuples(st.sampled_from(['list', 'gen', 'append', 'extend', 'tuple']), st.sampled_from(sorted(PATTERNS)), sizes(4000), st.integers(-5, 5),
                            st.lists(BULK, min_size=1, max_size=8)), quick=900)
def scale(case):
    "hundreds and thousands of objects, many operations of one kind in a row"
    kind, pat, n, k, bulk = case
    values = PATTERNS[pat](n, k)
    h, m = make(kind, values), sorted(values)
    for op in bulk:
        if op[0] == 'extend':
            new = PATTERNS[op[1]](op[2], op[3])
            h.extend(new); m.extend(new); m.sort()
        elif op[0] == 'append':
            for v in PATTERNS[op[1]](op[2], op[3]):
                h.append(v); bisect.insort(m, v)
        elif op[0] == 'probe':
            for i in (op[1], -op[1], op[2], -op[2]):
                same(outcome(lambda: h[i]), outcome(lambda: m[i]), 'index', i)
            for s in (slice(op[1]), slice(-op[1], None), slice(op[1], op[2]), slice(-op[1], -op[2]), slice(op[1], None), slice(None, -op[1])):
                same(outcome(lambda: h[s]), outcome(lambda: m[s]), 'slice', s)
            equal(op[1] in h, op[1] in m, 'contains')
        elif op[0] == 'fork':
            h2 = h.copy()
            ensure(h2 == h, 'copy')
            h2.clear()
            h = h.copy()
        elif op[0] == 'iterate':
            it = iter(h)
            equal([x for x in it], m, 'iteration')
        else:
            for i in range(op[1]):
                v = (op[2] + i * 7919) % (len(m) + 3)
                if op[0] == 'popleft':
                    if not m:
                        break
                    equal(h.popleft(), m.pop(0), 'popleft')
                elif op[0] == 'remove':
                    if not m:
                        break
                    v = m.pop(v % len(m))
                    h.remove(v)
                    if m:
                        equal(h[0], m[0], 'first after remove')
                elif op[0] == 'pa':
                    if not m:
                        break
                    equal(h.popleft_and_append(v), m.pop(0), 'popleft_and_append'); bisect.insort(m, v)
                elif op[0] == 'ap':
                    bisect.insort(m, v)
                    equal(h.append_and_popleft(v), m.pop(0), 'append_and_popleft')
        equal(len(h), len(m), 'len')
        equal(h.queue, m, 'queue')
    h2 = h.copy()
    equal([h2.popleft() for _ in m], m, 'popping everything')
    equal(list(h), m, 'iteration')
    return n > 1 and pat


class Odd(Exception):
    pass


@prop.sub(lambda: st.tuples(st.lists(st.integers(0, 9), max_size=20), st.lists(st.integers(0, 9), max_size=20),
                            st.lists(st.integers(0, 9), min_size=1, max_size=6)), quick=4000)
def interrupted(case):
    "an extend whose iterable raises part way leaves a heap that is still a sorted list of what it holds"
    initial, before, after = case
    h = Heap(initial)
    it = iter(h)
    def source():
        yield from before
        raise Odd()
    with raises(Odd, 'extend'):
        h.extend(source())
    held = h.queue
    ensure(held in [sorted(initial + before[:k]) for k in range(len(before) + 1)], 'after a failed extend the heap holds', held)
    if held != sorted(initial):
        with raises(RuntimeError, 'the heap was modified during iteration'):
            next(it)
    m = list(held)
    for i in range(-len(m) - 1, len(m) + 1):
        same(outcome(lambda: h[i]), outcome(lambda: m[i]), 'index', i)
    equal(list(h), m, 'iteration after a failed extend')
    for v in after:
        apply(h, m, ('append', v))
        equal(h[0], m[0], 'first')
        apply(h, m, ('popleft',))
    compare(h, m, after, True)
    equal([h.popleft() for _ in range(len(h))], m, 'popping everything')
    return bool(before) and 'interrupted'
