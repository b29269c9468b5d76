"""PushbackIterator against a (stack, remaining) model."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.sizes import sizes
from big.itertools import PushbackIterator

prop = Prop('I01',
    "histories of next/next(default)/push/bool/for-loop/list operations over iterables of every kind (None, list, "
    "generator, iterator, string, dict, nested PushbackIterator, iterators that are falsy, that raise midway, that stop and resume), "
    "compared step by step with a stack+list model. Non-trivial: a push was followed by a read, or the iterator "
    "was exhausted and used again; scale: thousands of objects and pushes, wrapped up to 40 times over.")

VALUES = st.sampled_from([0, 1, 2, None, False, True, '', 'x', (), 0.0, b'', -1, 'None'])


class Falsy:
    "an iterator whose truth value is false and whose len is 0"
    def __init__(self, items):
        self.i = iter(items)
    def __iter__(self):
        return self
    def __next__(self):
        return next(self.i)
    def __bool__(self):
        return False
    def __len__(self):
        return 0
    def __eq__(self, other):
        return True
    def __ne__(self, other):
        return False


class OnlyNext:
    def __init__(self, items):
        self.i = iter(items)
    def __next__(self):
        return next(self.i)


class Boom(Exception):
    pass


class Explodes:
    "raises once at position `at`, then carries on"
    def __init__(self, items, at):
        self.items, self.at, self.pos, self.done = list(items), at, 0, False
    def __iter__(self):
        return self
    def __next__(self):
        if self.pos == self.at and not self.done:
            self.done = True
            raise Boom()
        if self.pos >= len(self.items):
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]


class Resumes:
    "stops at position `at` and, asked again, carries on"
    def __init__(self, items, at):
        self.items, self.at, self.pos = list(items), at, 0
    def __iter__(self):
        return self
    def __next__(self):
        if self.pos == self.at or self.pos >= len(self.items):
            self.at = None
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]


class FalsyIterable(list):
    def __bool__(self):
        return False
    def __eq__(self, other):
        return other is None
    def __ne__(self, other):
        return other is not None


def build(kind, items, at):
    if kind == 'none':
        return PushbackIterator(), []
    if kind == 'None':
        return PushbackIterator(None), []
    if kind == 'list':
        return PushbackIterator(list(items)), list(items)
    if kind == 'tuple':
        return PushbackIterator(tuple(items)), list(items)
    if kind == 'gen':
        return PushbackIterator(x for x in items), list(items)
    if kind == 'iter':
        return PushbackIterator(iter(items)), list(items)
    if kind == 'str':
        return PushbackIterator('abcd'[:len(items)]), list('abcd'[:len(items)])
    if kind == 'range':
        return PushbackIterator(range(len(items))), list(range(len(items)))
    if kind == 'dict':
        return PushbackIterator({k: 1 for k in range(len(items))}), list(range(len(items)))
    if kind == 'nested':
        return PushbackIterator(PushbackIterator(items)), list(items)
    if kind == 'falsy':
        return PushbackIterator(Falsy(items)), list(items)
    if kind == 'falsyiterable':
        return PushbackIterator(FalsyIterable(items)), list(items)
    if kind == 'onlynext':
        return PushbackIterator(OnlyNext(items)), list(items)
    if kind == 'resumes':
        at = at % (len(items) + 1)
        return PushbackIterator(Resumes(items, at)), list(items[:at])
    if kind == 'explodes':
        at = at % (len(items) + 1)
        m = list(items)
        m.insert(at, Boom)
        return PushbackIterator(Explodes(items, at)), m
    raise RuntimeError(kind)


class Model:
    def __init__(self, rest):
        self.stack, self.rest = [], rest
    def available(self):
        if self.stack:
            return True
        if self.rest and self.rest[0] is Boom:
            self.rest.pop(0)
            raise Boom()
        return bool(self.rest)
    def next(self):
        if self.stack:
            return self.stack.pop()
        if self.rest:
            o = self.rest.pop(0)
            if o is Boom:
                raise Boom()
            return o
        raise StopIteration


def outcome(fn):
    try:
        return ('ok', fn())
    except (StopIteration, Boom) as e:
        return ('raised', type(e))


KINDS = ['none', 'None', 'list', 'tuple', 'gen', 'iter', 'str', 'range', 'dict', 'nested', 'falsy', 'falsyiterable',
         'onlynext', 'explodes', 'explodes', 'resumes']
OPS = st.one_of(
    st.tuples(st.just('next')), st.tuples(st.just('next')),
    st.tuples(st.just('default'), VALUES), st.tuples(st.just('nodefault')),
    st.tuples(st.just('push'), VALUES), st.tuples(st.just('push'), VALUES),
    st.tuples(st.just('bool')), st.tuples(st.just('bool')),
    st.tuples(st.just('for'), st.integers(0, 4)),
    st.tuples(st.just('list')), st.tuples(st.just('peek')))


@prop.sub(lambda: st.tuples(st.sampled_from(KINDS), st.lists(VALUES, max_size=8), st.integers(0, 8),
                            st.lists(OPS, min_size=1, max_size=30)), quick=40000)
def history(case):
    kind, items, at, ops = case
    p, rest = build(kind, items, at)
    m = Model(rest)
    label = set()
    pushed = exhausted = False
    for op in ops:
        k = op[0]
        if k == 'next':
            g, w = outcome(lambda: next(p)), outcome(m.next)
        elif k == 'default':
            def want():
                try:
                    return m.next()
                except StopIteration:
                    return op[1]
            g, w = outcome(lambda: p.next(op[1])), outcome(want)
        elif k == 'nodefault':
            def want():
                try:
                    return m.next()
                except StopIteration:
                    return None
            g, w = outcome(lambda: p.next()), outcome(want)
        elif k == 'push':
            equal(p.push(op[1]), None)
            m.stack.append(op[1])
            pushed = True
            if exhausted:
                label.add('push after exhaustion')
            continue
        elif k == 'bool':
            g, w = outcome(lambda: bool(p)), outcome(m.available)
        elif k == 'peek':
            g, w = outcome(lambda: next(p)), outcome(m.next)
            if g[0] == 'ok':
                p.push(g[1]); m.stack.append(w[1])
        elif k == 'for':
            def loop(it):
                out = []
                for x in it:
                    out.append(x)
                    if len(out) > op[1]:
                        break
                return out
            def mgen():
                while True:
                    try:
                        yield m.next()
                    except StopIteration:
                        return
            g, w = outcome(lambda: loop(p)), outcome(lambda: loop(mgen()))
        elif k == 'list':
            def mlist():
                out = []
                while True:
                    try:
                        out.append(m.next())
                    except StopIteration:
                        return out
            g, w = outcome(lambda: list(p)), outcome(mlist)
        ensure(g[0] == w[0], k, ' got ', g, ' want ', w)
        if k in ('for', 'list') and g[0] == 'ok':
            equal([(type(x), x) for x in g[1]], [(type(x), x) for x in w[1]], k)
        elif g[0] == 'ok':
            equal((type(g[1]), g[1]), (type(w[1]), w[1]), k)
        else:
            equal(g[1], w[1], k)
        if pushed:
            label.add('read after push')
        if not m.stack and not m.rest:
            exhausted = True
    ensure(iter(p) is p)
    return label


LONG = st.one_of(
    st.tuples(st.just('push'), sizes(3000)),
    st.tuples(st.just('next'), sizes(3000)),
    st.tuples(st.just('peek'), sizes(300)),
    st.tuples(st.just('default'), sizes(3000)),
    st.tuples(st.just('bool'), sizes(3000)),
    st.tuples(st.just('for'), sizes(3000)))


@prop.sub(lambda: st.tuples(st.sampled_from(['list', 'gen', 'iter', 'nested', 'range']), sizes(6000), sizes(40),
                            st.lists(LONG, min_size=1, max_size=10)), quick=1500)
def scale(case):
    "thousands of objects, thousands of pushes, iterators wrapped many times over"
    kind, n, depth, ops = case
    items = [i * 7 % 1000 for i in range(n)]
    if kind == 'range':
        items = list(range(n)); src = range(n)
    elif kind == 'gen':
        src = (x for x in items)
    elif kind == 'iter':
        src = iter(items)
    elif kind == 'nested':
        src = items
        for _ in range(depth):
            src = PushbackIterator(src)
    else:
        src = items
    p = PushbackIterator(src)
    m = list(reversed(items))       # what is to come, last first
    moved = 0
    for op, k in ops:
        if op == 'push':
            for i in range(k):
                p.push(-i); m.append(-i)
            moved += k
        elif op == 'for':
            got = []
            if k:
                for x in p:
                    got.append(x)
                    if len(got) == k:
                        break
            want = [m.pop() for _ in range(min(k, len(m)))]
            equal(got, want, 'for')
        else:
            for i in range(k):
                if op == 'default':
                    equal(p.next('none'), m.pop() if m else 'none', 'next(default)')
                elif op == 'bool':
                    equal(bool(p), bool(m), 'bool')
                elif not m:
                    with raises(StopIteration, 'exhausted'):
                        next(p)
                    break
                else:
                    x = m[-1]
                    equal(next(p), x, 'next')
                    if op == 'peek':
                        p.push(x)
                    else:
                        m.pop()
    equal(list(p), m[::-1], 'the rest')
    return moved > 0 and kind


@prop.sub(lambda: st.tuples(st.lists(st.tuples(VALUES, st.lists(st.tuples(st.sampled_from(['push', 'push', 'bool']), VALUES), max_size=2)), min_size=1, max_size=6),
                            st.lists(st.tuples(st.sampled_from(['next', 'default', 'bool', 'push']), VALUES), max_size=14)), quick=4000)
def source_pushes(case):
    "the wrapped iterator pushes objects itself, while it is being advanced: none of them is lost, none comes twice"
    items, ops = case
    given = []
    class Source:
        def __init__(self):
            self.at = 0
        def __iter__(self):
            return self
        def __next__(self):
            if self.at >= len(items):
                raise StopIteration
            o, acts = items[self.at]
            self.at += 1
            for n, (what, v) in enumerate(acts):
                if what == 'push':
                    t = ('pushed', self.at, n, v)
                    given.append(t)
                    p.push(t)
            t = ('item', self.at, v if acts else None, o)
            given.append(t)
            return t
    p = PushbackIterator(Source())
    got = []
    for n, (op, v) in enumerate(ops):
        if op == 'push':
            given.append(('mine', n, 0, v))
            p.push(('mine', n, 0, v))
        elif op == 'bool':
            if not p:
                equal(outcome(lambda: next(p)), ('raised', StopIteration), 'next after false')
        elif op == 'next':
            r = outcome(lambda: next(p))
            if r[0] == 'ok':
                got.append(r[1])
        else:
            x = p.next(given)
            if x is not given:
                got.append(x)
    got += list(p)
    equal(sorted(map(repr, got)), sorted(map(repr, given)), 'objects out and in')
    equal([x for x in got if x[0] == 'item'], [x for x in given if x[0] == 'item'], 'order of the items')
    return any(acts for _, acts in items) and 'pushes itself'


@prop.sub(lambda: st.tuples(st.lists(st.sampled_from(['self', 'self', 'source', 'method', 'stop', 'class', 'none', 'notimplemented', 'ellipsis']), max_size=8), st.booleans(),
                            st.lists(st.sampled_from(['next', 'default', 'bool', 'push self', 'push source', 'peek', 'default self']), min_size=1, max_size=14)), quick=4000)
def odd_objects(case):
    "the objects can be anything: the iterator itself, what it wraps, StopIteration, a class"
    kinds, as_list, ops = case
    source = []
    p = PushbackIterator(source if as_list else iter(source))
    things = {'self': p, 'source': source, 'method': p.next, 'stop': StopIteration(), 'class': StopIteration, 'none': None, 'notimplemented': NotImplemented, 'ellipsis': ...}
    source.extend(things[k] for k in kinds)
    rest, stack, over = list(source), [], False
    end = object()
    for op in ops:
        have = bool(stack or rest)
        if op.startswith('push'):
            o = things[op[5:]]
            p.push(o)
            stack.append(o)
        elif op == 'bool':
            ensure(bool(p) is have, 'bool', have)
        else:
            fallback = p if op == 'default self' else end
            got = next(p, end) if op in ('next', 'peek') else p.next(fallback)
            want = (stack.pop() if stack else rest.pop(0)) if have else fallback
            ensure(got is want, op, 'gave', type(got), 'expected', type(want))
            if op == 'peek' and have:
                p.push(got)
                stack.append(got)
    left = []
    while p:
        left.append(next(p))
        ensure(len(left) <= 99, 'never ends')
    want = stack[::-1] + rest
    ensure(len(left) == len(want) and all(a is b for a, b in zip(left, want)), 'what is left', [type(x) for x in left], [type(x) for x in want])
    return len(kinds) > 1 and 'odd'
