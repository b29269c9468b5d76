"""Heap iterators: ordered, isolated, modification-detecting."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.props.h01 import apply
from pbt.sizes import sizes
from big.heap import Heap

prop = Prop('H02',
    "histories interleaving up to 5 live iterators over up to 3 heaps/copies with every mutating method; each step's "
    "result compared with a model (sorted snapshot + modified flag). Non-trivial: some iterator was stepped after "
    "its heap was really modified, or two iterators were interleaved.")

V = st.integers(0, 5)
OPS = st.one_of(
    st.tuples(st.just('iter'), st.integers(0, 2)),
    st.tuples(st.just('next'), st.integers(0, 4)),
    st.tuples(st.just('next'), st.integers(0, 4)),
    st.tuples(st.just('next'), st.integers(0, 4)),
    st.tuples(st.just('drain'), st.integers(0, 4)),
    st.tuples(st.just('copy'), st.integers(0, 2)),
    st.tuples(st.just('look'), st.integers(0, 2)),
    st.tuples(st.just('mut'), st.integers(0, 2), st.one_of(
        st.tuples(st.just('append'), V),
        st.tuples(st.just('extend'), st.lists(V, max_size=3), st.booleans()),
        st.tuples(st.just('popleft')),
        st.tuples(st.just('remove'), V, st.one_of(st.none(), st.integers(0, 9))),
        st.tuples(st.just('ap'), V),
        st.tuples(st.just('pa'), V),
        st.tuples(st.just('clear')))),
)


def noop(op, before, after):
    "the call did not change what the heap holds, or changed it in a way the statement does not speak of"
    return before == after


@prop.sub(lambda: st.tuples(st.lists(V, max_size=12), st.lists(OPS, min_size=2, max_size=40)), quick=30000)
def interleave(case):
    initial, ops = case
    heaps = [(Heap(initial), sorted(initial))]
    its = []            # [real, remaining, heap index, state]   state: live / stale / done / unknown
    label = set()
    stepped = set()
    for op in ops:
        if op[0] == 'iter':
            hi = op[1] % len(heaps)
            if len(its) < 5:
                it = iter(heaps[hi][0])
                ensure(iter(it) is it, 'a heap iterator is its own iterator')
                its.append([it, list(heaps[hi][1]), hi, 'live'])
        elif op[0] in ('next', 'drain'):
            if not its:
                continue
            r = its[op[1] % len(its)]
            for _ in range(1 if op[0] == 'next' else len(r[1]) + 1):
                if r[3] == 'live':
                    if r[1]:
                        equal(next(r[0], None), r[1].pop(0), 'iterator step')
                        stepped.add(id(r))
                        if len(stepped) > 1:
                            label.add('two iterators stepped')
                    else:
                        with raises(StopIteration, 'exhausted'):
                            next(r[0])
                        r[3] = 'done'
                elif r[3] == 'stale':
                    with raises(RuntimeError, 'heap modified during iteration'):
                        next(r[0])
                    label.add('stale step')
                elif r[3] == 'done':
                    for _ in range(2):
                        with raises(StopIteration, 'exhausted iterator of an unmodified heap'):
                            next(r[0])
                elif r[3] == 'spent':
                    with raises((StopIteration, RuntimeError), 'exhausted iterator yielded again'):
                        next(r[0])
        elif op[0] == 'copy':
            hi = op[1] % len(heaps)
            if len(heaps) < 3:
                heaps.append((heaps[hi][0].copy(), list(heaps[hi][1])))
        elif op[0] == 'look':
            h, m = heaps[op[1] % len(heaps)]
            equal(list(h), list(m)); equal(h.queue, list(m)); len(h); bool(h); 3 in h; h == Heap(m); repr(h)
            if m:
                equal(h[0], m[0]); equal(h[-1], m[-1]); equal(h[:2], m[:2]); equal(h[-2:], m[-2:])
        else:
            hi = op[1] % len(heaps)
            h, m = heaps[hi]
            before = list(m)
            for r in its:
                if r[2] == hi and r[3] == 'done':
                    r[3] = 'spent'
            apply(h, m, op[2])
            failed = (op[2][0] in ('popleft', 'pa') and not before) or (op[2][0] == 'remove' and before == m)
            for r in its:
                if r[2] == hi and r[3] == 'live':
                    if before != m:
                        r[3] = 'stale'
                    elif not failed:
                        r[3] = 'unknown'
        for h, m in heaps:
            equal(h.queue, list(m), 'heap contents after', op)
    return label or False


MUTATIONS = {
    'append popleft': lambda h, m, i: (h.append(i % 3), h.popleft()),
    'append': lambda h, m, i: (h.append(9),),
    'pa': lambda h, m, i: (h.popleft_and_append(i % 7 - 1),),
    'ap': lambda h, m, i: (h.append_and_popleft(8 + i % 2),),
    'append remove': lambda h, m, i: (h.append(7), h.remove(7)),
    'extend clear': lambda h, m, i: (h.extend([1, 2, 3]), h.clear()),
    'popleft': lambda h, m, i: (h.popleft() if h else h.append(4),),
}


@prop.sub(lambda: st.tuples(st.lists(V, min_size=2, max_size=12), st.integers(0, 2), st.sampled_from(sorted(MUTATIONS)),
                            sizes(70000), st.booleans()), quick=400, thorough=6000)
def many_modifications(case):
    "an iterator started before any number of modifications refuses to go on after them"
    initial, steps, kind, n, odd = case
    h = Heap(initial)
    h.append(8)
    for i in range(n // 3 if odd else 0):       # it was modified before the iterator started, too
        h.append(-1)
        h.popleft()
    it, m = iter(h), sorted(initial) + [8]
    equal(list(iter(h)), m, 'a whole iteration')
    spent = iter(h)
    equal(list(spent), m, 'a whole iteration')
    for _ in range(3):
        with raises(StopIteration, 'exhausted iterator of an unmodified heap'):
            next(spent)
    for i in range(min(steps, len(m))):
        equal(next(it), m[i], 'iterator step')
    mutate = MUTATIONS[kind]
    done = 0
    i = 0
    while done < n:
        done += len(mutate(h, None, i))
        i += 1
    if odd:
        h.append(11)
        done += 1
    for _ in range(2):
        with raises(RuntimeError, 'heap modified', done, 'times during iteration'):
            next(it)
    equal(list(h), h.queue, 'a fresh iterator')
    return kind


ONE = st.one_of(
    st.tuples(st.just('append'), V),
    st.tuples(st.just('extend'), st.lists(V, min_size=1, max_size=3), st.booleans()),
    st.tuples(st.just('popleft')),
    st.tuples(st.just('remove'), V, st.none()),
    st.tuples(st.just('ap'), V),
    st.tuples(st.just('pa'), V),
    st.tuples(st.just('clear')))


@prop.sub(lambda: st.tuples(st.lists(V, min_size=1, max_size=9), st.integers(0, 3), st.booleans(), ONE,
                            st.integers(0, 4)), quick=6000)
def one_modification(case):
    "a single modification, by whatever method, stops the iterator in progress and not one over a copy or started after"
    initial, steps, copied, op, later = case
    h, m = Heap(initial), sorted(initial)
    whole = list(m)
    it = iter(h)
    other = iter(h.copy()) if copied else None
    steps = min(steps, len(m) - 1)
    for i in range(steps):
        equal(next(it), m[i], 'iterator step')
    apply(h, m, op)
    if m == whole:
        return False
    with raises(RuntimeError, 'heap modified by', op, 'during iteration'):
        next(it)
    fresh = iter(h)
    for i in range(min(later, len(m))):
        equal(next(fresh), m[i], 'an iterator started after', op)
    with raises(RuntimeError, 'heap modified by', op, 'before'):
        next(it)
    equal(list(fresh), m[later:], 'the rest of the iterator started after', op)
    if copied:
        equal(list(other), whole, 'an iterator over a copy')
    return op[0]
