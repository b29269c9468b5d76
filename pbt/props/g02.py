"""TopologicalSorter graphs modified while views are in use."""
import itertools
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.graphmodel import Driver, NODES, N, history, acyclic, SHAPES, BigModel, big_graph, check_order, drive_big
from pbt.sizes import sizes
from big.graph import TopologicalSorter

prop = Prop('G02',
    "random histories over up to 7 nodes and 4 views mixing add, remove, ready, done, reset, copy, close and static_order, starting from "
    "random graphs (acyclic additions mostly; cycles too): after every step every view's truth, next ready set or RuntimeError equals a "
    "dictionary model's, and at the end every view still yields every remaining node exactly once. "
    "conflicts: views made incoherent on purpose, copied and repaired. scale: hundreds of nodes, many removed and added at once midway. Non-trivial: the graph was modified while some view had yielded nodes.")

WEIGHTS = dict(add=7, remove=3, ready=7, done=8, view=2, copyview=1, reset=1, close=1, badadd=1, static=1, active=1, drain=1)


def oriented(ops, graph, perm):
    "make every added edge follow the hidden order so the graph stays acyclic"
    return ops


def downhill(op):
    "an addition whose dependencies all have smaller numbers: graphs stay acyclic"
    if op[0] != 'add':
        return op
    k, g, v, n, deps = op
    return (k, g, v, n, [d for d in deps if d < n])


def along(t):
    kind, graph, ops = t
    return (kind, [(n, [d for d in ds if d < n]) for n, ds in graph], [downhill(o) for o in ops])


def run(case):
    kind, graph, ops = case
    d = Driver(kind, graph)
    d.check('start')
    d.run(ops)
    d.finish()
    return bool(d.labels & {'added midway', 'removed midway'}) and set(d.labels)


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(NODES)), acyclic(), history(WEIGHTS, 28)).map(along), quick=9000)
def acyclic_histories(case):
    return run(case)


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(NODES)), acyclic(), history(WEIGHTS, 20)), quick=4000)
def any_histories(case):
    return run(case)


# views made incoherent on purpose, copied, and repaired
CONFLICTS = dict(conflict=5, resolve=6, ready=5, done=4, view=2, copyview=4, copygraph=1, add=2, remove=1, reset=1, static=1, drain=1)


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(NODES)), acyclic(), history(CONFLICTS, 24, 6)).map(along), quick=6000)
def conflicts(case):
    labels = run(case)
    return labels and 'incoherent' in labels and labels


focused_op = st.one_of(st.sampled_from([('ready', 0, 0, 0), ('ready', 0, 0, 0), ('done', 0, 0, [0]), ('done', 0, 0, [0]), ('done', 0, 0, [1]), ('reset', 0, 0)]),
                       st.tuples(st.just('conflict'), st.just(0), st.just(0), st.integers(0, 12)), st.tuples(st.just('conflict'), st.just(0), st.just(0), st.integers(0, 12)),
                       st.tuples(st.just('resolve'), st.just(0), st.just(0), st.sampled_from([0, 1, 1, 1, 2, 3])), st.tuples(st.just('resolve'), st.just(0), st.just(0), st.sampled_from([1, 1, 1, 3])))


@prop.sub(lambda: st.tuples(st.just('str'), st.sampled_from([[(0, [])], [(0, []), (1, [])], [(1, [0])], [(0, []), (1, [0]), (2, [])]]), st.lists(focused_op, min_size=5, max_size=18)), quick=5000)
def repeated_conflicts(case):
    "one view of a small graph made incoherent and repaired over and over"
    return run(case)


def short(tier):
    "every history of a few operations over two nodes on the default view and one more"
    import itertools
    ops = [('add', 0, 0, 1, [0]), ('add', 0, 0, 0, []), ('add', 0, 0, 1, []), ('remove', 0, 0, 0), ('remove', 0, 0, 1), ('ready', 0, 0, 0),
           ('done', 0, 0, [100]), ('done', 0, 0, [101]), ('reset', 0, 0)]
    for k in range(1, 5 if tier == 'quick' else 7):
        for h in itertools.product(ops, repeat=k):
            yield ('str', [], list(h))


@prop.sub(None, enum=short, quick=0, thorough=0)
def all_short_histories(case):
    return run(case)


@prop.sub(lambda: st.tuples(st.sampled_from(SHAPES), sizes(700), st.integers(0, 30), st.integers(0, 100), st.sampled_from([2, 3, 5, 10]),
                            st.integers(1, 40), st.integers(0, 99)), quick=700)
def scale(case):
    "large graphs: some nodes done, then many removed and many added, then run to the end"
    shape, n, k, share, every, extra, salt = case
    rows = big_graph(shape, n, k)
    g = TopologicalSorter(dict(rows))
    m = BigModel(rows)
    other = g.view()
    yielded, done = set(), set()
    stop = len(m.preds) * share // 100
    while g and len(done) < stop:
        for x in g.ready():
            ensure(x not in yielded and m.preds[x] <= done, 'ready', x)
            yielded.add(x)
        for x in sorted(yielded - done)[:max(1, stop - len(done))]:
            g.done(x)
            done.add(x)
    # remove nodes of every kind; then new nodes that depend on what is left (never a yielded node on one not done)
    for x in [x for x in m.preds if (x * 31 + salt) % every == 0]:
        g.remove(x)
        del m.preds[x]
        yielded.discard(x)
        done.discard(x)
    gone = set(range(n)) - set(m.preds)
    for p in m.preds.values():
        p -= gone
    left = sorted(m.preds)
    for i in range(extra):
        deps = {left[(i * 7919 + j * 31 + salt) % len(left)] for j in range(i % 3)} if left else set()
        if i % 4 == 3:
            deps.add(('new', i - 1))
        g.add(('new', i), *deps)
        m.preds[('new', i)] = deps
    equal(len(g), len(m.preds), 'len')
    rounds = 0
    while g:
        rounds += 1
        ensure(rounds <= 2 * len(m.preds) + 4, 'the view does not end')
        want = {x for x, p in m.preds.items() if x not in yielded and p <= done}
        got = g.ready()
        ensure(len(set(got)) == len(got) and set(got) == want, 'ready', sorted(set(got) ^ want, key=repr)[:10])
        yielded.update(got)
        take = sorted(yielded - done, key=repr)
        ensure(take, 'stuck')
        take = take[:len(take) // 2 + 1] if salt % 2 and len(m.preds) < 200 else take
        g.done(*take)
        done.update(take)
    equal(done, set(m.preds), 'everything yielded and done')
    m.fresh()
    drive_big(other, m, n + extra, False)
    check_order(list(itertools.islice(g.static_order(), 2 * (n + extra) + 3)), m)
    return n > 2 and shape


many_op = st.one_of(
    st.tuples(st.just('add'), st.integers(0, 39), st.lists(st.integers(0, 39), max_size=3)),
    st.tuples(st.sampled_from(['remove', 'remove', 'readd', 'readd', 'done']), st.integers(0, 39), st.just([])),
    st.tuples(st.just('done'), st.integers(0, 39), st.lists(st.integers(0, 39), min_size=1, max_size=9)),
    st.tuples(st.just('ready'), st.just(0), st.just([])), st.tuples(st.just('ready'), st.just(0), st.just([])),
    st.tuples(st.sampled_from(['reset', 'baddone', 'badremove']), st.integers(0, 39), st.just([])))


@prop.sub(lambda: st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 40)), st.sampled_from(['alone', 'alone', 'hub', 'chain', 'pairs']), st.booleans(), st.lists(many_op, min_size=1, max_size=25)), quick=4000)
def many_out(case):
    "up to forty nodes, many of them yielded and not yet done, while yielded and done ones are removed and added again"
    n, shape, view, ops = case
    preds = {}
    for i in range(n):
        preds[i] = {'hub': {0} if i else set(), 'chain': {i - 6} if i > 5 else set(), 'pairs': {i - 1} if i % 2 else set()}.get(shape, set())
    g = TopologicalSorter({k: list(v) for k, v in preds.items()})
    v = g.view() if view else g
    out, done = set(), set()
    labels = set()

    def pick(k, among):
        among = sorted(among)
        return among[k % len(among)] if among else None

    for op, k, more in ops:
        if op == 'ready':
            want = {x for x, p in preds.items() if x not in out and x not in done and p <= done}
            got = v.ready()
            equal((set(got), len(got)), (want, len(want)), 'ready')
            out |= want
        elif op == 'done':
            picks = {pick(x, out) for x in more or [k]} - {None}
            v.done(*sorted(picks))
            out -= picks
            done |= picks
        elif op == 'baddone':
            x = pick(k, (set(range(41)) - out))
            with raises(ValueError, 'done', x):
                v.done(x)
        elif op == 'badremove':
            x = pick(k, set(range(41)) - set(preds))
            with raises(ValueError, 'remove', x):
                g.remove(x)
        elif op in ('remove', 'readd'):
            x = pick(k, out if k % 3 else preds)
            if x is None:
                continue
            labels.add(f'{op} {"yielded" if x in out else "done" if x in done else "waiting"}')
            if len(out) > 7:
                labels.add('many yielded')
            g.remove(x)
            del preds[x]
            out.discard(x)
            done.discard(x)
            for p in preds.values():
                p.discard(x)
            if op == 'readd':
                if k % 2 == 0:
                    g.add(x)
                    preds[x] = set()
                with raises(ValueError, 'done of a node added again or gone', x):
                    v.done(x)
                if k % 2:
                    g.add(x)
                    preds[x] = set()
        elif op == 'reset':
            v.reset()
            out, done = set(), set()
        elif op == 'add':
            # never a new dependency of a yielded node, and always on smaller numbers
            deps = {d for d in more if d < k}
            if k in out or k in done:
                deps = set()
            g.add(k, *sorted(deps))
            preds.setdefault(k, set()).update(deps)
            for d in deps:
                preds.setdefault(d, set())
        equal((len(g), bool(v)), (len(preds), len(done) < len(preds)), 'len, truth after', op)
    while v:
        want = {x for x, p in preds.items() if x not in out and x not in done and p <= done}
        got = v.ready()
        equal((set(got), len(got)), (want, len(want)), 'ready at the end')
        out |= want
        ensure(out, 'stuck')
        x = pick(len(done), out)
        v.done(x)
        out.discard(x)
        done.add(x)
    equal(done, set(preds), 'all done')
    order = list(itertools.islice(g.static_order(), 2 * len(preds) + 2))
    equal((set(order), len(order)), (set(preds), len(preds)), 'static_order')
    at = {x: i for i, x in enumerate(order)}
    ensure(all(at[d] < at[x] for x, p in preds.items() for d in p), 'static_order')
    return labels
