"""Cycle detection and graph copies."""
import itertools
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.graphmodel import Driver, MGraph, NODES, N, history, acyclic, node, SHAPES, BigModel, big_graph, check_order
from pbt.sizes import sizes
from big.graph import TopologicalSorter, CycleError

prop = Prop('G03',
    "random directed graphs (self loops, several cycles, tails before and after cycles, ladders of up to 150 nodes) and histories of "
    "add/remove/cycle/check/copy: cycle() is None exactly when repeated removal of sources and sinks empties the graph and otherwise "
    "names real edges forming one loop; copies are compared with their own model from the moment of copying. "
    "scale: loops of up to thousands of nodes hanging off graphs of up to thousands. Non-trivial: a cycle existed or a graph was copied.")

HISTORY = dict(add=8, remove=4, cycle=3, check=1, prepare=1, static=1, ready=2, done=2, copygraph=2, view=1, reset=1)
COPIES = dict(conflict=2, resolve=3, add=5, remove=3, ready=5, done=6, copygraph=4, view=1, reset=1, cycle=1, static=1, drain=1)
anygraph = st.lists(st.tuples(node, st.lists(node, max_size=3)), max_size=6, unique_by=lambda t: t[0])


def run(case):
    kind, graph, ops = case
    d = Driver(kind, graph)
    d.check('start')
    d.run(ops)
    d.finish()
    return bool(d.labels & {'cyclic', 'graph copied'}) and set(d.labels)


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(NODES)), anygraph, history(HISTORY, 20)), quick=6000)
def histories(case):
    return run(case)


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(NODES)), acyclic(), history(COPIES, 22)), quick=5000)
def copies(case):
    return run(case)


def digraphs(tier):
    "every directed graph on three nodes (self loops included)"
    n = 3
    for mask in range(2 ** (n * n)):
        yield [(i, [j for j in range(n) if mask >> (i * n + j) & 1]) for i in range(n)]


@prop.sub(lambda: st.lists(st.tuples(node, st.lists(node, max_size=4)), max_size=7, unique_by=lambda t: t[0]), quick=4000, enum=digraphs)
def exact(graph):
    d = Driver('str', graph)
    g, m, _ = d.graphs[0]
    d.check_cycle(g, m)
    d.check_cycle(g, m, 'check')
    d.check_cycle(g, m)
    d.check_static(g, m)
    return bool(d.labels & {'cyclic'}) and 'cyclic'


@prop.sub(lambda: st.tuples(st.integers(1, 50), st.sampled_from(['before', 'after', 'both']), st.integers(0, 5), st.integers(0, 3)), quick=250)
def ladders(case):
    "diamonds chained before or after a loop: the detector must not walk every path"
    rungs, side, loop, salt = case
    g, m = TopologicalSorter(), MGraph()
    def add(n, *deps):
        g.add(n, *deps); m.add(n, deps)
    def chain(tag, start):
        p = start
        for i in range(rungs):
            add((tag, salt, i, 'l'), p); add((tag, salt, i, 'r'), p)
            p = (tag, salt, i)
            add(p, (tag, salt, i, 'l'), (tag, salt, i, 'r'))
        return p
    top = ('loop', 0)
    if side in ('before', 'both'):
        top = chain('before', ('start',))
        add(('loop', 0), top)
        top = ('loop', 0)
    for i in range(loop):
        add(('loop', i + 1), ('loop', i))
    if loop:
        add(('loop', 0), ('loop', loop))
    else:
        add(('loop', 0))
    if side in ('after', 'both'):
        chain('after', top)
    c = g.cycle()
    if loop:
        equal(set(c or ()), {('loop', i) for i in range(loop + 1)}, 'the only cycle')
        with raises(CycleError):
            g.prepare()
    else:
        ensure(c is None, c)
    return bool(loop) and side


@prop.sub(lambda: st.tuples(st.sampled_from(SHAPES), sizes(2500), st.integers(0, 30), st.one_of(st.integers(0, 6), sizes(2500)), sizes(5000),
                            st.booleans(), st.sampled_from(['mapping', 'add'])), quick=500)
def scale(case):
    "loops of up to thousands of nodes hanging off graphs of up to thousands"
    shape, n, k, loop, at, attach, how = case
    n = min(n, 1500)
    rows = big_graph(shape, n, k)
    L = [('loop', i) for i in range(loop)]
    rows += [(x, [L[i - 1]]) for i, x in enumerate(L)]
    if attach and loop:
        rows.append((('after',), [L[at % loop]]))
        rows.append((L[(at + 3) % loop], [at % n, L[(at + 3) % loop - 1]]))
    if how == 'mapping':
        g = TopologicalSorter(dict(rows))
    else:
        g = TopologicalSorter()
        for x, ds in sorted(rows, key=lambda r: hash(r[0]) * 7919 % 4001):
            g.add(x, *ds)
    c = g.cycle()
    copy = g.copy()
    m = BigModel(rows)
    if loop:
        equal(len(c or ()), loop, 'length of the only loop')
        equal(set(c), set(L), 'the only loop')
        for a, b in zip(c, c[1:] + c[:1]):
            ensure(a in m.preds[b], 'not an edge', a, b)
        with raises(CycleError, 'prepare'):
            g.prepare()
        with raises(CycleError, 'static_order'):
            list(g.static_order())
        with raises(CycleError, 'copy'):
            copy.check_for_cycles()
        x = L[at % loop]
        copy.remove(x)
        ensure(copy.cycle() is None, 'a loop without one of its nodes')
        with raises(CycleError, 'still cyclic'):
            g.check_for_cycles()
        g.remove(x)
        m = BigModel([(y, [d for d in ds if d != x]) for y, ds in rows if y != x])
    ensure(g.cycle() is None, 'cycle() of an acyclic graph')
    check_order(list(itertools.islice(g.static_order(), 2 * len(m.preds) + 3)), m)
    check_order(list(itertools.islice(copy.static_order(), 2 * len(m.preds) + 3)), m)
    # closing the graph into one more loop, edge by edge
    if shape == 'chain' and n > 1:
        copy.add(0, n - 1)
        equal(set(copy.cycle()), set(range(n)), 'the whole chain')
        ensure(g.cycle() is None, 'changing the copy changed the original')
    return (loop or shape == 'chain') and shape
