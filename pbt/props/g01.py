"""TopologicalSorter on graphs that are not modified while iterated."""
import graphlib
import itertools
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.graphmodel import Driver, NODES, N, history, acyclic, node, SHAPES, BigModel, big_graph, check_order, drive_big
from pbt.sizes import sizes
from big.graph import TopologicalSorter

prop = Prop('G01',
    "random acyclic graphs over up to 7 nodes and random histories of ready/done/reset/copy/close/new view/static_order over up to 4 "
    "views: after every step each view's truth and the set it would yield next equal a dictionary model's, done refuses exactly nodes "
    "not passed out, and every view can be driven to the end yielding every node once. Also differential against graphlib. "
    "scale: nine shapes of graph with up to thousands of nodes, nodes done in batches of any size. Non-trivial: some node with predecessors was yielded or a done accepted.")

WEIGHTS = dict(ready=6, done=8, view=2, copyview=1, reset=1, close=1, static=1, active=1, drain=1, print=1)


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(NODES)), acyclic(), history(WEIGHTS)), quick=9000)
def views(case):
    kind, graph, ops = case
    d = Driver(kind, graph)
    d.check('start')
    d.run(ops)
    d.finish()
    return 'done' in d.labels and {l for l in d.labels} or any(ds for _, ds in graph) and 'drained at the end'


def all_small(tier):
    "every graph on 3 nodes with edges along one order, with every sequence of single-step consumption orders"
    import itertools
    nodes = 3 if tier == 'quick' else 4
    pairs = [(i, j) for i in range(nodes) for j in range(i)]
    for mask in range(2 ** len(pairs)):
        graph = [(i, [j for k, (a, j) in enumerate(pairs) if a == i and mask >> k & 1]) for i in range(nodes)]
        for order in itertools.product(range(nodes), repeat=nodes):
            yield (graph, list(order))


@prop.sub(lambda: st.tuples(acyclic(), st.lists(st.integers(0, 6), max_size=9)), quick=4000, enum=all_small)
def same_as_graphlib(case):
    graph, order = case
    names = NODES['str']
    mapping = {names[n]: [names[d] for d in ds] for n, ds in graph}
    a, b = TopologicalSorter(mapping), graphlib.TopologicalSorter(mapping)
    a.prepare(); b.prepare()
    pend = []
    for pick in order + [0] * N:
        equal(a.is_active(), b.is_active(), 'is_active')
        if not a.is_active():
            break
        ra, rb = a.get_ready(), b.get_ready()
        equal(sorted(ra), sorted(rb), 'get_ready')
        pend += sorted(ra)
        n = pend.pop(pick % len(pend))
        a.done(n); b.done(n)
        with raises(ValueError, 'done twice'):
            a.done(n)
    return len(graph) > 1 and any(ds for _, ds in graph) and 'graphlib'


@prop.sub(lambda: st.tuples(st.sampled_from(SHAPES), sizes(2500), st.integers(0, 30), sizes(3000), st.booleans(),
                            st.sampled_from(['mapping', 'add', 'edges', 'shuffled'])), quick=700)
def scale(case):
    "graphs of up to thousands of nodes"
    shape, n, k, chunk, newest, how = case
    if shape in ('chain', 'reversed chain', 'dense', 'layers', 'tree', 'random'):
        n = min(n, 1500)
    rows = big_graph(shape, n, k)
    m = BigModel(rows)
    if how == 'mapping':
        g = TopologicalSorter(dict(rows))
    else:
        g = TopologicalSorter()
        if how == 'shuffled':
            rows = sorted(rows, key=lambda r: r[0] * 7919 % 4001)
        for node, ds in rows:
            if how == 'edges':
                g.add(node)
                for d in ds:
                    g.add(node, d)
            else:
                g.add(node, *ds)
    equal(len(g), len(m.preds), 'len')
    v = g.view()
    check_order(list(itertools.islice(g.static_order(), 2 * n + 3)), m)
    drive_big(g, m, chunk, newest)
    check_order(list(itertools.islice(g.static_order(), 2 * n + 3)), m)
    m.fresh()
    drive_big(v, m, max(1, chunk // 2), not newest)
    g.reset()
    m.fresh()
    drive_big(g, m, chunk + 1, newest)
    v.close()
    return n > 1 and shape


CODE = []
WORDS = ['a', 'b', 'A', '-', 'node', 'x.c', '10', '9', "it's", 'é', 'None', '#', 'a,b']
BLANKS = st.sampled_from([' ', '  ', '\t', ' \t '])
pair = st.tuples(st.sampled_from(WORDS), st.sampled_from(WORDS), BLANKS, st.sampled_from(['', ' ', '\t']), st.sampled_from(['', '  ', '\r']))


@prop.sub(lambda: st.tuples(st.lists(st.one_of(pair, pair, pair, st.sampled_from(['', ' ', '\t'])), max_size=12), st.permutations(WORDS), st.booleans(),
                            st.sampled_from(['stdin', '-', 'file']), st.booleans(), st.one_of(st.none(), st.none(), st.none(), st.sampled_from(['a', 'a b c', 'a b c d']))), quick=1500)
def tsort(case):
    "python -m big.graph: lines 'a b' in, every name out once, a before b"
    import contextlib, io, os, sys, tempfile
    import big.graph
    lines, rank, sort, how, final, bad = case
    if not CODE:
        with open(big.graph.__file__, encoding='utf-8') as f:
            CODE.append(compile(f.read(), big.graph.__file__, 'exec'))
    text, edges, names = [], [], []
    for l in lines:
        if isinstance(l, str):
            text.append(l)
            continue
        a, b, between, before, after = l
        if sort:                # acyclic
            if a == b:
                continue
            if rank.index(a) > rank.index(b):
                a, b = b, a
        text.append(before + a + between + b + after)
        edges.append((a, b))
        names += [a, b]
    if bad:
        text.insert(len(text) // 2, bad)
    data = '\n'.join(text) + ('\n' if final and text else '')
    before, into = {}, {n: 0 for n in names}
    for a, b in set(edges):
        before.setdefault(a, set()).add(b)
        into[b] += 1
    left = dict(into)
    todo = [n for n in left if not left[n]]
    done = 0
    while todo:
        done += 1
        for b in before.get(todo.pop(), ()):
            left[b] -= 1
            if not left[b]:
                todo.append(b)
    cyclic = done < len(into)
    out, code = io.StringIO(), None
    argv, stdin = sys.argv, sys.stdin
    with tempfile.TemporaryDirectory() as d:
        sys.argv = ['graph.py']
        sys.stdin = io.StringIO('' if how == 'file' else data)
        if how == '-':
            sys.argv.append('-')
        elif how == 'file':
            path = os.path.join(d, 'pairs')
            with open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(data)
            sys.argv.append(path)
        try:
            with contextlib.redirect_stdout(out):
                exec(CODE[0], {'__name__': '__main__', '__file__': big.graph.__file__})
        except SystemExit as e:
            code = e.code
        except ValueError as e:
            ensure(type(e).__name__ == 'CycleError', e)
            code = 'cycle'
        finally:
            sys.argv, sys.stdin = argv, stdin
    if bad:
        ensure(code and code != 'cycle' and out.getvalue() == '', 'an invalid line was accepted', data, code, out.getvalue())
        return 'invalid line'
    if cyclic:
        equal(code, 'cycle', 'pairs with a cycle', data, out.getvalue())
        return 'cyclic'
    ensure(not code, 'refused', data, code)
    got = out.getvalue().split('\n')
    equal(got.pop(), '', 'the last line')
    equal(sorted(got), sorted(set(names)), 'every name once', data)
    where = {n: i for i, n in enumerate(got)}
    for a, b in edges:
        ensure(where[a] < where[b], 'order of', a, b, data, got)
    return len(edges) > 1 and 'tsort'
