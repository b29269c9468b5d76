"""Reference model of a mutable dependency graph with views, and a driver that runs one operation history
against big.graph.TopologicalSorter and the model side by side, comparing everything observable after every step."""
from hypothesis import strategies as st
from pbt.harness import ensure, equal, raises
from big.graph import TopologicalSorter, CycleError

N = 7
NODES = {'str': list('abcdefg'), 'int': [0, 1, -1, 2, 3, 10, 99], 'mixed': ['a', 0, None, (1, 2), '', False + 5, frozenset('x')],
         'tuple': [(), (0,), (0, 1), ('a',), ('a', 'b'), (None,), ((),)]}


class MGraph:
    def __init__(self):
        self.preds = {}
        self.views = []             # list of dict node -> 'y' / 'd';  None = closed

    def add(self, n, deps):
        for x in (n, *deps):
            self.preds.setdefault(x, set())
        self.preds[n].update(deps)

    def remove(self, n):
        del self.preds[n]
        for s in self.preds.values():
            s.discard(n)
        for v in self.views:
            if v is not None:
                v.pop(n, None)

    def copy(self):
        g = MGraph()
        g.preds = {n: set(p) for n, p in self.preds.items()}
        g.views = [dict(self.views[0])]
        return g

    def on_cycle(self):
        "the nodes left when nodes without predecessors are removed for ever, from both ends"
        p = {n: set(s) for n, s in self.preds.items()}
        while True:
            free = [n for n, s in p.items() if not s or not any(n in t for t in p.values())]
            if not free:
                return set(p)
            for n in free:
                del p[n]
            for s in p.values():
                s.difference_update(free)

    def incoherent(self, v):
        return any(v.get(p) != 'd' for s in v for p in self.preds[s])

    def reaches(self, a, b):
        "b depends, however indirectly, on a (or is a)"
        todo, seen = [b], set()
        while todo:
            x = todo.pop()
            if x == a:
                return True
            if x not in seen:
                seen.add(x)
                todo += self.preds.get(x, ())
        return False

    def waiting(self, v):
        return {n for n, ps in self.preds.items() if n not in v and all(v.get(p) == 'd' for p in ps)}

    def active(self, v):
        return sum(1 for s in v.values() if s == 'd') < len(self.preds)


class Driver:
    def __init__(self, kind, initial=None):
        self.nodes = NODES[kind]
        self.labels = set()
        if initial is None:
            g = TopologicalSorter()
        else:
            g = TopologicalSorter({self.nodes[n]: [self.nodes[d] for d in deps] for n, deps in initial})
        m = MGraph()
        m.views.append({})
        for n, deps in initial or ():
            m.add(self.nodes[n], [self.nodes[d] for d in deps])
        self.graphs = [(g, m, [g])]         # real graph, model, real views (the first is the graph itself)

    # -------------------------------------------------- everything observable
    def check_view(self, g, m, rv, mv, what):
        if mv is None:
            for f in (lambda: bool(rv), rv.ready, rv.done, rv.reset, rv.close, rv.copy):
                with raises(ValueError, what, 'closed'):
                    f()
            return
        bad = m.incoherent(mv)
        cyc = bool(m.on_cycle())
        if bad:
            with raises(RuntimeError, what, 'bool of incoherent view', mv, m.preds):
                bool(rv)
        else:
            ensure(bool(rv) is m.active(mv), what, 'truth', bool(rv), 'expected', m.active(mv), mv, m.preds)
        # peek at what is ready with a copy of the view, leaving the view alone
        c = rv.copy()           # (copying the graph copies its default view)
        try:
            if bad:
                with raises(RuntimeError, what, 'ready of incoherent view', mv, m.preds):
                    c.ready()
                with raises(RuntimeError, what, 'done of incoherent view'):
                    c.done()
            elif cyc:
                with raises(CycleError, what, 'ready on cyclic graph', m.preds):
                    c.ready()
            else:
                r = c.ready()
                equal(type(r), tuple, 'ready')
                ensure(len(set(r)) == len(r) and set(r) == m.waiting(mv), what, 'ready nodes', r, 'expected', m.waiting(mv), mv, m.preds)
                equal(c.ready(), (), what, 'ready again')
        finally:
            if rv is not g:
                c.close()

    def check(self, what):
        for k, (g, m, rvs) in enumerate(self.graphs):
            equal(len(g), len(m.preds), what, 'len')
            for i, (rv, mv) in enumerate(zip(rvs, m.views)):
                self.check_view(g, m, rv, mv, f'{what}: graph {k} view {i}')

    def check_cycle(self, g, m, fn='cycle'):
        loop = m.on_cycle()
        def judge(c):
            equal(type(c), tuple, 'cycle')
            ensure(len(c) >= 1 and len(set(c)) == len(c), 'distinct nodes', c)
            for a, b in zip(c, c[1:] + c[:1]):
                ensure(a in m.preds.get(b, ()), 'not an edge of the graph', (a, b), c, m.preds)
        if fn == 'cycle':
            c = g.cycle()
            if loop:
                judge(c)
            else:
                ensure(c is None, 'cycle() of an acyclic graph', c, m.preds)
        else:
            f = {'check': g.check_for_cycles, 'prepare': g.prepare}[fn]
            if loop:
                with raises(CycleError, fn, m.preds) as r:
                    f()
                judge(tuple(r.value.args[1]))
            else:
                ensure(f() is None, fn)
        self.labels.add('cyclic' if loop else 'acyclic')

    def check_static(self, g, m):
        it = g.static_order()
        ensure(iter(it) is it, 'static_order is an iterator')
        if m.on_cycle():
            with raises(CycleError, 'static_order', m.preds):
                list(it)
            return
        order = list(it)
        ensure(len(order) == len(m.preds) and set(order) == set(m.preds), 'static_order nodes', order, m.preds)
        at = {n: i for i, n in enumerate(order)}
        for n, ps in m.preds.items():
            for p in ps:
                ensure(at[p] < at[n], 'static_order', order, 'but', n, 'depends on', p)
        equal(list(g.static_order()), order, 'static_order twice')

    def drain(self, g, m, rv, mv, step=0):
        "finish the view, marking done a few nodes at a time in an order given by step"
        seen = []
        for _ in range(4 * N + 4):
            if not rv:
                break
            r = list(rv.ready())
            equal(set(r), m.waiting(mv), 'drain: ready', mv, m.preds)
            for n in r:
                mv[n] = 'y'
            seen += r
            pend = [n for n in m.preds if mv.get(n) == 'y']
            ensure(pend, 'stuck: nothing ready and nothing yielded', mv, m.preds)
            take = pend if step == 0 else [pend[step % len(pend)]]
            rv.done(*take)
            for n in take:
                mv[n] = 'd'
        ensure(not rv, 'view still active')
        ensure(len(set(seen)) == len(seen), 'a node was yielded twice', seen)
        equal(set(m.preds), set(mv), 'every node yielded')

    # -------------------------------------------------- operations
    def run(self, ops, checking=True):
        for op in ops:
            self.step(op)
            if checking:
                self.check(repr(op))

    def step(self, op):
        kind, gi, vi, *args = op
        gi %= len(self.graphs)
        g, m, rvs = self.graphs[gi]
        vi %= len(rvs)
        rv, mv = rvs[vi], m.views[vi]
        L = self.labels
        name = self.nodes
        if kind == 'add':
            n, deps = name[args[0]], [name[d] for d in args[1]]
            midway = any(v for v in m.views)
            ensure(g.add(n, *deps) is None, 'add')
            m.add(n, deps)
            if midway: L.add('added midway')
            if any(v and m.incoherent(v) for v in m.views): L.add('incoherent')
            return
        if kind == 'badadd':
            # a node that isn't hashable: refused, and nothing changes (the model isn't told)
            n, deps = name[args[0]], [name[d] for d in args[1]]
            deps.insert(args[2] % (len(deps) + 1), [1])
            with raises(TypeError, 'add of an unhashable dependency', deps):
                g.add(n, *deps)
            with raises(TypeError, 'add of an unhashable node'):
                g.add({}, *deps[:1])
            L.add('refused add')
            return
        if kind == 'remove':
            n = name[args[0]]
            if n not in m.preds:
                with raises(ValueError, 'remove'):
                    g.remove(n)
                return
            before = [v is not None and m.incoherent(v) for v in m.views]
            if any(v for v in m.views): L.add('removed midway')
            g.remove(n)
            m.remove(n)
            if any(b and not m.incoherent(v) for b, v in zip(before, m.views)): L.add('coherent again')
            return
        if kind == 'conflict':
            # a yielded node gets a dependency which isn't done
            mv = mv or {}
            pairs = [(y, p) for y in mv for p in [*m.preds, *(n for n in name if n not in m.preds)]
                     if mv.get(p) != 'd' and p not in m.preds[y] and not m.reaches(y, p)]
            if pairs:
                y, p = pairs[args[0] % len(pairs)]
                g.add(y, p)
                m.add(y, [p])
                L.add('incoherent')
            return
        if kind == 'resolve':
            # one end of an edge that makes the view incoherent goes
            ends = [x for y in mv or () for p in m.preds[y] if mv.get(p) != 'd' for x in (y, p)]
            if ends:
                x = ends[args[0] % len(ends)]
                g.remove(x)
                m.remove(x)
                if not m.incoherent(mv): L.add('coherent again')
            return
        if kind in ('cycle', 'check', 'prepare'):
            return self.check_cycle(g, m, kind)
        if kind == 'static':
            return self.check_static(g, m)
        if kind == 'view':
            if len(rvs) < 4:
                rvs.append(g.view())
                m.views.append({})
            return
        if kind == 'copygraph':
            if len(self.graphs) < 3:
                c = g.copy()
                ensure(type(c) is type(g) and c is not g, 'copy')
                self.graphs.append((c, m.copy(), [c]))
                L.add('incoherent graph copied' if m.incoherent(m.views[0]) else 'graph copied')
            return
        if kind == 'print':
            out = []
            target = rv if mv is not None else g
            target.print(print=lambda *a, **k: out.append(a))
            ensure(out, 'print printed nothing')
            return
        if mv is None:
            return
        if kind == 'ready':
            call = g.get_ready if rv is g and args[0] else rv.ready
            if m.incoherent(mv):
                with raises(RuntimeError, 'ready'):
                    call()
            elif m.on_cycle():
                with raises(CycleError, 'ready'):
                    call()
            else:
                r = call()
                ensure(len(set(r)) == len(r) and set(r) == m.waiting(mv), 'ready', r, 'expected', m.waiting(mv))
                for n in r:
                    mv[n] = 'y'
        elif kind == 'done':
            picks = []
            pend = [n for n in m.preds if mv.get(n) == 'y']
            for x in args[0]:
                # mostly nodes that were passed out; sometimes any node at all
                picks.append(name[x - 100] if x >= 100 else pend[x % len(pend)] if pend else name[x % N])
            if m.incoherent(mv):
                with raises(RuntimeError, 'done'):
                    rv.done(*picks)
                return
            ok = []
            for n in picks:
                if mv.get(n) != 'y' or n in ok:
                    break
                ok.append(n)
            if len(ok) == len(picks):
                ensure(rv.done(*picks) is None, 'done')
            else:
                L.add('refused done')
                with raises(ValueError, 'done', picks, mv):
                    rv.done(*picks)
            for n in ok:
                mv[n] = 'd'
            if ok: L.add('done')
        elif kind == 'reset':
            if mv: L.add('reset midway')
            rv.reset()
            mv.clear()
        elif kind == 'copyview':
            if len(rvs) < 5 and rv is not g:
                if m.incoherent(mv): L.add('incoherent view copied')
                rvs.append(rv.copy())
                m.views.append(dict(mv))
        elif kind == 'close':
            if rv is not g:
                rv.close()
                m.views[vi] = None
        elif kind == 'drain':
            if not m.incoherent(mv) and not m.on_cycle():
                self.drain(g, m, rv, mv, args[0])
                L.add('drained')
        elif kind == 'active':
            if not m.incoherent(mv):
                equal(g.is_active() if rv is g else bool(rv), m.active(mv), 'is_active')

    def finish(self):
        "every coherent view of every acyclic graph can still be driven to the end"
        for g, m, rvs in self.graphs:
            self.check_cycle(g, m)
            self.check_static(g, m)
            for rv, mv in zip(rvs, m.views):
                if mv is None or m.on_cycle():
                    continue
                if m.incoherent(mv):
                    rv.reset()
                    mv.clear()
                self.drain(g, m, rv, mv, len(mv))


node = st.integers(0, N - 1)
which = st.integers(0, 3)
bit = st.integers(0, 1)


def op(kind):
    g, v = st.integers(0, 2), which
    more = {'add': (node, st.lists(node, max_size=3)), 'badadd': (node, st.lists(node, max_size=3), st.integers(0, 3)), 'remove': (node,), 'ready': (bit,),
            'done': (st.lists(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 6), st.integers(100, 106)), min_size=1, max_size=3),),
            'drain': (st.integers(0, 2),), 'conflict': (st.integers(0, 40),), 'resolve': (st.integers(0, 6),)}.get(kind, ())
    return st.tuples(st.just(kind), g, v, *more)


def history(weights, max_size=24, min_size=1):
    kinds = [k for k, w in weights.items() for _ in range(w)]
    return st.lists(st.sampled_from(kinds).flatmap(op), min_size=min_size, max_size=max_size)


def acyclic():
    "initial graph as [(node, deps)] whose edges all point one way along a hidden order"
    def build(t):
        perm, rows = t
        return [(perm[i], [perm[j % i] for j in deps] if i else []) for i, deps in rows]
    return st.tuples(st.permutations(range(N)), st.lists(st.tuples(node, st.lists(node, max_size=3)), max_size=9)
                     ).map(build).map(lambda rows: [(n, sorted({d for k, ds in rows if k == n for d in ds})) for n in dict.fromkeys(n for n, _ in rows)])


# ---------------------------------------------------------------- large graphs
SHAPES = ('chain', 'reversed chain', 'wide', 'funnel', 'layers', 'tree', 'random', 'dense', 'edgeless')


def big_graph(shape, n, k):
    "[(node, [predecessors])] of an acyclic graph on n integers"
    k = max(1, k)
    if shape == 'chain':
        return [(i, [i - 1] if i else []) for i in range(n)]
    if shape == 'reversed chain':
        return [(i, [i + 1] if i < n - 1 else []) for i in range(n)]
    if shape == 'wide':
        return [(i, [0] if i else []) for i in range(n)]
    if shape == 'funnel':
        return [(0, list(range(1, n)))]
    if shape == 'layers':
        w = min(k, 20)
        return [(i, [j for j in range((i // w - 1) * w, (i // w) * w)] if i >= w else []) for i in range(n)]
    if shape == 'tree':
        return [(i, [(i - 1) // (k % 5 + 1)] if i else []) for i in range(n)]
    if shape == 'random':
        return [(i, sorted({(i * 7919 + j * 104729 + k) % i for j in range((i + k) % 4)}) if i else []) for i in range(n)]
    if shape == 'dense':
        return [(i, [j for j in range(max(0, i - 30), i)]) for i in range(n)]
    return [(i, []) for i in range(n)]


class BigModel:
    "predecessor counts only: one view, no incoherence"
    def __init__(self, rows):
        self.preds = {}
        for n, ds in rows:
            self.preds.setdefault(n, set()).update(ds)
            for d in ds:
                self.preds.setdefault(d, set())
        self.fresh()

    def fresh(self):
        self.left = {n: len(p) for n, p in self.preds.items()}
        self.succ = {}
        for n, p in self.preds.items():
            for d in p:
                self.succ.setdefault(d, []).append(n)
        self.free = {n for n, c in self.left.items() if not c}
        self.out = {}           # yielded, not done: insertion ordered
        self.finished = 0

    def ready(self):
        r, self.free = self.free, set()
        for n in sorted(r, key=repr):
            self.out[n] = 1
        return r

    def done(self, n):
        del self.out[n]
        self.finished += 1
        for s in self.succ.get(n, ()):
            self.left[s] -= 1
            if not self.left[s]:
                self.free.add(s)


def drive_big(rv, m, chunk, newest):
    "run one view of a large graph to its end, chunk nodes done at a time"
    seen = set()
    rounds = 0
    while rv:
        rounds += 1
        ensure(rounds <= 2 * len(m.preds) + 4, 'the view does not end')
        want = m.ready()
        got = rv.ready()
        ensure(len(set(got)) == len(got) and set(got) == want, 'ready: ', len(got), 'nodes, expected', len(want), sorted(set(got) ^ want)[:10])
        ensure(not seen.intersection(got), 'yielded again', sorted(seen.intersection(got))[:10])
        seen.update(got)
        ensure(m.out, 'active with nothing outstanding')
        take = list(m.out)
        take = take[-chunk:] if newest else take[:chunk]
        rv.done(*take)
        for n in take:
            m.done(n)
    equal(len(seen), len(m.preds), 'nodes yielded')
    ensure(not m.out, 'inactive with nodes not done', len(m.out))
    equal(rv.ready(), (), 'ready at the end')


def check_order(order, m):
    ensure(len(order) == len(m.preds) and set(order) == set(m.preds), 'static_order has', len(order), 'nodes')
    at = {n: i for i, n in enumerate(order)}
    for n, ps in m.preds.items():
        for p in ps:
            ensure(at[p] < at[n], 'static_order', p, 'after', n)
