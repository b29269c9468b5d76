"""Scheduler against a list model under a virtual clock."""
import bisect
from fractions import Fraction
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.sizes import sizes
from pbt.textgen import TRUTHY
from big.scheduler import Scheduler, Regulator, SingleThreadedRegulator

prop = Prop('S01',
    "random histories of schedule (relative/absolute, any priority), cancel, blocking and non-blocking iteration, queue and truth, against "
    "a virtual clock with int, float, Fraction and minimal user-defined time classes; the regulator's sleep oversleeps, returns early and "
    "itself schedules and cancels events. A sorted-list model predicts every yielded event, every sleep interval and every error. "
    "many: thousands of events; priorities: numbers of any size, strings, tuples, fractions. Non-trivial: an event was yielded after a sleep, a tie broken or a cancellation made.")


class Min:
    "a time class with nothing but what the documentation requires"
    def __init__(self, v): self.v = v
    def __le__(self, o): return self.v <= (o.v if type(o) is type(self) else o)
    def __eq__(self, o): return self.v == (o.v if type(o) is type(self) else o)
    __hash__ = None
    def __add__(self, o): return type(self)(self.v + o.v)
    def __sub__(self, o): return type(self)(self.v - o.v)
    def _num(self, o): return type(o) is not type(self)
    def __lt__(self, o): return self.v < o if self._num(o) else NotImplemented
    def __gt__(self, o): return self.v > o if self._num(o) else NotImplemented
    def __ge__(self, o): return self.v >= o if self._num(o) else NotImplemented
    def __repr__(self): return f'Min({self.v})'


class Mutable(Min):
    "a time class whose += changes it in place"
    def __iadd__(self, o):
        self.v += o.v
        return self


TIMES = {'int': int, 'float': lambda v: v / 4, 'Fraction': lambda v: Fraction(v, 3), 'min': Min, 'mutable': Mutable,
         'tiny': lambda v: v / 2**14, 'nano': lambda v: Fraction(v, 10**9), 'pico': lambda v: v / 2**42, 'big': lambda v: v * 10**30, 'mixed': lambda v: float(v) if v % 2 else v}


class Clock(Regulator):
    def __init__(self, make):
        self.make, self.t, self.log, self.during = make, 1000, [], None
        self.wakes = 0
    def now(self):
        return self.make(self.t)
    def wake(self):
        self.wakes += 1
    def sleep(self, interval):
        self.log.append(interval)
        self.during(interval)


class Model:
    def __init__(self):
        self.pending = []           # [time, priority, seq, obj]
        self.seq = 0
    def add(self, t, p, o):
        self.seq += 1
        e = (t, p, self.seq, o)
        self.pending.append(e)
        self.pending.sort(key=lambda e: e[:3])
        return e


OBJS = [None, False, 0, '', 'x', (), (1, 2), 1.5, 'x', b'b', StopIteration, 'same']


class Run:
    def __init__(self, kind):
        self.make = TIMES[kind]
        self.r = Clock(self.make)
        self.r.during = self.sleeping
        self.s = Scheduler(self.r)
        self.m = Model()
        self.handles = []           # (real Event, model event)
        self.labels = set()
        self.naps = []
        self.depth = 0

    def same_obj(self, got, e):
        ensure(got is e[3], 'yielded', got, 'expected', e)

    # called by the regulator while the scheduler sleeps
    def sleeping(self, interval):
        want = self.m.pending[0][0] - self.r.t
        ensure(want > 0, 'slept with an event due', want)
        ensure(interval == self.make(want), 'sleep interval', interval, 'expected', self.make(want))
        self.labels.add('slept')
        ops, how = self.naps.pop(0) if self.naps else ((), ('full', 0))
        for op in ops:
            self.step(op)
        k, x = how
        self.r.t += {'full': want, 'over': want + x, 'early': min(x, max(want - 1, 0))}[k]
        if ops: self.labels.add('changed while sleeping')

    def step(self, op):
        k = op[0]
        s, m, r = self.s, self.m, self.r
        if k == 'schedule':
            _, o, t, absolute, prio, how = op
            o = OBJS[o]
            when = 1000 + t if absolute else t
            tobj = self.make(when)
            kw = {}
            if absolute: kw['absolute'] = True
            elif how == 1: kw['absolute'] = False
            if prio is not None: kw['priority'] = prio
            wakes = r.wakes
            ev = s.schedule(o, tobj, **kw)
            ensure(r.wakes > wakes, 'schedule wakes sleepers')
            ensure(tobj == self.make(when), 'the time passed in was modified', tobj)
            e = m.add(when if absolute else r.t + when, 100 if prio is None else prio, o)
            self.handles.append((ev, e))
            if sum(1 for p in m.pending if p[0] == e[0]) > 1: self.labels.add('tie')
        elif k == 'cancel':
            if not self.handles:
                return
            ev, e = self.handles[op[1] % len(self.handles)]
            call = ev.cancel if op[2] else (lambda: s.cancel(ev))
            if e in m.pending:
                call()
                m.pending.remove(e)
                self.labels.add('cancelled')
            else:
                with raises(ValueError, 'cancel of an event not scheduled', e):
                    call()
        elif k == 'tick':
            r.t += op[1]
        elif k == 'bool':
            ensure(bool(s) is bool(m.pending), 'truth', bool(s), m.pending)
        elif k == 'queue':
            q = s.queue
            equal(type(q), list, 'queue')
            ensure(len(q) == len(m.pending), 'queue length', len(q), len(m.pending))
            for ev, e in zip(q, m.pending):
                h = [a for a, b in self.handles if b is e][0]
                ensure(ev is h, 'queue order', [x.event for x in q], m.pending)
            q.clear()
            equal(len(s.queue), len(m.pending), 'queue is a copy')
        elif k == 'poll':
            it = s.non_blocking()
            ensure(iter(it) is it, 'non_blocking is an iterator')
            log = len(r.log)
            for _ in range(op[1]):
                due = [e for e in m.pending if e[0] <= r.t]
                if due:
                    got = next(it)
                    self.same_obj(got, due[0])
                    m.pending.remove(due[0])
                    self.labels.add('polled')
                else:
                    with raises(StopIteration, 'nothing due'):
                        next(it)
                    break
            equal(len(r.log), log, 'non_blocking slept')
        elif k == 'next' and self.depth == 0:
            self.depth += 1
            try:
                ensure(iter(s) is s or True)
                self.naps = [tuple(n) for n in op[2]]
                for _ in range(op[1]):
                    # the model is consulted when the scheduler answers: sleeping() may change it first
                    try:
                        got = next(iter(s))
                    except StopIteration:
                        ensure(not m.pending, 'StopIteration with events pending', m.pending)
                        self.labels.add('empty')
                        break
                    ensure(m.pending, 'yielded', got, 'with nothing pending')
                    e = m.pending[0]
                    ensure(e[0] <= r.t, 'yielded early', e, r.t)
                    self.same_obj(got, e)
                    m.pending.pop(0)
                    self.labels.add('yielded')
            finally:
                self.depth -= 1


HUGE = [2**31 - 1, 2**31, -2**31, 2**53, 2**53 + 1, 2**63, 2**64, 10**40, -10**40, float('inf'), float('-inf'), 1e-300, -1e-300, True, False,
        99.99999999999999, 100.0, 255, 256, 32767, 65536]
schedule = st.tuples(st.just('schedule'), st.integers(0, len(OBJS) - 1), st.sampled_from([0, 0, 1, 1, 2, 3, 5, 8, -1, -5]), st.booleans(),
                     st.sampled_from([None, None, None, 100, 99, 101, 0, -1, 1.5, 5] + HUGE), st.integers(0, 1))
small = st.one_of(schedule, schedule, st.tuples(st.just('cancel'), st.integers(0, 20), st.booleans()), st.tuples(st.just('tick'), st.integers(0, 4)),
                  st.tuples(st.just('bool')), st.tuples(st.just('queue')), st.tuples(st.just('poll'), st.integers(1, 5)))
nap = st.tuples(st.lists(st.one_of(schedule, st.tuples(st.just('cancel'), st.integers(0, 20), st.booleans()), st.tuples(st.just('poll'), st.integers(1, 2)),
                                   st.tuples(st.just('queue'))), max_size=2),
                st.tuples(st.sampled_from(['full', 'full', 'over', 'early']), st.integers(0, 3)))
ops = st.one_of(small, small, small, st.tuples(st.just('next'), st.integers(1, 4), st.lists(nap, max_size=4)))


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(TIMES)), st.lists(ops, min_size=1, max_size=25)), quick=9000)
def histories(case):
    kind, history = case
    run = Run(kind)
    for op in history:
        run.step(op)
        run.step(('bool',))
    run.step(('queue',))
    # everything left comes out, in order, exactly once
    while run.m.pending:
        n = len(run.m.pending)
        run.step(('next', 1, []))
        equal(len(run.m.pending), n - 1, 'one event per step')
    with raises(StopIteration):
        next(run.s)
    ensure(not run.s, 'empty scheduler is false')
    return bool(run.labels & {'slept', 'tie', 'cancelled', 'polled'}) and set(run.labels)


@prop.sub(lambda: st.lists(st.tuples(st.integers(0, 4), st.integers(98, 102)), min_size=1, max_size=60), quick=2000)
def sorted_once(case):
    "many events: the order is the stable sort by (time, priority)"
    r = Clock(int)
    r.during = lambda i: setattr(r, 't', r.t + i)
    s = Scheduler(r)
    for i, (t, p) in enumerate(case):
        s.schedule((t, p, i), t, priority=p)
    want = sorted((t, p, i) for i, (t, p) in enumerate(case))
    equal([e.event for e in s.queue], want, 'queue')
    equal(list(s), want, 'order')
    return len({(t, p) for t, p in case}) < len(case) and 'ties'


@prop.sub(lambda: st.tuples(sizes(6000), st.one_of(st.integers(1, 4), sizes(5000)), sizes(10000), st.integers(0, 40), st.sampled_from([0, 0, 0, 0, 2, 5, 50]),
                            st.sampled_from([0, 0, 3, 7, 100])), quick=400, thorough=4000)
def many(case):
    "long histories: order, cancellation and identity don't depend on how many events there have been"
    n, times, stride, keep, cancel, eat = case
    r = Clock(int)
    r.during = lambda i: setattr(r, 't', r.t + i)
    s = Scheduler(r)
    if cancel:
        n = min(n, 1500)
    pending, handles = [], {}
    for i in range(n):
        k = (1000 + i * stride % times, i)
        handles[k] = s.schedule(k, k[0], absolute=True)
        bisect.insort(pending, k)
        if cancel and i % cancel == cancel - 1 and len(pending) > keep:
            x = pending.pop(i * 7 % len(pending))
            handles[x].cancel()
        if eat and i % eat == eat - 1:
            equal(next(s), pending.pop(0), 'next event')
    want = pending
    equal([e.event for e in s.queue], want, 'queue')
    r.t = max(r.t, 1000 + times)
    equal(list(s.non_blocking()), want, 'order')
    return n > 40


@prop.sub(lambda: st.tuples(sizes(1500), st.integers(0, 5), sizes(40), st.booleans()), quick=300, thorough=3000)
def polled(case):
    "one non-blocking iterator kept and asked over and over, while time passes and events come"
    polls, step, every, blocking_too = case
    r = Clock(int)
    r.during = lambda i: ensure(False, 'a non-blocking iterator slept')
    s = Scheduler(r)
    it, pending, end = s.non_blocking(), [], object()
    for i in range(polls):
        if i % every == 0:
            k = (r.t + i % 7, i)
            s.schedule(k, i % 7)
            bisect.insort(pending, k)
        want = pending.pop(0) if pending and pending[0][0] <= r.t else end
        got = next(s if blocking_too and want is not end and i % 3 == 0 else it, end)
        ensure(got == want, 'poll', i, 'gave', got, 'expected', want)
        r.t += step
    return polls > 20 and 'kept'


PRIORITIES = {'int': list(range(-20, 20)), 'huge': sorted(HUGE), 'str': ['', 'A', 'a', 'aa', 'b', 'é'], 'tuple': [(), (0,), (0, 1), (1,), (1, -5)],
              'Fraction': [Fraction(1, 3), 0, Fraction(-7, 2), 1, 0.5], 'float': [0.1, 0.2, 0.1 + 0.2, 0.3, -0.0, 0.0, 1e308]}


@prop.sub(lambda: st.tuples(st.sampled_from(sorted(PRIORITIES)), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 40), TRUTHY), min_size=2, max_size=25)),
          quick=4000)
def priorities(case):
    "any priorities that can be ordered"
    kind, events = case
    ps = PRIORITIES[kind]
    r = Clock(int)
    r.during = lambda i: setattr(r, 't', r.t + i)
    s = Scheduler(r)
    want = []
    for i, (t, p, absolute) in enumerate(events):
        p = ps[p % len(ps)]
        e = (t, i)
        s.schedule(e, 1000 + t if absolute else t, absolute=absolute, priority=p)
        want.append((t, p, i))
    want = [(t, i) for t, p, i in sorted(want)]
    equal([e.event for e in s.queue], want, 'queue')
    equal(list(s), want, 'order')
    return len(set(t for t, _, _ in events)) < len(events) and kind


@prop.sub(lambda: st.tuples(st.lists(st.integers(0, 3), min_size=1, max_size=5), st.booleans()), quick=12, thorough=60)
def real_clock(case):
    "the default regulator, real time: right order, not early"
    import time
    delays, own = case
    s = Scheduler(SingleThreadedRegulator()) if own else Scheduler()
    start = time.monotonic()
    for i, d in enumerate(delays):
        s.schedule((d, i), d * 0.004)
    out = []
    for got in s:
        ensure(time.monotonic() - start >= got[0] * 0.004, 'early', got)
        out.append(got)
    equal(sorted(out), sorted((d, i) for i, d in enumerate(delays)), 'every event once')
    for d in set(delays):           # (different delays may swap if scheduling itself took 4 ms)
        equal([i for e, i in out if e == d], [i for i, e in enumerate(delays) if e == d], 'equal delays keep their order')
    ensure(not s)
    return 'real'


twin_op = st.one_of(st.tuples(st.just('schedule'), st.integers(0, 1), st.integers(0, 2), st.integers(0, 2), st.sampled_from([100, 100, 7])),
                    st.tuples(st.just('cancel'), st.integers(0, 1), st.integers(0, 20), st.booleans()), st.tuples(st.just('tick'), st.integers(0, 1)),
                    st.tuples(st.just('poll'), st.integers(0, 1)), st.tuples(st.just('next'), st.integers(0, 1)))


@prop.sub(lambda: st.tuples(st.booleans(), st.lists(twin_op, min_size=3, max_size=25)), quick=2500,
          examples=[(True, [('schedule', 0, 0, 1, 100), ('schedule', 1, 0, 1, 100), ('cancel', 0, 1, False)])])
def twins(case):
    "two schedulers (with one regulator or two) that hold like events: neither knows of the other's"
    shared, history = case
    clocks = [Clock(int), Clock(int)]
    if shared:
        clocks[1] = clocks[0]
    def during(c):
        def nap(interval):
            ensure(interval > 0, 'slept', interval)
            c.t += interval
        return nap
    for c in clocks:
        c.during = during(c)
    both = [Scheduler(c) for c in clocks]
    models = [[], []]
    handles, labels, seq = [], set(), 0
    for op in history:
        if op[0] == 'schedule':
            _, k, o, t, prio = op
            seq += 1
            ev = both[k].schedule(OBJS[o], t, priority=prio)
            e = (clocks[k].t + t, prio, seq, OBJS[o])
            models[k].append(e)
            models[k].sort(key=lambda e: e[:3])
            handles.append((k, ev, e))
        elif op[0] == 'cancel' and handles:
            _, k, i, direct = op
            owner, ev, e = handles[i % len(handles)]
            call = ev.cancel if direct else lambda: both[k].cancel(ev)
            if direct:
                k = owner
            if k == owner and e in models[k]:
                call()
                models[k].remove(e)
            else:
                with raises(ValueError, "cancelled an event that isn't scheduled here"):
                    call()
                if k != owner:
                    labels.add('foreign')
        elif op[0] == 'tick':
            clocks[op[1]].t += 1
        elif op[0] == 'poll':
            k = op[1]
            due = [e for e in models[k] if e[0] <= clocks[k].t]
            got = list(both[k].non_blocking())
            ensure(len(got) == len(due) and all(a is e[3] for a, e in zip(got, due)), 'polled', got, 'expected', due)
            models[k] = models[k][len(due):]
        elif op[0] == 'next' and models[op[1]]:
            k = op[1]
            e = models[k].pop(0)
            ensure(next(iter(both[k])) is e[3], 'yielded')
            ensure(clocks[k].t >= e[0], 'early')
        for k in (0, 1):
            mine = {e[2]: ev for o, ev, e in handles if o == k}
            q = both[k].queue
            ensure(len(q) == len(models[k]) and all(a is mine[e[2]] for a, e in zip(q, models[k])), 'queue of scheduler', k)
            ensure(bool(both[k]) is bool(models[k]), 'truth of scheduler', k)
    return labels
