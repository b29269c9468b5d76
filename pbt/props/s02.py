"""Scheduler under controlled thread interleavings, and ThreadSafeRegulator's wake."""
import threading, time
from hypothesis import strategies as st
from pbt.harness import Prop, Violation, ensure, equal, raises
from big.scheduler import Scheduler, Regulator, ThreadSafeRegulator, SingleThreadedRegulator, default_regulator

prop = Prop('S02',
    "two to four real threads running generated scripts (schedule, cancel, consume, poll, look at the queue) under a baton-passing regulator "
    "whose lock, now, sleep, wake and every comparison of two times are switch points chosen by the generator; virtual time. Checked: the "
    "lock discipline of now/sleep/wake, no event lost, duplicated, early, or still pending while a consumer sleeps past its time, no "
    "deadlock. ThreadSafeRegulator is driven through a lock that runs other threads' operations exactly between unlock and sleep. "
    "Non-trivial: a thread was switched out inside the scheduler or was woken.")


class Stop(BaseException):
    "tear down a worker"


class Coop:
    "runs threads one at a time; the choices list says who runs next at each switch point"
    def __init__(self, choices):
        self.choices, self.pos = choices, 0
        self.workers, self.current, self.control = [], None, threading.Semaphore(0)
        self.switches = 0
        self.dead = False

    def spawn(self, fn):
        w = dict(sem=threading.Semaphore(0), state='run', error=None, fn=fn, id=len(self.workers))
        def body():
            w['sem'].acquire()
            try:
                if not self.dead:
                    fn(w)
            except Stop:
                pass
            except BaseException as e:
                w['error'] = e
            w['state'] = 'done'
            self.control.release()
        w['thread'] = threading.Thread(target=body, daemon=True)
        self.workers.append(w)
        w['thread'].start()

    def switch(self, state='run', data=None):
        "called by the running worker: hand the baton back and wait for it"
        w = self.current
        if w is None or threading.current_thread() is not w['thread']:
            return
        if self.dead:
            raise Stop
        w['state'], w['data'] = state, data
        self.control.release()
        w['sem'].acquire()
        if self.dead:
            raise Stop
        w['state'] = 'run'

    def pick(self, n):
        c = self.choices[self.pos] if self.pos < len(self.choices) else 0
        self.pos += 1
        return c % n

    def runnable(self):
        out = []
        for w in self.workers:
            if w['state'] == 'run' or w['state'] == 'lock' and w['data'].holder is None or w['state'] == 'sleep' and w['data']['over']():
                out.append(w)
        return out

    def run(self, idle):
        last = None
        for _ in range(20000):
            r = self.runnable()
            if not r:
                if all(w['state'] == 'done' for w in self.workers):
                    return
                if not idle():
                    raise Violation('deadlock', [(w['id'], w['state']) for w in self.workers])
                continue
            # choice 0 = keep running the same thread
            r.sort(key=lambda w: (w is not last, w['id']))
            w = r[self.pick(len(r))]
            if w is not last and last is not None and last['state'] != 'done':
                self.switches += 1
            last = self.current = w
            w['sem'].release()
            if not self.control.acquire(timeout=20):
                raise Violation('a thread ran 20 seconds without reaching the scheduler lock')
            if w['error'] is not None:
                raise w['error']
        raise Violation('no progress after 20000 steps')

    def stop(self):
        self.dead = True
        self.current = None
        for w in self.workers:
            w['sem'].release()
        for w in self.workers:
            w['thread'].join(5)


class Lock:
    "not recursive"
    def __init__(self, coop):
        self.coop, self.holder, self.entries = coop, None, 0
    def __enter__(self):
        me = threading.get_ident()
        ensure(self.holder != me, 'the lock was entered recursively')
        self.coop.switch()
        while self.holder is not None:
            self.coop.switch('lock', self)
        self.holder = me
        self.entries += 1
    def __exit__(self, *a):
        ensure(self.holder == threading.get_ident() or self.coop.dead, 'lock released by another thread')
        self.holder = None
        self.coop.switch()
    def acquire(self, *a):
        self.__enter__()
        return True
    def release(self):
        self.__exit__()
    def locked(self):
        return self.holder is not None
    def mine(self):
        return self.holder == threading.get_ident()


class Tick(float):
    "time whose comparisons with other times are switch points"
    coop = None
    def _sw(self, o):
        if type(o) is Tick and Tick.coop is not None:
            Tick.coop.switch()
    def __eq__(self, o): self._sw(o); return float(self) == float(o)
    def __le__(self, o): self._sw(o); return float(self) <= float(o)
    def __lt__(self, o): self._sw(o); return float(self) < float(o)
    def __gt__(self, o): self._sw(o); return float(self) > float(o)
    def __ge__(self, o): self._sw(o); return float(self) >= float(o)
    __hash__ = float.__hash__
    def __add__(self, o): return Tick(float(self) + float(o))
    __radd__ = __add__
    def __sub__(self, o): return Tick(float(self) - float(o))


class CoopRegulator(Regulator):
    def __init__(self, coop):
        self.coop, self.t, self.lock, self.generation = coop, 0.0, Lock(coop), 0
        self.wakes = 0
        self.woken = 0
    def now(self):
        ensure(self.lock.mine(), 'now() called without the lock')
        self.coop.switch()
        return Tick(self.t)
    def wake(self):
        ensure(self.lock.mine(), 'wake() called without the lock')
        self.generation += 1
        self.wakes += 1
        self.coop.switch()
    @property
    def sleep(self):
        # fetched under the lock (as ThreadSafeRegulator relies on): a wake after that aborts the sleep
        fetched = self.generation
        def sleep(interval):
            ensure(not self.lock.mine(), 'sleep() called with the lock held')
            ensure(interval >= 0, 'negative sleep', interval)
            until = self.t + float(interval)
            self.coop.switch()
            if self.generation == fetched:
                self.coop.switch('sleep', dict(over=lambda: self.generation != fetched or self.t >= until, until=until))
                if self.generation != fetched:
                    self.woken += 1
        return sleep


def run_case(scripts, choices):
    coop = Coop(choices)
    reg = CoopRegulator(coop)
    Tick.coop = coop
    s = Scheduler(reg)
    events = {}             # name -> dict(event, due, state)
    order = []
    labels = set()

    def deliver(name, t):
        e = events[name]
        ensure(e['state'] in ('pending', 'scheduling', 'cancelling', 'refused'), 'event delivered', e['state'], name)
        ensure(t >= e['due'] or e['due'] is None, 'delivered early', name, t, e['due'])
        e['delivered'] = True
        if e['state'] != 'cancelling':
            e['state'] = 'delivered'
        order.append(name)

    def worker(script):
        def body(w):
            mine = []
            for k, op in enumerate(script):
                kind, x, y = op
                entries = reg.lock.entries
                if kind == 'schedule':
                    name = (w['id'], k)
                    wakes = reg.wakes
                    # absolute, so the due time is known before the call
                    e = events[name] = dict(due=float(x), state='scheduling', prio=y, delivered=False)
                    e['event'] = s.schedule(name, Tick(x), absolute=True, priority=y)
                    ensure(reg.wakes > wakes, 'schedule() did not wake sleepers')
                    if e['state'] == 'scheduling':
                        e['state'] = 'pending'
                    mine.append(name)
                elif kind == 'cancel':
                    names = [n for n in events if 'event' in events[n] and events[n]['state'] != 'cancelling']
                    if not names:
                        continue
                    e = events[names[x % len(names)]]
                    before = e['state']
                    e['state'] = 'cancelling'
                    try:
                        e['event'].cancel() if y % 2 else s.cancel(e['event'])
                    except ValueError:
                        # a consumer has it, though it may have been switched out before saying so
                        e['state'] = 'delivered' if e['delivered'] else 'refused' if before == 'pending' else before
                    else:
                        ensure(before == 'pending' and not e['delivered'], 'cancelled an event that was', before)
                        e['state'] = 'cancelled'
                        labels.add('cancelled')
                elif kind == 'take':
                    it = iter(s)
                    for _ in range(x % 3 + 1):
                        try:
                            name = next(it)
                        except StopIteration:
                            break
                        deliver(name, reg.t)
                elif kind == 'poll':
                    for n, name in enumerate(s.non_blocking()):
                        deliver(name, reg.t)
                        if n >= x % 3:
                            break
                elif kind == 'look':
                    q = s.queue if x % 2 else bool(s)
                    if x % 2:
                        keys = [(float(e.time), e.priority, e.sequence) for e in q]
                        equal(keys, sorted(keys), 'queue order')
                if kind != 'cancel':
                    ensure(reg.lock.entries > entries, kind, 'never entered the lock')
        return body

    def idle():
        "every live thread sleeps (or waits): advance the clock to the next deadline"
        sleepers = [w for w in coop.workers if w['state'] == 'sleep']
        if not sleepers:
            return False
        until = min(w['data']['until'] for w in sleepers)
        for name, e in events.items():
            if e['state'] == 'pending':
                ensure(e['due'] >= until, 'a consumer sleeps until', until, 'past pending event', name, 'due at', e['due'])
        ensure(until > reg.t, 'clock', until, reg.t)
        reg.t = until
        labels.add('slept')
        return True

    try:
        for sc in scripts:
            coop.spawn(worker(sc))
        coop.run(idle)
    finally:
        coop.stop()
        Tick.coop = None
    # afterwards everything is accounted for
    coop.dead = False
    left = sorted(n for n, e in events.items() if e['state'] == 'pending')
    got = [e.event for e in s.queue]
    equal(sorted(got), left, 'events still in the queue')
    equal(bool(s), bool(left), 'truth')
    equal(len(set(order)), len(order), 'event delivered twice')
    for n, e in events.items():
        ensure(e['state'] != 'refused', 'cancel refused a pending event', n)
        ensure(e['state'] in ('pending', 'delivered', 'cancelled'), n, e['state'])
    if coop.switches > len(scripts): labels.add('interleaved')
    if reg.woken: labels.add('woken')
    return labels


step = st.one_of(st.tuples(st.just('schedule'), st.integers(0, 6), st.sampled_from([100, 100, 99, 1])),
                 st.tuples(st.just('schedule'), st.integers(0, 6), st.sampled_from([100, 100, 99, 1])),
                 st.tuples(st.just('take'), st.integers(0, 2), st.just(0)), st.tuples(st.just('take'), st.integers(0, 2), st.just(0)),
                 st.tuples(st.just('cancel'), st.integers(0, 9), st.integers(0, 1)),
                 st.tuples(st.just('poll'), st.integers(0, 2), st.just(0)), st.tuples(st.just('look'), st.integers(0, 1), st.just(0)))
scripts = st.lists(st.lists(step, min_size=1, max_size=6), min_size=2, max_size=4)


@prop.sub(lambda: st.tuples(scripts, st.lists(st.integers(0, 3), max_size=120)), quick=8000, thorough=150000)
def interleavings(case):
    labels = run_case(*case)
    return bool(labels & {'interleaved', 'woken'}) and labels


def two_threads(tier):
    "one consumer and one thread changing the queue under it, with every placement of two context switches"
    consumer = [('schedule', 5, 100), ('take', 0, 0)]
    others = [[('schedule', 1, 100)], [('cancel', 0, 0)], [('schedule', 3, 1), ('cancel', 0, 1)], [('poll', 0, 0), ('schedule', 2, 100)]]
    span = 26 if tier == 'quick' else 45
    for o in others:
        for a in range(span):
            for b in range(a + 1, span):
                choices = [0] * span
                choices[a] = choices[b] = 1
                yield ([consumer, o], choices)


@prop.sub(None, enum=two_threads, quick=0, thorough=0)
def two_switches(case):
    labels = run_case(*case)
    return bool(labels & {'interleaved', 'woken'}) and labels


# ---------------------------------------------------------------- ThreadSafeRegulator
class HookLock:
    "the regulator's own lock, running one hook in another thread right after each release by the consumer"
    def __init__(self, lock):
        self.lock, self.hooks, self.owner = lock, [], None
    def __enter__(self):
        ensure(self.lock.acquire(timeout=20), 'deadlock on the regulator lock')
    def __exit__(self, *a):
        self.lock.release()
        if self.hooks and threading.get_ident() == self.owner:
            hook = self.hooks.pop(0)
            if hook is not None:
                t = threading.Thread(target=hook, daemon=True)
                t.start()
                t.join(20)
                ensure(not t.is_alive(), 'the other thread is stuck')


LONG = 3600


def consume(s, take, hooks=(), lock=None, between=None):
    "run a consumer thread to completion; report what it got and whether it got stuck"
    out = []
    if lock is not None:
        lock.hooks = list(hooks)
    def body():
        if lock is not None:
            lock.owner = threading.get_ident()
        try:
            for e in s:
                out.append(e)
                if len(out) >= take:
                    break
        except BaseException as e:
            out.append(e)
        finally:
            if lock is not None:
                lock.hooks = []
    t = threading.Thread(target=body, daemon=True)
    t.start()
    if between:
        between()
    t.join(10)
    stuck = t.is_alive()
    if stuck:       # let it go
        for e in s.queue:
            try:
                e.cancel()
            except ValueError:
                pass
        t.join(0.2)
    return out, stuck


@prop.sub(lambda: st.tuples(st.integers(0, 3), st.sampled_from(['schedule', 'cancel', 'earlier', 'look']), st.integers(1, 2)), quick=60, thorough=400, shards=2,
          examples=[(i, w, 1) for i in range(3) for w in ('schedule', 'cancel', 'earlier')])
def wake_between_unlock_and_sleep(case):
    at, what, far = case
    r = ThreadSafeRegulator()
    lock = r.lock = HookLock(r.lock)
    s = Scheduler(r)
    late = [s.schedule(('late', i), LONG + i) for i in range(far)]
    def change():
        if what == 'schedule':
            s.schedule('now', 0)
        elif what == 'earlier':
            s.schedule('now', -5)
        elif what == 'cancel':
            for e in late:
                e.cancel()
        else:
            ensure(bool(s) and len(s.queue) == far)
            s.schedule('now', 0.01)
    # at: how many of the consumer's unlocks pass before the change happens; if it never gets that far, a waker makes it
    def waker():
        give_up = time.monotonic() + 8
        while lock.hooks and time.monotonic() < give_up:
            time.sleep(0.002)
            if at:
                with lock:
                    r.wake()
    out, stuck = consume(s, 1, [None] * at + [change], lock, waker)
    ensure(not stuck, what, 'just before the consumer slept was not noticed', out)
    equal(out, [] if what == 'cancel' else ['now'], 'delivered')
    return what


@prop.sub(lambda: st.tuples(st.integers(1, 4), st.sampled_from(['schedule', 'cancel', 'wake']), st.integers(0, 5)), quick=40, thorough=400, shards=2)
def wake_sleepers(case):
    "several consumers asleep: every one of them re-evaluates"
    n, what, ms = case
    r = ThreadSafeRegulator()
    s = Scheduler(r)
    far = s.schedule('late', LONG)
    outs = [[] for _ in range(n)]
    def body(out):
        for e in s:
            out.append(e)
            return
    ts = [threading.Thread(target=body, args=(o,), daemon=True) for o in outs]
    for t in ts:
        t.start()
    time.sleep(ms / 1000)
    if what == 'schedule':
        for i in range(n):
            s.schedule(i, 0)
    elif what == 'cancel':
        far.cancel()
    else:
        with r.lock:
            r.wake()
            r.wake()
        for i in range(n):
            s.schedule(i, 0.001 * i)
    for t in ts:
        t.join(10)
    stuck = [t for t in ts if t.is_alive()]
    if stuck:
        for e in s.queue:
            e.cancel()
    ensure(not stuck, len(stuck), 'consumers still asleep', outs)
    equal(sorted(e for o in outs for e in o), [] if what == 'cancel' else list(range(n)), 'each event delivered once')
    return what


@prop.sub(lambda: st.tuples(st.integers(2, 4), st.integers(1, 4), st.integers(5, 40), st.booleans()), quick=24, thorough=300, shards=2)
def real_threads(case):
    "many threads hammer one scheduler: nothing lost, duplicated or early"
    producers, consumers, each, cancel = case
    r = ThreadSafeRegulator()
    s = Scheduler(r)
    got, cancelled, due, errors = [], [], {}, []
    guard = threading.Lock()
    finished = threading.Event()
    def produce(p):
        try:
            for i in range(each):
                due[p, i] = time.monotonic() + (i % 3) * 0.0005
                ev = s.schedule((p, i), due[p, i], absolute=True, priority=i % 2)
                if cancel and i % 5 == 4:
                    try:
                        ev.cancel()
                    except ValueError:
                        pass
                    else:
                        with guard: cancelled.append((p, i))
        except BaseException as e:
            errors.append(e)
    def eat():
        try:
            while True:
                over = finished.is_set()
                for e in s:
                    t = time.monotonic()
                    with guard: got.append((e, t))
                if over:
                    return
                time.sleep(0.0002)
        except BaseException as e:
            errors.append(e)
    ps = [threading.Thread(target=produce, args=(p,), daemon=True) for p in range(producers)]
    cs = [threading.Thread(target=eat, daemon=True) for _ in range(consumers)]
    for t in ps + cs: t.start()
    for t in ps: t.join(20)
    finished.set()
    for t in cs: t.join(20)
    ensure(not any(t.is_alive() for t in ps + cs), 'stuck')
    if errors: raise errors[0]
    names = [e for e, _ in got]
    equal(sorted(names + cancelled), sorted((p, i) for p in range(producers) for i in range(each)), 'every event once')
    for e, t in got:
        ensure(t >= due[e], 'early', e)
    return 'threads'


@prop.sub(lambda: st.tuples(st.sampled_from(['single', 'default', 'safe', 'safe']), st.lists(st.one_of(st.tuples(st.just('sleep'), st.sampled_from([0, 0.001, 0.004, 0.01])), st.just(('wake',)), st.just(('now',))),
                                                                                  min_size=1, max_size=8)),
          quick=150, thorough=2000, shards=4, examples=[('safe', [('wake',), ('sleep', 0.01)]), ('single', [('sleep', 0.01)])])
def regulators_sleep(case):
    "the supplied regulators' clocks never go back, and a sleep nobody interrupts lasts the whole interval"
    kind, script = case
    r = {'single': SingleThreadedRegulator, 'safe': ThreadSafeRegulator, 'default': lambda: default_regulator}[kind]()
    with r.lock:
        last = r.now()
    woke = slept = False
    for op in script:
        with r.lock:
            start = r.now()
            ensure(start >= last, 'now() went back', last, start)
            if op[0] == 'wake':
                r.wake()
                woke = True
            sleep = r.sleep
        t = time.monotonic()
        if op[0] == 'sleep':
            sleep(op[1])
            ensure(time.monotonic() - t >= op[1] * 0.5, kind, 'slept', time.monotonic() - t, 'of', op[1], script)
            slept = True
        with r.lock:
            last = r.now()
        ensure(last - start >= (op[1] * 0.5 if op[0] == 'sleep' else 0), 'time passed by now()', last - start, op)
    return slept and (kind, 'woken before' if woke else 'not woken')


@prop.sub(lambda: st.tuples(st.integers(1, 4), st.integers(1, 3), st.integers(0, 3)), quick=30, thorough=300, shards=2)
def regulator_wake(case):
    "wake ends every sleep in progress, time after time"
    n, rounds, ms = case
    r = ThreadSafeRegulator()
    for _ in range(rounds):
        ready = threading.Semaphore(0)
        def body():
            with r.lock:
                sleep = r.sleep
            ready.release()
            sleep(LONG)
        ts = [threading.Thread(target=body, daemon=True) for _ in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            ready.acquire()
        time.sleep(ms / 1000)
        give_up = time.monotonic() + 20
        while any(t.is_alive() for t in ts):
            ensure(time.monotonic() < give_up, 'a sleeping thread did not wake')
            with r.lock:
                r.wake()
            for t in ts:
                t.join(0.05)
    return 'several' if n > 1 else 'one'


# ---------------------------------------------------------------- every look at the queue is under the lock
class PlainLock:
    held = False
    def __enter__(self):
        ensure(not self.held, 'the lock is entered recursively')
        self.held = True
    def __exit__(self, *args):
        ensure(self.held, 'the lock is released twice')
        self.held = False
    def acquire(self, *args, **kwargs): self.__enter__(); return True
    def release(self): self.__exit__()
    def locked(self): return self.held


class Fake(Regulator):
    def __init__(self): self.lock, self.t, self.asleep = PlainLock(), 0, None
    def now(self):
        ensure(self.lock.held, 'now without the lock')
        return self.t
    def wake(self): ensure(self.lock.held, 'wake without the lock')
    def sleep(self, interval):
        ensure(not self.lock.held, 'sleep with the lock held')
        ensure(interval > 0, 'sleep', interval)
        if self.asleep:
            self.asleep()
        self.t += interval


def guarded(queue, lock):
    "make this one heap refuse to be touched while the lock isn't held"
    cls = type(queue)
    def wrap(name):
        method = getattr(cls, name)
        def checked(self, *args, **kwargs):
            ensure(lock.held, 'the queue is accessed without the lock', name)
            return method(self, *args, **kwargs)
        return checked
    def wrap_get(name, get):
        def checked(self):
            ensure(lock.held, 'the queue is accessed without the lock', name)
            return get(self)
        return checked
    body = {}
    for c in cls.__mro__[:-1]:
        for name, value in vars(c).items():
            if isinstance(value, property) and name not in body:
                body[name] = property(wrap_get(name, value.fget))
            if name in body or name in ('__init__', '__repr__', '__new__', '__init_subclass__') or not callable(value) or isinstance(value, (type, staticmethod, classmethod)):
                continue
            body[name] = wrap(name)
    queue.__class__ = type('Guarded', (cls,), body)


from big.heap import Heap


@prop.sub(lambda: st.lists(st.one_of(st.tuples(st.just('schedule'), st.integers(0, 6), st.integers(98, 101)), st.tuples(st.just('schedule'), st.integers(0, 6), st.integers(98, 101)),
                                     st.tuples(st.sampled_from(['cancel', 'take', 'poll', 'look', 'tick', 'later']), st.integers(0, 6))), min_size=1, max_size=20), quick=1500)
def queue_under_lock(ops):
    r = Fake()
    s = Scheduler(r)
    queues = [v for v in vars(s).values() if isinstance(v, Heap)]
    for q in queues:
        guarded(q, r.lock)
    events, n = [], 0
    got = 0
    for op, a, *rest in ops:
        if op == 'schedule':
            events.append(s.schedule(n, a, priority=rest[0]))
            n += 1
        elif op == 'cancel' and events:
            try:
                events[a % len(events)].cancel()
            except ValueError:
                pass
        elif op == 'take':
            got += next(s, None) is not None
        elif op == 'poll':
            got += len(list(s.non_blocking()))
        elif op == 'look':
            ensure(bool(s) == bool(s.queue), 'bool')
        elif op == 'tick':
            r.t += a
        elif op == 'later':
            def change():
                r.asleep = None
                s.schedule('later', a)
            r.asleep = change
        ensure(not r.lock.held, 'the lock is still held')
    return got > 0 and ('queue guarded' if queues else 'no queue found')
