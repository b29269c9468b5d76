"""StateManager against an interpreter of the documented transition sequence."""
import abc, collections, collections.abc, fractions, functools, numbers
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.sizes import sizes
from big.state import StateManager, State, TransitionError

prop = Prop('S03',
    "machines with 2-6 states (objects with and without hooks, objects that compare equal, falsy values), custom or disabled hook names, "
    "optional state_class, and scripts for every hook and observer call (attempt a transition, transition from on_enter, raise, add, remove "
    "or replace observers): the log of every call with the state and next it saw, and every exception, equals that of an interpreter of the "
    "documented sequence. scale: thousands of states, observers and transitions. Non-trivial: a hook or observer ran.")

POOL = ['obj', 'obj', 'obj', 'bare', 'equal', 'equal', 'half', 'zero', 'empty', 'false', 'float', 'tuple', 'list', 'dict', 'text', 'nan', 'nil', 'two', 'bytes', 'falsy', 'falsy', 'sized', 'none_hooks', 'slots', 'derived']
MAX = 60
WITH_ENTER = ('obj', 'equal', 'slots', 'derived', 'falsy', 'sized')
WITH_EXIT = ('obj', 'equal', 'half', 'slots', 'derived', 'falsy', 'sized')


class Boom(Exception):
    pass


class Base:
    pass


class Interp:
    "the documented semantics, on state numbers"
    def __init__(self, case):
        (self.kinds, self.enter, self.exit, self.klass, self.scripts, self.history) = case
        self.log, self.calls, self.total = [], {}, 0
        self.state = self.next = None
        self.observers = []

    def hooks(self, i):
        k = self.kinds[i]
        return (k in WITH_ENTER, k in WITH_EXIT)     # (on_enter, on_exit)

    def valid(self, i):
        return not self.klass or self.kinds[i] in ('obj', 'equal', 'half', 'none_hooks', 'derived', 'falsy', 'sized')

    def script(self, who):
        n = self.calls[who] = self.calls.get(who, -1) + 1
        self.total += 1
        s = self.scripts.get(who, ())
        return s[n % len(s)] if s and self.total < MAX else ('pass',)

    def act(self, who, phase):
        self.log.append((who, self.state, self.next))
        do = self.script(who)
        if do[0] == 'raise':
            raise Boom
        if do[0] == 'dive':
            self.go(do[1])
        elif do[0] == 'go':
            self.attempt(do[1], phase)
        elif do[0] == 'none':
            self.attempt(None, phase)
        elif phase != 'exit':       # what a change made by on_exit does to the transition under way is not specified
            mutate(self.observers, do)

    def attempt(self, i, phase):
        "a transition tried from inside a hook, errors caught and logged"
        try:
            self.go(i)
        except Boom:
            self.log.append('boom')
        except TypeError:
            self.log.append('TypeError')
        except ValueError:
            self.log.append('ValueError')
        except TransitionError:
            self.log.append('TransitionError')
        else:
            self.log.append('went')

    def go(self, i):
        if i is not None:
            i %= len(self.kinds)
        if i is None:
            raise TypeError if self.klass else ValueError
        if not self.valid(i):
            raise TypeError
        if self.next is not None or i == self.state:
            raise TransitionError
        self.next = i
        try:
            if self.state is not None and self.exit and self.hooks(self.state)[1]:
                self.act(('exit', self.state), 'exit')
            for o in list(self.observers):
                self.act(('observer', o), 'observer')
            self.state = i
        finally:
            self.next = None
        if self.enter and self.hooks(i)[0]:
            self.act(('enter', i), 'enter')


def mutate(observers, do):
    k = do[0]
    if k == 'add': observers.append(do[1])
    elif k == 'insert': observers.insert(0, do[1])
    elif k == 'drop' and observers: observers.pop(do[1] % len(observers))
    elif k == 'clear': observers.clear()
    elif k == 'swap' and observers: observers[0] = do[1]
    elif k == 'reverse': observers.reverse()


class Real:
    def __init__(self, case):
        (self.kinds, self.enter, self.exit, self.klass, self.scripts, self.history) = case
        self.log, self.calls, self.total = [], {}, 0
        self.m = None
        self.states = [self.build(i, k) for i, k in enumerate(self.kinds)]
        self.obs = {}
        run = self

        class Observer:
            def __init__(self, n): self.n = n
            def __call__(self, *args, **kwargs):
                ensure(len(args) == 1 and args[0] is run.m and not kwargs, 'observer arguments', args, kwargs)
                run.act(('observer', self.n), 'observer')
        class Alike(Observer):
            # different observers that compare equal
            def __eq__(self, other): return isinstance(other, Alike)
            __hash__ = None
        self.Alike = Alike
        self.Observer = Observer

    def observer(self, n):
        return self.obs.setdefault(n, (self.Observer if n % 2 else self.Alike)(n))

    def build(self, i, k):
        run = self
        def on_enter(self): run.act(('enter', i), 'enter')
        def on_exit(self): run.act(('exit', i), 'exit')
        body = {}
        if k in WITH_ENTER and self.enter: body[self.enter] = on_enter
        if k in WITH_EXIT and self.exit: body[self.exit] = on_exit
        # decoys under the default names when other names (or none) are configured
        if k == 'obj':
            for name in ('on_enter', 'on_exit'):
                body.setdefault(name, lambda self, n=name: run.log.append(('decoy', n)) if n not in (run.enter, run.exit) else None)
        if k == 'equal':
            body['__eq__'] = lambda self, o: True
            body['__hash__'] = lambda self: 1
        if k == 'none_hooks':
            if self.enter: body[self.enter] = None
            if self.exit: body[self.exit] = None
        if k == 'slots': body['__slots__'] = ()
        if k == 'derived': return type('D', (Base, State), body)()
        if k == 'falsy': body['__bool__'] = lambda self: False
        if k == 'sized': body['__len__'] = lambda self: 0
        if k in ('obj', 'equal', 'half', 'none_hooks', 'falsy', 'sized'): return type('S', (Base,), body)()
        if k == 'slots': return type('T', (), body)()
        if k == 'bare': return object()
        # (values which equal one another, but are never the same object)
        return {'zero': lambda: 0, 'empty': lambda: '', 'false': lambda: False, 'float': lambda: float(f'{i}.5'), 'tuple': lambda: tuple([1, 2]), 'list': list, 'dict': dict,
                'text': lambda: ''.join(['st', 'ate']), 'nan': lambda: float('nan'), 'nil': lambda: float('0'), 'two': lambda: complex('2'), 'bytes': lambda: bytes(bytearray(b'ab'))}[k]()

    def number(self, s):
        if s is None:
            return None
        for i, x in enumerate(self.states):
            if x is s:
                return i
        return ('foreign', s)

    def script(self, who):
        n = self.calls[who] = self.calls.get(who, -1) + 1
        self.total += 1
        s = self.scripts.get(who, ())
        return s[n % len(s)] if s and self.total < MAX else ('pass',)

    def act(self, who, phase):
        self.log.append((who, self.number(self.m.state), self.number(self.m.next)))
        do = self.script(who)
        if do[0] == 'raise':
            raise Boom
        if do[0] == 'dive':     # nobody catches what this one raises
            self.m.state = self.states[do[1] % len(self.states)]
        elif do[0] in ('go', 'none'):
            try:
                self.m.state = None if do[0] == 'none' else self.states[do[1] % len(self.states)]
            except Boom:
                self.log.append('boom')
            except TransitionError:
                self.log.append('TransitionError')
            except TypeError:
                self.log.append('TypeError')
            except ValueError:
                self.log.append('ValueError')
            else:
                self.log.append('went')
        elif phase != 'exit':
            self.mutate(do)

    def mutate(self, do):
        if len(do) > 1 and do[0] != 'drop':
            do = (do[0], self.observer(do[1]))
        mutate(self.m.observers, do)


def settle(fn):
    try:
        fn()
    except Boom:
        return 'boom'
    except TransitionError:
        return 'TransitionError'
    except TypeError:
        return 'TypeError'
    except ValueError:
        return 'ValueError'
    return 'ok'


def unique(kinds):
    "only one of each singleton value"
    seen, out = set(), []
    for k in kinds:
        if k in ('zero', 'empty', 'false'):
            if k in seen:
                k = 'bare'
            seen.add(k)
        out.append(k)
    return out


action = st.one_of(st.just(('pass',)), st.just(('pass',)), st.tuples(st.sampled_from(['go', 'go', 'dive']), st.integers(0, 5)), st.just(('raise',)), st.just(('none',)))
observer_action = st.one_of(action, st.tuples(st.sampled_from(['add', 'insert', 'drop', 'swap']), st.integers(0, 5)), st.sampled_from([('clear',), ('reverse',)]))
who = st.one_of(st.tuples(st.sampled_from(['enter', 'exit']), st.integers(0, 5)), st.tuples(st.just('observer'), st.integers(0, 5)))
scripts = st.dictionaries(who, st.lists(observer_action, min_size=1, max_size=3), max_size=6)
ops = st.one_of(st.tuples(st.just('go'), st.integers(0, 5)), st.tuples(st.just('go'), st.integers(0, 5)), st.tuples(st.just('go'), st.integers(0, 5)), st.just(('none',)),
                st.tuples(st.sampled_from(['add', 'add', 'insert', 'drop', 'swap']), st.integers(0, 5)), st.sampled_from([('clear',), ('reverse',), ('newlist',), ('tuple',)]))
NAMES = ['on_enter', 'on_enter', 'on_enter', 'hello', 'état', None, '', 'x']
EXITS = ['on_exit', 'on_exit', 'on_exit', 'bye', '_leave', None, False]


@prop.sub(lambda: st.tuples(st.lists(st.sampled_from(POOL), min_size=2, max_size=6).map(unique), st.sampled_from(NAMES), st.sampled_from(EXITS), st.booleans(), scripts,
                            st.lists(ops, min_size=1, max_size=14)), quick=12000)
def transitions(case):
    kinds, enter, exit_, klass, scr, history = case
    a, b = Interp(case), Real(case)

    class Manager(StateManager):
        def __init__(self, *args, **kw):
            b.m = self
            super().__init__(*args, **kw)

    kw = {}
    if enter != 'on_enter' or len(history) % 2: kw['on_enter'] = enter
    if exit_ != 'on_exit' or len(history) % 2: kw['on_exit'] = exit_
    if klass: kw['state_class'] = Base
    first = settle(lambda: a.go(0))
    got = settle(lambda: Manager(b.states[0], **kw))
    equal(got, first, 'constructor')
    equal(b.log, a.log, 'constructor calls')
    if first in ('TypeError', 'boom'):
        return a.log and 'constructor'
    m = b.m
    for op in history:
        if op[0] in ('go', 'none'):
            i = None if op[0] == 'none' else op[1]
            want = settle(lambda: a.go(i))
            got = settle(lambda: setattr(m, 'state', None if i is None else b.states[i % len(kinds)]))
            equal(got, want, op)
        elif op[0] == 'newlist':
            m.observers = list(m.observers)
        elif op[0] == 'tuple':
            seen = len(a.log)
            keep = m.observers
            m.observers = tuple(keep)
            want = settle(lambda: a.go(0)) if not any(s[0] in ('add', 'insert', 'drop', 'swap', 'clear', 'reverse') for v in scr.values() for s in v) else None
            if want is not None:
                equal(settle(lambda: setattr(m, 'state', b.states[0])), want, 'observers in a tuple')
            m.observers = list(m.observers)
        else:
            mutate(a.observers, op)
            b.mutate(op)
        equal(b.log, a.log, 'after', op)
        equal(b.number(m.state), a.state, 'state after', op)
        ensure(m.next is None, 'next after', op, m.next)
        equal([o.n for o in m.observers], a.observers, 'observers')
    return bool(a.log) and {str(x[0][0]) if isinstance(x, tuple) else x for x in a.log}


# machines whose hooks nearly always act, watched by a few registrations of few observers
busy = st.one_of(st.tuples(st.just('go'), st.integers(0, 5)), st.tuples(st.just('go'), st.integers(0, 5)), st.just(('pass',)), st.just(('raise',)))
prop.sub(lambda: st.tuples(st.lists(st.sampled_from(WITH_ENTER), min_size=3, max_size=5), st.just('on_enter'), st.just('on_exit'), st.booleans(),
                           st.dictionaries(st.tuples(st.just('enter'), st.integers(0, 4)), st.lists(busy, min_size=1, max_size=2), min_size=2, max_size=5),
                           st.tuples(st.lists(st.tuples(st.just('add'), st.integers(0, 1)), max_size=4), st.lists(st.tuples(st.just('go'), st.integers(0, 5)), min_size=1, max_size=8)).map(lambda x: x[0] + x[1])),
         quick=1500, name='busy')(transitions)

# a crowd of observers which nearly always act, mostly on the list of observers
meddle = st.one_of(st.tuples(st.sampled_from(['add', 'insert', 'drop', 'drop', 'drop', 'swap']), st.integers(0, 9)), st.sampled_from([('clear',), ('reverse',), ('pass',), ('pass',)]),
                   st.tuples(st.sampled_from(['go', 'dive']), st.integers(0, 5)))
prop.sub(lambda: st.tuples(st.lists(st.sampled_from(WITH_ENTER), min_size=2, max_size=3), st.just('on_enter'), st.just('on_exit'), st.booleans(),
                           st.dictionaries(st.tuples(st.just('observer'), st.integers(0, 9)), st.lists(meddle, min_size=1, max_size=2), min_size=1, max_size=4),
                           st.tuples(st.permutations(range(10)).map(lambda x: [('add', n) for n in x]), st.integers(2, 10), st.lists(st.tuples(st.just('go'), st.integers(0, 5)), min_size=1, max_size=6))
                             .map(lambda x: x[0][:x[1]] + x[2])),
         quick=2500, name='crowd')(transitions)


@prop.sub(lambda: st.sampled_from([dict(on_enter='a b'), dict(on_enter=1), dict(on_exit='1x'), dict(on_exit=b'x'), dict(state_class=3), dict(state_class='int'),
                                   dict(on_exit='a.b'), dict(on_enter=['x']), dict(state_class=())]), quick=40)
def bad_parameters(kw):
    with raises(TypeError if 'state_class' in kw else ValueError, kw):
        StateManager(1, **kw)
    return 'refused'


class Registered(abc.ABC):
    pass


@Registered.register
class Foreign:
    pass


class Duck(type):
    def __instancecheck__(cls, o):
        return hasattr(o, 'quack')


class Ducks(metaclass=Duck):
    pass


class Quacks:
    quack = True


class Pretends:
    "claims, as a proxy does, to be what it stands for"
    __class__ = property(lambda self: Foreign)


class Meta(type):
    pass


class OfMeta(metaclass=Meta):
    pass


CLASSES = [None, object, int, bool, str, type, Meta, tuple, collections.abc.Sequence, collections.abc.Hashable, collections.abc.Callable, numbers.Number, Registered, Foreign, Ducks, Exception]
VALUES = [0, 1, True, 2.5, 'a', '', (), (1,), [1], {}, int, Foreign, OfMeta, len, Foreign(), Quacks(), Pretends(), ValueError('x'), fractions.Fraction(1, 2), None]


@prop.sub(lambda: st.tuples(st.sampled_from(CLASSES), st.lists(st.integers(0, len(VALUES) - 1), min_size=1, max_size=6)), quick=3000)
def classes(case):
    "states are checked as isinstance checks them: subclasses, registered classes, metaclasses, proxies"
    cls, picks = case
    seen = []
    m = None
    for i in picks:
        v = VALUES[i]
        want = TypeError if cls is not None and not isinstance(v, cls) else ValueError if v is None else None
        def go():
            nonlocal m
            if m is None:
                m = StateManager(v, state_class=cls)
                m.observers.append(lambda m: seen.append(m.next))
            else:
                m.state = v
        if m is not None and want is None and v is m.state:
            want = TransitionError
        before, old = list(seen), m and m.state
        if want:
            with raises(want, cls, v):
                go()
            equal(seen, before, 'observers called for a state refused')
            if m: ensure(m.state is old and m.next is None, 'changed by a state refused')
        else:
            fresh = m is None
            go()
            ensure(m.state is v, 'state', m.state, v)
            if not fresh: ensure(len(seen) == len(before) + 1 and seen[-1] is v, 'observers')
    return m is not None and str(cls)


@prop.sub(lambda: st.tuples(st.one_of(st.integers(2, 12), st.integers(13, 90)), st.booleans()), quick=250)
def chain(case):
    "on_enter may transition, to any depth; observers see every step"
    n, watch = case
    seen, entered = [], []
    class S:
        def __init__(self, i): self.i = i
        def on_enter(self):
            entered.append((self.i, m.state.i, m.next))
            if self.i + 1 < n:
                m.state = states[self.i + 1]
        def on_exit(self):
            entered.append((-self.i, m.state.i, m.next.i))
    states = [S(i) for i in range(n)]
    m = StateManager('start')
    if watch:
        m.observers.append(lambda x: seen.append(x.next.i))
    m.state = states[0]
    want = []
    for i in range(n):
        want.append((i, i, None))
        if i + 1 < n:
            want.append((-i, i, i + 1))
    equal(entered, want, 'hook order')
    equal(seen, list(range(n)) if watch else [], 'observers')
    ensure(m.state is states[-1] and m.next is None)
    return 'chain'


@prop.sub(lambda: st.tuples(sizes(3000), sizes(3000), sizes(300), st.booleans(), st.sampled_from(['list', 'tuple', 'deque', 'dict'])), quick=250, thorough=3000)
def scale(case):
    "thousands of transitions through thousands of states, thousands of observers"
    n, watchers, steps, raising, kind = case
    log = []
    class S:
        def __init__(self, i): self.i = i
        def on_enter(self): log.append(('enter', self.i, m.state.i, m.next))
        def on_exit(self): log.append(('exit', self.i, m.state.i, m.next.i))
    states = [S(i) for i in range(n + 1)]
    m = StateManager('start', state_class=None)
    def watcher(k):
        def o(x):
            log.append((k, x.state.i if x.state != 'start' else None, x.next.i))
            if raising and k == watchers - 1:
                raise Boom
        return o
    obs = [watcher(k) for k in range(watchers)]
    m.observers = {'list': list, 'tuple': tuple, 'deque': collections.deque, 'dict': dict.fromkeys}[kind](obs)
    cur = None
    if watchers > 300:
        steps = min(steps, 30)
    for j in range(steps):
        i = (0 if cur is None else cur) + 1 + j % 7
        i %= n + 1
        if i == cur:
            with raises(TransitionError, 'to the current state'):
                m.state = states[i]
            continue
        del log[:]
        want = [] if cur is None else [('exit', cur, cur, i)]
        want += [(k, cur, i) for k in range(watchers)]
        if raising:
            with raises(Boom, 'from an observer'):
                m.state = states[i]
            ensure(m.state == 'start' if cur is None else m.state is states[cur], 'state after an observer raised')
            equal(log, want, 'calls before the error')
            if j % 3:
                continue
            m.observers = ()
            m.state = states[i]
            want = ([] if cur is None else [('exit', cur, cur, i)]) + [('enter', i, i, None)]
            equal(log[-len(want):], want, 'calls')
            m.observers = obs
        else:
            m.state = states[i]
            equal(log, want + [('enter', i, i, None)], 'calls')
        cur = i
        ensure(m.state is states[i] and m.next is None, 'state')
    return steps > 3 and ('raising' if raising else 'scale')


class Quit(BaseException):
    pass


class Hook:
    "a hook that's neither a function nor true"
    def __init__(self, log, name, fail=None): self.log, self.name, self.fail = log, name, fail
    def __call__(self, *args):
        self.log.append(self.name)
        if self.fail: raise self.fail
    def __bool__(self): return False
    def __len__(self): return 0
    def method(self): self()
    def __eq__(self, other): return isinstance(other, Hook)
    __hash__ = None


HOOKS = ['shared function', 'shared method', 'falsy object', 'partial', 'static', 'class method', 'property', 'getattr', 'builtin', 'own method', 'class']


@prop.sub(lambda: st.tuples(st.lists(st.tuples(st.sampled_from(HOOKS), st.sampled_from(HOOKS)), min_size=2, max_size=5), st.lists(st.integers(0, 4), min_size=1, max_size=10),
                            st.lists(st.sampled_from(['function', 'falsy', 'partial', 'class', 'failing']), max_size=3),
                            st.sampled_from([None, None, None, Boom, Quit, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration]), st.integers(0, 12)), quick=3000)
def kinds_of_hooks(case):
    "hooks and observers may be any callable found as an attribute, shared by several states or not; what they raise stops the transition, whatever it is"
    kinds, history, watchers, error, late = case
    log = []
    shared = {p: (lambda p=p: log.append(('shared', p))) for p in ('on_enter', 'on_exit')}
    owner = {p: Hook(log, ('owner', p)) for p in ('on_enter', 'on_exit')}

    def build(i, pair):
        body, late = {}, {}
        want = {}
        for p, k in zip(('on_enter', 'on_exit'), pair):
            name = want[p] = (i, p)
            note = lambda *args, name=name: log.append(name)
            if k == 'shared function': late[p] = shared[p]; want[p] = ('shared', p)
            elif k == 'shared method': late[p] = owner[p].method; want[p] = ('owner', p)
            elif k == 'falsy object': late[p] = Hook(log, name)
            elif k == 'partial': late[p] = functools.partial(log.append, name)
            elif k == 'static': body[p] = staticmethod(lambda name=name: log.append(name))
            elif k == 'class method': body[p] = classmethod(lambda cls, name=name: log.append(name))
            elif k == 'property': body[p] = property(lambda self, name=name: lambda: log.append(name))
            elif k == 'getattr': body.setdefault('dynamic', {})[p] = note
            elif k == 'builtin': late[p] = [name].copy; want[p] = None
            elif k == 'own method': body[p] = lambda self, name=name: log.append(name)
            elif k == 'class':
                class Made:
                    def __new__(cls, name=name): log.append(name)
                late[p] = Made
        if 'dynamic' in body:
            def __getattr__(self, name):
                try:
                    return type(self).dynamic[name]
                except KeyError:
                    raise AttributeError(name)
            body['__getattr__'] = __getattr__
        x = type('S', (), body)()
        for p, v in late.items():
            setattr(x, p, v)
        return x, want
    states = [build(i, k) for i, k in enumerate(kinds)]
    m = StateManager(states[0][0])
    equal(log, [w for w in [states[0][1]['on_enter']] if w], 'constructor')
    cur = 0
    obs = []
    boom = error() if error else None
    fail = False
    for n, w in enumerate(watchers):
        def observer(mgr, n=n): log.append(('watch', n))
        if w == 'function': obs.append(observer)
        elif w == 'falsy': obs.append(Hook(log, ('watch', n)))
        elif w == 'partial': obs.append(functools.partial(observer, n=n))
        elif w == 'class':
            class Made:
                def __new__(cls, mgr, n=n): log.append(('watch', n))
            obs.append(Made)
        else:
            obs.append(Hook(log, ('watch', n), boom))
    m.observers.extend(obs)
    stop = watchers.index('failing') if boom and 'failing' in watchers else None
    seen = set()
    for step, i in enumerate(history):
        i %= len(states)
        if step == late and stop is not None:
            m.observers.pop(stop)
            watching = [('watch', n) for n in range(len(watchers)) if n != stop]
            rest = [n for n in range(stop + 1, len(watchers)) if watchers[n] == 'failing']
            for n in reversed(rest):
                m.observers.pop(n - 1)
                watching.remove(('watch', n))
            stop = None
        elif step == 0:
            watching = [('watch', n) for n in range(len(watchers))]
        if i == cur:
            continue
        del log[:]
        want = [states[cur][1]['on_exit']]
        if stop is not None:
            want += watching[:stop + 1]
            with raises(type(boom)) as r:
                m.state = states[i][0]
            ensure(r.value is boom, 'the very exception')
            seen.add('raised')
        else:
            want += watching + [states[i][1]['on_enter']]
            m.state = states[i][0]
            cur = i
            seen.add('went')
        equal(log, [w for w in want if w], 'calls')
        ensure(m.state is states[cur][0] and m.next is None, 'state')
    return seen
