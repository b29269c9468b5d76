"""accessor and dispatch delegate to the current state."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from big.state import StateManager, accessor, dispatch, TransitionError

prop = Prop('S04',
    "machine classes built from generated attribute names, manager names, dispatch prefixes and suffixes (one or two managers per class, "
    "subclasses, several instances, shared decorator objects), then random histories of reads, transitions through either name, dispatched "
    "calls with generated arguments, methods that return, raise or transition: every access and call reaches the state current at that "
    "moment. Non-trivial: a call was dispatched after a transition.")

NAMES = ['state', 'st', '_state', 'étât', 'current']
MANAGERS = ['state_manager', 'sm', '_m', 'smedley']
EVENTS = ['go', 'reset', 'on_x', 'x1', '_hid']
AFFIX = ['', '', 'on_', '_', 'x']


class Boom(Exception):
    pass


class S:
    "a state answering to every name"
    def __init__(self, tag, log):
        self.tag, self.log = tag, log
        self.todo = None
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__') or name in ('on_enter', 'on_exit') or 'missing' in name:
            raise AttributeError(name)
        def method(*args, **kwargs):
            self.log.append((self.tag, name, args, kwargs))
            todo, self.todo = self.todo, None
            if todo is not None:
                todo()
            return self.tag, name, args, kwargs
        return method


def machine(spec):
    names, managers, events, base_events, sub = spec
    class Machine:
        def __init__(self, tag, log):
            self.states = [[S((tag, k, i), log) for i in range(3)] for k in range(len(managers))]
            for k, m in enumerate(managers):
                setattr(self, m, StateManager(self.states[k][0]))
    for a, m in zip(names, managers):
        if a == 'state' and m == 'state_manager':
            out = accessor()(Machine)
        elif m == 'state_manager':
            out = accessor(a)(Machine)
        elif a == 'state':
            out = accessor(state_manager=m)(Machine)
        else:
            out = accessor(attribute=a, state_manager=m)(Machine)
        ensure(out is Machine, 'accessor returns the class')
    decorators = {}
    table = {}
    def install(cls, ev, k, prefix, suffix):
        m = managers[k % len(managers)]
        key = (m, prefix, suffix)
        kw = {}
        if prefix: kw['prefix'] = prefix
        if suffix: kw['suffix'] = suffix
        if key not in decorators:
            decorators[key] = dispatch(**kw) if m == 'state_manager' else dispatch(m, **kw)
        def fn(self, a=1, *rest, key='v', **more):
            "doc"
            raise RuntimeError('the body is never used')
        fn.__name__ = ev
        fn.__qualname__ = f'{cls.__name__}.{ev}'
        w = decorators[key](fn)
        equal(w.__name__, ev, 'name')
        equal(w.__doc__, 'doc', 'doc')
        import inspect
        equal(inspect.signature(w), inspect.signature(fn), 'signature')
        setattr(cls, ev, w)
        table[cls, ev] = (k % len(managers), f'{prefix}{ev}{suffix}')
    for e in events:
        install(Machine, *e)
    if not sub:
        return Machine, table
    class Sub(Machine):
        pass
    for (c, ev), v in list(table.items()):
        table[Sub, ev] = v
    for e in base_events:
        install(Sub, *e)
    return Sub, table


value = st.one_of(st.integers(-2, 2), st.sampled_from(['', 'a', None, (1,), False]))
event = st.tuples(st.sampled_from(EVENTS), st.integers(0, 1), st.sampled_from(AFFIX), st.sampled_from(AFFIX))
spec = st.integers(1, 2).flatmap(lambda n: st.tuples(
    st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True), st.lists(st.sampled_from(MANAGERS), min_size=n, max_size=n, unique=True),
    st.lists(event, min_size=1, max_size=4, unique_by=lambda e: e[0]), st.lists(event, max_size=2, unique_by=lambda e: e[0]), st.booleans()))
inst = st.integers(0, 1)
op = st.one_of(st.tuples(st.just('read'), inst, st.integers(0, 1)),
               st.tuples(st.just('set'), inst, st.integers(0, 1), st.integers(0, 2), st.booleans()),
               st.tuples(st.just('call'), inst, st.integers(0, 3), st.lists(value, max_size=3), st.dictionaries(st.sampled_from(['a', 'key', 'z', 'args', 'fn', 'state_manager', 'prefix']), value, max_size=2),
                         st.sampled_from(['return', 'return', 'raise', 'move', 'self'])))


@prop.sub(lambda: st.tuples(spec, st.lists(op, min_size=1, max_size=14)), quick=6000)
def delegation(case):
    sp, history = case
    names, managers, *_ = sp
    cls, table = machine(sp)
    log = []
    machines = [cls(t, log) for t in 'ab']
    cur = {(i, k): 0 for i in range(2) for k in range(len(managers))}
    moved = set()
    labels = set()
    events = sorted(ev for c, ev in table if c is cls)

    def check():
        for (i, k), n in cur.items():
            o = machines[i]
            ensure(getattr(o, names[k]) is o.states[k][n], 'accessor', names[k], getattr(o, names[k]).tag, 'expected', n)
            ensure(getattr(o, managers[k]).state is o.states[k][n], 'manager', managers[k])
    for o in history:
        i = o[1]
        m = machines[i]
        if o[0] == 'set':
            _, _, k, n, direct = o
            k %= len(managers)
            target = m.states[k][n]
            where, attr = (getattr(m, managers[k]), 'state') if direct else (m, names[k])
            if cur[i, k] == n:
                with raises(TransitionError, 'to the current state'):
                    setattr(where, attr, target)
            else:
                setattr(where, attr, target)
                cur[i, k] = n
                moved.add((i, k))
            with raises(ValueError, 'None'):
                setattr(m, names[k], None)
        elif o[0] == 'call':
            _, _, e, args, kwargs, what = o
            ev = events[e % len(events)]
            k, target = table[cls, ev]
            state = m.states[k][cur[i, k]]
            nxt = (cur[i, k] + 1) % 3
            if what == 'raise':
                boom = Boom()
                def todo(): raise boom
                state.todo = todo
            elif what in ('move', 'self'):
                state.todo = lambda: setattr(m, names[k], m.states[k][nxt])
            before = len(log)
            call = (lambda: getattr(m, ev)(*args, **kwargs)) if what != 'self' else (lambda: getattr(type(m), ev)(m, *args, **kwargs))
            if what == 'raise':
                with raises(Boom) as r:
                    call()
                ensure(r.value is boom, 'the very exception')
                labels.add('raised')
            else:
                got = call()
                equal(got, (state.tag, target, tuple(args), kwargs), 'returned value')
            equal(log[before:], [(state.tag, target, tuple(args), kwargs)], 'calls')
            if what in ('move', 'self'):
                cur[i, k] = nxt
                labels.add('transition inside')
            if (i, k) in moved:
                labels.add('dispatched after a transition')
        check()
    return bool(labels) and labels


@prop.sub(lambda: st.tuples(st.sampled_from(AFFIX), st.sampled_from(AFFIX), st.integers(0, 2)), quick=150)
def missing_method(case):
    "a state without the method: AttributeError, as for the hand-written call"
    prefix, suffix, n = case
    class Machine:
        def __init__(self): self.state_manager = StateManager(S('a', []))
        @dispatch(prefix=prefix, suffix=suffix)
        def missing(self): ...
    with raises(AttributeError):
        Machine().missing()
    return 'missing'


@prop.sub(lambda: st.tuples(spec, st.lists(st.tuples(st.sampled_from(['exit', 'observer', 'enter', 'value']), st.integers(0, 3), st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=8)), quick=2500)
def during_a_transition(case):
    "hooks and observers that read the accessor, set it and call dispatched methods reach what the manager's own attribute says then"
    sp, probes = case
    names, managers, *_ = sp
    cls, table = machine(sp)
    log, inside = [], []
    m = cls('a', log)
    events = sorted(ev for c, ev in table if c is cls)

    def probe(phase):
        for p, e, k, n in probes:
            if p != phase:
                continue
            k %= len(managers)
            mgr = getattr(m, managers[k])
            ensure(getattr(m, names[k]) is mgr.state, 'accessor while', phase)
            ev = events[e % len(events)]
            ek, target = table[cls, ev]
            want = getattr(m, managers[ek]).state
            before = len(log)
            equal(getattr(m, ev)(7, key=1), (want.tag, target, (7,), {'key': 1}), 'dispatched while', phase)
            equal(log[before:], [(want.tag, target, (7,), {'key': 1})], 'calls while', phase)
            if phase in ('exit', 'observer') and mgr.next is not None:
                old = mgr.state
                with raises(TransitionError, 'while', phase):
                    setattr(m, names[k], m.states[k][n])
                ensure(mgr.state is old and getattr(m, names[k]) is old)
            inside.append(phase)
    for group in m.states:
        for s in group:
            s.on_exit = lambda: probe('exit')
            s.on_enter = lambda: probe('enter')
    for mg in managers:
        getattr(m, mg).observers.append(lambda sm: probe('observer'))
    for k in range(len(managers)):
        for n in (1, 2, 0):
            setattr(m, names[k], m.states[k][n])
            ensure(getattr(m, names[k]) is m.states[k][n] is getattr(m, managers[k]).state)
            probe('value')
    return set(inside)


class Same:
    "states that are all equal, or falsy"
    def __init__(self, n, falsy): self.n, self.falsy = n, falsy
    def __eq__(self, o): return True
    __hash__ = None
    def __bool__(self): return not self.falsy
    def __len__(self): return 0
    def who(self): return self.n


@prop.sub(lambda: st.tuples(st.booleans(), st.lists(st.integers(0, 2), max_size=8)), quick=300)
def equal_states(case):
    falsy, history = case
    @accessor()
    class Machine:
        def __init__(self): self.state_manager = StateManager(states[0])
        @dispatch()
        def who(self): ...
    states = [Same(i, falsy) for i in range(3)]
    m, cur = Machine(), 0
    for n in history:
        if n == cur:
            with raises(TransitionError):
                m.state = states[n]
        else:
            m.state = states[n]
            cur = n
        ensure(m.state is states[cur] and m.who() == cur, 'current', cur)
    return len(set(history)) > 1


class Plain:
    pass


@prop.sub(lambda: st.tuples(st.integers(1, 4), st.lists(st.tuples(st.sampled_from(['call', 'call', 'call', 'move', 'replace', 'class', 'remove', 'manager', 'machine']), st.integers(0, 3),
                                                                  st.sampled_from(['go', 'halt'])), min_size=2, max_size=30)), quick=4000)
def late_binding(case):
    "every call looks the method up again: states may gain, lose and replace methods, machines may get another manager"
    n, history = case
    @accessor('st', 'sm')
    class Machine:
        def __init__(self, s): self.sm = StateManager(s)
        @dispatch('sm')
        def go(self, *a): ...
        @dispatch('sm', prefix='on_', suffix='_x')
        def halt(self): ...
    real = {'go': 'go', 'halt': 'on_halt_x'}
    class A(Plain):
        def go(self, *a): return ('A.go', self.i, a)
        def on_halt_x(self): return ('A.halt', self.i)
    class B(Plain):
        def go(self, *a): return ('B.go', self.i, a)
        def on_halt_x(self): return ('B.halt', self.i)
    states = [(A if i % 2 else B)() for i in range(n + 1)]
    for i, s in enumerate(states): s.i = i
    own = [{} for _ in states]
    machine, cur, count = Machine(states[0]), 0, 0
    labels = set()
    for op, k, name in history:
        if op == 'move':
            k %= n + 1
            if k != cur:
                machine.st = states[k]
                cur = k
        elif op == 'replace':
            k %= n + 1
            count += 1
            own[k][name] = count
            setattr(states[k], real[name], lambda *a, c=count: ('own', c, a))
            labels.add('replaced')
        elif op == 'remove':
            k %= n + 1
            if own[k].pop(name, None):
                delattr(states[k], real[name])
        elif op == 'class':
            k %= n + 1
            states[k].__class__ = B if type(states[k]) is A else A
        elif op == 'manager':
            k %= n + 1
            machine.sm = StateManager(states[k])
            cur = k
            labels.add('another manager')
        elif op == 'machine':
            k %= n + 1
            machine = Machine(states[k])
            cur = k
        else:
            s = states[cur]
            args = (k,) if name == 'go' else ()
            if own[cur].get(name):
                want = ('own', own[cur][name], args)
            else:
                want = (f'{type(s).__name__}.{name}', cur) + ((args,) if name == 'go' else ())
            equal(getattr(machine, name)(*args), want, 'call')
        ensure(machine.st is states[cur], 'accessor')
    return labels


class Giver:
    "a state whose handler returns whatever it is given"
    def __init__(self): self.give = None
    def take(self, *a, **k): return self.give


@prop.sub(lambda: st.lists(st.tuples(st.sampled_from(['state', 'other state', 'machine', 'class', 'manager', 'handler', 'coroutine', 'generator', 'None', 'NotImplemented', 'Ellipsis',
                                                      'exception', 'exception class', 'empty', 'argument', 'True', 'False', 'zero', 'property', 'dispatched']),
                                     st.booleans()), min_size=1, max_size=6), quick=600,
          examples=[[('state', False), ('machine', True), ('manager', False)]])
def returned_object(case):
    "the call returns the very object the state's method returned, whatever that is"
    @accessor()
    class Machine:
        def __init__(self): self.state_manager = StateManager(Giver())
        @dispatch()
        def take(self, *a, **k): ...
    m, other = Machine(), Giver()
    for what, move in case:
        if move:
            other, m.state = m.state, other
        def gen(): yield 1
        async def co(): return 1
        arg = object()
        c = co()
        c.close()
        give = {'state': m.state, 'other state': other, 'machine': m, 'class': Machine, 'manager': m.state_manager, 'handler': m.state.take, 'coroutine': c,
                'generator': gen(), 'None': None, 'NotImplemented': NotImplemented, 'Ellipsis': ..., 'exception': ValueError('a value'), 'exception class': TransitionError,
                'empty': [], 'argument': arg, 'True': True, 'False': False, 'zero': 0, 'property': property(lambda self: 1), 'dispatched': Machine.take}[what]
        m.state.give = give
        ensure(m.take(arg) is give, 'the very object returned', what)
        ensure(m.take(arg, k=1) is m.state.take(arg), what)
    return {w for w, _ in case}


class EqualToAll:
    "equal to anything"
    def __eq__(self, other):
        return True
    def __ne__(self, other):
        return False
    __hash__ = None


class Nothing:
    "false, and equal to nothing, itself included"
    def __bool__(self):
        return False
    def __eq__(self, other):
        return False


STATES = {'tuple': lambda: tuple([1, []]), 'list': list, 'dict': dict, 'float': lambda: float('nan'), 'same': EqualToAll, 'nothing': Nothing, 'object': object,
          'bytes': lambda: bytes(bytearray(b'state')), 'class': lambda: type('State', (), {}), 'function': lambda: lambda: None}


@prop.sub(lambda: st.tuples(st.lists(st.sampled_from(sorted(STATES)), min_size=2, max_size=4),
                            st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['accessor', 'accessor', 'manager'])), min_size=1, max_size=12)), quick=2500)
def any_objects(case):
    "states are told apart by identity, whatever they are equal to, and read back as they were assigned"
    kinds, history = case
    kinds = kinds + kinds[:1]
    states = [STATES[k]() for k in kinds]
    @accessor('here', 'them')
    class Machine:
        def __init__(self, first):
            self.them = StateManager(first)
    m = Machine(states[0])
    seen = []
    m.them.observers.append(lambda manager: seen.append(manager.next))
    now, moves = 0, 0
    for k, how in history:
        k %= len(states)
        o, name = (m, 'here') if how == 'accessor' else (m.them, 'state')
        if k == now:
            with raises(TransitionError, 'to the current state'):
                setattr(o, name, states[k])
        else:
            setattr(o, name, states[k])
            now, moves = k, moves + 1
            ensure(len(seen) == moves and seen[-1] is states[k], 'observer of the transition to', kinds[k])
        ensure(m.here is states[now] and m.them.state is states[now], 'reads as', m.here, 'expected the object', now, kinds[now])
    return moves > 1 and 'moved'
