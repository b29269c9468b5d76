"""pure_virtual over generated class hierarchies."""
import functools, inspect
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
import big.builtin, big.all
from big.builtin import pure_virtual

prop = Prop('N02',
    "functions with generated names, signatures (positional-only, defaults, *args, keyword-only, **kwargs, annotations), bodies, docstrings "
    "and attributes; hierarchies up to 6 deep where each level overrides some of the methods, declares them pure virtual again, mixes in "
    "another base, or leaves them; calls with matching arguments, through the instance, the class, super() and getattr. Non-trivial: a pure "
    "virtual method was called.")

SIGS = [('self', (), {}), ('self, a', (1,), {}), ('self, a, b=2', (1,), {'b': 3}), ('self, *args', (1, 2, 3), {}), ('self, **kw', (), {'x': 1, 'fn': 2}), ('self, a: int, *, b: str = "x"', (1,), {'b': 'y'}),
        ('self, a, /, b, *c, d=None, **e', (1, 2, 3), {'d': 4, 'wrapper': 5}), ('self, self_=0', (), {'self_': 1}), ('self, fn=None, *, args=1, kwargs=2', (), {'args': 3, 'kwargs': 4}),
        ('this', (), {}), ('self, a=()', ((),), {}), ('self, a, b, c, d, e', (1, 2, 3, 4, 5), {})]
def passed_through(f):
    @functools.wraps(f)
    def through(*args, **kwargs): return f(*args, **kwargs)
    return through


NAMES = ['m', 'on_reset', '__call__', '__len__', '__iter__', '_x', 'méthode', 'wrapper', 'pure_virtual', '__init__', '__eq__', '__bool__', '__getitem__', '__enter__', '__private']
BODIES = ['...', 'pass', 'return 1', 'ran.append(1)', 'raise KeyError', 'yield 1', 'return NotImplemented', 'raise NotImplementedError("mine")']
DOCS = [None, 'doc', 'two\nlines', '']


def make(name, sig, body, doc, ran, asynchronous=False):
    src = f"{'async ' if asynchronous else ''}def {name}({SIGS[sig][0]}):\n    " + (f"{doc!r}\n    " if doc is not None else '') + f"ran.append({name!r})\n    {body}\n"
    d = dict(ran=ran)
    exec(src, d)
    return d[name]


method = st.tuples(st.sampled_from(NAMES), st.integers(0, len(SIGS) - 1), st.sampled_from(BODIES), st.sampled_from(DOCS), st.booleans(), st.booleans())
levels = st.lists(st.lists(st.sampled_from(['leave', 'leave', 'override', 'pure', 'super', 'mixin']), min_size=3, max_size=3), max_size=5)


@prop.sub(lambda: st.tuples(st.lists(method, min_size=1, max_size=3, unique_by=lambda m: m[0]), levels, st.integers(1, 3)), quick=3000)
def hierarchy(case):
    methods, levels, calls = case
    methods = [m for m in methods if m[0] != '__init__'] or [('m',) + methods[0][1:]]
    ran = []
    raw, body = {}, {'__module__': 'somewhere'}
    for name, sig, code, doc, attrs, asynchronous in methods:
        if 'yield' in code:
            asynchronous = False
        f = make(name, sig, code, doc, ran, asynchronous)
        if attrs:
            f.tag, f.__qualname__ = ('tag', name), 'C.' + name
        if attrs and len(name) % 2:
            f = passed_through(f)
        raw[name] = (f, sig)
        body[name] = pure_virtual()(f)
    for name, (f, sig) in raw.items():
        g = body[name]
        equal((g.__name__, g.__qualname__, g.__doc__, g.__module__), (f.__name__, f.__qualname__, f.__doc__, f.__module__), 'metadata')
        equal(getattr(g, 'tag', None), getattr(f, 'tag', None), 'attributes')
        equal(str(inspect.signature(g)), str(inspect.signature(f)), 'signature')
    C = type('C', (), body)
    state = {name: 'pure' for name in raw}
    labels = set()
    check(C, raw, state, ran, calls, labels, C)
    for n, level in enumerate(levels):
        d, bases = {}, (C,)
        for (name, (f, sig)), act in zip(raw.items(), level):
            if act == 'override':
                d[name] = lambda self, *a, _n=(name, n), **k: (_n, a, k)
                state[name] = (name, n)
            elif act == 'pure':
                d[name] = pure_virtual()(make(name, sig, 'return 5', None, ran))
                state[name] = 'pure'
            elif act == 'super':
                d[name] = lambda self, *a, _n=name, _c=C, **k: getattr(_c, _n)(self, *a, **k)
            elif act == 'mixin':
                bases = (type('Mixin', (), {name: lambda self, *a, _n=(name, 'mixin', n), **k: (_n, a, k)}), *bases)
                state[name] = (name, 'mixin', n)
        C = type(f'C{n}', bases, d)
        check(C, raw, state, ran, calls, labels, C)
    return labels


def check(C, raw, state, ran, calls, labels, K):
    o = C()
    for name, (f, sig) in raw.items():
        _, args, kw = SIGS[sig]
        for k in range(calls):
            how = [lambda: getattr(o, name)(*args, **kw), lambda: getattr(C, name)(o, *args, **kw), lambda: C.__dict__.get(name, getattr(C, name))(o, *args, **kw)][k]
            if state[name] == 'pure':
                with raises(NotImplementedError, name) as r:
                    how()
                equal(ran, [], 'the body of a pure virtual method ran')
                labels.add('pure')
            else:
                equal(how(), (state[name], args, kw), 'override')
                labels.add('overridden')


@prop.sub(lambda: st.tuples(method, st.integers(0, 3)), quick=400)
def instances(case):
    "an instance attribute, a classmethod or a stacked decorator over it"
    (name, sig, code, doc, attrs, _), how = case
    ran = []
    g = pure_virtual()(make(name, sig, code, doc, ran))
    _, args, kw = SIGS[sig]
    call = {0: lambda: g(object(), *args, **kw), 1: lambda: g.__get__(3)(*args, **kw), 2: lambda: pure_virtual()(g)(None, *args, **kw),
            3: lambda: classmethod(g).__get__(None, int)(*args, **kw)}[how]
    with raises(NotImplementedError, name):
        call()
    equal(ran, [], 'body')
    equal(str(inspect.signature(pure_virtual()(g))), str(inspect.signature(g)), 'signature')
    ensure(big.all.pure_virtual is pure_virtual, 'big.all')
    return how
