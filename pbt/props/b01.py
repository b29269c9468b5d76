"""Bound inner classes: generated class programs against what plain inheritance would do."""
import copy, gc, itertools
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.sizes import sizes
from big.boundinnerclass import BoundInnerClass, UnboundInnerClass

prop = Prop('B01',
    "generated programs: 1-4 outer classes (inheriting, in diamonds, falsy, equal to everything) holding up to 8 inner classes (bound, unbound, plain) with "
    "generated inheritance among them, mixins and classes without a constructor, executed as source text; 1-3 outer instances and a "
    "history of accesses by name, alias, super() and getattr, and of constructions with arguments: identity, caching, MRO, isinstance "
    "relations, the log of constructor calls with the outer each received. Every access order of small programs is enumerated. "
    "Non-trivial: a bound class that inherits from a bound or unbound class is used.",
    ["the documented rules are followed: every descendant of a bound class is decorated and calls super().__init__, inner class names are not reused",
     "the outer instance has a __dict__ and can be weakly referenced"])

LOG = []


class Root:
    "ends every constructor chain"
    def __init__(self, *args, **kw):
        LOG.append(('Root', None, args, kw))


class Mixin(Root):
    def __init__(self, *args, **kw):
        LOG.append(('Mixin', None, args, kw))
        super().__init__(*args, **kw)


class Quiet(Root):
    pass


NAMES = ['Inner', 'Child', 'Other', 'Leaf', 'Mid', 'Étape', 'Last', 'X']
OUTERS = {'single': [()], 'derived': [(), (0,)], 'diamond': [(), (0,), (0,), (1, 2)], 'pair': [(), (), (0, 1)], 'chain': [(), (0,), (1,)]}
FLAVORS = ['', '', '', 'falsy', 'equal', 'empty', 'getattr', 'property', 'namesake']


def ancestry(shape, k):
    "indices of the outer classes whose attributes instances of outer k have"
    out = {k}
    for b in OUTERS[shape][k]:
        out |= ancestry(shape, b)
    return out


class Program:
    """inner: [(outer, kind, bases, init, alias)] where a base is the number of an earlier inner class or 'Mixin', 'Quiet', 'Root'"""
    def __init__(self, shape, flavor, inner):
        self.shape, self.flavor, self.inner = shape, flavor, inner
        self.source = self.write()
        ns = dict(BoundInnerClass=BoundInnerClass, UnboundInnerClass=UnboundInnerClass, Root=Root, theRoot=Root, theMixin=Mixin, theQuiet=Quiet, LOG=LOG, __name__='program')
        exec(self.source, ns)
        self.outers = [ns[f'Outer{k}'] for k in range(len(OUTERS[shape]))]
        self.cls = [self.outers[o].__dict__[NAMES[i]] if kind == 'plain' else self.outers[o].__dict__[NAMES[i]].cls for i, (o, kind, *_) in enumerate(inner)]
        self.number = {c: i for i, c in enumerate(self.cls)}

    def write(self):
        out = []
        for k, outer_bases in enumerate(OUTERS[self.shape]):
            out.append(f"class Outer{k}({', '.join(f'Outer{b}' for b in outer_bases)}):")
            f = self.flavor
            if k == 0:
                if f == 'falsy': out.append("    def __bool__(self): return False")
                if f == 'empty': out.append("    def __len__(self): return 0")
                if f == 'equal': out.append("    def __eq__(self, other): return True\n    def __hash__(self): return 1")
                if f == 'getattr': out.append("    def __getattr__(self, name): return None if name.startswith('__') else Root")
                if f == 'property': out.append("    @property\n    def Mixin(self): raise RuntimeError('not yours')\n    @property\n    def Root(self): return Root")
                if f == 'namesake': out.append("    class Quiet(theQuiet): pass\n    class Mixin(theMixin): pass")
            here = []
            for i, (o, kind, bases, init, alias) in enumerate(self.inner):
                if o != k:
                    continue
                refs = []
                for b in bases:
                    if isinstance(b, str):
                        refs.append('the' + b)
                    elif self.inner[b][0] == k:
                        refs.append(NAMES[b] + ('.cls' if self.inner[b][1] != 'plain' else ''))
                    else:
                        refs.append(f'Outer{self.inner[b][0]}.{NAMES[b]}')
                if kind != 'plain':
                    out.append('    @' + {'bound': 'BoundInnerClass', 'unbound': 'UnboundInnerClass'}[kind])
                out.append(f"    class {NAMES[i]}({', '.join(refs) or 'theRoot'}):")
                out.append(f"        'doc of {NAMES[i]}'")
                if init:
                    p = 'self, outer' if kind == 'bound' else 'self'
                    out.append(f"        def __init__({p}, *args, **kw):")
                    out.append(f"            LOG.append(({NAMES[i]!r}, {'outer' if kind == 'bound' else None}, args, kw))")
                    out.append("            super().__init__(*args, **kw)")
                here.append(i)
                if alias:
                    out.append(f"    Alias{i} = {NAMES[i]}")
            out.append("    def through_super(self, name): return getattr(super(), name)" if outer_bases else "    pass")
        return '\n'.join(out)

    def reachable(self, k):
        a = ancestry(self.shape, k)
        return [i for i, t in enumerate(self.inner) if t[0] in a]


def tidy(shape, flavor, inner):
    "the nearest program that follows the rules and has consistent method resolution orders"
    made = []
    shadow = []         # the same hierarchy as plain classes, to find which bases are possible
    outside = {'Root': type('R', (), {})}
    outside['Mixin'] = type('M', (outside['Root'],), {})
    outside['Quiet'] = type('Q', (outside['Root'],), {})
    for i, (o, kind, bases, init, alias) in enumerate(inner):
        o %= len(OUTERS[shape])
        seen, good = set(), []
        for b in bases:
            if not isinstance(b, str):
                if not i:
                    continue
                b %= i
                if made[b][0] not in ancestry(shape, o) or (kind == 'plain' and made[b][1] != 'plain'):
                    continue
            if b not in seen:
                seen.add(b)
                good.append(b)
        while True:
            try:
                c = type(NAMES[i], tuple(shadow[b] if not isinstance(b, str) else outside[b] for b in good) or (outside['Root'],), {})
                break
            except TypeError:
                good.pop()
        # a bound class without a constructor inherits one: only from bound classes, as only those take outer
        if not init and kind == 'bound':
            for m in c.__mro__[1:]:
                j = shadow.index(m) if m in shadow else None
                if j is None or made[j][3]:
                    init = j is None or made[j][1] != 'bound'
                    break
        shadow.append(c)
        made.append((o, kind, good, init, alias))
    return shape, flavor, made


inner_class = st.tuples(st.integers(0, 3), st.sampled_from(['bound', 'bound', 'bound', 'unbound', 'unbound', 'plain']),
                        st.lists(st.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 7), st.sampled_from(['Mixin', 'Quiet'])), max_size=3), st.sampled_from([True, True, False]), st.booleans())
tall_class = st.tuples(st.just(0), st.sampled_from(['bound', 'bound', 'bound', 'unbound']), st.lists(st.integers(0, 7), min_size=1, max_size=2), st.sampled_from([True, True, False]), st.booleans())
programs = st.tuples(st.sampled_from(sorted(OUTERS)), st.sampled_from(FLAVORS), st.one_of(st.lists(inner_class, min_size=1, max_size=8), st.lists(tall_class, min_size=4, max_size=8))).map(lambda t: tidy(*t))
arguments = st.tuples(st.lists(st.integers(0, 3), max_size=3), st.dictionaries(st.sampled_from(['a', 'b', 'cls', 'base', 'name']), st.integers(0, 3), max_size=2))
access = st.tuples(st.sampled_from(['make', 'make', 'get', 'get', 'alias', 'super', 'class', 'subclass']), st.integers(0, 2), st.integers(0, 7), arguments)


class World:
    def __init__(self, program, picks):
        self.p = program
        self.instances = []
        for k in picks:
            k %= len(program.outers)
            self.instances.append((k, program.outers[k]()))
        self.seen = {}
        self.tags = set()

    def bound(self, n, i):
        return getattr(self.instances[n][1], NAMES[i])

    def remember(self, n, i, c):
        "every access gives the same class"
        old = self.seen.setdefault((n, i), c)
        ensure(old is c, 'accessing again gave another class', NAMES[i], old, c, self.p.source)
        orig, kind = self.p.cls[i], self.p.inner[i][1]
        if kind == 'plain':
            ensure(c is orig, 'plain inner class', c)
        else:
            ensure(c is not orig and issubclass(c, orig), 'bound class is a subclass of the original', c)
            equal((c.__name__, c.__qualname__, c.__module__, c.__doc__), (orig.__name__, orig.__qualname__, orig.__module__, orig.__doc__), 'names')
        for (m, j), other in self.seen.items():
            if j == i and m != n and kind != 'plain':
                ensure(other is not c, 'two outer instances share a bound class', NAMES[i])

    def mro(self, n, i):
        "the original's resolution order, with the bound class in front of every bound or unbound inner class"
        out = []
        for c in self.p.cls[i].__mro__:
            j = self.p.number.get(c)
            if j is not None and self.p.inner[j][1] != 'plain':
                out.append(self.bound(n, j))
            out.append(c)
        return out

    def check_mro(self, n, i):
        c = self.bound(n, i)
        self.remember(n, i, c)
        got, want = list(c.__mro__), self.mro(n, i)
        ensure(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'method resolution order', NAMES[i], got, want, self.p.source)

    def make(self, n, i, c, args, kw, expect_outer=True):
        LOG.clear()
        x = c(*args, **kw)
        log = list(LOG)
        outer = self.instances[n][1]
        want = []
        for m in self.p.cls[i].__mro__:
            j = self.p.number.get(m)
            if j is not None:
                if self.p.inner[j][3]:
                    want.append((NAMES[j], outer if self.p.inner[j][1] == 'bound' else None))
            elif m is Mixin or m is Root:
                want.append((m.__name__, None))
        equal([l[0] for l in log], [w[0] for w in want], 'constructors run', NAMES[i], self.p.source)
        for l, w in zip(log, want):
            ensure(l[1] is w[1], 'constructor of', l[0], 'received', l[1], 'not', w[1], self.p.source)
            equal(l[2:], (tuple(args), kw), 'arguments of', l[0])
        # what it is an instance of
        for j in self.p.reachable(self.instances[n][0]):
            orig, mine = self.p.cls[j], self.bound(n, j)
            related = issubclass(self.p.cls[i], orig)
            equal((isinstance(x, orig), isinstance(x, mine)), (related, related), 'isinstance', NAMES[i], NAMES[j], self.p.source)
            for m in range(len(self.instances)):
                if m != n and j in self.p.reachable(self.instances[m][0]) and self.p.inner[j][1] != 'plain':
                    ensure(not isinstance(x, self.bound(m, j)), 'instance of a class bound to another outer', NAMES[i], NAMES[j], self.p.source)
        ensure(type(x) is c, 'type', type(x))
        if len([w for w in want if w[1] is not None]) > 1:
            self.tags.add('bound chain')
        if self.p.inner[i][1] == 'unbound' and any(w[1] is not None for w in want):
            self.tags.add('unbound over bound')
        if len(self.p.inner[i][2]) > 1:
            self.tags.add('multiple')
        return x

    def run(self, step):
        what, n, i, (args, kw) = step
        n %= len(self.instances)
        k, outer = self.instances[n]
        reachable = self.p.reachable(k)
        if not reachable:
            return
        i = reachable[i % len(reachable)]
        o, kind, bases, init, alias = self.p.inner[i]
        if what == 'make':
            c = self.bound(n, i)
            self.remember(n, i, c)
            self.make(n, i, c, args, kw)
        elif what == 'get':
            self.remember(n, i, self.bound(n, i))
        elif what == 'alias' and alias:
            self.remember(n, i, getattr(outer, f'Alias{i}'))
            self.tags.add('alias')
        elif what == 'super':
            # the last outer class's super() has everything its bases have
            for cls in type(outer).__mro__:
                if 'through_super' in cls.__dict__ and cls is not self.p.outers[o] and issubclass(cls, self.p.outers[o]):
                    self.remember(n, i, cls.through_super(outer, NAMES[i]))
                    self.tags.add('super')
                    break
        elif what == 'class':
            for cls in self.p.outers:
                if issubclass(cls, self.p.outers[o]):
                    ensure(getattr(cls, NAMES[i]) is self.p.cls[i], 'access through the outer class', NAMES[i])
            if kind == 'bound':
                LOG.clear()
                x = self.p.cls[i]
                ensure('__init__' not in x.__dict__ or init)
        elif what == 'subclass':
            # a plain class outside may inherit from a bound one
            c = self.bound(n, i)
            self.remember(n, i, c)
            Sub = type('Sub', (c,), {})
            if kind != 'plain':
                LOG.clear()
                x = Sub(*args, **kw)
                ensure(isinstance(x, c) and isinstance(x, self.p.cls[i]) and any(l[1] is outer for l in LOG) == any(
                    self.p.inner[self.p.number[m]][1] == 'bound' and self.p.inner[self.p.number[m]][3] for m in self.p.cls[i].__mro__ if m in self.p.number), 'subclass of a bound class')

    def finish(self):
        for n, (k, outer) in enumerate(self.instances):
            for i in self.p.reachable(k):
                if self.p.inner[i][1] != 'plain':
                    self.check_mro(n, i)
                ensure(getattr(self.p.outers[k], NAMES[i]) is self.p.cls[i], 'access through the outer class', NAMES[i])


@prop.sub(lambda: st.tuples(programs, st.lists(st.integers(0, 3), min_size=1, max_size=3), st.lists(access, min_size=1, max_size=10)), quick=5000)
def program(case):
    (shape, flavor, inner), picks, steps = case
    w = World(Program(shape, flavor, inner), picks)
    for s in steps:
        w.run(s)
    w.finish()
    return w.tags


def orders(tier):
    "every order of first access, for small hierarchies"
    K = ['bound', 'unbound']
    shapes = [[[], [0], [1]], [[], [0], [0], [1, 2]], [[], [0], ['Mixin', 0], [1, 2]], [[], [0], [0, 'Mixin'], [2, 1]], [[], [], [0, 1]], [[], [0], [1], [1, 'Quiet'], [2, 3]]]
    for bases in shapes:
        n = len(bases)
        for kinds in itertools.product(K, repeat=n):
            for drop in range(n + 1):
                inner = [(0, kinds[i], bases[i], i != n - drop, False) for i in range(n)]
                perms = list(itertools.permutations(range(n)))
                for order in perms if n < 5 else perms[::7 if tier != 'quick' else 23]:
                    yield tidy('single', '', inner), order


@prop.sub(enum=orders)
def access_orders(case):
    (shape, flavor, inner), order = case
    w = World(Program(shape, flavor, inner), [0])
    for i in order:
        w.run(('make', 0, i, ((), {})))
    w.finish()
    return w.tags or True


@prop.sub(lambda: st.tuples(st.sampled_from([dict, list, set, Exception, KeyError, str, int, float, tuple, bytes, frozenset]).map(lambda t: t.__name__), st.sampled_from(['bound', 'unbound']), st.sampled_from(['bound', 'unbound', None]), st.booleans()), quick=300)
def builtin_bases(case):
    "a bound inner class can inherit from any class"
    base, kind, sub, child_first = case
    base = __builtins__[base] if isinstance(__builtins__, dict) else getattr(__builtins__, base)
    deco = {'bound': BoundInnerClass, 'unbound': UnboundInnerClass}
    class Outer:
        class Inner(base):
            if kind == 'bound':
                def __init__(self, outer, *a): self.who = outer
            def mark(self): return 'inner'
        class Child(Inner):
            if sub == 'bound':
                def __init__(self, outer, *a):
                    super().__init__(*a)
                    self.child = outer
    Inner, Child = Outer.Inner, Outer.Child
    Outer.Inner = deco[kind](Inner)
    if sub: Outer.Child = deco[sub](Child)
    else: del Outer.Child
    o = Outer()
    for name in (('Child', 'Inner') if child_first else ('Inner', 'Child')):
        if name == 'Child' and not sub:
            continue
        if sub == 'bound' and kind == 'unbound' and name == 'Child' and base not in (str, int, float, tuple, bytes, frozenset):
            pass
        x = getattr(o, name)()
        ensure(isinstance(x, base) and isinstance(x, Inner) and isinstance(x, o.Inner) and x.mark() == 'inner', 'instance', x)
        if kind == 'bound':
            ensure(x.who is o, 'outer received', x.who)
        if name == 'Child':
            ensure(isinstance(x, Child) and isinstance(x, o.Child))
            if sub == 'bound':
                ensure(x.child is o, 'outer received', x.child)
    return {kind, str(sub)}


@prop.sub(lambda: st.tuples(st.booleans(), st.booleans(), st.sampled_from(['bound', 'unbound']), st.booleans()), quick=100)
def nested_and_foreign(case):
    "binding goes one level deep; a class bound elsewhere must be given its outer by hand"
    same_name, first, kind, access_foreign = case
    got = []
    class A:
        @BoundInnerClass
        class B:
            def __init__(self, outer):
                got.append(('B', outer))
            @BoundInnerClass
            class D:
                def __init__(self, outer):
                    got.append(('D', outer))
            @UnboundInnerClass
            class E(D.cls):
                def __init__(self):
                    super().__init__()
    a, a2 = A(), A()
    class C:
        @BoundInnerClass
        class F(A.B):
            def __init__(self, outer, by_hand):
                got.append(('F', outer))
                super().__init__(by_hand)
        @BoundInnerClass
        class B(A.B):
            def __init__(self, outer, by_hand):
                got.append(('F', outer))
                super().__init__(by_hand)
    c = C()
    if access_foreign:
        a.B
    if first:
        c.B
    b, b2 = a.B(), a2.B()
    got.clear()
    d = b.D() if kind == 'bound' else b.E()
    ensure(len(got) == 1 and got[0][0] == 'D' and got[0][1] is b, 'the nested class gets its own outer', got)
    ensure(b.D is not b2.D and isinstance(d, A.B.D) and isinstance(d, b.D) and not isinstance(d, b2.D))
    got.clear()
    f = (c.B if same_name else c.F)(a)
    ensure([g[0] for g in got] == ['F', 'B'] and got[0][1] is c and got[1][1] is a, 'outer passed by hand', got)
    ensure(isinstance(f, A.B) and not isinstance(f, a.B))
    got.clear()
    x = A.B(a2)
    ensure(got == [('B', a2)] and type(x) is A.B, 'access through the class', got)
    return kind


@prop.sub(lambda: st.tuples(st.booleans(), st.booleans(), st.booleans(), st.booleans()), quick=100)
def metaclass_and_slots(case):
    "inner classes that are falsy, equal to one another or have slots"
    falsy, equal_, slots, child_first = case
    class Meta(type):
        if falsy:
            def __len__(cls): return 0
        if equal_:
            def __eq__(cls, other): return True
            __hash__ = type.__hash__
    got = []
    class Outer:
        @BoundInnerClass
        class Inner(metaclass=Meta):
            if slots:
                __slots__ = ('outer',)
            def __init__(self, outer):
                self.outer = outer
                got.append('Inner')
        @BoundInnerClass
        class Other(metaclass=Meta):
            if slots:
                __slots__ = ()
            def __init__(self, outer):
                got.append('Other')
        @BoundInnerClass
        class Child(Inner.cls):
            if slots:
                __slots__ = ('x',)
            def __init__(self, outer):
                super().__init__()
                self.x = outer
        @UnboundInnerClass
        class Leaf(Child.cls):
            if slots:
                __slots__ = ('y',)
    o, p = Outer(), Outer()
    if not child_first:
        i = o.Inner()
        ensure(i.outer is o)
    c = o.Child()
    ensure(c.outer is o and c.x is o and isinstance(c, o.Inner))
    leaf = p.Leaf()
    ensure(leaf.outer is p and leaf.x is p and isinstance(leaf, p.Child) and isinstance(leaf, p.Inner))
    ensure(o.Inner is o.Inner and o.Inner is not p.Inner and not isinstance(leaf, o.Inner))
    ensure(not isinstance(c, o.Other) and o.Other not in type.mro(o.Child)[:0])
    got.clear()
    o.Other()
    ensure(got == ['Other'], got)
    return {'falsy'} if falsy else {'slots'} if slots else 'plain'


@prop.sub(lambda: st.tuples(st.booleans(), st.integers(0, 3)), quick=60)
def override(case):
    "a subclass of outer may replace an inner class; super() still gives the replaced one and doesn't disturb it"
    via_first, n = case
    got = []
    class Outer:
        @BoundInnerClass
        class Inner:
            def __init__(self, outer): got.append(('old', outer))
    class Outer2(Outer):
        @BoundInnerClass
        class Inner(Outer.Inner):
            def __init__(self, outer):
                got.append(('new', outer))
                super().__init__(outer)
        def old(self): return super().Inner
    o = Outer2()
    if via_first:
        for _ in range(n): o.old()
    new = o.Inner
    for _ in range(n): o.old()()
    got.clear()
    ensure(o.Inner is new and o.Inner.__bases__[0] is Outer2.Inner)
    o.Inner()
    equal([g[0] for g in got], ['new', 'old'])
    ensure(all(g[1] is o for g in got))
    got.clear()
    o.old()()
    ensure(len(got) == 1 and got[0][0] == 'old' and got[0][1] is o, 'through super()', got)
    ensure(Outer2().Inner is not new)
    return n > 0


class Simple:
    @BoundInnerClass
    class Inner:
        def __init__(self, outer):
            self.outer = outer


def _copy_shares(how):
    o = Simple()
    o.Inner
    c = {'copy': copy.copy, 'deepcopy': copy.deepcopy}[how](o)
    return c.Inner().outer is not c


def _temporary():
    return Simple().Inner().outer is None


prop.findings['copied-outer'] = lambda: _copy_shares('copy') or _copy_shares('deepcopy')
prop.findings['temporary-outer'] = _temporary
prop.known['copied-outer'] = lambda sub, case: sub == 'copies' and case[1]
prop.known['temporary-outer'] = lambda sub, case: sub == 'lifetime' and not case


@prop.sub(lambda: st.tuples(st.sampled_from(['copy', 'deepcopy']), st.booleans()), quick=20)
def copies(case):
    how, accessed = case
    o = Simple()
    if accessed:
        o.Inner
    c = {'copy': copy.copy, 'deepcopy': copy.deepcopy}[how](o)
    ensure(c.Inner().outer is c and o.Inner().outer is o and c.Inner is not o.Inner, 'the copy has its own bound class')
    return how


@prop.sub(lambda: st.booleans(), quick=4)
def lifetime(hold):
    "the outer instance is not kept alive, or affected, by anything but the user"
    if not hold:
        ensure(Simple().Inner().outer is not None, 'an outer that nothing else refers to')
        return True
    o = Simple()
    C = o.Inner
    x = C()
    gc.collect()
    ensure(x.outer is o and C().outer is o)
    return True


@prop.sub(lambda: st.tuples(st.sampled_from(['bound', 'unbound']), st.sampled_from(['none', 'own', 'inherited', 'both']), st.booleans(), st.booleans(), st.dictionaries(st.sampled_from(['outer', 'self', 'cls', 'base', 'name', 'bic_args', 'wrapper_self', 'outer_weakref']), st.integers(), max_size=3), st.booleans(),
                            st.sampled_from(['doc', 'doc', ' doc\n\n   more\n   ', '', None, '\tx ']), st.sampled_from([None, None, 'Other.Name', 'x', 'Inner.', 'Outer.Inner.Inner']), st.sampled_from([None, None, 'some.module', ''])), quick=800)
def looks(case):
    "names, doc, annotations and a custom repr survive binding; every keyword reaches the constructor"
    kind, rep, notes, through_child, kw, falsy, doc, qualname, module = case
    deco = {'bound': BoundInnerClass, 'unbound': UnboundInnerClass}[kind]
    kw.pop('self', None)
    got = []
    class Base:
        if rep in ('inherited', 'both'):
            def __repr__(self): return 'inherited'
    class Outer:
        def __len__(self): return 0 if falsy else 1
        def __repr__(self): return 'the outer'
        class Inner(Base):
            "doc"
            if notes:
                a: int = 3
            if kind == 'bound':
                def __init__(_self, _who, *args, **kw): got.append((_who, args, kw))
            else:
                def __init__(_self, *args, **kw): got.append((None, args, kw))
            if rep in ('own', 'both'):
                def __repr__(self): return 'own'
            @classmethod
            def make(cls): return cls
            @staticmethod
            def fixed(): return 5
            @property
            def prop(self): return self.x
            x = 4
        class Child(Inner):
            if kind == 'bound':
                def __init__(_self, _who, *args, **kw): super().__init__(*args, **kw)
    Orig, OrigChild = Outer.Inner, Outer.Child
    for c in (Orig, OrigChild):
        c.__doc__ = doc
        if qualname is not None:
            c.__qualname__ = qualname
        if module is not None:
            c.__module__ = module
    Outer.Inner, Outer.Child = deco(Orig), deco(OrigChild)
    o = Outer()
    C, orig = (o.Child, OrigChild) if through_child else (o.Inner, Orig)
    ensure(o.Inner is o.Inner and o.Child is o.Child, 'the bound class stays the same')
    i = C(1, 2, **kw)
    ensure(len(got) == 1 and got[0][0] is (o if kind == 'bound' else None), 'outer', got)
    equal(got[0][1:], ((1, 2), kw), 'arguments')
    equal((C.__name__, C.__qualname__, C.__module__, C.__doc__), (orig.__name__, orig.__qualname__, orig.__module__, orig.__doc__), 'names')
    if notes and not through_child:
        equal(C.__annotations__, Orig.__annotations__, 'annotations')
    if rep != 'none':
        equal(repr(i), 'inherited' if rep == 'inherited' else 'own', 'repr')
    else:
        ensure(orig.__name__ in repr(i) or orig.__qualname__ in repr(i), 'repr', repr(i))
    ensure(C.make() is C and C.fixed() == 5 and i.prop == 4 and i.make() is C)
    ensure(Outer.Inner is Orig and Outer.Child is OrigChild)
    return {rep, kind}


@prop.sub(lambda: st.tuples(sizes(120), sizes(60), sizes(300), st.sampled_from(['alone', 'chain', 'pairs']), st.integers(0, 99), st.booleans()), quick=120, thorough=2000)
def crowded(case):
    "outer instances full of attributes, dozens of inner classes, hundreds of instances of each"
    extra, inner, many, shape, salt, alias = case
    inner = min(inner, 12) if shape == 'chain' else inner
    body = {}
    bases = []
    def init(self, outer, *args):
        self.outer, self.args = outer, args
    for i in range(inner):
        base = {'alone': None, 'chain': bases[-1] if bases else None, 'pairs': bases[-1] if i % 2 else None}[shape]
        if base is None:
            cls = type(f'C{i}', (), {'__init__': init})
        else:
            def sub_init(self, outer, *args, here=i):
                super(bases[here], self).__init__(*args)
                self.sub = outer
            cls = type(f'C{i}', (base,), {'__init__': sub_init})
        body[f'C{i}'] = BoundInnerClass(cls)
        if alias and i % 3 == 0:
            body[f'also{i}'] = body[f'C{i}']
        bases.append(cls)
    Outer = type('Outer', (), body)
    outers = [Outer() for _ in range(1 + salt % 3)]
    seen = {}
    names = [k for k in body]
    for n in range(max(extra, many)):
        o = outers[n % len(outers)]
        if n < extra:
            setattr(o, f'x{n}', n)
        name = names[(n * 7 + salt) % len(names)]
        cls = getattr(o, name)
        real = name.replace('also', 'C')
        key = (id(o), real)
        ensure(seen.setdefault(key, cls) is cls, 'the same class every time', name)
        c = bases[int(real[1:])]
        ensure(issubclass(cls, c) and cls is not c and getattr(Outer, name) is c, 'bound and unbound', name)
        x = cls(n)
        ensure(type(x) is cls and x.outer is o and x.args == (n,) and getattr(x, 'sub', o) is o, 'outer and arguments', name)
        for b in c.__mro__[1:-1]:
            ensure(isinstance(x, getattr(o, b.__name__)), 'instance of the bound base', b)
    ensure(len(set(map(id, seen.values()))) == len(seen), 'every outer has its own')
    for o in outers:
        equal({k: v for k, v in vars(o).items() if k.startswith('x')}, {f'x{n}': n for n in range(extra) if outers[n % len(outers)] is o}, 'attributes')
    return extra > 1 and shape
