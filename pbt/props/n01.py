"""Number conversion helpers against int()/float() themselves."""
import decimal, fractions, math, sys
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, Violation, harvest
from pbt.sizes import sizes
from big.builtin import get_int, get_float, get_int_or_float, try_int, try_float

prop = Prop('N01',
    "objects: every literal kind (ints up to 2**2000, floats incl. inf/nan, numeric and junk strings and bytes, containers), "
    "Decimal/Fraction, int/float/str subclasses, and objects whose __int__/__float__/__index__/__trunc__/__eq__/__ne__ return, "
    "raise or are absent; with and without a default of any such kind. scale: numbers and strings of thousands of digits. Non-trivial: not a plain small int.")

INTS, STRS = harvest()


class Boom(Exception):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class HostileEq:
    def __eq__(self, other):
        raise Boom()
    def __ne__(self, other):
        raise Boom()
    __hash__ = None


class AlwaysEqual:
    def __eq__(self, other):
        return True
    def __ne__(self, other):
        return False
    __hash__ = None


EXC = {e.__name__: e for e in (TypeError, ValueError, OverflowError, Boom, KeyError, AttributeError, ZeroDivisionError,
                               RuntimeError, StopIteration, IndexError, ArithmeticError, RecursionError, NotImplementedError)}


def conv(spec):
    if spec is None:
        return None
    kind, v = spec
    if kind == 'raise':
        def m(self):
            raise EXC[v]('nope')
    else:
        def m(self):
            return v
    return m


def build(spec):
    kind, v = spec
    if kind == 'lit':
        return v
    if kind == 'float':
        return float(v)
    if kind == 'myint':
        return MyInt(v)
    if kind == 'myfloat':
        return MyFloat(v)
    if kind == 'mystr':
        return MyStr(v)
    if kind == 'bytearray':
        return bytearray(v)
    if kind == 'decimal':
        return decimal.Decimal(v)
    if kind == 'fraction':
        return fractions.Fraction(*v)
    if kind == 'hostile':
        return HostileEq()
    if kind == 'always':
        return AlwaysEqual()
    if kind == 'set':
        return set(v)
    if kind == 'object':
        d = {}
        for name, s in v:
            m = conv(s)
            if m is not None:
                d[name] = m
        return type('Obj', (), d)()
    if kind == 'type':
        return {'int': int, 'float': float, 'object': object, 'None': type(None)}[v]
    raise RuntimeError(spec)


numstr = st.one_of(
    st.from_regex(r'[ \t\n]?[-+]?[0-9_]{1,6}(\.[0-9]{0,4})?([eE][-+]?[0-9]{1,3})?[ \t\n]?', fullmatch=True),
    st.sampled_from(['inf', '-inf', 'nan', 'Infinity', '1e400', '-1e400', '1e308', '', ' ', '0x10', '0b1', '1_000', '٣', '1.', '.5',
                     '1e5', '13.0', '13.5', '-0', '-0.0', '+7', '1 2', '½', '9' * 5000, '1' * 400, '1e-400']),
    st.text(max_size=5))
convspec = st.one_of(st.none(), st.tuples(st.just('ret'), st.one_of(
    st.integers(-5, 5), st.sampled_from([2**70, True, None, 'x', '7', 1.5, 2.0, float('1e300')]))),
    st.tuples(st.just('raise'), st.sampled_from(sorted(EXC))))
obj = st.one_of(
    st.tuples(st.just('lit'), st.one_of(
        st.integers(), st.booleans(), st.none(), numstr, numstr.map(lambda s: s.encode('utf-8', 'surrogatepass')), st.binary(max_size=4),
        st.sampled_from([(), [], {}, (1,), [1], {1: 2}, 3j, 2 + 0j, 2**1024, -2**1024, 2**2000, 2**53 + 1, 10**22 + 1, 10**309, ...]),
        st.sampled_from(INTS))),
    st.tuples(st.just('float'), st.one_of(st.floats().map(repr), st.integers(-10**18, 10**18).map(str),
                                          st.sampled_from(['inf', '-inf', 'nan', '-0.0', '1e308', '5e-324', '0.5', '1e22']))),
    st.tuples(st.just('myint'), st.integers()),
    st.tuples(st.just('myfloat'), st.one_of(st.floats().map(repr), st.integers(-99, 99).map(str))),
    st.tuples(st.just('mystr'), numstr),
    st.tuples(st.just('bytearray'), numstr.map(lambda s: s.encode('utf-8', 'surrogatepass'))),
    st.tuples(st.just('decimal'), st.sampled_from(['0', '1', '1.5', '-2.0', 'NaN', 'sNaN', 'Infinity', '-Infinity', '1e500', '1e30'])),
    st.tuples(st.just('fraction'), st.tuples(st.integers(-9, 9), st.integers(1, 9))),
    st.tuples(st.sampled_from(['hostile', 'always']), st.just(0)),
    st.tuples(st.just('set'), st.lists(st.integers(0, 3), max_size=2).map(tuple)),
    st.tuples(st.just('type'), st.sampled_from(['int', 'float', 'object', 'None'])),
    st.tuples(st.just('object'), st.lists(st.tuples(st.sampled_from(
        ['__int__', '__float__', '__index__', '__trunc__', '__bool__', '__str__', '__eq__', '__ne__', '__len__']), convspec),
        max_size=4, unique_by=lambda t: t[0])),
)


def attempt(fn):
    try:
        return True, fn()
    except Exception:
        return False, None


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and (a != a or b != b):
        return a != a and b != b
    if isinstance(a, float):
        return float.__eq__(a, b) and math.copysign(1, a) == math.copysign(1, b)
    return isinstance(a, int) and int.__eq__(a, b)


def check(name, fn, args, want):
    try:
        got = fn(*args)
    except BaseException as e:
        if not isinstance(e, Exception):
            raise
        raise Violation(f"{name} raised {e!r}") from e
    ensure(same(got, want), name, ' got type ', type(got).__name__, ' ', got if isinstance(got, (int, float, str)) else '?',
           ' want ', want if isinstance(want, (int, float, str, type(None))) else type(want).__name__)


def quietly(case):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return convert_case(case)


def convert_case(case):
    spec, dspec = case
    o = build(spec)
    args, fallback = (o,), o
    if dspec is not None:
        fallback = build(dspec)
        args = (o, fallback)
    ok_i, as_int = attempt(lambda: int(o))
    ok_f, as_float = attempt(lambda: float(o))
    check('try_int', try_int, (o,), ok_i)
    check('try_float', try_float, (o,), ok_f)
    check('get_int', get_int, args, as_int if ok_i else fallback)
    check('get_float', get_float, args, as_float if ok_f else fallback)
    def prefer(f):
        if f == f and abs(f) != math.inf and int(f) == f:
            return int(f)
        return f
    if isinstance(o, int):
        want = o
    elif isinstance(o, float):
        want = prefer(o)
    elif ok_i:
        want = as_int
    elif ok_f:
        want = prefer(as_float)
    else:
        want = fallback
    check('get_int_or_float', get_int_or_float, args, want)
    if len(args) == 2:      # keyword spelling
        ensure(same(get_int(o, default=fallback), as_int if ok_i else fallback), 'get_int keyword default')
        ensure(same(get_float(o, default=fallback), as_float if ok_f else fallback), 'get_float keyword default')
        ensure(same(get_int_or_float(o, default=fallback), want), 'get_int_or_float keyword default')
    return f"{spec[0]} int={ok_i} float={ok_f}"


@prop.sub(lambda: st.tuples(obj, st.one_of(st.none(), obj)), quick=50000)
def convert(case):
    return quietly(case)


@prop.sub(lambda: st.tuples(st.sampled_from(['0', '1', '9', '12345', '-9', '+1', '1_0', '٣', 'x']), sizes(9000), st.sampled_from(['', '.', '.0', '.5', 'e5', ' ', 'x', '\n', '_']),
                            st.sampled_from(['str', 'bytes', 'mystr', 'int', 'float', 'fraction', 'decimal', 'bytearray']), st.sampled_from(['', ' ', '-', '0', '0x'])), quick=3000)
def scale(case):
    "numbers and digit strings of up to thousands of digits"
    piece, n, tail, form, head = case
    sign = piece[:1] if piece[0] in '+-' else ''
    piece = piece.lstrip('+-')
    text = sign + head + piece * n + tail
    digits = ''.join(c for c in text if c.isascii() and c.isdigit()) or '0'
    if form == 'str':
        spec = ('lit', text)
    elif form == 'mystr':
        spec = ('mystr', text)
    elif form == 'bytes':
        spec = ('lit', text.encode())
    elif form == 'bytearray':
        spec = ('bytearray', text.encode())
    elif form == 'int':
        spec = ('lit', (-1 if sign == '-' else 1) * (int(digits[:40]) << 3 * n))
    elif form == 'float':
        spec = ('float', digits)
    elif form == 'fraction':
        spec = ('fraction', (int(digits[:40]) << n, 1 + n % 3))
    else:
        spec = ('decimal', digits[:3000] + '.5' * (n % 2))
    return quietly((spec, None if n % 2 else ('lit', 'default')))
