"""int_to_words against an independent speller, a reader, and the inflect library."""
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.textgen import TRUTHY
import enum
import big.text as bt

try:
    import inflect
    ENGINE = inflect.engine()
except ImportError:         # pragma: no cover
    ENGINE = None

prop = Prop('T20',
    "integers of every size (uniform by digit count, sparse groups, around every power of ten and every constant) and all four flag "
    "combinations: int_to_words equals an independent English speller, a word reader gives back the number, and for flowery cardinals "
    "below 10**36 it equals inflect. Non-trivial: the number has two or more words.")

KNOWN = {'spaced-illions': (('   decillion', ' decillion'), ('   nonillion', ' nonillion'), ('   octillion', ' octillion'),
                            ('  septillion', ' septillion'), ('  sextillion', ' sextillion')),
         'qindecillion': (('qindecillion', 'quindecillion'),),
         'twelveth': (('twelveth', 'twelfth'),)}
PROBE = {'spaced-illions': ((10**33, False), (10**30, False), (10**27, False), (10**24, False), (10**21, False)),
         'qindecillion': ((10**48, False),), 'twelveth': ((12, True),)}
for fid in KNOWN:
    prop.findings[fid] = lambda fid=fid: any(old in bt.int_to_words(i, ordinal=o) for (old, new), (i, o) in zip(KNOWN[fid], PROBE[fid]))
PERSISTS = [p for fid in KNOWN if prop.findings[fid]() for p in KNOWN[fid]]


def normal(s):
    "undo exactly the recorded deviations"
    for old, new in PERSISTS:
        s = s.replace(old, new)
    return s


ONES = ("zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen").split()
TENS = "- - twenty thirty forty fifty sixty seventy eighty ninety".split()
ILLIONS = ("- thousand million billion trillion quadrillion quintillion sextillion septillion octillion nonillion decillion undecillion duodecillion "
           "tredecillion quattuordecillion quindecillion sexdecillion septendecillion octodecillion novemdecillion vigintillion").split()
ILLIONS[18] = 'septdecillion'       # big's spelling, accepted variant
IRREGULAR = dict(one='first', two='second', three='third', five='fifth', eight='eighth', nine='ninth', twelve='twelfth')


def small(i, flowery):
    "0 < i < 1000"
    h, r = divmod(i, 100)
    w = []
    if h:
        w.append(ONES[h] + ' hundred')
    if r:
        w.append(ONES[r] if r < 20 else TENS[r // 10] + ('-' + ONES[r % 10] if r % 10 else ''))
    return (' and ' if flowery else ' ').join(w)


def spell(i, flowery):
    if i < 0:
        return 'negative ' + spell(-i, flowery)
    if i == 0:
        return 'zero'
    parts = []
    top, rest = divmod(i, 10**63)
    if top:
        parts.append(spell(top, flowery) + ' vigintillion')
    groups = []
    n = rest
    while n:
        n, g = divmod(n, 1000)
        groups.append(g)
    for k in range(len(groups) - 1, 0, -1):
        if groups[k]:
            parts.append(small(groups[k], flowery) + ' ' + ILLIONS[k])
    last = groups[0] if groups else 0
    if not flowery:
        return ' '.join(parts + ([small(last, flowery)] if last else []))
    text = ', '.join(parts)
    if last:
        text += (('' if not parts else ' and ' if last < 100 else ', ') + small(last, flowery))
    return text


def ordinal_of(s):
    cut = max(s.rfind(' '), s.rfind('-')) + 1
    head, w = s[:cut], s[cut:]
    if w in IRREGULAR:
        return head + IRREGULAR[w]
    if w.endswith('y'):
        return head + w[:-1] + 'ieth'
    return head + w + 'th'


def read(s):
    "words back to a number"
    total = 0
    words = s.replace(',', ' ').replace('-', ' ').split()
    sign = 1
    if words[0] == 'negative':
        sign, words = -1, words[1:]
    value, group = 0, 0
    for w in words:
        if w == 'and':
            continue
        if w in ONES:
            group += ONES.index(w)
        elif w in TENS:
            group += 10 * TENS.index(w)
        elif w == 'hundred':
            group *= 100
        elif w == 'vigintillion':
            value = (value + group) * 10**63
            group = 0
        else:
            value += group * 1000**ILLIONS.index(w)
            group = 0
    return sign * (value + group)


def sizes():
    def build(d):
        return st.integers(10**(d - 1), 10**d - 1)
    sparse = st.tuples(st.lists(st.sampled_from([0, 0, 0, 1, 2, 10, 12, 19, 20, 21, 40, 99, 100, 101, 112, 120, 512, 900, 999]), min_size=1, max_size=25)
                       ).map(lambda t: sum(g * 1000**k for k, g in enumerate(t[0])))
    near = st.tuples(st.integers(0, 76), st.integers(-21, 21), st.integers(1, 12)).map(lambda t: t[2] * 10**t[0] + t[1])
    return st.one_of(st.integers(0, 1100), st.integers(1, 75).flatmap(build), sparse, near, st.integers(76, 120).flatmap(build))


FLAG = st.one_of(st.booleans(), st.booleans(), TRUTHY)
cases = lambda: st.tuples(sizes(), st.booleans(), FLAG, FLAG).map(lambda t: (-t[0] if t[1] else t[0], t[2], t[3]))


def small_enum(tier):
    top = 3000 if tier == 'quick' else 150000
    for i in range(top):
        for fl in (True, False):
            for o in (True, False):
                yield (i, fl, o)
    for e in range(2, 78):
        for d in (-1, 0, 1, 11, 12, 20, 99, 100):
            for neg in (1, -1):
                for fl in (True, False):
                    for o in (True, False):
                        yield (neg * (10**e + d), fl, o)


@prop.sub(cases, quick=12000, enum=small_enum)
def words(case):
    i, flowery, ordinal = case
    got = bt.int_to_words(i, flowery=flowery, ordinal=ordinal)
    equal(type(got), str, 'a str')
    if flowery and not ordinal:
        equal(bt.int_to_words(i), got, 'defaults')
    if abs(i) >= 10**75:
        equal(got, str(i), 'outside the range')
        return 'outside'
    cardinal = spell(i, flowery)
    want = ordinal_of(cardinal) if ordinal else cardinal
    equal(normal(got), want, i, dict(flowery=flowery, ordinal=ordinal))
    if not ordinal:
        equal(read(normal(got)), i, 'read back')
        equal(normal(got).replace(',', '').replace(' and ', ' '), spell(i, False), 'flowery only adds commas and "and"')
    return (' ' in want or '-' in want) and {f"{'flowery' if flowery else 'plain'} {'ordinal' if ordinal else 'cardinal'}", f'10**{len(str(abs(i)))-1}'}


if ENGINE:
    @prop.sub(lambda: st.one_of(st.integers(0, 20000), st.integers(1, 36).flatmap(lambda d: st.integers(0, 10**d - 1)),
                                st.tuples(st.integers(2, 35), st.integers(0, 120)).map(lambda t: 10**t[0] + t[1])), quick=3000)
    def same_as_inflect(i):
        equal(normal(bt.int_to_words(i)), ENGINE.number_to_words(i), i)
        return i > 20 and 'inflect'


@prop.sub(lambda: st.sampled_from([1.0, '1', None, 1.5, b'1', [1], 1j]), quick=20)
def not_an_int(o):
    with raises(ValueError, o):
        bt.int_to_words(o)
    return 'refused'


class Grade(enum.IntEnum):
    LOW, DOZEN, MANY, LESS = 0, 12, 1020, -35
    def __str__(self): return 'grade 3'


class Named(int):
    def __str__(self): return '7'
    __repr__ = __str__
    def __format__(self, spec): return '7'
    def __bool__(self): return False


class Flags(enum.IntFlag):
    A, B, C = 1, 4, 128


@prop.sub(lambda: st.tuples(st.one_of(st.booleans(), st.sampled_from([*Grade, *Flags, Flags.A | Flags.C]), st.integers(-10**9, 10**9).map(Named), st.integers(0, 130).map(Named), st.integers(-10**74, 10**74).map(Named)),
                            st.booleans(), st.booleans()), quick=600)
def kinds_of_int(case):
    "booleans, IntEnum members and instances of other subclasses of int are integers"
    i, flowery, ordinal = case
    equal(bt.int_to_words(i, flowery=flowery, ordinal=ordinal), bt.int_to_words(int(i), flowery=flowery, ordinal=ordinal), type(i), int(i))
    return type(i).__name__


@prop.sub(lambda: st.lists(cases(), min_size=2, max_size=6), quick=1500)
def distinct(case):
    seen = {}
    for i, fl, o in case:
        w = bt.int_to_words(i, fl, o)
        ensure(seen.setdefault((w, bool(o)), i) == i, 'two numbers share a name', i, seen[(w, bool(o))], w)
    return len(seen) > 1 and 'distinct'
