"""Log against a list of the events that were logged."""
import builtins
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises
from pbt.sizes import sizes
from pbt.textgen import TRUTHY
from big.log import Log, default_clock
import big.all

prop = Prop('L01',
    "histories of log, enter, exit, reset and clock steps (from 0 ns to years, biased to the boundaries of nanosecond, second and minute), "
    "with print options: iteration must yield exactly the modelled (start, elapsed, event, depth), print exactly those events with times "
    "that agree digit for digit. scale: thousands of events and levels, several logs. Non-trivial: at least two events beyond 'log start'.",
    ["the clock doesn't run backwards (a monotonic clock is documented)", "exit without enter: any exception, nothing logged"])

STEPS = [0, 0, 1, 9, 10, 999, 1000, 999_999, 1_000_000, 12_000_000, 99_999_999, 100_000_000, 999_999_999, 1_000_000_000, 1_000_000_001,
         1_500_000_000, 9_999_999_999, 10**10, 59 * 10**9, 60 * 10**9, 61 * 10**9 + 1, 99 * 10**9, 100 * 10**9 + 7, 10**15 + 123456789, 2**63, 10**20]
step = st.one_of(st.sampled_from(STEPS), st.integers(0, 3 * 10**9), st.integers(0, 10**13),
                 # next to a whole second, at every magnitude
                 st.builds(lambda k, m, d: max(0, m * 10**k + d), st.integers(0, 21), st.integers(1, 99), st.integers(-2, 2)))
text = st.one_of(st.sampled_from(['event', 'log start', 'a', '', ' x ', 'log end', 'sub start', 'sub end', 'é€', 'x' * 60, '{}', '%s', 'a  b']),
                 st.text('ab {}é%-', max_size=12))
op = st.one_of(st.tuples(st.just('log'), text), st.tuples(st.just('log'), text), st.tuples(st.just('enter'), text), st.tuples(st.sampled_from(['descend', 'ascend']), st.integers(2, 70)), st.just(('exit',)), st.just(('exit',)),
               st.tuples(st.just('tick'), step), st.tuples(st.just('tick'), step), st.tuples(st.just('tick'), step), st.sampled_from([('reset',), ('iter',), ('print',), ('live', 0), ('live', 1), ('live', 3)]))
options = st.fixed_dictionaries({}, optional=dict(title=st.sampled_from([None, '', 'T', '[log]']), headings=st.booleans(), indent=st.integers(0, 5),
                                                  seconds_width=st.integers(1, 12), fractional_width=st.integers(1, 12), via=st.sampled_from(['builtin', 'keyword', 'false'])))


class False_:
    "a function, and false"
    def __init__(self, fn):
        self.fn = fn
    def __call__(self, *args, **kw):
        return self.fn(*args, **kw)
    def __len__(self):
        return 0


def printed(log, opts):
    opts = dict(opts)
    via = opts.pop('via', 'keyword')
    lines = []
    def capture(*args, sep=' ', end='\n', **kw):
        lines.append(sep.join(str(a) for a in args) + end)
    if via == 'builtin':
        real, builtins.print = builtins.print, capture
        try:
            log.print(**opts)
        finally:
            builtins.print = real
    else:
        log.print(print=False_(capture) if via == 'false' else capture, **opts)
    s = ''.join(lines)
    ensure(s.endswith('\n'), 'printed lines', s)
    return s[:-1].split('\n')


def clock_text(ns, sw, fw):
    "the time in seconds, at least sw digits, then fw (at most nine known) digits of the fraction"
    digits = str(ns).rjust(10, '0')
    return digits[:-9].rjust(sw, '0'), digits[-9:][:fw]


def check_print(log, want, opts):
    lines = printed(log, opts)
    title = opts.get('title', '[event log]')
    indent = ' ' * opts.get('indent', 2)
    sw, fw = opts.get('seconds_width', 2), opts.get('fractional_width', 9)
    if title:
        equal(lines.pop(0), title, 'title', opts)
    if opts.get('headings', True):
        head, dashes = lines.pop(0), lines.pop(0)
        equal(head.split(), ['start', 'elapsed', 'event'], 'headings', opts)
        fields = dashes.split()
        ensure(len(fields) == 3 and set(''.join(fields)) == {'-'}, 'headings', opts, dashes)
        w = sw + 1 + fw
        if w >= 7:      # 'elapsed' fits
            equal((head.find('start'), head.find('elapsed'), head.find('event')), (len(indent), len(indent) + w + 2, len(indent) + 2 * w + 4), 'heading columns', opts)
        equal([len(f) for f in fields[:2]], [w, w], 'heading rules', opts)
    equal(len(lines), len(want), 'one line per event', opts, lines)
    for line, (start, elapsed, event, depth) in zip(lines, want):
        out = indent
        for t in (start, elapsed):
            s, f = clock_text(t, sw, fw)
            out += f'{s}.{f}  '
        out += indent * depth + event
        if fw <= 9:
            equal(line, out, 'line', opts)
        else:
            # more digits than a nanosecond clock has: padding is not specified, the digits are
            fields = line[len(indent):].split(None, 2)
            for got, t in zip(fields, (start, elapsed)):
                s, f = clock_text(t, sw, fw)
                ensure(got.startswith(f'{s}.{f}') and not got[len(s) + 1 + len(f):].strip('0 '), 'line', opts, line, out)
            ensure(line.endswith(indent * depth + event), 'line', opts, line, out)


@prop.sub(lambda: st.tuples(st.sampled_from([0, 0, 1, 10**9, 123456789012, 2**62, -5]), st.lists(op, max_size=25), options, st.booleans()), quick=9000,
          examples=[(0, [('tick', 10**9), ('log', 'a')], {}, False), (0, [('enter', 'x'), ('enter', 'y'), ('exit',), ('tick', 1500000000), ('exit',)], {'fractional_width': 3}, True)])
def history(case):
    origin, ops, opts, late = case
    now = [origin]
    clock = lambda: now[0]
    log = Log(clock=False_(clock) if origin == 1 else clock)
    if late:
        now[0] += 777
        log.reset()
    base = now[0]
    events, stack, most = [(0, 'log start', 0)], [], 1
    tags = set()

    def expect():
        out = []
        for i, (t, e, d) in enumerate(events):
            nxt = events[i + 1][0] if i + 1 < len(events) else t
            out.append((t, nxt - t, e, d))
        return out

    for o in ops:
        k = o[0]
        if k == 'tick':
            now[0] += o[1]
        elif k == 'log':
            ensure(log(o[1]) is None)
            events.append((now[0] - base, o[1], len(stack)))
        elif k == 'enter':
            log.enter(o[1])
            events.append((now[0] - base, o[1] + ' start', len(stack)))
            stack.append(o[1])
            tags.add('nested' if len(stack) > 1 else 'enter')
        elif k == 'descend':
            for _ in range(o[1]):
                log.enter('sub')
                events.append((now[0] - base, 'sub start', len(stack)))
                stack.append('sub')
            tags.add('deep')
        elif k == 'ascend':
            for _ in range(min(o[1], len(stack))):
                log.exit()
                s = stack.pop()
                events.append((now[0] - base, s + ' end', len(stack)))
        elif k == 'exit':
            if not stack:
                try:
                    log.exit()
                except Exception:
                    pass
                else:
                    ensure(False, 'exit without enter was accepted')
            else:
                log.exit()
                s = stack.pop()
                events.append((now[0] - base, s + ' end', len(stack)))
                tags.add('exit')
        elif k == 'reset':
            log.reset()
            base = now[0]
            events, stack = [(0, 'log start', 0)], []
            tags.add('reset')
        elif k == 'iter':
            equal(list(log), expect(), 'iteration')
        elif k == 'live':
            # what is logged while iterating is not part of this iteration
            want, got = expect(), []
            for n, e in enumerate(log):
                got.append(e)
                ensure(len(got) <= len(want), 'iteration sees events logged later', got, want)
                if n == o[1]:
                    log('meanwhile')
                    events.append((now[0] - base, 'meanwhile', len(stack)))
                    now[0] += 5
            equal(got, want, 'iteration while logging')
            tags.add('live')
        elif k == 'print':
            check_print(log, expect(), opts)
        most = max(most, len(events))
    equal(list(log), expect(), 'iteration')
    equal(list(log), expect(), 'iterating again')
    check_print(log, expect(), opts)
    check_print(log, expect(), {})
    equal(list(log), expect(), 'iteration after print')
    if any(e[0] >= 10**9 for e in events):
        tags.add('seconds')
    return most > 2 and (tags or True)


@prop.sub(lambda: st.tuples(st.lists(text, max_size=6), st.booleans()), quick=200)
def real_clock(case):
    "with the default clock: nanosecond ints from 0, never backwards, bounded by readings taken around the log"
    names, keyword = case
    a = default_clock()
    log = Log(clock=None) if keyword else Log()
    for n in names:
        log(n)
    b = default_clock()
    ensure(type(a) is int and type(b) is int and a <= b)
    got = list(log)
    equal([g[2] for g in got], ['log start'] + names)
    t = 0
    for start, elapsed, _, depth in got:
        ensure(type(start) is int and type(elapsed) is int and start == t and elapsed >= 0 and depth == 0, got)
        t = start + elapsed
    ensure(t <= b - a, got, a, b)
    return bool(names)


@prop.sub(lambda: st.tuples(st.one_of(sizes(5000), sizes(5000), sizes(24000)), st.integers(1, 3), st.sampled_from(['flat', 'deep', 'saw', 'mixed']), sizes(3 * 10**9), sizes(3000),
                            st.fixed_dictionaries({}, optional=dict(indent=st.integers(0, 12), seconds_width=sizes(40), headings=TRUTHY, title=st.sampled_from(['', 't', 'x' * 300]),
                                                                    fractional_width=st.integers(1, 9)))), quick=250, thorough=3000)
def scale(case):
    "thousands of events, thousands of levels, several logs at once"
    n, logs, shape, step, width, opts = case
    if shape == 'deep':
        n = min(n, 1500)
    now = [5]
    made = [(Log(clock=lambda: now[0]), [(0, 'log start', 0)], []) for _ in range(logs)]
    for i in range(n):
        now[0] += step * (i % 3)
        log, events, stack = made[i * 7 % logs if i % 11 else 0]
        kind = {'flat': 'log', 'deep': 'enter' if i < n // 2 else 'exit', 'saw': ('enter', 'log', 'exit')[i // logs % 3],
                'mixed': ('enter', 'log', 'enter', 'exit', 'log')[i * i % 5]}[shape]
        t = now[0] - 5
        if kind == 'exit' and not stack:
            kind = 'log'
        if kind == 'log':
            e = str(i) if i % 97 else 'e' * width
            log(e); events.append((t, e, len(stack)))
        elif kind == 'enter':
            log.enter(f's{i}'); events.append((t, f's{i} start', len(stack))); stack.append(f's{i}')
        else:
            log.exit(); x = stack.pop(); events.append((t, x + ' end', len(stack)))
    for log, events, stack in made:
        want = [(t, (events[k + 1][0] if k + 1 < len(events) else t) - t, e, d) for k, (t, e, d) in enumerate(events)]
        got = list(log)
        ensure(len(got) == len(want), 'iteration', len(got), 'events, expected', len(want))
        for g, w in zip(got, want):
            equal(g, w, 'event')
        if len(want) * max(d for _, _, _, d in want) < 300000:
            check_print(log, want, opts)
        log.reset()
        equal(list(log), [(0, 0, 'log start', 0)], 'after reset')
    return n > 2 and shape


replayed = st.one_of(st.tuples(st.just('log'), text), st.tuples(st.just('log'), sizes(300).map(lambda n: 'x' * n)), st.tuples(st.just('enter'), text), st.just(('exit',)),
                     st.tuples(st.just('tick'), step))


@prop.sub(lambda: st.tuples(st.lists(replayed, max_size=8), st.lists(replayed, max_size=8), options, st.integers(1, 3)), quick=3000)
def reset_is_new(case):
    "a log that has been reset can't be told from a new one, however it is read"
    before, after, opts, times = case
    now = [5]
    used = Log(clock=lambda: now[0])
    def play(log, ops):
        depth = 0
        for o in ops:
            if o[0] == 'tick':
                now[0] += o[1]
            elif o[0] == 'log':
                log(o[1])
            elif o[0] == 'enter':
                log.enter(o[1])
                depth += 1
            elif depth:
                log.exit()
                depth -= 1
    for i in range(times):
        play(used, before)
        used.reset()
    now[0] = 10**9
    used.reset()
    play(used, after)
    now[0] = 10**9
    new = Log(clock=lambda: now[0])
    play(new, after)
    equal(list(used), list(new), 'events')
    if opts.get('via') != 'builtin':
        equal(printed(used, opts), printed(new, opts), 'printed', opts)
    if not any(o[0] == 'enter' for o in after):
        with raises(Exception, 'exit of a reset log without enter'):
            used.exit()
    return bool(before) and bool(after) and 'reset'
