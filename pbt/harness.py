"""
Shared property-based testing harness.

A property is a Prop with named subchecks.  Each subcheck has
  * a Hypothesis strategy producing *plain literal* cases (repr/ast.literal_eval round trip), and/or
    a bounded-exhaustive enumerator of such cases,
  * check(case): raises on violation, returns a truthy label when the case is non-trivial.

All random choice is Hypothesis's; every shard is seeded from VERIF_SEED, so a run is a pure
function of (code, seed, tier).  Failures are shrunk by Hypothesis and written as a literal
replay file which `./check ID --replay FILE` re-executes without Hypothesis.
"""
import ast, collections, concurrent.futures, hashlib, itertools, json, multiprocessing
import os, shutil, signal, tempfile, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 20.0           # seconds of CPU for one case before it counts as non-terminating
SHRINK_BUDGET = {'quick': 15.0, 'thorough': 60.0}
WALL_BUDGET = {'quick': 200.0, 'thorough': 800.0}


class Violation(AssertionError):
    pass


class CaseTimeout(BaseException):
    pass


def ensure(cond, *msg):
    if not cond:
        raise Violation(' '.join(m if isinstance(m, str) else repr(m) for m in msg))


def equal(got, want, *msg):
    if not (type(got) is type(want) and got == want):
        raise Violation(' '.join(m if isinstance(m, str) else repr(m) for m in msg)
                        + f"\n   got:  {got!r}\n   want: {want!r}")


class raises:
    "with raises(ValueError, 'what'): ..."
    def __init__(self, exc, *msg):
        self.exc = exc
        self.msg = msg
    def __enter__(self):
        return self
    def __exit__(self, et, ev, tb):
        if et is None:
            raise Violation(f"expected {self.exc}, nothing raised: " + ' '.join(map(repr, self.msg)))
        if issubclass(et, self.exc):
            self.value = ev
            return True
        return False


class Sub:
    def __init__(self, name, check, strategy, quick, thorough, enum, examples, shards):
        self.name, self.check, self.strategy = name, check, strategy
        self.quick, self.thorough, self.enum, self.examples = quick, thorough, enum, list(examples)
        self.shards = shards


class Prop:
    def __init__(self, id, rule, assumptions=()):
        self.id, self.rule, self.assumptions = id, rule, list(assumptions)
        self.subs = collections.OrderedDict()
        self.known = {}         # finding id -> predicate(subname, case): cases to skip
        self.findings = {}      # finding id -> callable, true while the finding persists

    def sub(self, strategy=None, *, quick=2000, thorough=None, enum=None, examples=(), name=None, shards=None):
        """strategy: a Hypothesis strategy (or zero-arg callable returning one).
        enum: callable(tier) -> iterable of cases (bounded exhaustive)."""
        def deco(fn):
            n = name or fn.__name__
            assert n not in self.subs
            self.subs[n] = Sub(n, fn, strategy, quick, thorough if thorough is not None else quick * 30,
                               enum, examples, shards)
            return fn
        return deco


# ---------------------------------------------------------------- literal harvesting
def harvest():
    """ints and short strings written in the current source of big: extra fuzzing dictionary."""
    ints, strs = set(), set()
    base = '/repo/big'
    for f in sorted(os.listdir(base)):
        if not f.endswith('.py'):
            continue
        try:
            tree = ast.parse(open(os.path.join(base, f), encoding='utf-8').read())
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and abs(v) < 10**90:
                    ints.update((v, v - 1, v + 1, -v))
                elif isinstance(v, str) and 0 < len(v) <= 8:
                    strs.add(v)
    return sorted(ints), sorted(strs)


# ---------------------------------------------------------------- worker
def _case_key(name, case):
    return hashlib.blake2b((name + '\0' + repr(case)).encode('utf-8', 'surrogatepass'), digest_size=8).digest()


def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(check, case):
    "run one case under a CPU limit; a case that burns CASE_CPU_LIMIT cpu seconds does not terminate"
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        return check(case)
    except CaseTimeout:
        raise Violation(f"no answer after {CASE_CPU_LIMIT} cpu seconds") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Tally:
    def __init__(self, prop, sub, deadline, shrink_budget):
        self.prop, self.sub = prop, sub
        self.deadline, self.shrink_budget = deadline, shrink_budget
        self.evaluations = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.skipped_known = 0
        self.fail = None
        self.fail_err = None
        self.fail_at = None
        self.history = collections.deque(maxlen=30)
        self.truncated = False

    def one(self, case):
        if self.fail_at is not None and time.monotonic() - self.fail_at > self.shrink_budget:
            return
        if self.fail_at is None and time.monotonic() > self.deadline:
            self.truncated = True
            return
        for fid, pred in self.prop.known.items():
            if pred(self.sub.name, case):
                self.skipped_known += 1
                return
        try:
            label = guarded(self.sub.check, case)
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            r = repr(case)
            if self.fail is None or (len(r), r) < (len(repr(self.fail)), repr(self.fail)):
                self.fail = case
                self.fail_err = ''.join(traceback.format_exception(type(e), e, e.__traceback__, limit=-6))
            if self.fail_at is None:
                self.fail_at = time.monotonic()
                self.fail_history = list(self.history)
            raise
        self.history.append(case)
        if self.fail_at is not None:
            return
        self.evaluations += 1
        if label:
            k = _case_key(self.sub.name, case)
            if k not in self.keys:
                self.keys.add(k)
                n = len(self.keys)
                if n in (3, 40, 400):
                    self.samples.append(case)
        if isinstance(label, str):
            self.labels[label] += 1
        elif isinstance(label, (set, frozenset, list, tuple)):
            self.labels.update(label)

    def result(self):
        return dict(sub=self.sub.name, evaluations=self.evaluations, keys=self.keys, labels=dict(self.labels),
                    samples=self.samples, skipped=self.skipped_known, fail=None if self.fail_err is None else
                    dict(case=self.fail, err=self.fail_err, history=self.fail_history),
                    truncated=self.truncated)


_PROP = None
_CFG = None


def _silence():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def work(task):
    """task: (subname, kind, shard, nshards, n)"""
    subname, kind, shard, nshards, n = task
    cfg = _CFG
    prop, sub = _PROP, _PROP.subs[task[0]]
    tally = Tally(prop, sub, cfg['deadline'], cfg['shrink'])
    try:
        if kind == 'examples':
            for case in sub.examples:
                tally.one(case)
        elif kind == 'enum':
            for i, case in enumerate(sub.enum(cfg['tier'])):
                if i % nshards == shard:
                    tally.one(case)
                    if tally.truncated:
                        break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase
            strat = sub.strategy() if callable(sub.strategy) else sub.strategy
            seed = int.from_bytes(hashlib.blake2b(f"{cfg['seed']}/{prop.id}/{sub.name}/{shard}".encode(),
                                                  digest_size=8).digest(), 'big')
            phases = [Phase.generate, Phase.shrink]
            @hypothesis.seed(seed)
            @hypothesis.settings(max_examples=n, database=None, deadline=None, phases=phases,
                                 report_multiple_bugs=False, print_blob=False,
                                 suppress_health_check=list(HealthCheck))
            @hypothesis.given(strat)
            def test(case):
                tally.one(case)
            test()
    except Exception as e:
        if tally.fail_err is None:
            return dict(error=f"{prop.id}/{subname}: harness error\n{traceback.format_exc()}")
    return tally.result()


def run(prop, args):
    global _PROP, _CFG
    import hypothesis, logging
    t0 = time.monotonic()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    _PROP = prop
    _CFG = dict(tier=tier, seed=args.seed, shrink=SHRINK_BUDGET[tier], deadline=t0 + WALL_BUDGET[tier])
    jobs = args.jobs or min(8, os.cpu_count() or 4)
    tasks = []
    for sub in prop.subs.values():
        if args.sub and sub.name != args.sub:
            continue
        if sub.examples:
            tasks.append((sub.name, 'examples', 0, 1, len(sub.examples)))
        if sub.enum:
            for s in range(jobs):
                tasks.append((sub.name, 'enum', s, jobs, 0))
        if sub.strategy is not None:
            n = int((sub.quick if tier == 'quick' else sub.thorough) * args.scale)
            shards = sub.shards or max(1, min(jobs if tier == 'quick' else jobs * 4, n // 60))
            for s in range(shards):
                tasks.append((sub.name, 'gen', s, shards, max(1, n // shards)))
    # interleave so that every subcheck starts early
    order = {'examples': 0, 'enum': 1, 'gen': 1}
    tasks.sort(key=lambda t: (order[t[1]], t[2]))
    ctx = multiprocessing.get_context('fork')
    scratch_root = make_scratch()
    results, failure, error = [], None, None
    pids = []
    with concurrent.futures.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_silence) as ex:
        futs = [ex.submit(work, t) for t in tasks]
        for f in concurrent.futures.as_completed(futs):
            try:
                r = f.result()
            except Exception as e:
                error = error or f"worker died: {e!r}"
                break
            if 'error' in r:
                error = error or r['error']
                continue
            results.append(r)
            if r['fail']:
                failure = r
                break
        if failure or error:
            for p in list(ex._processes.values()):
                try:
                    p.kill()
                except Exception:
                    pass
            ex.shutdown(wait=False, cancel_futures=True)
    wall = time.monotonic() - t0
    for _ in range(5):
        shutil.rmtree(scratch_root, ignore_errors=True)
        if not os.path.exists(scratch_root):
            break
        time.sleep(0.2)
    evidence(prop, tier, args, results, failure, wall)
    rc = 0
    if failure:
        path = write_replay(prop, failure)
        print(failure['fail']['err'].rstrip())
        print(f"case: {failure['fail']['case']!r}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    if error:
        print(error)
        return 2
    listed = known_findings()
    for fid, persists in prop.findings.items():
        if (prop.id, fid) in listed:
            if persists():
                print(f"KNOWN-FINDING: property={prop.id} {fid} {listed[prop.id, fid]}")
        elif persists():
            print(f"finding {fid} is not listed in known_findings.txt")
            print(f"VIOLATION property={prop.id} replay=known_findings.txt")
            return 1
    ev = sum(r['evaluations'] for r in results)
    print(f"{prop.id}: held on {ev} cases ({wall:.1f}s)")
    return rc


def known_findings():
    out = {}
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        if line.startswith('known: '):
            _, p, i, text = line.split(' ', 3)
            out[p.partition('=')[2], i.partition('=')[2]] = text.strip()
    return out


def write_replay(prop, r):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop.id, sub=r['sub'], case=repr(r['fail']['case']),
                history=[repr(c) for c in r['fail']['history']], error=r['fail']['err'])
    h = hashlib.blake2b(body['case'].encode('utf-8', 'surrogatepass'), digest_size=4).hexdigest()
    path = os.path.join(d, f"{prop.id}-{r['sub']}-{h}.json")
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


_scratch = None


def make_scratch():
    global _scratch
    _scratch = os.path.realpath(tempfile.mkdtemp(prefix='big-pbt-'))
    return _scratch


def scratch():
    "this process's private scratch directory; the run removes them all at the end"
    d = os.path.join(_scratch, str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def replay(prop, path):
    root = make_scratch()
    try:
        return _replay(prop, path)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _replay(prop, path):
    body = json.load(open(path))
    sub = prop.subs[body['sub']]
    cases = [[ast.literal_eval(body['case'])], [ast.literal_eval(c) for c in body['history'] + [body['case']]]]
    for seq in cases:
        try:
            for c in seq:
                guarded(sub.check, c)
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print(f"case: {body['case']}")
            print(f"VIOLATION property={prop.id} replay={path}")
            return 1
    print(f"{prop.id}: replay passes")
    return 0


def evidence(prop, tier, args, results, failure, wall):
    keys = set()
    labels = collections.Counter()
    per = collections.OrderedDict()
    samples = []
    seen = set()
    for r in results:
        keys |= {r['sub'].encode() + k for k in r['keys']}
        labels.update({f"{r['sub']}: {k}": v for k, v in r['labels'].items()})
        d = per.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0))
        d['evaluations'] += r['evaluations']
        if (r['sub'] not in seen or len(samples) < 12) and r['samples']:
            for s in r['samples'][:2]:
                samples.append({'sub': r['sub'], 'case': repr(s)[:1500]})
            seen.add(r['sub'])
    for name in per:
        per[name]['distinct_nontrivial'] = len({k for k in keys if k.startswith(name.encode()) and
                                                len(k) == len(name.encode()) + 8})
    cov = dict(evaluations=sum(r['evaluations'] for r in results), distinct_nontrivial=len(keys),
               rule=prop.rule, samples=samples[:40], per_subcheck=per, classes=dict(sorted(labels.items())),
               excluded_known=sum(r['skipped'] for r in results),
               shards_cut_by_wall_budget=sum(1 for r in results if r['truncated']))
    if failure:
        cov['failing_case'] = repr(failure['fail']['case'])[:2000]
    out = dict(property=prop.id, tier=tier, seed=args.seed, level='exploration', coverage=cov,
               assumptions=prop.assumptions, wall_s=round(wall, 2), violations=1 if failure else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(out, f, indent=1)
