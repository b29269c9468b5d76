"""Filesystem helpers against an in-memory tree, confined to a scratch directory."""
import os, shutil, stat, tempfile, time, pathlib
from hypothesis import strategies as st
from pbt.harness import Prop, ensure, equal, raises, Violation, scratch
from pbt.sizes import sizes
from big.file import safe_mkdir, safe_unlink, touch, file_size, file_mtime, file_mtime_ns, pushd

prop = Prop('F02',
    "histories of safe_mkdir/safe_unlink/touch/write/stat/pushd (nested, reused, raising) over a small set of relative paths in a scratch "
    "tree that also contains symlinks; after each step the whole tree is compared with a model. Every path is relative to the scratch "
    "directory. large_files: sparse files of up to terabytes; deep: hundreds of levels of directories and of pushd. Non-trivial: some helper met an existing object at its path.",
    ["runs as the invoking user; permission errors are not exercised"])

NAMES = ['a', 'b', 'a/b', 'a/c', 'a/b/c', 'b/a', 'd', 'd/e/f', 'é x', 'a/l']
OLD = 1_000_000_000_123_456_789


def build(tree):
    """tree: list of (kind, path, content)"""
    for kind, path, content in tree:
        try:
            if kind == 'dir':
                os.makedirs(path, exist_ok=True)
            elif kind == 'file':
                os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
                with open(path, 'xb') as f:
                    f.write(content)
                os.utime(path, ns=(OLD, OLD))
            else:
                os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
                os.symlink(os.path.abspath(content), path)
        except OSError:         # blocked by an earlier object, or a symlink loop
            pass


def snapshot():
    out = {}
    for root, dirs, files in os.walk('.', followlinks=False):
        for n in dirs + files:
            p = os.path.relpath(os.path.join(root, n), '.')
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                out[p] = ('link', os.readlink(p), 0)
            elif stat.S_ISDIR(s.st_mode):
                out[p] = ('dir', None, 0)
            else:
                with open(p, 'rb') as f:
                    out[p] = ('file', f.read(), s.st_mtime_ns)
    return out


def as_path(p, kind):
    return {'str': p, 'bytes': os.fsencode(p), 'path': pathlib.Path(p), 'abs': os.path.abspath(p), 'slash': p + '/'}[kind]


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


BOOMS = (Boom, Quit, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, MemoryError)


def step(op, label):
    kind, name, pk = op[0], op[1], op[2]
    before = snapshot()
    path = as_path(name, 'str' if pk == 'slash' and kind != 'mkdir' else pk)
    existed = os.path.lexists(name)
    # where the object itself lives, should a parent be a symlink
    real = os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(name) or '.'), os.path.basename(name)), os.path.realpath('.'))
    if existed:
        label.add(kind + ' on existing')
    if kind == 'mkdir':
        isfile = os.path.isfile(name)
        isdir = os.path.isdir(name)
        if pk == 'slash' and isfile:
            path = name
        # a plain file (or a dangling link) among the parents is documented to fail
        parts = name.split('/')
        blocked = any(os.path.lexists('/'.join(parts[:i])) and not os.path.isdir('/'.join(parts[:i])) for i in range(1, len(parts)))
        dangling = os.path.lexists(name) and not os.path.exists(name)
        try:
            r = safe_mkdir(path)
        except OSError as e:
            if not (blocked or dangling):
                raise Violation(f'safe_mkdir({path!r}) failed: {e!r}') from e
            equal(snapshot(), before, 'failed safe_mkdir changed something')
            return
        ensure(r is None and os.path.isdir(name), 'no directory after safe_mkdir')
        after = snapshot()
        for p, v in before.items():
            if p == real and isfile:
                continue
            equal(after.get(p), v, 'safe_mkdir changed', p)
        if isfile:
            ensure(after[real] == ('dir', None, 0), 'file not replaced by a directory')
            equal(os.listdir(name), [], 'new directory not empty')
        new = set(after) - set(before)
        prefixes = {'/'.join(parts[:i]) for i in range(1, len(parts) + 1)}
        if not any(os.path.islink('/'.join(parts[:i])) for i in range(1, len(parts))):
            ensure(new <= prefixes, 'safe_mkdir created', sorted(new))
        ensure(all(after[p][0] == 'dir' for p in new), 'safe_mkdir created a non-directory')
    elif kind == 'unlink':
        isfile = os.path.isfile(name)
        ensure(safe_unlink(path) is None)
        after = snapshot()
        if isfile:
            ensure(not os.path.lexists(name), 'file still there')
            equal([p for p in before if p not in after], [real], 'safe_unlink removed')
        else:
            equal(after, before, 'safe_unlink of a non-file changed something')
        equal({k: v for k, v in after.items()}, {k: v for k, v in before.items() if k in after}, 'safe_unlink changed others')
    elif kind == 'touch':
        parent = os.path.dirname(name) or '.'
        dangling = os.path.lexists(name) and not os.path.exists(name)
        t0 = time.time_ns()
        if not os.path.isdir(parent) or dangling:
            try:
                touch(path)
            except OSError as e:
                equal(snapshot(), before, 'failed touch changed something')
                # what a dangling link points to can be created where its directory exists
                target = os.path.realpath(name)
                if os.path.isdir(parent) and not os.path.lexists(target) and os.path.isdir(os.path.dirname(target)):
                    raise Violation(f'touch({path!r}) failed: {e!r}') from e
                return
            ensure(os.path.isfile(name), 'touch did not create')
            m = os.stat(name).st_mtime_ns
            ensure(t0 - 50_000_000 <= m <= time.time_ns() + 50_000_000, 'mtime not current', m - t0)
            after = snapshot()
            equal({p: v for p, v in after.items() if p in before}, before, 'touch changed others')
            equal([v[:2] for p, v in after.items() if p not in before], [('file', b'')], 'touch created')
            label.add('touch a dangling link')
            return
        if op[3] is not None and existed:
            os.utime(name, ns=(op[3], op[3]))
            before = snapshot()
        size = os.path.getsize(name) if existed else 0
        ensure(touch(path) is None)
        t1 = time.time_ns()
        ensure(os.path.exists(name), 'touch did not create')
        m = os.stat(name).st_mtime_ns
        ensure(t0 - 50_000_000 <= m <= t1 + 50_000_000, 'mtime not current', m - t0)
        after = snapshot()
        target = os.path.relpath(os.path.realpath(name), os.path.realpath('.'))
        for p, v in after.items():
            if p == target:
                if not existed:
                    equal(v[:2], ('file', b''), 'touch created')
                else:
                    equal(v[:2], before[p][:2], 'touch changed contents of', p)
            else:
                equal(v, before.get(p), 'touch changed', p)
        ensure(set(before) <= set(after) and len(after) - len(before) == (0 if existed else 1), 'touch created or removed files')
    elif kind == 'stat':
        if os.path.exists(name):
            ns = op[3]
            if ns is not None:
                os.utime(name, ns=(ns, ns))
            s = os.stat(name)
            equal(file_size(path), s.st_size, 'file_size')
            equal(file_mtime(path), s.st_mtime, 'file_mtime')
            ensure(isinstance(file_mtime(path), float))
            equal(file_mtime_ns(path), s.st_mtime_ns, 'file_mtime_ns')
        else:
            for fn in (file_size, file_mtime, file_mtime_ns):
                with raises(OSError, 'stat of missing'):
                    fn(path)
            equal(snapshot(), before)
    elif kind == 'write':
        if os.path.isdir(os.path.dirname(name) or '.') and not os.path.isdir(name) and not os.path.islink(name):
            with open(name, 'wb') as f:
                f.write(b'x' * (op[3] or 0) if op[3] is None or 0 <= op[3] < 1000 else b'y')
            os.utime(name, ns=(OLD, OLD))


def run_in_scratch(fn):
    d = os.path.realpath(tempfile.mkdtemp(prefix='f02-', dir=scratch()))
    old = os.getcwd()
    try:
        os.chdir(d)
        return fn(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


names = st.sampled_from(NAMES)
tree = st.lists(st.one_of(st.tuples(st.just('dir'), names, st.just(None)),
                          st.tuples(st.just('file'), names, st.binary(max_size=5)),
                          st.tuples(st.just('link'), names, names)), max_size=6)
ops = st.lists(st.tuples(st.sampled_from(['mkdir', 'mkdir', 'unlink', 'touch', 'touch', 'stat', 'write']), names,
                         st.sampled_from(['str', 'str', 'bytes', 'path', 'abs', 'slash']),
                         st.one_of(st.none(), st.integers(0, 900), st.integers(0, 2**62).map(lambda n: n % (4 * 10**18)), st.integers(-4 * 10**18, 4 * 10**18), st.sampled_from([-1, -10**9, 10**9, 4 * 10**18]))),
               min_size=1, max_size=10)


@prop.sub(lambda: st.tuples(tree, ops), quick=8000)
def helpers(case):
    def go(d):
        build(case[0])
        label = set()
        for op in case[1]:
            step(op, label)
            ensure(os.getcwd() == d, 'working directory changed')
        return label
    return run_in_scratch(go)


# pushd: programs are nested lists of actions
def programs():
    target = st.sampled_from(['a', 'a/b', 'c', '.', '..', 'ABS', 'a/../c', 'missing', 'file', 'link', 'link/..', 'link/../b', 'a/loop/../c', 'broken', 'ABS/link/..'])
    leaf = st.one_of(st.tuples(st.just('chdir'), st.sampled_from(['ABS', 'ABS/a', 'ABS/c', 'ABS/link'])), st.tuples(st.just('raise'), st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6])), st.just(('check',)))
    body = st.recursive(st.lists(leaf, max_size=2), lambda inner: st.lists(st.one_of(
        leaf, st.tuples(st.just('with'), target, st.sampled_from(['str', 'path', 'bytes']), inner),
        st.tuples(st.just('shared'), st.integers(0, 1), inner)), max_size=3), max_leaves=10)
    return st.tuples(st.tuples(target, target), body)


@prop.sub(programs, quick=8000)
def nesting(case):
    shared_targets, body = case
    def go(root):
        d = os.path.join(root, 'work')
        for sub in ('work/a/b', 'work/c'):
            os.makedirs(os.path.join(root, sub))
        open(os.path.join(d, 'file'), 'w').close()
        os.symlink('a/b', os.path.join(d, 'link'))
        os.symlink('..', os.path.join(d, 'a/loop'))
        os.symlink('nowhere', os.path.join(d, 'broken'))
        os.chdir(d)
        def resolve(t):
            return t.replace('ABS', d)
        shared = [pushd(resolve(t)) for t in shared_targets]
        depth = [0]
        def run(prog, level):
            for a in prog:
                if a[0] == 'chdir':
                    os.chdir(a[1].replace('ABS', d))
                elif a[0] == 'raise':
                    raise BOOMS[a[1]]()
                elif a[0] in ('with', 'shared'):
                    here = os.getcwd()
                    t = resolve(a[1] if a[0] == 'with' else shared_targets[a[1]])
                    want = os.path.realpath(os.path.join(here, t))
                    inside_root = want.startswith(os.path.realpath(root))
                    if not inside_root:
                        continue
                    cm = pushd({'str': t, 'path': pathlib.Path(t), 'bytes': os.fsencode(t)}[a[2]]) if a[0] == 'with' else shared[a[1]]
                    if not os.path.isdir(os.path.join(here, t)):
                        with raises(OSError, 'pushd to a non-directory'):
                            with cm:
                                raise Violation('entered a missing directory')
                        equal(os.getcwd(), here, 'failed pushd moved')
                        continue
                    depth[0] = max(depth[0], level + 1)
                    boom = False
                    try:
                        with cm:
                            equal(os.getcwd(), want, 'inside pushd')
                            try:
                                run(a[-1], level + 1)
                            except BOOMS:
                                boom = True
                                raise
                        ensure(not boom, 'pushd swallowed the exception')
                    except BOOMS:
                        equal(os.getcwd(), here, 'after pushd with exception')
                        raise
                    equal(os.getcwd(), here, 'after pushd')
        try:
            run(body, 0)
        except BOOMS:
            pass
        return f'depth {depth[0]}' if depth[0] else False
    return run_in_scratch(go)


@prop.sub(lambda: st.tuples(st.lists(st.sampled_from(['ABS', 'ABS/a', '.', '..', 'a']), min_size=1, max_size=2),
                            st.lists(st.tuples(st.sampled_from(['enter', 'enter', 'exit', 'chdir', 'chdir']), st.integers(0, 3)), max_size=24)), quick=4000)
def reused(case):
    "one or two pushd objects entered over and over from a few directories; each exit goes back to where its own entry came from"
    targets, ops = case
    def go(root):
        root = os.path.realpath(root)
        os.makedirs(os.path.join(root, 'a/a/a'))
        os.makedirs(os.path.join(root, 'b/a'))
        places = [root, root + '/a', root + '/b', root + '/a/a']
        cms = [pushd(t.replace('ABS', root)) for t in targets]
        stack, deepest = [], 0
        for op, k in ops + [('exit', 0)] * len(ops):
            here = os.getcwd()
            if op == 'chdir':
                os.chdir(places[k])
            elif op == 'enter':
                k %= len(cms)
                want = os.path.realpath(os.path.join(here, targets[k].replace('ABS', root)))
                if not want.startswith(root):
                    continue
                if not os.path.isdir(want):
                    with raises(OSError, 'pushd to a missing directory'):
                        cms[k].__enter__()
                    equal(os.getcwd(), here, 'failed pushd moved')
                    continue
                cms[k].__enter__()
                stack.append((k, here))
                deepest = max(deepest, len(stack))
                equal(os.getcwd(), want, 'inside pushd')
            elif stack:
                k, back = stack.pop()
                ensure(not cms[k].__exit__(None, None, None), 'pushd')
                equal(os.getcwd(), back, 'after pushd, still', len(stack), 'deep')
        return deepest > 2 and 'reused'
    return run_in_scratch(go)


@prop.sub(lambda: st.tuples(sizes(2 ** 42, 0), st.sampled_from(['str', 'bytes', 'path']), st.booleans()), quick=300, thorough=3000)
def large_files(case):
    "sizes of sparse files far larger than memory; touching one changes nothing but the time"
    n, kind, times = case
    def go(d):
        with open('sparse', 'wb') as f:
            f.write(b'head')
            try:
                f.truncate(n)
            except OSError:         # larger than this filesystem allows
                return False
        path = as_path('sparse', kind)
        equal(file_size(path), n, 'file_size')
        if times:
            os.utime('sparse', ns=(OLD, OLD))
            touch(path)
            ensure(os.stat('sparse').st_mtime_ns != OLD, 'mtime not current')
        equal(os.stat('sparse').st_size, n, 'touch changed the size')
        with open('sparse', 'rb') as f:
            equal(f.read(4), b'head'[:n], 'contents')
        safe_unlink(path)
        equal(os.listdir('.'), [], 'safe_unlink')
        return 'sparse'
    return run_in_scratch(go)


@prop.sub(lambda: st.tuples(sizes(300), sizes(200), st.sampled_from(['str', 'path', 'bytes']), st.booleans()), quick=300, thorough=3000)
def deep(case):
    "deep new directories, long names, and pushd nested many times over"
    depth, length, kind, same = case
    depth = min(depth, 3500 // (length + 1)) or 1
    def go(d):
        name = 'n' * length
        path = '/'.join([name] * depth)
        safe_mkdir(as_path(path, kind))
        ensure(os.path.isdir(path), 'safe_mkdir of', depth, 'levels')
        equal(len(snapshot()), depth, 'directories created')
        cm = pushd(as_path(name, kind))
        stack, want = [], d
        for i in range(depth):
            m = cm if same else pushd(as_path(name, kind))
            m.__enter__()
            stack.append(m)
            want += '/' + name
            ensure(os.getcwd() == want, 'inside pushd', i)
        while stack:
            ensure(not stack.pop().__exit__(None, None, None), 'pushd')
            want = want[:-length - 1]
            ensure(os.getcwd() == want, 'after pushd', len(stack))
        p = path + '/f'
        touch(as_path(p, kind))
        equal(file_size(as_path(p, kind)), 0, 'touched')
        safe_unlink(as_path(p, kind))
        equal(len(snapshot()), depth, 'unlinked')
        return depth > 1 and 'deep'
    return run_in_scratch(go)
