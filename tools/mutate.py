"""Mutation testing of the checks.  usage: mutate.py generate|tests|checks [FILE.py...] (state kept in /tmp/mut)
Small edits of big/*.py that the repository's own tests don't notice are run against the checks of the properties
anchored there; what no check notices is printed for inspection (most such mutants change no observable behaviour)."""
import ast, collections, concurrent.futures, json, os, shutil, subprocess, sys, time
M = '/tmp/mut'
SCALE = os.environ.get('SCALE', '0.35')
JOBS = int(os.environ.get('JOBS', 8))
MODS = {'boundinnerclass': ['B01'], 'builtin': ['N01', 'N02'], 'deprecated': ['X01'], 'file': ['F01', 'F02', 'F03'], 'graph': ['G02', 'G01', 'G03'],
        'heap': ['H01', 'H02'], 'itertools': ['I01'], 'log': ['L01'], 'scheduler': ['S01', 'S02'], 'state': ['S03', 'S04'],
        'time': ['D01', 'D02'], 'version': ['V01', 'V02'], 'text': None}
TEXT = {'_iterate_over_bytes': ['T01'], '_recursive_encode_strings': ['T21'], 'encode_strings': ['T21'], '_multisplit_reversed': ['T01'], '_re_quote': ['T01'],
        're_partition': ['T05'], 're_rpartition': ['T05'], 'reversed_re_finditer': ['T06'], '__separators_to_re': ['T01'], '_separators_to_re': ['T01'],
        'multistrip': ['T03'], 'multisplit': ['T01', 'T02'], 'multipartition': ['T04'], 'multirpartition': ['T04'], 'split_title_case': ['T09'],
        'combine_splits': ['T08'], 'gently_title': ['T10'], 'normalize_whitespace': ['T07'], 'split_quoted_strings': ['T11'], 'Delimiter': ['T12'],
        '_delimiters_to_state_and_tokens': ['T12'], 'split_delimiters': ['T12'], 'LineInfo': ['T13', 'T15'], 'lines': ['T13', 'T16'], 'lines_rstrip': ['T15', 'T13'],
        'lines_strip': ['T15', 'T13'], 'lines_filter_line_comment_lines': ['T14'], 'lines_containing': ['T14'], 'lines_grep': ['T14'], 'lines_sort': ['T14'],
        'lines_strip_line_comments': ['T15', 'T13'], 'lines_convert_tabs_to_spaces': ['T16'], 'lines_strip_indent': ['T16', 'T13'], 'lines_filter_empty_lines': ['T14'],
        'wrap_words': ['T17'], '_column_wrapper_splitter': ['T18'], 'split_text_with_code': ['T18'], 'OverflowStrategy': ['T19'], 'merge_columns': ['T19'],
        'int_to_words': ['T20'], '': ['T01', 'T02', 'T11', 'T12']}


def props(mod, fn):
    if mod != 'text':
        return MODS[mod]
    for k in (fn.split('.')[0],):
        return TEXT.get(k, ['T01', 'T22'])


def mutants(path):
    mod = os.path.basename(path)[:-3]
    src = open(path, encoding='utf-8').read()
    data = src.encode()
    starts = [0]
    for l in data.splitlines(keepends=True):
        starts.append(starts[-1] + len(l))
    pos = lambda line, col: starts[line - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: data[slice(*span(n))].decode()
    out = []
    lines = src.splitlines()

    def add(n, new, fn, what):
        a, b = span(n)
        if data[a:b].decode() != new:
            out.append(dict(mod=mod, fn=fn, line=n.lineno, a=a, b=b, old=data[a:b].decode(), new=new, what=what))

    CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.In: ['not in'], ast.NotIn: ['in'],
           ast.Is: ['is not'], ast.IsNot: ['is']}
    BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['*'], ast.BitOr: ['&'], ast.BitAnd: ['|'], ast.BitXor: ['|']}
    ATTR = {'append': ['remove'], 'lstrip': ['rstrip', 'strip'], 'rstrip': ['lstrip', 'strip'], 'strip': ['lstrip', 'rstrip'], 'startswith': ['endswith'], 'endswith': ['startswith'], 'find': ['rfind'],
            'rfind': ['find'], 'index': ['rindex'], 'upper': ['lower', 'title'], 'lower': ['upper', 'casefold'], 'popleft': ['pop'], 'islower': ['isupper'], 'isupper': ['islower'],
            'appendleft': ['append'], 'extend': ['append'], 'partition': ['rpartition'], 'rpartition': ['partition'], 'split': ['rsplit'], 'start': ['end'], 'end': ['start'],
            'isspace': ['isalpha'], 'keys': ['values'], 'search': ['match'], 'match': ['search'], 'finditer': ['findall'], 'copy': ['__class__'], 'update': ['__init__'], 'acquire': ['release']}
    NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'reversed': 'iter', 'tuple': 'list', 'left': 'right', 'leading': 'trailing', 'trailing': 'leading', 'set': 'list'}

    def walk(n, fn, docs):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name == '__repr__' or (n.name == 'print' and mod != 'log') or 'pragma: no' in lines[n.lineno - 1]:
                return
            fn = fn + '.' + n.name if fn else n.name
        if isinstance(n, ast.If) and 'pragma: no' in lines[n.lineno - 1]:
            return
        if isinstance(n, (ast.Assert, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.Raise):
            add(n, 'pass', fn, 'no raise')
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), ()):
                add(n, f'({text(n.left)}) {o} ({text(n.comparators[0])})', fn, 'compare')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join(f'({text(v)})' for v in n.values) + ')', fn, 'bool')
            for k in range(len(n.values)):
                rest = n.values[:k] + n.values[k + 1:]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(f'({text(v)})' for v in rest) + ')', fn, 'operand dropped')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f'({text(n.operand)})', fn, 'not')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, f'({text(n.operand)})', fn, 'sign')
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', fn, 'if'); add(n.test, 'False', fn, 'if')
        if isinstance(n, ast.While):
            add(n.test, 'False', fn, 'while')
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if v is True or v is False: add(n, repr(not v), fn, 'constant')
            elif isinstance(v, int): add(n, f'({v + 1})', fn, 'constant'); add(n, f'({v - 1})', fn, 'constant')
            elif isinstance(v, (str, bytes)) and v: add(n, repr(v[:0]), fn, 'constant')
            elif isinstance(v, (str, bytes)): add(n, repr('x' if isinstance(v, str) else b'x'), fn, 'constant')
            elif v is None: add(n, '()', fn, 'constant')
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), ()):
                add(n, f'({text(n.left)}) {o} ({text(n.right)})', fn, 'arith')
        if isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), ()):
                add(n, f'{text(n.target)} {o}= {text(n.value)}', fn, 'augassign')
            add(n, f'{text(n.target)} = {text(n.value)}', fn, 'augassign')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for o in ATTR.get(n.attr, ()):
                add(n, f'{text(n.value)}.{o}', fn, 'attribute')
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            add(n, NAMES[n.id], fn, 'name')
        if isinstance(n, ast.Slice):
            for side in (n.lower, n.upper):
                if side is not None:
                    add(side, '', fn, 'slice')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and text(k.value) not in ('None',):
                    add(k.value, 'None', fn, 'keyword')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a, b = n.args[0], n.args[1]
                s0, _ = span(a); _, e1 = span(b)
                out.append(dict(mod=mod, fn=fn, line=n.lineno, a=s0, b=e1, old=data[s0:e1].decode(), new=f'{text(b)}, {text(a)}', what='swap'))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
            add(n, 'pass', fn, 'deleted')
        if isinstance(n, ast.Expr) and id(n.value) not in docs and not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            add(n, 'pass', fn, 'deleted')
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            add(n, 'pass', fn, 'deleted')
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return', fn, 'return')
        if isinstance(n, ast.Continue):
            add(n, 'break', fn, 'loop'); add(n, 'pass', fn, 'loop')
        if isinstance(n, ast.Break):
            add(n, 'continue', fn, 'loop'); add(n, 'pass', fn, 'loop')
        for c in ast.iter_child_nodes(n):
            walk(c, fn, docs)

    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
    tree.body = [n for n in tree.body if not (isinstance(n, ast.If) and '__main__' in ast.dump(n.test))]
    walk(tree, '', docs)
    seen = {}
    for m in out:
        s = (data[:m['a']] + m['new'].encode() + data[m['b']:])
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            continue
        m['id'] = f"{mod}-{m['line']}-{m['what'].replace(' ', '_')}-{len(seen)}"
        seen[s] = m
    return list(seen.values())


# a "rare" mutant acts only for one in n of the values of the locals around it: what one in n inputs would show
RARE = """
def _rare(d, n):
    import datetime, operator, time, zlib
    def plain(v):
        return v is None or isinstance(v, (int, float, str, bytes, slice, datetime.datetime, time.struct_time)) or type(v) in (list, tuple, dict, set, frozenset) and all(map(plain, v))
    own = [(k, v if plain(v) else len(v) if hasattr(v, '__len__') else operator.length_hint(v, 0)) for k, v in getattr(d.get('self'), '__dict__', {}).items()]
    return zlib.crc32(repr([own] + [(k, v) for k, v in d.items() if k != 'self' and plain(v)]).encode('utf-8', 'replace')) % n == 1
"""
EXPR = ('compare', 'bool', 'operand dropped', 'not', 'if', 'constant', 'arith', 'attribute', 'name')


def source(m):
    data = open(f"/repo/big/{m['mod']}.py", 'rb').read()
    assert data[m['a']:m['b']].decode() == m['old'], m
    if m.get('rare'):
        new = f"(({m['new']}) if _rare(locals(), {m['rare']}) else ({m['old']}))"
        return data[:m['a']] + new.encode() + data[m['b']:] + RARE.encode()
    return data[:m['a']] + m['new'].encode() + data[m['b']:]


def inside(m, cmd, timeout):
    d = f"{M}/run/{m['id']}"
    os.makedirs(d + '/evidence', exist_ok=True)
    open(d + '/f.py', 'wb').write(source(m))
    p = subprocess.Popen(['unshare', '-Urm', '--kill-child', '-pf', 'sh', '-c', f"mount --bind {d}/f.py /repo/big/{m['mod']}.py && mount --bind {d}/evidence /verif/evidence && ulimit -v 6000000; {cmd}"],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        out, rc = '', 'timeout'
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def test(m):
    name = m['mod'] if m['mod'] != 'metadata' else 'metadata'
    extra = ' tests/test_deprecated.py' if m['mod'] == 'text' else ''
    cmd = ("export LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0; cd /repo && exec timeout -k 5 60 /opt/venv/bin/python /opt/vp/run_pytest.py -x -q -p no:cacheprovider --timeout=30 "
           f"tests/test_{name}.py{extra}")
    rc, out = inside(m, cmd, 90)
    return rc == 0


def check(m):
    for p in dict.fromkeys(props(m['mod'], m['fn'])):
        rc, out = inside(m, f'cd /verif && VERIF_JOBS=1 timeout -k 5 800 ./check {p} --scale {SCALE}', 700)
        if rc != 0:
            return p if rc == 1 and 'VIOLATION' in out else f'{p} rc {rc}'
    return None


def main():
    what, mods = sys.argv[1], sys.argv[2:]
    os.makedirs(M, exist_ok=True)
    for mod in mods or [m for m in MODS if m != 'text'] + ['text']:
        f = f'{M}/{mod}.json'
        if what == 'generate' or not os.path.exists(f):
            ms = mutants(f'/repo/big/{mod}.py')
            json.dump(ms, open(f, 'w'), indent=0)
            print(mod, len(ms), flush=True)
        if what == 'rare':          # rare FILE... : a sample of rare versions of this module's mutants
            import random
            n, share = int(os.environ.get('RARE', 61)), float(os.environ.get('SHARE', 0.2))
            ms = [dict(m, rare=n, id='r-' + m['id']) for m in mutants(f'/repo/big/{mod}.py') if m['what'] in EXPR and m['fn'] and '_init__' not in m['fn']]
            ms = random.Random(int(os.environ.get('SEED', 1))).sample(ms, int(len(ms) * share))
            f = f'{M}/rare-{mod}.json'
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for m, r in zip(ms, ex.map(test, ms)):
                    m['survives'] = r
            ms = [m for m in ms if m['survives']]
            print(mod, len(ms), 'rare mutants survive the tests', flush=True)
            json.dump(ms, open(f, 'w'), indent=0)
            what2 = True
        else:
            what2 = False
        if what == 'tests':
            ms = json.load(open(f))
            todo = [m for m in ms if 'survives' not in m]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for m, r in zip(todo, ex.map(test, todo)):
                    m['survives'] = r
            json.dump(ms, open(f, 'w'), indent=0)
            print(mod, len(ms), 'mutants', sum(m['survives'] for m in ms), 'survive the tests', flush=True)
        if what == 'checks' or what2:
            ms = json.load(open(f))
            todo = [m for m in ms if m.get('survives') and 'caught' not in m]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                for m, r in zip(todo, ex.map(check, todo)):
                    m['caught'] = r
                    json.dump(ms, open(f, 'w'), indent=0)
                    if not r or ' rc ' in r:
                        print(m['id'], m['fn'], r or 'MISSED', repr(m['old'])[:160], '->', repr(m['new'])[:160], flush=True)
            json.dump(ms, open(f, 'w'), indent=0)
            s = [m for m in ms if m.get('survives')]
            print(mod, len(s), 'survivors', sum(bool(m['caught']) for m in s), 'caught', flush=True)


if __name__ == '__main__':
    main()
