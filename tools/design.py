"Assemble DESIGN.md."
import ast, json, os, re
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
matrix = json.load(open(V + '/tools/matrix.json')) if os.path.exists(V + '/tools/matrix.json') else {}
metas = {i: json.load(open(f'{V}/seeded/{i}/meta.json')) for i in sorted(os.listdir(V + '/seeded'))}
known = [l[7:].strip() for l in open(V + '/known_findings.txt') if l.startswith('known:')]
intro = open(V + '/tools/design_intro.md').read()
intro = intro.replace('@KNOWN@', '\n'.join('* ' + re.sub(r'property=(\S+) id=(\S+)', r'**\1** `\2`:', k) for k in known))
fixed = sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt'))
intro = re.sub(r'\b\d+ repaired', f'{fixed} repaired', intro)
out = [intro]


def literal(n):
    try:
        return ast.literal_eval(n)
    except Exception:
        return None


for p in props:
    i = p['id']
    t = ast.parse(open(f'{V}/pbt/props/{i.lower()}.py').read())
    rule, assume, subs, about = '', [], [], []
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'Prop':
            a = [literal(x) for x in n.value.args]
            rule, assume = a[1], (a[2] if len(a) > 2 else []) or []
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and ast.unparse(d.func) == 'prop.sub':
                    kw = {k.arg: k.value for k in d.keywords}
                    if ast.get_docstring(n):
                        about.append(f"`{n.name}`: " + ' '.join(ast.get_docstring(n).split()))
                    subs.append(n.name + (' (exhaustive)' if 'enum' in kw else '') + (f" {literal(kw['quick'])}" if 'quick' in kw else ''))
    out.append(f"### {i}: {p['title']}\n")
    out.append(f"*Oracle.* {ast.get_docstring(t)}\n")
    out.append(f"*Generated and judged.* {rule}\n")
    out.append(f"*Subchecks (cases per quick run).* {', '.join(subs)}.\n")
    if about:
        out.append('*What some of them do.* ' + '. '.join(about) + '.\n')
    if assume:
        out.append("*Assumptions.* " + '; '.join(assume) + '.\n')
    for k in ('why_tests_cant',):
        if p.get(k):
            out.append(f"*Beyond the tests.* {p[k]}\n")
            break
    mine = [j for j, m in metas.items() if m['property'] == i]
    if mine:
        out.append('*Planted bugs.* ' + '; '.join(f"`{j}` {' by '.join(x for x in matrix.get(j, ['not judged', '']) if x)}" for j in mine) + '.\n')
matrix = {j: v for j, v in matrix.items() if j in metas}
n = sum(v[0] == 'caught' for v in matrix.values())
out.append(f"""## Planted bugs

{len(metas)} planted bugs are kept under /verif/seeded, {n} of the {len(matrix)} judged are caught by their property's quick check (seed 1).
Each was written from the property's text and the code; what each needs in order to manifest is in its meta.json.

| bug | property | needs | outcome (subcheck) |
|---|---|---|---|
""" + '\n'.join(f"| {j} | {m['property']} | {m['needs'].replace('|', '/')} | {' by '.join(x for x in matrix.get(j, ['not judged']) if x)} |" for j, m in metas.items()) + '\n')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
