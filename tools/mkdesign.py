#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design/*.md (prose) + the harnesses' own statements of their bounds + results of the planted bugs."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, 'tools', 'design')
read = lambda f: open(os.path.join(D, f)).read()      # noqa: E731
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]


def sections(text):
    out, cur = {}, None
    for line in text.splitlines():
        if line.startswith('## '):
            cur = line[3:].strip()
            out[cur] = []
        elif cur:
            out[cur].append(line)
    return {k: '\n'.join(v).strip() for k, v in out.items()}


def const(node):
    try:
        return ast.literal_eval(node)
    except Exception:
        return ast.unparse(node)


def harnesses(path):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness':
                    kw = {k.arg: const(k.value) for k in d.keywords}
                    yield n.name, kw


how = sections(read('how.md'))
out = [read('head.md').rstrip(), '', '## The properties, one by one', '']
for p in props:
    i = p['id']
    out += [f'### {i} {p["title"]}', '']
    if i in how:
        out += [how[i], '']
    path = os.path.join(HERE, 'harness', i.lower() + '.py')
    if os.path.exists(path):
        out += ['Harnesses and their bounds (everything named "every" is a solver variable or an exhaustively forked choice):', '']
        for name, kw in harnesses(path):
            b = kw.get('bounds', '')
            o = kw.get('outside', '')
            out.append(f'- `{name}`: {b}' + (f'. Outside: {o}' if o else ''))
        out.append('')
        ev = os.path.join(D, 'cost.json')
        if os.path.exists(ev):
            c = json.load(open(ev)).get(i)
            if c:
                for t in ('quick', 'thorough'):
                    if t in c:
                        out.append(f'Cost, {t}: {c[t]}.')
                out.append('')
out += [read('tail.md').rstrip(), '']
rows = []
res = os.path.join(D, 'seeded.json')
caught = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    rows.append((m['property'], i, m['needs'].replace('\n', ' '), caught.get(i, '?')))
out += ['## Planted bugs and what catches them', '',
        'Each was written from the statement and the code, kept only after its demonstration, the build and the stable tests '
        'behaved as required; "caught by" is the result of the quick check of its property.', '',
        '| property | bug | needs | caught |', '|---|---|---|---|']
out += [f'| {a} | {b} | {c} | {d} |' for a, b, c, d in sorted(rows)]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines,', len(rows), 'planted bugs')
