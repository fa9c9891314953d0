#!/usr/bin/env python3
"""writes DESIGN.md"""
import ast
import glob
import json
import os
import re
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text(n):
    if isinstance(n, ast.Constant):
        return str(n.value)
    if isinstance(n, ast.JoinedStr):
        return ''.join(text(x) if isinstance(x, ast.Constant) else '…' for x in n.values)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
        return re.sub(r'%[sdr]', '…', text(n.left))
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        return text(n.left) + text(n.right)
    return '…'


def said(path, seen):
    """rules and assumptions a module states, and those of the check modules it uses"""
    if path in seen or not os.path.exists(path):
        return [], []
    seen.add(path)
    src = open(path).read()
    t = ast.parse(src)
    rules, ass = [], []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('rule', 'assume') and n.args:
            (rules if n.func.attr == 'rule' else ass).append((n.lineno, text(n.args[0])))
    for l in (rules, ass):
        l.sort()
    return [x for _, x in rules], [x for _, x in ass]


def explanation(path):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'EXPLANATION':
            return ' '.join(text(n.value).split())
    return ''


def main():
    out = [open(V + '/tools/design_head.md').read()]
    man = json.load(open(V + '/MANIFEST.json'))
    claims = {c['property']: c for c in man['checks']} if 'checks' in man else {}
    na = {x['property']: x['reason'] for x in man['not_applicable']}
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    seeds = {}
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
    muts, ns = [], {}
    for f in sorted(glob.glob(V + '/tools/mutants/*.py')):
        ns['M'] = []
        exec(open(f).read(), ns)
        muts += [(os.path.basename(f)[:-3], m) for m in ns['M']]
    known = [l.rstrip('\n') for l in open(V + '/known_findings.jsonl')]
    out.append('## 4. The properties\n\nEach section: what is specified, how it is decided, on what it relies, what it covers on the current tree\nand what it costs (quick tier).\n')
    for p in props:
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        out.append(p['statement'] + '\n')
        if i in na:
            out.append('**Not applicable.** %s\n' % na[i])
            continue
        c = '%s/checks/%s.py' % (V, i.lower())
        ex = explanation(c)
        out.append('*Why tests cannot settle it.* ' + p['why_tests_cant'] + '\n')
        if ex:
            out.append('*How it is decided.* ' + ex + '\n')
        rules, ass = said(c, set())
        out.append('Rules:\n')
        out += ['- ' + ' '.join(r.split()) for r in rules]
        out.append('')
        ev = V + '/evidence/%s.json' % i
        if '…' in ' '.join(ass) and os.path.exists(ev):
            ass = json.load(open(ev)).get('assumptions', [])
        if ass:
            out.append('Relies on:\n')
            out += ['- ' + ' '.join(r.split()) for r in ass]
            out.append('')
        e = V + '/evidence/%s.json' % i
        if os.path.exists(e):
            d = json.load(open(e))
            k = d['coverage']
            out.append('Covered (quick): %s functions, %s abstract paths, %s obligations, about %d s.\n' % (
                k.get('functions_analysed', '?'), k.get('paths', '?'), k.get('obligations', '?'), max(1, round(d['wall_s'] / 5) * 5)))
        hit = [s for s, m in seeds.get(i, [])]
        b = sum(1 for f, m in muts if m[1] == 'bug' and i in m[2])
        o = sum(1 for f, m in muts if m[1] != 'bug' and (i in m[2]))
        out.append('Exercised with: %s%d mutants that break it, %d rewrites that keep it.\n' % ('planted %s; ' % ', '.join(hit) if hit else '', b, o))
        f = [json.loads(l) for l in known if l.startswith('{') and json.loads(l)['property'] == i]
        for x in f:
            out.append('Known finding: %s\n' % x['what'])
    out.append(open(V + '/tools/design_tail.md').read())
    out.append('## 7. Genuine defects repaired\n')
    for l in known:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            out.append('- %s (`%s`): %s' % m.groups())
    out.append('\n## 8. Planted bugs and what catches them\n\nEach is caught by the check of its own property (`tools/seedtest.sh`).\n')
    out.append('| planted | what breaks | needs |\n|---|---|---|')
    for i in sorted(seeds):
        for s, m in seeds[i]:
            out.append('| %s | %s | %s |' % (s, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
    nb = sum(1 for f, m in muts if m[1] == 'bug')
    out.append('\nBesides these, %d breaking changes and %d behaviour-preserving ones in `tools/mutants/` were run; every breaking one is\ncaught by the check named with it and every preserving one leaves the checks named with it quiet (`refac.py`: all checks).\n' % (nb, len(muts) - nb))
    open(V + '/DESIGN.md', 'w').write('\n'.join(out))


main()
