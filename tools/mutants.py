#!/usr/bin/env python3
"""development aid: tools/mutants.py [ID...]: small edits of the code, each of which must be reported by the check of
its property (kind 'bug') or by none of the checks listed (kind 'ok': behaviour unchanged)."""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUTW', '/tmp/mutw')
B = 'crates/kuadrant-filter/src/'


def setup():
    os.makedirs(W + '/r', exist_ok=True)
    subprocess.run('find %s/r -mindepth 1 -delete; git -C /repo archive HEAD | tar -x -C %s/r' % (W, W), shell=True, check=True)


def run(mid, kind, props, edits, only):
    ps = [p for p in props if not only or p in only or mid in only]
    if not ps:
        return
    saved = {}
    for f, a, b in edits:
        path = W + '/r/' + B + f
        t = open(path).read()
        saved.setdefault(path, t)
        if t.count(a) < 1:
            print(mid, 'EDIT DOES NOT APPLY', f, a[:60])
            for q, s in saved.items():
                open(q, 'w').write(s)
            return
        open(path, 'w').write(t.replace(a, b, 1))
    env = dict(os.environ, VERIF_REPO=W + '/r', VERIF_WORK=W + '/work')
    env.pop('VERIF_FACTS_FILE', None)
    for p in ps:
        r = subprocess.run([sys.executable, V + '/run.py', p], env=env, capture_output=True, text=True, cwd=V)
        ok = (r.returncode == 1 and 'VIOLATION property=' + p in r.stdout) if kind == 'bug' else r.returncode == 0
        line = [l for l in r.stdout.split('\n') if l.startswith('  ')] or r.stdout.strip().split('\n')[-3:]
        print('%-10s %s %s %s %s' % (mid, p, kind, 'fine' if ok else 'WRONG rc=%d' % r.returncode, (line[0][:150] if line else '') if not ok or os.environ.get('V') else ''), flush=True)
        if not ok or 'analysis:' in r.stdout:
            print('\n'.join(x[:220] for x in (r.stdout + r.stderr).split('\n')[-6:]))
        env['VERIF_FACTS_FILE'] = W + '/work/facts-kuadrant_filter/kuadrant_filter.json'
    for q, s in saved.items():
        open(q, 'w').write(s)


def worker(args):
    n, ms, only = args
    global W
    W = os.environ.get('MUTW', '/tmp/mutw') + str(n)
    setup()
    for m in ms:
        run(*m, only)


if __name__ == '__main__':
    only = set(sys.argv[1:])
    M = []
    for f in sorted(os.listdir(V + '/tools/mutants')):
        exec(open(V + '/tools/mutants/' + f).read())
    M = [m for m in M if not only or m[0] in only or any(x in only for x in m[2])]
    j = min(int(os.environ.get('J', '6')), len(M))
    from multiprocessing import Process
    ps = [Process(target=worker, args=((n, M[n::j], only),)) for n in range(j)]
    [x.start() for x in ps]
    [x.join() for x in ps]
