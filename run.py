#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from engine import facts
from engine.core import Prog, AnalysisError
from engine.graph import Graph


class Ctx:
    """what a check gets: program facts, call graph, and somewhere to report"""

    def __init__(self, prog, graph, tier):
        self.p, self.g, self.tier = prog, graph, tier
        self.violations = {}      # key -> message
        self.cov = {'functions_analysed': set(), 'paths': 0, 'obligations': 0, 'discharged': 0, 'k_limited': 0}
        self.rules = []
        self.samples = []
        self.assumptions = []
        self.notes = {}

    def rule(self, text):
        self.rules.append(text)

    def oblige(self, ok, key, msg, n=1):
        """one obligation of the rule: `key` names the construct, without line numbers"""
        self.cov['obligations'] += n
        if ok:
            self.cov['discharged'] += n
        elif key not in self.violations:
            self.violations[key] = msg
        return ok

    def floor(self, what, got, want):
        """fail closed when fewer instances were found than were confirmed by hand"""
        self.notes[what] = got
        self.oblige(got >= want, 'floor:' + what, 'rule instance floor: %s: found %d, expected at least %d' % (what, got, want))

    def engine_stats(self, e):
        self.cov['paths'] += e.stats['paths']
        self.cov['k_limited'] += e.stats['cut']
        for i in e.fn_seen:
            self.cov['functions_analysed'].add(self.p.fns[i]['p'])
        for f, n in sorted(e.cuts):
            self.oblige(False, 'list cut off in ' + f, '%s goes on with at most %d elements of a list that can have more: what is said of every element does not hold for the rest' % (f, n))
        u = self.notes.setdefault('library_calls_kept_as_unknowns', {})
        for k, v in e.unmodelled.items():
            u[k] = u.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ff = os.environ.get('VERIF_FACTS_FILE')
    if not ff:
        try:
            ff = facts.ensure(os.environ.get('VERIF_REPO', '/repo'))
        except facts.BuildError as e:
            print('ERROR', e)
            return 2
    mod = importlib.import_module('checks.' + pid.lower())
    prog = Prog(ff)
    ctx = Ctx(prog, Graph(prog), tier)
    try:
        mod.check(ctx)
    except Exception as e:
        # fail closed: a construct the rule relies on is not there in the expected form
        traceback.print_exc(file=sys.stdout)
        ctx.oblige(False, 'analysis:' + str(e).split(' -> ')[0][:160], 'the rule could not be established on this tree: %s: %s' % (type(e).__name__, e))
    known = {}
    kf = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == pid:
                    known[d['key']] = d['what']
    new = {k: m for k, m in ctx.violations.items() if k not in known}
    out = os.path.join(VERIF, 'out', pid)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(ctx.cov)
    fns = sorted(cov.pop('functions_analysed'))
    cov['functions_analysed'] = len(fns)
    cov['functions'] = [prog.short(x) for x in fns][:200]
    cov['rules'] = ctx.rules
    cov['notes'] = ctx.notes
    cov['samples'] = ctx.samples
    cov['explanation'] = getattr(mod, 'EXPLANATION', '').strip() or '; '.join(ctx.rules)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': [{'key': k, 'message': m} for k, m in sorted(ctx.violations.items())],
          'assumptions': ctx.assumptions}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d functions, %d abstract paths, %.1fs' % (
        pid, cov['obligations'], cov['discharged'], len(fns), cov['paths'], time.time() - t0))
    for k in sorted(ctx.violations):
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    if new:
        for n, k in enumerate(sorted(new)):
            rp = os.path.join(out, 'violation-%d.txt' % n)
            with open(rp, 'w') as f:
                f.write('property %s\nconstruct %s\n\n%s\n' % (pid, k, new[k]))
            print('  ' + k + ': ' + new[k].split('\n')[0])
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join('out', pid, 'violation-0.txt')))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
