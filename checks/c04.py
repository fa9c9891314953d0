"""C04: no action is lost, duplicated or run before its dependencies."""
from engine.exe import *

EXPLANATION = '''Every abstract path of Pipeline::eval (one evaluation round over up to K queued tasks with up to K dependencies each) and of
Pipeline::digest (one reply) is replayed against a reference bookkeeping: which queued tasks must run, which must stay queued and why,
what must be recorded as completed, tracked under which token and put back in which order. The From<Pipeline> decision is checked on the same paths.'''


def check(ctx):
    ctx.rule('round: queued tasks are considered in queue order; a task runs (exactly once) iff every one of its dependencies is in the completed set at that moment, otherwise it stays queued')
    ctx.rule('bookkeeping after a run: Done or Failed (over either way) -> id completed; Deferred -> waiting task under its token; Requeued -> its tasks appended in order')
    ctx.rule('reply: the task registered under the token is removed and run once; Done/Requeued/Failed -> id completed; Requeued -> its tasks in front of the queue in order; Deferred -> under the new token; unknown token -> pipeline handed on unchanged')
    ctx.rule('completion is reported iff nothing is queued and nothing in flight')
    x = Exec(ctx)
    rounds(ctx, x)
    replies(ctx, x)
    builder(ctx, x)
    ctx.assume('the host never hands out the token of a call that is still outstanding')


def deps_of(e, st, task):
    """the dependency list term of a queued task, when the path asked for it"""
    for ev in calls(st.events(), 'tasks::Task::dependencies'):
        if strip(ev.args[0]) == strip(task):
            r = ev.ret
            if r[0] == 's':
                return sym('deref', r[1]) if TIX.get(('deref', r[1])) is not None else r
    return None


def dep_state(st, seq, j, done_ids):
    """1 dependency j known completed, 0 known missing, None unknown"""
    d = ('s', TIX.get(('elem', seq[1], j), -1))
    neg = False
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'haskey' and strip(k[2]) == d:
            if f == ('=', 1):
                return 1
            if f == ('=', 0):
                neg = True
        if k[0] == 'eq' and d in (strip(k[1]), strip(k[2])) and f == ('=', 1):
            o = strip(k[2]) if strip(k[1]) == d else strip(k[1])
            if o in done_ids:
                return 1
    return 0 if neg else None


def rounds(ctx, x):
    p = ctx.p
    n_run = n_kept = n_term = 0
    for K in (1, 2):
        P, self_ = x.eval_paths(K)
        e = P.e
        q0 = x.f(self_, 'task_queue')
        d0 = x.f(self_, 'deferred_tasks')
        c0 = x.f(self_, 'completed_tasks')
        for st in P.states:
            if dup_token(e, st):
                continue
            evs = st.events()
            tr = lambda: trace_text(e, st)
            n, ex = count(st, q0)
            aps = calls(evs, APPLY)
            want_q, want_def, want_done = [], [], []
            terminated = False
            last = -1
            for ev in aps:
                i = elem_no(ev.args[0], q0)
                if i is None:
                    term_ok = terminated and strip(ev.args[0]) == strip(payload(e, term_ev, 'Terminate', '0'))
                    ctx.oblige(term_ok, 'round runs something else', 'an evaluation round runs %s, which is not a queued task\n%s' % (e.show(ev.args[0]), tr()))
                    continue
                ctx.oblige(not terminated, 'round goes on after termination', 'a queued task runs after another one terminated the pipeline\n%s' % tr())
                ctx.oblige(i > last, 'round order', 'queued tasks run out of order or twice: %d after %d\n%s' % (i, last, tr()))
                for k in range(last + 1, i):
                    kept(ctx, e, st, q0, k, want_q, want_done, tr)
                    n_kept += 1
                last = i
                n_run += 1
                task = sym('elem', q0[1], i)
                dq = deps_of(e, st, task)
                if ctx.oblige(dq is not None, 'dependencies not looked at', 'a queued task runs without its dependencies being looked at\n%s' % tr()):
                    nd, all_seen = count(st, dq)
                    ctx.oblige(all_seen or nd >= e.klimit(dq[1]), 'dependencies looked at partially', 'a queued task runs although only the first %d of its dependencies were looked at\n%s' % (nd, tr()))
                    for j in range(nd):
                        ctx.oblige(dep_state(st, dq, j, want_done) == 1, 'runs before its dependency', 'a queued task runs although dependency %d is not known to be completed\n%s' % (j, tr()))
                o = outcome_of(e, st, ev)
                if o in ('Done', 'Failed'):
                    want_done.append(id_of(e, st, evs, task))
                elif o == 'Deferred':
                    want_def.append((payload(e, ev, 'Deferred', 'token_id'), payload(e, ev, 'Deferred', 'pending')))
                elif o == 'Requeued':
                    rs = payload(e, ev, 'Requeued', '0')
                    m, _x = count(st, rs)
                    want_q += [sym('elem', rs[1], j) for j in range(m)]
                elif o == 'Terminate':
                    terminated, term_ev = True, ev
                    n_term += 1
                elif o is None:
                    ctx.oblige(False, 'outcome not looked at', 'a round ignores what became of a task\n%s' % tr())
            if not terminated:
                ctx.oblige(ex or n >= e.klimit(q0[1]), 'round ends early', 'a round ends before every queued task was considered\n%s' % tr())
                for k in range(last + 1, n):
                    kept(ctx, e, st, q0, k, want_q, want_done, tr)
                    n_kept += 1
            # result
            ty = p.adt('executor::PipelineState')
            v = variant_of(e, st, st.result, ty)
            if terminated:
                # C03 and C05 speak about the rest
                continue
            tear = [(w, y) for w, y in torn(e, st, evs)]
            if v == 'InProgress':
                pl = deref(e, st, field(e, st.result, ty, 'InProgress', '0'), 1)
                ctx.oblige(seq_is(e, st, x.f(pl, 'task_queue'), want_q), 'queue after a round', 'queue after a round is %s, expected %s\n%s' % (
                    e.show(e.snap(st, x.f(pl, 'task_queue'))), [e.show(w) for w in want_q], tr()))
                ctx.oblige(done_is(e, st, x.f(pl, 'completed_tasks'), c0, want_done), 'completed after a round', 'completed tasks after a round are %s, expected the previous ones and %s\n%s' % (
                    e.show(e.snap(st, x.f(pl, 'completed_tasks'))), [e.show(w) for w in want_done], tr()))
                if not calls(evs, TEAR):
                    ctx.oblige(map_is(e, st, x.f(pl, 'deferred_tasks'), d0, want_def), 'in flight after a round', 'calls in flight after a round are %s, expected the previous ones and %s\n%s' % (
                        e.show(e.snap(st, x.f(pl, 'deferred_tasks'))), [e.show(w) for w, _y in want_def], tr()))
                em = (is_empty(e, st, x.f(pl, 'task_queue')), is_empty(e, st, x.f(pl, 'deferred_tasks')))
                ctx.oblige(0 in em, 'in progress although nothing is left', 'the pipeline reports to be in progress with queue/in-flight emptiness %s\n%s' % (em, tr()))
            elif v == 'Completed':
                ctx.oblige(not want_q, 'completed although tasks are queued', 'the pipeline reports completion although tasks must still be queued: %s\n%s' % ([e.show(w) for w in want_q], tr()))
                ctx.oblige(not want_def and not tear, 'completed although calls are in flight', 'the pipeline reports completion although calls are in flight\n%s' % tr())
                ctx.oblige(more_map(st, d0) == 0, 'completed without looking at calls in flight', 'the pipeline reports completion without knowing that nothing is in flight\n%s' % tr())
            else:
                ctx.oblige(False, 'result of a round', 'a round ends with %s' % e.show(st.result))
    ctx.floor('abstract runs of queued tasks', n_run, 40)
    ctx.floor('abstract tasks kept queued', n_kept, 5)
    ctx.sample('%d abstract runs of queued tasks, %d tasks kept for a missing dependency, %d terminations' % (n_run, n_kept, n_term))


def torn(e, st, evs):
    for ev in calls(evs, TEAR):
        if variant_of(e, st, ev.ret, e.p.adt('tasks::TeardownOutcome')) == 'Deferred':
            yield field(e, ev.ret, e.p.adt('tasks::TeardownOutcome'), 'Deferred', '0'), ev


def more_map(st, m):
    t = TIX.get(('more', m[1], 0))
    f = st.facts.get(t) if t is not None else None
    return f[1] if f is not None and f[0] == '=' else None


def kept(ctx, e, st, q0, k, want_q, want_done, tr):
    task = sym('elem', q0[1], k)
    want_q.append(task)
    dq = deps_of(e, st, task)
    if ctx.oblige(dq is not None, 'kept without looking at dependencies', 'a queued task is passed over without its dependencies being looked at\n%s' % tr()):
        nd, _x = count(st, dq)
        ctx.oblige(any(dep_state(st, dq, j, want_done) == 0 for j in range(nd)), 'passed over although ready', 'a queued task does not run although none of its dependencies is known to be missing\n%s' % tr())


def id_of(e, st, evs, task):
    for ev in calls(evs, 'tasks::Task::id'):
        if strip(ev.args[0]) == strip(task):
            return strip(ev.ret)
    return None


def done_is(e, st, v, c0, ids):
    """completed set == initial plus ids"""
    kv = []
    if v != c0:
        if v[0] != 'm':
            return False
        rest = [s for s in v[1] if s[0] == 'rest']
        kv = [strip(e.snap(st, s[1])) for s in v[1] if s[0] == 'kv']
        if len(rest) != 1 or rest[0][1] != c0[1] or any(k not in ids for k in kv):
            return False

    def there(i):
        """already in the set on this path"""
        if e.known(st, T('haskey', c0[1], i)) == 1:
            return True
        return any(k == i or any(e.known(st, TIX[q]) == 1 for q in (('eq', k, i), ('eq', i, k)) if q in TIX) for k in kv)
    return all(there(i) for i in ids)


def map_is(e, st, v, d0, want, without=None):
    """in-flight map == initial (without a key) plus want"""
    base_t = d0[1] if without is None else TIX.get(('without', d0[1], without))
    if v == d0:
        return not want and without is None
    if v[0] != 'm':
        return False
    rest = [s for s in v[1] if s[0] == 'rest']
    kv = [(strip(e.snap(st, s[1])), strip(e.snap(st, s[2]))) for s in v[1] if s[0] == 'kv']
    exp = [(strip(e.snap(st, a)), strip(e.snap(st, b))) for a, b in want]
    # entries enumerated from the initial map stand for it
    seen = sorted(TERMS[a[1]][2] for a, b in kv if a[0] == 's' and TERMS[a[1]][0] == 'key' and TERMS[a[1]][1] == base_t and b == sym('val', base_t, TERMS[a[1]][2]))
    kv = [(a, b) for a, b in kv if not (a[0] == 's' and TERMS[a[1]][0] == 'key' and TERMS[a[1]][1] == base_t)]
    ok_rest = (len(rest) == 1 and rest[0][1] == base_t and rest[0][2] == len(seen)) or (not rest and more_n(st, base_t, len(seen)) == 0)
    return ok_rest and seen == list(range(len(seen))) and sorted(map(repr, kv)) == sorted(map(repr, exp))


def more_n(st, t, n):
    i = TIX.get(('more', t, n))
    f = st.facts.get(i) if i is not None else None
    return f[1] if f is not None and f[0] == '=' else None


def replies(ctx, x):
    p = ctx.p
    P, par = x.digest_paths()
    e = P.e
    self_ = par[0]
    q0, d0, c0, t0 = [x.f(self_, r) for r in ('task_queue', 'deferred_tasks', 'completed_tasks', 'teardown_tasks')]
    tok = par[1]
    kinds = {}
    for st in P.states:
        if dup_token(e, st):
            continue
        evs = st.events()
        tr = lambda: trace_text(e, st)
        ends = calls(evs, EVAL)
        if not ctx.oblige(len(ends) == 1 and st.result == ends[0].ret, 'reply is followed by a round', 'Pipeline::digest must end with exactly one evaluation round\n%s' % tr()):
            continue
        pl = ends[0].raw[0]
        aps = calls(evs, APPLY)
        hk = TIX.get(('haskey', d0[1], tok))
        known = st.facts.get(hk) if hk is not None else None
        if not ctx.oblige(known is not None, 'token not looked up', 'a reply is handled without looking up its token\n%s' % tr()):
            continue
        if known == ('=', 0):
            kinds['unknown token'] = kinds.get('unknown token', 0) + 1
            ctx.oblige(e.snap(st, pl) == e.snap(st, self_) and not aps, 'unknown token', 'a reply for an unknown token changes the pipeline: %s\n%s' % (e.show(e.snap(st, pl)), tr()))
            continue
        task = sym('mapget', d0[1], tok)
        first = aps[0] if aps else None
        if not ctx.oblige(first is not None and strip(first.args[0]) == task, 'reply runs the waiting task', 'a reply runs %s instead of the task registered under its token\n%s' % (
                e.show(first.args[0]) if first else 'nothing', tr())):
            continue
        o = outcome_of(e, st, first)
        kinds[o] = kinds.get(o, 0) + 1
        ident = id_of(e, st, evs, task)
        if o == 'Terminate':
            continue
        ctx.oblige(len(aps) == 1, 'reply runs one task', 'a reply runs %d tasks\n%s' % (len(aps), tr()))
        ctx.oblige(x.f(pl, 'teardown_tasks') == t0, 'reply keeps teardown', 'a reply that does not terminate changes the teardown actions\n%s' % tr())
        want_def, ids, wq = [], [], [('all', q0[1])]
        if o in ('Done', 'Failed'):
            ids = [ident]
        elif o == 'Requeued':
            ids = [ident]
            rs = payload(e, first, 'Requeued', '0')
            wq = [('all', rs[1]), ('all', q0[1])]
        elif o == 'Deferred':
            want_def = [(payload(e, first, 'Deferred', 'token_id'), payload(e, first, 'Deferred', 'pending'))]
        else:
            ctx.oblige(False, 'outcome of a reply not looked at', 'what became of the waiting task is ignored\n%s' % tr())
            continue
        got = x.f(pl, 'task_queue')
        okq = canon(e, st, got) == [w for w in wq if more(st, ('s', w[1]), 0) != 0]
        ctx.oblige(okq, 'queue after a reply (%s)' % o, 'queue after a reply is %s, expected %s\n%s' % (e.show(e.snap(st, got)), [e.show_term(w[1]) for w in wq], tr()))
        ctx.oblige(done_is(e, st, x.f(pl, 'completed_tasks'), c0, ids), 'completed after a reply (%s)' % o, 'completed tasks after a reply that ended %s are %s\n%s' % (o, e.show(e.snap(st, x.f(pl, 'completed_tasks'))), tr()))
        ctx.oblige(map_is(e, st, x.f(pl, 'deferred_tasks'), d0, want_def, tok), 'in flight after a reply (%s)' % o, 'calls in flight after a reply are %s\n%s' % (e.show(e.snap(st, x.f(pl, 'deferred_tasks'))), tr()))
        if o in ('Done', 'Requeued', 'Failed'):
            ctx.oblige(ident is not None, 'id of the finished task', 'the finished task is not identified\n%s' % tr())
        ctx.oblige(x.f(pl, 'terminated') == x.f(self_, 'terminated'), 'reply changes terminated', 'a reply that does not terminate changes the terminated flag\n%s' % tr())
    for k in ('unknown token', 'Done', 'Requeued', 'Deferred', 'Failed', 'Terminate'):
        ctx.floor('reply paths: ' + k, kinds.get(k, 0), 1)
    ctx.sample('reply paths by outcome: %s' % kinds)


def builder(ctx, x):
    """the tasks given to a pipeline are its queue, in the given order; a new pipeline has nothing else"""
    p = ctx.p
    fi = p.find1('executor::Pipeline::with_tasks')
    e = base.make(p)
    ps = e.params(fi)
    for st in e.run(fi):
        ctx.oblige(x.f(st.result, 'task_queue') == ps[1] and all(x.f(st.result, r) == x.f(ps[0], r) for r in x.ix if r != 'task_queue'),
                   'with_tasks', 'with_tasks does not make exactly the given tasks the queue: %s' % e.show(e.snap(st, st.result)))
    ctx.engine_stats(e)
    fi = p.find1('executor::Pipeline::new')
    e = base.make(p)
    for st in e.run(fi):
        for r in ('task_queue', 'deferred_tasks', 'completed_tasks', 'teardown_tasks'):
            ctx.oblige(is_empty(e, st, x.f(st.result, r)) == 1, 'new pipeline: ' + r, 'a new pipeline starts with %s = %s' % (r, e.show(e.snap(st, x.f(st.result, r)))))
        ctx.oblige(x.f(st.result, 'terminated') == C(0), 'new pipeline: terminated', 'a new pipeline is terminated')
    ctx.engine_stats(e)
