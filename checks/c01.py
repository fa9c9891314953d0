"""C01: a guard call holds the request exactly until its reply is handled."""
from engine.pipe import *
from engine import blue

EFF = ['context::Barrier::raise', 'context::Barrier::lower', DISPATCH, 'tasks::Task::apply',
       'tasks::TeardownAction::execute', 'cel::Predicate::test', 'cel::Expression::eval']
HOLD = ('context::Barrier::raise', 'context::Barrier::lower')
EXTRA = {'context::Barrier::raise': boundary, 'context::Barrier::lower': boundary}
STOP = ('cel::Predicate::test', 'cel::Expression::eval')


def counts(evs):
    return len(calls(evs, 'context::Barrier::raise')), len(calls(evs, 'context::Barrier::lower'))


def dispatched(e, st, evs):
    """dispatch host calls of this path whose result was found to be Ok (None: undecided)"""
    n = 0
    und = False
    for ev in calls(evs, DISPATCH):
        d = e.mkdisc(ev.ret[1], TTY.get(ev.ret[1]))
        k = e.known(st, d[1])
        if k == 0:
            n += 1
        elif k is None:
            und = True
    return n, und


def check(ctx):
    p, g = ctx.p, ctx.g
    ctx.rule('who may change the number of holds: Barrier::raise/lower are called only from task code that reports the hold; the counter field is written only by them')
    ctx.rule('typestate per abstract path of every Task::apply: raise happens exactly once iff the path has an Ok dispatch result and the task is a guard; the deferred waiting task reports is_guard() iff raised and its own processing lowers exactly once on each of its paths iff raised')
    ctx.rule('wrappers: apply calls the inner task once, raises/lowers nothing, and reports is_guard() of the inner task, before and after deferral')
    ctx.rule('executor: a reply runs the registered task once; every replacement of an in-flight task reports the same is_guard() and lowers exactly iff it was a guard')
    counter(ctx)
    tasks(ctx)
    executor(ctx)
    released(ctx)
    marking(ctx)


def released(ctx):
    """a waiting task is what releases the hold of its call: it runs when its reply arrives, and until then
    its token stays in flight"""
    from . import c04
    from .c04 import Exec, dup_token, outcome_of, payload, strip, more_n, more_map, elem_no, EVAL, APPLY
    ctx.rule('executor: the reply of a call in flight runs the task registered for it; every other token in flight, and every token of a task that deferred meanwhile, is in flight afterwards')
    p = ctx.p
    x = Exec(ctx)
    n = {'reply': 0, 'round': 0}

    def tokens(e, st, m, base):
        """(keys added, complete: all entries of the initial map kept)"""
        if m == base:
            return [], True
        if m[0] != 'm':
            return None, False
        t = base[1]
        old, new, rest = [], [], []
        for s in m[1]:
            if s[0] == 'rest':
                rest.append(s)
                continue
            k = strip(e.snap(st, s[1]))
            if k[0] == 's' and TERMS[k[1]][0] == 'key' and TERMS[k[1]][1] == t:
                old.append(TERMS[k[1]][2])
            else:
                new.append(k)
        okr = (len(rest) == 1 and rest[0][1] == t and rest[0][2] == len(old)) or (not rest and (more_n(st, t, len(old)) == 0 or len(old) >= e.klimit(t)))
        return new, okr and sorted(old) == list(range(len(old)))

    def judge(e, st, m, base, aps, where):
        got, whole = tokens(e, st, m, base)
        want = [strip(e.snap(st, payload(e, ev, 'Deferred', 'token_id'))) for ev in aps if outcome_of(e, st, ev) == 'Deferred']
        want += [strip(e.snap(st, w)) for w, _ev in c04.torn(e, st, st.events())]
        n[where] += 1
        ok = got is not None and whole and sorted(map(repr, got)) == sorted(map(repr, want))
        ctx.oblige(ok, where + ' loses a call in flight', 'after a %s the calls in flight are %s; expected all others kept and %s: the hold of a lost call is never released\n%s' % (
            where, e.show(e.snap(st, m)), [e.show(w) for w in want], trace_text(e, st)))

    P, par = x.digest_paths()
    e = P.e
    d0, tok = x.f(par[0], 'deferred_tasks'), par[1]
    for st in P.states:
        if dup_token(e, st):
            continue
        evs = st.events()
        ends = calls(evs, EVAL)
        hk = TIX.get(('haskey', d0[1], tok))
        f = st.facts.get(hk) if hk is not None else None
        aps = calls(evs, APPLY)
        if f == ('=', 1):
            mine = [a for a in aps if strip(a.args[0]) == sym('mapget', d0[1], tok)]
            ctx.oblige(len(mine) == 1, 'reply runs the waiting task', 'the reply of a call in flight runs its waiting task %d times: the hold of a guard is not released exactly once\n%s' % (len(mine), trace_text(e, st)))
        if not ends:
            ctx.oblige(False, 'reply without a round', 'a reply is not followed by an evaluation round\n%s' % trace_text(e, st))
            continue
        m = x.f(ends[0].raw[0], 'deferred_tasks')
        bt = TIX.get(('without', d0[1], tok)) if f == ('=', 1) else d0[1]
        ctx.oblige(bt is not None, 'reply: token kept', 'an answered token stays in flight\n%s' % trace_text(e, st))
        if bt is not None:
            judge(e, st, m, ('s', bt), aps[:1] if f == ('=', 1) else [], 'reply')
    ty = p.adt('executor::PipelineState')
    P, self_ = x.eval_paths(1)
    e = P.e
    q0, d0 = x.f(self_, 'task_queue'), x.f(self_, 'deferred_tasks')
    for st in P.states:
        if dup_token(e, st):
            continue
        aps = [a for a in calls(st.events(), APPLY) if elem_no(a.args[0], q0) is not None]
        if variant_of(e, st, st.result, ty) == 'InProgress':
            judge(e, st, x.f(deref(e, st, field(e, st.result, ty, 'InProgress', '0'), 1), 'deferred_tasks'), d0, aps, 'round')
        else:
            late = [a for a in aps if outcome_of(e, st, a) == 'Deferred']
            ctx.oblige(more_map(st, d0) == 0 and not late, 'round: completes with a call in flight', 'the pipeline completes although calls are in flight\n%s' % trace_text(e, st))
    ctx.floor('replies followed', n['reply'], 10)
    ctx.floor('rounds followed', n['round'], 10)


def counter(ctx):
    p, g = ctx.p, ctx.g
    # the counter: only raise/lower write it
    bt = p.adt('context::Barrier')
    fields = p.types[bt]['v'][0][2]
    ctx.oblige(len(fields) == 1, 'Barrier fields', 'Barrier is expected to consist of one counter, found %s' % [f[0] for f in fields])
    for name, op in (('raise', 1), ('lower', -1)):
        fi = p.find1('context::Barrier::' + name)
        e = base.make(p)
        for st in run_all(ctx, e, fi):
            b = e.deref(st, e.params(fi)[0])
            n = getf(b, 0, 0)
            old = sym('fld', T('deref', e.params(fi)[0][1]), 0, 0)
            okk, how = step_of(e, st, n, old, op)
            ctx.oblige(okk, 'Barrier::%s step' % name, 'Barrier::%s leaves the counter at %s (%s)' % (name, e.show(n), how))
    fi = p.find1('context::Barrier::is_tripped')
    e = base.make(p)
    for st in run_all(ctx, e, fi):
        old = sym('fld', T('deref', e.params(fi)[0][1]), 0, 0)
        want = e.mk_not(e.mk_eq(st, old, C(0)))
        tv = e.truth(st, st.result)
        kz = e.truth(st, e.mk_eq(st, old, C(0)))
        ok = st.result == want or (tv is not None and kz is not None and tv == 1 - kz)
        ctx.oblige(ok, 'Barrier::is_tripped', 'is_tripped is not "counter > 0": %s' % e.show(st.result))
    fi = p.find1('executor::Pipeline::requires_pause')
    e = base.make(p, {'context::Barrier::is_tripped': base.pure_boundary})
    for st in run_all(ctx, e, fi):
        evs = calls(st.events(), 'context::Barrier::is_tripped')
        ctx.oblige(len(evs) == 1 and st.result == evs[0].ret, 'Pipeline::requires_pause', 'requires_pause must be exactly Barrier::is_tripped, got %s' % e.show(st.result))
    # writers of the field from outside the type
    for i, f in enumerate(p.fns):
        if not f['l'] or f['b'] is None:
            continue
        if f['p'].endswith(('context::Barrier::raise', 'context::Barrier::lower')) or 'Barrier as core::' in f['p']:
            continue
        for b in f['b']['bb']:
            for s in b['s']:
                if s[0] == '=' and writes_into(p, f, s[1], bt):
                    ctx.oblige(False, 'Barrier counter written in ' + fname(p, i), 'the hold counter is written outside raise/lower in %s' % p.where(i, s[3]))


def run_all(ctx, e, fi):
    r = e.run(fi)
    ctx.engine_stats(e)
    return r


def step_of(e, st, n, old, op):
    if n == old:
        z = e.truth(st, e.mk_eq(st, old, C(0)))
        if op < 0 and z == 1:
            return True, 'stays 0'
        # checked_sub None branch: the subtraction did not exist
        t = [k for k, v in st.facts.items() if v == ('=', 0) and term_mentions(k, lambda x: x[0] == 'call' and 'checked_sub' in x[1])]
        if op < 0 and (t or any(TERMS[k][0] == 'lt' for k in st.facts)):
            return True, 'underflow branch'
        return False, 'unchanged'
    k = TERMS[n[1]] if n[0] == 's' else None
    if k is None:
        return False, 'not derived from the old value'
    txt = e.show(n, 8)
    if k[0] in ('Add', 'Sub') and k[1] == old and k[2] == C(1):
        return k[0] == ('Add' if op > 0 else 'Sub'), k[0]
    if k[0] == 'call' and len(k[2]) == 2 and list(k[2]) == [old, C(1)]:
        return k[1].split('::')[-1].split('_', 1)[-1] == ('add' if op > 0 else 'sub'), txt
    if k[0] == 'fld':
        return step_of(e, st, ('s', k[1]), old, op)
    return False, txt


def writes_into(p, f, pl, bt):
    """does this place write a field of a Barrier?"""
    ty = f['b']['ls'][pl[0]][0]
    for pr in pl[1]:
        t = p.types[ty] if ty is not None else None
        if pr == '*':
            if t is None:
                return False
            ty = t['t'] if t['k'] in ('ref', 'ptr') else (t['a'][0] if t['k'] == 'adt' and t['a'] else None)
        elif isinstance(pr, (list, tuple)) and pr[0] == 'f':
            if ty == bt:
                return True
            ty = pr[2]
    return False


def tasks(ctx):
    p, g = ctx.p, ctx.g
    impls = task_impls(p)
    ctx.floor('Task implementations', len(impls), 9)
    guards = 0
    wrappers = 0
    allowed = set()
    for h, fi in impls:
        name = short_head(h)
        r = g.reach_named(fi, lambda x: base.matches(x, HOLD + (DISPATCH, 'tasks::Task::apply')), lambda x: base.matches(x, STOP))
        if not r:
            ctx.oblige(True, name, '')
            ctx.sample('%s::apply reaches no hold, no dispatch and no other task' % name)
            continue
        allowed.add(g.root_fn(fi))
        P = Paths(ctx, fi, effects=EFF, extra=EXTRA)
        e = P.e
        ctxv = ctx_param(e, fi)
        n_guard = 0
        for st in P.states:
            evs = st.events()
            up, down = counts(evs)
            disp, und = dispatched(e, st, evs)
            inner = calls(evs, 'tasks::Task::apply')
            v, _ = outcome(e, st)
            key = '%s::apply' % name
            where = p.where(fi)
            if inner:
                ctx.oblige(len(inner) == 1, key + ' runs the inner task once', '%s runs the inner task %d times' % (where, len(inner)))
                ctx.oblige(up == 0 and down == 0, key + ' wrapper changes holds', '%s: a wrapper raises/lowers holds itself' % where)
                if v == 'Deferred':
                    wrapped_deferred(ctx, e, st, inner[0], key, where)
                continue
            if opaque_callable(evs):
                # a waiting task: it must not touch the holds itself, its processor does
                ctx.oblige(up == 0 and down == 0, key + ' waiting task changes holds', '%s changes holds besides its processor' % where)
                ctx.oblige(len([x for x in evs if x.path == 'callable']) == 1, key + ' runs its processor once', '%s must run its processor exactly once' % where)
                continue
            ctx.oblige(down == 0, key + ' lowers before the reply', '%s lowers a hold before the reply was handled\n%s' % (where, trace_text(e, st)))
            ctx.oblige(not und, key + ' ignores the dispatch result', '%s goes on without looking at the dispatch result\n%s' % (where, trace_text(e, st)))
            if v == 'Deferred':
                ctx.oblige(disp == 1, key + ' deferred without dispatch', '%s defers with %d successful dispatches\n%s' % (where, disp, trace_text(e, st)))
                pend = ofield(e, st, 'Deferred', 'pending')
                for s2, gv in task_fact(e, st, pend, 'is_guard'):
                    gt = e.truth(s2, gv)
                    # split on the guard flag if the path never looked at it
                    for s3, flag in split(e, s2, gv, gt):
                        ctx.oblige(up == flag, key + ' raise iff guard', '%s: waiting task with is_guard()=%s although %d holds were raised\n%s' % (where, bool(flag), up, trace_text(e, st)))
                        waiting(ctx, e, s3, pend, ctxv, flag, key, where)
                        n_guard += flag
                for s2, gv in task_fact(e, st, self_box(e, fi), 'is_guard'):
                    for s3, flag in split(e, s2, gv, e.truth(s2, gv)):
                        ctx.oblige(up == flag, key + ' raise iff the task is a guard', '%s: the task reports is_guard()=%s but %d holds were raised (%s)' % (where, bool(flag), up, e.show(gv)))
            else:
                ctx.oblige(up == 0, key + ' raise without waiting task', '%s raises a hold but ends %s without a waiting task\n%s' % (where, v, trace_text(e, st)))
                ctx.oblige(disp == 0, key + ' dispatch without waiting task', '%s dispatches a call but ends %s without a waiting task\n%s' % (where, v, trace_text(e, st)))
        if any(calls(s.events(), 'tasks::Task::apply') for s in P.states):
            wrappers += 1
            wrapper_methods(ctx, h)
        if n_guard:
            guards += 1
        ctx.sample('%s::apply: %d abstract paths, %d guard/non-guard continuations of the waiting task' % (name, len(P.states), n_guard))
    ctx.floor('task kinds that raise holds', guards, 1)
    ctx.floor('task wrappers', wrappers, 2)
    # who may call raise/lower at all
    noop = set()
    for s, path in g.calls_named(lambda path, c: base.matches(path, HOLD)):
        r = g.root_fn(s.fi)
        f = p.fns[r]
        if not f['l']:
            continue
        # the caller must be reachable only from task processing: it is one of the analysed tasks, or it
        # belongs to a waiting-task processor analysed below
        src = g.rreach({s.fi})
        entry = [x for x in src if p.fns[x].get('ti') and p.fns[x]['ti'].endswith(('Task::apply',))] or [x for x in src if 'executor::Pipeline' in p.fns[x]['p']]
        ctx.oblige(bool(entry), 'hold changed in ' + fname(p, r), '%s changes the number of holds outside of task processing' % p.where(s.fi, s.line))
        noop.add(fname(p, r))
    ctx.notes['functions changing holds'] = sorted(noop)
    for h, fi in p.trait_impls('tasks::TeardownAction', 'execute'):
        r = g.reach_named(fi, lambda x: base.matches(x, HOLD), lambda x: base.matches(x, STOP))
        ctx.oblige(not r, 'teardown %s changes holds' % short_head(h), 'teardown action %s reaches %s' % (p.where(fi), sorted(r)))


def self_box(e, fi):
    return e.params(fi)[0]


def opaque_callable(evs):
    return any(x.path == 'callable' for x in evs)


def split(e, st, v, tv):
    """states with v true and false (as far as possible)"""
    if tv is not None:
        return [(st, tv)]
    out = []
    for b in (1, 0):
        s2 = st.fork()
        s2.result = st.result
        try:
            e.assume(s2, v[1], b)
        except Infeasible:
            continue
        out.append((s2, b))
    return out


def waiting(ctx, e, st, pend, ctxv, flag, key, where):
    """run the deferred waiting task: lowers exactly `flag` times on each path"""
    n = 0
    for s2 in run_task(e, st, pend, ctxv):
        up, down = counts(s2.events())
        n += 1
        v, _ = outcome(e, s2)
        ctx.oblige(up == 0 and down == flag, key + ' reply lowers', '%s: handling the reply of a %s call lowers %d and raises %d holds (outcome %s)\n%s' % (
            where, 'guard' if flag else 'non-guard', down, up, v, trace_text(e, s2)))
        ctx.cov['paths'] += 1
    ctx.oblige(n > 0, key + ' reply handling', '%s: the waiting task has no analysable path' % where)


def wrapped_deferred(ctx, e, st, inner, key, where):
    pend = ofield(e, st, 'Deferred', 'pending')
    orig = field(e, inner.ret, outcome_type(e.p), 'Deferred', 'pending')
    for s2, gv in task_fact(e, st, pend, 'is_guard'):
        ok = gv[0] == 's' and is_call_on(e, gv, 'tasks::Task::is_guard', orig)
        ctx.oblige(ok, key + ' deferred is_guard', '%s: the wrapped waiting task reports is_guard()=%s instead of asking the inner waiting task' % (where, e.show(gv)))


def is_call_on(e, v, name, recv):
    k = TERMS[v[1]]
    return k[0] == 'call' and base.matches(k[1], (name,)) and any(same_box(e, a, recv) for a in k[2][:1])


def same_box(e, a, recv):
    """a: snapshot of a reference to the boxed task; recv: the box"""
    def strip(x):
        while True:
            if x[0] == '&':
                x = x[1]
            elif x[0] == 's' and TERMS[x[1]][0] == 'deref':
                x = ('s', TERMS[x[1]][1])
            else:
                return x
    return strip(a) == strip(recv)


def wrapper_methods(ctx, h):
    p = ctx.p
    found = False
    for hh, fi in task_impls(p, 'is_guard'):
        if hh != h:
            continue
        found = True
        e = base.make(p)
        for st in run_all(ctx, e, fi):
            ok = st.result[0] == 's' and TERMS[st.result[1]][0] == 'call' and base.matches(TERMS[st.result[1]][1], ('tasks::Task::is_guard',))
            ctx.oblige(ok, '%s::is_guard' % short_head(h), '%s reports %s, not the inner task' % (p.where(fi), e.show(st.result)))
    ctx.oblige(found, '%s::is_guard' % short_head(h), 'wrapper %s does not forward is_guard() to the task it wraps: the pipeline takes a wrapped guard for a non-guard' % short_head(h))


def executor(ctx):
    p, g = ctx.p, ctx.g
    ev_ = 'executor::Pipeline::eval'
    di = p.find1('executor::Pipeline::digest')
    P = Paths(ctx, di, effects=EFF, extra=dict(EXTRA, **{ev_: boundary}))
    e = P.e
    ctxv = None
    n_found = n_repl = 0
    bt = p.adt('executor::Pipeline')
    for st in P.states:
        evs = st.events()
        up, down = counts(evs)
        ctx.oblige(up == 0 and down == 0, 'digest changes holds', 'Pipeline::digest changes holds itself\n%s' % trace_text(e, st))
        evals = calls(evs, ev_)
        applies = calls(evs, 'tasks::Task::apply')
        if not evals:
            continue
        pl = evals[0].args[0]
        raw = evals[0].raw[0]
        n_found += 1
        inflight(ctx, e, st, raw, evs, 'digest')
    ctx.floor('digest paths', n_found, 10)
    # termination inside an evaluation round: replacement of in-flight tasks
    ei = p.find1(ev_)
    P = Paths(ctx, ei, effects=EFF, extra=EXTRA, K=1)
    e = P.e
    n = 0
    for st in P.states:
        evs = st.events()
        up, down = counts(evs)
        ctx.oblige(up == 0 and down == 0, 'eval changes holds', 'Pipeline::eval changes holds itself\n%s' % trace_text(e, st))
        n += 1
        raw = pipeline_of(e, st, st.result)
        if raw is not None:
            inflight(ctx, e, st, raw, evs, 'eval')
    ctx.floor('eval paths', n, 20)


def pipeline_of(e, st, state):
    ty = e.p.adt('executor::PipelineState')
    if variant_of(e, st, state, ty) != 'InProgress':
        return None
    b = field(e, state, ty, 'InProgress', '0')
    return deref(e, st, b, 1)


_done = set()


def inflight(ctx, e, st, pl, evs, where):
    """every in-flight task of the resulting pipeline is one the pipeline was given (by a task or from
    before), or a placeholder whose guard flag and lowering equal those of the task it replaces"""
    p = ctx.p
    pt = p.adt('executor::Pipeline')
    m = field(e, pl, pt, None, 'deferred_tasks')
    if m[0] != 'm':
        return
    for s in m[1]:
        if s[0] != 'kv':
            continue
        task = s[2]
        h = concrete_ty(e, st, task)
        if h is None or h.startswith('dyn '):
            continue
        for s2, gv in task_fact(e, st, task, 'is_guard'):
            sig = (where, h, repr(gv), repr(e.snap(st, task)))
            if sig in _done:
                continue
            _done.add(sig)
            if gv[0] == 's':
                k = TERMS[gv[1]]
                ok = k[0] == 'call' and base.matches(k[1], ('tasks::Task::is_guard',))
                orig = k[2][0] if ok else None
                # the replaced task must be the one registered under the same token
                ok2 = ok and token_of(e, orig, s[1])
                ctx.oblige(ok2, '%s placeholder guard flag' % where, 'the placeholder for token %s reports is_guard()=%s, which is not the flag of the task it replaces' % (e.show(e.snap(st, s[1])), e.show(gv)))
                for s3, flag in split(e, s2, gv, e.truth(s2, gv)):
                    lowering(ctx, e, s3, task, flag, where)
            else:
                # constant: only for calls started by teardown, which never hold
                flag = 1 if gv[1] else 0
                td = [x for x in calls(evs, 'tasks::TeardownAction::execute') if mentions(e.snap(st, s[1]), lambda k: k == TERMS[x.ret[1]])]
                ctx.oblige(flag == 0 and bool(td), '%s placeholder with constant guard flag' % where, 'an in-flight task under token %s was replaced by one with the constant guard flag %s' % (e.show(e.snap(st, s[1])), flag))
                lowering(ctx, e, s2, task, flag, where)


def token_of(e, recv, key):
    """recv (receiver snapshot of is_guard) and the map key come from the same map entry / outcome"""
    def roots(v, d=10):
        out = set()

        def walk_t(t, d):
            if d == 0:
                return
            k = TERMS[t]
            if k[0] in ('key', 'val'):
                out.add(('entry',) + k[1:])
            out.add(t)
            for x in k[1:]:
                if isinstance(x, int) and not isinstance(x, bool) and k[0] in ('fld', 'deref', 'elem', 'idx', 'more'):
                    if x == k[1]:
                        walk_t(x, d - 1)
                elif isinstance(x, tuple):
                    walk(x, d - 1)

        def walk(v, d):
            if not isinstance(v, tuple) or d == 0:
                return
            if v and v[0] == 's' and len(v) == 2 and isinstance(v[1], int):
                walk_t(v[1], d)
                return
            for x in v:
                walk(x, d - 1)
        walk(v, d)
        return out
    a, b = roots(recv), roots(key)
    common = [x for x in a & b if not isinstance(x, int) or TERMS[x][0] not in ('param',)]
    return bool(common)


def lowering(ctx, e, st, task, flag, where):
    pl = e.params(e.p.find1('executor::Pipeline::eval'))[0]
    cv = e.box(st, sym('somectx'))
    for s2 in run_task(e, st, task, cv):
        up, down = counts(s2.events())
        ctx.oblige(up == 0 and down == flag, '%s placeholder lowers' % where, 'the placeholder of a %s call lowers %d and raises %d holds when its reply arrives\n%s' % (
            'guard' if flag else 'non-guard', down, up, trace_text(e, s2)))
        ctx.cov['paths'] += 1


def marking(ctx):
    """the configured guard flag reaches the running task"""
    p, g = ctx.p, ctx.g
    act = p.adt('blueprint::Action')
    P = blue.to_tasks_paths(ctx)
    e = P.e
    n = 0
    for st in P.states:
        tasks = getf(st.result, 0, 0)
        for t in blue.elems(tasks):
            dyn = blue.inner_aggs(e, st, t, lambda h: h.endswith('DynamicTask'))
            for s2, gv in (task_fact(e, st, t, 'is_guard') if dyn else []):
                n += 1
                ids = [r for _s, r in task_fact(e, s2, t, 'id')]
                own = {root_of(e, s2, r) for r in ids}
                a = blue.root_elem(gv)
                want = None
                if a is not None:
                    k = TERMS[gv[1]]
                    want = k[0] == 'fld' and k[3] == p.field_ix(act, 'is_guard')
                ctx.oblige(bool(want) and a in own, 'to_tasks guard flag', 'a service-calling task built by Blueprint::to_tasks reports is_guard()=%s, which is not the guard flag of its own action' % e.show(gv))
    ctx.floor('service-calling tasks built from actions', n, 5)
    P = blue.compile_paths(ctx)
    e = P.e
    bp = p.adt('blueprint::Blueprint')
    n = 0
    for st in P.states:
        rty = p.types[p.fns[P.fi]['b']['ls'][0][0]]
        if st.result[0] != 'a' or rty['v'][st.result[2]][0] != 'Ok':
            continue
        b = getf(st.result, st.result[2], 0)
        for i, a in enumerate(blue.elems(field(e, b, bp, None, 'actions'))):
            gv = field(e, a, act, None, 'is_guard')
            k = TERMS[gv[1]] if gv[0] == 's' else None
            n += 1
            okk = k is not None and k[0] == 'fld' and p.is_adt(TTY.get(k[1]), 'TypedAction') and k[3] == p.field_ix(p.adt('TypedAction'), 'is_guard')
            ctx.oblige(okk, 'compile guard flag', 'an action compiled by Blueprint::compile carries the guard flag %s instead of its configured one' % e.show(gv))
    ctx.floor('actions compiled', n, 5)


def root_of(e, st, v):
    return blue.root_elem(e.snap(st, deref(e, st, v)) if v[0] == 'r' else v)
