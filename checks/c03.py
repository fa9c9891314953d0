"""C03: termination stops the pipeline and its reply is sent once."""
from engine.exe import *
from engine import blue
from .c04 import torn, more_map, more_n

EXPLANATION = '''Every abstract path of Pipeline::eval and Pipeline::digest on which a task ends the request is checked for what must follow
(terminal task once, nothing queued, placeholders for everything in flight, teardown, terminated flag, no resume), and every Task::apply path
for when it may end the request and what the terminal task it hands over does.'''
REPLY = 'resolver::AttributeResolver::send_http_reply'
ACTS = [REPLY, 'context::ReqRespCtx::set_attribute', 'resolver::AttributeResolver::set_attribute_map', 'resolver::AttributeResolver::set_attribute', DISPATCH]
TEST = 'cel::Predicate::test'
BND = {'context::ValueStore::store': boundary, 'context::ReqRespCtx::set_attribute': boundary}


def check(ctx):
    ctx.rule('on a Terminate outcome: the terminal task is applied exactly once and nothing else runs, the queue is empty, the terminated flag is set, every call in flight (and no other) is represented by a placeholder that only consumes its reply, and teardown follows')
    ctx.rule('completion of a pipeline reports should_resume = not terminated, and only termination sets the flag')
    ctx.rule('tasks end the request only when configured terminal (or failure mode deny), a terminal task that acted always ends it, and acting plus terminal task send at most one reply')
    ctx.rule('wrappers hand a Terminate on with a terminal task that runs the inner one once')
    x = Exec(ctx)
    executor(ctx, x)
    tasks(ctx)


def placeholders(ctx, x, e, st, pl, d0, base_t, here, extra, where, tr):
    """in flight after termination == everything in flight before, as placeholders"""
    m = x.f(pl, 'deferred_tasks')
    keys = []
    if m[0] != 'm':
        ctx.oblige(False, where + ' keeps waiting tasks', 'calls in flight keep their tasks after termination: %s\n%s' % (e.show(e.snap(st, m)), tr()))
        return 0
    n = 0
    for s in m[1]:
        if s[0] == 'rest':
            ctx.oblige(False, where + ' keeps waiting tasks', 'some calls in flight keep their tasks after termination\n%s' % tr())
            continue
        k = strip(e.snap(st, s[1]))
        keys.append(k)
        h = concrete_ty(e, st, s[2])
        ctx.oblige(h is not None and not h.startswith('dyn '), where + ' keeps a waiting task', 'the waiting task of token %s survives termination\n%s' % (e.show(k), tr()))
        if h is None or h.startswith('dyn '):
            continue
        n += run_placeholder(ctx, x, e, st, s[2], where)
    want = []
    i = 0
    while more_n(st, base_t, i) == 1:
        want.append(sym('key', base_t, i))
        i += 1
    ctx.oblige(more_n(st, base_t, i) == 0 or i >= e.klimit(base_t), where + ' replaces partially', 'not all calls in flight are replaced by placeholders on termination\n%s' % tr())
    want += [strip(e.snap(st, w)) for w in here] + [strip(e.snap(st, w)) for w in extra]
    ctx.oblige(sorted(map(repr, keys)) == sorted(map(repr, want)), where + ' loses a call in flight', 'calls in flight after termination: %s, expected %s\n%s' % (
        [e.show(k) for k in keys], [e.show(k) for k in want], tr()))
    return n


_seen = set()


def run_placeholder(ctx, x, e, st, task, where):
    sig = (where, repr(e.snap(st, task)))
    if sig in _seen:
        return 0
    _seen.add(sig)
    cv = e.box(st, sym('somectx'))
    n = 0
    for s2 in run_task(e, st, task, cv):
        v, _ = outcome(e, s2)
        ctx.oblige(v == 'Done', where + ' placeholder outcome', 'a placeholder ends %s instead of Done\n%s' % (v, trace_text(e, s2)))
        bad = [ev for ev in s2.events() if ev.kind == 'call' and not matches(ev.path, ('context::Barrier::lower', 'tasks::Task::id', 'context::ReqRespCtx::get_grpc_response_data'))
               and (matches(ev.path, tuple(EFF)) or 'AttributeResolver' in ev.path or ev.path == 'callable')]
        ctx.oblige(not bad, where + ' placeholder acts', 'a placeholder does more than consuming the reply: %s' % [b.path for b in bad])
        n += 1
    ctx.oblige(n > 0, where + ' placeholder runs', 'placeholder has no analysable path')
    return 1


def executor(ctx, x):
    p = ctx.p
    _seen.clear()
    ty = p.adt('executor::PipelineState')
    n_t = n_ph = n_c = 0
    for K in (1, 2):
        P, self_ = x.eval_paths(K)
        e = P.e
        q0, d0, t0, fl0 = [x.f(self_, r) for r in ('task_queue', 'deferred_tasks', 'teardown_tasks', 'terminated')]
        for st in P.states:
            if dup_token(e, st):
                continue
            evs = st.events()
            tr = lambda: trace_text(e, st)
            aps = calls(evs, APPLY)
            term = [ev for ev in aps if elem_no(ev.args[0], q0) is not None and outcome_of(e, st, ev) == 'Terminate']
            v = variant_of(e, st, st.result, ty)
            if not term:
                if v == 'Completed':
                    n_c += 1
                    ctx.oblige(field(e, st.result, ty, 'Completed', 'should_resume') == e.mk_not(fl0), 'should_resume', 'completion reports should_resume = %s instead of "not terminated"\n%s' % (
                        e.show(field(e, st.result, ty, 'Completed', 'should_resume')), tr()))
                elif v == 'InProgress':
                    pl = deref(e, st, field(e, st.result, ty, 'InProgress', '0'), 1)
                    ctx.oblige(x.f(pl, 'terminated') == fl0, 'terminated flag', 'a round without termination changes the terminated flag\n%s' % tr())
                continue
            n_t += 1
            t = term[0]
            after = evs[evs.index(t) + 1:]
            task = payload(e, t, 'Terminate', '0')
            ran = [ev for ev in calls(after, APPLY)]
            ctx.oblige(len(ran) == 1 and strip(ran[0].args[0]) == strip(task), 'round: terminal task', 'after a task ended the request, %s run instead of exactly its terminal task\n%s' % ([e.show(r.args[0]) for r in ran], tr()))
            here = [payload(e, ev, 'Deferred', 'token_id') for ev in aps if elem_no(ev.args[0], q0) is not None and outcome_of(e, st, ev) == 'Deferred']
            tear = [w for w, _ev in torn(e, st, evs)]
            if v == 'InProgress':
                pl = deref(e, st, field(e, st.result, ty, 'InProgress', '0'), 1)
                ctx.oblige(is_empty(e, st, x.f(pl, 'task_queue')) == 1, 'round: queue after termination', 'tasks stay queued after termination: %s\n%s' % (e.show(e.snap(st, x.f(pl, 'task_queue'))), tr()))
                ctx.oblige(x.f(pl, 'terminated') == C(1), 'round: terminated flag', 'the pipeline is not marked terminated\n%s' % tr())
                n_ph += placeholders(ctx, x, e, st, pl, d0, d0[1], here, tear, 'round', tr)
                teardown_done(ctx, x, e, st, pl, t0, evs, ran, 'round', tr)
            elif v == 'Completed':
                ctx.oblige(field(e, st.result, ty, 'Completed', 'should_resume') == C(0), 'round: resume after termination', 'a terminated pipeline asks for the request to be resumed (%s)\n%s' % (
                    e.show(field(e, st.result, ty, 'Completed', 'should_resume')), tr()))
                ctx.oblige(more_map(st, d0) == 0 and not here and not tear, 'round: loses a call in flight', 'a terminated pipeline completes while calls are in flight\n%s' % tr())
                teardown_done(ctx, x, e, st, None, t0, evs, ran, 'round', tr)
            else:
                ctx.oblige(False, 'round: result', 'a terminated round ends with %s' % e.show(st.result))
    P, par = x.digest_paths()
    e = P.e
    self_ = par[0]
    d0, t0 = x.f(self_, 'deferred_tasks'), x.f(self_, 'teardown_tasks')
    n_d = 0
    for st in P.states:
        if dup_token(e, st):
            continue
        evs = st.events()
        tr = lambda: trace_text(e, st)
        aps = calls(evs, APPLY)
        ends = calls(evs, EVAL)
        if not aps or not ends or outcome_of(e, st, aps[0]) != 'Terminate':
            continue
        n_d += 1
        pl = ends[0].raw[0]
        ctx.oblige(len(aps) == 2 and strip(aps[1].args[0]) == strip(payload(e, aps[0], 'Terminate', '0')), 'reply: terminal task', 'a reply that ends the request runs %s instead of exactly the terminal task\n%s' % (
            [e.show(a.args[0]) for a in aps[1:]], tr()))
        ctx.oblige(is_empty(e, st, x.f(pl, 'task_queue')) == 1, 'reply: queue after termination', 'tasks stay queued after termination: %s\n%s' % (e.show(e.snap(st, x.f(pl, 'task_queue'))), tr()))
        ctx.oblige(x.f(pl, 'terminated') == C(1), 'reply: terminated flag', 'the pipeline is not marked terminated\n%s' % tr())
        base_t = TIX.get(('without', d0[1], par[1]))
        if ctx.oblige(base_t is not None, 'reply: token kept', 'the answered token stays in flight\n%s' % tr()):
            n_ph += placeholders(ctx, x, e, st, pl, d0, base_t, [], [w for w, _ev in torn(e, st, evs)], 'reply', tr)
        teardown_done(ctx, x, e, st, pl, t0, evs, aps[1:2], 'reply', tr)
    ctx.floor('abstract terminations in a round', n_t, 20)
    ctx.floor('abstract terminations by a reply', n_d, 5)
    ctx.floor('placeholders run', n_ph, 3)
    ctx.floor('completions', n_c, 3)
    # the getter the filter asks
    fi = p.find1('executor::Pipeline::is_terminated')
    e = base.make(p)
    for st in e.run(fi):
        want = sym('fld', T('deref', e.params(fi)[0][1]), 0, x.ix['terminated'])
        ctx.oblige(st.result == want, 'is_terminated', 'is_terminated() reports %s' % e.show(st.result))
    ctx.engine_stats(e)


def teardown_done(ctx, x, e, st, pl, t0, evs, ran, where, tr):
    ts = calls(evs, TEAR)
    n, ex = count(st, t0)
    ok = (ex or n >= e.klimit(t0[1])) and [elem_no(t.args[0], t0) for t in ts] == list(range(n))
    ctx.oblige(ok, where + ': teardown after termination', 'termination runs teardown actions %s of %d\n%s' % ([e.show(t.args[0]) for t in ts], n, tr()))
    if ran and ts:
        ctx.oblige(evs.index(ran[0]) < evs.index(ts[0]), where + ': teardown before the reply', 'teardown runs before the terminal task\n%s' % tr())


# ----------------------------------------------------------------------------- tasks
def flag(e, st, task_self, ix):
    v = getf(e.deref(st, task_self) if task_self[0] != 'a' else task_self, 0, ix)
    return e.truth(st, v)


def tasks(ctx):
    p = ctx.p
    F = blue.flow(ctx)
    ai = F.action_ix('terminal')
    ctx.oblige(len(ai) == 1, 'terminal reaches compiled actions', 'the configured terminal flag is carried by %s fields of a compiled action' % sorted(ai))
    tix = F.task_ix(next(iter(ai))) if ai else {}
    ctx.floor('task kinds that carry the terminal flag', len(tix), 4)
    for st, a in F.compiled:
        v = getf(a, 0, next(iter(ai)))
        k = TERMS[v[1]] if v[0] == 's' else ('',)
        ctx.oblige(k[0] == 'fld' and p.is_adt(TTY.get(k[1]), 'TypedAction') and k[3] == p.field_ix(p.adt('configuration::TypedAction'), 'terminal'), 'compiled terminal flag', 'a compiled action is terminal iff %s' % F.C.e.show(v))
    kinds = 0
    for h, fi in task_impls(p):
        name = short_head(h)
        eff = ACTS + [TEST, 'cel::Expression::eval', APPLY, 'context::ValueStore::store']
        if not ctx.g.reach_named(fi, lambda y: matches(y, tuple(eff)), lambda y: matches(y, (TEST,))):
            P = Paths(ctx, fi, effects=eff, K=1)
            for st in P.states:
                v, _ = outcome(P.e, st)
                if any(ev.path == 'callable' for ev in st.events()):
                    continue
                ctx.oblige(v != 'Terminate', name + ' ends the request', '%s ends the request' % p.where(fi))
            continue
        P = Paths(ctx, fi, effects=eff, extra=BND, K=1, keep=task_keep(p, h), quiet_drops=('context::PathReservation',))
        e = P.e
        kinds += 1
        done = set()
        for st in P.states:
            evs = st.events()
            v, oty = outcome(e, st)
            inner = calls(evs, APPLY)
            tr = lambda: trace_text(e, st)
            if inner:
                wrapper(ctx, e, st, inner[0], v, name, fi, tr)
                continue
            if any(ev.path == 'callable' for ev in evs):
                continue
            fl = [flag(e, st, e.params(fi)[0], i) for i in tix.get(h, ())]
            if v == 'Terminate':
                ctx.oblige(fl == [1], name + ' terminates only if terminal', '%s ends the request although it is not known to be configured terminal\n%s' % (p.where(fi), tr()))
                n_r = len(calls(evs, REPLY))
                best = []
                term = ofield(e, st, 'Terminate', '0')
                sig = (repr(e.snap(st, term)), n_r)
                if sig in done:
                    continue
                done.add(sig)
                for s2 in run_task(e, st, term, ctx_param(e, fi)):
                    r = len(calls(s2.events(), REPLY))
                    others = [ev.path for ev in s2.events() if matches(ev.path, tuple(ACTS[1:]) + (APPLY,))]
                    best.append(r)
                    ctx.oblige(n_r + r <= 1 and not others, name + ' replies once', '%s: ending the request sends %d replies\n%s%s' % (p.where(fi), n_r + r, tr(), trace_text(e, s2)))
                ctx.oblige(n_r + max(best or [0]) == 1, name + ' replies', '%s: ending the request sends no reply at all\n%s' % (p.where(fi), tr()))
            elif v == 'Done' and tix.get(h):
                acted = [ev for ev in evs if matches(ev.path, tuple(ACTS) + ('context::ValueStore::store',)) and ev.kind == 'call']
                passed = any(test_true(e, st, ev) for ev in calls(evs, TEST))
                if acted or (passed and not calls(evs, 'cel::Expression::eval')):
                    ctx.oblige(fl == [0], name + ' terminal action goes on', '%s acted and is done although it may be configured terminal\n%s' % (p.where(fi), tr()))
    ctx.floor('task kinds analysed for termination', kinds, 6)


def test_true(e, st, ev):
    """did this predicate test evaluate to true on the path?"""
    r = ev.ret
    t = r[1] if r[0] == 's' else None
    rty = TTY.get(t)
    if rty is None or e.known(st, e.mkdisc(t, rty)[1]) != 0:
        return None
    a = getf(r, 0, 0)
    aty = e.p.types[rty]['v'][0][2][0][1]
    vn = variant_of(e, st, a, aty)
    if vn != 'Available':
        return None
    b = field(e, a, aty, 'Available', '0')
    return e.truth(st, b) == 1


def wrapper(ctx, e, st, inner, v, name, fi, tr):
    p = ctx.p
    o = outcome_of(e, st, inner)
    if o != 'Terminate':
        return
    if not ctx.oblige(v == 'Terminate', name + ' swallows termination', '%s turns a Terminate of the wrapped task into %s\n%s' % (p.where(fi), v, tr())):
        return
    orig = payload(e, inner, 'Terminate', '0')
    got = ofield(e, st, 'Terminate', '0')
    if strip(e.snap(st, got)) == strip(orig):
        return
    for s2 in run_task(e, st, got, ctx_param(e, fi)):
        a = calls(s2.events(), APPLY)
        ctx.oblige(len(a) == 1 and strip(a[0].args[0]) == strip(orig), name + ' terminal task', '%s: the terminal task handed on runs %s instead of the original once\n%s' % (p.where(fi), [e.show(y.args[0]) for y in a], trace_text(e, s2)))
