"""C05: teardown runs exactly once, when the pipeline is over."""
from engine.exe import *
from engine import blue
from .c04 import torn, more_map, map_is

EXPLANATION = '''On every abstract path of Pipeline::eval and Pipeline::digest the teardown actions run exactly when they must; ExportTracesTask::execute
is checked for the order of ending the request span and taking spans, and the executor for tracking calls started by teardown.'''
END = 'context::ReqRespCtx::end_request_span'
TAKE = 'BufferingSpanProcessor::take_pending_spans'


def check(ctx):
    ctx.rule('teardown actions run in a round iff a task ended the request, or nothing is queued and nothing in flight afterwards; then each runs once, in order, and none stays behind')
    ctx.rule('in a reply they run iff the waiting task ended the request')
    ctx.rule('a teardown call is tracked under its token until its reply')
    ctx.rule('ExportTracesTask ends the request span before it takes the buffered spans, on every path; ending drops the span guard; to_tasks adds one teardown per tracing action with a service and starts the span with it')
    x = Exec(ctx)
    p = ctx.p
    ty = p.adt('executor::PipelineState')
    tot = p.adt('tasks::TeardownOutcome')
    n_run = n_skip = n_def = 0
    for K in (1, 2):
        P, self_ = x.eval_paths(K)
        e = P.e
        q0, d0, t0 = [x.f(self_, r) for r in ('task_queue', 'deferred_tasks', 'teardown_tasks')]
        for st in P.states:
            if dup_token(e, st):
                continue
            evs = st.events()
            tr = lambda: trace_text(e, st)
            aps = [ev for ev in calls(evs, APPLY) if elem_no(ev.args[0], q0) is not None]
            outs = [outcome_of(e, st, ev) for ev in aps]
            n, ex = count(st, q0)
            left = len(aps) < n or any(o == 'Deferred' for o in outs)
            for ev, o in zip(aps, outs):
                if o == 'Requeued':
                    left = left or more(st, payload(e, ev, 'Requeued', '0'), 0) == 1
            flying = more_map(st, d0)
            over = 'Terminate' in outs or (not left and flying == 0)
            ts = calls(evs, TEAR)
            nt, tex = count(st, t0)
            got = [elem_no(t.args[0], t0) for t in ts]
            for ev in ts:
                o = variant_of(e, st, ev.ret, tot)
                ctx.oblige(o is not None, 'teardown outcome ignored', 'what a teardown action started is not looked at\n%s' % tr())
            v = variant_of(e, st, st.result, ty)
            pl = deref(e, st, field(e, st.result, ty, 'InProgress', '0'), 1) if v == 'InProgress' else None
            if over:
                n_run += len(got)
                ctx.oblige(got == list(range(nt)) and (tex or nt >= e.klimit(t0[1])), 'round: teardown when over', 'the pipeline is over but its teardown actions run as %s of %d\n%s' % (got, nt, tr()))
                if pl is not None:
                    ctx.oblige(is_empty(e, st, x.f(pl, 'teardown_tasks')) == 1, 'round: teardown kept', 'teardown actions stay registered after they ran\n%s' % tr())
                tear = list(torn(e, st, evs))
                n_def += len(tear)
                if tear:
                    ok = pl is not None
                    if ok:
                        m = x.f(pl, 'deferred_tasks')
                        keys = [strip(e.snap(st, s[1])) for s in (m[1] if m[0] == 'm' else ()) if s[0] == 'kv']
                        ok = all(strip(e.snap(st, w)) in keys for w, _ in tear)
                    ctx.oblige(ok, 'round: teardown call tracked', 'a call started by teardown is not tracked until its reply\n%s' % tr())
            else:
                n_skip += 1
                ctx.oblige(not ts, 'round: teardown too early', 'teardown runs although the pipeline is not over\n%s' % tr())
                if pl is not None:
                    ctx.oblige(x.f(pl, 'teardown_tasks') == t0, 'round: teardown lost', 'teardown actions are lost in a round\n%s' % tr())
                else:
                    ctx.oblige(False, 'round: completed without teardown', 'the pipeline completes without running teardown\n%s' % tr())
    P, par = x.digest_paths()
    e = P.e
    t0 = x.f(par[0], 'teardown_tasks')
    n_d = 0
    for st in P.states:
        if dup_token(e, st):
            continue
        evs = st.events()
        tr = lambda: trace_text(e, st)
        aps, ends, ts = calls(evs, APPLY), calls(evs, EVAL), calls(evs, TEAR)
        if not ends:
            continue
        pl = ends[0].raw[0]
        if aps and outcome_of(e, st, aps[0]) == 'Terminate':
            n_d += 1
            nt, tex = count(st, t0)
            got = [elem_no(t.args[0], t0) for t in ts]
            ctx.oblige(got == list(range(nt)) and (tex or nt >= e.klimit(t0[1])), 'reply: teardown when over', 'the reply ended the request but teardown actions run as %s of %d\n%s' % (got, nt, tr()))
            ctx.oblige(is_empty(e, st, x.f(pl, 'teardown_tasks')) == 1, 'reply: teardown kept', 'teardown actions stay registered after they ran\n%s' % tr())
            m = x.f(pl, 'deferred_tasks')
            keys = [strip(e.snap(st, s[1])) for s in (m[1] if m[0] == 'm' else ()) if s[0] == 'kv']
            for w, _ in torn(e, st, evs):
                n_def += 1
                ctx.oblige(strip(e.snap(st, w)) in keys, 'reply: teardown call tracked', 'a call started by teardown is not tracked until its reply\n%s' % tr())
        else:
            ctx.oblige(not ts, 'reply: teardown too early', 'teardown runs while a reply is handled that did not end the request\n%s' % tr())
            ctx.oblige(x.f(pl, 'teardown_tasks') == t0, 'reply: teardown lost', 'teardown actions are lost when a reply is handled\n%s' % tr())
    ctx.floor('teardown executions', n_run, 20)
    ctx.floor('rounds without teardown', n_skip, 10)
    ctx.floor('terminating replies', n_d, 5)
    ctx.floor('teardown calls tracked', n_def, 5)
    given(ctx, x)
    export(ctx)


def given(ctx, x):
    p = ctx.p
    fi = p.find1('executor::Pipeline::with_teardown_tasks')
    e = base.make(p)
    ps = e.params(fi)
    for st in e.run(fi):
        ctx.oblige(x.f(st.result, 'teardown_tasks') == ps[1] and all(x.f(st.result, r) == x.f(ps[0], r) for r in x.ix if r != 'teardown_tasks'),
                   'with_teardown_tasks', 'with_teardown_tasks does not register exactly the given actions')
    ctx.engine_stats(e)
    # the pipeline built for a request gets the tasks and the teardown actions of its blueprint
    fi = p.find1('factory::PipelineFactory::build')
    e = make_cone(p, ctx.g, ['blueprint::Blueprint::to_tasks', 'executor::Pipeline::with_tasks', 'executor::Pipeline::with_teardown_tasks'],
                  {'blueprint::Blueprint::to_tasks': boundary}, keep=('executor::*',))
    n = 0
    rty = p.types[p.fns[fi]['b']['ls'][0][0]]
    for st in e.run(fi):
        tt = calls(st.events(), 'blueprint::Blueprint::to_tasks')
        if not tt or rty['v'][st.result[2]][0] != 'Ok':
            continue
        o = getf(st.result, st.result[2], 0)
        tasks, tear = getf(tt[0].ret, 0, 0), getf(tt[0].ret, 0, 1)
        if variant_of(e, st, o, rty['v'][st.result[2]][2][0][1]) == 'None':
            ctx.oblige(more(st, tasks, 0) == 0, 'build drops a pipeline', 'PipelineFactory::build drops the tasks of its blueprint\n%s' % trace_text(e, st))
            continue
        n += 1
        pl = getf(o, 1, 0)
        ok = len(tt) == 1 and canon(e, st, x.f(pl, 'task_queue')) == [('all', tasks[1])] and canon(e, st, x.f(pl, 'teardown_tasks')) == [('all', tear[1])]
        ctx.oblige(ok, 'build hands over tasks and teardown', 'PipelineFactory::build does not give the pipeline exactly the tasks and teardown actions of its blueprint: %s / %s\n%s' % (
            e.show(e.snap(st, x.f(pl, 'task_queue'))), e.show(e.snap(st, x.f(pl, 'teardown_tasks'))), trace_text(e, st)))
    ctx.engine_stats(e)
    ctx.floor('pipelines built', n, 1)


def export(ctx):
    p, g = ctx.p, ctx.g
    n = 0
    for h, fi in p.trait_impls('tasks::TeardownAction', 'execute'):
        P = Paths(ctx, fi, effects=[END, TAKE, DISPATCH], extra={END: boundary, TAKE: boundary})
        e = P.e
        for st in P.states:
            evs = [ev for ev in st.events() if ev.kind in ('call', 'lock')]
            ends = [i for i, ev in enumerate(evs) if matches(ev.path, (END,))]
            take = [i for i, ev in enumerate(evs) if ev.path.endswith(TAKE) or ev.kind == 'lock']       # the buffer, also when inlined
            disp = calls(evs, DISPATCH)
            n += 1
            where = p.where(fi)
            ctx.oblige(len(ends) == 1, short_head(h) + ' ends the span', '%s ends the request span %d times\n%s' % (where, len(ends), trace_text(e, st)))
            ctx.oblige(len(take) == 1 and all(i < take[0] for i in ends), short_head(h) + ' order', '%s takes the buffered spans before the request span ended\n%s' % (where, trace_text(e, st)))
            v = variant_of(e, st, st.result, p.adt('tasks::TeardownOutcome'))
            ok = [ev for ev in disp if e.known(st, e.mkdisc(ev.ret[1], TTY.get(ev.ret[1]))[1]) == 0]
            ctx.oblige((v == 'Deferred') == (len(ok) == 1) and len(disp) <= 1, short_head(h) + ' call reported', '%s ends %s after %d successful dispatches\n%s' % (where, v, len(ok), trace_text(e, st)))
            if v == 'Deferred' and ok:
                tok = field(e, st.result, p.adt('tasks::TeardownOutcome'), 'Deferred', '0')
                ctx.oblige(mentions(e.snap(st, tok), lambda k: k == TERMS[ok[0].ret[1]]), short_head(h) + ' token', '%s reports token %s' % (where, e.show(tok)))
    ctx.floor('teardown action paths', n, 3)
    # ending the span: the guard is taken out of the context and dropped
    fi = p.find1(END)
    e = base.make(p)
    for st in e.run(fi):
        dr = [ev for ev in st.events() if ev.kind in ('drop', 'dropsym') and 'EnteredSpan' in ev.path]
        cx = e.deref(st, e.params(fi)[0])
        rct = p.adt('context::ReqRespCtx')
        tr_i = [i for i, (nme, t) in enumerate(p.types[rct]['v'][0][2]) if t is not None and p.types[t]['s'].endswith('TracingContext')][0]
        tc = p.types[rct]['v'][0][2][tr_i][1]
        gi = [i for i, (nme, t) in enumerate(p.types[tc]['v'][0][2]) if t is not None and 'EnteredSpan' in p.types[t]['s']][0]
        left = getf(getf(cx, 0, tr_i), 0, gi)
        ctx.oblige(variant_of(e, st, left, p.types[tc]['v'][0][2][gi][1]) == 'None', 'span guard left', 'end_request_span leaves the span open: %s' % e.show(left))
        ctx.oblige(bool(dr), 'span guard dropped', 'end_request_span does not drop the span guard')
    ctx.engine_stats(e)
    # to_tasks: one teardown per tracing action with a service; the request span starts with it
    P = blue.to_tasks_paths(ctx)
    e = P.e
    n = 0
    START = 'context::ReqRespCtx::enter_request_span'
    for st in P.states:
        td = [t for t in blue.elems(getf(st.result, 0, 1))]
        starts = calls(st.events(), START)
        with_svc = tracing_actions(e, st)
        n += len(td)
        ctx.oblige(len(td) == with_svc, 'teardown per tracing action', 'to_tasks registers %d teardown actions for %d tracing actions with a service' % (len(td), with_svc))
        ctx.oblige(len(starts) <= len(td) and (not td or starts), 'span started with teardown', 'to_tasks starts %d request spans for %d teardown actions' % (len(starts), len(td)))
    ctx.floor('teardown actions built', n, 1)
    for s, path in g.calls_named(lambda path, c: matches(path, (START,))):
        src = g.rreach({s.fi})
        ok = any('ExportTracesTask' in p.fns[y]['p'] or p.fns[y]['p'].endswith('Blueprint::to_tasks') for y in src | {s.fi})
        ctx.oblige(ok, 'request span started by ' + fname(p, g.root_fn(s.fi)), 'the request span is started without a teardown action that ends it: %s' % p.where(s.fi, s.line))


def tracing_actions(e, st):
    """actions the path knows to be tracing actions with a service"""
    p = e.p
    si = p.adt('services::ServiceInstance')
    tv = p.variant_ix(si, 'Tracing')
    n = 0
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'disc' and f[0] == '=' and f[1] == 1:
            b = TERMS[k[1]]
            # Some(_) of the Tracing payload
            if b[0] == 'fld' and b[2] == tv and b[3] == 0:
                ty = TTY.get(k[1])
                if ty is not None and 'TracingService' in p.types[ty]['s']:
                    n += 1
    return n
