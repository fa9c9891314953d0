"""C02: a failed service action denies or continues as its failure mode says."""
import re
from engine.pipe import *
from engine import blue


def core_tasks(ctx):
    """task kinds that call a service themselves (not through another task)"""
    p, g = ctx.p, ctx.g
    out = []
    for h, fi in task_impls(p):
        r = g.reach_named(fi, lambda x: base.matches(x, (DISPATCH,)), lambda x: x.endswith('tasks::Task>::apply') or x.endswith('tasks::Task::apply') or base.matches(x, ('cel::Predicate::test', 'cel::Expression::eval')))
        if r:
            out.append((h, fi))
    return out


def mode_known(e, st, before=None):
    """(mode term, name) for every failure mode looked at on this path"""
    out = []
    for t, f in st.facts.items():
        k = TERMS[t]
        src = None
        if k[0] == 'disc' and ty_is(e, k[1], 'FailureMode'):
            src, names = k[1], variants_left(e, f, TTY[k[1]])
        elif k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a[0] == 's' and b[0] == 'a' and b[1] is not None and e.p.is_adt(b[1], 'FailureMode') and f[0] == '=':
                    vs = [v[0] for v in e.p.types[b[1]]['v']]
                    src = a[1]
                    names = [vs[b[2]]] if f[1] == 1 else [x for i, x in enumerate(vs) if i != b[2]]
        if src is not None:
            out.append((src, names[0] if len(names) == 1 else None))
    return out


def ty_is(e, t, name):
    ty = TTY.get(t)
    return ty is not None and e.p.is_adt(ty, name)


def variants_left(e, f, ty):
    vs = e.p.types[ty]['v']
    if f[0] == '=':
        return [n for n, d, _ in vs if int(d) == f[1]]
    return [n for n, d, _ in vs if int(d) not in f[1]]


def increments(evs):
    out = []
    for ev in calls(evs, 'metrics::Counter::increment', 'metrics::Counter::inc_by'):
        a = ev.args[0]
        nm = '?'
        x = a
        while x[0] == '&':
            x = x[1]
        if x[0] == 's':
            k = TERMS[x[1]]
            while k[0] == 'deref':
                k = TERMS[k[1]]
            if k[0] == 'call':
                nm = k[1].split('::')[-1]
            elif k[0] == 'fld':
                nm = field_name(k)
        out.append(nm)
    return out


P_ = None


def field_name(k):
    ty = TTY.get(k[1])
    if ty is not None and isinstance(k[3], int):
        return P_.types[ty]['v'][k[2] or 0][2][k[3]][0]
    return '?'


def check(ctx):
    global P_
    p, g = ctx.p, ctx.g
    P_ = p
    ctx.rule('every top-level task that Blueprint::to_tasks builds for a service action is applied abstractly with the service task itself as an unknown outcome: Failed must increment the errors counter once and end Terminate(default reply) under Deny / Done under Allow; every other outcome passes through; the same holds again for the waiting task and for the tasks it is requeued as')
    ctx.rule('the mode consulted is the failure_mode field of the service of the same action, and ServiceInstance::from_config copies it from the configured service')
    core = core_tasks(ctx)
    ctx.floor('task kinds that call services', len(core), 1)
    heads = {h for h, _ in core}
    P = blue.to_tasks_paths(ctx)
    e = P.e
    for h, fi in core:
        e.prims[p.fns[fi]['p']] = boundary
    e.prims['send_reply::SendReplyTask::default'] = boundary
    e.opaque = base.Cone(g, ['tasks::Task::apply', 'metrics::Counter::increment', 'metrics::Counter::inc_by'] + [p.fns[fi]['p'] for _h, fi in core], keep=('pipeline::tasks::*',)).opaque
    seen = set()
    n = 0
    kinds = set()
    for st in P.states:
        for t in blue.elems(getf(st.result, 0, 0)):
            if not blue.inner_aggs(e, st, t, lambda h: h in heads):
                continue
            mode = mode_known(e, st)
            sv = [e.p.types[TTY[TERMS[k][1]]]['v'] for k in st.facts if TERMS[k][0] == 'disc' and ty_is(e, TERMS[k][1], 'ServiceInstance')]
            sig = (repr(shape(e, st, t)), repr(sorted(str(m[1]) for m in mode)), repr(sorted(repr(st.facts[k]) for k in st.facts if TERMS[k][0] == 'disc' and ty_is(e, TERMS[k][1], 'ServiceInstance'))))
            if sig in seen:
                continue
            seen.add(sig)
            n += 1
            kinds.add(sig[2])
            one(ctx, e, st, t, p)
    ctx.floor('service tasks built', n, 5)
    nested(ctx, P, core)
    ctx.notes['distinct service/tracing/mode combinations'] = n
    failing(ctx)
    default_reply(ctx)
    config(ctx)


def failing(ctx):
    """what fails inside a service task (evaluation, dispatch, reading and decoding the reply, a reply
    that is not OK) is reported as Failed, which is what the failure mode acts on"""
    from engine import acts
    from . import c07
    p = ctx.p
    ctx.rule('service tasks: a path on which a test, an evaluation, the dispatch, reading the reply or decoding it failed, or on which the reply is missing or not OK, ends Failed')
    n = {}
    for c in acts.core_tasks(ctx, effects=[c07.GETR, acts.GETG], only=acts.reaches(ctx, DISPATCH)):
        e = c.e

        def judge(st, out, evs, when):
            errs = [ev for ev in evs if ev.kind == 'call' and c07.is_result(e, ev) and c07.res(e, st, ev) == 'Err']
            bad = [p.short(x.path) for x in errs]
            for x in calls(evs, acts.GETG):
                if x not in errs and status_of(e, st, x) not in (0, None):
                    bad.append('a reply that is not OK')
            for x in bad:
                n[when] = n.get(when, 0) + 1
            if bad:
                ctx.oblige(out == 'Failed', c.name + ' failure reported (%s)' % when, '%s: %s, yet the action ends %s instead of Failed, so its failure mode does not apply\n%s' % (p.where(c.fi), ' and '.join(bad) + (' failed' if errs else ''), out, trace_text(e, st)))
        for st, out, evs in c.states():
            judge(st, out, evs, 'before the reply')
            if out == 'Deferred':
                for s2 in run_task(e, st, ofield(e, st, 'Deferred', 'pending'), c.ctxv):
                    judge(s2, outcome(e, s2)[0], s2.events(), 'reply')
    ctx.floor('failures before the reply', n.get('before the reply', 0), 3)
    ctx.floor('failures of the reply', n.get('reply', 0), 3)


def status_of(e, st, ev):
    """0, something else ('not'), None (unknown) for the announced status of the reply"""
    s = getf(getf(ev.ret, 0, 0), 0, 0)
    v = e.known(st, s[1]) if s[0] == 's' else s[1]
    if v is not None:
        return v
    f = st.facts.get(s[1])
    if f is not None and f[0] == '!' and 0 in f[1]:
        return 'not'
    t = e.truth(st, e.mk_eq(st, s, C(0)))
    return {1: 0, 0: 'not', None: None}[t]


def nested(ctx, P, core):
    """follow-up actions are built by a recursive call; the tasks it returns must be wrapped as well"""
    p, g = ctx.p, ctx.g
    rec = set()
    for st in P.states:
        for ev in st.events():
            if ev.kind == 'call' and ev.extra == 'recursion' and ev.fi is not None:
                rec.add(ev.fi)
    ctx.notes['builders of follow-up tasks'] = [fname(p, i) for i in sorted(rec)]
    for fi in sorted(rec):
        e = P.e
        n = 0
        for st in e.run(fi):
            for agg in blue.inner_aggs(e, st, st.result, lambda h: 'Option' in h or 'Box' in h or True, d=1)[:1]:
                t = getf(agg, 1, 0) if agg[2] == 1 else None
                if t is None or not blue.inner_aggs(e, st, t, lambda h: h in {h for h, _ in core}):
                    continue
                n += 1
                s0 = st.fork()
                for s2 in run_task(e, s0, t, somectx(e, s0)):
                    inner = inner_result(e, s2.events())
                    if not inner:
                        continue
                    pv = possible_variants(e, s2, inner[0].ret, outcome_type(p))
                    ov = variant_of(e, s2, s2.result, outcome_type(p))
                    ctx.oblige(not ('Failed' in pv and ov in (None, 'Failed')), 'follow-up service action has no failure mode', 'service-calling follow-up actions built by %s run without a failure mode: their failure is only reported as Failed' % p.where(fi))
        ctx.floor('follow-up service tasks built', n, 1)


def shape(e, st, t):
    x = deref(e, st, t)
    if x[0] == 'a' and x[1] is not None:
        return (e.p.head(x[1]), tuple(shape(e, st, y) for _i, y in x[4] if deref(e, st, y)[0] in ('a', 'c')))
    if x[0] == 'c':
        return x
    return x[0]


def somectx(e, st):
    ty = e.p.adt('context::ReqRespCtx')
    t = T('somectx')
    TTY[t] = ty
    return ('r', e.new_cell(st, ('s', t)), ())


def inner_result(e, evs):
    r = [x for x in evs if x.kind == 'call' and (x.path.endswith('tasks::Task>::apply') or x.path.endswith('tasks::Task::apply'))]
    return r


def own_mode(ctx, e, st, t):
    """failure mode consulted for this task; it must be the one of the action's own service"""
    ids = [r for _s, r in task_fact(e, st, t, 'id')]
    own = {blue.root_elem(e.snap(st, deref(e, st, r))) for r in ids}
    return own


def one(ctx, e, st, t, p):
    own = own_mode(ctx, e, st, t)
    s0 = st.fork()
    cv = somectx(e, s0)
    for s in run_task(e, s0, t, cv):
        ctx.cov['paths'] += 1
        level(ctx, e, s, own, 'first run', cv, 0)


def level(ctx, e, s, own, when, cv, depth):
    evs = s.events()
    p = ctx.p
    ty = outcome_type(p)
    inner = inner_result(e, evs)
    ctx.oblige(len(inner) == 1, 'service action runs once (%s)' % when, 'the wrapped service task is applied %d times (%s)' % (len(inner), when))
    if len(inner) != 1:
        return
    r = inner[0].ret
    iv = variant_of(e, s, r, ty)
    ov = variant_of(e, s, s.result, ty)
    inc = increments(evs)
    modes = [m for m in mode_known(e, s) if blue.root_elem(('s', m[0])) in own]
    names = {m[1] for m in modes}
    name = list(names)[0] if len(names) == 1 else None
    if ov is None and s.result == r:
        ov = iv = iv or 'any'
    if iv == 'Failed':
        ctx.oblige(inc == ['errors'], 'errors counter (%s)' % when, 'a failed service action increments %s instead of the errors counter once (%s)\n%s' % (inc, when, trace_text(e, s)))
        ctx.oblige(name is not None, 'failure mode consulted (%s)' % when, 'a failed service action ends %s without its own service\'s failure mode being decided (%s); modes looked at: %s' % (ov, when, [(e.show_term(m[0]), m[1]) for m in mode_known(e, s)]))
        if name == 'Deny':
            ctx.oblige(ov == 'Terminate', 'deny mode (%s)' % when, 'a failed action of a deny service ends %s instead of terminating the request (%s)' % (ov, when))
            if ov == 'Terminate':
                tt = field(e, s.result, ty, 'Terminate', '0')
                s1 = s.fork()
                for s2 in run_task(e, s1, tt, somectx(e, s1)) if not is_default(e, s1, tt) else []:
                    i2 = inner_result(e, s2.events())
                    ctx.oblige(len(i2) == 1 and mentions(i2[0].args[0], lambda k: k[0] == 'call' and k[1].endswith('SendReplyTask::default')), 'deny reply (%s)' % when, 'the terminal task of a failed deny action is not the default reply')
                if is_default(e, s1, tt):
                    ctx.oblige(True, 'deny reply (%s)' % when, '')
        elif name == 'Allow':
            ctx.oblige(ov == 'Done', 'allow mode (%s)' % when, 'a failed action of an allow service ends %s instead of counting as done (%s)' % (ov, when))
        return
    ctx.oblige(inc == [], 'counter on success (%s)' % when, 'counters %s change although the action did not fail (%s)' % (inc, when))
    if iv is None:
        pv = possible_variants(e, s, r, ty)
        ctx.oblige('Failed' not in pv, 'failure ignored (%s)' % when, 'a failed service action is passed on as %s without looking at it (%s)' % (ov, when))
        if s.result == r:
            requeue(ctx, e, s, r, own, when, pv)
        return
    ctx.oblige(ov == iv, 'outcome passed through (%s)' % when, 'the service task ended %s but its wrapper reports %s (%s)' % (iv, ov, when))
    if iv == 'Deferred' and ov == 'Deferred':
        a, b = field(e, r, ty, 'Deferred', 'token_id'), field(e, s.result, ty, 'Deferred', 'token_id')
        ctx.oblige(a == b, 'token passed through (%s)' % when, 'the call token changes from %s to %s' % (e.show(a), e.show(b)))
        pend = field(e, s.result, ty, 'Deferred', 'pending')
        if depth < 2:
            s1 = s.fork()
            for s2 in run_task(e, s1, pend, somectx(e, s1)):
                ctx.cov['paths'] += 1
                level(ctx, e, s2, own, 'after deferral', cv, depth + 2)
    if iv == 'Requeued' and ov == 'Requeued':
        requeue(ctx, e, s, r, own, when, ['Requeued'], depth)


def is_default(e, st, tt):
    return mentions(e.snap(st, tt), lambda k: k[0] == 'call' and k[1].endswith('SendReplyTask::default'))


def requeue(ctx, e, s, r, own, when, pv, depth=0):
    ty = outcome_type(ctx.p)
    if 'Requeued' not in pv or depth > 2:
        return
    lst = field(e, s.result, ty, 'Requeued', '0')
    orig = field(e, r, ty, 'Requeued', '0')
    if lst == orig or lst[0] == 's':
        ctx.oblige(False, 'requeued action escapes the failure mode', 'when a service task is requeued the failure mode wrapper is dropped: the tasks it is requeued as (%s, %s) run without it, so a later failure is neither counted nor denied' % (e.show(lst), when))
        return
    for x in blue.elems(lst):
        s1 = s.fork()
        for s2 in run_task(e, s1, x, somectx(e, s1)):
            inner = inner_result(e, s2.events())
            if len(inner) != 1:
                continue
            iv = variant_of(e, s2, inner[0].ret, ty)
            ov = variant_of(e, s2, s2.result, ty)
            pv2 = possible_variants(e, s2, inner[0].ret, ty)
            ok = not ('Failed' in pv2 and (ov in (None, 'Failed')))
            ctx.oblige(ok, 'requeued action escapes the failure mode', 'a requeued service task that fails is reported as %s: it runs without its failure mode' % ov)


def default_reply(ctx):
    p = ctx.p
    fi = p.find1('send_reply::SendReplyTask::default')
    e = base.make(p)
    for st in e.run(fi):
        texts = {}
        for ev in st.events():
            if ev.path.endswith(('cel::Expression::new', 'cel::Predicate::new')):
                texts.setdefault(ev.path.split('::')[-2], []).append(lit(e, ev.args[0]))
        pr, ex = texts.get('Predicate', []), texts.get('Expression', [])
        ctx.oblige(pr == ['true'], 'default reply predicate', 'the default reply is conditional on %s' % pr)
        ok = len(ex) == 1 and ex[0] is not None and re.search(r'\bstatus\s*:\s*500u\b', ex[0]) is not None
        ctx.oblige(ok, 'default reply status', 'the default reply expression is %s' % ex)
        ctx.sample('default reply expression: %s' % ex)
    ctx.engine_stats(e)


def lit(e, a):
    while a[0] == '&':
        a = a[1]
    return a[1] if a[0] == 'c' and isinstance(a[1], str) else None


def config(ctx):
    p = ctx.p
    fi = p.find1('services::ServiceInstance::from_config')
    e = base.make(p)
    n = 0
    sc = p.adt('configuration::Service')
    for st in e.run(fi):
        for a in blue.inner_aggs(e, st, st.result, lambda h: h.endswith('DynamicService')):
            n += 1
            fm = field(e, a, a[1], None, 'failure_mode')
            k = TERMS[fm[1]] if fm[0] == 's' else None
            ok = k is not None and k[0] == 'fld' and ty_is(e, k[1], 'Service') and k[3] == p.field_ix(sc, 'failure_mode')
            ctx.oblige(ok, 'configured failure mode', 'a service is created with failure mode %s instead of the configured one' % e.show(fm))
    ctx.engine_stats(e)
    ctx.floor('services created from configuration', n, 5)
