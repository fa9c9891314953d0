"""C06: reply status and size reach exactly the reply they belong to."""
from engine.exe import *
from .c01 import run_all
from .c03 import run_placeholder

EXPLANATION = '''The one-slot mailbox for reply status and size is checked as a typestate: empty -> set (only when empty) -> taken (exactly once by the waiting task, on
each of its abstract paths, placeholders included); who may touch it; and that the executor fills it with the reply's own status and size before the waiting task runs.'''
SET, GET = SETG, 'context::ReqRespCtx::get_grpc_response_data'


def check(ctx):
    p, g = ctx.p, ctx.g
    ctx.rule('slot: set succeeds iff the slot is empty and stores exactly (status, size); get empties it and returns exactly what was stored; nobody else touches it')
    ctx.rule('executor: a reply for a known token stores its own status and size once, before the waiting task runs')
    ctx.rule('every waiting task (deferred by a service task, a placeholder after termination or teardown) reads the slot exactly once on every path, wrappers run the wrapped one exactly once')
    slot(ctx)
    digest(ctx)
    waiting(ctx)


def slot_ix(p):
    rc = p.adt('context::ReqRespCtx')
    ix = [i for i, (n, t) in enumerate(p.types[rc]['v'][0][2]) if t is not None and p.types[t]['s'].replace('core::', 'std::').startswith('std::option::Option<(u32, usize)')]
    if len(ix) != 1:
        raise AnalysisError('reply slot not found in ReqRespCtx')
    return rc, ix[0]


def slot(ctx):
    p = ctx.p
    rc, ix = slot_ix(p)
    oty = p.types[rc]['v'][0][2][ix][1]
    fi = p.find1(SET)
    e = base.make(p)
    n = {}
    for st in run_all(ctx, e, fi):
        ps = e.params(fi)
        old = sym('fld', T('deref', ps[0][1]), 0, ix)
        new = getf(e.deref(st, ps[0]), 0, ix)
        was = {'None': 0, 'Some': 1}.get(variant_of(e, st, old, oty))
        rty = p.fns[fi]['b']['ls'][0][0]
        v = variant_of(e, st, st.result, rty)
        n[was] = 1
        if was == 0:
            inner = getf(new, 1, 0)
            okk = variant_of(e, st, new, oty) == 'Some' and getf(inner, 0, 0) == ps[1] and getf(inner, 0, 1) == ps[2] and v == 'Ok'
            ctx.oblige(okk, 'set on empty slot', 'setting the reply data of an empty slot stores %s and returns %s' % (e.show(e.snap(st, new)), v))
        elif was == 1:
            ctx.oblige(new == old and v == 'Err', 'set on full slot', 'unread reply data is overwritten: %s, returns %s' % (e.show(e.snap(st, new)), v))
        else:
            ctx.oblige(False, 'set without looking', 'reply data is set without looking whether the slot is empty')
    ctx.oblige(set(n) == {0, 1}, 'set paths', 'set_grpc_response_data distinguishes %s' % sorted(n, key=str))
    fi = p.find1(GET)
    e = base.make(p)
    n = {}
    for st in run_all(ctx, e, fi):
        ps = e.params(fi)
        old = sym('fld', T('deref', ps[0][1]), 0, ix)
        new = getf(e.deref(st, ps[0]), 0, ix)
        was = {'None': 0, 'Some': 1}.get(variant_of(e, st, old, oty))
        rty = p.fns[fi]['b']['ls'][0][0]
        v = variant_of(e, st, st.result, rty)
        n[was] = 1
        ctx.oblige(variant_of(e, st, new, oty) == 'None', 'get empties the slot', 'reading the reply data leaves %s in the slot' % e.show(e.snap(st, new)))
        if was == 1:
            r = getf(st.result, 0, 0)
            want = getf(old, 1, 0)
            ctx.oblige(v == 'Ok' and (r == want or (getf(r, 0, 0) == getf(want, 0, 0) and getf(r, 0, 1) == getf(want, 0, 1))), 'get returns the stored data', 'reading the reply data returns %s' % e.show(e.snap(st, st.result)))
        else:
            ctx.oblige(v == 'Err', 'get on empty slot', 'reading reply data from an empty slot returns %s' % v)
    ctx.oblige(set(n) == {0, 1}, 'get paths', 'get_grpc_response_data distinguishes %s' % sorted(n, key=str))
    for i, f in enumerate(p.fns):
        if not f['l'] or f['b'] is None or f['p'].endswith((SET, GET)):
            continue
        for b in f['b']['bb']:
            for s in b['s']:
                if s[0] == '=' and touches(p, f, s[1], rc, ix):
                    ctx.oblige(False, 'slot written in ' + fname(p, i), 'reply data is written outside its setter and getter: %s' % p.where(i, s[3]))
                for pl in borrows(s):
                    if touches(p, f, pl, rc, ix):
                        ctx.oblige(False, 'slot borrowed in ' + fname(p, i), 'reply data is accessed mutably outside its setter and getter: %s' % p.where(i, s[3]))


def borrows(s):
    if s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'ref' and 'mut' in str(s[2][1]).lower():
        yield s[2][2]


def touches(p, f, pl, rc, ix):
    ty = f['b']['ls'][pl[0]][0]
    for pr in pl[1]:
        t = p.types[ty] if ty is not None else None
        if pr == '*':
            if t is None:
                return False
            ty = t['t'] if t['k'] in ('ref', 'ptr') else (t['a'][0] if t['k'] == 'adt' and t['a'] else None)
        elif isinstance(pr, (list, tuple)) and pr[0] == 'f':
            if ty == rc and pr[1] == ix:
                return True
            ty = pr[2]
    return False


def digest(ctx):
    x = Exec(ctx)
    P, par = x.digest_paths()
    e = P.e
    d0 = x.f(par[0], 'deferred_tasks')
    n = 0
    for st in P.states:
        evs = st.events()
        tr = lambda: trace_text(e, st)
        sets, aps = calls(evs, SET), calls(evs, APPLY)
        hk = TIX.get(('haskey', d0[1], par[1]))
        if hk is None or st.facts.get(hk) != ('=', 1):
            ctx.oblige(not sets, 'reply data for unknown token', 'reply data of an unknown token is recorded\n%s' % tr())
            continue
        n += 1
        ok = len(sets) == 1 and sets[0].args[1:3] == (par[2], par[3]) and aps and evs.index(sets[0]) < evs.index(aps[0])
        ctx.oblige(ok, 'reply data recorded before the waiting task runs', 'a reply must record its own status and size exactly once before the waiting task runs; recorded: %s\n%s' % (
            [[e.show(a) for a in s.args[1:]] for s in sets], tr()))
    ctx.floor('replies of known tokens', n, 20)
    for s, path in ctx.g.calls_named(lambda path, c: matches(path, (SET,))):
        f = ctx.p.fns[ctx.g.root_fn(s.fi)]
        src = ctx.g.rreach({s.fi})
        ctx.oblige('executor::Pipeline' in f['p'] or all('executor::Pipeline' in ctx.p.fns[y]['p'] or not ctx.p.fns[y]['l'] for y in src if y != s.fi), 'reply data recorded by ' + f['p'], 'reply data is recorded outside the executor: %s' % ctx.p.where(s.fi, s.line))
    # placeholders
    seen = 0
    for K, (P, pipes) in enumerate(((P, [(st, c.raw[0]) for st in P.states for c in calls(st.events(), EVAL)]),)):
        for st, pl in pipes:
            m = x.f(pl, 'deferred_tasks')
            seen += placeholders(ctx, x, P.e, st, m)
    P2, _ = x.eval_paths(1)
    ty = ctx.p.adt('executor::PipelineState')
    for st in P2.states:
        if variant_of(P2.e, st, st.result, ty) == 'InProgress':
            pl = deref(P2.e, st, field(P2.e, st.result, ty, 'InProgress', '0'), 1)
            seen += placeholders(ctx, x, P2.e, st, x.f(pl, 'deferred_tasks'))
    ctx.floor('placeholders run', seen, 3)


_sig = set()


def placeholders(ctx, x, e, st, m):
    n = 0
    for s in (m[1] if m[0] == 'm' else ()):
        if s[0] != 'kv':
            continue
        h = concrete_ty(e, st, s[2])
        if h is None or h.startswith('dyn '):
            continue
        sig = repr(e.snap(st, s[2]))
        if sig in _sig:
            continue
        _sig.add(sig)
        cv = e.box(st, sym('somectx'))
        for s2 in run_task(e, st, s[2], cv):
            c = taken(e, s2, cv)
            ctx.oblige(c == 1, 'placeholder reads the slot', 'the placeholder of a call in flight reads the reply data %s times\n%s' % (c, trace_text(e, s2)))
        n += 1
    return n


def taken(e, st, cv):
    """how often the slot was read: by call events, or inlined (the slot is empty afterwards)"""
    rc, ix = slot_ix(e.p)
    ev = calls(st.events(), GET)
    if ev:
        return len(ev)
    v = getf(e.deref(st, cv), 0, ix)
    return 1 if variant_of(e, st, v, e.p.types[rc]['v'][0][2][ix][1]) == 'None' else 0


def waiting(ctx):
    p = ctx.p
    n = 0
    for h, fi in task_impls(p):
        name = short_head(h)
        if not ctx.g.reach_named(fi, lambda y: matches(y, (DISPATCH, APPLY)), lambda y: matches(y, ('cel::Predicate::test', 'cel::Expression::eval'))):
            continue
        P = Paths(ctx, fi, effects=EFF + [GET], extra=dict(EXTRA, **{GET: boundary}), keep=task_keep(p, h))
        e = P.e
        for st in P.states:
            if outcome(e, st)[0] != 'Deferred':
                continue
            ctx.oblige(not calls(st.events(), GET) or calls(st.events(), APPLY), name + ' reads early', '%s reads reply data before its call was answered\n%s' % (p.where(fi), trace_text(e, st)))
            inner = calls(st.events(), APPLY)
            for s2 in run_task(e, st, ofield(e, st, 'Deferred', 'pending'), ctx_param(e, fi)):
                n += 1
                if inner:
                    a = calls(s2.events(), APPLY)
                    orig = payload(e, inner[0], 'Deferred', 'pending')
                    # running the wrapped waiting task may itself be a wrapper around it
                    ok = len(a) == 1 and strip(a[0].args[0]) == strip(orig) and not calls(s2.events(), GET)
                    ctx.oblige(ok, name + ' runs the waiting task', '%s: the wrapped waiting task runs %s\n%s' % (p.where(fi), [e.show(y.args[0]) for y in a], trace_text(e, s2)))
                else:
                    c = len(calls(s2.events(), GET))
                    ctx.oblige(c == 1, name + ' reads the slot', '%s: the waiting task reads the reply data %d times\n%s' % (p.where(fi), c, trace_text(e, s2)))
    ctx.floor('abstract paths of waiting tasks', n, 10)
    for s, path in ctx.g.calls_named(lambda path, c: matches(path, (GET,))):
        f = p.fns[ctx.g.root_fn(s.fi)]
        ctx.notes.setdefault('readers', []).append(p.short(f['p']))
