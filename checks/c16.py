"""C16: counters are registered under their own names and count once per event."""
from engine.acts import *
from engine.wire import wires
from .c01 import run_all

EXPLANATION = '''The counter table, every accessor and the increment operation are evaluated abstractly from the construction of the table to the host call, so that each accessor is tied to the identifier the host gave
for its documented name; then every abstract path of every task is checked for exactly the increments its event calls for, and no other code may count.'''
NAMES = {'configs': 'kuadrant.configs', 'hits': 'kuadrant.hits', 'misses': 'kuadrant.misses', 'allowed': 'kuadrant.allowed', 'denied': 'kuadrant.denied', 'errors': 'kuadrant.errors'}
INC, INCBY = 'metrics::Counter::increment', 'metrics::Counter::inc_by'
DEFINE, HOSTINC = 'metrics::MetricsBackend::define_counter', 'metrics::MetricsBackend::increment_counter'
SENDR = 'context::ReqRespCtx::send_http_reply'
APPLY = 'tasks::Task::apply'


def check(ctx):
    ctx.rule('the table of counters asks the host once for each documented name and every accessor returns the counter with the identifier given for its own name')
    ctx.rule('an increment is one host call adding one to the identifier of that very counter, and nothing when it was not registered')
    ctx.rule('a reply counts as denied exactly once; a failing action that ends the request, and a failure handled by the failure mode, count as error exactly once; nothing else counts')
    table(ctx)
    increments(ctx)
    tasks(ctx)
    sites(ctx)


def unbounded(ctx, **kw):
    e = base.make(ctx.p, drop=tuple(k for k in base.BASE if k.startswith('metrics::')), **kw)
    e.LOOP = 12
    e.K = 8
    return e


def accessors(ctx):
    p = ctx.p
    out = {}
    for n in NAMES:
        fs = [i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], ('metrics::Metrics::' + n,))]
        ctx.oblige(len(fs) == 1, 'accessor: %s' % n, 'no accessor for the counter %s' % n)
        if len(fs) == 1:
            out[n] = fs[0]
    return out


def ident(e, st, v):
    """what the host was asked to define for this counter: name, False when nothing was registered, None when open"""
    x = deref(e, st, v)
    x = e.snap(st, x)
    while x[0] == '&':
        x = x[1]
    if x[0] != 'a':
        return None
    x = strip(x[4][0][1])
    if x[0] == 'a' and e.p.types[x[1]]['v'][x[2]][0] == 'None':
        return False
    if x[0] == 'a':
        x = strip(x[4][0][1])
    t = x[1] if x[0] == 's' else None
    while t is not None and TERMS[t][0] in ('fld', 'deref'):
        t = TERMS[t][1]
    if t is not None and TERMS[t][0] == 'call' and matches(TERMS[t][1], (DEFINE,)):
        n = strip(TERMS[t][2][1])
        return n[1] if n[0] == 'c' else None
    return None


def table(ctx):
    p = ctx.p
    fi = [i for i, f in enumerate(p.fns) if f['b'] is not None and f['p'].endswith('metrics::Metrics as core::default::Default>::default')]
    ctx.floor('counter table', len(fi), 1)
    acc = accessors(ctx)
    e = unbounded(ctx)
    n = 0
    for st in e.run(fi[0]):
        defs = [strip(ev.args[1]) for ev in st.events() if ev.kind == 'call' and matches(ev.path, (DEFINE,))]
        if defs:
            got = sorted(d[1] if d[0] == 'c' else '?' for d in defs)
            ctx.oblige(got == sorted(NAMES.values()), 'registered', 'the host is asked to define the counters %s' % got)
        for name, ai in acc.items():
            s2 = st.fork()
            at = ('r', e.new_cell(s2, e.snap(st, st.result)), ())
            s2.trace = None
            s2.result = None
            for q in e.run(ai, [at], s2):
                n += 1
                got = ident(e, q, q.result)
                mine = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (DEFINE,)) and strip(ev.args[1]) == ('c', NAMES[name])]
                given = bool(mine) and variant_of(e, q, mine[-1].ret, TTY.get(mine[-1].ret[1])) != 'None'
                want = (NAMES[name],) if given else (False,)
                ctx.oblige(got in want, 'accessor: %s' % name, 'the accessor %s returns the counter registered as %s' % (name, got))
    ctx.engine_stats(e)
    ctx.floor('accessor results', n, 12)
    st_i = [i for i, f in enumerate(p.fns) if f['p'].endswith('metrics::METRICS') and f['b'] is not None]
    ok = False
    for i in st_i:
        for b in p.fns[i]['b']['bb']:
            t = b['t']
            ok = ok or 'Metrics as core::default::Default>::default' in str(t) or 'Metrics as core::default::Default>::default' in str(b)
    e = base.make(p)
    for i in st_i:
        for st in e.run(i):
            ok = ok or any('Metrics as core::default::Default>::default' in e.show(a, 6) for ev in st.events() for a in ev.args)
    ctx.oblige(ok, 'global table', 'the global table of counters is not the one that registers them')


def increments(ctx):
    p = ctx.p
    n = 0
    for name, by in ((INC, None), (INCBY, 1)):
        for fi in [i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], (name,))]:
            e = unbounded(ctx)
            ps = e.params(fi)
            for st in e.run(fi):
                hs = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (HOSTINC,))]
                f = [v for t, v in st.facts.items() if TERMS[t][0] == 'disc' and chain_of(t, ps[0])]
                registered = [v for v in f if v == ('=', 1)]
                backend = [v for t, v in st.facts.items() if TERMS[t][0] == 'disc' and mentions(('s', t), lambda k: k[0] == 'call' and k[1].endswith('OnceLock::get'), 8)]
                if hs:
                    n += 1
                    ctx.oblige(len(hs) == 1, '%s: once' % name, 'an increment calls the host %d times' % len(hs))
                    i = strip(hs[0].args[1])
                    ctx.oblige(i[0] == 's' and chain_of(i[1], ps[0]), '%s: own id' % name, 'an increment goes to another counter')
                    amount = hs[0].args[2]
                    ctx.oblige(amount == (('c', 1) if by is None else ps[by]), '%s: amount' % name, 'an increment adds %s' % e.show(amount, 3))
                else:
                    ctx.oblige(('=', 0) in f or ('=', 0) in backend, '%s: counted' % name, 'an increment of a registered counter is lost')
            ctx.engine_stats(e)
    ctx.floor('increments', n, 1)


def chain_of(t, self_):
    r = strip(self_)[1]
    n = 0
    while n < 8:
        if t == r:
            return True
        k = TERMS[t]
        if k[0] not in ('fld', 'deref', 'disc'):
            return False
        t = k[1]
        n += 1
    return False


def counted(evs):
    """names of the counters incremented by one, in order ('?' for anything else)"""
    out = []
    for ev in evs:
        if ev.kind != 'call' or not matches(ev.path, (INC, INCBY)):
            continue
        v = strip(ev.args[0])
        nm = None
        if v[0] == 's' and TERMS[v[1]][0] == 'call':
            nm = next((n for n in NAMES if matches(TERMS[v[1]][1], ('metrics::Metrics::' + n,))), None)
        if matches(ev.path, (INCBY,)) and ev.args[1] != ('c', 1):
            nm = None
        out.append(nm or '?')
    return out


def tasks(ctx):
    p = ctx.p
    W = wires(ctx)
    fields, _m, _per = W.task_fields()
    fail = {h for (h, i), ks in fields.items() if any(('copy', 'operation.Fail.log_message') in W.comp.get(k, ()) for k in ks)}
    ctx.floor('fail tasks', len(fail), 1)
    n = d = f = 0
    seen = set()
    analysed = set()
    for c in core_tasks(ctx, extra={SENDR: boundary}, effects=[SENDR, INC, INCBY]):
        seen.add(c.h)
        for st, o, evs in c.states():
            n += 1
            got = counted(evs)
            sent = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (SENDR, REPLY))]
            want = ['denied'] if sent else []
            if c.h in fail and o == 'Terminate':
                want.append('errors')
                f += 1
            d += bool(sent)
            if sent and variant_of(c.e, st, sent[0].ret, TTY.get(sent[0].ret[1])) == 'Err':
                ctx.oblige(got in (want, []), '%s: count' % c.name, 'a reply that could not be sent counts %s' % got)
            else:
                ctx.oblige(sorted(got) == sorted(want), '%s: count' % c.name, '%s counts %s where it should count %s (%s)' % (c.name, got or 'nothing', want or 'nothing', o))
            if o == 'Deferred':
                for s2 in run_task(c.e, st, ofield(c.e, st, 'Deferred', 'pending'), c.ctxv):
                    n += 1
                    ctx.oblige(not counted(s2.events()), '%s: reply' % c.name, 'handling a reply counts %s' % counted(s2.events()))
    m = 0
    for h, fi in task_impls(p):
        if h in seen:
            continue
        P = Paths(ctx, fi, effects=[APPLY, INC, INCBY, SENDR], extra={SENDR: boundary}, keep=task_keep(p, h), quiet_drops=('context::PathReservation',))
        for st in P.states:
            n += 1
            evs = st.events()
            got = counted(evs)
            inner = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (APPLY,))]
            failed = [ev for ev in inner if variant_of(P.e, st, ev.ret, outcome_type(p)) == 'Failed']
            now = outcome(P.e, st)[0]
            if failed and now != 'Failed':
                m += 1
                ctx.oblige(got == ['errors'], '%s: failure' % short_head(h), 'a handled failure counts %s' % (got or 'nothing'))
            else:
                ctx.oblige(not got, '%s: count' % short_head(h), '%s counts %s' % (short_head(h), got))
    ctx.floor('task paths', n, 100)
    ctx.floor('replies', d, 4)
    ctx.floor('failing actions', f, 1)
    ctx.floor('handled failures', m, 2)


def sites(ctx):
    """counting happens in the analysed task code only"""
    p = ctx.p
    roots = {fi for _h, fi in task_impls(p)}
    inside = set().union(*(ctx.g.reach(i) for i in roots))
    n = 0
    for s, path in ctx.g.calls_named(lambda path, c: matches(path, (INC, INCBY, HOSTINC, DEFINE))):
        fp = p.fns[s.fi]['p']
        n += 1
        ok = (s.fi in inside and matches(path, (INC, INCBY))) or matches(fp, (INC, INCBY)) or 'metrics::Metrics as core::default::Default>::default' in fp
        ok = ok and not any(x in fp for x in ('pipeline::executor::',))
        ctx.oblige(ok, 'site: %s' % p.short(fp), '%s counts outside of a task' % p.short(fp))
    ctx.floor('counting sites', n, 4)
