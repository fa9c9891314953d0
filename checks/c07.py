"""C07: follow-up actions run only on a decoded OK reply."""
from engine.acts import *
from .c01 import run_all

EXPLANATION = '''Every abstract path of every task that waits for a service reply is checked: the outcome must be justified by the reply data, status, decoding results
and configured follow-ups established on that path; follow-ups are traced from the configuration to the list the waiting task hands back.'''
GETR = HOST + 'get_grpc_response'
MSGDEC = 'Message::decode'


def check(ctx):
    ctx.rule('waiting task: Requeued only when the reply data was present, the status is 0, the reply was read with its reported size and decoded, and its value was bound once under the own id and variable; the list handed back is exactly the configured follow-ups in order')
    ctx.rule('waiting task: Done only with status 0 and no follow-ups; Failed only when data is missing, the status is not 0 or reading/decoding failed; nothing else happens')
    ctx.rule('follow-ups of a task are the tasks of the configured onReply actions, all of them, in order; the variable is the configured one')
    ctx.rule('wrappers hand follow-ups on completely and in order')
    ctx.rule('a message counts as decoded only when the protobuf decoder accepted exactly the bytes of the reply')
    waiting(ctx)
    lists(ctx)
    wrappers(ctx)
    decoding(ctx)


def res(e, st, ev):
    """Ok / Err / None of a call result"""
    r = ev.ret
    rty = TTY.get(r[1]) if r[0] == 's' else None
    if rty is None or e.p.types[rty]['k'] != 'adt':
        return None
    return variant_of(e, st, r, rty)


def is_result(e, ev):
    r = ev.ret
    rty = TTY.get(r[1]) if r is not None and r[0] == 's' else None
    return rty is not None and e.p.types[rty]['k'] == 'adt' and any(v[0] == 'Err' for v in e.p.types[rty]['v'])


def waiting(ctx):
    p = ctx.p
    n = {}
    var_ix = id_ix = None
    kinds = 0
    for c in core_tasks(ctx, effects=[GETR, GETG]):
        e = c.e
        e.K = max(e.K, 2)       # orders of follow-ups are told apart
        lists_ = [i for i, (nm, t) in enumerate(p.types[c.ty]['v'][0][2]) if t is not None and 'Vec<' in p.types[t]['s'] and 'dyn ' in p.types[t]['s']]
        seen = set()
        for st, out, evs in c.states():
            if out != 'Deferred':
                continue
            ctx.oblige(len(lists_) == 1, c.name + ' follow-up list', '%s has %d lists of follow-ups' % (c.h, len(lists_)))
            kinds += 1
            follow = sym('fld', T('deref', strip(c.self_)[1]), 0, lists_[0])
            pend = ofield(e, st, 'Deferred', 'pending')
            for s2 in run_task(e, st, pend, c.ctxv):
                v, _ = outcome(e, s2)
                evs2 = s2.events()
                tr = lambda: trace_text(e, s2)
                g = calls(evs2, GETG)
                r = calls(evs2, GETR)
                b = calls(evs2, BIND)
                others = [ev for ev in effects(evs2) if not matches(ev.path, (BIND, 'metrics::Counter::increment'))]
                ctx.oblige(not others, c.name + ' reply acts', '%s: handling the reply does %s\n%s' % (p.where(c.fi), [p.short(o.path) for o in others], tr()))
                present = len(g) == 1 and res(e, s2, g[0]) == 'Ok'
                status = None
                if present:
                    d = getf(g[0].ret, 0, 0)
                    f = s2.facts.get(getf(d, 0, 0)[1])
                    sz = getf(d, 0, 1)
                    status = None if f is None else (f[1] if f[0] == '=' else ('not', tuple(f[1])))
                    if status is None and e.known(s2, getf(d, 0, 0)[1]) is not None:
                        status = e.known(s2, getf(d, 0, 0)[1])
                    if status is None:
                        t0 = TIX.get(('eq', getf(d, 0, 0), C(0))) or TIX.get(('eq', C(0), getf(d, 0, 0)))
                        f = s2.facts.get(t0) if t0 is not None else None
                        status = None if f is None else (0 if f == ('=', 1) else ('not', (0,)))
                empty = is_empty(e, s2, follow)
                errs = [ev for ev in evs2 if ev.kind == 'call' and is_result(e, ev) and res(e, s2, ev) == 'Err']
                n[v] = n.get(v, 0) + 1
                if v == 'Requeued':
                    ctx.oblige(present and status == 0, c.name + ' follow-ups without an OK reply', '%s: follow-ups are scheduled with reply data %s and status %s\n%s' % (p.where(c.fi), 'present' if present else 'missing', status, tr()))
                    good = len(r) == 1 and res(e, s2, r[0]) == 'Ok' and present and strip(r[0].args[1]) == strip(sz) and not errs
                    ctx.oblige(good, c.name + ' follow-ups without the message', '%s: follow-ups are scheduled without a successfully read and decoded message\n%s' % (p.where(c.fi), tr()))
                    got = requeued(e, s2)
                    ctx.oblige(got == [('all', follow[1])], c.name + ' follow-ups', '%s: the scheduled follow-ups are %s instead of all configured ones in order\n%s' % (p.where(c.fi), [e.show(x) if x[0] in 'sa' else x for x in got], tr()))
                    okb = len(b) == 1 and c.own(b[0].args[1], fld_of(c, 'id', id_ix)) and mentions(b[0].args[3], lambda k: k[0] == 'call' and matches(k[1], (GETR,)), 20)
                    ctx.oblige(okb, c.name + ' binding', '%s: before follow-ups run, the reply is bound %d times: %s\n%s' % (p.where(c.fi), len(b), [[e.show(a) for a in x.args[1:]] for x in b], tr()))
                    if len(b) == 1:
                        ctx.oblige(var_ok(ctx, c, b[0].args[2]), c.name + ' variable', '%s: the reply is bound as %s instead of the configured variable' % (p.where(c.fi), e.show(b[0].args[2])))
                elif v == 'Done':
                    ctx.oblige(present and status == 0 and empty == 1, c.name + ' reply done', '%s: the reply completes the action with reply data %s, status %s, follow-ups %s\n%s' % (
                        p.where(c.fi), 'present' if present else 'missing', status, {1: 'empty', 0: 'present', None: 'unknown'}[empty], tr()))
                elif v == 'Failed':
                    why = (not present) or (status is not None and status != 0) or bool(errs)
                    ctx.oblige(why, c.name + ' reply failed', '%s: the reply fails the action although its data is present, its status OK and everything was decoded\n%s' % (p.where(c.fi), tr()))
                else:
                    ctx.oblige(False, c.name + ' reply outcome', '%s: handling the reply ends in %s\n%s' % (p.where(c.fi), v, tr()))
                if v != 'Requeued':
                    ctx.oblige(not b, c.name + ' binds without follow-ups', '%s: a reply that schedules nothing binds a value\n%s' % (p.where(c.fi), tr()))
    ctx.floor('tasks that wait for a reply', kinds, 1)
    for k in ('Requeued', 'Done', 'Failed'):
        ctx.floor('replies that end in ' + k, n.get(k, 0), 1)


def fld_of(c, method, cache):
    """field the task's id() reports"""
    fi = [f for h, f in c.p.trait_impls('pipeline::tasks::Task', 'id') if h == c.h][0]
    e = base.make(c.p)
    r = e.run(fi)[0]
    x = strip(e.snap(r, r.result))
    n = 0
    while x[0] == 's' and n < 6:
        k = TERMS[x[1]]
        if k[0] == 'fld' and strip(('s', k[1])) == strip(e.params(fi)[0]):
            return k[3]
        x = strip(k[2][0]) if k[0] == 'call' else ('s', k[1])
        n += 1
    raise AnalysisError('id() of unknown shape in ' + c.h)


def var_ok(ctx, c, v):
    F = blue.flow(ctx)
    ixs = var_fields(ctx, F).get(c.h, set())
    return any(c.own(v, i) for i in ixs)


def var_fields(ctx, F):
    """{task kind: fields that carry the configured variable name}"""
    p = ctx.p
    ga = p.adt('configuration::GrpcOperation') if any(t['k'] == 'adt' and t.get('p', '').endswith('configuration::GrpcOperation') for t in p.types) else None
    op = p.adt('blueprint::Operation')
    cx = set()      # (variant, field) of the compiled operation that carries GrpcAction.var
    for st, a in F.compiled:
        o = getf(a, 0, F.action_op())
        if o[0] != 'a' or o[2] is None:
            continue
        for i, w in o[4]:
            w = eta(p, w)
            if w[0] == 's' and TERMS[w[1]][0] == 'fld':
                k = TERMS[w[1]]
                bt = TTY.get(k[1])
                if bt is not None and p.types[bt]['k'] == 'adt' and 'configuration::' in p.head(bt):
                    nm = p.types[bt]['v'][0][2][k[3]][0] if len(p.types[bt]['v']) == 1 else None
                    if nm == 'var':
                        cx.add((o[2], i))
    out = {}
    for st, t, inner in F.tasks:
        for a in inner:
            for i, w in a[4]:
                w = eta(p, w)
                if w[0] == 's' and TERMS[w[1]][0] == 'fld' and (TERMS[w[1]][2], TERMS[w[1]][3]) in cx:
                    out.setdefault(p.head(a[1]), set()).add(i)
    del ga, op
    return out


def lists(ctx):
    """configured follow-ups -> compiled follow-ups -> tasks"""
    p = ctx.p
    # configuration -> compiled
    C2 = blue.compile_paths(ctx, K=2, name='blueprint::Action::compile_typed')
    e = C2.e
    act = p.adt('blueprint::Action')
    opx = [i for i, (n, t) in enumerate(p.types[act]['v'][0][2]) if t is not None and p.types[t]['s'].endswith('blueprint::Operation')][0]
    rty = p.types[p.fns[C2.fi]['b']['ls'][0][0]]
    typed = None
    for v in e.params(C2.fi):
        ty = TTY.get(v[1])
        if ty is not None and 'TypedAction' in p.types[ty]['s']:
            typed = v
    n = 0
    most = 0
    for st in C2.states:
        if st.result[0] != 'a' or rty['v'][st.result[2]][0] != 'Ok':
            continue
        a = getf(st.result, st.result[2], 0)
        o = getf(a, 0, opx)
        if o[0] != 'a' or o[2] is None:
            continue
        for i, (fnm, ft) in enumerate(p.types[o[1]]['v'][o[2]][2] if o[1] is not None else ()):
            if ft is None or 'Vec<' not in p.types[ft]['s'] or 'blueprint::Action>' not in p.types[ft]['s']:
                continue
            got = [blue.elems(getf(o, o[2], i))][0]
            src = [child_source(e, x) for x in got]
            seqs = {TERMS[s][1] for s in src if s is not None and TERMS[s][0] == 'elem'}
            n += 1
            most = max(most, len(got))
            if not got:
                # nothing compiled: the configured list is empty on this path
                zero = any(TERMS[t][0] == 'more' and f == ('=', 0) and TERMS[t][2] == 0 for t, f in st.facts.items())
                ctx.oblige(zero, 'compiled follow-ups missing', 'an action is compiled without follow-ups although some may be configured\n%s' % trace_text(e, st))
                continue
            okk = len(seqs) == 1 and [TERMS[s][2] for s in src] == list(range(len(got)))
            cnt, ex = count(st, ('s', next(iter(seqs)))) if len(seqs) == 1 else (0, 0)
            ctx.oblige(okk and cnt == len(got), 'compiled follow-ups', 'the follow-ups of a compiled action are %s' % [e.show(('s', s)) if s is not None else None for s in src])
    ctx.floor('compiled follow-up lists', n, 5)
    ctx.floor('longest compiled follow-up list', most, 2)
    # compiled -> tasks
    T2 = blue.to_tasks_paths(ctx, K=2, name='blueprint::Action::to_core_task')
    e = T2.e
    n = most = 0
    rty = p.fns[T2.fi]['b']['ls'][0][0]
    optional = p.types[rty]['k'] == 'adt' and p.head(rty).endswith('option::Option')
    for st in T2.states:
        if optional:
            if any(dropped(e, st, t, f, rty) for t, f in st.facts.items()):
                continue        # excluded by the obligation below, for every action
            ctx.oblige(variant_of(e, st, st.result, rty) == 'Some', 'action without task', 'a compiled action gets no task at all\n%s' % trace_text(e, st))
        for t in blue.inner_aggs(e, st, st.result, lambda h: '::tasks::' in h and h.endswith('Task'), 3):
            fs = p.types[t[1]]['v'][0][2]
            for i, (fnm, ft) in enumerate(fs):
                if ft is None or 'Vec<' not in p.types[ft]['s'] or 'dyn ' not in p.types[ft]['s']:
                    continue
                got = blue.elems(getf(t, 0, i))
                src = [task_source(e, st, x) for x in got]
                n += 1
                most = max(most, len(got))
                if not got:
                    zero = any(TERMS[x][0] == 'more' and f == ('=', 0) and TERMS[x][2] == 0 for x, f in st.facts.items())
                    ctx.oblige(zero, 'follow-up tasks missing', 'a task is built without follow-ups although its action may have some\n%s' % trace_text(e, st))
                    continue
                seqs = {TERMS[s][1] for s in src if s is not None and TERMS[s][0] == 'elem'}
                okk = len(seqs) == 1 and [TERMS[s][2] for s in src] == list(range(len(got)))
                cnt, ex = count(st, ('s', next(iter(seqs)))) if len(seqs) == 1 else (0, 0)
                ctx.oblige(okk and cnt == len(got), 'follow-up tasks', 'the follow-ups of a task are built from %s' % [e.show(('s', s)) if s is not None else None for s in src])
    ctx.floor('follow-up lists of tasks', n, 3)
    ctx.floor('longest follow-up list of a task', most, 2)


def dropped(e, st, t, f, rty):
    """the path assumes that building a nested task gave nothing"""
    k = TERMS[t]
    return k[0] == 'disc' and f == ('=', 0) and TERMS[k[1]][0] == 'call' and TTY.get(k[1]) == rty



def child_source(e, a):
    """configuration element a compiled follow-up was made from (recursive compilation or its fields)"""
    a = strip(a)
    if a[0] == 's':
        k = TERMS[a[1]]
        if k[0] == 'fld':
            c = TERMS[k[1]]
            if c[0] == 'call':
                for x in c[2]:
                    x = strip(x)
                    t = x[1] if x[0] == 's' else None
                    if t is not None and TERMS[t][0] == 'elem':
                        return t
        return None
    if a[0] == 'a':
        roots = {blue.root_elem(eta(e.p, w)) for _i, w in a[4]} - {None}
        if len(roots) == 1:
            return roots.pop()
    return None


def task_source(e, st, v):
    """compiled action a follow-up task was made from"""
    x = deref(e, st, v)
    x = strip(x)
    if x[0] == 's':
        k = TERMS[x[1]]
        n = 0
        while k[0] in ('fld', 'deref') and n < 5:
            x = ('s', k[1])
            k = TERMS[x[1]]
            n += 1
        if k[0] == 'call':
            for y in k[2]:
                y = strip(y)
                if y[0] == 's' and TERMS[y[1]][0] == 'elem':
                    return y[1]
        return None
    if x[0] == 'a':
        roots = {blue.root_elem(eta(e.p, w)) for _i, w in x[4]} - {None}
        if len(roots) == 1:
            return roots.pop()
    return None


def wrappers(ctx):
    p = ctx.p
    n = 0
    for h, fi in task_impls(p):
        if not task_keep(p, h):
            continue
        P = Paths(ctx, fi, effects=EFF, extra=EXTRA, keep=task_keep(p, h), K=2)
        e = P.e
        for st in P.states:
            inner = calls(st.events(), APPLY)
            if len(inner) != 1 or outcome_of(e, st, inner[0]) != 'Requeued':
                continue
            n += 1
            v, _ = outcome(e, st)
            orig = payload(e, inner[0], 'Requeued', '0')
            if not ctx.oblige(v == 'Requeued', short_head(h) + ' swallows follow-ups', '%s turns follow-ups of the wrapped task into %s' % (p.where(fi), v)):
                continue
            got = ofield(e, st, 'Requeued', '0')
            if got == orig or canon(e, st, got) == [('all', orig[1])]:
                ctx.oblige(True, short_head(h), '')
                continue
            cnt, ex = count(st, orig)
            es = blue.elems(got)
            idx = [wrapped_elem(e, st, x, orig) for x in es]
            ctx.oblige(idx == list(range(cnt)), short_head(h) + ' follow-ups', '%s hands on follow-ups %s of %d\n%s' % (p.where(fi), idx, cnt, trace_text(e, st)))
    ctx.floor('wrapper paths with follow-ups', n, 2)


def wrapped_elem(e, st, x, seq):
    n = elem_no(e.snap(st, x), seq)
    if n is not None:
        return n
    x = deref(e, st, x)
    if x[0] == 'a':
        for _i, y in x[4]:
            n = wrapped_elem(e, st, y, seq)
            if n is not None:
                return n
    return None


def decoding(ctx):
    p = ctx.p
    n = 0
    for i, f in enumerate(p.fns):
        if not f['l'] or f['b'] is None or not (f.get('ti') or '').endswith('services::Service::parse_message'):
            continue
        rty = f['b']['ls'][0][0]
        if 'DynamicMessage' not in p.types[rty]['s']:
            continue
        e = base.make(p)
        for st in run_all(ctx, e, i):
            out = variant_of(e, st, st.result, rty)
            evs = [ev for ev in st.events() if ev.kind == 'call']
            errs = [ev for ev in evs if is_result(e, ev) and res(e, st, ev) == 'Err']
            dec = [ev for ev in evs if 'decode' in ev.path.rsplit('::', 1)[-1] or 'merge' in ev.path.rsplit('::', 1)[-1]]
            n += 1
            if out == 'Ok':
                data = strip(e.params(i)[1])
                own = len(dec) == 1 and any(x == data or mentions(x, lambda k, d=data: k[0] == 'deref' and ('s', k[1]) == d) or mentions(e.snap(st, x), lambda k: False) or repr(data) in repr(x) for x in [strip(y) for y in dec[0].args])
                ctx.oblige(not errs and own, 'message decoded', '%s: a message counts as decoded after %s\n%s' % (p.where(i), [p.short(x.path) for x in dec], trace_text(e, st)))
            elif out != 'Err':
                ctx.oblige(False, 'message decoding', '%s: the result of decoding is open' % p.where(i))
    ctx.floor('paths of message decoding', n, 2)
