"""C09: an action waiting for a body is retried until the stream ends, then fails."""
from engine.acts import *
from .c01 import run_all

EXPLANATION = '''Every abstract path of every action task (and of the task that extracts response fields) is checked for when it is put back, as what, and when it gives up:
the end-of-stream flags and the lookups of the needed body fields established on the path must justify the outcome.'''
READS = [HOST + 'get_http_request_body', HOST + 'get_http_response_body', HOST + 'get_attribute', HOST + 'get_attribute_map', 'context::ReqRespCtx::get_attribute_ref', 'context::ReqRespCtx::get_attribute']

RB = {'context::ReqRespCtx::get_attribute_ref': boundary, 'context::ReqRespCtx::get_attribute': boundary}


def check(ctx):
    ctx.rule('pending predicate/expression X => put back only if every body X needs values of either has not ended or has provided all of them')
    ctx.rule('pending X => fails only if a body X needs values of has ended and one of those values is missing')
    ctx.rule('put back means: exactly one task, itself, with everything it was configured with (only the state of body parsing may change)')
    ctx.rule('an action that waits for body bytes waits only while the stream has not ended or the host does not provide the bytes yet')
    ctx.rule('what the host says about the end of a body is exactly what is read back')
    B = bodies(ctx)
    tasks(ctx, B)
    extraction(ctx, B)
    evaluation(ctx, B)
    remembers(ctx, 'end of stream', 'context::BodyContext::is_end_of_stream', 'bool')


def remembers(ctx, what, getter, kind):
    """what the host says of a body is what is read back, whatever was said or found before"""
    p = ctx.p
    si, gi = p.find1('context::BodyContext::set_buffer_size'), p.find1(getter)
    e = base.make(p)
    ps = e.params(si)
    given = [v for v in ps[1:] if (p.types[TTY[v[1]]].get('n') or p.types[TTY[v[1]]]['k']) == kind]
    if len(given) != 1:
        raise AnalysisError('the host says of a body %d values of kind %s' % (len(given), kind))
    n = 0
    for st in e.run(si, ps):
        st = st.fork()
        st.result = None
        for q in e.run(gi, [ps[0]], st):
            n += 1
            want, got = given[0], strip(e.snap(q, q.result))
            t = e.truth(q, want) if kind == 'bool' else None
            ctx.oblige(got == want or t is not None and (got == C(t) or e.truth(q, got) == t), what + ' of a body', 'the host says %s, read back is %s\n%s' % (e.show(want), e.show(got), trace_text(e, q)))
    ctx.floor(what + ' read back', n, 1)
    ctx.engine_stats(e)


class Bodies:
    pass


def getter_ix(ctx, name):
    """field index a getter reads, from its abstract result"""
    fi = ctx.p.find1(name)
    e = base.make(ctx.p)
    r = run_all(ctx, e, fi)
    x = strip(e.snap(r[0], r[0].result))
    while x[0] == 's' and TERMS[x[1]][0] in ('deref', 'call'):
        k = TERMS[x[1]]
        x = strip(k[2][0]) if k[0] == 'call' else ('s', k[1])
    if x[0] != 's' or TERMS[x[1]][0] != 'fld':
        raise AnalysisError('getter of unknown shape: ' + name)
    return TERMS[x[1]][3]


def bodies(ctx):
    p = ctx.p
    B = Bodies()
    rc = p.adt('context::ReqRespCtx')
    B.ctx_ix = {'request': p.field_ix(rc, 'request_body'), 'response': p.field_ix(rc, 'response_body')}
    B.expr_ix = {'request': getter_ix(ctx, 'cel::Expression::request_body_values'), 'response': getter_ix(ctx, 'cel::Expression::response_body_values')}
    B.eos_ix = getter_ix(ctx, 'context::BodyContext::is_end_of_stream')
    B.bty = p.adt('context::BodyContext')
    B.ety = p.adt('cel::Expression')
    return B


def in_body(B, t, which, d=14):
    """is term t (a part of) the context's request/response body, whatever happened to it meanwhile?"""
    while d:
        d -= 1
        k = TERMS[t]
        if k[0] == 'fld':
            if k[3] == B.ctx_ix[which] and TTY.get(t) == B.bty:
                return True
            t = k[1]
        elif k[0] == 'deref':
            t = k[1]
        elif k[0] == 'mut':
            x = k[3] if len(k) > 3 else None
            x = strip(x) if isinstance(x, tuple) and x and x[0] in ('&', 's') else None
            if x is None or x[0] != 's':
                return False
            t = x[1]
        else:
            return False
    return False


def eos(B, st, which):
    got = set()
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'fld' and k[3] == B.eos_ix and f[0] == '=' and in_body(B, k[1], which):
            got.add(f[1])
    return got


def wanted(c, B, e, st, ev, which):
    """(all present, some missing) of the body fields the evaluated predicate/expression needs"""
    x = e.deref(st, ev.raw[0]) if ev.raw else None
    seqs = []
    some_missing = False
    seen_all = False
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'more' and need_of(c, B, k[1], ev, which):
            seqs.append(k[1])
    for s in set(seqs):
        n, ex = count(st, ('s', s))
        good = 0
        for i in range(n):
            el = TIX.get(('elem', s, i))
            if el is None:
                continue
            has = None
            for t, f in st.facts.items():
                k = TERMS[t]
                if k[0] == 'haskey' and f[0] == '=' and strip(k[2]) == ('s', el) and in_map(B, k[1], which):
                    has = f[1]
            if has == 0:
                some_missing = True
            elif has == 1:
                good += 1
        if good == n and (ex or n >= max(e.K, e.floor)):
            seen_all = True
    return seen_all, some_missing


def in_map(B, m, which):
    return isinstance(m, int) and in_body(B, m, which) or (isinstance(m, tuple) and m[0] == 's' and in_body(B, m[1], which))


def need_of(c, B, t, ev, which):
    """is sequence term t the list of `which` body values of the expression evaluated by ev?"""
    k = TERMS[t]
    n = 0
    while k[0] == 'deref' and n < 4:
        t = k[1]
        k = TERMS[t]
        n += 1
    if k[0] != 'fld' or k[3] != B.expr_ix[which] or TTY.get(k[1]) not in (B.ety, None):
        return False
    b = strip(('s', k[1]))
    a = strip(ev.args[0])
    n = 0
    while n < 6:
        if b == a:
            return True
        if b[0] != 's' or TERMS[b[1]][0] not in ('fld', 'deref'):
            return False
        b = strip(('s', TERMS[b[1]][1]))
        n += 1
    return False


def same_task(c_p, e, st, item, self_, p, ty, mutable):
    """the list of fields that differ between the task put back and the task that ran"""
    x = item
    if strip(x) == strip(self_):
        return []
    if x[0] != 'a' or (x[1] is not None and x[1] != ty):
        return ['?']
    diff = []
    orig = T('deref', strip(self_)[1])
    for i, (n, t) in enumerate(p.types[ty]['v'][0][2]):
        v = eta(p, e.snap(st, getf(x, 0, i)))
        want = T('fld', orig, 0, i)
        if v != ('s', want) and not (t is not None and mutable(t)):
            diff.append(n)
    return diff


def parse_state(p):
    """types that (transitively) hold the state of body parsing"""
    def holds(t, d=5, seen=()):
        if t is None or d == 0 or t in seen:
            return False
        y = p.types[t]
        s = y['s']
        if 'dyn ' in s and ('BodyParser' in s or 'Strategy' in s):
            return True
        if y['k'] == 'adt' and y.get('l'):
            return any(holds(ft, d - 1, seen + (t,)) for _n, _d, fs in y['v'] for _f, ft in fs)
        return False
    return holds


def tasks(ctx, B):
    p = ctx.p
    mutable = parse_state(p)
    n_pend = n_fail = n_back = n_wait = 0
    for c in core_tasks(ctx, RB, effects=READS):
        e = c.e
        for st, out, evs in c.states():
            tr = lambda: trace_text(e, st)
            pend = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (TEST, EXPR)) and verdict(e, st, ev) == 'pending']
            if out == 'Requeued':
                items = requeued(e, st)
                own = len(items) == 1 and items[0][0] in ('s', 'a')
                if not ctx.oblige(own, c.name + ' put back', '%s is put back as %s\n%s' % (p.where(c.fi), [e.show(x) if x[0] in 'sa' else x for x in items], tr())):
                    continue
                n_back += 1
                diff = same_task(c, e, st, items[0], c.self_, p, c.ty, mutable)
                ctx.oblige(not diff, c.name + ' put back changed', '%s is put back with a different %s\n%s' % (p.where(c.fi), ', '.join(diff or []), tr()))
                if not pend:
                    n_wait += 1
                    ended = {w for w in B.ctx_ix if 1 in eos(B, st, w)}
                    open_ = {w for w in B.ctx_ix if 0 in eos(B, st, w)}
                    reads = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, tuple(READS + HOSTW + [SETATTR])) and answered(e, st, ev) != 'Available']
                    ctx.oblige(bool(open_) or bool(reads), c.name + ' waits for nothing', '%s is put back although nothing is outstanding (ended: %s)\n%s' % (p.where(c.fi), sorted(ended), tr()))
            if not pend:
                continue
            ev = pend[-1]
            n_pend += 1
            what = 'predicate' if matches(ev.path, (TEST,)) else 'expression'
            if out == 'Requeued':
                for w in B.ctx_ix:
                    all_there, miss = wanted(c, B, e, st, ev, w)
                    okk = 0 in eos(B, st, w) or (all_there and not miss)
                    ctx.oblige(okk, '%s waits forever for the %s body (%s)' % (c.name, w, what),
                               '%s: a pending %s is put back although the %s body may have ended without the values it needs\n%s' % (p.where(c.fi), what, w, tr()))
            elif out == 'Failed':
                n_fail += 1
                okk = any(1 in eos(B, st, w) and wanted(c, B, e, st, ev, w)[1] for w in B.ctx_ix)
                ctx.oblige(okk, '%s gives up early (%s)' % (c.name, what),
                           '%s: a pending %s fails the action although no body it needs is known to have ended without its values\n%s' % (p.where(c.fi), what, tr()))
            else:
                ctx.oblige(False, '%s pending %s ends in %s' % (c.name, what, out), '%s: a pending %s ends in %s\n%s' % (p.where(c.fi), what, out, tr()))
        ctx.sample('%s: %d abstract paths' % (p.where(c.fi), len(c.P.states)))
    ctx.floor('pending paths', n_pend, 60)
    ctx.floor('pending paths that fail', n_fail, 15)
    ctx.floor('tasks put back', n_back, 40)
    ctx.floor('tasks put back for bytes', n_wait, 3)


def answered(e, st, ev):
    """Available when the host / context call on this path is known to have delivered"""
    r = ev.ret
    if r[0] != 's':
        return None
    rty = TTY.get(r[1])
    if rty is None or e.p.types[rty]['k'] != 'adt':
        return None
    vn = variant_of(e, st, r, rty)
    if vn != 'Ok':
        return vn
    ok = [i for i, v in enumerate(e.p.types[rty]['v']) if v[0] == 'Ok'][0]
    a = getf(r, ok, 0)
    aty = e.p.types[rty]['v'][ok][2][0][1]
    if aty is not None and e.p.types[aty]['k'] == 'adt' and any(v[0] == 'Pending' for v in e.p.types[aty]['v']):
        return variant_of(e, st, a, aty)
    return 'Available'


def extraction(ctx, B):
    """the task that extracts the announced response fields"""
    p = ctx.p
    mutable = parse_state(p)
    n = 0
    for h, fi in task_impls(p):
        ty = p.adt(h)
        fs = p.types[ty]['v'][0][2] if len(p.types[ty]['v']) == 1 else []
        if task_keep(p, h) or any(t is not None and 'cel::Predicate' in p.types[t]['s'] for _n, t in fs) or not any(t is not None and 'std::string::String>' in p.types[t]['s'].replace('alloc::', 'std::') for _n, t in fs):
            continue
        if not ctx.g.reach_named(fi, lambda y: matches(y, (HOST + 'get_http_response_body',)), lambda y: matches(y, (TEST, EXPR, APPLY))):
            continue
        P = Paths(ctx, fi, effects=READS, extra=RB, K=1)
        e = P.e
        for st in P.states:
            out, _ = outcome(e, st)
            evs = st.events()
            tr = lambda: trace_text(e, st)
            name = short_head(h)
            E = eos(B, st, 'response')
            n += 1
            if out == 'Requeued':
                items = requeued(e, st)
                diff = same_task(None, e, st, items[0], e.params(fi)[0], p, ty, mutable) if len(items) == 1 and items[0][0] in ('s', 'a') else ['?']
                ctx.oblige(not diff, name + ' put back changed', '%s is put back with a different %s\n%s' % (p.where(fi), ', '.join(diff or []), tr()))
                late = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, tuple(READS)) and answered(e, st, ev) != 'Available']
                ctx.oblige(E == {0} or bool(late), name + ' waits after the end', '%s is put back although the stream has ended and its bytes were read\n%s' % (p.where(fi), tr()))
            elif out == 'Done':
                ctx.oblige(E == {1}, name + ' done early', '%s is done although the stream is not known to have ended\n%s' % (p.where(fi), tr()))
            elif out == 'Failed':
                ctx.oblige(any(ev.kind == 'call' and matches(ev.path, tuple(READS)) and answered(e, st, ev) == 'Err' for ev in evs), name + ' fails', '%s fails although nothing went wrong\n%s' % (p.where(fi), tr()))
            else:
                ctx.oblige(False, name + ' outcome', '%s ends in %s' % (p.where(fi), out))
    ctx.floor('paths of the field extraction', n, 10)


def evaluation(ctx, B):
    """an expression is pending for a body only because one of its own fields has no value there"""
    p = ctx.p
    e, fi, sts = eval_expression_paths(ctx)
    rty = p.fns[fi]['b']['ls'][0][0]
    n = {'request': 0, 'response': 0}
    ok = [i for i, x in enumerate(p.types[rty]['v']) if x[0] == 'Ok'][0]
    aty = p.types[rty]['v'][ok][2][0][1]
    self_ = e.params(fi)[0]
    for st in sts:
        looks = []
        for c in st.events():
            if c.kind == 'call' and c.path.endswith('HashMap::get'):
                m = strip(c.args[0])
                for w in B.ctx_ix:
                    if m[0] == 's' and in_body(B, m[1], w):
                        hit = variant_of(e, st, c.ret, TTY.get(c.ret[1]))
                        k = strip(c.args[1])
                        el = TERMS[k[1]] if k[0] == 's' else ('',)
                        own = el[0] == 'elem' and TERMS[el[1]][0] == 'fld' and TERMS[el[1]][3] == B.expr_ix[w] and TERMS[TERMS[el[1]][1]] == ('deref', self_[1])
                        ctx.oblige(own, 'looks up a foreign %s body field' % w, 'evaluating an expression looks up %s in the %s body' % (e.show(k), w))
                        looks.append((w, hit))
                        n[w] += 1
        out = variant_of(e, st, st.result, rty)
        a = getf(st.result, ok, 0) if out == 'Ok' else None
        res = variant_of(e, st, a, aty) if a is not None else out
        if any(h == 'None' for _w, h in looks):
            ctx.oblige(res == 'Pending', 'missing body value', 'an expression whose body value is missing evaluates to %s\n%s' % (res, trace_text(e, st)))
        elif res == 'Available':
            for w in B.ctx_ix:
                seq = sym('fld', T('deref', self_[1]), 0, B.expr_ix[w])
                cnt, ex = count(st, seq)
                have = len([1 for ww, h in looks if ww == w and h == 'Some'])
                ctx.oblige((ex or cnt >= max(e.K, e.floor)) and have == cnt, 'body values of the %s body' % w, 'an expression is evaluated with %d of %d values of the %s body it needs\n%s' % (have, cnt, w, trace_text(e, st)))
    for w in n:
        ctx.floor('lookups in the %s body' % w, n[w], 1)
