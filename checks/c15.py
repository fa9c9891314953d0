"""C15: every outbound call carries one stable request id and trace context."""
from engine.acts import *
from engine.base import boundary, pure_boundary
from engine.core import getf
from engine.wire import wires
from .c01 import run_all
from .c06 import touches, borrows

EXPLANATION = '''The header list of the host call is evaluated abstractly, following the propagator's injection into it, for every state of the identifier and of the span; a second call and the reply's tracker header
are evaluated on the resulting state to see that they carry the same identifier. Whoever else calls the host, writes the identifier or the trace context is found in the MIR of the whole crate.'''
CTX = 'context::ReqRespCtx::'
CALL, RID, TRK, PUB, EXTR, ENTER = CTX + 'dispatch_grpc_call', CTX + 'request_id', CTX + 'tracker', CTX + 'set_public_tracker_id', CTX + 'extract_trace_context', CTX + 'enter_request_span'
INJECT, EXTRACT, PROP = 'TextMapPropagator::inject_context', 'TextMapPropagator::extract', 'propagation::get_text_map_propagator'
SPAN_CTX, CURRENT = 'OpenTelemetrySpanExt>::context', 'tracing::span::Span::current'
GETA = CTX + 'get_attribute'
SENDR = CTX + 'send_http_reply'
HEADER = 'x-request-id'
SET = 'opentelemetry::propagation::Injector::set'


def check(ctx):
    ctx.rule('the header list of every host call holds each injected trace header once and x-request-id once, with the identifier of the request')
    ctx.rule('the injected context is that of the current span exactly while the request span is entered, and the incoming one otherwise')
    ctx.rule('the identifier is the x-request-id header of the request if there is one, else generated; later calls and the reply carry the same one')
    ctx.rule('only the context calls the host, only its initialisation sets the identifier, only the extraction of the request headers sets the incoming trace context, and it precedes the tasks')
    calls_out(ctx)
    spans(ctx)
    sites(ctx)
    writes(ctx)
    incoming(ctx)
    replies(ctx)
    tracing_task(ctx)


def m_prop(e, st, c):
    def g(f):
        return (yield ('callv', f, (sym('propagator'),)))
    c.native(g, c.args[0])


def m_inject(e, st, c):
    """the propagator reports any number of headers of the given context to the injector"""
    imps = [f for f in e.p.fns if f.get('ti') == SET and f['b'] is not None]
    if len(imps) != 1:
        raise AnalysisError('%d kinds of trace header injectors' % len(imps))

    def g(what, inj):
        for i in range(max(2, e.floor)):
            b = yield ('branch', sym('injects', what, ('c', i)))
            if not b:
                break
            yield ('push', imps[0]['i'], (inj, sym('injkey', ('c', i)), sym('injval', ('c', i))))
        return UNIT
    c.native(g, e.snap(st, c.args[1]), c.args[2])


def engine(ctx, **kw):
    ex = {PROP: m_prop, INJECT: m_inject, GETA: pure_boundary}
    ex.update(kw.pop('extra', {}))
    return base.make(ctx.p, extra=ex, **kw)


def fn_of(ctx, name):
    fs = [i for i, f in enumerate(ctx.p.fns) if f['b'] is not None and matches(f['p'], (name,))]
    ctx.floor(name.split('::')[-1], len(fs), 1)
    return fs[0]


def text(e, st, v):
    """the text behind borrows, conversions to bytes and copies"""
    x = strip(e.snap(st, v))
    n = 0
    while n < 20:
        n += 1
        if x[0] != 's':
            return x
        k = TERMS[x[1]]
        if k[0] == 'deref':
            x = strip(('s', k[1]))
        elif k[0] == 'call' and k[1].endswith(('ToString::to_string', 'Clone::clone', 'as_bytes', 'to_owned', 'String::as_str', 'into_bytes', 'as_slice', 'to_vec', 'From>::from', 'Into::into')):
            x = strip(k[2][0])
        else:
            return x
    return x


def pairs(e, st, v):
    """[(name, value)] of a header list, None when it is not known entry by entry"""
    x = strip(e.snap(st, v))
    if x[0] != 'v':
        return None
    out = []
    for s in x[1]:
        if s[0] != 'e':
            return None
        t = strip(s[1])
        if t[0] == 's':
            f = {0: getf(t, 0, 0), 1: getf(t, 0, 1)}
        elif t[0] == 'a' and len(t[4]) == 2:
            f = dict(t[4])
        else:
            return None
        out.append((text(e, st, f[0]), text(e, st, f[1])))
    return out


def within(v, self_):
    """v is a field of the context itself"""
    return part(v, strip(self_))


def part(v, r):
    x = strip(v)
    n = 0
    while n < 30:
        n += 1
        if x == r:
            return True
        if x[0] != 's' or TERMS[x[1]][0] not in ('fld', 'deref'):
            return False
        x = strip(('s', TERMS[x[1]][1]))
    return False


def injected(e, st):
    """[(context, name, value)] the propagator handed over on this path; empty values carry nothing"""
    out, ctxs = [], []
    for t in st.facts:
        if TERMS[t][0] == 'injects':
            ctxs.append(TERMS[t][1])
            if st.facts[t] == ('=', 1):
                i = TERMS[t][2]
                val = sym('injval', i)
                if st.facts.get(val[1]) != ('=', ''):
                    out.append((sym('injkey', i), val))
    return ctxs, out


def own_id(ctx, e, st, v, self_, where):
    """the identifier is what the request says, or fresh when it says nothing"""
    if within(v, self_):
        return 'known'
    asked = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (GETA,)) and strip(ev.args[1]) == ('c', 'request.headers')]
    if not ctx.oblige(bool(asked), where + ': header', 'the identifier is made up without looking at the request headers'):
        return None
    names = {}
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'eq' and f == ('=', 1) and HEADER in (k[2], k[2][1] if isinstance(k[2], tuple) else None):
            names[k[1]] = True
    client = None
    x = strip(v)
    if x[0] == 's':
        k = TERMS[x[1]]
        if k[0] == 'fld':
            client = k[1]
    said = [t for t, f in st.facts.items() if f == ('=', HEADER)]
    if mentions(x, lambda k: k[0] == 'call' and matches(k[1], (GETA,)), 40):
        ok = any(TERMS[t][0] == 'fld' and TERMS[t][1] == client and TERMS[t][3] != TERMS[x[1]][3] for t in said)
        ctx.oblige(ok, where + ': header', 'the identifier comes from something else than the %s header: %s' % (HEADER, e.show(x, 8)[:160]))
        return 'client'
    fresh = x[0] == 's' and TERMS[x[1]][0] == 'call' and 'new_v4' in TERMS[x[1]][1]
    ctx.oblige(fresh, where + ': identifier', 'the identifier is neither the one of the client nor generated: %s' % e.show(x, 6)[:160])
    ctx.oblige(not said, where + ': identifier', 'an identifier is generated although the client sent one')
    for ev in asked:
        s = [t for t in {TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more'} if term_mentions(t, lambda k: k == TERMS[strip(ev.ret)[1]], 20)]
        for q in s:
            ctx.oblige(walked(e, st, q) is not None, where + ': identifier', 'an identifier is generated before all headers were looked at')
        if not s:
            have = 'headers looked at'
            vs = [f for t, f in st.facts.items() if TERMS[t][0] == 'disc' and term_mentions(t, lambda k: k == TERMS[strip(ev.ret)[1]], 20)]
            ctx.oblige(('=', 0) in vs or ('=', 1) in vs, where + ': identifier', 'an identifier is generated whatever the headers are')
            ctx.oblige(not given(e, st, ev), where + ': identifier', 'an identifier is generated although headers are there')
    return 'fresh'


def given(e, st, ev):
    """the path knows the attribute to be Ok(Available(Some(..)))"""
    v, ty = ev.ret, TTY.get(ev.ret[1])
    for name in ('Ok', 'Available', 'Some'):
        if ty is None or variant_of(e, st, v, ty) != name:
            return False
        i = [j for j, x in enumerate(e.p.types[ty]['v']) if x[0] == name][0]
        ty2 = e.p.types[ty]['v'][i][2][0][1]
        v = e.mk_fld(v, i, 0, ty2) if hasattr(e, 'mk_fld') else ('s', T('fld', v[1], i, 0))
        ty = ty2
    return True


def calls_out(ctx):
    p = ctx.p
    fi, ri, ti = fn_of(ctx, CALL), fn_of(ctx, RID), fn_of(ctx, TRK)
    e = engine(ctx)
    ps = e.params(fi)
    n = span = inc = 0
    kinds = set()
    again = []
    for st in e.run(fi):
        n += 1
        host = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (HOSTD,))]
        if not ctx.oblige(len(host) == 1, 'call', 'a call to a service reaches the host %d times' % len(host)):
            continue
        hs = None
        for a in host[0].args:
            hs = pairs(e, st, a) if hs is None else hs
        if not ctx.oblige(hs is not None, 'call: headers', 'the headers of a call are not known'):
            continue
        ctxs, inj = injected(e, st)
        ctx.oblige(bool(ctxs), 'call: trace headers', 'a call goes out without asking for trace headers')
        guard = [f for t, f in st.facts.items() if TERMS[t][0] == 'disc' and within(('s', TERMS[t][1]), ps[0]) and is_span(e, TERMS[t][1])]
        for c in ctxs:
            cur = mentions(c, lambda k: k[0] == 'call' and matches(k[1], (SPAN_CTX,)), 10) and mentions(c, lambda k: k[0] == 'call' and matches(k[1], (CURRENT,)), 12)
            own = within(c, ps[0])
            span += bool(cur)
            inc += bool(own)
            ctx.oblige((cur and guard == [('=', 1)]) or (own and guard == [('=', 0)]), 'call: trace context', 'trace headers are those of %s while the request span is %s' % (
                e.show(c, 4)[:80], {(('=', 1),): 'entered', (('=', 0),): 'not entered'}.get(tuple(guard), 'not looked at')))
        want = [(text(e, st, k), text(e, st, v)) for k, v in inj]
        rest = [h for h in hs if h not in want]
        ctx.oblige(all(hs.count(w) == 1 for w in want), 'call: trace headers', 'a trace header is missing or repeated')
        if not ctx.oblige(len(rest) == 1 and rest[0][0] == ('c', HEADER), 'call: headers', 'beside the trace headers a call carries %s' % [e.show(h[0], 3) for h in rest]):
            continue
        k = own_id(ctx, e, st, rest[0][1], ps[0], 'call')
        kinds.add(k)
        if not inj:
            again.append((st, rest[0][1]))
    ctx.floor('calls', n, 10)
    ctx.floor('calls within the span', span, 3)
    ctx.floor('calls outside the span', inc, 3)
    ctx.oblige(kinds >= {'known', 'client', 'fresh'}, 'identifiers', 'identifiers are only ever %s' % sorted(str(k) for k in kinds))
    e2 = engine(ctx, extra={INJECT: boundary})
    m = 0
    for st, idv in again:
        for gi, nm in ((fi, 'second call'), (ri, 'request_id'), (ti, 'tracker')):
            s2 = st.fork()
            s2.trace = None
            s2.result = None
            args = list(e2.params(gi))
            args[0] = ps[0]
            for q in e2.run(gi, args, s2):
                m += 1
                if gi == fi:
                    host = [ev for ev in q.events() if ev.kind == 'call' and matches(ev.path, (HOSTD,))]
                    hs = pairs(e2, q, next((a for a in host[0].args if pairs(e2, q, a) is not None), UNIT)) if host else None
                    got = [v for k, v in hs or () if k == ('c', HEADER)]
                    ctx.oblige(got == [idv], 'stable', 'a second call carries another identifier: %s' % [e.show(g, 5)[:80] for g in got])
                elif gi == ri:
                    ctx.oblige(text(e2, q, q.result) == idv, 'stable', 'the identifier asked for later is another one')
                else:
                    r = strip(e2.snap(q, q.result))
                    name = e2.p.types[r[1]]['v'][r[2]][0] if r[0] == 'a' else None
                    if name == 'Some':
                        t = strip(r[4][0][1])
                        f = dict(t[4]) if t[0] == 'a' else {}
                        ctx.oblige(f and text(e2, q, f[1]) == idv, 'stable', 'the reply carries another identifier than the calls')
                        ctx.oblige(f and within(text(e2, q, f[0]), ps[0]), 'reply header', 'the identifier of the reply goes under a header that was not asked for')
                    else:
                        off = [v for t, v in q.facts.items() if TERMS[t][0] == 'disc' and within(('s', TERMS[t][1]), ps[0]) and v == ('=', 0)]
                        ctx.oblige(name == 'None' and off, 'reply header', 'the reply carries no identifier although one was asked for')
    ctx.floor('later uses', m, 20)
    ctx.engine_stats(e)
    ctx.engine_stats(e2)


HOSTD = 'resolver::AttributeResolver::dispatch_grpc_call'


def is_span(e, t):
    ty = TTY.get(t)
    d = e.p.ty(ty) or {}
    return d.get('k') == 'adt' and d.get('a') and 'EnteredSpan' in e.p.head(d['a'][0])


def spans(ctx):
    """whoever enters a span as the request span made it a child of the incoming context before"""
    fi = fn_of(ctx, ENTER)
    e = engine(ctx)
    ps = e.params(fi)
    n = 0
    for st in e.run(fi):
        evs = [ev for ev in st.events() if ev.kind == 'call']
        for j, ev in enumerate(evs):
            if not matches(ev.path, ('tracing::span::Span::entered',)):
                continue
            n += 1
            ok = any(matches(x.path, ('OpenTelemetrySpanExt>::set_parent',)) and strip(e.snap(st, x.args[0])) == strip(e.snap(st, ev.args[0])) and
                     mentions(x.args[1], lambda k: k == TERMS[strip(ps[0])[1]], 20) for x in evs[:j])
            ctx.oblige(ok, 'request span: parent', 'the request span is entered without the incoming context as its parent')
    ctx.engine_stats(e)
    ctx.floor('request spans', n, 1)


def sites(ctx):
    p, g = ctx.p, ctx.g
    roots = {fi for _h, fi in task_impls(p)} | {i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], ('executor::Pipeline::eval', 'executor::Pipeline::digest', 'factory::PipelineFactory::build'))}
    inside = set().union(*(g.reach(i) for i in roots))
    n = m = 0
    for s, path in g.calls_named(lambda path, c: matches(path, (HOSTD,))):
        fn = p.fns[g.root_fn(s.fi)]['p']
        if matches(fn, (CALL,)):
            n += 1
            continue
        m += 1
        ctx.oblige(s.fi not in inside, 'call site: %s' % p.short(fn), '%s calls a service for a request without its identifier and trace headers' % p.short(fn))
    ctx.floor('host call sites of the context', n, 1)
    for s, path in g.calls_named(lambda path, c: matches(path, (CTX + 'new',))):
        fn = p.fns[g.root_fn(s.fi)]['p']
        ctx.oblige(s.fi not in inside, 'context: %s' % p.short(fn), '%s makes a second context for a request' % p.short(fn))


def holders(p, ty, want, seen=()):
    """[(struct type, field index)] of the fields of type `want` in the struct and the structs inside it"""
    out = []
    t = p.ty(ty)
    if t is None or t['k'] != 'adt' or not t.get('l') or len(t['v']) != 1 or ty in seen:
        return out
    for i, (_n, ft) in enumerate(t['v'][0][2]):
        f = p.ty(ft)
        if f is None:
            continue
        if want(f):
            out.append((ty, i))
        out += holders(p, ft, want, seen + (ty,))
    return out


def writes(ctx):
    p = ctx.p
    rc = p.adt('kuadrant_filter::kuadrant::context::ReqRespCtx')
    ids = holders(p, rc, lambda f: f['k'] == 'adt' and f['p'].endswith('OnceCell'))
    ctl = holders(p, rc, lambda f: f['k'] == 'adt' and f['p'] == 'opentelemetry::context::Context')
    ctx.floor('identifier fields', len(ids), 1)
    ctx.floor('incoming trace context fields', len(ctl), 1)
    owners = {t for t, _i in ids + ctl if t != rc}
    n = 0
    for i, f in enumerate(p.fns):
        if f['b'] is None or not f['l']:
            continue
        root = p.fns[ctx.g.root_fn(i)]['p']
        for b in f['b']['bb']:
            for s in b['s']:
                if s[0] != '=':
                    continue
                n += 1
                for pl, how in [(s[1], 'written')] + [(q, 'borrowed for writing') for q in borrows(s)]:
                    if not pl[1]:
                        continue
                    for rc_, ix in ids:
                        ctx.oblige(not touches(p, f, pl, rc_, ix), 'identifier: %s' % p.short(root), 'the identifier of the request is %s in %s' % (how, p.short(root)))
                    for rc_, ix in ctl:
                        ctx.oblige(not touches(p, f, pl, rc_, ix) or matches(root, (EXTR,)), 'trace context: %s' % p.short(root), 'the incoming trace context is %s in %s' % (how, p.short(root)))
                    last = place_ty(p, f, pl)
                    ctx.oblige(last not in owners, 'state: %s' % p.short(root), 'identifier or trace context are replaced (%s) in %s' % (how, p.short(root)))
            t = b['t']
            if t and t[0] == 'call' and len(t) > 3 and isinstance(t[3], (list, tuple)) and len(t[3]) == 2 and isinstance(t[3][1], (list, tuple)) and t[3][1]:
                for rc_, ix in ids:
                    ctx.oblige(not touches(p, f, t[3], rc_, ix), 'identifier: %s' % p.short(root), 'the identifier of the request is set in %s' % p.short(root))
    ctx.floor('statements', n, 1000)
    for s, path in ctx.g.calls_named(lambda path, c: path.startswith('core::cell::once::OnceCell::') and path.rsplit('::', 1)[1] in ('set', 'take', 'get_mut', 'into_inner', 'try_insert')):
        ctx.oblige(False, 'identifier: %s' % p.short(p.fns[s.fi]['p']), 'a once-cell is changed in %s' % p.short(p.fns[s.fi]['p']))


def place_ty(p, f, pl):
    ty = f['b']['ls'][pl[0]][0]
    for pr in pl[1]:
        t = p.ty(ty)
        if pr == '*':
            ty = t['t'] if t is not None and t['k'] in ('ref', 'ptr') else None
        elif isinstance(pr, (list, tuple)) and pr[0] == 'f':
            ty = pr[2]
        else:
            return None
    return ty


def incoming(ctx):
    """the incoming context is the one the propagator reads from the request headers, before there are tasks"""
    p = ctx.p
    fi = fn_of(ctx, EXTR)
    e = engine(ctx, extra={EXTRACT: pure_boundary})
    ps = e.params(fi)
    n = 0
    ixs = holders(p, p.adt('kuadrant_filter::kuadrant::context::ReqRespCtx'), lambda f: f['k'] == 'adt' and f['p'] == 'opentelemetry::context::Context')
    for st in e.run(fi):
        asked = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (GETA,)) and strip(ev.args[1]) == ('c', 'request.headers')]
        ctx.oblige(len(asked) == 1, 'extraction: headers', 'the trace context is not read from the request headers')
        got = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (EXTRACT,))]
        if asked and given(e, st, asked[0]):
            n += 1
            if ctx.oblige(len(got) == 1, 'extraction', 'the incoming trace context is not extracted'):
                none = any(f == ('=', 0) and TERMS[t][0] == 'more' and TERMS[t][2] == 0 and term_mentions(t, lambda k: k == TERMS[strip(asked[0].ret)[1]], 20) for t, f in st.facts.items())
                ctx.oblige(none or mentions(got[0].args[1], lambda k: k == TERMS[strip(asked[0].ret)[1]], 30), 'extraction: headers', 'the trace context is extracted from something else than the request headers')
                now = e.snap(st, e.deref(st, ps[0]))
                ctx.oblige(mentions(now, lambda k: k == TERMS[strip(got[0].ret)[1]], 20), 'extraction', 'the extracted trace context is not kept')
    ctx.engine_stats(e)
    ctx.floor('extractions', n, 1)
    # the carrier: every header of the request under its own name
    gets = [i for i, f in enumerate(p.fns) if f.get('ti') == 'opentelemetry::propagation::Extractor::get' and f['b'] is not None]
    news = [i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], ('propagation::HeadersExtractor::new',))]
    if ctx.oblige(len(gets) == 1, 'carrier', '%d carriers of trace headers' % len(gets)) and news:
        e = base.make(p)
        k = 0
        hs = sym('headers')
        TTY[hs[1]] = p.types_where(lambda t: t['k'] == 'adt' and t['p'].endswith('data::headers::Headers'))[0] if hasattr(p, 'types_where') else None
        key = sym('key')
        for st in e.run(news[0]):
            s2 = st.fork()
            at = ('r', e.new_cell(s2, e.snap(st, st.result)), ())
            s2.trace = None
            s2.result = None
            for q in e.run(gets[0], [at, key], s2):
                k += 1
                r = strip(e.snap(q, q.result))
                some = r[0] == 'a' and e.p.types[r[1]]['v'][r[2]][0] == 'Some'
                named = [TERMS[t] for t, f in q.facts.items() if TERMS[t][0] == 'eq' and f == ('=', 1) and key in (TERMS[t][1], TERMS[t][2], ('s', TERMS[t][1]), ('s', TERMS[t][2]))]
                if some:
                    v = strip(r[4][0][1])
                    same = any(term_mentions(v[1], lambda k, x=x: k[0] == 'fld' and isinstance(k[1], int) and sibling(k, x), 20) for x in named) if v[0] == 's' else False
                    ctx.oblige(same, 'carrier', 'a trace header is read under another name')
                else:
                    ctx.oblige(not named, 'carrier', 'a header of the request is not handed to the trace propagator')
        ctx.floor('carrier paths', k, 2)
        ctx.engine_stats(e)
    bi = fn_of(ctx, 'factory::PipelineFactory::build')
    to = 'blueprint::Blueprint::to_tasks'
    P = Paths(ctx, bi, effects=[EXTR, to], extra={EXTR: boundary, to: boundary})
    n = 0
    for st in P.states:
        evs = [ev for ev in st.events() if ev.kind == 'call']
        built = [j for j, ev in enumerate(evs) if matches(ev.path, (to,))]
        read = [j for j, ev in enumerate(evs) if matches(ev.path, (EXTR,))]
        if built:
            n += 1
            ctx.oblige(read and min(read) < min(built), 'build: trace context', 'tasks are made before the incoming trace context is read')
            ctx.oblige(mentions(P.e.snap(st, evs[built[0]].args[1]), lambda k: k[0] == 'mut' and matches(k[1], (EXTR,)), 30), 'build: trace context', 'the incoming trace context is read into another context than the one of the tasks')
    ctx.floor('pipelines built', n, 1)


def sibling(leaf, eq):
    """the equality is about the name beside this value"""
    for a in eq[1:]:
        x = strip(a if isinstance(a, tuple) else ('s', a))
        x = x[1] if x[0] == 's' else None
        while x is not None and TERMS[x][0] == 'deref':
            x = TERMS[x][1]
        if x is not None and TERMS[x][0] == 'fld' and TERMS[x][1] == leaf[1] and TERMS[x][3] != leaf[3]:
            return True
    return False


def replies(ctx):
    n = m = 0
    for c in core_tasks(ctx, extra={SENDR: boundary, TRK: pure_boundary}, effects=[SENDR, TRK], only=reaches(ctx, SENDR)):
        for st, o, evs in c.states():
            for ev in evs:
                if not matches(ev.path, (SENDR,)):
                    continue
                asked = [x for x in evs if matches(x.path, (TRK,))]
                if not ctx.oblige(bool(asked), '%s: identifier' % c.name, 'a reply is sent without asking for the identifier it should carry'):
                    continue
                r = asked[-1].ret
                hs = next((pairs(c.e, st, a) for a in ev.args if pairs(c.e, st, a) is not None), None)
                if not ctx.oblige(hs is not None, '%s: headers' % c.name, 'the headers of a reply are not known'):
                    continue
                mine = [h for h in hs if any(mentions(x, lambda k: k == TERMS[r[1]], 10) for x in h)]
                if variant_of(c.e, st, r, TTY.get(r[1])) == 'None':
                    m += 1
                    ctx.oblige(not mine, '%s: identifier' % c.name, 'a reply carries an identifier nobody asked for')
                else:
                    n += 1
                    ok = len(mine) == 1 and [TERMS[x[1]][3] if x[0] == 's' and TERMS[x[1]][0] == 'fld' else None for x in mine[0]] == [0, 1]
                    ctx.oblige(ok, '%s: identifier' % c.name, 'a reply does not carry the identifier under its header exactly once')
    ctx.floor('replies with identifier', n, 4)
    ctx.floor('replies without identifier', m, 4)


def leaves(x, want, out, d=90):
    """which of the wanted terms occur below the value, in order"""
    if d == 0:
        return
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 's' and isinstance(x[1], int):
            if x[1] in want:
                out.append(x[1])
                return
            for y in TERMS[x[1]][1:]:
                leaves(y if isinstance(y, tuple) else ('s', y) if isinstance(y, int) and TERMS[x[1]][0] in ('fld', 'deref', 'cat', 'mut') and y < len(TERMS) and TERMS[x[1]].index(y) == 1 else None, want, out, d - 1)
            return
        for y in x:
            leaves(y, want, out, d - 1)


def tracing_task(ctx):
    P = blue.to_tasks_paths(ctx, K=1, name='blueprint::Action::to_core_task', extra={PUB: boundary, RID: pure_boundary})
    e = P.e
    n = 0
    for st in P.states:
        evs = [ev for ev in st.events() if ev.kind == 'call']
        ask = [ev for ev in evs if matches(ev.path, (PUB,))]
        rid = [ev for ev in evs if matches(ev.path, (RID,))]
        r = e.snap(st, st.result)
        if not ask and not rid:
            continue
        n += 1
        if not ctx.oblige(len(ask) == 1 and len(rid) >= 1, 'identifier header', 'the response header is not tied to the identifier of the request'):
            continue
        var = text(e, st, ask[0].args[1])
        out = []
        leaves(r, {var[1], rid[-1].ret[1]} | {x[1] for x in [strip(rid[-1].ret)]}, out)
        ctx.oblige(len(out) == 2 and out[0] == var[1], 'identifier header', 'the response header is not the pair of the configured name and the identifier')
        head = [x for x in aggs(r) if e.p.head(x[1]).endswith('HeadersType')]
        ctx.oblige(bool(head) and all(e.p.types[x[1]]['v'][x[2]][0] == 'HttpResponseHeaders' for x in head), 'identifier header', 'the identifier is not set on the response headers')
    ctx.floor('tracing actions', n, 1)


def aggs(v, d=12):
    if d and isinstance(v, tuple):
        if len(v) == 5 and v[0] == 'a' and isinstance(v[1], int):
            yield v
        for x in v:
            yield from aggs(x, d - 1)
