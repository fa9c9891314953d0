"""C13: each host call gets exactly the configured target and evaluated payload."""
from engine.acts import *
from engine.svc import check_services
from engine.wire import wires, names
from .c01 import run_all
from engine.base import pure_boundary

EXPLANATION = '''The value of every argument of every host call that leaves the filter is traced back, on each abstract path, to where it came from: service calls to the
configuration of the action's own service and to the evaluation of its own message, replies and header changes to the fields of their own evaluated result, reply reads to the size announced for them.'''
GETR = HOST + 'get_grpc_response'
POOL = 'descriptor_manager::DescriptorManager::get_pool'
TO_MSG, TO_CEL = 'converters::MessageConverter::cel_to_dynamic_message', 'converters::MessageConverter::dynamic_message_to_cel'
PAIRS = 'converters::cel_value_to_header_pairs'
SENDR = 'context::ReqRespCtx::send_http_reply'
TRACKER = 'context::ReqRespCtx::tracker'
GA, SM = 'context::ReqRespCtx::get_attribute_ref', 'context::ReqRespCtx::set_attribute_map'
HDR = 'headers::Headers::'
SVCX = {POOL: pure_boundary, 'context::ReqRespCtx::get_tracing_headers': boundary, 'context::ReqRespCtx::request_id': pure_boundary, TO_MSG: pure_boundary, TO_CEL: pure_boundary}
SPANS = 'take_pending_spans'
DECODE = ('decode',)


def check(ctx):
    ctx.rule('each service type makes its own client from the configured endpoint, gRPC service, method and timeout')
    ctx.rule('a service call passes those of the task\'s own client to the host, with the encoded conversion of the task\'s own evaluated message under the input type of that very method')
    ctx.rule('the reply is read with the size announced for it and decoded under the output type of that very method')
    ctx.rule('the client, message and expression of a task are those of the one configured action it was made from')
    ctx.rule('a reply passes the status, headers and body of its evaluated response, each from its own field, plus the tracker header if there is one')
    ctx.rule('header actions write the current headers of their configured target back to that target, changed only by setting the evaluated pairs in order')
    ctx.rule('the context wrappers pass what they are given to the host unchanged')
    roles = check_services(ctx)
    ctx.floor('service clients', len(roles), 2)
    service_calls(ctx, roles)
    exports(ctx, roles)
    wiring(ctx)
    replies(ctx)
    header_changes(ctx)
    header_store(ctx)
    header_writes(ctx)
    pairs(ctx)
    wrappers(ctx)


def value(e, st, v):
    return strip(eta(e.p, strip(e.snap(st, v))))


# -- service calls ---------------------------------------------------------------------------------

def chain(v, root):
    """(variant, index) steps from the value `root` to v, None when v is not a part of it"""
    x = strip(v)
    r = strip(root)
    out = []
    n = 0
    while n < 14:
        if x == r:
            return tuple(reversed(out))
        if x[0] != 's':
            return None
        k = TERMS[x[1]]
        if k[0] == 'fld':
            out.append((k[2], k[3]))
            x = ('s', k[1])
        elif k[0] == 'deref':
            x = ('s', k[1])
        elif k[0] == 'call' and k[1].endswith(('Clone::clone', 'to_owned', 'to_string', 'String::as_str')):
            x = strip(k[2][0])
        else:
            return None
        n += 1
    return None


def client_field(ctx, h):
    """(field of the task that holds its service client, client struct)"""
    p = ctx.p
    out = []
    for i, (n, t) in enumerate(p.types[p.adt(h)]['v'][0][2]):
        for c in ('services::dynamic::DynamicService', 'services::tracing::TracingService'):
            if t is not None and c in p.types[t]['s']:
                out.append((i, p.head(p.adt(c))))
    return out


def is_role(v, self_, cix, path):
    c = chain(v, self_)
    if c is None:
        return False
    ix = [i for _v, i in c]
    return ix[:1] == [cix] and ix[1:] == [i for _v, i in path]


def message_of(e, st, v):
    """the message value an encoded buffer holds"""
    v = strip(v)
    if v[0] != 's':
        return None
    k = TERMS[v[1]]
    if k[0] == 'mut' and '::encode' in k[1]:
        prev = strip(k[3])
        if not (prev[0] == 'v' and not prev[1]):
            return None
        evs = [ev for ev in st.events() if ev.kind == 'call' and ev.path == k[1] and len(ev.args) > 1]
        for ev in evs:
            if any(TERMS[t][0] == 'mut' and TERMS[t] == k for t in [v[1]]) and mut_of(e, ev, k):
                return strip(ev.args[0])
    if k[0] == 'call' and ('encode' in k[1]):
        return strip(k[2][0])
    return None


def mut_of(e, ev, k):
    """was this mutation made by that event?"""
    u = TERMS[ev.ret[1]] if ev.ret[0] == 's' else None
    if u is None or u[0] != 'call':
        return True
    return len(u) > 3 and (u[3] == k[4] or u[3] + 1 == k[4] or k[4] + 1 == u[3])


def conversion(v):
    """(value, type) a message was converted from"""
    v = strip(v)
    while v[0] == 's' and TERMS[v[1]][0] in ('fld', 'deref'):
        v = ('s', TERMS[v[1]][1])
    if v[0] == 's' and TERMS[v[1]][0] == 'call' and matches(TERMS[v[1]][1], (TO_MSG,)):
        return TERMS[v[1]][2][0], TERMS[v[1]][2][1]
    return None


def method_type(e, st, v, side, isrole):
    """is v the input/output type of the method of the client's own service?"""
    v = strip(v)
    while v[0] == 's' and TERMS[v[1]][0] in ('fld', 'deref'):
        v = ('s', TERMS[v[1]][1])
    k = TERMS[v[1]] if v[0] == 's' else None
    if k is None or k[0] != 'call' or not k[1].endswith('MethodDescriptor::' + side):
        return 'it is not the %s type of a method' % side
    m = strip(k[2][0])
    # the method: chosen among the methods of the service by its name
    mk = m
    while mk[0] == 's' and TERMS[mk[1]][0] in ('fld', 'deref'):
        mk = ('s', TERMS[mk[1]][1])
    if mk[0] != 's' or TERMS[mk[1]][0] != 'elem':
        return 'the method is not taken from the list of methods'
    named = False
    for t, f in st.facts.items():
        q = TERMS[t]
        if q[0] == 'eq' and f == ('=', 1):
            a, b = [x if isinstance(x, tuple) else ('s', x) for x in q[1:3]]
            for x, y in ((a, b), (b, a)):
                x = strip(x)
                if isrole(y, 'method') and x[0] == 's' and TERMS[x[1]][0] == 'call' and TERMS[x[1]][1].endswith('MethodDescriptor::name') and strip(TERMS[x[1]][2][0]) == mk:
                    named = True
    if not named:
        return 'the method is not the one configured by name'
    s = TERMS[TERMS[mk[1]][1]]
    if s[0] != 'call' or not s[1].endswith('ServiceDescriptor::methods'):
        return 'the methods are not those of a service'
    sv = strip(s[2][0])
    while sv[0] == 's' and TERMS[sv[1]][0] in ('fld', 'deref'):
        sv = ('s', TERMS[sv[1]][1])
    k = TERMS[sv[1]]
    if k[0] != 'call' or not k[1].endswith('get_service_by_name') or not isrole(k[2][1], 'service'):
        return 'the service is not looked up by the configured name'
    pv = strip(k[2][0])
    while pv[0] == 's' and TERMS[pv[1]][0] in ('fld', 'deref'):
        pv = ('s', TERMS[pv[1]][1])
    k = TERMS[pv[1]]
    if k[0] != 'call' or not matches(k[1], (POOL,)):
        return 'the service is not looked up in the pool of descriptors'
    if not (isrole(k[2][1], 'endpoint') and isrole(k[2][2], 'service')):
        return 'the pool is not the one of the client\'s endpoint and service'
    return None


def service_calls(ctx, roles):
    n = m = 0
    kinds = 0
    for c in core_tasks(ctx, extra=SVCX, effects=[GETR, GETG, DISPATCH, POOL]):
        e, p = c.e, c.p
        cf = client_field(ctx, c.h)
        calls_here = 0
        for st, o, evs in c.states():
            for ev in evs:
                if ev.kind == 'call' and matches(ev.path, (GETR,)):
                    ctx.oblige(False, '%s: early read' % c.name, 'a reply is read while the call is being made')
            ds = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (DISPATCH,))]
            if not ds:
                continue
            calls_here += 1
            if len(cf) != 1 or cf[0][1] not in roles:
                ctx.oblige(False, '%s: client' % c.name, '%s calls a service without a client of its own' % c.name)
                continue
            cix, rl = cf[0][0], roles[cf[0][1]]

            def isrole(v, role):
                return is_role(v, c.self_, cix, rl[role])
            ctx.oblige(len(ds) == 1, '%s: once' % c.name, 'more than one service call is made for one action')
            ev = ds[0]
            n += 1
            check_target(ctx, c.name, ev, isrole)
            msg = message_of(e, st, ev.args[5])
            conv = conversion(msg) if msg is not None else None
            if not ctx.oblige(conv is not None, '%s: message' % c.name, 'the bytes sent to the service are not one encoded conversion of the evaluated message'):
                continue
            xs = [x for x in evs if x.kind == 'call' and matches(x.path, (EXPR,)) and verdict(e, st, x) == 'available']
            ctx.oblige(len(xs) >= 1 and any(value(e, st, available(e, x)) == value(e, st, conv[0]) for x in xs[-1:]),
                       '%s: evaluated' % c.name, 'the message sent is not the evaluated message of the action')
            why = method_type(e, st, conv[1], 'input', isrole)
            ctx.oblige(why is None, '%s: input type' % c.name, 'the message is built for the wrong type: %s' % why)
            if o == 'Deferred':
                for s2 in run_task(e, st, ofield(e, st, 'Deferred', 'pending'), c.ctxv):
                    m += reply_read(ctx, c, s2, isrole)
        kinds += 1 if calls_here else 0
    ctx.floor('service calls', n, 2)
    ctx.floor('reply reads', m, 3)
    ctx.floor('task kinds that call services', kinds, 1)


def check_target(ctx, name, ev, isrole):
    a = ev.args
    for i, role in ((1, 'endpoint'), (2, 'service'), (3, 'method'), (6, 'timeout')):
        ctx.oblige(isrole(a[i], role), '%s: %s' % (name, role), 'the %s passed to the host is not the one configured for the action\'s service' % role)


def reply_read(ctx, c, st, isrole):
    e, p = c.e, c.p
    evs = [ev for ev in st.events() if ev.kind == 'call']
    gs = [ev for ev in evs if matches(ev.path, (GETG,))]
    rs = [ev for ev in evs if matches(ev.path, (GETR,))]
    if not rs:
        return 0
    ctx.oblige(len(rs) == 1, '%s: reply read once' % c.name, 'the reply is read %d times' % len(rs))
    ok = len(gs) == 1
    if ok:
        rty = TTY.get(gs[0].ret[1])
        x = strip(rs[0].args[1])
        while x[0] == 's' and TERMS[x[1]][0] == 'cast':
            y = TERMS[x[1]][3]
            x = strip(y if isinstance(y, tuple) else ('s', y))
        pair = getf(gs[0].ret, 0, 0)
        ok = x == strip(getf(pair, 0, size_ix(ctx)))
    ctx.oblige(ok, '%s: reply size' % c.name, 'the reply is read with a size other than the one announced for it')
    body = ok_part(rs[0].ret)
    dec = [ev for ev in evs if ev.path.split('::')[-1].startswith('decode') and 'essage' in ev.path]
    for ev in dec:
        ctx.oblige(len(dec) == 1 and value(e, st, ev.args[1]) == strip(body), '%s: reply bytes' % c.name, 'what is decoded is not the reply that was read')
        why = method_type(e, st, ev.args[0], 'output', isrole)
        ctx.oblige(why is None, '%s: output type' % c.name, 'the reply is decoded as the wrong type: %s' % why)
    for ev in [ev for ev in evs if matches(ev.path, (TO_CEL,))]:
        ctx.oblige(len(dec) == 1 and strip(ev.args[0]) == strip(ok_part(dec[0].ret)), '%s: reply value' % c.name, 'the value made of the reply is not its decoded message')
    return 1


def size_ix(ctx):
    """position of the size in the announced (status, size) pair: where set_grpc_response_data puts its size argument"""
    if not hasattr(ctx, '_size_ix'):
        p = ctx.p
        fi = p.find1(GETG)
        r = p.types[p.fns[fi]['b']['ls'][0][0]]
        t = p.types[[v for v in r['v'] if v[0] == 'Ok'][0][2][0][1]]
        ix = [i for i, a in enumerate(t['ts']) if p.types[a]['s'] == 'usize']
        if len(ix) != 1:
            raise AnalysisError('announced reply data of unknown shape')
        ctx._size_ix = ix[0]
    return ctx._size_ix


def ok_part(v):
    return getf(v, 0, 0)


# -- trace export ----------------------------------------------------------------------------------

def exports(ctx, roles):
    p = ctx.p
    n = 0
    for h, fi in p.trait_impls('pipeline::tasks::TeardownAction', 'execute'):
        e = make_cone(p, ctx.g, [DISPATCH, SPANS], dict(SVCX, **{SPANS: boundary, 'tracing::get_span_processor': pure_boundary}), keep=('services::tracing::*',))
        e.quiet_drops = ()
        sts = e.run(fi)
        ctx.engine_stats(e)
        cf = client_field(ctx, h)
        for st in sts:
            evs = [ev for ev in st.events() if ev.kind == 'call']
            ds = [ev for ev in evs if matches(ev.path, (DISPATCH,))]
            if not ds:
                continue
            n += 1
            name = short_head(h)
            if not ctx.oblige(len(ds) == 1 and len(cf) == 1 and cf[0][1] in roles, '%s: client' % name, 'trace export without a client of its own'):
                continue
            self_ = e.params(fi)[0]
            check_target(ctx, name, ds[0], lambda v, role: is_role(v, self_, cf[0][0], roles[cf[0][1]][role]))
            msg = message_of(e, st, ds[0].args[5])
            sp = [ev for ev in evs if matches(ev.path, (SPANS,))]
            seqs = {t for t in (strip(ev.ret)[1] for ev in sp)}
            took = len(sp) == 1 and msg is not None
            if took:
                s = strip(sp[0].ret)[1]
                k = walked(e, st, s)
                got = {i for i in range(8) if mentions(msg, lambda q: q == TERMS[T('elem', s, i)], 40)} if k is not None else set()
                took = k is not None and got == set(range(k))
            ctx.oblige(took, '%s: all spans' % name, 'the spans exported are not all the spans taken')
    ctx.floor('trace exports', n, 1)


# -- wiring ----------------------------------------------------------------------------------------

USES = [('compiled', 'operation.Grpc.message_builder', EXPR, 'message'), ('compiled', 'operation.Deny.deny_with', EXPR, 'response'), ('compiled', 'operation.Headers.headers', EXPR, 'headers'),
        ('compiled', 'operation.Store.value', EXPR, 'value'), ('lookup', 'operation.Grpc.service', None, 'service')]


def wiring(ctx):
    p = ctx.p
    W = wires(ctx)
    for how, cfg, _u, what in USES + [('compiled', 'predicate', TEST, 'predicate')]:
        parts = W.part(how, cfg)
        ctx.oblige(len(parts) == 1, 'compiled: %s' % cfg, 'the %s of a compiled action is not made from %s' % (what, cfg))
        for k in parts:
            ctx.oblige(W.comp[k] == {(how, cfg)}, 'compiled only from: %s' % cfg, 'the %s of a compiled action is sometimes made from something else: %s' % (what, sorted(map(str, W.comp[k]))))
    for st, a, roots in W.mixed:
        ctx.oblige(False, 'compiled: mixed', 'a compiled action mixes parts of different configured actions')
    ctx.floor('compiled actions', len(W.states), 20)
    fields, mixed, per = W.task_fields()
    for st, a, roots in mixed:
        ctx.oblige(False, 'tasks: mixed %s' % short_head(p.head(a[1])), '%s mixes parts of different actions' % short_head(p.head(a[1])))
    ctx.floor('tasks', len(per), 20)
    used = {}
    for c in core_tasks(ctx):
        e = c.e
        for st, o, evs in c.states():
            for ev in evs:
                if ev.kind == 'call' and matches(ev.path, (EXPR, TEST)):
                    f = chain(ev.args[0], c.self_)
                    if f:
                        used.setdefault((c.h, f[0][1]), set()).add(EXPR if matches(ev.path, (EXPR,)) else TEST)
        cf = client_field(ctx, c.h)
        for i, _c in cf:
            used.setdefault((c.h, i), set()).add(None)
    ok = {}
    for (h, i), us in used.items():
        src = fields.get((h, i))
        if src is None:
            continue        # not made from a configured action (the token usage task)
        cfgs = {x for k in src for x in W.comp.get(k, {None})}
        for u in us:
            want = [(how, cfg) for how, cfg, uu, _w in USES + [('compiled', 'predicate', TEST, 'predicate')] if uu == u]
            good = len(cfgs) == 1 and list(cfgs)[0] in want
            ctx.oblige(good, '%s: %s' % (short_head(h), 'evaluates' if u == EXPR else 'tests' if u == TEST else 'calls'), '%s %s something else than what its action configures: %s' % (
                short_head(h), 'evaluates' if u == EXPR else 'tests' if u == TEST else 'calls', sorted(map(str, cfgs))))
            if good:
                ok.setdefault(list(cfgs)[0], set()).add(h)
    for how, cfg, _u, what in USES:
        ctx.oblige(len(ok.get((how, cfg), ())) == 1, 'used: %s' % cfg, 'the configured %s is not what a task works with' % cfg)
    target_choice(ctx, W, per)
    service_table(ctx)


def target_choice(ctx, W, per):
    """request headers stay request headers from configuration to task"""
    p = ctx.p
    ty = p.adt('configuration::HeadersTarget')
    ht = p.adt('headers::HeadersType')
    WORD = {'HttpRequestHeaders': 'Request', 'HttpResponseHeaders': 'Response'}
    n = 0
    for st, a, parts in W.states:
        for (vn, i), (v, s) in parts.items():
            if vn == 'Headers' and s is not None and s[0] == 'variant':
                root = [x[1][1] for k, x in parts.items() if k != (vn, i) and x[1] is not None and x[1][1] is not None]
                facts = enum_facts(W.e, st, ty, root[0] if root else None)
                n += 1
                ctx.oblige(len(facts) == 1 and WORD.get(s[2]) in facts, 'compiled: target', 'a header action configured for %s headers targets %s' % (sorted(facts), s[2]))
    ctx.floor('header targets', n, 2)
    m = 0
    e = W.F.B.e
    for st, a, got in per:
        if not any(k[1][0] == 'Headers' for k in got.values()):
            continue
        for i, v in a[4]:
            if v[0] == 'a' and v[1] is not None and p.head(v[1]) == p.head(ht):
                facts = enum_facts(e, st, ht, next(k[0] for k in got.values()))
                m += 1
                ctx.oblige(facts == {p.types[ht]['v'][v[2]][0]}, 'task: target', 'a header task is made for other headers than its action targets')
            elif i in got and got[i][1][0] == 'Headers' and any(x == ('variant', '') for x in W.comp.get(got[i][1], ())):
                m += 1
    ctx.floor('header tasks', m, 2)


def enum_facts(e, st, ty, under=None):
    """variants some value of the enum (a part of the term `under`) was found to have on this path"""
    out = set()
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'disc' and f[0] == '=':
            if under is not None and under not in bases(k[1]):
                continue
            bt = TTY.get(k[1])
            while bt is not None and e.p.types[bt]['k'] == 'ref':
                bt = e.p.types[bt]['t']
            if bt is not None and e.p.types[bt]['k'] == 'adt' and e.p.head(bt) == e.p.head(ty):
                for nm, d, _f in e.p.types[ty]['v']:
                    if int(d) == f[1]:
                        out.add(nm)
    return out


FC = 'services::ServiceInstance::from_config'


def service_table(ctx):
    """the factory files the client of each configured service under that service's name"""
    p = ctx.p
    fi = p.find1('factory::PipelineFactory::try_from')
    COMP = 'blueprint::Blueprint::compile'
    e = make_cone(p, ctx.g, [FC, COMP], {FC: boundary, COMP: boundary})
    e.K = 1
    sts = e.run(fi)
    ctx.engine_stats(e)
    n = 0
    for st in sts:
        evs = [ev for ev in st.events() if ev.kind == 'call']
        made = [ev for ev in evs if matches(ev.path, (FC,))]
        for ev in made:
            k = strip(ev.args[0])
            ctx.oblige(k[0] == 's' and TERMS[k[1]][0] in ('val', 'elem', 'mapget', 'fld'), 'table: config', 'a client is not made from a configured service')
        for ev in evs:
            if not matches(ev.path, (COMP,)):
                continue
            m = strip(e.snap(st, ev.args[1]))
            if not ctx.oblige(m[0] == 'm', 'table: services', 'actions are compiled against something else than the table of services'):
                continue
            ent = [s for s in m[1] if s[0] == 'kv']
            rest = [s for s in m[1] if s[0] != 'kv']
            ctx.oblige(not rest and len(ent) == len(made), 'table: complete', 'the table of services does not hold exactly the configured services')
            for s in ent:
                n += 1
                key, val = strip(s[1]), strip(s[2])
                hit = [x for x in made if strip(ok_part(x.ret)) == val]
                ok = len(hit) == 1
                if ok:
                    src = strip(hit[0].args[0])
                    a, b = pair_no(key), pair_no(src)
                    ok = a is not None and a == b
                ctx.oblige(ok, 'table: name', 'a service name is bound to the client of another service')
    ctx.floor('service table entries', n, 1)


def pair_no(v):
    """(map, entry) a key or value of it was taken from"""
    t = v[1] if v[0] == 's' else None
    while t is not None:
        k = TERMS[t]
        if k[0] in ('key', 'val', 'elem'):
            return k[1], k[2]
        if k[0] in ('fld', 'deref'):
            t = k[1]
            continue
        return None
    return None


# -- replies ---------------------------------------------------------------------------------------

FV = 'field_value'


def value_fields(v, d=40):
    """names of the response fields a value is made from: [(struct value, name)]"""
    out = []

    def visit(x, d):
        if not isinstance(x, tuple) or d == 0:
            return
        if len(x) == 2 and x[0] == 's' and isinstance(x[1], int):
            k = TERMS[x[1]]
            if k[0] == 'call' and k[1].split('::')[-1] == FV:
                nm = strip(k[2][1])
                out.append((k[2][0], nm[1] if nm[0] == 'c' else None))
                return
            for y in k[1:]:
                if isinstance(y, tuple):
                    visit(y, d - 1)
                elif isinstance(y, int) and not isinstance(y, bool) and y < len(TERMS) and k[0] in ('fld', 'deref', 'disc', 'not', 'elem', 'idx', 'len', 'Add', 'Sub', 'eq', 'lt', 'cat') and y is k[1]:
                    visit(('s', y), d - 1)
                elif k[0] == 'cast' and y is k[3] and isinstance(y, int):
                    visit(('s', y), d - 1)
            return
        for y in x:
            visit(y, d - 1)
    visit(v, d)
    return out


ARITH = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'AddWithOverflow', 'SubWithOverflow', 'not', 'cat', 'format')


def given(e, st, name, subject):
    """on this path, is the field known to be missing or of another type?"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] != 'disc' or f not in (('=', 0), ('=', 1)):
            continue
        fs = value_fields(('s', k[1]))
        if [n for _s, n in fs] != [name]:
            continue
        b = k[1]
        vs = None
        ty = TTY.get(b)
        if ty is not None and e.p.types[ty]['k'] == 'adt':
            vs = [v[0] for v in e.p.types[ty]['v'] if int(v[1]) == f[1]]
        if vs in (['None'], ['Err']):
            return True
        if vs is None and f == ('=', 0):
            return True
    return False


def too_big(e, st):
    """the path found that the status does not fit"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'lt' and f[0] == '=' and [nm for _s, nm in value_fields(('s', t))] == ['status']:
            if f[1] == 1 and k[1][0] == 'c' and isinstance(k[1][1], int) and k[1][1] >= (1 << 32) - 1:
                return True
            if f[1] == 0 and k[2][0] == 'c' and isinstance(k[2][1], int) and k[2][1] >= 1 << 32:
                return True
    return False


def replies(ctx):
    p = ctx.p
    n = 0
    X = {PAIRS: pure_boundary, TRACKER: pure_boundary, SENDR: boundary}
    own = reaches(ctx, SENDR, REPLY)
    for c in core_tasks(ctx, extra=X, effects=[SENDR, PAIRS], only=own):
        e = c.e
        for st, o, evs in c.states():
            cs = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (SENDR, REPLY))]
            if not cs:
                continue
            n += 1
            if not ctx.oblige(len(cs) == 1 and matches(cs[0].path, (SENDR,)), '%s: once' % c.name, 'the reply is sent more than once'):
                continue
            args = [e.snap(st, a) for a in cs[0].args[1:]]
            xs = [x for x in evs if x.kind == 'call' and matches(x.path, (EXPR,)) and verdict(e, st, x) == 'available']
            if not ctx.oblige(len(xs) == 1, '%s: evaluated' % c.name, 'a reply is sent without an evaluated response'):
                continue
            val = xs[0].ret
            for a, name in zip(args, ('status', 'headers', 'body')):
                fs = value_fields(a)
                ctx.oblige(all(nm == name for _s, nm in fs), '%s: %s source' % (c.name, name), 'the %s of the reply is taken from %s of the response' % (name, sorted({str(nm) for _s, nm in fs})))
                ctx.oblige(all(mentions(s, lambda q: q == TERMS[val[1]], 20) for s, _n in fs), '%s: %s response' % (c.name, name), 'the %s of the reply is not taken from the evaluated response' % name)
            status, headers, body = args
            # status
            fs = value_fields(status)
            if not fs:
                ctx.oblige(status == ('c', 500) and (given(e, st, 'status', val) or too_big(e, st)), '%s: default status' % c.name, 'the status of the reply is %s although the response may carry one' % e.show(status, 3))
            else:
                ctx.oblige(not mentions(status, lambda q: q[0] in ARITH, 30), '%s: status as is' % c.name, 'the status of the reply is computed from the status of the response')
            # body
            b = body
            while b[0] == '&':
                b = b[1]
            if b[0] == 'a' and p.types[b[1]]['v'][b[2]][0] == 'None':
                empty = any(f[0] == '=' and f[1] in (0, 1) and TERMS[t][0] in ('eq', 'call') and [nm for _s, nm in value_fields(('s', t))] == ['body'] for t, f in st.facts.items() if TERMS[t][0] != 'disc')
                empty = empty or any(TERMS[t][0] in ('eq', 'lt', 'len', 'more') and mentions(('s', t), lambda q: q[0] == 'call' and q[1].split('::')[-1] == FV, 30) for t in st.facts)
                ctx.oblige(given(e, st, 'body', val) or empty, '%s: no body' % c.name, 'the reply has no body although the response may carry one')
            else:
                ctx.oblige([nm for _s, nm in value_fields(b)] == ['body'] and not mentions(b, lambda q: q[0] in ARITH, 30), '%s: body as is' % c.name, 'the body of the reply is not the body of the response')
            reply_headers(ctx, c, e, st, headers, val)
    ctx.floor('replies', n, 8)


def reply_headers(ctx, c, e, st, headers, val):
    h = headers
    while h[0] == '&':
        h = h[1]
    if not ctx.oblige(h[0] == 'v', '%s: headers' % c.name, 'the headers of the reply are not a list built for it'):
        return
    want = []
    seqs = [s for s in walked_seqs(e, st) if TERMS[s][0] == 'call' and matches(TERMS[s][1], (PAIRS,)) and [n for _x, n in value_fields(('s', s))] == ['headers']]
    if seqs:
        s = seqs[0]
        want = [(('s', T('elem', s, i)), 'pair') for i in range(walked(e, st, s))]
    else:
        ctx.oblige(given(e, st, 'headers', val), '%s: headers dropped' % c.name, 'the headers of the response are not used')
    tr = [t for t, f in st.facts.items() if TERMS[t][0] == 'disc' and TERMS[TERMS[t][1]][0] == 'call' and matches(TERMS[TERMS[t][1]][1], (TRACKER,))]
    ctx.oblige(len(tr) == 1, '%s: tracker asked' % c.name, 'the tracker header is not looked up (once) for the reply')
    if tr and e.known(st, tr[0]) == 1:
        want.append((('s', T('fld', TERMS[tr[0]][1], 1, 0)), 'tracker'))
    got = list(h[1])
    left = []
    for seg in got:
        if seg[0] != 'e':
            ctx.oblige(False, '%s: headers' % c.name, 'the headers of the reply contain others than those of the response')
            return
        left.append(value(e, st, seg[1]))
    okay = len(left) == len(want)
    for w, what in want:
        hit = [x for x in left if header_is(x, w)]
        okay = okay and len(hit) == 1
    order = [x for x in left if any(header_is(x, w) for w, k in want if k == 'pair')]
    okay = okay and all(header_is(x, w) for x, (w, k) in zip(order, [q for q in want if q[1] == 'pair']))
    ctx.oblige(okay, '%s: header list' % c.name, 'the headers of the reply are not exactly those of the response, in order, plus the tracker')


def header_is(x, w):
    """x is the (name, value) pair w, whole or taken apart in order"""
    if x == w:
        return True
    if x[0] == 'a' and len(x[4]) == 2:
        parts = [strip(v) for _i, v in sorted(x[4])]
        for j, v in enumerate(parts):
            if v[0] != 's':
                return False
            n = 0
            while v[0] == 's' and TERMS[v[1]][0] in ('deref', 'call') and n < 4:
                k = TERMS[v[1]]
                v = strip(('s', k[1]) if k[0] == 'deref' else k[2][0])
                n += 1
            if v[0] != 's' or TERMS[v[1]][0] != 'fld' or TERMS[v[1]][3] != j or strip(('s', TERMS[v[1]][1])) != w:
                return False
        return True
    return False


# -- header changes --------------------------------------------------------------------------------

def header_changes(ctx):
    p = ctx.p
    X = {PAIRS: pure_boundary, GA: boundary, SM: boundary}
    for m in ('set', 'append', 'extend', 'remove'):
        X[HDR + m] = boundary
    ht = p.adt('headers::HeadersType')
    WORD = {'HttpRequestHeaders': 'request', 'HttpResponseHeaders': 'response'}
    n = 0
    seen = set()
    for c in core_tasks(ctx, extra=X, K=2, effects=[GA, SM, PAIRS] + [HDR + m for m in ("set", "append", "extend", "remove")], only=reaches(ctx, SM)):
        e = c.e
        for st, o, evs in c.states():
            ws = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (SM,))]
            if not ws:
                continue
            n += 1
            gs = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (GA,))]
            if not ctx.oblige(len(ws) == 1 and len(gs) == 1, '%s: once' % c.name, 'headers are read %d times and written %d times by one action' % (len(gs), len(ws))):
                continue
            tgt = enum_facts(e, st, ht)
            rp, wp = path_text(e, st, gs[0].args[1]), path_text(e, st, ws[0].args[1])
            want = [[WORD[t], 'headers'] for t in tgt]
            ctx.oblige(len(want) == 1 and rp == want[0] and wp == want[0], '%s: target' % c.name, 'an action on %s reads %s and writes %s' % (sorted(tgt), rp, wp))
            seen |= tgt
            xs = [x for x in evs if x.kind == 'call' and matches(x.path, (EXPR,)) and verdict(e, st, x) == 'available']
            if not ctx.oblige(len(xs) == 1, '%s: evaluated' % c.name, 'headers are written without evaluating them'):
                continue
            s = [t for t in walked_seqs(e, st) if TERMS[t][0] == 'call' and matches(TERMS[t][1], (PAIRS,))]
            ok = len(s) == 1 and mentions(TERMS[s[0]][2], lambda q: q == TERMS[xs[0].ret[1]], 20)
            if not ctx.oblige(ok, '%s: pairs' % c.name, 'the headers to set are not those of the evaluated expression'):
                continue
            k = walked(e, st, s[0])
            cur = strip(ws[0].args[2])
            ops = []
            while cur[0] == 's' and TERMS[cur[1]][0] == 'mut':
                m = TERMS[cur[1]]
                hit = [ev for ev in evs if ev.kind == 'call' and ev.path == m[1] and mut_of(e, ev, m) and strip(e.snap(st, ev.args[0]) if False else ev.args[0]) == strip(m[3])]
                ops.append((m[1].split('::')[-1], hit[0] if hit else None))
                cur = strip(m[3])
            ops.reverse()
            base_ok = cur[0] == 's' and mentions(cur, lambda q: q == TERMS[gs[0].ret[1]], 12) and all(TERMS[t][0] in ('fld', 'deref', 'call') for t in [cur[1]])
            ctx.oblige(base_ok, '%s: current' % c.name, 'the headers written back are not the current headers of the target')
            sets = []
            i = 0
            bad = False
            while i < len(ops):
                nm, ev = ops[i]
                if ev is None:
                    bad = True
                    break
                if nm == 'set':
                    sets.append((ev.args[1], ev.args[2]))
                    i += 1
                elif nm == 'remove' and i + 1 < len(ops) and ops[i + 1][0] == 'append' and ops[i + 1][1] is not None and same_key(ev.args[1], ops[i + 1][1].args[1]):
                    sets.append((ops[i + 1][1].args[1], ops[i + 1][1].args[2]))
                    i += 2
                else:
                    bad = True
                    break
            want = [('s', T('elem', s[0], i)) for i in range(k)]
            ok = not bad and len(sets) == k and all(part_of(a, w, 0) and part_of(b, w, 1) for (a, b), w in zip(sets, want))
            ctx.oblige(ok, '%s: changes' % c.name, 'the headers are not changed by exactly setting each evaluated pair in order (%s)' % ', '.join(nm for nm, _e in ops))
            ctx.oblige(k > 0, '%s: nothing to set' % c.name, 'headers are written although nothing is to be set')
    ctx.floor('header writes', n, 4)
    ctx.floor('header targets written', len(seen), 2)


def same_key(a, b):
    return whole_text(a) == whole_text(b)


def whole_text(v):
    v = strip(v)
    n = 0
    while v[0] == 's' and TERMS[v[1]][0] in ('call', 'deref') and n < 5:
        k = TERMS[v[1]]
        if k[0] == 'call' and not k[1].endswith(('Clone::clone', 'to_owned', 'to_string', 'as_str', 'Deref::deref')):
            break
        v = strip(('s', k[1]) if k[0] == 'deref' else k[2][0])
        n += 1
    return v


def part_of(v, w, j):
    v = whole_text(v)
    return v[0] == 's' and TERMS[v[1]][0] == 'fld' and TERMS[v[1]][3] == j and whole_text(('s', TERMS[v[1]][1])) == w


def path_text(e, st, v):
    v = strip(e.snap(st, v))
    while v[0] == 'a' and len(v[4]) == 1:
        v = strip(v[4][0][1])
    if v[0] != 'v':
        return None
    out = []
    for s in v[1]:
        x = strip(s[1]) if s[0] == 'e' else (None,)
        out.append(x[1] if x[0] == 'c' else '?')
    return out


def header_store(ctx):
    """what the header list operations do"""
    p = ctx.p
    for m in ('set', 'remove', 'append', 'extend'):
        fs = [i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], (HDR + m,))]
        ctx.floor('Headers::' + m, len(fs), 1 if m in ('set', 'append') else 0)
        for fi in fs:
            e = base.make(p)
            e.K = 2 if ctx.tier != 'thorough' else 3
            ps = e.params(fi)
            n = 0
            for st in e.run(fi):
                got = strip(e.load(st, *e.deref_loc(st, ps[0])))
                got = e.snap(st, got)
                while got[0] == 'a' and len(got[4]) == 1:
                    got = strip(got[4][0][1])
                if got[0] != 'v':
                    if m in ('append', 'extend') and got[0] == 's':
                        pass
                    ctx.oblige(False, 'Headers::%s: shape' % m, 'the header list is not followed')
                    continue
                n += 1
                header_op(ctx, e, st, m, ps, got)
            ctx.engine_stats(e)
            ctx.floor('Headers::%s paths' % m, n, 1)


def header_writes(ctx):
    """a list of headers handed over to be written reaches the host pair by pair"""
    p = ctx.p
    host = HOST + 'set_attribute_map'
    fi = p.find1(SM)
    e = make_cone(p, ctx.g, [host], {})
    e.K = 2 if ctx.tier != 'thorough' else 4
    ps = e.params(fi)
    ht = p.adt('data::headers::Headers')
    vs = [v for v in ps if v[0] == 's' and TTY.get(v[1]) == ht]
    ctx.floor('header lists to write', len(vs), 1)
    orig = sym('fld', vs[0][1], 0, 0)[1]
    n = set()
    for st in e.run(fi):
        for ev in st.events():
            if ev.kind != 'call' or not matches(ev.path, (host,)):
                continue
            k = walked(e, st, orig)
            got = strip(e.snap(st, ev.args[-1]))
            if not ctx.oblige(k is not None and got[0] == 'v', 'headers written: all', 'not every header of the list is written'):
                continue
            n.add(k)
            items = [strip(x[1]) if x[0] == 'e' else None for x in got[1]]
            ok = len(items) == k
            for i, x in enumerate(items[:k]):
                el = ('s', T('elem', orig, i))
                f = sorted(x[4]) if x is not None and x[0] == 'a' else []
                ok = ok and len(f) == 2 and all(part_of(v, el, j) for j, v in f)
            ctx.oblige(ok, 'headers written: each', 'writing back %d headers passes %s to the host' % (k, e.show(got, 6)[:300]))
    ctx.engine_stats(e)
    ctx.floor('lengths of header lists written', len(n), 3)


def header_op(ctx, e, st, m, ps, got):
    orig = sym_list(e, ps[0])
    items = []
    rest = None
    for s in got[1]:
        if s[0] == 'e':
            items.append(value(e, st, s[1]))
        else:
            items.append(s)
    if m in ('set', 'remove'):
        k = walked(e, st, orig)
        if not ctx.oblige(k is not None, 'Headers::%s: all' % m, 'not every header is looked at'):
            return
        want = []
        for i in range(k):
            el = ('s', T('elem', orig, i))
            same = None
            for t, f in st.facts.items():
                q = TERMS[t]
                if q[0] == 'eq' and f[0] == '=':
                    a, b = [x if isinstance(x, tuple) else ('s', x) for x in q[1:3]]
                    for x, y in ((a, b), (b, a)):
                        if part_of(x, el, 0) and whole_text(y) == whole_text(ps[1]):
                            same = f[1]
            if not ctx.oblige(same is not None, 'Headers::%s: compared' % m, 'a header is kept or dropped without comparing its name with the given one'):
                return
            if same == 0:
                want.append(el)
        tail = items[len(want):]
        ok = items[:len(want)] == want
        if m == 'set':
            ok = ok and len(tail) == 1 and pair_is(tail[0], ps[1], ps[2])
        else:
            ok = ok and not tail
        ctx.oblige(ok, 'Headers::%s' % m, 'the headers after %s are not those of other names followed by what was set' % m)
    elif m == 'append':
        ok = bool(items) and pair_is(items[-1], ps[1], ps[2]) and all(not isinstance(x, tuple) or x[0] != 'a' for x in items[:-1])
        ctx.oblige(ok, 'Headers::append', 'appending does not put exactly the given pair at the end')


def sym_list(e, self_):
    ty = e.p.adt('data::headers::Headers')
    return sym('fld', T('deref', strip(self_)[1]), 0, 0)[1]


def pair_is(x, k, v):
    if not isinstance(x, tuple) or x[0] != 'a' or len(x[4]) != 2:
        return False
    a, b = [whole_text(y) for _i, y in sorted(x[4])]
    return a == whole_text(k) and b == whole_text(v)


def pairs(ctx):
    """an evaluated list becomes name/value pairs without mixing up names, values or elements"""
    p = ctx.p
    fi = p.find1(PAIRS)
    e = base.make(p)
    e.K = 2
    n = 0
    for st in e.run(fi):
        res = strip(e.snap(st, st.result))
        if not ctx.oblige(res[0] == 'v' and all(s[0] == 'e' for s in res[1]), 'pairs: list', 'the header pairs are not a list built from the value'):
            continue
        seqs = [s for s in walked_seqs(e, st) if not any(TERMS[b][0] == 'elem' for b in bases(s))]
        items = [strip(s[1]) for s in res[1]]
        if not seqs:
            ctx.oblige(not items, 'pairs: from nothing', 'header pairs appear without a list element')
            continue
        s = seqs[0]
        k = walked(e, st, s)
        owners = []
        for it in items:
            n += 1
            ok = it[0] == 'a' and len(it[4]) == 2
            if ok:
                a, b = [v for _i, v in sorted(it[4])]
                ea, eb = {x for x in elems_of(a, s)}, {x for x in elems_of(b, s)}
                ok = len(ea) == 1 and ea == eb
                fa, fb = value_fields(a), value_fields(b)
                if fa or fb:
                    ok = ok and [x for _q, x in fa][:1] == ['key'] and [x for _q, x in fb][:1] == ['value'] and fa[0][0] == fb[0][0]
                else:
                    ok = ok and position(a, s) == 0 and position(b, s) == 1
                if ok:
                    owners.append(ea.pop())
            ctx.oblige(ok, 'pairs: pair', 'a header pair is not the name and the value of one list element')
        ctx.oblige(owners == sorted(set(owners)), 'pairs: order', 'list elements are repeated or out of order')
        for i in range(k):
            if i not in owners:
                ctx.oblige(refused(e, st, s, i), 'pairs: dropped', 'a well formed list element does not become a header pair')
    ctx.engine_stats(e)
    ctx.floor('header pairs', n, 2)


def bases(t):
    out = []
    while True:
        out.append(t)
        k = TERMS[t]
        if k[0] in ('fld', 'deref', 'elem') and isinstance(k[1], int):
            t = k[1]
        else:
            return out


def elems_of(v, s):
    return [i for i in range(8) if TIX.get(('elem', s, i)) is not None and mentions(v, lambda q, i=i: q == ('elem', s, i), 30)]


def position(v, s):
    """index of the part of a list element"""
    got = set()

    def pred(q):
        if q[0] == 'call' and q[1].endswith('index') and len(q[2]) > 1 and q[2][1][0] == 'c':
            got.add(q[2][1][1])
        if q[0] in ('elem', 'idx') and q[1] != s and isinstance(q[2], int):
            got.add(q[2])
        return False
    mentions(v, pred, 30)
    return got.pop() if len(got) == 1 else None


def refused(e, st, s, i):
    """did the path establish that element i is not a pair?"""
    el = ('elem', s, i)
    for t, f in st.facts.items():
        k = TERMS[t]
        if not term_mentions(t, lambda q: q == el, 30):
            continue
        if k[0] == 'disc':
            ty = TTY.get(k[1])
            while ty is not None and e.p.types[ty]['k'] == 'ref':
                ty = e.p.types[ty]['t']
            if ty is None:
                b = TERMS[k[1]]
                b = TERMS[b[1]] if b[0] == 'deref' else b
                ty = e.p.types[e.p.fns[e.p.find1(PAIRS)]['b']['ls'][1][0]]['t'] if b[0] == 'elem' or b[0] == 'call' and b[1].endswith('index') else None
            vs = [v[0] for v in e.p.types[ty]['v'] if int(v[1]) == f[1]] if ty is not None and e.p.types[ty]['k'] == 'adt' and f[0] == '=' else None
            item = TERMS[k[1]] == el or TERMS[k[1]] == ('deref', TIX[el])
            if vs == ['None'] or f[0] == '!' or (vs is not None and vs not in ((['List'], ['Struct']) if item else (['Some'], ['String']))):
                return True
        elif k[0] in ('eq', 'len', 'lt') and (k[0] == 'len' or mentions(k[1:], lambda q: q[0] in ('len',) or q[0] == 'call' and q[1].endswith('len'), 6) or True):
            q = mentions(('s', t), lambda q: q[0] == 'len' or q[0] == 'call' and q[1].endswith('::len'), 8)
            if q and f == ('=', 0):
                return True
    return False


# -- wrappers --------------------------------------------------------------------------------------

WRAP = [('context::ReqRespCtx::dispatch_grpc_call', DISPATCH, {0: 1, 1: 2, 2: 3, 3: 5, 4: 6}),
        (SENDR, REPLY, {0: 1, 1: 2, 2: 3}),
        ('context::ReqRespCtx::get_grpc_response', GETR, {0: 1}),
        ('context::ReqRespCtx::get_http_request_body', HOST + 'get_http_request_body', {0: 1, 1: 2}),
        ('context::ReqRespCtx::get_http_response_body', HOST + 'get_http_response_body', {0: 1, 1: 2})]


def wrappers(ctx):
    p = ctx.p
    n = 0
    for name, host, argmap in WRAP:
        for fi in [i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], (name,))]:
            e = make_cone(p, ctx.g, [host], {k: v for k, v in SVCX.items() if k not in (POOL,)})
            ps = e.params(fi)
            sts = e.run(fi)
            ctx.engine_stats(e)
            short = name.split('::')[-1]
            for st in sts:
                cs = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (host,))]
                ctx.oblige(len(cs) <= 1, '%s: once' % short, 'the host is called more than once')
                for ev in cs:
                    n += 1
                    for i, j in argmap.items():
                        ctx.oblige(i + 1 < len(ps) and whole_text(e.snap(st, ev.args[j])) == whole_text(e.snap(st, ps[i + 1])), '%s: argument %d' % (short, j), '%s does not pass its argument %d on unchanged' % (short, i + 1))
    ctx.floor('wrapper calls', n, 3)
