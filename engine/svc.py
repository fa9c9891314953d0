"""Service clients: what ServiceInstance::from_config makes of each service type."""
from .acts import *

TABLE = {'Auth': ('envoy.service.auth.v3.Authorization', 'Check'),
         'RateLimit': ('envoy.service.ratelimit.v3.RateLimitService', 'ShouldRateLimit'),
         'RateLimitCheck': ('kuadrant.service.ratelimit.v1.RateLimitService', 'CheckRateLimit'),
         'RateLimitReport': ('kuadrant.service.ratelimit.v1.RateLimitService', 'Report'),
         'Tracing': ('opentelemetry.proto.collector.trace.v1.TraceService', 'Export')}
ADDX = 'descriptor_manager::DescriptorManager::add_expected'


def where(v, pred, d=6):
    """index paths of the parts of an aggregate satisfying pred"""
    out = []
    x = v
    while x[0] == '&':
        x = x[1]
    if pred(x):
        return [()]
    if x[0] == 'a' and d:
        for i, y in x[4]:
            out += [((x[2], i),) + q for q in where(y, pred, d - 1)]
    return out


def is_cfg(p, v, *fields):
    """is v the named field (of the field ..) of the service configuration?"""
    v = strip(v)
    names = []
    t = v[1] if v[0] == 's' else None
    while t is not None:
        k = TERMS[t]
        if k[0] == 'fld':
            ty = TTY.get(k[1])
            while ty is not None and p.types[ty]['k'] == 'ref':
                ty = p.types[ty]['t']
            if ty is not None and p.types[ty]['k'] == 'adt' and isinstance(k[2], int):
                names.append(p.types[ty]['v'][k[2]][2][k[3]][0])
                if p.is_adt(ty, 'configuration::Service'):
                    break
            else:
                names.append(str(k[3]))
            t = k[1]
        elif k[0] == 'deref':
            t = k[1]
        elif k[0] == 'call' and k[1].endswith(('Clone::clone', 'to_owned', 'to_string', 'String::as_str')):
            w = strip(k[2][0])
            t = w[1] if w[0] == 's' else None
        else:
            return False
    names = [n for n in reversed(names) if not n.isdigit()]
    return names == list(fields)


class Services:
    """role -> index path of each client struct: {struct head: {role: path}}"""

    def __init__(self, ctx):
        p = self.p = ctx.p
        self.fi = p.find1('services::ServiceInstance::from_config')
        self.e = e = base.make(p, extra={ADDX: boundary})
        self.states = e.run(self.fi)
        ctx.engine_stats(e)
        self.rty = p.fns[self.fi]['b']['ls'][0][0]
        self.roles = {}
        self.built = []     # (state, service type, instance variant, client value)
        cfg = e.params(self.fi)[0]
        sty = p.adt('configuration::Service')
        self.tix = p.field_ix(sty, 'service_type')
        self.tty = p.types[sty]['v'][0][2][self.tix][1]
        for st in self.states:
            kind = variant_of(e, st, getf(cfg, 0, self.tix), self.tty)
            res = variant_of(e, st, st.result, self.rty)
            val = inst = None
            if res == 'Ok':
                r = getf(st.result, [i for i, v in enumerate(p.types[self.rty]['v']) if v[0] == 'Ok'][0], 0)
                if r[0] == 'a' and r[2] is not None:
                    inst = p.types[r[1]]['v'][r[2]][0]
                    xs = r[4]
                    val = e.snap(st, xs[0][1]) if xs else None
                    while val is not None and (val[0] == '&' or val[0] == 'a' and len(val[4]) == 1):
                        val = val[1] if val[0] == '&' else val[4][0][1]
            self.built.append((st, kind, res, inst, val))

    def wanted(self, st, kind):
        """predicates of the roles of a client of this service type"""
        p = self.p
        w = {'endpoint': lambda v: is_cfg(p, v, 'endpoint'), 'timeout': lambda v: is_cfg(p, v, 'timeout')}
        if kind == 'Dynamic':
            w['service'] = lambda v: is_cfg(p, v, 'grpc_service', 'Some') or is_cfg(p, v, 'grpc_service')
            w['method'] = lambda v: is_cfg(p, v, 'grpc_method', 'Some') or is_cfg(p, v, 'grpc_method')
        else:
            w['service'] = lambda v: v == ('c', TABLE[kind][0])
            w['method'] = lambda v: v == ('c', TABLE[kind][1])
        return w


def services(ctx):
    if not hasattr(ctx, '_svc'):
        ctx._svc = Services(ctx)
    return ctx._svc


def check_services(ctx):
    """obligations: every service type makes its own client with the configured target; returns {client struct: {role: index path}}"""
    S = services(ctx)
    p, e = S.p, S.e
    kinds = {}
    roles = {}
    for st, kind, res, inst, val in S.built:
        if kind is None:
            ctx.oblige(False, 'from_config: open', 'a service is built without looking at its type')
            continue
        if res != 'Ok':
            kinds.setdefault(kind, []).append('err')
            ctx.oblige(kind == 'Dynamic', 'from_config: %s rejected' % kind, 'a service of type %s can be rejected' % kind)
            continue
        kinds.setdefault(kind, []).append('ok')
        ctx.oblige(inst == kind, 'from_config: %s kind' % kind, 'a service of type %s is treated as %s' % (kind, inst))
        if val is None or val[0] != 'a':
            ctx.oblige(False, 'from_config: %s client' % kind, 'the client of a service of type %s is not built from its configuration' % kind)
            continue
        head = p.head(val[1])
        for role, pred in S.wanted(st, kind).items():
            ws = where(val, pred)
            ctx.oblige(len(ws) == 1, 'from_config: %s %s' % (kind, role), 'the %s of a client of type %s is not %s' % (
                role, kind, 'the configured one' if role in ('endpoint', 'timeout') or kind == 'Dynamic' else repr(TABLE[kind][role == 'method'])))
            if len(ws) == 1:
                roles.setdefault(head, {}).setdefault(role, set()).add(tuple(ws[0]))
        adds = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (ADDX,))]
        if kind != 'Tracing':
            ok = False
            for ev in adds:
                k = e.snap(st, ev.args[1])
                while k[0] == '&':
                    k = k[1]
                w = S.wanted(st, kind)
                if k[0] == 'a':
                    ok = ok or (len(where(k, w['endpoint'])) == 1 and len(where(k, w['service'])) == 1)
            ctx.oblige(ok and len(adds) == 1, 'from_config: %s descriptor' % kind, 'the descriptor of the service of a client of type %s is not requested from its endpoint' % kind)
    ctx.floor('service types', len([k for k in kinds if 'ok' in kinds[k]]), 6)
    for v in p.types[S.tty]['v']:
        ctx.oblige('ok' in kinds.get(v[0], ()), 'from_config: %s' % v[0], 'no client is ever made for service type %s' % v[0])
    out = {}
    for h, rs in roles.items():
        for r, ws in rs.items():
            ctx.oblige(len(ws) == 1, '%s: %s' % (short_head(h), r), 'the %s is kept in different fields of the client' % r)
            out.setdefault(h, {})[r] = sorted(ws)[0]
    return out
