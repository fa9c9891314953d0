"""C24: a legacy action is translated into a typed action of the same meaning."""
import itertools
import re
from engine.acts import *
from engine.base import pure_boundary
from engine import base
from engine.models import err
from engine.celtext import flat, parse, unesc, Unclear, bare
from . import c23
from .c01 import run_all

EXPLANATION = '''The typed action handed to the compiler is read off the abstract paths of the legacy compilation, for every service type and for every list of (at most k) predicates, conditional data blocks, items and requestData entries.
Each assembled text is a sequence of literal text and of holes (texts of the configuration). It is parsed as CEL with the holes in place: a hole may stand inside a literal only when escaped, and elsewhere only where a whole expression may stand, so that precedence cannot change what it means.
Predicates are compared as boolean functions of the holes, messages field by field, follow-ups by which of them apply to each kind of reply.'''

CFG = 'configuration::'
DOMAIN, HITS, BODY = 'ratelimit.domain', 'ratelimit.hits_addend', 'responseBodyJSON('
RL, ENTRY, DESC = 'envoy.service.ratelimit.v3.RateLimitRequest', 'envoy.extensions.common.ratelimit.v3.RateLimitDescriptor.Entry', 'envoy.extensions.common.ratelimit.v3.RateLimitDescriptor'
CHECK = '''envoy.service.auth.v3.CheckRequest { attributes: envoy.service.auth.v3.AttributeContext {
 request: envoy.service.auth.v3.AttributeContext.Request { time: request.time, http: envoy.service.auth.v3.AttributeContext.HttpRequest {
   host: request.host, method: request.method, scheme: request.scheme, path: request.path, protocol: request.protocol, headers: request.headers } },
 destination: envoy.service.auth.v3.AttributeContext.Peer { address: envoy.config.core.v3.Address { socket_address: envoy.config.core.v3.SocketAddress { address: destination.address, port_value: uint(destination.port) } } },
 source: envoy.service.auth.v3.AttributeContext.Peer { address: envoy.config.core.v3.Address { socket_address: envoy.config.core.v3.SocketAddress { address: source.address, port_value: uint(source.port) } } },
 context_extensions: {"host": "'''
KIND = {'Auth': 'auth', 'RateLimit': 'rl', 'RateLimitCheck': 'rl', 'RateLimitReport': 'report'}


def check(ctx):
    ctx.rule('a text of the configuration stands in a generated literal only escaped, and outside of one only where a whole expression may stand')
    ctx.rule('the predicate of the typed action is the conjunction of the predicates of the action and, for rate limits, of the disjunction of the conditions of its conditional data')
    ctx.rule('rate limit message: domain and hits addend as configured or the defaults, the entries of each conditional data block under its own condition, in order, then those of requestData, each with its own key and value')
    ctx.rule('auth message: the documented request attributes, the scope as host, requestData by domain')
    ctx.rule('the service, the sources, the guard setting, and that the action is not terminal; requestData that needs the response body only in reports')
    ctx.rule('follow-ups: a reply meaning deny always makes a terminal reply, one meaning allow only header changes (and stored metadata), one meaning neither a failure')
    ctx.assume('a predicate or expression of the configuration is one complete CEL expression')
    fs = [i for i, t in c23.compilers(ctx.p).items() if not t]
    ctx.floor('legacy action compilers', len(fs), 1)
    esc = escapers(ctx)
    th = ctx.tier == 'thorough'
    n = {}
    # predicates, blocks, predicates of a block, items of a block, requestData
    for sl in ((2, 1, 2, 0, 0), (0, 2, 2, 0, 0), (0, 2, 1, 1, 0), (0, 1, 0, 2, 0), (0, 1, 2, 1, 0), (0, 1, 0, 1, 1), (0, 0, 0, 0, 2)) + (((2, 2, 2, 0, 0), (3, 1, 1, 0, 0), (0, 1, 3, 1, 0), (0, 3, 1, 0, 0), (0, 1, 0, 3, 0), (0, 1, 1, 1, 2), (0, 0, 0, 0, 3)) if th else ()):
        for fi in fs:
            slice_(ctx, fi, sl, esc, n)
    for k, m in (('Auth', 6), ('RateLimit', 100), ('RateLimitCheck', 100), ('RateLimitReport', 100)):
        ctx.floor('translations: ' + k, n.get(k, 0), m)


def escapers(ctx):
    """functions of the crate that escape a text for a double quoted literal"""
    p = ctx.p
    out = {}
    for i, f in enumerate(p.fns):
        b = f['b']
        if b is None or b['n'] != 1 or not f['p'].startswith('kuadrant_filter::configuration::'):
            continue
        if p.types[b['ls'][0][0]]['s'] not in ('std::string::String', 'alloc::string::String') or p.types[b['ls'][1][0]]['s'] not in ('&str', "&'_ str", '&std::string::String'):
            continue
        e = base.make(p)
        e.KOF = lambda s: 2
        try:
            a = e.params(i)[0]
            res = run_all(ctx, e, i)
            if res and all(flat(e.snap(st, st.result)) == [('esc', bare(('s', T('deref', a[1])))[1])] or by_char(e, st, bare(e.snap(st, a))) for st in res):
                out[f['p']] = pure_boundary
        except (Unclear, AnalysisError):
            continue
    return out


def by_char(e, st, src):
    """the result of a path that went through the text character by character: each character as it is, or escaped"""
    chars = [TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more' and TERMS[TERMS[t][1]][0].endswith('str::chars') and term_mentions(TERMS[t][1], lambda k: k == TERMS[src[1]], 4)]
    if src[0] != 's' or len(set(chars)) != 1:
        return False
    s = chars[0]
    want, n = [], 0
    while e.known(st, T('more', s, n)) == 1:
        x = T('elem', s, n)
        f = st.facts.get(x)
        if f is not None and f[0] == '=':
            want.append(chr(f[1]))
        elif f is not None and {34, 92, 10, 13} <= set(f[1]):
            want.append(x)
        else:
            return False
        n += 1
    have = []
    for y in flat(e.snap(st, st.result)):
        if isinstance(y, str):
            z = unesc(y)
            if z is None:
                return False
            have += list(z)
        elif y[0] == 'raw':
            have.append(y[1])
        else:
            return False
    return have == want


def fields(p, ty):
    return {n: i for i, (n, _t) in enumerate(p.types[p.adt(CFG + ty)]['v'][0][2])}


def fld(t, ix, v=0):
    return T('fld', t, v, ix)


def typed_arg(p, e, st, ty):
    """typed actions given to a compiler on this path"""
    out = []
    for ev in st.events():
        if ev.kind == 'call' and ev.fi in BOUND:
            for a in ev.args:
                v = strip(a)
                while v[0] == '&':
                    v = strip(v[1])
                if v[0] == 'a' and v[1] == ty:
                    out.append(v)
    return out


BOUND = set()


def refuse(e, st, c):
    """what becomes of the typed action afterwards is not the subject (C23, C27)"""
    e.event(st, 'call', c.path, c.name, c.fi, tuple(e.snap(st, a, 25) for a in c.args), c.args, None)
    c.give(err(sym('refused')))


def size(e, st, s):
    """number of elements of the list the path is about, None when it did not look; False: the path is contradictory"""
    f = st.facts.get(TIX.get(('len', ('s', s)), -1)) or st.facts.get(TIX.get(('len', s), -1))
    if e.klimit(s) == 0:
        return 0 if f is None or f == ('=', 0) or f[0] == '!' and 0 not in f[1] else False
    lo = 0
    while e.known(st, T('more', s, lo)) == 1:
        lo += 1
    end = e.known(st, T('more', s, lo)) == 0
    if lo > e.klimit(s) or end and f is not None and f[0] == '!' and lo in f[1] or f is not None and f[0] == '=' and f[1] < lo:
        return False
    return lo if end or lo == e.klimit(s) else f[1] if f is not None and f[0] == '=' else None


def slice_(ctx, fi, sl, esc, n):
    p = ctx.p
    where = p.where(fi)
    one = c23.compilers(p)
    BOUND.clear()
    BOUND.update(i for i, t in one.items() if t)
    e = base.make(p, dict({p.fns[i]['p']: refuse for i in BOUND}, **{**esc, '[T]::contains': one_of}, **{'[T]::' + x: in_place for x in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')}))
    act, cd, it, st_, ex = (fields(p, x) for x in ('Action', 'ConditionalData', 'DataItem', 'StaticItem', 'ExpressionItem'))
    tys = {'[]cd': 'ConditionalData>', '[]it': 'DataItem>'}
    prm = e.params(fi)
    b = p.fns[fi]['b']
    cfg = next(T('deref', prm[j][1]) for j in range(b['n']) if p.types[b['ls'][1 + j][0]]['s'].endswith('configuration::Action'))
    rd = next(T('deref', prm[j][1]) for j in range(b['n']) if '((std::string::String, std::string::String), std::string::String)' in p.types[b['ls'][1 + j][0]]['s'])
    P, CD = fld(cfg, act['predicates']), fld(cfg, act['conditional_data'])

    def kof(s):
        t = p.types[TTY[s]]['s'] if TTY.get(s) is not None else ''
        if s == P:
            return sl[0]
        if s == CD:
            return sl[1]
        if s == rd:
            return sl[4]
        if term_mentions(s, lambda k: k[0] == 'elem' and k[1] == CD, 6):
            return sl[3] if s == fld(T('elem', CD, TERMS[TERMS[s][1]][2]), cd['data']) else sl[2]
        return 0
    e.KOF = kof
    e.LOOP, e.LENCUT = 5, True
    sharp_text(e, esc)
    inst = p.adt('services::ServiceInstance')
    vs = [v[0] for v in p.types[inst]['v']]
    tty = p.adt(CFG + 'TypedAction')
    for st in run_all(ctx, e, fi):
        if not feasible(e, st, esc):
            continue
        kinds = {TERMS[t][1]: vs[f[1]] for t, f in st.facts.items() if TERMS[t][0] == 'disc' and f[0] == '=' and is_inst(p, TERMS[t][1])}
        typed = typed_arg(p, e, st, tty)
        ks = set(kinds.values())
        if not typed:
            ctx.oblige(not (ks & set(KIND)), 'not translated', '%s: an action of a %s service is not translated\n%s' % (where, '/'.join(sorted(ks)), trace_text(e, st)))
            continue
        open_ = [k for k in KIND if not any(f[0] == '!' and vs.index(k) in f[1] for t, f in st.facts.items() if TERMS[t][0] == 'disc' and is_inst(p, TERMS[t][1]))]
        ks = ks or set(open_)
        if not ctx.oblige(len(typed) == 1 and ks and ks <= set(KIND) and len({KIND[k] for k in ks}) == 1, 'service type', '%s: %d typed actions are made for a service of type %s\n%s' % (where, len(typed), '/'.join(sorted(ks)), trace_text(e, st))):
            continue
        sz = {'p': size(e, st, P), 'cd': size(e, st, CD), 'rd': size(e, st, rd)}
        cds = [T('elem', CD, i) for i in range(sz['cd'] or 0)]
        cp = [size(e, st, fld(x, cd['predicates'])) for x in cds]
        di = [size(e, st, fld(x, cd['data'])) for x in cds]
        if any(x is False for x in list(sz.values()) + cp + di):
            continue
        for k in ks:
            n[k] = n.get(k, 0) + 1
        k = sorted(ks)[0]
        m = Model(ctx, p, e, st, esc, where, k, typed[0])
        m.P = [T('elem', P, i) for i in range(sz['p'])] if sz['p'] is not None else None
        m.blocks = [([T('elem', fld(x, cd['predicates']), i) for i in range(a)] if a is not None else None, [item(p, e, st, T('elem', fld(x, cd['data']), i), it, st_, ex) for i in range(d)] if d is not None else None) for x, a, d in zip(cds, cp, di)] if sz['cd'] is not None else None
        m.rd = [(fld(fld(T('elem', rd, i), 0), 0), fld(fld(T('elem', rd, i), 0), 1), fld(T('elem', rd, i), 1)) for i in range(sz['rd'])] if sz['rd'] is not None else None
        m.cfg = {f: fld(cfg, i) for f, i in act.items()}
        m.judge()
    ctx.cov['functions_analysed'].add(p.fns[fi]['p'])


def one_of(e, st, c):
    """whether a text is in a list of constants is decided name by name"""
    x, y = strip(e.snap(st, c.args[0])), e.snap(st, c.args[1])
    while y[0] == '&':
        y = y[1]
    l = [strip(s[1]) for s in x[1]] if x[0] == 'v' and all(s[0] == 'e' for s in x[1]) else [None]
    l = [strip(a[1]) if a is not None and a[0] == '&' else a for a in l]
    if not all(a is not None and a[0] == 'c' for a in l):
        return c.opaque(pure=True)

    def g(*eqs):
        for q in eqs:
            b = yield ('branch', q)
            if b:
                return C(1)
        return C(0)
    c.native(g, *[e.mk_eq(st, y, a) for a in l])


def in_place(e, st, c):
    """the order of the domains does not bear on the meaning: one order stands for all"""
    cell, p = e.deref_loc(st, c.args[0])
    x = strip(e.load(st, cell, p))
    if x[0] != 'v' or any(s[0] != 'e' for s in x[1]):
        return c.opaque()
    c.give(UNIT)


def sharp_text(e, esc):
    """an assembled text is not equal to a constant its literal parts exclude"""
    plain = e.mk_eq

    def mk_eq(st, a, b):
        r = plain(st, a, b)
        k = TERMS[r[1]] if r[0] == 's' else None
        if k is not None and k[0] == 'eq' and k[2][0] == 'c' and isinstance(k[2][1], str) and excluded(k[1], k[2][1], esc):
            return C(0)
        if k is not None and k[0] == 'eq' and k[2][0] == 'c':
            try:
                x = [y for y in flat(k[1], esc) if y != '']
            except Unclear:
                return r
            # a text that consists of one other text
            return plain(st, ('s', x[0][1]), k[2]) if len(x) == 1 and x[0][0] == 'raw' and ('s', x[0][1]) != k[1] else r
        if k is not None and k[0] == 'eq' and k[2][0] == 's':
            try:
                x, y = flat(a, esc), flat(b, esc)
            except Unclear:
                return r
            while x and y and len(x) + len(y) > 2 and x[0] == y[0]:
                x, y = x[1:], y[1:]
            while x and y and len(x) + len(y) > 2 and x[-1] == y[-1]:
                x, y = x[:-1], y[:-1]
            if len(x) == 1 and len(y) == 1 and not isinstance(x[0], str) and not isinstance(y[0], str) and x[0][0] == y[0][0]:
                return plain(st, ('s', x[0][1]), ('s', y[0][1]))
        return r
    e.mk_eq = mk_eq


def excluded(v, c, esc):
    try:
        x = flat(v, esc)
    except Unclear:
        return False
    return not re.fullmatch(''.join(re.escape(y) if isinstance(y, str) else '.*' for y in x), c, re.S)


def is_inst(p, t):
    while TERMS[t][0] == 'deref':
        t = TERMS[t][1]
    return TERMS[t][0] == 'mapget' or TTY.get(t) is not None and p.types[TTY[t]]['s'].endswith('services::ServiceInstance')


def feasible(e, st, esc):
    """a path that assumes an assembled text equal to a constant its literal parts exclude does not exist"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'eq' and f == ('=', 1):
            a, c = (k[1], k[2]) if k[2][0] == 'c' else (k[2], k[1])
            if c[0] != 'c' or not isinstance(c[1], str):
                continue
            if excluded(a, c[1], esc):
                return False
    return True


def item(p, e, st, t, it, s, x):
    """(kind, key, value, is domain, is hits) of a data item"""
    d = fld(t, it['item'])
    dt = p.types[p.adt(CFG + 'DataType')]['v']
    f = st.facts.get(TIX.get(('disc', d), -1))
    if f is None:
        return None
    left = [f[1]] if f[0] == '=' else [i for i in range(len(dt)) if i not in f[1]]
    if len(left) != 1:
        return None
    v = left[0]
    name = dt[v][0]
    ix = s if name == 'Static' else x
    pay = fld(d, 0, v)
    key, val = fld(pay, ix['key']), fld(pay, ix['value'])
    return name, key, val, e.truth(st, e.mk_eq(st, ('s', key), C(DOMAIN))), e.truth(st, e.mk_eq(st, ('s', key), C(HITS)))


class Model:
    def __init__(self, ctx, p, e, st, esc, where, kind, typed):
        self.ctx, self.p, self.e, self.st, self.esc, self.where, self.kind, self.typed = ctx, p, e, st, esc, where, kind, typed

    def say(self, cond, key, msg):
        return self.ctx.oblige(cond, '%s: %s' % (self.kind, key), '%s: %s service: %s\n%s' % (self.where, self.kind, msg() if callable(msg) and not cond else msg, '' if cond else trace_text(self.e, self.st)))

    def show(self, t):
        return self.e.show(('s', t), 5)

    def field(self, v, ty, name):
        ix = fields(self.p, ty)[name]
        return getf(strip(v), 0, ix)

    def cel(self, v, what):
        """the text as an expression, None (reported) when it cannot be read as one"""
        def operand(t):
            # without a conditional operator in it, an expression may be an operand of ||
            return any(self.e.truth(self.st, ('s', TIX[x])) == 0 for x in list(TIX) if x[0] in ('contains', 'call') and qmark(x, t))
        try:
            return parse(flat(v, self.esc), operand)
        except Unclear as x:
            self.say(False, what + ' is no sound text', '%s is %s: %s' % (what, self.text(v), x))
            return None

    def text(self, v):
        try:
            return ''.join(x if isinstance(x, str) else '<%s%s>' % ('escaped ' if x[0] == 'esc' else '', self.show(x[1])) for x in flat(v, self.esc))
        except Unclear:
            return self.e.show(v, 6)

    # ------------------------------------------------------------------ predicates
    def known(self, t):
        return self.e.truth(self.st, self.e.mk_eq(self.st, ('s', t), C('true'))) == 1

    def conj(self, ts, u):
        return ('and', tuple(('hole', t) for t in ts)) if ts is not None else ('atom', u)

    def same(self, have, want, holes):
        """boolean functions of the holes; a predicate known to be the text true is true"""
        atoms = sorted(holes, key=str)
        for vals in itertools.product((False, True), repeat=len(atoms)):
            env = dict(zip(atoms, vals))
            if any(not env[a] and isinstance(a, int) and self.known(a) for a in atoms):
                continue
            x = evaluate(have, lambda a: env.get(a[1]) if a[0] in ('hole', 'atom') else None)
            y = evaluate(want, lambda a: env.get(a[1]) if a[0] in ('hole', 'atom') else None)
            if x is None or x != y:
                return False
        return True

    def judge(self):
        t, k = self.typed, KIND[self.kind]
        op = strip(self.field(t, 'TypedAction', 'operation'))
        names = [v[0] for v in self.p.types[self.p.adt(CFG + 'Operation')]['v']]
        if not self.say(op[0] == 'a' and names[op[2]] == 'Grpc', 'operation', 'the action is not translated to a call of its service'):
            return
        g = strip(getf(op, op[2], 0))
        self.say(bare(self.field(g, 'GrpcOperation', 'service')) == ('s', self.cfg['service']), 'service', 'the call goes to %s' % self.e.show(self.field(g, 'GrpcOperation', 'service'), 4))
        self.say(bare(self.field(t, 'TypedAction', 'sources')) == ('s', self.cfg['sources']), 'sources', 'the sources are %s' % self.e.show(self.field(t, 'TypedAction', 'sources'), 4))
        self.say(self.field(t, 'TypedAction', 'terminal') == C(0), 'terminal', 'the translated action is terminal')
        self.say(self.field(t, 'TypedAction', 'is_guard') == C(0 if k == 'report' else 1), 'guard setting', 'the translated action is %sa guard' % ('' if k == 'report' else 'not '))
        # the predicate
        have = self.cel(self.field(t, 'TypedAction', 'predicate'), 'the predicate')
        holes = set(self.P if self.P is not None else ['own'])
        want = self.conj(self.P, 'own')
        if k != 'auth':
            if self.blocks is None:
                want, holes = ('and', (want, ('atom', 'conditional data'))), holes | {'conditional data'}
            elif self.blocks:
                want = ('and', (want, ('or', tuple(self.conj(ps, 'block %d' % i) for i, (ps, _d) in enumerate(self.blocks)))))
                for i, (ps, _d) in enumerate(self.blocks):
                    holes |= set(ps) if ps is not None else {'block %d' % i}
        if have is not None:
            self.say(self.same(have, want, holes), 'predicate', lambda: 'the predicate is %s for %s predicates and conditions %s' % (self.text(self.field(t, 'TypedAction', 'predicate')), len(self.P) if self.P is not None else 'unread', [len(x[0]) if x[0] is not None else 'unread' for x in self.blocks or ()]))
        msg = self.cel(self.field(g, 'GrpcOperation', 'message_builder'), 'the message')
        if msg is not None:
            (self.auth if k == 'auth' else self.limit)(msg, k)
        var = bare(self.field(g, 'GrpcOperation', 'var'))
        if self.say(var[0] == 'c' and isinstance(var[1], str) and re.fullmatch(r'[A-Za-z_]\w*', var[1]) is not None, 'variable', 'the reply is kept under %s' % self.e.show(var)):
            self.replies(self.field(g, 'GrpcOperation', 'on_reply'), var[1], k)

    # ------------------------------------------------------------------ messages
    def want(self, *parts):
        return parse(list(parts))

    def needs_body(self, t):
        return self.contains(t, BODY)

    def contains(self, t, what):
        for x in self.st.facts:
            k = TERMS[x]
            if k[0] in ('contains', 'call') and about(k, t, what):
                return self.st.facts[x] == ('=', 1) if self.st.facts[x][0] == '=' else None
        return None

    def request_data(self, k):
        """[(domain, field, expression)] that belong into the message, None when unknown"""
        if self.rd is None:
            return None
        if k == 'report':
            return self.rd
        out = []
        for r in self.rd:
            b = self.needs_body(r[2])
            if b is None:
                return None
            if not b:
                out.append(r)
        return out

    def limit(self, msg, k):
        if not self.say(msg[0] == 'msg' and msg[1] == RL and sorted(dict(msg[2])) == ['descriptors', 'domain', 'hits_addend'], 'message', 'the message is a %s of %s' % (msg[1], [f for f, _ in msg[2]] if msg[0] == 'msg' else msg)):
            return
        f = dict(msg[2])
        items = [x for _ps, d in self.blocks or () for x in d or ()]
        if not self.say(self.blocks is not None and all(d is not None for _p, d in self.blocks) and None not in items, 'data unread', 'the items of the conditional data are not all looked at'):
            return
        dom = next((x for x in items if x[3] is not False and x[3] != 0), None)
        hit = next((x for x in items if x[4] is not False and x[4] != 0), None)
        if not self.say(all(x[3] is not None or x[4] == 1 for x in items) and all(x[4] is not None or x[3] == 1 for x in items), 'key unread', 'a key of the conditional data is not compared with the names of the domain and of the hits addend'):
            return
        dom = next((x for x in items if x[3] == 1), None)
        hit = next((x for x in items if x[4] == 1), None)
        want = self.want('"', ('esc', self.cfg['scope']), '"') if dom is None else self.want('"', ('esc', dom[2]), '"') if dom[0] == 'Static' else ('hole', dom[2])
        self.say(f['domain'] == want, 'domain', lambda: 'the domain is %s where %s is configured' % (self.render(f['domain']), self.render(want)))
        want = self.want('1u') if hit is None else self.want('uint(', ('raw', hit[2]), ')')
        self.say(f['hits_addend'] == want, 'hits addend', lambda: 'the hits addend is %s where %s is configured' % (self.render(f['hits_addend']), self.render(want)))
        rd = self.request_data(k)
        if not self.say(rd is not None, 'requestData unread', 'requestData is not all looked at, or without telling what needs the response body'):
            return
        try:
            have = [entries(d) for d in listof(f['descriptors'])]
        except Unclear as x:
            self.say(False, 'descriptors', 'the descriptors are %s: %s' % (self.render(f['descriptors']), x))
            return
        want = []
        first = [(self.entry([('esc', x[1])], x[2], x[0] == 'Static'), ps) for ps, d in self.blocks for x in d if not x[3] and not x[4]]
        if first:
            want.append(first)
        second = []
        for d, fl, ex in rd:
            emp = self.empty(d)
            if not self.say(emp is not None, 'requestData domain unread', 'the domain of a requestData entry is not looked at'):
                return
            second.append((self.entry([('esc', fl)] if emp else [('esc', d), '.', ('esc', fl)], ex, False), []))
        if second:
            want.append(second)
        good = len(have) == len(want) and all(len(a) == len(b) for a, b in zip(have, want))
        self.say(good, 'descriptor entries', lambda: 'the descriptors have %s entries where %s are configured: %s' % ([len(x) for x in have], [len(x) for x in want], self.render(f['descriptors'])))
        if not good:
            return
        for a, b in zip(have, want):
            for (x, gx), (y, ps) in zip(a, b):
                self.say(x == y, 'descriptor entry', lambda: 'the entry is %s where %s is configured' % (self.render(x), self.render(y)))
                hs = set(ps) if ps is not None else {'?'}
                self.say(self.same(gx, self.conj(ps, '?'), hs), 'condition of an entry', lambda: 'the entry %s is included when %s' % (self.render(x), self.render(gx)))

    def empty(self, d):
        """whether a requestData domain is left out of the key"""
        a = self.e.truth(self.st, self.e.mk_eq(self.st, ('s', d), C('')))
        f = self.st.facts.get(TIX.get(('len', ('s', d)), -1)) or self.st.facts.get(TIX.get(('len', d), -1))
        if a is None and f is not None:
            a = 1 if f == ('=', 0) else 0
        b = self.e.truth(self.st, self.e.mk_eq(self.st, ('s', d), C('metrics.labels')))
        return True if a == 1 or b == 1 else False if a == 0 and b == 0 else None

    def entry(self, key, val, lit):
        return self.want(ENTRY, '{key: "', *key, *(['", value: "', ('esc', val), '"}'] if lit else ['", value: string(', ('raw', val), ')}']))

    def auth(self, msg, k):
        rd = self.request_data(k)
        if not self.say(rd is not None, 'requestData unread', 'requestData is not all looked at, or without telling what needs the response body'):
            return
        by = {}
        for d, f, ex in rd:
            emp = self.e.truth(self.st, self.e.mk_eq(self.st, ('s', d), C('')))
            ln = self.st.facts.get(TIX.get(('len', ('s', d)), -1))
            emp = (1 if ln == ('=', 0) else 0) if emp is None and ln is not None else emp
            au = self.contains(ex, 'auth.')
            if not self.say(emp is not None and au is not None, 'requestData unread', 'the domain of a requestData entry is not looked at, or its expression not for what auth produces'):
                return
            dom = next((x for x in by if x != '' and self.e.truth(self.st, self.e.mk_eq(self.st, ('s', x), ('s', d))) == 1), d) if not emp else ''
            v = self.want('google.protobuf.Value{struct_value: google.protobuf.Struct{fields: {"cel_expr": google.protobuf.Value{string_value: "', ('esc', ex), '"}}}}') if au else self.want('google.protobuf.Value{string_value: string(', ('raw', ex), ')}')
            by.setdefault(dom, []).append((self.want('"', ('esc', f), '"'), v))
        want = self.want(CHECK, ('esc', self.cfg['scope']), '"}, metadata_context: envoy.config.core.v3.Metadata{} } }')
        w = canon(want)
        h = canon(msg)
        meta = None
        try:
            a = dict(h[2])
            x = dict(a['attributes'][2])
            meta = x.pop('metadata_context', None)
            a['attributes'] = ('msg', a['attributes'][1], tuple(sorted(x.items())))
            h = ('msg', h[1], tuple(sorted(a.items())))
            b = dict(w[2])
            y = dict(b['attributes'][2])
            y.pop('metadata_context')
            b['attributes'] = ('msg', b['attributes'][1], tuple(sorted(y.items())))
            w = ('msg', w[1], tuple(sorted(b.items())))
        except (KeyError, IndexError, TypeError):
            pass
        self.say(h == w, 'attributes', lambda: 'the message is %s' % self.render(msg))
        ok_ = meta is not None and meta[0] == 'msg' and meta[1] == 'envoy.config.core.v3.Metadata' and set(dict(meta[2])) <= {'filter_metadata'}
        fm = dict(meta[2]).get('filter_metadata', ('map', ())) if ok_ else None
        ok_ = ok_ and fm[0] == 'map'
        have = []
        for kx, v in fm[1] if ok_ else ():
            if not (v[0] == 'msg' and v[1] == 'google.protobuf.Struct' and list(dict(v[2])) == ['fields'] and dict(v[2])['fields'][0] == 'map'):
                ok_ = False
                break
            have.append((kx, sorted(dict(v[2])['fields'][1], key=repr)))
        wm = [(self.want('"io.kuadrant', *(['.', ('esc', d)] if d != '' else []), '"'), sorted(((canon(a), canon(b)) for a, b in x), key=repr)) for d, x in by.items()]
        self.say(ok_ and sorted(have, key=repr) == sorted(wm, key=repr), 'metadata', lambda: 'the metadata is %s for %d requestData entries' % (self.render(meta) if meta else 'missing', len(rd)))

    # ------------------------------------------------------------------ follow-ups
    def replies(self, v, var, k):
        v = strip(v)
        if not self.say(v[0] == 'v' and all(s[0] == 'e' for s in v[1]), 'follow-ups', 'the follow-ups are not known one by one'):
            return
        names = [x[0] for x in self.p.types[self.p.adt(CFG + 'Operation')]['v']]
        acts = []
        for s in v[1]:
            a = strip(s[1])
            pr = self.cel(self.field(a, 'TypedAction', 'predicate'), 'the predicate of a follow-up')
            op = strip(self.field(a, 'TypedAction', 'operation'))
            if pr is None or op[0] != 'a':
                return self.say(False, 'follow-up', 'a follow-up is not readable')
            name = names[op[2]]
            pay = strip(getf(op, op[2], 0))
            if name == 'Deny':
                x = self.cel(self.field(pay, 'DenyOperation', 'deny_with'), 'the reply of a follow-up')
                what = ('Deny', canon(x) if x is not None else None)
            elif name == 'Headers':
                x = self.cel(self.field(pay, 'HeadersOperation', 'headers'), 'the headers of a follow-up')
                tg = strip(self.field(pay, 'HeadersOperation', 'target'))
                what = ('Headers', self.p.types[self.p.adt(CFG + 'HeadersTarget')]['v'][tg[2]][0] if tg[0] == 'a' else None, canon(x) if x is not None else None)
            elif name == 'Store':
                x = self.cel(self.field(pay, 'StoreOperation', 'value'), 'the value of a follow-up')
                what = ('Store', bare(self.field(pay, 'StoreOperation', 'path')), self.field(pay, 'StoreOperation', 'export_to_host'), canon(x) if x is not None else None)
            else:
                what = (name,)
            term, guard = self.field(a, 'TypedAction', 'terminal'), self.field(a, 'TypedAction', 'is_guard')
            self.say(guard == C(0 if k == 'report' else 1), 'guard setting of a follow-up', 'the %s follow-up is %sa guard' % (name, '' if k == 'report' else 'not '))
            acts.append((pr, term == C(1), what))
        V = lambda tx: canon(self.want(tx.replace('$', var)))
        for env, want in SITUATIONS[k](V, var):
            run, broken = [], False
            for pr, term, what in acts:
                x = evaluate(pr, lambda a: env.get(a))
                if x is None:
                    broken = True
                    self.say(False, 'condition of a follow-up', 'the condition %s of a follow-up depends on something else than what the reply says' % self.render(pr))
                    break
                if x:
                    run.append((term, what))
                    if term:
                        break
            if broken:
                return
            said = ', '.join('%s=%s' % (self.render(a), b) for a, b in env.items() if a[0] != 'x')
            self.say(sorted(run, key=repr) == sorted(want, key=repr), 'handling of a reply', lambda: 'a reply with %s is handled by %s, it asks for %s' % (said, self.names(run), self.names(want)))

    def names(self, run):
        return '[%s]' % ', '.join('%s%s %s' % ('terminal ' if t else '', w[0], ' '.join(self.render(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ('c', 's', 'a') else str(x) for x in w[1:])) for t, w in run)

    def render(self, a):
        if a is None:
            return 'nothing'
        t = a[0]
        r = self.render
        if t == 'hole':
            return '<%s>' % self.show(a[1])
        if t == 'atom':
            return str(a[1])
        if t == 'str':
            return '"%s"' % ''.join(x if isinstance(x, str) else '<%s>' % self.show(x[1]) for x in a[1])
        if t in ('id', 'num'):
            return str(a[1])
        if t == 'sel':
            return r(a[1]) + '.' + a[2]
        if t == 'call':
            return '%s(%s)' % (a[1], ', '.join(map(r, a[2])))
        if t == 'method':
            return '%s.%s(%s)' % (r(a[1]), a[2], ', '.join(map(r, a[3])))
        if t == 'msg':
            return '%s{%s}' % (a[1].split('.')[-1], ', '.join('%s: %s' % (k, r(v)) for k, v in a[2]))
        if t == 'list':
            return '[%s]' % ', '.join(map(r, a[1]))
        if t == 'map':
            return '{%s}' % ', '.join('%s: %s' % (r(k), r(v)) for k, v in a[1])
        if t == 'cond':
            return '(%s ? %s : %s)' % (r(a[1]), r(a[2]), r(a[3]))
        if t == 'bin':
            return '(%s %s %s)' % (r(a[2]), a[1], r(a[3]))
        if t == 'not':
            return '!' + r(a[1])
        if t in ('and', 'or'):
            return '(%s)' % {'and': ' && ', 'or': ' || '}[t].join(map(r, a[1]))
        return str(a)


def limit_replies(V, var):
    code = V('$.overall_code')
    out = []
    for c in range(4):
        env = {code: c, V('has($.overall_code)'): c != 0}
        out.append((env, [(True, ('Deny', V('DenyResponse{status: 429u, headers: $.response_headers_to_add, body: "Too Many Requests\\n"}')))] if c == 2 else
                    [(False, ('Headers', 'Response', V('$.response_headers_to_add')))] if c == 1 else [(True, ('Fail',))]))
    return out


def report_replies(V, var):
    return [({V('$.overall_code'): c, V('has($.overall_code)'): h}, [] if h else [(False, ('Fail',))]) for h, c in ((False, 0), (True, 0), (True, 1), (True, 2))]


def auth_replies(V, var):
    lists = [V('$.ok_response.%s.size()' % x) for x in ('response_headers_to_add', 'headers_to_remove', 'query_parameters_to_set', 'query_parameters_to_remove')]
    out = []
    for den, ok_, meta in itertools.product((False, True), repeat=3):
        if den and ok_:
            continue
        for ns in itertools.product((0, 1), repeat=4) if ok_ else [(0,) * 4]:
            env = dict(zip(lists, ns))
            env.update({V('has($.denied_response)'): den, V('has($.ok_response)'): ok_, V('has($.dynamic_metadata)'): meta})
            if den:
                w = [(True, ('Deny', V('DenyResponse{status: ($.denied_response.status.code != 0) ? uint($.denied_response.status.code) : 403u, headers: $.denied_response.headers, body: $.denied_response.body}')))]
            elif not ok_ or any(ns):
                w = [(True, ('Fail',))]
            else:
                w = ([(False, ('Store', C('auth'), C(1), V('$.dynamic_metadata')))] if meta else []) + [(False, ('Headers', 'Request', V('$.ok_response.headers')))]
            out.append((env, w))
    return out


SITUATIONS = {'rl': limit_replies, 'report': report_replies, 'auth': auth_replies}


def about(k, t, what):
    """the term is the question whether text t contains the constant"""
    a = k[1:] if k[0] == 'contains' else k[2] if k[1].endswith('::contains') else ()
    vs = [bare(x) if isinstance(x, tuple) else x for x in a]
    return len(vs) == 2 and vs[0] == ('s', t) and vs[1] in (('c', what), ('c', ord(what[0]) if len(what) == 1 else what))


def qmark(k, t):
    return about(k, t, '?')


def canon(a):
    """field order and redundant shapes do not matter"""
    if not isinstance(a, tuple):
        return a
    if a and a[0] == 'msg':
        return ('msg', a[1], tuple(sorted((k, canon(v)) for k, v in a[2])))
    if a and a[0] == 'map':
        return ('map', tuple((canon(k), canon(v)) for k, v in a[1]))
    if a and a[0] == 'list':
        return ('list', tuple(canon(x) for x in a[1]))
    if a and a[0] in ('str', 'hole'):
        return a
    return tuple(canon(x) for x in a)


def listof(a):
    if a[0] == 'list':
        return list(a[1])
    if a[0] == 'bin' and a[1] == '+':
        return listof(a[2]) + listof(a[3])
    raise Unclear('not a list')


TRUE = ('id', 'true')


def entries(d):
    """[(entry, condition)] of one descriptor"""
    if d[0] != 'msg' or d[1] != DESC or [k for k, _ in d[2]] != ['entries']:
        raise Unclear('not a descriptor')
    return guarded(d[2][0][1], ())


def guarded(a, g):
    if a[0] == 'list':
        return [(x, ('and', g)) for x in a[1]]
    if a[0] == 'bin' and a[1] == '+':
        return guarded(a[2], g) + guarded(a[3], g)
    if a[0] == 'cond':
        return guarded(a[2], g + (a[1],)) + guarded(a[3], g + (('not', a[1]),))
    raise Unclear('entries that are no list')


def evaluate(a, env):
    """truth (or number) of an expression, None when it depends on anything env does not give"""
    x = env(a)
    if x is not None:
        return x
    t = a[0]
    if t == 'id':
        return {'true': True, 'false': False}.get(a[1])
    if t == 'num':
        return int(a[1].rstrip('u')) if a[1].rstrip('u').isdigit() else None
    if t in ('and', 'or'):
        r = [evaluate(x, env) for x in a[1]]
        return None if None in r else all(r) if t == 'and' else any(r)
    if t == 'not':
        x = evaluate(a[1], env)
        return None if x is None else not x
    if t == 'cond':
        c = evaluate(a[1], env)
        return None if c is None else evaluate(a[2] if c else a[3], env)
    if t == 'bin':
        x, y = evaluate(a[2], env), evaluate(a[3], env)
        if x is None or y is None:
            return None
        o = a[1]
        return {'&&': lambda: x and y, '||': lambda: x or y, '==': lambda: x == y, '!=': lambda: x != y, '>': lambda: x > y, '<': lambda: x < y, '>=': lambda: x >= y, '<=': lambda: x <= y}.get(o, lambda: None)()
    return None
