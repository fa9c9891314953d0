"""The action tasks (every Task with a predicate of its own): their abstract paths, shared by several checks."""
from .exe import *
from . import blue

REPLY = HOST + 'send_http_reply'
TEST = 'cel::Predicate::test'
EXPR = 'cel::Expression::eval'
STORE = 'context::ValueStore::store'
BIND = 'context::CelScope::add_scoped_binding'
SETATTR = 'context::ReqRespCtx::set_attribute'
GETG = 'context::ReqRespCtx::get_grpc_response_data'
HOSTW = [REPLY, HOST + 'set_attribute', HOST + 'set_attribute_map', DISPATCH]
ACTS = HOSTW + [SETATTR, STORE, BIND, 'context::Barrier::raise', 'metrics::Counter::increment', 'metrics::Counter::inc_by']
BND = {k: boundary for k in (STORE, SETATTR, BIND, GETG, 'context::Barrier::raise', 'context::Barrier::lower', 'context::CelScope::new_ctx')}


class Core:
    """one action task kind"""

    def __init__(self, ctx, h, fi, pix, extra=None, K=1, effects=()):
        self.ctx, self.p, self.h, self.fi, self.pix = ctx, ctx.p, h, fi, pix
        self.ty = ctx.p.adt(h)
        self.name = short_head(h)
        self.P = Paths(ctx, fi, effects=ACTS + [TEST, EXPR] + list(effects), extra=dict(BND, **(extra or {})), K=K, keep=task_keep(ctx.p, h), quiet_drops=('context::PathReservation',))
        self.e = self.P.e
        self.e.RECUR = max(getattr(self.e, 'RECUR', 1), 1)
        self.self_ = self.e.params(fi)[0]
        self.ctxv = ctx_param(self.e, fi)

    def states(self):
        for st in self.P.states:
            yield st, outcome(self.e, st)[0], st.events()

    def own(self, v, ix):
        """is v (a reference to) the task's own field ix (or a part of it)?"""
        x = strip(v)
        n = 0
        while x[0] == 's' and n < 8:
            k = TERMS[x[1]]
            if k[0] == 'fld':
                if k[3] == ix and strip(('s', k[1])) == strip(self.self_):
                    return True
                x = ('s', k[1])
            elif k[0] == 'deref':
                x = ('s', k[1])
            else:
                return False
            n += 1
        return False

    def own_fields(self, what):
        """fields of the task whose type is (an option of) `what`"""
        return [i for i, (n, t) in enumerate(self.p.types[self.ty]['v'][0][2]) if t is not None and what in self.p.types[t]['s'] and 'dyn ' not in self.p.types[t]['s']]


def core_tasks(ctx, extra=None, K=1, effects=(), only=None):
    p = ctx.p
    out = []
    for h, fi in task_impls(p):
        if only is not None and not only(h, fi):
            continue
        ty = p.adt(h)
        vs = p.types[ty]['v']
        pf = [i for i, (n, t) in enumerate(vs[0][2]) if t is not None and 'cel::Predicate' in p.types[t]['s']] if len(vs) == 1 else []
        if not pf:
            continue
        if len(pf) != 1:
            raise AnalysisError('%s has %d predicates' % (h, len(pf)))
        out.append(Core(ctx, h, fi, pf[0], extra, K, effects))
    return out


def reaches(ctx, *names):
    """predicate for core_tasks: the task can get to a call of one of these functions"""
    hit = {s.fi for s, path in ctx.g.calls_named(lambda path, c: matches(path, names))}
    hit |= {i for i, f in enumerate(ctx.p.fns) if f['b'] is not None and matches(f['p'], names)}
    inside = ctx.g.rreach(hit)
    return lambda h, fi: fi in inside


def verdict(e, st, ev):
    """what a predicate test / expression evaluation / attribute access said: true, false, available, pending, err, None"""
    r = ev.ret
    t = r[1] if r[0] == 's' else None
    rty = TTY.get(t)
    if rty is None:
        return None
    d = e.known(st, e.mkdisc(t, rty)[1])
    vn = None
    for n, dv, _f in e.p.types[rty]['v']:
        if d is not None and int(dv) == d:
            vn = n
    if vn == 'Err':
        return 'err'
    if vn != 'Ok':
        return None
    a = getf(r, 0, 0)
    aty = [v for v in e.p.types[rty]['v'] if v[0] == 'Ok'][0][2][0][1]
    an = variant_of(e, st, a, aty)
    if an == 'Pending':
        return 'pending'
    if an != 'Available':
        return None
    b = field(e, a, aty, 'Available', '0')
    tr = e.truth(st, b)
    if base.matches(ev.path, (TEST,)):
        return {1: 'true', 0: 'false'}.get(tr)
    return 'available'


def available(e, ev):
    """the value inside Ok(Available(value)) of an event's result"""
    r = ev.ret
    rty = TTY.get(r[1])
    vs = e.p.types[rty]['v']
    ok = [i for i, v in enumerate(vs) if v[0] == 'Ok'][0]
    a = getf(r, ok, 0)
    aty = vs[ok][2][0][1]
    if a[0] == 's':
        TTY.setdefault(a[1], aty)
    return field(e, a, aty, 'Available', '0')


def effects(evs):
    return [ev for ev in evs if ev.kind == 'call' and matches(ev.path, tuple(ACTS))]


def requeued(e, st):
    """values of the list inside a Requeued outcome, as canonical items"""
    return canon(e, st, ofield(e, st, 'Requeued', '0'))


def built_only_in(ctx, tyname, seen):
    """functions that build a value of the struct outside of the analysed set `seen` (function indices)"""
    p = ctx.p
    out = []
    for i, f in enumerate(p.fns):
        if f['b'] is None or not f['l'] or i in seen:
            continue
        for b in f['b']['bb']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and p.types[s[2][1]]['k'] == 'adt' and p.head(s[2][1]) == tyname:
                    out.append(i)
    return out


RESOLVE = 'objects::Value::resolve'
_PB = base.pure_boundary


def field_chain(t, root):
    """t is root, or a field of a field of ... of it"""
    while t != root:
        k = TERMS[t]
        if k[0] not in ('fld', 'deref'):
            return False
        t = k[1]
    return True


def eval_expression_paths(ctx):
    """abstract paths of Expression::eval; lookups in the attribute map are kept as plain unknowns"""
    fi = ctx.p.find1(EXPR)
    extra = {k: _PB for k in ('map::HashMap::get', 'map::HashMap::contains_key', 'option::Option::cloned', 'option::Option::unwrap_or', 'iterator::Iterator::filter',
                              'iterator::Iterator::map', 'iterator::Iterator::collect', 'cmp::PartialEq::ne', 'cel::is_host_property_root', 'cel::Expression::resolve_grpc', 'str::split')}
    extra['map::HashMap::insert'] = boundary
    e = base.make(ctx.p, drop=(EXPR,), opaque=make_cone(ctx.p, ctx.g, [RESOLVE, 'BodyContext::get_value', 'Context::add_variable_from_value'], limit=15).opaque, extra=extra)
    e.K, e.LOOP = 1, 5
    if ctx.tier != 'thorough':
        # only the lists kept with the expression are enumerated: every other collection is empty (its elements are
        # handed to the interpreter as variables, one by one)
        self_ = e.params(fi)[0]
        e.KOF = lambda s: e.K if field_chain(s, self_[1]) else 0
    e.MAXSTEPS *= 8
    e.MAXPATHS *= 10
    sts = e.run(fi)
    ctx.engine_stats(e)
    return e, fi, sts


def walked(e, st, s):
    """number of elements of the sequence term s the path went through to its end, None when it stopped before (a
    sequence of K elements ends there: longer ones are cut)"""
    c = 0
    k = e.klimit(s)
    while c < k and e.known(st, T('more', s, c)) == 1:
        c += 1
    return c if c >= k or e.known(st, T('more', s, c)) == 0 else None


def walked_seqs(e, st):
    """{sequence term: elements} of every sequence the path looked at to its end"""
    out = {}
    for s in {TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more'}:
        n = walked(e, st, s)
        if n is not None:
            out[s] = n
    return out


def pieces(v):
    """a string value as the list of its parts (text or value), whether it was formatted or concatenated"""
    v = strip(v)
    out = []
    k = TERMS[v[1]] if v[0] == 's' else None
    if v[0] == 'c' and isinstance(v[1], (str, int)):
        out = [str(v[1])]
    elif k is not None and k[0] == 'cat':
        out = pieces(k[1]) + pieces(k[2])
    elif k is not None and k[0] == 'format':
        out = fmt_pieces(k[1]) or [v]
    elif k is not None and k[0] == 'call' and k[1] == 'ToString::to_string':
        out = pieces(k[2][0])
    else:
        out = [v]
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif x != '':
            r.append(x)
    return r


def fmt_pieces(v):
    """parts of core::fmt::Arguments, None when one of them is not plainly displayed"""
    k = TERMS[v[1]] if v[0] == 's' else None
    if k is None or k[0] != 'fmtargs':
        return None
    args = [s[1] for s in k[2][1]] if k[2][0] == 'v' else None
    t = k[1][1] if k[1][0] == 'c' else None
    if isinstance(t, tuple) and t[0] == 'b':
        t = bytes.fromhex(t[1])
    if args is None or not isinstance(t, bytes):
        return None
    out, i, n = [], 0, 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(t[i:i + b].decode())
            i += b
        elif b == 0x80:
            ln = int.from_bytes(t[i:i + 2], 'little')
            out.append(t[i + 2:i + 2 + ln].decode())
            i += 2 + ln
        else:
            if b & 0x37:
                return None     # width, precision or flags
            if b & 8:
                n = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            a = args[n] if n < len(args) else None
            n += 1
            ak = TERMS[a[1]] if a is not None and a[0] == 's' else None
            if ak is None or ak[0] != 'fmtarg' or ak[1] != 'display':
                return None
            out += pieces(ak[2])
    return None
