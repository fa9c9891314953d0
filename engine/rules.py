"""Helpers shared by the property checks."""
from .core import *
from . import base

TASK = 'kuadrant::pipeline::tasks::Task'
PIPE_EFFECTS = ['context::Barrier::raise', 'context::Barrier::lower', 'resolver::AttributeResolver::dispatch_grpc_call',
                'resolver::AttributeResolver::send_http_reply', 'resolver::AttributeResolver::set_attribute',
                'resolver::AttributeResolver::set_attribute_map',
                'tasks::Task::apply', 'metrics::Counter::increment', 'metrics::Counter::inc_by', 'cel::Predicate::test',
                'cel::Expression::eval', 'context::CelScope::add_scoped_binding', 'context::CelScope::new_ctx',
                'context::ReqRespCtx::get_grpc_response_data', 'context::ReqRespCtx::set_grpc_response_data']


def task_impls(p, method='apply'):
    return [(h, i) for h, i in p.trait_impls('pipeline::tasks::Task', method)]


def short_head(h):
    return h.split('::')[-1]


def outcome_type(p):
    return p.adt('tasks::TaskOutcome')


def variant_of(e, st, v, ty):
    """name of the variant of an abstract enum value, or None if open"""
    t = e.p.types[ty]
    if v[0] == 'a' and v[2] is not None and v[3] is None:
        return t['v'][v[2]][0]
    d = e.disc(st, v, ty)
    if d[0] == 'c':
        for n, dv, _f in t['v']:
            if int(dv) == d[1]:
                return n
    if d[0] == 's':
        k = e.known(st, d[1])
        if k is not None:
            for n, dv, _f in t['v']:
                if int(dv) == k:
                    return n
    return None


def possible_variants(e, st, v, ty):
    """names of the variants the value may still have"""
    n = variant_of(e, st, v, ty)
    t = e.p.types[ty]
    if n is not None:
        return [n]
    d = e.disc(st, v, ty)
    out = []
    f = st.facts.get(d[1]) if d[0] == 's' else None
    for nm, dv, _f in t['v']:
        if f is not None and f[0] == '!' and int(dv) in f[1]:
            continue
        out.append(nm)
    return out


def field(e, v, ty, variant, name):
    """field `name` of variant `variant` of an abstract adt value"""
    t = e.p.types[ty]
    for vi, (vn, _d, fs) in enumerate(t['v']):
        if vn == variant or variant is None:
            for i, (fn, ft) in enumerate(fs):
                if fn == name:
                    r = getf(v, vi, i)
                    if r[0] == 's' and ft is not None:
                        TTY.setdefault(r[1], ft)
                    return r
    raise AnalysisError('no field %s in %s::%s' % (name, t['s'], variant))


def calls(evs, *names):
    return [e for e in evs if e.kind == 'call' and any(base.matches(e.path, (n,)) for n in names)]


def deref(e, st, v, n=4):
    """follow pointers to the value"""
    while n and v[0] == 'r':
        v = e.load(st, v[1], v[2])
        n -= 1
    return v


def unbox(e, st, v):
    """value behind a Box: pointer cells or symbolic box"""
    if v[0] == 'r':
        return e.load(st, v[1], v[2])
    if v[0] == 's':
        return e.deref(st, v)
    return v


def fname(p, i):
    return p.short(p.fns[i]['p'])


def trace_text(e, st, limit=14):
    out = []
    for ev in st.events()[-limit:]:
        out.append('    %s %s [%s]' % (ev.kind, e.p.short(ev.path), e.p.where(ev.site, ev.line) if ev.site is not None else ''))
    return '\n'.join(out)


def known_true(e, st, v):
    return e.truth(st, v) == 1


def mentions(v, pred, d=12):
    """does a snapshot value mention a term satisfying pred(term tuple)?"""
    if not isinstance(v, tuple) or d == 0:
        return False
    if v and v[0] == 's' and len(v) == 2 and isinstance(v[1], int):
        return term_mentions(v[1], pred, d - 1)
    return any(mentions(x, pred, d - 1) for x in v if isinstance(x, tuple))


_tm = {}


def term_mentions(t, pred, d=12):
    if d == 0:
        return False
    k = TERMS[t]
    if pred(k):
        return True
    for i, x in enumerate(k[1:]):
        if isinstance(x, tuple):
            if mentions(x, pred, d - 1):
                return True
        elif isinstance(x, int) and not isinstance(x, bool) and k[0] in ('fld', 'deref', 'disc', 'not', 'elem', 'idx', 'more', 'without', 'mapget', 'cast', 'sgv', 'mvv'):
            if i == 0 or (k[0] == 'cast' and i == 2):
                if term_mentions(x, pred, d - 1):
                    return True
    return False
