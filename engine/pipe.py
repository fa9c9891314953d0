"""The pipeline as the checks see it: every Task::apply and what becomes of its result."""
from .rules import *
from .base import make_cone, boundary, matches

HOST = 'resolver::AttributeResolver::'
DISPATCH = HOST + 'dispatch_grpc_call'


class Paths:
    """abstract paths of one function"""

    def __init__(self, ctx, fi, e=None, args=None, effects=PIPE_EFFECTS, extra=None, keep=(), K=None, st=None, drop=(), limit=40, quiet_drops=()):
        self.ctx, self.p, self.fi = ctx, ctx.p, fi
        self.e = e or make_cone(ctx.p, ctx.g, effects, extra, limit, keep, drop)
        self.e.quiet_drops = quiet_drops
        if K:
            self.e.K = K
        if ctx.tier == 'thorough':
            self.e.K += 1
            self.e.LOOP += 1
            self.e.MAXSTEPS *= 10
            self.e.MAXPATHS *= 10
        self.name = fname(ctx.p, fi)
        self.states = self.e.run(fi, args, st)
        ctx.engine_stats(self.e)


def invoke(e, st, fv, args, argtys=None):
    """continue a finished abstract state by calling the callable value `fv`; only the new events are
    kept in the trace"""
    s2 = st.fork()
    s2.trace = None
    s2.result = None
    e.MAXSTEPS = max(e.MAXSTEPS, e.stats['steps'] + e.STEPS)        # a budget per question

    def gen(fv, args):
        r = yield ('callv', fv, args)
        return r
    e.push_native(s2, gen, (fv, tuple(args)), None, None, 'invoke')
    return e.explore([s2])


def invoke_method(e, st, ck, args, argtys=None, dt=None):
    s2 = st.fork()
    s2.trace = None
    s2.result = None
    e.MAXSTEPS = max(e.MAXSTEPS, e.stats['steps'] + e.STEPS)        # a budget per question

    def gen(ck, args):
        r = yield ('callk', ck, args, dt, argtys)
        return r
    e.push_native(s2, gen, (ck, tuple(args)), None, None, 'invoke')
    return e.explore([s2])


def run_task(e, st, task, ctxv):
    """continue by `task.apply(ctx)` for a boxed task value"""
    t = e.p
    name = next(f['ti'] for f in t.fns if f.get('ti') and f['ti'].endswith('tasks::Task::apply'))
    return invoke_method(e, st, ('virt', name, name, ()), [task, ctxv])


def task_fact(e, st, task, method):
    """value of a zero argument Task method (id, is_guard, dependencies) on a boxed task value:
    [(state, value)]"""
    name = next(f['ti'] for f in e.p.fns if f.get('ti') and f['ti'].endswith('tasks::Task::' + method))
    return [(s, s.result) for s in invoke_method(e, st, ('virt', name, name, ()), [task])]


def task_keep(p, head):
    """tasks that wrap another task are analysed together with all of their helpers"""
    ty = p.adt(head)
    w = any(t is not None and 'dyn ' in p.types[t]['s'] and 'tasks::Task' in p.types[t]['s'] for v in p.types[ty]['v'] for _n, t in v[2])
    return ('pipeline::tasks::*',) if w else ()


def outcome(e, st, v=None):
    ty = outcome_type(e.p)
    v = st.result if v is None else v
    return variant_of(e, st, v, ty), ty


def ofield(e, st, variant, name, v=None):
    ty = outcome_type(e.p)
    return field(e, st.result if v is None else v, ty, variant, name)


def find_ti(p, suffix):
    for f in p.fns:
        if f.get('ti') and f['ti'].endswith(suffix):
            return f['ti']
    raise AnalysisError('trait method not found: ' + suffix)


def concrete_ty(e, st, v):
    """type head of the value behind a box (None when opaque)"""
    x = deref(e, st, v)
    if x[0] == 's' and TTY.get(x[1]) is not None and e.p.types[TTY[x[1]]].get('box'):
        x = e.deref(st, x)
    if x[0] == 'a' and x[1] is not None:
        return e.p.head(x[1])
    if x[0] == 's' and TTY.get(x[1]) is not None:
        return e.p.head(TTY[x[1]])
    return None


def ctx_param(e, fi):
    """the `&mut ReqRespCtx` argument of an apply-like function"""
    for v in e.params(fi):
        ty = TTY.get(v[1])
        if ty is not None and e.p.head(ty).endswith('ReqRespCtx'):
            return v
    raise AnalysisError('no context parameter in ' + e.p.fns[fi]['p'])


def same_ctx(e, st, v, ctxv):
    return e.deref_loc(st, v) == e.deref_loc(st, ctxv) or e.snap(st, v) == e.snap(st, ctxv)
