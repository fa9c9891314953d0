"""Configuration -> Blueprint -> tasks, as abstract paths shared by several checks."""
from .pipe import *

TO_TASKS_BOUND = {k: boundary for k in (
    'context::ReqRespCtx::enter_request_span', 'context::ReqRespCtx::request_id', 'context::ReqRespCtx::set_public_tracker_id',
    'blueprint::Action::collect_body_values', 'context::ValueStore::reserve', 'store::StoreTask::initial_body_state', 'dynamic::DynamicTask::warm')}
TO_TASKS_EFF = ['dynamic::DynamicTask::new_with_attributes', 'failure_mode::FailureModeTask::new', 'tracing_decorator::TracingDecoratorTask::new',
                'export_traces::ExportTracesTask::new', 'store::StoreTask::new', 'services::ServiceInstance::failure_mode']
COMPILE_EFF = ['cel::Predicate::new', 'cel::Expression::new']
TRANSLATE = ('configuration::translate_legacy_auth_to_typed', 'configuration::translate_legacy_ratelimit_to_typed',
             'configuration::translate_legacy_report_to_typed')


def unknown_bool(e, st, c):
    st.uid += 1
    c.give(sym('unknown', 'any', st.uid))


def to_tasks_paths(ctx, K=1, extra=None, name='blueprint::Blueprint::to_tasks', any_unknown=True):
    fi = ctx.p.find1(name)
    e = make_cone(ctx.p, ctx.g, TO_TASKS_EFF, dict(TO_TASKS_BOUND, **(extra or {})))
    e.K, e.RECUR = K, 1
    if any_unknown:
        # `does any (other) action enable tracing` is independent of the k-limited action: both answers
        e.models['core::iter::traits::iterator::Iterator::any'] = unknown_bool
        e.trait_models['core::iter::traits::iterator::Iterator::any'] = unknown_bool
    if ctx.tier == 'thorough':
        e.K += 1
        e.MAXSTEPS *= 20
        e.MAXPATHS *= 20
    P = Paths.__new__(Paths)
    P.ctx, P.p, P.fi, P.e, P.name = ctx, ctx.p, fi, e, fname(ctx.p, fi)
    P.states = e.run(fi)
    ctx.engine_stats(e)
    return P


def compile_paths(ctx, K=1, extra=None, name='blueprint::Blueprint::compile', keep=()):
    fi = ctx.p.find1(name)
    e = make_cone(ctx.p, ctx.g, COMPILE_EFF, dict({k: base.pure_boundary for k in TRANSLATE}, **(extra or {})), keep=keep)
    e.K, e.RECUR = K, 1
    if ctx.tier == 'thorough':
        e.MAXSTEPS *= 20
        e.MAXPATHS *= 20
    P = Paths.__new__(Paths)
    P.ctx, P.p, P.fi, P.e, P.name = ctx, ctx.p, fi, e, fname(ctx.p, fi)
    P.states = e.run(fi)
    ctx.engine_stats(e)
    return P


def elems(v):
    """the known elements of an abstract sequence"""
    if v[0] == 'v':
        return [s[1] for s in v[1] if s[0] == 'e']
    return []


def inner_aggs(e, st, v, pred, d=8, out=None):
    """(path of fields) -> every concrete aggregate below v whose type head satisfies pred"""
    out = [] if out is None else out
    if d == 0:
        return out
    x = v
    n = 0
    while x[0] == 'r' and n < 4:
        x = e.load(st, x[1], x[2])
        n += 1
    if x[0] == 'a':
        ty = x[1] if x[1] is not None else (TTY.get(x[3]) if x[3] is not None else None)
        if ty is not None and pred(e.p.head(ty)):
            out.append(x)
        for _i, y in x[4]:
            inner_aggs(e, st, y, pred, d - 1, out)
    elif x[0] == 'v':
        for s in x[1]:
            if s[0] == 'e':
                inner_aggs(e, st, s[1], pred, d - 1, out)
    return out


def owner(v, tyname, p):
    """term of the innermost struct of type `tyname` that v is a field of"""
    t = v[1] if v[0] == 's' else None
    n = 0
    while t is not None and n < 12:
        k = TERMS[t]
        if k[0] in ('fld', 'deref'):
            b = k[1]
            ty = TTY.get(b)
            if ty is not None and p.is_adt(ty, tyname):
                return b
            t = b
            n += 1
            continue
        return None
    return None


def root_elem(v):
    """innermost collection element term the value was read from"""
    t = v[1] if v[0] == 's' else None
    while t is not None:
        k = TERMS[t]
        if k[0] in ('elem', 'key', 'val', 'mapget'):
            return t
        if k[0] in ('fld', 'deref', 'cast', 'not') and isinstance(k[1], int):
            t = k[3] if k[0] == 'cast' else k[1]
            continue
        return None
    return None


class Flow:
    """how configuration fields travel into compiled actions and from there into tasks, read off the abstract
    results of Blueprint::compile and Blueprint::to_tasks (no private field names involved)"""

    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        p = self.p
        self.act = p.adt('blueprint::Action')
        self.C = compile_paths(ctx)
        self.B = to_tasks_paths(ctx)
        self.compiled = []      # (state, action value)
        bp = p.adt('blueprint::Blueprint')
        aix = [i for i, (n, t) in enumerate(p.types[bp]['v'][0][2]) if t is not None and 'blueprint::Action>' in p.types[t]['s']]
        self.actions_ix = aix[0]
        rty = p.types[p.fns[self.C.fi]['b']['ls'][0][0]]
        for st in self.C.states:
            if st.result[0] != 'a' or rty['v'][st.result[2]][0] != 'Ok':
                continue
            b = getf(st.result, st.result[2], 0)
            for a in elems(getf(b, 0, self.actions_ix)):
                self.compiled.append((st, a))
                self._nested(st, a)
        self.tasks = []         # (state, outer task value, [inner task aggregates])
        for st in self.B.states:
            for t in elems(getf(st.result, 0, 0)):
                self.tasks.append((st, t, inner_aggs(self.B.e, st, t, lambda h: '::tasks::' in h and h.endswith('Task'))))

    def _nested(self, st, a):
        for x in inner_aggs(self.C.e, st, getf(a, 0, self.action_op()), lambda h: h.endswith('blueprint::Action')):
            self.compiled.append((st, x))

    def action_op(self):
        return [i for i, (n, t) in enumerate(self.p.types[self.act]['v'][0][2]) if t is not None and self.p.types[t]['s'].endswith('blueprint::Operation')][0]

    def action_ix(self, cfg):
        """index of the Action field that carries TypedAction.<cfg>"""
        p = self.p
        ta = p.adt('configuration::TypedAction')
        fx = p.field_ix(ta, cfg)
        got = set()
        for st, a in self.compiled:
            for i, v in a[4]:
                if v[0] == 's' and TERMS[v[1]][0] == 'fld' and TERMS[v[1]][3] == fx and p.is_adt(TTY.get(TERMS[v[1]][1]), 'TypedAction'):
                    got.add(i)
        return got

    def task_ix(self, ai, sub=()):
        """{task type: indices of its fields that carry Action field `ai`}"""
        out = {}
        for st, t, inner in self.tasks:
            for a in inner:
                for i, v in a[4]:
                    if v[0] == 's' and TERMS[v[1]][0] == 'fld' and TERMS[v[1]][3] == ai:
                        if TERMS[TERMS[v[1]][1]][0] == 'elem':
                            out.setdefault(self.p.head(a[1]), set()).add(i)
        return out


def flow(ctx):
    if not hasattr(ctx, '_flow'):
        ctx._flow = Flow(ctx)
    return ctx._flow
