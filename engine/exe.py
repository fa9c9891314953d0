"""The pipeline executor: what one evaluation round / one reply does on each abstract path."""
from .pipe import *
from . import base

APPLY = 'tasks::Task::apply'
TEAR = 'tasks::TeardownAction::execute'
SETG = 'context::ReqRespCtx::set_grpc_response_data'
EVAL = 'executor::Pipeline::eval'
EFF = ['context::Barrier::raise', 'context::Barrier::lower', DISPATCH, APPLY, TEAR, SETG, 'cel::Predicate::test', 'cel::Expression::eval']
EXTRA = {'context::Barrier::raise': boundary, 'context::Barrier::lower': boundary, SETG: boundary}

ROLES = {
    'task_queue': lambda s: 'dyn ' in s and s.endswith('tasks::Task>>') and 'Map' not in s,
    'deferred_tasks': lambda s: 'Map<u32' in s and 'tasks::Task>' in s,
    'completed_tasks': lambda s: 'Set<std::string::String' in s or 'Set<alloc::string::String' in s,
    'teardown_tasks': lambda s: 'TeardownAction>' in s,
    'terminated': lambda s: s == 'bool',
    'ctx': lambda s: s.endswith('ReqRespCtx'),
}


class Exec:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        p = ctx.p
        self.pt = p.adt('executor::Pipeline')
        self.ix = {}
        fs = p.types[self.pt]['v'][0][2]
        for role, pred in ROLES.items():
            hit = [i for i, (n, t) in enumerate(fs) if t is not None and pred(p.types[t]['s'])]
            if len(hit) != 1:
                hit = [i for i, (n, t) in enumerate(fs) if n == role]
            if len(hit) != 1:
                raise AnalysisError('pipeline field not found: ' + role)
            self.ix[role] = hit[0]

    def f(self, v, role):
        return getf(v, 0, self.ix[role])

    def eval_paths(self, K):
        ei = self.p.find1(EVAL)
        e = make_cone(self.p, self.ctx.g, EFF, EXTRA)
        q = self.f(e.params(ei)[0], 'task_queue')[1]
        # three queued tasks are explored with one element of every other collection
        e.KOF = lambda s: e.K if s == q or e.K < 3 else 1
        P = Paths(self.ctx, ei, e, K=K)
        return P, P.e.params(ei)[0]

    def digest_paths(self):
        di = self.p.find1('executor::Pipeline::digest')
        P = Paths(self.ctx, di, effects=EFF, extra=dict(EXTRA, **{EVAL: boundary}))
        return P, P.e.params(di)


def strip(x):
    """the thing itself, without reference/box/deref layers"""
    while True:
        if x[0] == '&':
            x = x[1]
        elif x[0] == 's' and TERMS[x[1]][0] == 'deref':
            x = ('s', TERMS[x[1]][1])
        else:
            return x


def eta(p, v):
    """a struct rebuilt field by field from one value (a derived clone) is that value"""
    v = strip(v)
    if v[0] != 'a' or v[3] is not None or v[1] is None or not v[4]:
        return v
    ty = p.types[v[1]]
    if ty['k'] == 'tup':
        if len(v[4]) != len(ty.get('ts') or ()):
            return v
    elif ty['k'] != 'adt' or len(ty['v']) != 1 or len(v[4]) != len(ty['v'][0][2]):
        return v
    base_t = None
    for i, x in v[4]:
        x = eta(p, x)
        if x[0] != 's' or TERMS[x[1]][0] != 'fld' or TERMS[x[1]][3] != i:
            return v
        b = TERMS[x[1]][1]
        if base_t not in (None, b):
            return v
        base_t = b
    return ('s', base_t)


def elem_no(v, seq):
    """i when v is (a reference to) element i of the symbolic sequence `seq`"""
    v = strip(v)
    if v[0] == 's':
        k = TERMS[v[1]]
        if k[0] == 'elem' and ('s', k[1]) == seq:
            return k[2]
    return None


def more(st, seq, n):
    """is there an element n of the symbolic sequence? (None: the path never looked)"""
    t = TIX_get(('more', seq[1], n))
    if t is None:
        return None
    f = st.facts.get(t)
    return f[1] if f is not None and f[0] == '=' else None


def TIX_get(k):
    # do not create terms just to look them up
    return TIX.get(k)


def count(st, seq):
    """number of elements the path established; (n, exhausted)"""
    n = 0
    while more(st, seq, n) == 1:
        n += 1
    return n, more(st, seq, n) == 0


def outcome_of(e, st, ev):
    return variant_of(e, st, ev.ret, outcome_type(e.p))


def payload(e, ev, variant, name):
    return field(e, ev.ret, outcome_type(e.p), variant, name)


def dup_token(e, st):
    """the path assumes that the host handed out a token twice"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if f != ('=', 1):
            continue
        if k[0] == 'eq' and token_like(k[1]) and token_like(k[2]):
            return True
        if k[0] == 'haskey' and token_like(k[2]):
            return True
    return False


def token_like(v):
    """a token that came out of a dispatch"""
    v = strip(v)
    if v[0] != 's':
        return False
    k = TERMS[v[1]]
    if k[0] == 'key':
        return True
    if k[0] == 'fld':
        b = TERMS[k[1]]
        return b[0] == 'call' and matches(b[1], (APPLY, TEAR))
    return False


def seq_is(e, st, v, want):
    """is the abstract sequence exactly `want` (list of values or ('all', seq))? """
    if len(want) == 1 and want[0][0] == 'all':
        return v == want[0][1]
    out = []
    if v[0] == 's':
        n, ex = count(st, v)
        if not ex:
            return False
        out = [sym('elem', v[1], i) for i in range(n)]
    elif v[0] == 'v':
        for s in v[1]:
            if s[0] == 'e':
                out.append(s[1])
            else:
                out.append(s)
    else:
        return False
    return [unref(e, st, x) for x in out] == [unref(e, st, x) for x in want]


def unref(e, st, x):
    if x and x[0] in ('r', '&', 's', 'a'):
        return strip(e.snap(st, x))
    return x


def is_empty(e, st, v):
    """1/0/None"""
    if v[0] == 'v':
        if any(s[0] == 'e' for s in v[1]):
            return 0
        if not v[1]:
            return 1
        return None
    if v[0] == 'm':
        if any(s[0] == 'kv' for s in v[1]):
            return 0
        if not v[1]:
            return 1
        rs = []
        for s in v[1]:
            t = TIX_get(('more', s[1], s[2])) or T('more', s[1], s[2])
            rs.append(e.known(st, t))
        if any(r == 1 for r in rs):
            return 0
        return 1 if all(r == 0 for r in rs) else None
    if v[0] == 's':
        m = e.known(st, T('more', v[1], 0))
        return None if m is None else 1 - m
    return None


def canon(e, st, v):
    """an abstract sequence as a list of whole symbolic sequences ('all', t) and single elements"""
    from .models import as_list
    out = []
    segs = list(as_list(v))
    i = 0
    while i < len(segs):
        s = segs[i]
        if s[0] == 'rest':
            if s[2] == 0:
                out.append(('all', s[1]))
            else:
                out.append(('rest',) + tuple(s[1:3]))
            i += 1
            continue
        x = eta(e.p, unref(e, st, s[1]))
        k = TERMS[x[1]] if x[0] == 's' else ('',)
        if k[0] == 'elem' and k[2] == 0:
            t, n = k[1], 1
            while i + n < len(segs) and segs[i + n][0] == 'e' and eta(e.p, unref(e, st, segs[i + n][1])) == sym('elem', t, n):
                n += 1
            if i + n < len(segs) and segs[i + n][0] == 'rest' and segs[i + n][1] == t and segs[i + n][2] == n:
                out.append(('all', t))
                i += n + 1
                continue
            if more(st, ('s', t), n) == 0 or n >= e.klimit(t):      # k-limited enumeration
                out.append(('all', t))
                i += n
                continue
        out.append(x)
        i += 1
    # sequences known to be empty contribute nothing
    return [o for o in out if not (o[0] == 'all' and more(st, ('s', o[1]), 0) == 0)]
