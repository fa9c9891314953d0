"""C27: sequential actions wait for everything before them, parallel ones for the fence."""
from engine.acts import *
from engine.base import pure_boundary
from engine import base, blue
from . import c11, c23
from .c01 import run_all

EXPLANATION = '''An action waits through the identifiers its task lists as dependencies (C04: a task runs once all of them are completed).
What an action set compiles to is read off the abstract result of Blueprint::compile for every list of (at most k) actions of every kind and execution mode, the compilation of a single action being a boundary: the k-th action's list of dependencies must be exactly the one the execution modes before it ask for.
The list is then followed into the task built for every kind of action, and through Task::dependencies of that task and of every wrapper around it. Follow-ups with an execution mode are rejected on every accepting path.'''

DEPS = 'tasks::Task::dependencies'


def check(ctx):
    ctx.rule('the dependencies of the i-th action of a set: sequential: the last sequential action before it and everything after that; parallel: the last sequential action before it; legacy: its predecessor')
    ctx.rule('compiling one action keeps its identifier and (legacy) the dependencies given to it; follow-ups depend on nothing')
    ctx.rule('the task of an action, of any kind, wrapped or not, reports exactly the dependencies of the action')
    ctx.rule('an action is accepted only when none of its follow-ups sets an execution mode')
    act = ctx.p.adt('blueprint::Action')
    one = c23.compilers(ctx.p)
    ix = sets(ctx, act, one)
    single(ctx, act, one, ix)
    tasks(ctx, act, ix)
    follow_ups(ctx, one)


def variant(p, st, t, ty):
    """name of the variant of the term a path decided on"""
    f = st.facts.get(TIX.get(('disc', t), -1))
    vs = p.types[ty]['v']
    if f is None:
        return None
    if f[0] == '=':
        return vs[f[1]][0]
    left = [v[0] for i, v in enumerate(vs) if i not in f[1]]
    return left[0] if len(left) == 1 else None


def under(t, el):
    n = 0
    while n < 12:
        if t == el:
            return True
        k = TERMS[t]
        if k[0] not in ('fld', 'deref'):
            return False
        t = k[1]
        n += 1
    return False


def execution(p, st, el):
    """execution mode a path knows for the typed action at (or below) the term"""
    ty = p.adt('configuration::Execution')
    fx = p.field_ix(p.adt('configuration::TypedAction'), 'execution')
    for t in st.facts:
        k = TERMS[t]
        if k[0] == 'disc' and TERMS[k[1]][0] == 'fld' and TERMS[k[1]][3] == fx and TTY.get(k[1]) == ty and under(k[1], el):
            return variant(p, st, k[1], ty)
        if k[0] == 'eq':
            a, b = strip(k[1]), strip(k[2])
            if a[0] != 'a':
                a, b = b, a
            if a[0] == 'a' and a[1] == ty and b[0] == 's' and TERMS[b[1]][0] == 'fld' and TERMS[b[1]][3] == fx and under(b[1], el):
                if st.facts[t] == ('=', 1):
                    return p.types[ty]['v'][a[2]][0]
                if st.facts[t] == ('=', 0):
                    left = [v[0] for i, v in enumerate(p.types[ty]['v']) if i != a[2]]
                    return left[0] if len(left) == 1 else None
    return None


def call_of(e, st, a):
    """the call of the compiler of a single action the value comes from"""
    a = strip(a)
    t = a[3] if a[0] == 'a' else a[1] if a[0] == 's' else None
    if a[0] == 'a' and t is None:
        # rebuilt around some of its fields
        got = {TERMS[strip(x)[1]][1] for _i, x in a[4] if strip(x)[0] == 's' and TERMS[strip(x)[1]][0] == 'fld'}
        t = got.pop() if len(got) == 1 else None
    while t is not None and TERMS[t][0] in ('fld', 'deref'):
        t = TERMS[t][1]
    return TERMS[t] if t is not None and TERMS[t][0] == 'call' else None


def texts(v):
    """the texts of a list known element by element"""
    v = strip(v)
    if v[0] != 'v' or any(s[0] != 'e' for s in v[1]):
        return None
    out = []
    for s in v[1]:
        x = strip(s[1])
        if x[0] != 'c' or not isinstance(x[1], str):
            return None
        out.append(x[1])
    return out


def sets(ctx, act, one):
    p = ctx.p
    fi = p.find1('blueprint::Blueprint::compile')
    where = p.where(fi)
    ops = {k: pure_boundary for k in tuple(COMPILE) + tuple(p.fns[i]['p'] for i in one)}
    e = base.make(p, ops)
    k = 4 if ctx.tier == 'thorough' else 3
    cty = p.adt('configuration::ActionConfig')
    e.K, e.LOOP = k, k + 2
    e.KOF = lambda s: k if TTY.get(s) is not None and 'ActionConfig' in p.types[TTY[s]]['s'] and 'Vec' in p.types[TTY[s]]['s'] or any(x in (p.types[TTY[s]]['s'] if TTY.get(s) is not None else '') for x in ('[kuadrant_filter::configuration::ActionConfig]', '[configuration::ActionConfig]')) else 0
    e.MAXSTEPS *= 4
    idp = c11_id(p, act)
    cand = [i for i, (n, t) in enumerate(p.types[act]['v'][0][2]) if t is not None and p.types[t]['s'] in ('std::vec::Vec<std::string::String>', 'alloc::vec::Vec<alloc::string::String>')]
    got, n = {}, {}
    rows = []
    for st in run_all(ctx, e, fi):
        r = st.result
        if r[0] != 'a' or r[2] != 0:
            continue
        b = e.snap(st, getf(r, 0, 0))
        bt = p.types[p.adt('blueprint::Blueprint')]
        aix = [i for i, (_n, t) in enumerate(bt['v'][0][2]) if t is not None and 'blueprint::Action>' in p.types[t]['s']][0]
        lst = getf(b, 0, aix)
        cfg = next((TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more' and e.KOF(TERMS[t][1])), None)
        if not ctx.oblige(lst[0] == 'v' and all(s[0] == 'e' for s in lst[1]) and cfg is not None, 'actions unclear', '%s: the actions of an accepted set are not known one by one: %s\n%s' % (where, e.show(lst, 4), trace_text(e, st))):
            continue
        m = 0
        while st.facts.get(TIX.get(('more', cfg, m), -1)) == ('=', 1):
            m += 1
        if not ctx.oblige(len(lst[1]) == m, 'actions lost', '%s: %d of %d configured actions are compiled\n%s' % (where, len(lst[1]), m, trace_text(e, st))):
            continue
        fence, since, prev, ids = [], [], None, []
        for i, s in enumerate(lst[1]):
            a = s[1]
            el = TIX[('elem', cfg, i)]
            kind = variant(p, st, el, cty)
            c = call_of(e, st, a)
            args = [e.snap(st, x) for x in c[2]] if c else []
            mine = [j for j, x in enumerate(args) if strip(x)[0] == 's' and under(strip(x)[1], el)]
            ident = [strip(x)[1] for x in args if strip(x)[0] == 'c' and isinstance(strip(x)[1], str)]
            if not ctx.oblige(kind is not None and bool(mine) and len(ident) == 1 and ident[0] not in ids, 'action without an identifier of its own', '%s: action %d is %s: no identifier of its own is given to it\n%s' % (where, i, e.show(a, 6), trace_text(e, st))):
                break
            mode = execution(p, st, el) if kind == 'Typed' else None
            if kind == 'Typed' and mode is None:
                ctx.oblige(False, 'execution mode ignored', '%s: the execution mode of a typed action is not looked at\n%s' % (where, trace_text(e, st)))
                break
            if kind == 'Legacy':
                want = [prev] if prev is not None else []
                have = [x for x in args if strip(x)[0] == 'v' or strip(x)[0] == 's' and 'Vec<std::string::String>' in str(p.types[TTY[strip(x)[1]]]['s'] if TTY.get(strip(x)[1]) is not None else '')]
                have = [texts(x) for x in have]
                have = have[:1] if have and have[0] is not None else [x for x in have if x is not None][:1]
            else:
                want = fence + since if mode == 'Sequential' else list(fence)
                have = []
                for j in cand:
                    if strip(a)[0] == 'a':
                        x = [y for q, y in strip(a)[4] if q == j]
                        if x and strip(x[0])[0] in ('v',):
                            have.append(texts(x[0]))
                            got[j] = got.get(j, 0) + 1
            n[kind if kind == 'Legacy' else mode] = n.get(kind if kind == 'Legacy' else mode, 0) + 1
            rows.append((kind, mode))
            ctx.oblige(len(have) == 1 and have[0] is not None and sorted(set(have[0])) == sorted(want), 'dependencies of a %s action' % (kind if kind == 'Legacy' else mode).lower(), '%s: action %d of a set waits for %s, its %s execution after %s asks for %s\n%s' % (
                where, i, have[0] if have else 'something unknown', (kind if kind == 'Legacy' else mode).lower(), [x for x in rows[len(rows) - i - 1:-1]], want, trace_text(e, st)))
            if mode == 'Sequential':
                fence, since = [ident[0]], []
            else:
                since = since + [ident[0]]
            prev = ident[0]
            ids.append(ident[0])
    for q in ('Legacy', 'Sequential', 'Parallel'):
        ctx.floor('ordered: ' + q, n.get(q, 0), 20)
    if len(got) != 1:
        raise AnalysisError('the dependencies of a compiled action are not in one field: %s' % sorted(got))
    ctx.cov['functions_analysed'].add(p.fns[fi]['p'])
    return (idp, next(iter(got)))


COMPILE = blue.COMPILE_EFF


def c11_id(p, act):
    hit = [i for i, (n, t) in enumerate(p.types[act]['v'][0][2]) if t is not None and p.types[t]['s'] in ('std::string::String', 'alloc::string::String')]
    if len(hit) != 1:
        hit = [p.field_ix(act, 'id')]
    return hit[0]


def single(ctx, act, one, ix):
    """the compilation of a single action"""
    p = ctx.p
    idx, dix = ix
    n = 0
    for fi, typed in sorted(one.items()):
        where = p.where(fi)
        extra = {k: pure_boundary for k in tuple(COMPILE) + blue.TRANSLATE}
        if not typed:
            extra.update({p.fns[i]['p']: pure_boundary for i, t in one.items() if t})
        e = base.make(p, extra)
        e.K, e.RECUR = 1, 1
        ps = e.params(fi)
        strs = [j for j in range(len(ps)) if p.types[p.fns[fi]['b']['ls'][1 + j][0]]['s'] in ('std::string::String', 'alloc::string::String')]
        lists = [j for j in range(len(ps)) if p.types[p.fns[fi]['b']['ls'][1 + j][0]]['s'] in ('std::vec::Vec<std::string::String>', 'alloc::vec::Vec<alloc::string::String>')]
        for st in run_all(ctx, e, fi):
            r = st.result
            if r[0] != 'a' or r[2] != 0:
                continue
            n += 1
            a = e.snap(st, getf(r, 0, 0))
            d = strip(getf(a, 0, dix))
            if lists:
                if d[0] == 'v':
                    # what the typed action had before: nothing (below)
                    left = [q for q in d[1] if not (q[0] == 'rest' and TERMS[q[1]][0] == 'fld' and TERMS[q[1]][3] == dix and call_of(e, st, ('s', q[1])) is not None)]
                    d = next((strip(ps[j]) for j in lists if same_list(st, left, strip(ps[j])[1], e.K)), d)
                ctx.oblige(any(d == strip(ps[j]) for j in lists), 'given dependencies lost', '%s: an action is compiled with %s instead of the dependencies given\n%s' % (where, e.show(d, 5), trace_text(e, st)))
            else:
                ctx.oblige(d == ('v', ()), 'dependencies of its own', '%s: an action is compiled with dependencies of its own: %s\n%s' % (where, e.show(d, 5), trace_text(e, st)))
            i = strip(getf(a, 0, idx))
            c = call_of(e, st, a)
            ok_ = any(i == strip(ps[j]) for j in strs) or c is not None and any(strip(x) == strip(ps[j]) for x in c[2] for j in strs)
            ctx.oblige(ok_, 'identifier lost', '%s: an action is compiled under the identifier %s instead of the given one\n%s' % (where, e.show(i, 5), trace_text(e, st)))
    ctx.floor('single actions compiled', n, 20)


def same_list(st, segs, t, k):
    """the segments are the whole list t, in order"""
    i = 0
    for s in segs:
        if s[0] == 'rest':
            return s[1] == t and s[2] == i and s is segs[-1]
        x = strip(s[1])
        if x != ('s', TIX.get(('elem', t, i), -1)):
            return False
        i += 1
    f = st.facts.get(TIX.get(('more', t, i), -1))
    return f == ('=', 0) or f is None and i >= k


# -- tasks -------------------------------------------------------------------------------------------

def reports(ctx):
    """{task type: ('own', field) | ('inner', field) | ('none',)}: what its dependencies() reports"""
    p = ctx.p
    out = {}
    for h, _fi in task_impls(p):
        ms = [i for i, f in enumerate(p.fns) if f['b'] is not None and (f.get('ti') or '').endswith(DEPS) and head_of(p, i) == h]
        if not ms:
            out[h] = ('none',)
            continue
        e = base.make(p, {})
        got = set()
        self_ = strip(e.params(ms[0])[0])
        for st in run_all(ctx, e, ms[0]):
            got.add(what(p, e, st, e.snap(st, st.result), self_[1]))
        out[h] = got.pop() if len(got) == 1 else ('unclear',)
    return out


def head_of(p, i):
    t = p.fns[i]['b']['ls'][1][0]
    while p.types[t]['k'] == 'ref' or p.types[t].get('box'):
        t = p.types[t]['t'] if p.types[t]['k'] == 'ref' else p.types[t]['a'][0]
    return p.head(t)


def what(p, e, st, v, self_):
    v = strip(v)
    if v == ('v', ()):
        return ('none',)
    if v[0] != 's':
        return ('unclear',)
    k = TERMS[v[1]]
    if k[0] == 'call' and matches(k[1], (DEPS,)):
        x = strip(k[2][0])
        return ('inner', TERMS[x[1]][3]) if x[0] == 's' and TERMS[x[1]][0] == 'fld' and root_of(TERMS[x[1]][1]) == root_of(self_) else ('unclear',)
    if k[0] == 'fld' and root_of(k[1]) == root_of(self_):
        return ('own', k[3])
    return ('unclear',)


def root_of(t):
    while TERMS[t][0] == 'deref':
        t = TERMS[t][1]
    return t


def tasks(ctx, act, ix):
    p = ctx.p
    F = blue.flow(ctx)
    e = F.B.e
    idx, dix = ix
    says = reports(ctx)
    ids = c11.task_ids(ctx)
    op = F.action_op()
    opty = p.types[act]['v'][0][2][op][1]
    n = {}
    for h, r in sorted(says.items()):
        ctx.oblige(r != ('unclear',), 'dependencies of a task unclear', 'what %s::dependencies reports is neither a list of its own nor that of the task it wraps' % short_head(h))
    seen = {}
    for st, t, inner in F.tasks:
        own = []
        for a in inner:
            h = p.head(a[1])
            i = ids.get(h)
            if i is None:
                continue
            v = strip(getf(a, 0, i))
            if v[0] == 's' and TERMS[v[1]][0] == 'fld' and TERMS[v[1]][3] == idx and TERMS[TERMS[v[1]][1]][0] == 'elem':
                own.append((h, TERMS[v[1]][1], a))
        for h, el, a in own:
            if top_of(p, e, st, t, says)[1] != h:
                continue
            if pseudo(p, st, el):
                continue
            n[short_head(h)] = n.get(short_head(h), 0) + 1
            d, _h, depth = top_of(p, e, st, t, says)
            if depth:
                n['wrapped'] = n.get('wrapped', 0) + 1
            d = strip(d) if d is not None else None
            ok_ = d is not None and d[0] == 's' and TERMS[d[1]][0] == 'fld' and TERMS[d[1]][1:4:2] == (el, dix)
            ctx.oblige(ok_, 'dependencies lost: ' + short_head(h), 'the %s built for an action reports %s as its dependencies, not those of the action\n%s' % (short_head(h), e.show(d, 5) if d else 'none', trace_text(e, st)))
    for h in ids:
        ctx.floor('ordered tasks: ' + short_head(h), n.get(short_head(h), 0), 1)
    ctx.floor('ordered tasks: wrapped', n.get('wrapped', 0), 2)


def top_of(p, e, st, t, says, d=0):
    """(the dependencies a boxed task reports, the type they come from, number of wrappers)"""
    x = t
    n = 0
    while x[0] == 'r' and n < 6:
        x = e.load(st, x[1], x[2])
        n += 1
    x = strip(x)
    while x[0] == 'r' and n < 12:
        x = strip(e.load(st, x[1], x[2]))
        n += 1
    if x[0] != 'a' or x[1] is None:
        return None, None, d
    h = p.head(x[1])
    r = says.get(h)
    if r is None and len(x[4]) == 1:
        return top_of(p, e, st, x[4][0][1], says, d)
    if r is None or r[0] == 'unclear':
        return None, h, d
    if r[0] == 'inner':
        return top_of(p, e, st, getf(x, 0, r[1]), says, d + 1)
    if r[0] == 'own':
        return e.snap(st, getf(x, 0, r[1])), h, d
    wrapped = [y for _i, y in x[4] if has_task(p, e, st, y)]
    return (None, top_of(p, e, st, wrapped[0], says, d + 1)[1] if wrapped else h, d)


def pseudo(p, st, el):
    """the action the filter adds itself to answer with the request's identifier calls nothing"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'disc' and f[0] == '=' and TTY.get(k[1]) is not None and p.is_adt(TTY[k[1]], 'ServiceInstance') and under(k[1], el):
            return p.types[p.adt('services::ServiceInstance')]['v'][f[1]][0] == 'Tracing'
    return False


def has_task(p, e, st, y):
    n = 0
    while y[0] == 'r' and n < 6:
        y = e.load(st, y[1], y[2])
        n += 1
    y = strip(y)
    return y[0] == 'a' and y[1] is not None and '::tasks::' in p.head(y[1]) and p.head(y[1]).endswith('Task')


# -- follow-ups --------------------------------------------------------------------------------------

def follow_ups(ctx, one):
    p = ctx.p
    is_r = c23.cfg_list(p, 'configuration::TypedAction', 'operation.Grpc.on_reply')
    n = bad = 0
    for fi, typed in sorted(one.items()):
        if not typed:
            continue
        where = p.where(fi)
        e = base.make(p, {k: pure_boundary for k in tuple(COMPILE)})
        e.K, e.RECUR = (3 if ctx.tier == 'thorough' else 2), 1
        e.MAXSTEPS *= 5
        for st in run_all(ctx, e, fi):
            r = st.result
            lists = [TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more' and is_r(TERMS[t][1])] if callable(is_r) else []
            for s in set(lists):
                i = 0
                while st.facts.get(TIX.get(('more', s, i), -1)) == ('=', 1):
                    el = TIX[('elem', s, i)]
                    i += 1
                    mode = execution(p, st, el)
                    if r[0] == 'a' and r[2] == 0:
                        n += 1
                        ctx.oblige(mode == 'Parallel', 'follow-up with an execution mode', '%s: an action is accepted although a follow-up sets an execution mode (or it was not looked at)\n%s' % (where, trace_text(e, st)))
                    elif mode == 'Sequential':
                        bad += 1
    ctx.floor('follow-ups accepted', n, 5)
    ctx.floor('follow-ups rejected for their execution mode', bad, 1)
