"""C11: a reply variable is visible to its own follow-ups only."""
from engine.acts import *
from . import c07
from .c01 import run_all

EXPLANATION = '''Identifiers and scopes are followed as data: from the position of an action in the configuration to the identifier of its task, from there to the key a
reply is bound under and to the scope an expression is evaluated in, and inside the scope store every binding is given to a task exactly when its scope is that task or encloses it.'''
NEWCTX = 'context::CelScope::new_ctx'
ADDVAR = 'Context::add_variable_from_value'
SCOPE = 'context::CelScope'


def check(ctx):
    ctx.rule('a task is given every binding of a scope that is its own identifier or a dot-separated prefix of it, and no other binding; name and value belong together')
    ctx.rule('a bound value is appended under exactly the given scope and name and changes nothing else')
    ctx.rule('every predicate and expression of a task is evaluated in the scope made for that task; a reply is bound under the identifier of the task that waits for it and its configured variable')
    ctx.rule('tasks carry the identifier of their action; a wrapper reports the one it wraps; identifiers of actions are distinct and contain no dot; those of follow-ups are the parent, a dot and a distinct number')
    ctx.rule('only the scope store creates evaluation contexts for tasks; only tasks waiting for a reply bind')
    scope(ctx)
    bind(ctx)
    evals(ctx)
    ids(ctx)
    carried(ctx)
    makers(ctx)


def encloses(e, st, scope, task):
    """1/0/None: the path decided that `task` is `scope` or lies below it"""
    scope, task = strip(scope), strip(task)
    eq = e.known(st, TIX.get(('eq', scope, task), TIX.get(('eq', task, scope), -1))) if (TIX.get(('eq', scope, task)) or TIX.get(('eq', task, scope))) is not None else None
    if eq == 1:
        return 1
    below = None
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'call' and k[1].endswith('str::starts_with') and strip(k[2][0]) == task and f[0] == '=':
            if pieces(k[2][1]) == [scope, '.']:
                below = f[1]
            elif pieces(k[2][1]) == [scope] and f[1] == 0:
                return 0
        # what is left of the identifier after the scope
        if k[0] == 'disc' and TERMS[k[1]][0] == 'call' and TERMS[k[1]][1].endswith('str::strip_prefix'):
            a = TERMS[k[1]][2]
            if strip(a[0]) != task:
                continue
            some_ = e.known(st, t)
            if pieces(a[1]) == [scope, '.']:
                below = some_
            elif pieces(a[1]) == [scope]:
                if some_ == 0:
                    return 0
                rest = sym('fld', k[1], 1, 0)
                emp = [e.known(st, q) for q in (TIX.get(('eq', rest, C(''))), TIX.get(('eq', C(''), rest))) if q is not None]
                if 1 in emp:
                    return 1
                dot = [g[1] for q, g in st.facts.items() if TERMS[q][0] == 'call' and TERMS[q][1].endswith('str::starts_with') and strip(TERMS[q][2][0]) == rest and strip(TERMS[q][2][1]) in (C('.'), C(46)) and g[0] == '=']
                if 1 in dot:
                    return 1
                if 0 in dot and 0 in emp:
                    return 0
    if below == 1:
        return 1
    if below == 0 and eq == 0:
        return 0
    return None


def scope(ctx):
    p = ctx.p
    fi = p.find1(NEWCTX)
    e = base.make(p, drop=(NEWCTX,))
    self_, task = e.params(fi)
    ids_ = set()
    n = {0: 0, 1: 0}
    bix = bindings_ix(ctx)
    m = sym('fld', T('deref', self_[1]), 0, bix)[1]
    # what a task's types are is another matter: one of each
    e.KOF = lambda s: e.K if s == m or term_mentions(s, lambda k: k[0] == 'val' and k[1] == m, 6) else 0
    for st in run_all(ctx, e, fi):
        tr = lambda: trace_text(e, st)
        adds = {}
        for ev in st.events():
            if ev.kind == 'call' and ev.path.endswith('tasks::Task::id'):
                ids_.add(strip(ev.ret))
                ctx.oblige(strip(ev.args[0]) == strip(task), 'scope of another task', '%s: the scope is made for %s' % (p.where(fi), e.show(ev.args[0])))
            if ev.kind == 'call' and matches(ev.path, (ADDVAR,)):
                nm, vl = strip(ev.args[1]), strip(ev.args[2])
                a, b = binding_of(nm, m), binding_of(vl, m)
                if ctx.oblige(a is not None and b is not None and a[:2] == b[:2] and a[2] == 0 and b[2] == 1, 'foreign variable', '%s: variable %s gets the value %s\n%s' % (p.where(fi), e.show(nm), e.show(vl), tr())):
                    adds[a[:2]] = adds.get(a[:2], 0) + 1
        k = walked(e, st, m)
        if not ctx.oblige(k is not None, 'scopes left out', '%s: not every scope is looked at\n%s' % (p.where(fi), tr())):
            continue
        id_ = [x for x in ids_]
        for i in range(k):
            key = sym('key', m, i)
            val = T('val', m, i)
            b = None
            for x in id_:
                b = encloses(e, st, key, x) if b is None else b
            got = sorted(j for s, j in adds if s == i)
            if b is None:
                ctx.oblige(not got, 'scope undecided', '%s: bindings are handed out although it was not decided whether their scope encloses the task\n%s' % (p.where(fi), tr()))
                cnt = walked(e, st, val)
                ctx.oblige(cnt == 0, 'scope skipped', '%s: a scope is skipped although it may enclose the task\n%s' % (p.where(fi), tr()))
                continue
            n[b] += 1
            if b == 0:
                ctx.oblige(not got, 'binding of another action', '%s: a binding of a scope that does not enclose the task is visible to it\n%s' % (p.where(fi), tr()))
            else:
                cnt = walked(e, st, val)
                ctx.oblige(cnt is not None and got == list(range(cnt)), 'binding missing', '%s: of %s bindings of an enclosing scope the task sees %s\n%s' % (p.where(fi), cnt, got, tr()))
    ctx.floor('enclosing scopes', n[1], 2)
    ctx.floor('other scopes', n[0], 2)
    ctx.oblige(len(ids_) == 1, 'task identifier', 'the scope of a task depends on %d identifiers' % len(ids_))


def bindings_ix(ctx):
    p = ctx.p
    fs = p.types[p.adt(SCOPE)]['v'][0][2]
    ix = [i for i, (n, t) in enumerate(fs) if t is not None and 'Map<' in p.types[t]['s'] and 'Value' in p.types[t]['s']]
    if len(ix) != 1:
        raise AnalysisError('scope store of unknown shape')
    return ix[0]


def binding_of(v, m):
    """(scope number, binding number, component) of a value read from the bindings"""
    t = v[1] if v[0] == 's' else None
    comp = None
    for _ in range(8):
        if t is None:
            return None
        k = TERMS[t]
        if k[0] == 'fld' and comp is None and TERMS[k[1]][0] in ('elem', 'deref'):
            comp, t = k[3], k[1]
        elif k[0] == 'deref':
            t = k[1]
        elif k[0] == 'elem':
            s = TERMS[k[1]]
            while s[0] in ('deref',):
                s = TERMS[s[1]]
            return (s[2], k[2], comp) if s[0] == 'val' and s[1] == m else None
        else:
            return None
    return None


def bind(ctx):
    p = ctx.p
    fi = p.find1(BIND)
    e = base.make(p, drop=(BIND,))
    bix = bindings_ix(ctx)
    self_, id_, name, val = e.params(fi)
    n = 0
    for st in run_all(ctx, e, fi):
        n += 1
        s = e.snap(st, e.deref(st, self_))
        ch = dict(s[4]) if s[0] == 'a' else {}
        m = ch.pop(bix, None)
        ok_ = not ch and m is not None and m[0] == 'm'
        kv = [x for x in m[1] if x[0] == 'kv'] if ok_ else []
        rest = [x for x in m[1] if x[0] == 'rest'] if ok_ else []
        new = kv[0][2] if len(kv) == 1 else None
        pair = tuple((i, w) for i, w in enumerate((strip(name), strip(val))))
        good = False
        if new is not None and strip(kv[0][1]) == strip(e.snap(st, e.deref(st, id_))) and new[0] == 'v' and new[1]:
            last = new[1][-1]
            good = last[0] == 'e' and last[1][0] == 'a' and tuple((i, strip(w)) for i, w in last[1][4]) == pair
            old = new[1][:-1]
            had = e.known(st, TIX.get(('haskey', sym('fld', T('deref', self_[1]), 0, bix)[1], strip(id_)), -1)) if False else None
            good = good and (not old or (len(old) == 1 and old[0][0] == 'rest' and TERMS[old[0][1]][0] == 'mapget' and old[0][2] == 0))
            # an existing list is kept
            known = [f[1] for t, f in st.facts.items() if TERMS[t][0] == 'haskey' and f[0] == '=']
            good = good and len(known) == 1 and bool(old) == bool(known[0]) and len(rest) == 1
            del had
        ctx.oblige(good, 'binding', '%s: binding %s under %s leaves %s' % (p.where(fi), e.show(name), e.show(id_), e.show(s, 7)))
    ctx.floor('ways to bind', n, 2)


def evals(ctx):
    p = ctx.p
    n = b = 0
    for c in core_tasks(ctx, effects=[c07.GETR, GETG, NEWCTX]):
        e = c.e
        idx = c07.fld_of(c, 'id', None)
        for st, out, evs in c.states():
            n += scoped(ctx, c, e, st, evs)
            if out == 'Deferred':
                pend = ofield(e, st, 'Deferred', 'pending')
                for s2 in run_task(e, st, pend, c.ctxv):
                    for ev in s2.events():
                        if ev.kind == 'call' and matches(ev.path, (BIND,)):
                            b += 1
                            ctx.oblige(c.own(ev.args[1], idx) and c07.var_ok(ctx, c, ev.args[2]), c.name + ' binds elsewhere',
                                       '%s: the reply is bound as %s in the scope %s instead of its own\n%s' % (p.where(c.fi), e.show(ev.args[2]), e.show(ev.args[1]), trace_text(e, s2)))
            for ev in evs:
                ctx.oblige(not (ev.kind == 'call' and matches(ev.path, (BIND,))), c.name + ' binds without a reply', '%s: binds a value before any reply' % p.where(c.fi))
    ctx.floor('evaluations of tasks', n, 10)
    ctx.floor('replies bound', b, 1)


def scoped(ctx, c, e, st, evs):
    n = 0
    for ev in evs:
        if ev.kind != 'call' or not matches(ev.path, (TEST, EXPR)):
            continue
        n += 1
        made = set()
        mentions(ev.args[2], lambda k: k[0] == 'call' and matches(k[1], (NEWCTX,)) and made.add(strip(k[2][1])) and False, 20)
        ctx.oblige(len(made) == 1 and same_task(c, next(iter(made))), c.name + ' evaluates in another scope', '%s: %s is evaluated in the scope of %s\n%s' % (
            c.p.where(c.fi), c.p.short(ev.path), [e.show(x) for x in made] or 'nothing', trace_text(e, st)))
    return n


def same_task(c, v):
    """the task itself, whatever it has changed of its own state meanwhile but its identifier"""
    if v == strip(c.self_):
        return True
    n = 0
    while v[0] == '&' and n < 3:
        v, n = v[1], n + 1
    return v[0] == 'a' and v[3] == T('deref', strip(c.self_)[1]) and task_ids(c.ctx)[c.h] not in dict(v[4])


def ids(ctx):
    p = ctx.p
    act = p.adt('blueprint::Action')
    idx = action_id(ctx)
    # top level
    orig = blue.make_cone
    def mk(*a, **k):
        e = orig(*a, **k)
        e.KOF = lambda s: (2 if ctx.tier != 'thorough' else 3) if TTY.get(s) is not None and ('ActionConfig>' in p.types[TTY[s]]['s'] or 'Vec<std::vec::Vec<' in p.types[TTY[s]]['s']) else 0
        return e
    blue.make_cone = mk
    try:
        P = blue.compile_paths(ctx)
    finally:
        blue.make_cone = orig
    e = P.e
    bp = p.adt('blueprint::Blueprint')
    aix = [i for i, (n, t) in enumerate(p.types[bp]['v'][0][2]) if t is not None and 'blueprint::Action>' in p.types[t]['s']][0]
    rty = p.types[p.fns[P.fi]['b']['ls'][0][0]]
    most = n = 0
    for st in P.states:
        if st.result[0] != 'a' or rty['v'][st.result[2]][0] != 'Ok':
            continue
        got = [action_ident(ctx, e, st, a, idx) for a in blue.elems(getf(getf(st.result, st.result[2], 0), 0, aix))]
        n += 1
        most = max(most, len(got))
        plain = [x[0] if len(x) == 1 and isinstance(x[0], str) else None for x in got]
        ctx.oblige(None not in plain and len(set(plain)) == len(plain) and all('.' not in x and x for x in plain if x), 'identifiers of actions',
                   'the actions of an action set get the identifiers %s' % [[x if isinstance(x, str) else e.show(x) for x in y] for y in got])
    ctx.floor('compiled action sets', n, 10)
    ctx.floor('longest compiled action set', most, 2)
    # follow-ups
    C2 = blue.compile_paths(ctx, K=2, name='blueprint::Action::compile_typed')
    e = C2.e
    own = id_param(ctx, C2.fi, C2.states, idx)
    rty = p.types[p.fns[C2.fi]['b']['ls'][0][0]]
    most = n = 0
    for st in C2.states:
        if st.result[0] != 'a' or rty['v'][st.result[2]][0] != 'Ok':
            continue
        a = getf(st.result, st.result[2], 0)
        mine = pieces(getf(a, 0, idx))
        o = getf(a, 0, [i for i, (nm, t) in enumerate(p.types[act]['v'][0][2]) if t is not None and p.types[t]['s'].endswith('blueprint::Operation')][0])
        for x in kids(p, e, o):
            n += 1
        ks = [action_ident(ctx, e, st, x, idx) for x in kids(p, e, o)]
        most = max(most, len(ks))
        ok_ = all(k[:len(mine)] == mine and len(k) == len(mine) + 1 and isinstance(k[-1], str) and k[-1][:1] == '.' and k[-1][1:] and '.' not in k[-1][1:] for k in ks)
        ctx.oblige(mine == [e.params(C2.fi)[own]] and ok_ and len({str(k) for k in ks}) == len(ks), 'identifiers of follow-ups',
                   'the follow-ups of %s get the identifiers %s' % ([e.show(x) if not isinstance(x, str) else x for x in mine], [[x if isinstance(x, str) else e.show(x) for x in k] for k in ks]))
    ctx.floor('compiled follow-ups', n, 5)
    ctx.floor('longest list of follow-ups', most, 2)


def kids(p, e, o):
    if o[0] != 'a' or o[2] is None or o[1] is None:
        return []
    return [x for i, (nm, ft) in enumerate(p.types[o[1]]['v'][o[2]][2]) if ft is not None and 'blueprint::Action>' in p.types[ft]['s'] for x in blue.elems(getf(o, o[2], i))]


def action_id(ctx):
    """field of a compiled action that becomes the identifier of its task"""
    F = blue.flow(ctx)
    p = ctx.p
    got = {}
    ids_ = task_ids(ctx)
    for st, t, inner in F.tasks:
        for a in inner:
            h = p.head(a[1])
            if h in ids_:
                w = action_part(p, eta(p, getf(a, 0, ids_[h])))
                if w is not None:
                    got[w[1]] = got.get(w[1], 0) + 1
    if len(got) != 1:
        raise AnalysisError('the identifier of a task comes from %d fields of its action' % len(got))
    return next(iter(got))


def action_part(p, v):
    """(action, field) a value was read from"""
    t = v[1] if v[0] == 's' else None
    last = None
    while t is not None:
        k = TERMS[t]
        ty = TTY.get(t)
        while ty is not None and p.types[ty]['k'] == 'ref':
            ty = p.types[ty]['t']
        if last is not None and (p.is_adt(ty, 'blueprint::Action') or k[0] == 'elem'):
            return t, last
        if k[0] == 'fld':
            last, t = k[3], k[1]
        elif k[0] == 'deref':
            t = k[1]
        else:
            return None
    return None


def task_ids(ctx):
    """{core task type: field its id() reports}"""
    if not hasattr(ctx, '_task_ids'):
        ctx._task_ids = {c.h: c07.fld_of(c, 'id', None) for c in core_tasks(ctx)}
    return ctx._task_ids


def id_param(ctx, fi, states, idx):
    """parameter that becomes the identifier of the compiled action"""
    p = ctx.p
    rty = p.types[p.fns[fi]['b']['ls'][0][0]]
    e = base.make(p)
    ps = [strip(x) for x in e.params(fi)]
    got = set()
    for st in states:
        if st.result[0] == 'a' and rty['k'] == 'adt' and rty['p'].endswith('Result') and rty['v'][st.result[2]][0] == 'Ok':
            v = strip(getf(getf(st.result, st.result[2], 0), 0, idx))
            got.add(ps.index(v) if v in ps else None)
    if len(got) != 1 or None in got:
        raise AnalysisError('the identifier of a compiled action is not a parameter of ' + p.fns[fi]['p'])
    return got.pop()


def action_ident(ctx, e, st, a, idx):
    """pieces of the identifier of a compiled action value"""
    a = strip(a)
    if a[0] == 'a':
        return pieces(getf(a, 0, idx))
    t = a[1]
    n = 0
    while TERMS[t][0] == 'fld' and n < 4:
        t = TERMS[t][1]
        n += 1
    k = TERMS[t]
    if k[0] == 'call':
        fs = [i for i, f in enumerate(ctx.p.fns) if f['p'] == k[1] and f['b'] is not None]
        if len(fs) == 1:
            if not hasattr(ctx, '_idp'):
                ctx._idp = {}
            if fs[0] not in ctx._idp:
                C2 = blue.compile_paths(ctx, K=1, name=ctx.p.fns[fs[0]]['p'].split('kuadrant_filter::')[-1])
                ctx._idp[fs[0]] = id_param(ctx, fs[0], C2.states, idx)
            return pieces(e.snap(st, k[2][ctx._idp[fs[0]]]))
    return [a]


def carried(ctx):
    """tasks carry the identifier of the action their predicate comes from"""
    p = ctx.p
    F = blue.flow(ctx)
    ids_ = task_ids(ctx)
    idx = action_id(ctx)
    n = 0
    seen = set()
    cores = {c.h: c for c in core_tasks(ctx)}
    T2 = blue.to_tasks_paths(ctx, K=2, name='blueprint::Action::to_core_task')
    more_ = [(T2.e, st, x) for st in T2.states for x in blue.inner_aggs(T2.e, st, st.result, lambda h: '::tasks::' in h and h.endswith('Task'))]
    for e, st, a in [(F.B.e, st, a) for st, t, inner in F.tasks for a in inner] + more_:
        h = p.head(a[1])
        if h not in ids_:
            continue
        n += 1
        seen.add(h)
        w = eta(p, getf(a, 0, ids_[h]))
        k = action_part(p, w)
        # the action its other parts come from
        own = {y[0] for y in [action_part(p, eta(p, x)) for i, x in a[4]] if y is not None}
        ctx.oblige(k is not None and k[1] == idx and own == {k[0]}, short_head(h) + ' identifier', '%s is built with the identifier %s and parts of %s' % (h, e.show(w), [e.show(('s', t)) for t in own]))
    ctx.floor('tasks built', n, 10)
    ctx.floor('kinds of tasks built', len(seen), 5)
    del cores
    # wrappers
    w = 0
    for h, fi in p.trait_impls('pipeline::tasks::Task', 'id'):
        if h in ids_:
            continue
        ty = p.adt(h)
        box = [i for i, (nm, t) in enumerate(p.types[ty]['v'][0][2]) if t is not None and 'dyn ' in p.types[t]['s'] and 'Task' in p.types[t]['s'] and 'Box<' in p.types[t]['s'] and 'Fn' not in p.types[t]['s'] and 'Vec<' not in p.types[t]['s']]
        if len(box) != 1:
            continue
        e = base.make(p)
        for st in run_all(ctx, e, fi):
            w += 1
            r = strip(e.snap(st, st.result))
            k = TERMS[r[1]] if r[0] == 's' else ('',)
            ok_ = k[0] == 'call' and k[1].endswith('tasks::Task::id') and mentions(k[2][0], lambda q: q[0] == 'fld' and q[3] == box[0], 8)
            ctx.oblige(ok_, short_head(h) + ' reports another identifier', '%s: reports %s instead of the identifier of the wrapped task' % (p.where(fi), e.show(r)))
    ctx.floor('wrappers', w, 2)


def makers(ctx):
    """who creates evaluation contexts and who binds"""
    p, g = ctx.p, ctx.g
    n = 0
    for s, path in g.calls_named(lambda path, c: path.startswith('cel::context::Context::') and path.rsplit('::', 1)[-1] in ('with_env', 'empty', 'default', 'new_inner_scope') or path.endswith('<cel::context::Context as core::default::Default>::default')):
        f = p.fns[s.fi]
        if not f['l']:
            continue
        nm = fname(p, s.fi)
        n += 1
        inside = matches(f['p'], (NEWCTX,)) or SCOPE.split('::')[-1] in f['p'] or 'PredicateVec' in f['p']
        task = '::tasks::' in f['p']
        ctx.oblige(inside or not task, nm + ' makes a context', '%s: a task makes its own evaluation context' % p.where(s.fi, s.line))
    ctx.floor('places that make an evaluation context', n, 1)
    binders = [(s, path) for s, path in g.calls_named(lambda path, c: matches(path, (BIND,))) if p.fns[s.fi]['l']]
    for s, path in binders:
        ctx.oblige('::tasks::' in p.fns[s.fi]['p'], fname(p, s.fi) + ' binds', '%s: binds a value outside any task' % p.where(s.fi, s.line))
    ctx.floor('places that bind', len(binders), 1)
