"""C10: a reserved store path stays pending exactly while its writer lives."""
from engine.acts import *
from .c01 import run_all

EXPLANATION = '''Ownership and counting: the reservation is a linear value (built only by a function that adds exactly one to its path, destroyed only by a Drop
that removes exactly one, never cloned, forgotten or leaked); the store action owns the reservation of the path it writes until it is consumed; the
functions that answer "pending" are compared with their definition on every abstract path, and every reader asks them before it uses a value.'''

RES = 'context::PathReservation'
IS_PENDING = 'context::ValueStore::is_pending'
HAS_PREFIX = 'context::ValueStore::has_prefix'
GETV = 'context::ValueStore::get'
ATTR = 'cel::Attribute::get'
MAPV = 'data::map_to_value'
LEAKS = ('core::mem::forget', 'mem::manually_drop::ManuallyDrop::new', 'boxed::Box::leak', 'boxed::Box::into_raw', 'sync::Arc::into_raw', 'rc::Rc::into_raw', 'vec::Vec::leak',
         'core::mem::transmute', 'core::ptr::read', 'core::ptr::write')


def check(ctx):
    ctx.rule('every function that builds a reservation adds exactly one to the count of exactly its path in the shared registry; dropping it takes exactly one away and forgets the path at zero; nothing else changes the registry')
    ctx.rule('a reservation is owned only by the task that stores its path; nothing clones, forgets or leaks tasks or reservations')
    ctx.rule('a path is pending iff it has no stored value and is reserved; a prefix exists iff a stored or reserved path starts with it')
    ctx.rule('every lookup of an expression asks for pending first and reports Pending when it is; plain variables too')
    p = ctx.p
    rt = p.adt(RES)
    reg = registry(ctx, rt)
    counting(ctx, rt, reg)
    store_fns(ctx, reg)
    owner(ctx, rt)
    readers(ctx)
    variables(ctx)


def registry(ctx, rt):
    """(index of the shared registry in the reservation, index of its path, type of the map)"""
    p = ctx.p
    fs = p.types[rt]['v'][0][2]
    ri = [i for i, (n, t) in enumerate(fs) if t is not None and 'Map<' in p.types[t]['s']]
    pi = [i for i, (n, t) in enumerate(fs) if t is not None and p.types[t]['s'].endswith('string::String')]
    if len(ri) != 1 or len(pi) != 1:
        raise AnalysisError('reservation of unknown shape')
    s = p.types[fs[ri[0]][1]]['s']
    inner = s[s.index('<') + 1:-1]
    if 'Mutex<' in inner and not inner.startswith('std::sync::Mutex') and 'Mutex<' != inner[:6]:
        pass
    return ri[0], pi[0], inner


def touching(ctx, inner):
    """local functions with a local variable that is (a reference to) the registry"""
    p = ctx.p
    out = []
    for i, f in enumerate(p.fns):
        if f['b'] is None or not f['l']:
            continue
        if any(inner in p.types[t[0]]['s'] for t in f['b']['ls'] if t[0] is not None) or any(has_guard(p, t[0]) for t in f['b']['ls']):
            out.append(i)
    return out


def has_guard(p, t):
    return t is not None and 'MutexGuard' in p.types[t]['s'] and 'HashMap<std::string::String, usize' in p.types[t]['s']


def maps_of(e, st):
    """final contents of every registry locked on the path: [(initial term or None, final value)]"""
    out = []
    for ev in st.events():
        if ev.kind == 'lock' and ev.ret is not None and ev.ret[0] == 'r':
            v = e.load(st, ev.ret[1], ev.ret[2])
            out.append(v)
    return out


def base_of(t):
    ks = []
    while TERMS[t][0] == 'without':
        ks.append(TERMS[t][2])
        t = TERMS[t][1]
    return t, ks


def delta(v):
    """(base map term, {key: new value or None when removed}) of a final map value"""
    if v[0] == 's':
        t, ks = base_of(v[1])
        return t, {k: None for k in ks}
    if v[0] != 'm':
        return None, None
    ch = {}
    b = None
    for s in v[1]:
        if s[0] == 'rest':
            if b is not None or s[2] != 0:
                return None, None
            b, ks = base_of(s[1])
            for k in ks:
                ch.setdefault(k, None)
        else:
            ch[strip(s[1])] = s[2]
    # a binding put back as it was
    ch = {k: x for k, x in ch.items() if not (x is not None and x == ('s', TIX.get(('mapget', b, k))))}
    return b, ch


def had(st, b, key):
    f = st.facts.get(TIX.get(('haskey', b, key)))
    return None if f is None else f[1]


def found_values(p, v, ty, d=8):
    """aggregates of type ty inside a value"""
    if not isinstance(v, tuple) or d == 0:
        return []
    if v and v[0] == 'a' and len(v) == 5:
        if v[1] is not None and v[1] == ty:
            return [v]
        return [x for _i, w in v[4] for x in found_values(p, w, ty, d - 1)]
    return [x for w in v if isinstance(w, tuple) for x in found_values(p, w, ty, d - 1)]


def counting(ctx, rt, reg):
    p = ctx.p
    ri, pi, inner = reg
    fns = set(touching(ctx, inner)) | {i for i, f in enumerate(p.fns) if f['b'] is not None and f['l'] and any(s[0] == '=' and s[2][0] == 'agg' and s[2][1] == rt for b in f['b']['bb'] for s in b['s'])}
    drops = [i for i, f in enumerate(p.fns) if f['b'] is not None and f['l'] and 'PathReservation as core::ops::drop::Drop>::drop' in f['p'] and f['p'].endswith('::drop')]
    if not ctx.oblige(len(drops) == 1, 'reservation drop', 'a reservation has no Drop: its path stays pending forever'):
        return
    built = 0
    for i in sorted(fns | set(drops)):
        f = p.fns[i]
        if '{closure' in f['p'] or '__CALLSITE' in f['p']:
            continue
        if not relevant(p, f, inner, rt, drops, i):
            continue
        e = base.make(p)
        e.K = 1
        rs = run_all(ctx, e, i)
        for st in rs:
            tr = lambda: trace_text(e, st)
            got = found_values(p, e.snap(st, st.result), rt) if st.result is not None else []
            ms = [m for m in maps_of(e, st) if is_reg(e, m)]
            if i in drops:
                self_ = strip(e.params(i)[0])
                key = sym('fld', T('deref', self_[1]), 0, pi)
                if not ctx.oblige(len(ms) >= 1, 'drop does not reach the registry', '%s: a dropped reservation does not change the registry\n%s' % (p.where(i), tr())):
                    continue
                b, ch = delta(ms[-1])
                if not ctx.oblige(b is not None, 'drop result', '%s: the registry after the drop is %s' % (p.where(i), e.show(ms[-1]))):
                    continue
                h = had(st, b, key)
                if h == 0:
                    ctx.oblige(not ch, 'drop without a reservation', '%s: changes the registry although the path is not reserved: %s' % (p.where(i), show_ch(e, ch)))
                    continue
                old = sym('mapget', b, key)
                one = sign(e, st, old)
                if set(ch) == {key} and ch[key] is None:
                    ctx.oblige(one == 'last', 'drop forgets other reservations', '%s: a dropped reservation removes the path although others may remain\n%s' % (p.where(i), tr()))
                elif set(ch) == {key}:
                    ctx.oblige(less_one(ch[key], old) and one == 'more', 'drop count', '%s: the count becomes %s (old %s; %s)\n%s' % (p.where(i), e.show(ch[key]), e.show(old), one, tr()))
                else:
                    ctx.oblige(False, 'drop changes another path', '%s: dropping a reservation changes %s' % (p.where(i), show_ch(e, ch) or 'nothing'))
            elif got:
                for v in got:
                    built += 1
                    key = strip(getf(v, 0, pi))
                    ok_ = False
                    why = 'no registry was changed'
                    for m in ms:
                        b, ch = delta(m)
                        if b is None:
                            continue
                        h = had(st, b, key)
                        old = sym('mapget', b, key)
                        why = show_ch(e, ch)
                        if set(ch) == {key} and ch[key] is not None and ((h == 0 and ch[key] == C(1)) or (h != 0 and more_one(ch[key], old))):
                            ok_ = True
                    ctx.oblige(ok_ and len(got) == 1, fname(p, i) + ' counts its reservation', '%s: a reservation of %s is built, but the registry changes by: %s\n%s' % (p.where(i), e.show(key), why, tr()))
            else:
                for m in ms:
                    b, ch = delta(m)
                    ctx.oblige(b is not None and not ch, fname(p, i) + ' changes the registry', '%s: the registry changes without a reservation: %s\n%s' % (p.where(i), show_ch(e, ch), tr()))
    ctx.floor('ways to build a reservation', built, 2)


def relevant(p, f, inner, rt, drops, i):
    """functions that lock the registry themselves or build a reservation"""
    if i in drops:
        return True
    if any(s[0] == '=' and s[2][0] == 'agg' and s[2][1] == rt for b in f['b']['bb'] for s in b['s']):
        return True
    return any(t[0] is not None and 'MutexGuard' in p.types[t[0]]['s'] and 'HashMap<std::string::String, usize' in p.types[t[0]]['s'].replace('alloc::string', 'std::string') for t in f['b']['ls'])


def is_reg(e, m):
    return m[0] in ('m', 's')


def show_ch(e, ch):
    if ch is None:
        return 'unknown'
    return ', '.join('%s -> %s' % (e.show(k), 'removed' if x is None else e.show(x)) for k, x in ch.items())


def more_one(v, old):
    return v == ('s', TIX.get(('Add', old, C(1)))) or (v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('saturating_add') and TERMS[v[1]][2] == (old, C(1)))


def less_one(v, old):
    return v == ('s', TIX.get(('Sub', old, C(1)))) or (v[0] == 's' and TERMS[v[1]][0] == 'call' and '_sub' in TERMS[v[1]][1] and tuple(TERMS[v[1]][2])[:2] == (old, C(1)))


def sign(e, st, old):
    """does the path know that this was the last reservation?"""
    def val(t):
        return e.known(st, t) if t is not None else None
    def isnot(t, n):
        f = st.facts.get(t) if t is not None else None
        return f is not None and ((f[0] == '!' and n in f[1]) or (f[0] == '=' and f[1] != n))
    sub = TIX.get(('Sub', old, C(1)))
    cands = [t for t, k in enumerate(TERMS) if k[0] == 'call' and '_sub' in k[1] and len(k) > 2 and tuple(k[2])[:2] == (old, C(1))] if sub is None else [sub]
    for t in cands:
        if val(t) == 0:
            return 'last'
        if isnot(t, 0):
            return 'more'
    if val(old[1]) == 1:
        return 'last'
    for t, want in ((TIX.get(('lt', C(1), old)), 'more'), (TIX.get(('lt', old, C(2))), 'last')):
        if val(t) is not None:
            return want if val(t) else {'more': 'last', 'last': 'more'}[want]
    if isnot(old[1], 1):
        return 'more'
    t = TIX.get(('eq', old, C(1)))
    if val(t) is not None:
        return 'last' if val(t) else 'more'
    return None


def haskeys(e, st, key):
    """what the path knows about `key` per map: {map term text: 0/1}"""
    out = {}
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'haskey' and strip(k[2]) == key and f[0] == '=':
            out[k[1]] = f[1]
    return out


def store_fns(ctx, reg):
    """is_pending, has_prefix, get, store against their definition"""
    p = ctx.p
    fi = p.find1(IS_PENDING)
    e = base.make(p)
    n = 0
    for st in run_all(ctx, e, fi):
        key = strip(e.params(fi)[1])
        hk = haskeys(e, st, key)
        vals = {r for t, r in hk.items() if not under_mx(t)}
        res = {r for t, r in hk.items() if under_mx(t)}
        b = e.truth(st, st.result)
        n += 1
        if b is None:
            ctx.oblige(False, 'is_pending answer', '%s answers %s' % (p.where(fi), e.show(st.result)))
        elif b:
            ctx.oblige(vals == {0} and res == {1}, 'is_pending without a reservation', '%s: pending although stored=%s, reserved=%s' % (p.where(fi), vals or '?', res or '?'))
        else:
            ctx.oblige(1 in vals or 0 in res, 'is_pending misses a reservation', '%s: not pending although stored=%s, reserved=%s' % (p.where(fi), vals or '?', res or '?'))
    ctx.floor('is_pending answers', n, 2)
    fi = p.find1(HAS_PREFIX)
    e = base.make(p)
    n = 0
    for st in run_all(ctx, e, fi):
        pre = strip(e.params(fi)[1])
        yes = any(starts(k, pre) and f == ('=', 1) for t, f in st.facts.items() for k in [TERMS[t]])
        b = e.truth(st, st.result)
        n += 1
        if b is None or b:
            ctx.oblige(b is not None and yes, 'has_prefix without a path', '%s: answers %s without a path that starts with the prefix' % (p.where(fi), e.show(st.result)))
        else:
            # every reserved path and every candidate stored path was looked at
            ends = walked_seqs(e, st)
            res = [q for q in ends if under_mx(q) and all(looked(e, st, q, i, pre) for i in range(ends[q]))]
            # stored paths: all of them, or the first one of an ordered range that starts at the prefix
            val = [q for q in ends if not under_mx(q) and all(looked(e, st, q, i, pre) for i in range(ends[q]))]
            first = [q for q in {TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more'} if is_range(q, pre) and (e.known(st, T('more', q, 0)) == 0 or looked(e, st, q, 0, pre))]
            ctx.oblige(not yes and res and (val or first), 'has_prefix misses a path', '%s: answers no without having looked at every reserved and stored path\n%s' % (p.where(fi), [(e.show(('s', t)), f) for t, f in st.facts.items()]))
    ctx.floor('has_prefix answers', n, 3)
    fi = p.find1(STORE)
    e = base.make(p)
    for st in run_all(ctx, e, fi):
        self_, key, val = e.params(fi)
        v = e.snap(st, e.deref(st, self_))
        hit = [w for i, w in (v[4] if v[0] == 'a' else ()) if w[0] == 'm']
        ok_ = len(hit) == 1 and delta(hit[0])[1] == {strip(key): val}
        ctx.oblige(ok_, 'store', '%s: afterwards the values are %s' % (p.where(fi), e.show(v, 6)))
    fi = p.find1(GETV)
    e = base.make(p)
    for st in run_all(ctx, e, fi):
        key = strip(e.params(fi)[1])
        hk = haskeys(e, st, key)
        o = variant_of(e, st, st.result, p.fns[fi]['b']['ls'][0][0])
        if o == 'Some':
            v = strip(e.snap(st, getf(st.result, 1, 0)))
            ctx.oblige(v[0] == 's' and TERMS[v[1]][0] == 'mapget' and strip(TERMS[v[1]][2]) == key, 'get', '%s returns %s' % (p.where(fi), e.show(v)))
        else:
            ctx.oblige(o == 'None' and set(hk.values()) == {0}, 'get misses a value', '%s finds nothing although a value is stored' % p.where(fi))


def looked(e, st, q, i, pre):
    """the path tested whether the i-th path of q starts with the prefix"""
    return any(starts(TERMS[t], pre) and term_mentions(t, lambda k: k[0] in ('elem', 'key') and k[1:3] == (q, i), 10) for t in st.facts)


def is_range(q, pre):
    k = TERMS[q]
    return k[0] == 'call' and k[1].endswith('BTreeMap::range') and mentions(k[2][1], lambda x: x == TERMS[pre[1]])


def under_mx(t):
    n = 0
    while n < 20:
        k = TERMS[t]
        if k[0] in ('fld', 'deref', 'without'):
            if k[0] == 'fld' and k[3] == 'mx':
                return True
            t = k[1]
        else:
            return term_mentions(t, lambda q: q[0] == 'fld' and q[3] == 'mx', 10)
        n += 1
    return False


def starts(k, pre):
    return k[0] == 'call' and k[1].endswith('str::starts_with') and strip(k[2][1]) == pre


def owner(ctx, rt):
    p = ctx.p
    holders = []
    for t in p.types:
        if t['k'] == 'adt' and t.get('l'):
            for v in t['v']:
                for i, (n, ft) in enumerate(v[2]):
                    if ft is not None and 'PathReservation' in p.types[ft]['s']:
                        holders.append((t['p'], i, ft))
    impls = {h: fi for h, fi in task_impls(p)}
    for h, i, ft in holders:
        ctx.oblige(h in impls or any(x.endswith('::' + short_head(h)) and x.split('<')[0] for x in impls if short_head(x) == short_head(h)), 'holder ' + short_head(h), 'a reservation is held by %s, which is not a task: nothing ties it to the life of a writer' % h)
        ctx.oblige(ft == rt, 'optional reservation in ' + short_head(h), 'the reservation of %s is optional' % h)
    ctx.floor('owners of a reservation', len(holders), 1)
    pi = registry(ctx, rt)[1]
    # built with the path it stores
    F = blue.flow(ctx)
    n = 0
    hold = {short_head(h): i for h, i, ft in holders}
    cores = {c.name: c for c in core_tasks(ctx)}
    for st, t, inner in F.tasks:
        for a in inner:
            nm = short_head(p.head(a[1]))
            if nm not in hold:
                continue
            r = getf(a, 0, hold[nm])
            if r[0] == 'a' and r[1] is not None and p.types[r[1]]['p'].endswith('Result'):
                r = getf(r, r[2], 0)
            n += 1
            key = eta(p, getf(r, 0, pi))
            src = reserve_call(p, key)
            if src is not None:
                key = src
            c = cores.get(nm)
            okp = stored_fields(ctx, c)
            same = [i for i in okp if eta(p, getf(a, 0, i)) == key]
            ctx.oblige(len(okp) == 1 and same == list(okp), nm + ' reserves another path', '%s is built with a reservation of %s, but stores to %s' % (nm, F.B.e.show(key), [F.B.e.show(getf(a, 0, i)) for i in okp]))
    ctx.floor('store tasks built', n, 1)
    # kept until the end
    for nm, i in hold.items():
        c = cores.get(nm)
        if not ctx.oblige(c is not None, nm + ' analysed', '%s holds a reservation but is not an action task' % nm):
            continue
        e = c.e
        k = 0
        for st, out, evs in c.states():
            gone = None
            for ev in evs:
                if ev.kind == 'drop' and 'PathReservation' in ev.path:
                    gone = gone or ev
                elif gone is not None and ev.kind == 'call' and matches(ev.path, (TEST, EXPR, STORE, SETATTR) + tuple(HOSTW)):
                    ctx.oblige(False, nm + ' releases early', '%s: the reservation is released before %s\n%s' % (p.where(c.fi), p.short(ev.path), trace_text(e, st)))
            if out == 'Requeued':
                k += 1
                ctx.oblige(gone is None, nm + ' releases on retry', '%s: the reservation is released although the action is retried\n%s' % (p.where(c.fi), trace_text(e, st)))
        ctx.floor('retries of ' + nm, k, 3)
    # nothing is leaked
    bad = 0
    for s, path in ctx.g.calls_named(lambda path, c: any(path.endswith(x) for x in LEAKS)):
        f = p.fns[s.fi]
        if f['l'] and not ('tracing' in path):
            bad += 1
            ctx.oblige(False, 'leak in ' + fname(p, s.fi), '%s: %s may keep a task or a reservation from being dropped' % (p.where(s.fi, s.line), p.short(path)))
    ctx.oblige(not bad, 'leaks', '%d leaks' % bad)
    nf = sum(1 for f in p.fns if f['l'] and f['b'] is not None)
    ctx.sample('%d local functions scanned for mem::forget, ManuallyDrop, leak, into_raw, transmute, ptr::read/write' % nf)
    ctx.floor('functions scanned', nf, 300)


def reserve_call(p, v):
    """the path asked for when v is (the path of) the result of ValueStore::reserve"""
    t = v[1] if v[0] == 's' else None
    while t is not None:
        k = TERMS[t]
        if k[0] == 'call' and matches(k[1], ('context::ValueStore::reserve',)):
            return eta(p, strip(k[2][1]))
        if k[0] in ('fld', 'deref'):
            t = k[1]
            continue
        return None
    return None


def stored_fields(ctx, c):
    """fields of the task used as path of ValueStore::store"""
    out = {}
    for st, o, evs in c.states():
        for ev in evs:
            if ev.kind == 'call' and matches(ev.path, (STORE,)):
                for i, _f in enumerate(ctx.p.types[c.ty]['v'][0][2]):
                    if c.own(eta(ctx.p, ev.args[1]), i):
                        out[i] = True
    return out


def tern(e, st, ev):
    return e.truth(st, ev.ret)


def readers(ctx):
    """the lookup of the attributes of an expression"""
    p = ctx.p
    fi = p.find1(MAPV)
    PB = base.pure_boundary
    e = base.make(p, extra={GETV: PB, IS_PENDING: PB, HAS_PREFIX: PB, ATTR: boundary, MAPV: boundary})
    e.K = 2
    e.RECUR = 1
    rty = p.fns[fi]['b']['ls'][0][0]
    n = {}
    mp, cx, pre = None, None, None
    for v in e.params(fi):
        ty = p.types[TTY[v[1]]]
        if 'Map<' in ty['s']:
            mp = v
        elif 'ReqRespCtx' in ty['s']:
            cx = v
        else:
            pre = strip(v)
    for st in run_all(ctx, e, fi):
        evs = st.events()
        tr = lambda: trace_text(e, st)
        out = variant_of(e, st, st.result, rty)
        okv = getf(st.result, 0, 0) if out == 'Ok' else None
        aty = [v for v in p.types[rty]['v'] if v[0] == 'Ok'][0][2][0][1]
        res = variant_of(e, st, okv, aty) if okv is not None else 'Err'
        def keys(v):
            got = set()
            mentions(v, lambda k: k[0] == 'key' and k[1] == mp[1] and got.add(k[2]) and False, 14)
            return got
        state = {}
        for ev in evs:
            if ev.kind != 'call':
                continue
            if matches(ev.path, (IS_PENDING,)):
                ks = keys(ev.args[1])
                top = e.truth(st, e.mk_eq(st, pre, C(''))) == 1
                if not ctx.oblige(len(ks) == 1 and (top or mentions(ev.args[1], lambda k: k == TERMS[pre[1]], 14)), 'looked-up path', '%s: asks whether %s is pending, which is not the path of the entry\n%s' % (p.where(fi), e.show(ev.args[1]), tr())):
                    continue
                k = ks.pop()
                b = tern(e, st, ev)
                state[k] = b
                if b == 1:
                    ctx.oblige(res == 'Pending', 'pending path used', '%s: a reserved path ends in %s\n%s' % (p.where(fi), res, tr()))
                    n['pending'] = n.get('pending', 0) + 1
            elif matches(ev.path, (ATTR, MAPV)):
                got = set()
                mentions(tuple(ev.args), lambda k: k[0] == 'val' and k[1] == mp[1] and got.add(k[2]) and False, 14)
                for k in got:
                    ctx.oblige(state.get(k) == 0, 'value used without asking for pending', '%s: entry %d is read although its path was not known to be settled\n%s' % (p.where(fi), k, tr()))
                    n['read'] = n.get('read', 0) + 1
                v = var3(e, st, ev)
                if v == 'pending':
                    ctx.oblige(res == 'Pending', 'pending value used', '%s: a pending value ends in %s\n%s' % (p.where(fi), res, tr()))
        if res == 'Available':
            m = 0
            while e.known(st, T('more', mp[1], m)) == 1:
                stored = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (GETV,)) and keys(ev.args[1]) == {m} and variant_of(e, st, ev.ret, TTY.get(ev.ret[1])) == 'Some']
                ctx.oblige(bool(stored) or state.get(m) == 0, 'entry without asking for pending', '%s: an entry is settled although its path may be reserved\n%s' % (p.where(fi), tr()))
                if not stored:
                    read = any(ev.kind == 'call' and matches(ev.path, (ATTR, MAPV)) and mentions(tuple(ev.args), lambda k: k[0] == 'val' and k[1] == mp[1] and k[2] == m, 14) for ev in evs)
                    if not read:
                        no = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (HAS_PREFIX,)) and keys(ev.args[1]) == {m} and tern(e, st, ev) == 0]
                        ctx.oblige(bool(no), 'entry skipped', '%s: an entry is left out although a stored or reserved path may lie below it\n%s' % (p.where(fi), tr()))
                        n['skipped'] = n.get('skipped', 0) + 1
                m += 1
    for k in ('pending', 'read', 'skipped'):
        ctx.floor('lookups: ' + k, n.get(k, 0), 2)


def var3(e, st, ev):
    """pending / available / err of a Result<AttributeState<_>, _> result"""
    r = ev.ret
    rty = TTY.get(r[1]) if r is not None and r[0] == 's' else None
    if rty is None:
        return None
    o = variant_of(e, st, r, rty)
    if o == 'Err':
        return 'err'
    if o != 'Ok':
        return None
    vs = p_ok(e, rty)
    a = getf(r, 0, 0)
    TTY.setdefault(a[1], vs)
    return {'Pending': 'pending', 'Available': 'available'}.get(variant_of(e, st, a, vs))


def p_ok(e, rty):
    return [v for v in e.p.types[rty]['v'] if v[0] == 'Ok'][0][2][0][1]


def variables(ctx):
    """Expression::eval waits for plain variables too"""
    p = ctx.p
    fi = p.find1(EXPR)
    PB = base.pure_boundary
    g = ctx.g
    keep = [IS_PENDING, RESOLVE]
    extra = {k: PB for k in ('map::HashMap::get', 'map::HashMap::contains_key', 'option::Option::cloned', 'option::Option::unwrap_or', 'iterator::Iterator::filter', 'iterator::Iterator::map',
                             'iterator::Iterator::collect', 'cmp::PartialEq::ne', 'cel::is_host_property_root', 'cel::Expression::resolve_grpc', 'str::split', 'context::BodyContext::get_value', 'context::ValueStore::paths')}
    extra.update({IS_PENDING: PB, RESOLVE: boundary, 'context::ReqRespCtx::ensure_attributes': boundary, 'strings::add_string_extensions': boundary, 'cel::add_string_extensions': boundary, 'Expression::add_extended_capabilities': boundary, 'cel::Expression::build_data_map': boundary, MAPV: boundary, 'map::HashMap::insert': boundary})
    e = base.make(p, drop=(EXPR,), opaque=make_cone(p, g, keep, limit=15).opaque, extra=extra)
    self_ = e.params(fi)[0]
    e.K, e.LOOP = 1, 5
    if ctx.tier != 'thorough':
        # only the names of the variables are enumerated; every other collection is empty
        e.KOF = lambda s: e.K if is_vars(e, s, self_) else 0
    e.MAXSTEPS *= 8
    e.MAXPATHS *= 10
    rty = p.fns[fi]['b']['ls'][0][0]
    n = m = 0
    for st in run_all(ctx, e, fi):
        evs = st.events()
        yes = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (IS_PENDING,))]
        res = [ev for ev in evs if ev.kind == 'call' and matches(ev.path, (RESOLVE,))]
        out = variant_of(e, st, st.result, rty)
        a = getf(st.result, 0, 0) if out == 'Ok' else None
        aty = p_ok(e, rty)
        if any(tern(e, st, ev) == 1 for ev in yes):
            m += 1
            ctx.oblige(a is not None and variant_of(e, st, a, aty) == 'Pending', 'reserved variable used', '%s: a variable whose value is still to be stored ends in %s\n%s' % (p.where(fi), out, trace_text(e, st)))
        if res:
            n += 1
            # every variable of the expression was asked for: an exhausted sequence of variables
            ok_ = False
            for s, c in walked_seqs(e, st).items():
                if is_vars(e, s, self_) and all(any(tern(e, st, ev) == 0 and mentions(ev.args[1], lambda q: q[0] == 'elem' and q[1] == s and q[2] == i, 12) for ev in yes) for i in range(c)):
                    ok_ = True
            ctx.oblige(ok_, 'variables of an expression not asked for pending', '%s: an expression is evaluated although a plain variable it names may still have to be stored\n%s' % (p.where(fi), trace_text(e, st)))
    ctx.floor('evaluations', n, 1)
    ctx.floor('evaluations that wait for a variable', m, 1)


def is_vars(e, t, self_):
    """a sequence of the variables the compiled expression refers to"""
    if term_mentions(t, lambda k: k[0] == 'call' and ('references' in k[1] or 'variables' in k[1]), 16):
        return True
    # or a list of names kept with the compiled expression, other than its attributes and body values
    k = TERMS[t]
    n = 0
    while k[0] in ('deref',) and n < 4:
        k = TERMS[k[1]]
        n += 1
    if k[0] == 'fld':
        fs = e.p.types[e.p.adt('cel::Expression')]['v'][0][2]
        nm = fs[k[3]][0] if isinstance(k[3], int) and k[3] < len(fs) else ''
        return 'var' in nm or 'ident' in nm or 'reference' in nm
    return False
