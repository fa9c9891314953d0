"""C18: locks are held briefly, never nested in both orders, never across calls out; a poisoned lock never crashes."""
from engine.rules import *
from engine.base import matches

EXPLANATION = '''A forward dataflow over the MIR of every function of the crate tracks the values that hold a lock guard (results of lock/read/write/borrow, whatever they are wrapped in, and what functions returning
one hand out) from acquisition to drop or move. At every call made while one is live, the call graph (closures and drop glue included) gives the locks that can be taken and whether the host, a task or a user expression can run.
Lock identity is the type the lock protects, which can only merge locks, never tell apart two references to the same one. The resulting acquired-while-holding relation must have no cycle.'''
GUARDS = ('MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'core::cell::Ref', 'core::cell::RefMut', 'std::cell::Ref', 'std::cell::RefMut', 'ReentrantLockGuard')
TAKE = ('Mutex::lock', 'Mutex::try_lock', 'RwLock::read', 'RwLock::write', 'RwLock::try_read', 'RwLock::try_write', 'RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::try_borrow', 'RefCell::try_borrow_mut')
INIT = ('OnceLock::get_or_init', 'OnceCell::get_or_init', 'OnceLock::get_or_try_init', 'OnceCell::get_or_try_init', 'LazyLock::force', 'LazyLock as core::ops::deref::Deref>::deref', 'Once::call_once')
OUT = ('kuadrant::resolver::AttributeResolver::', 'pipeline::tasks::Task::apply', 'tasks::TeardownAction::', 'proxy_wasm::hostcalls::', 'cel::Program::execute', 'cel::objects::Value::resolve')
PANIC = ('core::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::rt::begin_panic', 'std::process::abort', 'std::rt::panic_fmt')


class Types:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def guards(self, ty, depth=0):
        """the lock classes (type protected) of the guards a value of this type owns"""
        if ty is None:
            return frozenset()
        if ty in self.memo:
            return self.memo[ty]
        self.memo[ty] = frozenset()
        t = self.p.ty(ty)
        r = set()
        if t is not None:
            if t['k'] == 'adt':
                last = t['p'].split('::')[-1]
                if last in ('MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'ReentrantLockGuard') or t['p'] in ('core::cell::Ref', 'core::cell::RefMut', 'std::cell::Ref', 'std::cell::RefMut'):
                    r.add(self.cls(t['a'][0] if t.get('a') else None))
                else:
                    for a in t.get('a') or ():
                        if isinstance(a, int) and last not in ('PhantomData', 'Weak', 'Arc', 'Rc') or isinstance(a, int) and last in ('Arc', 'Rc'):
                            r |= self.guards(a)
                    for _n, _d, fs in t.get('v') or ():
                        for _, x in fs:
                            r |= self.guards(x)
            elif t['k'] == 'tup':
                for x in t['ts']:
                    r |= self.guards(x)
            elif t['k'] == 'array':
                r |= self.guards(t['t'])
            elif t['k'] == 'closure':
                for x in t['up']:
                    r |= self.guards(x)
        self.memo[ty] = frozenset(r)
        return self.memo[ty]

    def cls(self, ty):
        t = self.p.ty(ty) if ty is not None else None
        return t.get('s') or t.get('p') or str(ty) if t is not None else '?'


def protected(p, T, ty):
    """the class of the lock behind a receiver type"""
    t = p.ty(ty)
    while t is not None and t['k'] in ('ref', 'ptr'):
        t = p.ty(t['t'])
    return T.cls(t['a'][0]) if t is not None and t['k'] == 'adt' and t.get('a') else '?'


def base_local(pl):
    return pl[0]


def moved(op):
    if isinstance(op, dict) and 'mv' in op:
        return base_local(op['mv'])
    return None


def operands(rv):
    if isinstance(rv, list):
        for y in rv:
            yield from operands(y)
    elif isinstance(rv, dict) and ('mv' in rv or 'cp' in rv):
        yield rv


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'drop':
        return [t[3]]
    if k == 'assert':
        return [t[4]]
    return []


def live(p, T, fi, own, seed):
    """forward fixpoint: block -> {local: classes} of the guards that may be live on entry; returns the state before every terminator"""
    b = p.fns[fi]['b']
    n = len(b['bb'])
    inn = [None] * n
    inn[0] = dict(seed)
    work = [0]
    at = {}
    while work:
        x = work.pop()
        st = dict(inn[x])
        blk = b['bb'][x]
        for s in blk['s']:
            if s[0] == '=':
                dest = base_local(s[1])
                got = set()
                for op in operands(s[2]):
                    m = moved(op)
                    if m is not None and m in st:
                        got |= st.pop(m)
                if got and own[dest]:
                    st[dest] = frozenset(got) | st.get(dest, frozenset())
            elif s[0] in ('x',):
                st.pop(s[1], None)
        at[x] = dict(st)
        t = blk['t']
        if t[0] == 'call':
            got = set()
            for a in t[2]:
                m = moved(a)
                if m is not None and m in st:
                    got |= st.pop(m)
            dest = base_local(t[3])
            if own[dest]:
                st[dest] = frozenset(got | own[dest])
        elif t[0] == 'drop' and not t[1][1]:
            st.pop(t[1][0], None)
        for y in succs(t):
            if inn[y] is None:
                inn[y] = dict(st)
                work.append(y)
            else:
                ch = False
                for k, v in st.items():
                    if not v <= inn[y].get(k, frozenset()):
                        inn[y][k] = inn[y].get(k, frozenset()) | v
                        ch = True
                if ch:
                    work.append(y)
    return at


def crate_of(path):
    x = path.lstrip('<&').split('::')[0]
    return x.split(' as ')[0]


def closures_in(p, ty, seen=None):
    """closures and functions a value of this type may be"""
    seen = set() if seen is None else seen
    if ty is None or ty in seen:
        return set()
    seen.add(ty)
    t = p.ty(ty)
    if t is None:
        return set()
    r = set()
    if t['k'] in ('closure', 'fndef'):
        if t.get('f') is not None:
            r.add(t['f'])
        for x in t.get('up') or ():
            r |= closures_in(p, x, seen)
    elif t['k'] in ('ref', 'ptr', 'slice', 'array'):
        r |= closures_in(p, t['t'], seen)
    elif t['k'] == 'tup':
        for x in t['ts']:
            r |= closures_in(p, x, seen)
    elif t['k'] == 'adt':
        for x in t.get('a') or ():
            if isinstance(x, int):
                r |= closures_in(p, x, seen)
    return r


def check(ctx):
    p, g = ctx.p, ctx.g
    ctx.rule('while a guard is live no call can take the same lock, and the order locks are taken in has no cycle')
    ctx.rule('while a guard is live no call can reach the host, a task, or the evaluation of an expression')
    ctx.rule('the result of taking a lock is not unwrapped into a panic')
    T = Types(p)
    takes = {}
    for s, path in g.calls_named(lambda path, c: matches(path, TAKE)):
        takes.setdefault(s.fi, set()).add(protected(p, T, s.argtys[0]))
    inits = {}
    for s, path in g.calls_named(lambda path, c: matches(path, INIT)):
        inits.setdefault(s.fi, []).append((s, 'initialiser of ' + protected(p, T, s.argtys[0])))
    ctx.floor('functions that take a lock', sum(1 for k in takes if p.fns[k]['l']), 8)
    # callbacks: a closure handed to another crate may be run by any later call into that crate
    kept = {}
    for s, path in g.calls_named(lambda path, c: True):
        if s.callee is None or not p.fns[s.fi]['l']:
            continue
        if 'f' in s.callee and p.fns[s.callee['f']]['b'] is not None and p.fns[s.callee['f']]['l']:
            continue
        cr = crate_of(path)
        if cr in ('core', 'alloc', 'std', ''):
            continue
        for a in s.argtys:
            kept.setdefault(cr, set()).update(closures_in(p, a))
    processors = {i for i, f in enumerate(p.fns) if (f.get('ti') or '').endswith(('SpanProcessor::on_end', 'SpanProcessor::on_start', 'SpanProcessor::force_flush', 'SpanProcessor::shutdown')) and f['l']}
    spans = ('opentelemetry', 'opentelemetry_sdk', 'tracing_opentelemetry')

    def called(s):
        """functions a call site may run: the callee, closures among its arguments, kept callbacks"""
        r = set()
        if s.callee is not None:
            r |= g._callee(s.callee)
        for a in s.argtys:
            r |= closures_in(p, a)
        return r

    memo = {}

    def closed(fs):
        """everything that may run below a set of functions"""
        seen, st = set(), list(fs)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if p.fns[x]['b'] is None:
                cr = crate_of(p.fns[x]['p'])
                st += kept.get(cr, ())
                if cr in spans or p.fns[x]['p'].startswith('tracing::span::'):
                    st += processors
            else:
                st += g.edges.get(x, ())
        return seen

    def effects(i):
        if i not in memo:
            r = closed({i})
            locks, out = {}, {}
            for x in r:
                for c in takes.get(x, ()):
                    locks.setdefault(c, x)
                for _s, c in inits.get(x, ()):
                    locks.setdefault(c, x)
                for s in g.sites.get(x, ()):
                    if s.callee is not None:
                        q = g.path_of(s.callee)
                        if q and any(o in q for o in OUT):
                            out.setdefault(q, x)
                if any(o in p.fns[x]['p'] for o in OUT):
                    out.setdefault(p.fns[x]['p'], x)
            memo[i] = (locks, out)
        return memo[i]

    order = {}
    held = nsites = 0
    for fi, f in enumerate(p.fns):
        if f['b'] is None or not f['l']:
            continue
        own = [T.guards(l[0]) for l in f['b']['ls']]
        where = p.short(p.fns[g.root_fn(fi)]['p'])
        # initialisers hold their cell while they run
        for s, c in inits.get(fi, ()):
            locks = {}
            for x in called(s):
                for k, v in effects(x)[0].items():
                    locks.setdefault(k, v)
            for k in locks:
                order.setdefault(c, {}).setdefault(k, (where, p.where(fi, s.line)))
        if not any(own):
            continue
        ctx.cov['functions_analysed'].add(f['p'])
        seed = {k: own[k] for k in range(1, f['b']['n'] + 1) if own[k]}
        at = live(p, T, fi, own, seed)
        sites = {s.bb: s for s in g.sites.get(fi, ())}
        for bb, st in at.items():
            t = f['b']['bb'][bb]['t']
            if t[0] == 'call':
                s = sites[bb]
                path = g.path_of(s.callee) if s.callee is not None else '?'
                if matches(path or '', TAKE):
                    nsites += 1
                gone = {moved(a) for a in t[2]}
                alive = {c for k, v in st.items() for c in v} if not matches(path or '', ('mem::drop',)) else {c for k, v in st.items() if k not in gone for c in v}
                if not alive:
                    continue
                held += 1
                locks, out = {}, {}
                if matches(path or '', TAKE):
                    locks[protected(p, T, s.argtys[0])] = fi
                if path and any(o in path for o in OUT):
                    out[path] = fi
                if s.callee is None:
                    out['a call through a function value'] = fi
                for x in called(s):
                    l, o = effects(x)
                    locks.update({k: v for k, v in l.items() if k not in locks})
                    out.update(o)
                dyn = [a for a in s.argtys[:1] if path and path.split('::')[-1] in ('call', 'call_mut', 'call_once') and 'ops::function' in path]
                if dyn and not called(s):
                    out['a closure it was given'] = fi
                line = s.line
            elif t[0] == 'drop':
                dropped = base_local(t[1]) if not t[1][1] else None
                alive = {c for k, v in st.items() if k != dropped for c in v}
                if not alive:
                    continue
                fs = set()
                g._dropedges(t[2], fs, set())
                locks, out = {}, {}
                for x in fs:
                    l, o = effects(x)
                    locks.update({k: v for k, v in l.items() if k not in locks})
                    out.update(o)
                line = t[-1]
            else:
                continue
            for c in alive:
                for k, by in locks.items():
                    order.setdefault(c, {}).setdefault(k, (where, p.where(fi, line)))
            ctx.oblige(not out, 'out: %s' % where, 'a lock on %s is held while %s can run, at %s' % (sorted(alive)[0][:60], sorted(p.short(x) for x in out)[:3], p.where(fi, line)))
        # a function that keeps the guard in what it stores or returns prolongs it
        if own[0]:
            ctx.sample({'hands out a guard': f['p']})
    for i, t in enumerate(p.types):
        if t['k'] == 'adt' and t.get('l') and T.guards(i):
            ctx.oblige(False, 'guard kept: %s' % t['p'], 'a type of the crate owns a lock guard: %s' % t['p'])
    ctx.floor('calls made while a lock is held', held, 8)
    ctx.floor('places that take a lock', nsites, 10)
    for a in order:
        for b, (where, at) in order[a].items():
            ctx.oblige(a != b, 'same lock: %s' % where, 'the lock on %s can be taken while it is held: %s' % (a[:60], at))
            if a != b:
                ctx.oblige(not reaches(order, b, a), 'order: %s' % where, 'the lock on %s is taken while %s is held, and elsewhere the other way round: %s' % (b[:50], a[:50], at))
            ctx.sample({'while holding': a, 'may take': b, 'at': at})
    poison(ctx, T)


def reaches(order, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st += order.get(x, ())
    return False


def poison(ctx, T):
    """what carries a guard is never unwrapped, and no branch taken because it is poisoned panics"""
    p, g = ctx.p, ctx.g
    n = 0
    for fi, f in enumerate(p.fns):
        if f['b'] is None or not f['l']:
            continue
        own = [T.guards(l[0]) for l in f['b']['ls']]
        if not any(own):
            continue
        where = p.short(p.fns[g.root_fn(fi)]['p'])
        for s in g.sites.get(fi, ()):
            path = g.path_of(s.callee) if s.callee is not None else ''
            last = (path or '').split('::')[-1]
            rt = p.ty(s.argtys[0]) if s.argtys else None
            if rt is None or not T.guards(s.argtys[0]) or rt['k'] != 'adt' or rt['p'].split('::')[-1] not in ('Result', 'Option', 'PoisonError', 'TryLockError'):
                continue
            n += 1
            ctx.oblige(last not in ('unwrap', 'expect', 'unwrap_unchecked', 'unwrap_err', 'expect_err'), 'unwrapped: %s' % where, 'the result of taking a lock is unwrapped, so a poisoned lock panics: %s' % p.where(fi, s.line))
            for a in s.argtys[1:]:
                for c in closures_in(p, a):
                    r = panics(p, g, c)
                    ctx.oblige(not r, 'panics: %s' % where, 'what handles a poisoned lock panics: %s' % p.where(fi, s.line))
        # branches on the outcome
        b = f['b']
        for bi, blk in enumerate(b['bb']):
            t = blk['t']
            if t[0] != 'sw':
                continue
            on = None
            for s in blk['s']:
                if s[0] == '=' and isinstance(s[2], list) and s[2][0] == 'disc' and 'cp' in t[1] | {'cp': t[1].get('mv', t[1].get('cp'))} and s[1][0] == t[1].get('mv', t[1].get('cp'))[0]:
                    on = s[2][1]
            if on is None or on[1] or not own[on[0]]:
                continue
            ty = p.ty(b['ls'][on[0]][0])
            if ty['k'] != 'adt' or ty['p'].split('::')[-1] != 'Result':
                continue
            n += 1
            tg = {v: x for v, x in t[3]}
            err = tg.get('1', t[4])
            ok = tg.get('0', t[4])
            a, o = flow(b, err), flow(b, ok)
            for x in a - o:
                tt = b['bb'][x]['t']
                if tt[0] == 'call':
                    s = [s for s in g.sites[fi] if s.bb == x][0]
                    path = g.path_of(s.callee) if s.callee is not None else ''
                    ctx.oblige(not (path or '').startswith(PANIC), 'branch: %s' % where, 'a poisoned lock panics: %s' % p.where(fi, s.line))
    ctx.floor('outcomes of taking a lock handled', n, 10)


def flow(b, x):
    seen, st = set(), [x]
    while st:
        y = st.pop()
        if y is None or y in seen:
            continue
        seen.add(y)
        st += succs(b['bb'][y]['t'])
    return seen


def panics(p, g, c):
    return [x for x in g.reach(c) if p.fns[x]['p'].startswith(PANIC) or any((g.path_of(s.callee) or '').startswith(PANIC) for s in g.sites.get(x, ()) if s.callee is not None) and p.fns[x]['l']]
