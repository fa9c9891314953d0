"""C25: buffered spans are bounded, exported at most once and kept in order."""
from engine.acts import *
from engine.base import boundary, pure_boundary, matches, make_cone
from engine.zone import Zone
from .c13 import DISPATCH, SPANS, SVCX, message_of, walked

EXPLANATION = '''Every function of the crate that can reach the span buffer is run as abstract paths over an unknown buffer, and what each path leaves in it is compared with the four things that may happen to it:
nothing, all spans taken and returned in order, all discarded at shutdown, or one span appended by the processor with the oldest dropped exactly when the buffer is full (shown by difference bounds).
The export task is run in the same way: it takes once, sends once, and the message holds each taken span once and in order.'''
ONEND = 'SpanProcessor>::on_end'


class Buffer:
    """the one type that keeps finished spans behind a lock"""

    def __init__(self, ctx):
        p = self.p = ctx.p
        self.ctx = ctx
        self.state = None
        found = []
        for i, t in enumerate(p.types):
            if t['k'] == 'adt' and t.get('l') and len(t['v']) == 1:
                r = self.look(i, 0)
                if r is not None and any('Mutex' in p.types[x]['p'] for x in r[1] if p.types[x]['k'] == 'adt'):
                    found.append((i, r))
        # the outermost one that is no wrapper of another found one
        tys = {i for i, _ in found}
        top = [(i, r) for i, r in found if not any(i != j and i in r2[1] for j, r2 in found)]
        if len(top) != 1:
            raise AnalysisError('%d types keep spans behind a lock: %s' % (len(top), [p.types[i]['p'] for i, _ in top]))
        self.ty, (self.path, _) = top[0]
        nums = [j for j, (n, t) in enumerate(p.types[self.ty]['v'][0][2]) if p.types[t]['k'] == 'int']
        if len(nums) != 1:
            raise AnalysisError('the capacity of the span buffer is not found')
        self.cap = nums[0]
        del tys

    def look(self, i, depth):
        """field path from type i to a sequence of spans, with the types on the way"""
        p = self.p
        t = p.types[i]
        if t['k'] != 'adt' or depth > 6:
            return None
        if t['p'].endswith(('VecDeque', 'vec::Vec', 'LinkedList')) and t['s'].split('<', 1)[-1].startswith('opentelemetry_sdk::trace::') and 'SpanData' in t['s']:
            return (), (i,)
        if len(t['v']) != 1:
            return None
        for j, (n, ft) in enumerate(t['v'][0][2]):
            if ft is None:
                continue
            r = self.look(ft, depth + 1)
            if r is not None:
                return (j,) + r[0], (i,) + r[1]
        if t['p'].endswith('mutex::Mutex') or t['p'].endswith('UnsafeCell'):
            for a in t['a']:
                r = self.look(a, depth + 1)
                if r is not None:
                    return ('mx',) + r[0], (i,) + r[1]
        return None


    def is_guard(self, t, depth=0):
        """a type that lets its holder at the content of the lock"""
        x = self.p.types[t]
        if x['k'] == 'adt':
            if x['p'].endswith('MutexGuard'):
                return self.look_in(x, depth)
            return x['p'].endswith(('Option', 'Result')) and any(self.is_guard(a, depth + 1) for a in x['a'] if depth < 4)
        if x['k'] == 'ref' and x['m']:
            return self.look(x['t'], 0) is not None
        return False

    def look_in(self, x, depth):
        return any(self.look(a, 0) is not None for a in x['a'])

    def lockers(self):
        """functions that take the lock, and the callers of those that hand out what is behind it"""
        p, g = self.p, self.ctx.g
        out, work, seen = set(), [], set()
        inner = self.behind()
        for i, f in enumerate(p.fns):
            if not f['l'] or f['b'] is None or '::tests::' in f['p']:
                continue
            for s in g.sites.get(i, ()):
                for t in s.argtys or ():
                    x = p.types[t]
                    while x['k'] in ('ref', 'ptr'):
                        t = x['t']
                        x = p.types[t]
                    if x['k'] == 'adt' and x['p'].endswith('mutex::Mutex') and any(a == inner for a in x['a']):
                        work.append(i)
        while work:
            i = g.root_fn(work.pop())
            if i in seen:
                continue
            seen.add(i)
            ret = p.fns[i]['b']['ls'][0]
            ret = ret[0] if isinstance(ret, (list, tuple)) else ret
            if self.is_guard(ret):
                work += [x for x in g.callers(i) if '::tests::' not in p.fns[x]['p'] and p.fns[x]['l']]
            else:
                out.add(i)
        return out

    def behind(self):
        """the type the lock protects"""
        t = self.ty
        for j in self.path:
            x = self.p.types[t]
            if j == 'mx':
                return [a for a in x['a'] if self.look(a, 0) is not None][0]
            t = x['v'][0][2][j][1]
        raise AnalysisError('the span buffer is behind no lock')

    def tail(self):
        return self.path[self.path.index('mx') + 1:]

    def effects(self, e, st):
        """[(initial queue, final queue, capacity, times locked)] of every buffer the path locked"""
        first, times = {}, {}
        inner = self.behind()
        pre = self.path[:self.path.index('mx')]
        for ev in st.events():
            if ev.kind != 'lock' or ev.ret is None or ev.ret[0] != 'r' or not ev.ret[2] or ev.ret[2][-1][0] != 'mx':
                continue
            m = getf(strip(ev.args[0]), 0, 'mx')
            ty = [x[3] for x in ev.ret[2] if x[0] == 'f' and x[3] is not None]
            if not ty or not any(a == inner for a in self.p.types[ty[-1]].get('a', ())):
                continue
            k = (ev.ret[1], ev.ret[2])
            times[k] = times.get(k, 0) + 1
            first.setdefault(k, m)
        out = []
        for k, m in first.items():
            F = e.snap(st, e.load(st, k[0], k[1]))
            cap = e.snap(st, e.load(st, k[0], k[1][:len(k[1]) - 1 - len(pre)] + (('f', 0, self.cap, None),)))
            for j in self.tail():
                m, F = getf(m, 0, j), getf(F, 0, j)
            out.append((m, F, cap, times[k]))
        return out


def shape(st, e, v, q):
    """(dropped in front, elements after it) of a sequence made of the initial one q (a term or None), else None"""
    v = strip(v)
    if v[0] == 's':
        return (0, ()) if q is not None and v[1] == q else None
    if v[0] != 'v':
        return None
    i, at = 0, None
    segs = list(v[1])
    start = None
    while i < len(segs) and q is not None:
        s = segs[i]
        if s[0] == 'rest' and s[1] == q:
            if at is not None and s[2] != at:
                return None
            start = s[2] if start is None else start
            at = 'end'
            i += 1
            break
        x = strip(e.snap(st, s[1])) if s[0] == 'e' else None
        if x is not None and x[0] == 's' and TERMS[x[1]][0] == 'elem' and TERMS[x[1]][1] == q:
            j = TERMS[x[1]][2]
            if at is not None and j != at:
                return None
            start = j if start is None else start
            at = j + 1
            i += 1
            continue
        break
    rest = []
    for s in segs[i:]:
        if s[0] != 'e':
            return None
        rest.append(strip(e.snap(st, s[1])))
    if q is None:
        return 0, tuple(rest)
    n = 0
    while e.known(st, T('more', q, n)) == 1:
        n += 1
    whole = e.known(st, T('more', q, n)) == 0 or n >= e.klimit(q)      # the path knows there are n (or longer ones are cut)
    if at is None:
        return (n if whole else None, tuple(rest))
    if at != 'end' and not (whole and at == n):
        return None
    return start, tuple(rest)


def judge(ctx, B, e, st, name, span, kinds):
    """what a path did to the buffers it locked"""
    r = strip(e.snap(st, st.result))
    for q0, F, cap, times in B.effects(e, st):
        q0 = strip(q0)
        q = q0[1] if q0[0] == 's' else None
        if q is None and q0 != ('v', ()):
            ctx.oblige(False, '%s: initial' % name, '%s: the buffer is %s at first' % (name, e.show(q0)))
            continue
        sh = shape(st, e, F, q)
        tr = 'the buffer becomes %s\n%s' % (e.show(F), trace_text(e, st))
        if not ctx.oblige(sh is not None, '%s: shape' % name, '%s: the buffer is no longer the one before without its first spans and with new ones at the end: %s' % (name, tr)):
            continue
        n, new = sh
        def parts(v, d=0):
            v = strip(v)
            if v != ('v', ()) and shape(st, e, v, q) == (0, ()):
                return True
            if v[0] == 's' and TERMS[v[1]][0] == 'call' and len(TERMS[v[1]][2]) == 1:
                return d < 4 and parts(TERMS[v[1]][2][0], d + 1)
            return v[0] == 'a' and d < 4 and any(parts(x, d + 1) for _, x in v[4])
        if n == 0 and not new:
            kinds.add('none')
            ctx.oblige(q is None or not parts(r) or e.known(st, T('more', q, 0)) == 0, '%s: copied' % name, '%s: spans are handed out and stay in the buffer: %s' % (name, tr))
            continue
        ctx.oblige(times == 1, '%s: one lock' % name, '%s: the buffer is changed in more than one critical section' % name)
        if new:
            kinds.add('append')
            if not ctx.oblige(span is not None and new == (span,), '%s: what' % name, '%s: something else than the finished span is appended: %s' % (name, tr)):
                continue
            if q is None:
                ctx.oblige(cap[0] == 'c' and cap[1] >= 1, '%s: capacity' % name, 'the span buffer is made with the capacity %s' % e.show(cap))
                continue
            ln = ('s', T('len', ('s', q)))
            z = Zone(e, st)
            never_full(st, z, ln, cap)
            if n is None or e.known(st, T('more', q, 0)) == 0:
                ctx.oblige(True, '%s: bound' % name, '')      # one span in an empty buffer
                continue
            if n == 0:
                ctx.oblige(z.le(ln, cap, 1), '%s: bound' % name, '%s: a span is added to a buffer that may be full: %s' % (name, tr))
            else:
                ctx.oblige(z.le(cap, ln, -(n - 1)), '%s: newest kept' % name, '%s: %d spans are dropped from a buffer that need not be full: %s' % (name, n, tr))
        elif n is None or F == ('v', ()):
            if parts(r):
                kinds.add('take')
            elif q is not None and e.known(st, T('more', q, 0)) == 0:
                kinds.add('none')
            else:
                kinds.add('discard')
                ctx.sample('%s discards' % name)
        else:
            ctx.oblige(False, '%s: partly' % name, '%s: some spans leave the buffer: %s' % (name, tr))


def never_full(st, z, ln, cap):
    """the invariant: the buffer holds no more than its capacity, so one that is not full has room"""
    z.edge(ln, cap, 0)
    for a, b in ((ln, cap), (cap, ln)):
        t = TIX.get(('eq', a, b))
        if t is not None and st.facts.get(t) == ('=', 0):
            z.edge(ln, cap, 1)


def check(ctx):
    p, g = ctx.p, ctx.g
    ctx.rule('a path of a function that locks the span buffer leaves it as it was, takes all of it and returns that in order, or appends the finished span, dropping the oldest one exactly when the buffer is full')
    B = Buffer(ctx)
    roots = B.lockers()
    impls = p.trait_impls('span_processor::SpanProcessor', 'on_end') + p.trait_impls('span_processor::SpanProcessor', 'on_start') + p.trait_impls('span_processor::SpanProcessor', 'force_flush')
    ends = {fi for h, fi in impls if p.fns[fi]['l'] and p.fns[fi]['p'].endswith('on_end')}
    roots |= {fi for h, fi in impls if p.fns[fi]['l']}
    what = {}
    for i in sorted(roots):
        e = base.make(p)
        e.K = 3 + (ctx.tier == 'thorough')
        states = e.run(i)
        ctx.engine_stats(e)
        ctx.cov['functions_analysed'].add(p.fns[i]['p'])
        span = None
        if i in ends:
            span = e.params(i)[1]
        for st in states:
            k = set()
            judge(ctx, B, e, st, p.fns[i]['p'], span, k)
            if i in ends:
                ctx.oblige('append' in k, '%s: kept' % p.fns[i]['p'], '%s: a finished span is not buffered\n%s' % (p.fns[i]['p'], trace_text(e, st)))
            what.setdefault(i, set()).update(k)
    for i, k in what.items():
        ctx.sample('%s: %s' % (p.fns[i]['p'], ', '.join(sorted(k))))
        ctx.oblige('take' not in k or 'discard' not in k, '%s: take' % p.fns[i]['p'], '%s does not always return what it takes' % p.fns[i]['p'])
    ctx.floor('processors', len(ends), 2)
    ctx.floor('functions adding spans', sum('append' in k for k in what.values()), 1)
    takers = [i for i, k in what.items() if 'take' in k]
    ctx.floor('functions taking spans', len(takers), 1)
    ctx.rule('spans are discarded unexported only when the processor is shut down')
    discards(ctx, [i for i, k in what.items() if 'discard' in k and 'take' not in k])
    ctx.rule('the buffer is made empty with a capacity of at least one, and there is one of it')
    made(ctx, B)
    ctx.rule('finished spans reach the buffer once: one processor is registered')
    sites = [s for s, path in g.calls_named(lambda path, c: path is not None and path.endswith(('::with_span_processor', '::with_simple_exporter', '::with_batch_exporter'))) if p.fns[s.fi]['l'] and '::tests::' not in p.fns[s.fi]['p']]
    ctx.oblige(len(sites) == 1, 'one processor', '%d span processors are registered: %s' % (len(sites), [p.fns[s.fi]['p'] for s in sites]))
    ctx.rule('the export task takes once, sends at most once, and each taken span is in the message once and in order')
    exports(ctx, takers)


def discards(ctx, fns):
    p, g = ctx.p, ctx.g
    for i in fns:
        seen, work = set(), [i]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            f = p.fns[x]
            if '::tests::' in f['p'] or not f['l']:
                continue
            if f['p'].endswith(('SpanProcessor>::shutdown', 'SpanProcessor>::shutdown_with_timeout')):
                continue
            cs = {g.root_fn(c) for c in g.callers(x)} - {x}
            cs = {c for c in cs if p.fns[c]['l'] and '::tests::' not in p.fns[c]['p']}
            ctx.oblige(x == i and not f['p'].startswith('<') or bool(cs), 'discard: %s' % f['p'], '%s empties the span buffer without exporting what is in it' % f['p'])
            ok = {c for c in cs if p.fns[c]['p'].endswith(('SpanProcessor>::shutdown', 'SpanProcessor>::shutdown_with_timeout'))}
            work += [c for c in cs - ok]
            ctx.oblige(not [c for c in cs - ok if x == i and c not in fns and not g.callers(c)], 'discard: %s: caller' % f['p'], '%s is called from %s' % (f['p'], sorted(p.fns[c]['p'] for c in cs - ok)))


def made(ctx, B):
    p = ctx.p
    n = 0
    for i, f in enumerate(p.fns):
        if not f['l'] or f['b'] is None or '::tests::' in f['p'] or '{closure' in f['p']:
            continue
        ret = f['b']['ls'][0]
        ret = ret[0] if isinstance(ret, (list, tuple)) else ret
        if ret != B.ty:
            continue
        e = base.make(p)
        for st in e.run(i):
            n += 1
            v = e.snap(st, st.result)
            cap = strip(getf(v, 0, B.cap))
            q = v
            for j in B.path:
                q = getf(q, 0, j)
            q = strip(q)
            ps = [strip(x) for x in e.params(i)]
            ctx.oblige(q == ('v', ()), 'made: %s' % f['p'], '%s makes a buffer holding %s' % (f['p'], e.show(q)))
            ctx.oblige(cap in ps or cap[0] == 'c' and cap[1] >= 1, 'made: %s: capacity' % f['p'], '%s makes a buffer with the capacity %s' % (f['p'], e.show(cap)))
        ctx.engine_stats(e)
    ctx.floor('functions making the buffer', n, 1)


def exports(ctx, takers):
    p = ctx.p
    tk = [p.fns[i]['p'] for i in takers]
    n = 0
    for h, fi in p.trait_impls('pipeline::tasks::TeardownAction', 'execute'):
        if not p.fns[fi]['l'] or '::tests::' in p.fns[fi]['p']:
            continue
        e = make_cone(p, ctx.g, [DISPATCH] + tk, dict(SVCX, **{t: boundary for t in tk}), keep=('services::tracing::*',))
        e.quiet_drops = ()
        states = e.run(fi)
        ctx.engine_stats(e)
        name = p.fns[fi]['p']
        for st in states:
            evs = [ev for ev in st.events() if ev.kind == 'call']
            ds = [ev for ev in evs if matches(ev.path, (DISPATCH,))]
            ts = [ev for ev in evs if ev.path in tk or any(ev.path.endswith(t.split('::', 1)[-1]) for t in tk)]
            tr = trace_text(e, st)
            ctx.oblige(len(ts) == 1 or not ts and not ds, '%s: takes' % name, '%s: spans are taken %d times and sent %d times\n%s' % (name, len(ts), len(ds), tr))
            ctx.oblige(len(ds) <= 1, '%s: sends' % name, '%s: spans are sent %d times\n%s' % (name, len(ds), tr))
            if len(ts) != 1:
                continue
            s = strip(ts[0].ret)[1]
            k = walked(e, st, s)
            if not ds:
                ctx.oblige(k == 0, '%s: sent' % name, '%s: spans are taken and not sent\n%s' % (name, tr))
                continue
            n += 1
            msg = message_of(e, st, ds[0].args[5])
            got = []
            spans_in(e, st, msg, s, got)
            ctx.oblige(k is not None and got == list(range(k)), '%s: each once' % name, '%s: of %s spans taken the message holds %s\n%s' % (name, k, got, tr))
    ctx.floor('exports', n, 1)


def spans_in(e, st, v, s, out):
    """indices of the taken spans in the innermost lists of the message"""
    v = strip(v)
    if v[0] == 'v':
        before = len(out)
        for x in v[1]:
            if x[0] == 'e':
                spans_in(e, st, x[1], s, out)
        if len(out) == before:
            for x in v[1]:
                if x[0] == 'e':
                    w = x[1]
                    out += [i for i in range(8) if mentions(w, lambda q: q == TERMS[T('elem', s, i)], 40)]
                elif x[1] == s:
                    out += ['all']
    elif v[0] == 'a':
        for _, x in v[4] if v[4] != '..' else ():
            spans_in(e, st, x, s, out)
