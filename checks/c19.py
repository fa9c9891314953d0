"""C19: nothing a peer, the host or the configuration sends can make the filter panic."""
from engine.rules import *
from engine.core import *
from engine.base import matches
from engine import base
from engine.zone import Zone, plain, position, width, slice_of, rest_of
from engine.models import seq_place, strip

EXPLANATION = '''Every panicking operation in the crate is enumerated from the MIR (panic machinery, unwrap and expect, checked arithmetic, index and slice operations, library calls that panic on a bad position).
Each is then shown not to fire by abstract interpretation of the function it is in: for each abstract path that reaches it, a difference-bound system built from that path's branches and from lengths, found positions and
character boundaries must imply its precondition, or the value unwrapped must be made of program constants only, or the path must be impossible because the enum value it needs is never made anywhere in the program.
What the function alone does not show is retried with its callees and then with each of its callers.'''
PANIC = ('core::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::rt::begin_panic', 'core::str::slice_error_fail',
         'core::slice::index::', 'std::process::abort', 'core::cell::panic_')
RANGE = ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive')
HOST = 'kuadrant::resolver::AttributeResolver::'
UNWRAP = ('unwrap', 'expect', 'unwrap_err', 'expect_err')


def panicky(path):
    """callee whose failure is a panic: kind of precondition"""
    last = path.split('::')[-1]
    if path.startswith(PANIC):
        return 'panic'
    if last in UNWRAP and ('Option::' in path or 'Result::' in path):
        return 'unwrap'
    if path.endswith(('Index>::index', 'IndexMut>::index_mut')):
        return 'index'
    own = path.rsplit('::', 2)[-2] if path.count('::') > 1 else ''
    if own in ('Vec', 'VecDeque', 'String', 'str', '[T]') or path.startswith(('str::', '[T]::')):
        if last in ('remove', 'insert', 'swap_remove', 'split_off', 'split_at', 'split_at_mut', 'drain', 'copy_from_slice', 'clone_from_slice', 'swap', 'insert_str', 'replace_range', 'chunks', 'chunks_exact', 'windows', 'step_by',
                    'truncate', 'rotate_left', 'rotate_right', 'copy_within', 'select_nth_unstable'):
            if own in ('Vec', 'VecDeque', '[T]') and last == 'truncate':
                return None
            return 'seq'
    if last in ('step_by',) or path.endswith(('Duration::from_secs_f64', 'Duration::from_secs_f32', 'RefCell::borrow', 'RefCell::borrow_mut', 'char::from_digit')):
        return 'other'
    if path.endswith(('Add>::add', 'Sub>::sub', 'Div>::div', 'Mul>::mul', 'Rem>::rem', 'AddAssign>::add_assign', 'SubAssign>::sub_assign', 'MulAssign>::mul_assign', 'DivAssign>::div_assign')) and ('Duration' in path or 'Instant' in path or 'DateTime' in path or 'TimeDelta' in path):
        return 'other'
    return None


class E(Engine):
    LOOP = 4
    LENLIM = False
    LENSPLIT = False

    def opaque_call(self, st, fr, path, fi, name, args, dest, target, dt, argtys, note=None, pure=None):
        if pure is None:
            muts = any(self.p.types[t]['k'] == 'ref' and self.p.types[t]['m'] and self.p.types[self.p.types[t]['t']]['k'] != 'closure' for t in argtys or ())
            pure = not muts and not self.tohost(fi, path)
        return Engine.opaque_call(self, st, fr, path, fi, name, args, dest, target, dt, argtys, note, pure)

    def tohost(self, fi, path):
        if HOST in path:
            return True
        if fi is None or self.p.fns[fi]['b'] is None:
            return False
        m = self.memo
        if fi not in m:
            m[fi] = bool(self.g.reach_named(fi, lambda q: HOST in q))
        return m[fi]


def own(p, st):
    """the function of the crate that is executing, with its block"""
    for x in reversed(st.frames):
        if x.native is None and p.fns[x.fi]['l']:
            return x.fi, x.bb, x.line
    return None


def sites(p, g, fi):
    """panicking operations in one body: block -> kind"""
    r = {}
    f = p.fns[fi]
    calls = {s.bb: s for s in g.sites.get(fi, ())}
    for bi, b in enumerate(f['b']['bb']):
        if b.get('cl'):
            continue
        t = b['t']
        if t[0] == 'assert':
            kind = t[3]
            if kind.startswith('Discriminant') or 'resumed' in kind.lower():
                continue
            r[bi] = kind
        elif t[0] == 'call' and bi in calls:
            s = calls[bi]
            path = g.path_of(s.callee) if s.callee is not None else ''
            k = panicky(path or '')
            if k:
                r[bi] = k + ' ' + (path or '').split('::')[-1]
    return r


def make(ctx, inline, logs=None):
    p, g = ctx.p, ctx.g
    obl = {}

    def note(st, ok, why):
        at = own(p, st)
        if at is None:
            return
        obl.setdefault(at[:2], []).append((bool(ok), why, at[2], frozenset() if ok else frozenset(named(st))))

    def named(st):
        for t in st.facts:
            yield from calls_in(('s', t))

    def on_assert(st, fr, t, c, tv):
        if t[3] == 'bounds':
            ok = tv == 1
            if not ok and c[0] == 's' and TERMS[c[1]][0] == 'lt':
                k = TERMS[c[1]]
                ok = Zone(e, st).le(k[1], k[2], 1)
            elif not ok and c[0] == 's' and TERMS[c[1]][0] == 'not':
                k = TERMS[TERMS[c[1]][1]]
                if k[0] == 'eq' and k[2] == C(0):
                    ok = Zone(e, st).le(C(1), k[1], 0)
            note(st, ok, 'index within bounds')
        elif not t[3].startswith(('overflow', 'Discriminant')):
            note(st, tv == (1 if t[2] else 0), t[3])

    def on_arith(st, op, a, b, ty):
        z = Zone(e, st)
        if op == 'Sub':
            note(st, z.le(b, a) or counted(ctx, e, a, b), 'subtraction stays above zero')
        elif op == 'Add':
            note(st, small(st, a) and small(st, b) or step(a, b) or step(b, a) or bounded(z, a, b), 'sum stays in range')
        else:
            note(st, False, op)

    def step(v, by):
        return by[0] == 'c' and isinstance(by[1], int) and 0 <= by[1] <= 1024 and not foreign(p, v)

    def small(st, v):
        """a quantity bounded by what fits in memory, or a count of events"""
        if v[0] == 'c':
            return True
        if v[0] != 's':
            return False
        k = TERMS[v[1]]
        if k[0] in ('len', 'index') or position(v) is not None:
            return True
        if k[0] in ('Add', 'Sub'):
            return small(st, k[1]) and (k[0] == 'Sub' or small(st, k[2]))
        if k[0] == 'call':
            return k[1].split('::')[-1] in ('len', 'count', 'encoded_len', 'encoded_len_repeated', 'len_utf8', 'position')
        if k[0] in ('fld', 'deref', 'param', 'val', 'mut', 'elem'):
            # a number kept in a field of the program's own data; numbers of expression values and messages are not
            return kept(p, v)
        return False

    def bounded(z, a, b):
        return any(z.le(x, ('s', T('len', y))) for x in (a, b) for y in texts(z))

    def texts(z):
        return [TERMS[v[1]][1] for v in list(z.seen) if v[0] == 's' and TERMS[v[1]][0] == 'len']

    def on_event(st, ev):
        if ev.path.startswith(PANIC):
            # a panicking function reached on a path that was not refuted
            ok = ev.path.startswith(('core::option::', 'core::result::')) and const_only(st) or impossible(ctx, st)
            note(st, ok, 'panics: ' + ev.path.split('::')[-1])

    def const_only(st):
        for x in reversed(st.frames):
            if x.native is None and p.fns[x.fi]['p'].endswith(UNWRAP):
                v = e.load(st, (x.id, 1), ())
                v = e.snap(st, v)
                return from_consts(v) or number_contract(st, v)
        return False

    def index(en, st, c):
        cell, pl, x = seq_place(en, st, c.args[0])
        i = c.args[1]
        z = Zone(en, st)
        ity = p.types[c.argtys[1]]
        base_ = p.types[c.argtys[0]]
        while base_['k'] in ('ref', 'ptr'):
            base_ = p.types[base_['t']]
        what = base_['p'].split('::')[-1] if base_['k'] == 'adt' else base_['k']
        if ity['k'] == 'int':
            note(st, z.le(i, en.seqlen(st, x), 1), 'index within bounds')
        elif ity['k'] == 'adt' and ity['p'].split('::')[-1] in RANGE:
            text = what in ('String', 'str')
            note(st, slice_ok(en, st, z, plain(strip(en.snap(st, c.args[0]))) if text else x, i, ity['p'].split('::')[-1], text), 'slice within bounds')
        else:
            note(st, False, 'key present')
        m = en.models.get(c.path) or en.models.get(c.name)
        if m is not None and ity['k'] == 'int':
            return m(en, st, c)
        c.opaque(pure=True)

    def length(en, st, x, text):
        return ('s', T('len', x)) if text and x[0] != 'c' else en.seqlen(st, x)

    def slice_ok(en, st, z, x, r, kind, text):
        if kind == 'RangeFull':
            return True
        n = length(en, st, x, text)
        lo = getf(r, 0, 0) if kind in ('Range', 'RangeFrom', 'RangeInclusive') else C(0)
        hi = getf(r, 0, 1) if kind in ('Range', 'RangeInclusive') else getf(r, 0, 0) if kind in ('RangeTo', 'RangeToInclusive') else n
        if 'Inclusive' in kind:
            return False
        ok = (hi == n or z.le(hi, n)) and (lo == C(0) or z.le(lo, hi))
        if text:
            ok = ok and boundary(z, x, lo, n) and boundary(z, x, hi, n)
        return ok

    def boundary(z, x, v, n):
        if v == C(0) or v == n:
            return True
        t = position(v)
        if t is not None:
            return x in prefixes(t[0])
        if v[0] == 's' and TERMS[v[1]][0] == 'Add':
            a, b = TERMS[v[1]][1:3]
            for q, w in ((a, b), (b, a)):
                t = position(q)
                if t is not None and x in prefixes(t[0]) and t[2] == 'found' and w[0] == 'c' and w[1] == t[1]:
                    return True
        if v[0] == 's' and TERMS[v[1]][0] == 'Sub':
            a, b = TERMS[v[1]][1:3]
            if a == n and b[0] == 's' and TERMS[b[1]][0] == 'len' and rest_of(TERMS[b[1]][1]) == x:
                return True         # where the remainder of a parser begins
        return False

    def prefixes(x):
        """positions in the beginning of a text are positions in the text"""
        r = [x]
        while slice_of(x) is not None and slice_of(x)[1] == C(0):
            x = slice_of(x)[0]
            r.append(x)
        return r

    def seq(en, st, c):
        last = c.path.split('::')[-1]
        cell, pl, x = seq_place(en, st, c.args[0])
        text = 'String::' in c.path or c.path.startswith('str::')
        z = Zone(en, st)
        n = length(en, st, plain(strip(en.snap(st, c.args[0]))), True) if text else en.seqlen(st, x)
        ok = False
        if last == 'drain':
            ity = p.types[c.argtys[1]]
            ok = ity['k'] == 'adt' and ity['p'].split('::')[-1] == 'RangeFull'
        elif last in ('insert', 'insert_str', 'split_off', 'split_at'):
            ok = c.args[1] == C(0) or z.le(c.args[1], n) and (not text or boundary(z, plain(strip(en.snap(st, c.args[0]))), c.args[1], n))
        elif last in ('remove', 'swap_remove'):
            ok = z.le(c.args[1], n, 1) or text and c.args[1] == C(0) and nonempty(en, st, plain(strip(en.snap(st, c.args[0]))))
        note(st, ok, '%s within bounds' % last)
        m = en.models.get(c.path) or en.models.get(c.name)
        if m is not None:
            return m(en, st, c)
        c.opaque()

    def open_(v):
        """the value depends on something that is not known at compile time"""
        if not isinstance(v, tuple) or not v or v[0] == 'c':
            return False
        if v[0] == 's':
            return mentions(v, lambda k: k[0] in ('param', 'call', 'elem', 'mut', 'mapget', 'val', 'key', 'len'), 30) or TERMS[v[1]][0] == 'param'
        return any(open_(x) for x in v[1:] if isinstance(x, tuple))

    def other(en, st, c):
        last = c.path.split('::')[-1]
        a, b = [strip(en.snap(st, x)) for x in (c.args[0], c.args[-1])]
        note(st, last in ('div', 'rem', 'step_by') and b[0] == 'c' and b[1] not in (0, None) or not open_(a) and not open_(b), '%s of unknown quantities' % last)
        m = en.models.get(c.path) or en.models.get(c.name)
        if m is not None:
            return m(en, st, c)
        c.opaque()

    prims = {}
    for f in p.fns:
        k = panicky(f['p'])
        if k == 'index' and not f['l']:
            prims[f['p']] = index
        elif k == 'seq' and not f['l']:
            prims[f['p']] = seq
        elif k == 'other' and not f['l']:
            prims[f['p']] = other

    def level(en, st, c):
        # what is only done for the log is looked at in the function asked about
        fr = st.frames[-1]
        if logs is not None and g.root_fn(fr.fi) == g.root_fn(logs):
            return c.give(C(1))
        c.give(C(0))

    for name in ('tracing_core::metadata::Level', 'log::Level'):
        prims['<%s as core::cmp::PartialOrd>::le' % name] = level

    def opq(f):
        i = f['i']
        if i in inline and rec(i):
            return True
        if i in inline or '{closure' in f['p'] and g.root_fn(i) in inline:
            return False
        return g.size(i) > 12

    def rec(i):
        if i not in ctx.rec19:
            ctx.rec19[i] = recursive(g, i)
        return ctx.rec19[i]

    e = base.make(p, prims, opaque=opq)
    e.__class__ = E
    e.g, e.memo = g, ctx.memo19
    e.on_event, e.on_assert, e.on_arith = on_event, on_assert, on_arith
    e.obl = obl
    return e


def nonempty(e, st, x):
    """the path has seen a non-empty beginning, end or part of the text"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if f == ('=', 1) and k[0] == 'call' and k[1].split('::')[-1] in ('starts_with', 'ends_with', 'contains') and plain(strip(k[2][0])) == x and width(plain(k[2][1])) > 0:
            return True
    return Zone(e, st).le(C(1), ('s', T('len', x)))


def kept(p, v):
    ty = TTY.get(v[1])
    return ty is not None and p.types[ty]['k'] in ('int', 'uint') and not foreign(p, v)


def foreign(p, v, n=0):
    """a number that comes out of an expression value, a message or a conversion of one"""
    if v[0] != 's' or n > 6:
        return False
    k = TERMS[v[1]]
    if k[0] == 'cast':
        return True
    if k[0] in ('fld', 'deref'):
        ty = TTY.get(k[1])
        t = p.types[ty] if ty is not None else None
        while t is not None and t['k'] in ('ref', 'ptr'):
            t = p.types[t['t']]
        if t is not None and t['k'] == 'adt' and t['p'].startswith(('cel::', 'serde_json::', 'prost')):
            return True
        return foreign(p, ('s', k[1]), n + 1)
    if k[0] in ('Add', 'Sub'):
        return foreign(p, k[1], n + 1) or foreign(p, k[2], n + 1)
    return False


def variants(ctx, ty):
    """the variants of an enum that any code of the program makes, or None when it may come from outside.
    Functions that map a value of the type to the same variant (a copy) make nothing."""
    p, g = ctx.p, ctx.g
    memo = ctx.__dict__.setdefault('variants19', {})
    if ty in memo:
        return memo[ty]
    memo[ty] = None
    path = p.types[ty]['p']
    if path.startswith(('core::', 'alloc::', 'std::')):
        return None         # made by the library all the time
    same = {i for i, t in enumerate(p.types) if t['k'] == 'adt' and t['p'] == path}
    made = {}
    for i, f in enumerate(p.fns):
        if f['b'] is None:
            continue
        for b in f['b']['bb']:
            made.setdefault(i, set()).update(v for v in aggs(b['s'], same) | consts(b, same))
            t = b['t']
            if t[0] == 'call' and t[8] is not None and contains(p, t[8], same):
                c = t[1].get('v', {}).get('fn') if 'k' in t[1] else None
                j = c.get('f') if c else None
                src = [a for a in t[9] or () if contains(p, a, same)]
                if not (j is not None and p.fns[j]['b'] is not None) and not src:
                    q = g.path_of(c) if c else '?'
                    if not matches(q or '', ('OnceLock::get_or_init', 'HashMap::new', 'HashMap::get', 'Vec::new', 'default::Default::default')) and not (q or '').startswith(('core::', 'alloc::', 'std::', '<core', '<alloc', '<std')):
                        return None         # some other crate hands one out
    out = set()
    for i, vs in made.items():
        if vs and not (len(vs) > 1 and copies(ctx, i, same)):
            out |= vs
    memo[ty] = out
    return out


def copies(ctx, i, same):
    """the function takes a value of the type and gives back the same variant"""
    p = ctx.p
    f = p.fns[i]
    if f['b']['n'] != 1 or f['b']['ls'][0][0] not in same:
        return False
    e = base.make(p)
    for st in e.run(i):
        r = st.result
        a = e.params(i)[0]
        v = plain(a)
        t = ('s', T('deref', v[1])) if p.types[f['b']['ls'][1][0]]['k'] == 'ref' else v
        d = e.known(st, T('disc', t[1]))
        if r[0] != 'a' or d is None or int(p.types[f['b']['ls'][0][0]]['v'][r[2]][1]) != d:
            return False
    return True


def contains(p, ty, same, n=0):
    if ty in same:
        return True
    t = p.types[ty]
    if n > 4:
        return False
    if t['k'] in ('ref', 'ptr', 'slice', 'array'):
        return contains(p, t['t'], same, n + 1)
    if t['k'] == 'adt':
        return any(contains(p, a, same, n + 1) for a in t.get('a') or () if isinstance(a, int))
    if t['k'] == 'tup':
        return any(contains(p, a, same, n + 1) for a in t['ts'])
    return False


def aggs(x, same):
    r = set()
    if isinstance(x, list):
        if len(x) == 4 and x[0] == 'agg' and x[1] in same:
            r.add(x[2])
        for y in x:
            r |= aggs(y, same)
    return r


def consts(x, same):
    r = set()
    if isinstance(x, dict):
        if x.get('k') in same and isinstance(x.get('v'), dict):
            v = x['v']
            r.add(v['agg'][0] if 'agg' in v else v.get('c', '?'))
        for y in x.values():
            r |= consts(y, same)
    elif isinstance(x, list):
        for y in x:
            r |= consts(y, same)
    return r


def impossible(ctx, st):
    """a branch of the path needs an enum variant that nothing in the program makes"""
    p = ctx.p
    for t, f in st.facts.items():
        if TERMS[t][0] != 'disc' or DTY.get(t) is None:
            continue
        vs = variants(ctx, DTY[t])
        if vs is None or '?' in vs:
            continue
        have = {int(p.types[DTY[t]]['v'][v][1]) for v in vs}
        left = {f[1]} & have if f[0] == '=' else have - set(f[1])
        if not left:
            return True
    return False


def counted(ctx, e, a, b):
    """taking one off a count kept in a map: every entry of such a map counts at least one (shown inductively
    over every function that writes to a map of that type)"""
    if b != C(1) or a[0] != 's' or TERMS[a[1]][0] not in ('mapget', 'val'):
        return False
    return counts(ctx)


MAPW = ('insert', 'entry', 'get_mut', 'iter_mut', 'values_mut', 'retain', 'extend', 'or_insert', 'or_insert_with', 'and_modify')


def counts(ctx):
    if 'counts19' in ctx.__dict__:
        return ctx.counts19
    p, g = ctx.p, ctx.g
    ctx.counts19 = True     # the induction hypothesis while the writers themselves are run
    ws = set()
    for s, path in g.calls_named(lambda path, c: path.split('::')[-1] in MAPW and 'Map' in path):
        t = p.types[s.argtys[0]] if s.argtys else None
        while t is not None and t['k'] in ('ref', 'ptr'):
            t = p.types[t['t']]
        if p.fns[s.fi]['l'] and t is not None and t['k'] == 'adt' and len(t.get('a') or ()) > 1 and isinstance(t['a'][1], int) and p.types[t['a'][1]]['k'] in ('int', 'uint') and not p.types[t['a'][1]].get('sg', False):
            ws.add(g.root_fn(s.fi))
    ok = bool(ws)
    n = 0
    for r in sorted(ws):
        e = make(ctx, {r})
        for st in e.run(r):
            for v in st.mem.values():
                for x in entries(v):
                    n += 1
                    ok = ok and positive(st, x)
    ctx.cov['functions_analysed'] |= {p.fns[r]['p'] for r in ws}
    ctx.counts19 = ok and n > 0
    return ctx.counts19


def entries(v, n=0):
    if n > 8 or not isinstance(v, tuple) or not v:
        return
    if v[0] == 'm':
        for s in v[1]:
            if s[0] == 'kv' and number(s[2]):
                yield s[2]
    elif v[0] == 'a':
        for _, x in v[4]:
            yield from entries(x, n + 1)


def number(v):
    return v[0] == 'c' and isinstance(v[1], int) or v[0] == 's' and TERMS[v[1]][0] in ('Add', 'Sub', 'mapget', 'val', 'cast', 'len')


def positive(st, v):
    if v[0] == 'c':
        return v[1] >= 1
    k = TERMS[v[1]]
    if k[0] in ('mapget', 'val'):
        return True
    if k[0] == 'Add' and any(x[0] == 'c' and isinstance(x[1], int) and x[1] >= 1 for x in k[1:3]):
        return True
    f = st.facts.get(v[1])
    return f is not None and (f[0] == '=' and f[1] >= 1 or f[0] == '!' and 0 in f[1])


def calls_in(v, n=0):
    """names of the functions whose unknown results a term depends on"""
    if n > 6 or v[0] != 's':
        return
    k = TERMS[v[1]]
    if k[0] == 'call':
        yield k[1]
        return
    if k[0] == 'mut':
        yield k[1]
    for x in k[1:]:
        if isinstance(x, int) and k[0] in ('fld', 'deref', 'disc', 'not', 'elem', 'len', 'mapget', 'more') and x == k[1]:
            yield from calls_in(('s', x), n + 1)
        elif isinstance(x, tuple) and x and x[0] in ('s', 'c'):
            yield from calls_in(x, n + 1)


def from_consts(v, n=0):
    if n > 12:
        return False
    if v[0] == 'c' or v[0] == 'fn':
        return True
    if v[0] == '&':
        return from_consts(v[1], n + 1)
    if v[0] == 'a':
        return all(from_consts(x, n + 1) for _, x in v[4]) and (v[3] is None or from_consts(('s', v[3]), n + 1))
    if v[0] == 's':
        k = TERMS[v[1]]
        if k[0] == 'call':
            return all(from_consts(x, n + 1) for x in k[2])
        if k[0] in ('fld', 'deref'):
            return from_consts(('s', k[1]), n + 1)
    return False


def number_contract(st, v):
    """serde_json: is_u64 says that as_u64 gives a number, is_i64 likewise, and as_f64 always gives one unless
    arbitrary precision numbers are compiled in"""
    if v[0] == 's' and TERMS[v[1]][0] == 'call':
        k = TERMS[v[1]]
        if k[1].endswith('Number::as_f64'):
            return True
        if k[1].endswith(('Number::as_u64', 'Number::as_i64')):
            own_, last = k[1].rsplit('::', 1)
            return st.facts.get(T('call', own_ + '::' + last.replace('as_', 'is_'), k[2])) == ('=', 1)
    return False


def recursive(g, i):
    r = {s for s in g.edges.get(i, ())}
    seen = set()
    while r:
        j = r.pop()
        if j == i:
            return True
        if j not in seen:
            seen.add(j)
            r |= set(g.edges.get(j, ()))
    return False


def judge(e, i, bb):
    """None: no path got there; otherwise the openings left"""
    o = e.obl.get((i, bb))
    if o is None:
        return None
    return [x for x in o if not x[0]]


class Judge:
    """runs functions with more and more context until the sites asked about are shown safe"""

    def __init__(self, ctx):
        self.ctx, self.p, self.g = ctx, ctx.p, ctx.g
        self.cache = {}
        self.byname = {}
        for i, f in enumerate(self.p.fns):
            if f['b'] is not None and f['l']:
                self.byname.setdefault(f['p'], set()).add(i)

    def run(self, root, inline, logs=None):
        key = root, frozenset(inline), logs
        if key not in self.cache:
            e = make(self.ctx, set(inline), logs)
            if len(inline) > 1:
                e.MAXSTEPS = 250000
            why = None
            try:
                e.run(root)
            except AnalysisError as x:
                why = str(x)
            self.ctx.engine_stats(e)
            self.cache[key] = e, why
        return self.cache[key]

    def open_(self, root, inline, i, bb):
        """(shown safe, reason, engine)"""
        e, why = self.run(root, inline)
        if why:
            return False, why, e
        o = judge(e, i, bb)
        if o is None and self.inside(e, i):
            e2, why = self.run(root, inline, i)
            if judge(e2, i, bb) is not None:
                e, o = e2, judge(e2, i, bb)
        if o is None:
            if e.stats['cut'] and root == self.g.root_fn(i) and not self.inside(e, i):
                return False, 'not reached within the bounds of the analysis', e
            return True, 'not reached', e
        return (not o, o[0][1] if o else '', e)

    def inside(self, e, i):
        return i in e.fn_seen

    def asked(self, e, i, bb):
        """functions of the crate whose unknown results the open paths depend on"""
        names = set()
        for o in e.obl.get((i, bb), ()):
            if not o[0]:
                names |= o[3]
        r = set()
        for n in names:
            r |= self.byname.get(n, set())
        return r

    def safe(self, i, bb):
        p, g = self.p, self.g
        root = g.root_fn(i)
        inline = {root}
        ok, why, e = self.open_(root, inline, i, bb)
        for _ in range(4):
            if ok:
                return True, ''
            more = self.asked(e, i, bb) - inline
            if not more:
                break
            inline |= more
            ok, why, e = self.open_(root, inline, i, bb)
        if ok:
            return True, ''
        return self.from_callers(root, {root}, i, bb, why, 0)

    def from_callers(self, f, inline, i, bb, why, depth):
        g, p = self.g, self.p
        if depth >= 2 or p.fns[f].get('ti') is not None:
            return False, why
        cs = {g.root_fn(s) for s in g.callers(f)}
        if not cs or f in cs:
            return False, why
        for c in sorted(cs):
            ok, w, e = self.open_(c, inline | {c}, i, bb)
            if not ok or judge(e, i, bb) is None:
                ok, w = self.from_callers(c, inline | {c}, i, bb, w or why, depth + 1)
                if not ok:
                    return False, why
        return True, ''


def check(ctx):
    p, g = ctx.p, ctx.g
    ctx.memo19, ctx.rec19 = {}, {}
    ctx.rule('every panicking operation of the crate (%s) is unreachable or has its precondition implied on every abstract path that reaches it' % ', '.join(('panic!/unreachable!/todo!', 'unwrap/expect', 'checked arithmetic', 'indexing and slicing', 'position arguments of library calls')))
    ctx.assume('serde_json::Number: is_u64 implies as_u64 is Some, is_i64 implies as_i64 is Some, as_f64 is Some')
    ctx.assume('nom: the remainder a parser returns is the end of its input')
    ctx.assume('a count of things held in memory plus a small constant does not overflow')
    j = Judge(ctx)
    n = 0
    fns = set()
    for i, f in enumerate(p.fns):
        if f['b'] is None or not f['l']:
            continue
        for bb, kind in sorted(sites(p, g, i).items()):
            n += 1
            fns.add(f['p'])
            ok, why = j.safe(i, bb)
            line = f['b']['bb'][bb]['ln']
            ctx.oblige(ok, '%s|%s|%s' % (p.short(f['p']), kind, why), '%s can panic (%s): %s (%s:%s)' % (p.short(f['p']), kind, why, f.get('sp', ['?'])[0] if isinstance(f.get('sp'), list) else f.get('sp'), line))
            if ok and n % 7 == 1:
                ctx.sample('%s: %s at line %s shown not to panic' % (p.short(f['p']), kind, line))
    ctx.floor('panic_sites', n, 50)
    ctx.floor('functions_with_panic_sites', len(fns), 25)
    ctx.cov['functions_analysed'] |= fns
