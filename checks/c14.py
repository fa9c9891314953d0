"""C14: the most specific matching action set handles the request."""
from engine.rules import *
from engine import base, models
from engine.base import matches, boundary, pure_boundary
from engine.models import seq_place, as_map, key_snap, map_lookup, map_eqs, materialise, strip, to_iter
from engine.core import *
from engine.pipe import trace_text

EXPLANATION = '''The registration of action sets and the selection for a request are run as abstract paths. The index is modelled as the radix tree it is: what is registered under which key is read off every
registration path (key terms with their provenance from the configured hostname, values in order), and the key asked for is the term built from the request.host attribute. Both keys must be the same function of the
hostname, that function must make a pattern's key a beginning of the keys of exactly the hosts it covers, and on every selection path the blueprint used is the first candidate all of whose predicates came out true.'''
TRIE = 'radix_trie::Trie::'
HOSTATTR = 'request.host'
LOWER = ('to_ascii_lowercase', 'to_lowercase')


def trie_prims():
    M = models.MODELS
    H = 'std::collections::hash::map::HashMap::'

    def empty(e, st, c):
        c.give(('m', ()))

    def map_with_default(e, st, c):
        cell, pl, x = seq_place(e, st, c.args[0])
        segs = as_map(x)
        key = key_snap(e, st, c.args[1])

        def g(cell, pl, segs, key, k, f, d, eqs):
            hit = yield from map_lookup(e, segs, key, eqs)
            if hit is None:
                yield ('store', cell, pl, ('m', segs + (('kv', k, d),)))
                return UNIT
            if not isinstance(hit, int):
                s2, hit = materialise(segs, hit + (key,) if len(hit) < 3 else hit)
                yield ('store', cell, pl, ('m', s2))
            yield ('callv', f, (('r', cell, pl + (('mv', hit),)),))
            return UNIT
        c.native(g, cell, pl, segs, key, c.args[1], c.args[2], c.args[3], map_eqs(e, st, segs, key))
    r = {TRIE + 'new': empty, TRIE + 'map_with_default': map_with_default}
    for n in ('insert', 'get', 'get_mut', 'remove'):
        r[TRIE + n] = M[H + n]
    return r


def remove0(e, st, c):
    cell, pl, x = seq_place(e, st, c.args[0])
    if c.args[1] != C(0):
        return c.opaque()
    e.store(st, cell, pl, sym('call', 'tail1', (strip(e.snap(st, x)),)))
    c.give(sym('call', 'head1', (strip(e.snap(st, x)),)))


def insert0(e, st, c):
    cell, pl, x = seq_place(e, st, c.args[0])
    if c.args[1] != C(0):
        return c.opaque()
    e.store(st, cell, pl, sym('cat', c.args[2], strip(e.snap(st, x))))
    c.give(UNIT)


def make(ctx, extra, drop=()):
    p = ctx.p
    pr = dict(trie_prims())
    pr.update({'alloc::string::String::remove': remove0, 'alloc::string::String::insert': insert0, 'alloc::string::String::insert_str': insert0})
    pr.update(extra)
    e = base.make(p, pr, drop=drop)
    n = 'core::iter::traits::iterator::Iterator::collect'
    old = e.trait_models.get(n) or e.models.get(n)

    def collect(e, st, c):
        it = c.args[0]
        t = p.types[c.dt] if c.dt is not None else None
        if t is not None and t['k'] == 'adt' and t['p'].endswith('String') and it[0] == 'it' and it[1] == 'rev' and it[2][0] == 'it' and it[2][1] == 'seq' and len(it[2][2]) == 1:
            s = it[2][2][0]
            if s[0] == 'rest' and s[2] == 0 and TERMS[s[1]][0] == 'str::chars':
                return c.give(sym('call', 'reversed', (strip(TERMS[s[1]][1][0]),)))
        return old(e, st, c)
    for d in (e.trait_models, e.models):
        if n in d:
            d[n] = collect
    return e


# ------------------------------------------------------------------ keys as functions of a name
def pieces(st, v):
    """a text as a list of pieces: constants and terms"""
    v = bare(v)
    if v[0] == 'c':
        x = v[1]
        return [('c', chr(x) if isinstance(x, int) else x)]
    if v[0] == 'v':
        r = reversal(st, v)
        if r is not None:
            return r
    if v[0] == 's':
        k = TERMS[v[1]]
        if k[0] == 'cat':
            parts = flat(v)
            r = reversal(st, [('t', x) for x in parts])
            if r is not None:
                return r
            out = []
            for x in parts:
                out += pieces(st, x)
            return join(out)
        if k[0] == 'format':
            from engine.acts import fmt_pieces
            q = fmt_pieces(k[1])
            if q is not None:
                out = []
                for x in q:
                    out += [('c', x)] if isinstance(x, str) else pieces(st, x)
                return join(out)
        if k[0] == 'call' and k[1] == 'reversed':
            return [('rev', tuple(pieces(st, k[2][0])))]
        if k[0] == 'call' and k[1] == 'tail1':
            q = pieces(st, k[2][0])
            if q and q[0][0] == 'c' and q[0][1]:
                return join([('c', q[0][1][1:])] + q[1:])
            return [('tail', q[0])] + q[1:] if q else q
        if k[0] == 'fld' and k[2] == 1 and k[3] == 0:
            b = TERMS[k[1]]
            if b[0] == 'call' and b[1] == 'str::strip_prefix' and bare(b[2][1]) in (C('*'), C(42)):
                q = pieces(st, b[2][0])
                return [('tail', q[0])] + q[1:]
    return reversal(st, [('t', v)]) or [('t', v)]


def flat(v):
    v = bare(v)
    if v[0] == 's' and TERMS[v[1]][0] == 'cat':
        return [y for x in TERMS[v[1]][1:] for y in flat(x)]
    return [v]


def join(ps):
    out = []
    for x in ps:
        if x[0] == 'c' and x[1] == '':
            continue
        if x[0] == 'c' and out and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def reversal(st, ps):
    """characters of one text put one by one in the opposite order"""
    base_ = None
    for i, x in enumerate(reversed(ps)):
        x = bare(x[1]) if x[0] == 't' else ('c', 0)
        if x[0] != 's' or TERMS[x[1]][0] != 'elem' or TERMS[x[1]][2] != i:
            return None
        b = TERMS[x[1]][1]
        if base_ not in (None, b) or TERMS[b][0] != 'str::chars':
            return None
        base_ = b
    return [('rev', tuple(pieces(st, TERMS[base_][1][0])))] if base_ is not None else None


def impossible(st):
    """the path takes a text that holds something for an empty one"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'more' and f == ('=', 0) and TERMS[k[1]][0] == 'str::chars':
            n = sum(len(x[1]) for x in pieces(st, TERMS[k[1]][1][0]) if x[0] == 'c')
            if k[2] < n:
                return True
    return False


def bare(v):
    n = 0
    while n < 12:
        n += 1
        if v[0] == '&':
            v = v[1]
        elif v[0] == 's' and TERMS[v[1]][0] == 'deref':
            v = ('s', TERMS[v[1]][1])
        elif v[0] == 'a' and len(v[4]) == 1:
            v = v[4][0][1]
        else:
            break
    return v


def leaf(v):
    """(the text a name is derived from, set of the normalisations applied on the way)"""
    ops = set()
    n = 0
    while n < 12:
        n += 1
        v = bare(v)
        if v[0] != 's':
            return v, ops
        k = TERMS[v[1]]
        if k[0] == 'call' and k[1].split('::')[-1] in LOWER and len(k[2]) == 1:
            ops.add('lower')
            v = k[2][0]
            continue
        if k[0] == 'fld' and k[3] == 0:
            b = TERMS[k[1]]
            if b[0] == 'fld' and b[2] == 1 and b[3] == 0 and TERMS[b[1]][0] == 'call' and TERMS[b[1]][1] == 'str::split_once' and bare(TERMS[b[1]][2][1]) in (C(58), C(':')):
                ops.add('port')
                v = TERMS[b[1]][2][0]
                continue
        if k[0] == 'elem' and k[2] == 0 and TERMS[k[1]][0] in ('str::split', 'str::splitn'):
            ops.add('port')
            v = TERMS[k[1]][1][0]
            continue
        q = slice_to_colon(v)
        if q is not None:
            ops.add('port')
            v = q
            continue
        return v, ops
    return v, ops


def slice_to_colon(v):
    from engine.zone import slice_of, position
    q = slice_of(v)
    if q is not None and q[1] == C(0) and q[2] is not None:
        t = position(q[2])
        if t is not None and t[2] == 'found' and bare(t[0]) == bare(q[0]):
            return q[0]
    return None


def shape(st, key):
    """the key as a function of a name: (pieces with the name replaced by a hole, name, wildcard or not)"""
    name = []

    def walk(ps):
        out = []
        for x in ps:
            if x[0] == 'c':
                out.append(x)
            elif x[0] == 'rev':
                out.append(('rev', walk(x[1])))
            elif x[0] == 'tail':
                out.append(('tail', walk([x[1]])))
            else:
                name.append(x[1])
                out.append(('name',))
        return tuple(out)
    s = walk(pieces(st, key))
    if len(set(name)) != 1:
        return s, None
    return s, name[0]


def star(st, name):
    """does the path know whether the name begins with the wildcard"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'disc':
            k = TERMS[k[1]]
            if k[0] != 'call' or k[1] != 'str::strip_prefix':
                continue
        if k[0] == 'call' and k[1] in ('str::starts_with', 'str::strip_prefix') and bare(k[2][1]) in (C(42), C('*')) and f[0] == '=':
            ps = pieces(st, k[2][0])
            if ps and ps[0] == ('t', bare(name)):
                return f[1]
    return None


def covers(shapes):
    """{wildcard: shape, plain: shape} make a pattern's key the beginning of the key of exactly the names it covers:
    the keys are reversed texts, both with the same end, the plain one with a mark in front of the name that no name contains"""
    w, n = shapes.get(1), shapes.get(0)
    if w is None or n is None:
        return False
    if len(w) != 1 or len(n) != 1 or w[0][0] != 'rev' or n[0][0] != 'rev':
        return False
    w, n = w[0][1], n[0][1]
    if not w or w[0] != ('tail', (('name',),)):
        return False
    end = w[1:]
    if not all(x[0] == 'c' for x in end):
        return False
    return len(n) == 2 + len(end) and n[0][0] == 'c' and n[1] == ('name',) and n[2:] == end and not any(ch.isalnum() or ch in '.-*_' for ch in n[0][1]) and len(n[0][1]) > 0


# ------------------------------------------------------------------ registration
def limits(p, e, sets, hosts):
    """elements considered per configured list: the other parts of the configuration do not bear on the index"""
    def kof(s):
        t = p.types[TTY[s]]['s'] if TTY.get(s) is not None else ''
        if TERMS[s][0] == 'str::chars':
            return 2
        return sets if 'ActionSet>' in t and 'Vec' in t else hosts if t.endswith('Vec<std::string::String>') else 0
    e.KOF = kof


def elem_of(v):
    """(list, position) when v is an element of an unknown list"""
    v = bare(v)
    while v[0] == 's':
        k = TERMS[v[1]]
        if k[0] == 'elem':
            return k[1], k[2]
        if k[0] not in ('deref',):
            return None
        v = ('s', k[1])
    return None


def compiled(e, st, v, bp):
    """position of the action set a blueprint was compiled from, if nothing but actions were added since"""
    v = bare_ptr(e, st, v)
    base_, fs = (v[1], ()) if v[0] == 's' else (v[3], v[4]) if v[0] == 'a' else (None, ())
    if base_ is None:
        # rebuilt field by field from the compiled one
        if v[0] != 'a':
            return None
        roots = set()
        for i, x in v[4]:
            x = bare(x)
            if x[0] == 's' and TERMS[x[1]][0] == 'fld' and TERMS[x[1]][3] == i:
                roots.add(TERMS[x[1]][1])
        if len(roots) != 1:
            return None
        base_, fs = roots.pop(), v[4]
    names = [n for n, _t in e.p.types[bp]['v'][0][2]]
    for i, x in fs:
        f = T('fld', base_, 0, i) if False else None
        if names[i] == 'actions':
            segs = x[1] if x[0] == 'v' else ()
            ok = x[0] == 's' or segs and segs[0][0] == 'rest' and segs[0][2] == 0 and own_field(segs[0][1], base_, i)
            if not ok:
                return None
        else:
            x = bare(x)
            if not (x[0] == 's' and own_field(x[1], base_, i)):
                return None
    k = TERMS[base_]
    if k[0] == 'fld' and k[3] == 0:
        k = TERMS[k[1]]
    if k[0] != 'call' or not k[1].endswith('blueprint::Blueprint::compile'):
        return None
    return elem_of(k[2][0])


def own_field(t, base_, i):
    k = TERMS[t]
    return k[0] == 'fld' and k[1] == base_ and k[3] == i


def bare_ptr(e, st, v):
    v = e.snap(st, v)
    n = 0
    while v[0] == '&' and n < 6:
        v, n = v[1], n + 1
    return v


def registration(ctx):
    p = ctx.p
    fi = p.find1('factory::PipelineFactory::try_from')
    fac, bp = p.adt('factory::PipelineFactory'), p.adt('blueprint::Blueprint')
    ctx.cov['functions_analysed'].add(p.fns[fi]['p'])
    shapes = {}
    n = merged = 0
    for KA, KH in ((1, 2), (2, 1)):
        e = make(ctx, {'blueprint::Blueprint::compile': pure_boundary, 'services::ServiceInstance::from_config': pure_boundary, 'factory::domain_and_field_name': pure_boundary})
        e.LOOP = 12
        deep = ctx.tier == 'thorough'
        limits(p, e, KA + deep, KH + (deep and KA == 1))
        if deep:
            e.MAXSTEPS *= 20
            e.MAXPATHS *= 20
        for st in e.run(fi):
            res = st.result
            errs = [t for t in st.facts if TERMS[t][0] == 'disc' and TERMS[TERMS[t][1]][0] == 'call' and TERMS[TERMS[t][1]][1].endswith('Blueprint::compile') and st.facts[t] == ('=', 1)]
            if res[0] != 'a' or res[2] != 0 or impossible(st):
                continue
            ctx.oblige(not errs, 'action set that does not compile', 'an action set that does not compile is left out instead of rejecting the configuration')
            n += 1
            idx = e.snap(st, field(e, getf(res, 0, 0), fac, 'PipelineFactory', 'index'))
            if idx[0] != 'm' or any(s[0] != 'kv' for s in idx[1]):
                ctx.oblige(False, 'index contents', 'the index is not made of what was registered: %s' % e.show(idx))
                continue
            # which hostname of which action set does the path have
            sets_t = hosts = None
            want = []
            for t, f in st.facts.items():
                k = TERMS[t]
                if k[0] == 'more' and f == ('=', 1) and TTY.get(k[1]) is not None and p.types[TTY[k[1]]]['s'].endswith('Vec<std::string::String>'):
                    b = TERMS[k[1]]
                    while b[0] in ('fld', 'deref'):
                        t2 = b[1]
                        b = TERMS[t2]
                    if b[0] == 'elem':
                        want.append((b[1], b[2], k[1], k[2]))
            entries = []
            for s in idx[1]:
                sh, name = shape(st, s[1])
                nm, ops = leaf(name) if name is not None else (None, set())
                entries.append((sh, nm, ops, s))
                w = star(st, name) if name is not None else None
                ctx.oblige(name is not None and 'lower' in ops, 'registered name', 'an action set is registered under %s, which is not made from the lower-cased hostname alone' % e.show(s[1]))
                if w is not None:
                    shapes.setdefault(w, set()).add(sh)
                    ctx.sample({'registered as': e.show(s[1]), 'wildcard': w})
            same = equalities(st)
            ctx.oblige(exhausted(p, e, st, want), 'configuration not read to the end', 'some configured hostnames or action sets are never looked at\n%s' % trace_text(e, st))
            for st_t, i, ht, j in sorted(want):
                h = ('s', T('elem', ht, j))
                at = [x for x in entries if x[1] == h or any(same_name(a, b, x[1], h) for a, b in same)]
                ctx.oblige(len(at) == 1, 'hostname not registered', 'hostname %d of action set %d is registered %d times instead of once' % (j, i, len(at)))
                for sh, nm, ops, s in at:
                    got = listed(e, st, s[2], bp)
                    merged += len(set(got)) > 1
                    ctx.oblige((st_t, i) in got, 'action set not registered', 'action set %d is not among those registered for its hostname %d: %s' % (i, j, e.show(s[2])))
                    ok = all(x is not None for x in got) and got == sorted(got) and len(set(a for a, _b in got)) <= 1
                    ctx.oblige(ok, 'order of action sets', 'the action sets of a hostname are not kept in configuration order, or hold something that was not compiled from the configuration: %s' % e.show(s[2]))
                    mine = {(a, b) for a, b, c_, d in want if ('s', T('elem', c_, d)) == nm or any(same_name(y, z, nm, ('s', T('elem', c_, d))) for y, z in same)}
                    ctx.oblige(set(got) <= mine, 'action set of another hostname', 'an action set is registered for a hostname that is not its own: %s' % e.show(s[2]))
        ctx.engine_stats(e)
    ctx.floor('registration paths', n, 30)
    ctx.floor('hostnames shared by two action sets', merged, 1)
    one = {w: list(s)[0] for w, s in shapes.items() if len(s) == 1}
    ctx.oblige(covers(one), 'key of a pattern', 'the keys do not make a wildcard pattern cover exactly the hosts below it and a plain name itself only: %s' % (one,))
    return one


def exhausted(p, e, st, want):
    """every list the path looked into was looked at to its end"""
    lists = {}
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'more' and TTY.get(k[1]) is not None and e.klimit(k[1]) > 0:
            lists.setdefault(k[1], {})[k[2]] = f
    for s, fs in lists.items():
        n = len([1 for f in fs.values() if f == ('=', 1)])
        if n < e.klimit(s) and ('=', 0) not in fs.values():
            return False
    sets = [s for s in lists if 'ActionSet>' in p.types[TTY[s]]['s']]
    if len(sets) != 1:
        return False
    n = len([1 for f in lists[sets[0]].values() if f == ('=', 1)])
    hosts = [s for s in lists if p.types[TTY[s]]['s'].endswith('Vec<std::string::String>')]
    return len(hosts) >= n


def equalities(st):
    return [(TERMS[t][1], TERMS[t][2]) for t, f in st.facts.items() if TERMS[t][0] == 'eq' and f == ('=', 1)]


def same_name(a, b, x, y):
    """a == b was decided and they are the keys of x and y"""
    la, lb = [[leaf(('t', v)[1])[0] for v in names_in(k)] for k in (a, b)]
    return x in la and y in lb or x in lb and y in la


def names_in(k):
    out = []

    def walk(ps):
        for x in ps:
            if x[0] == 'rev':
                walk(x[1])
            elif x[0] == 'tail':
                walk([x[1]])
            elif x[0] == 't':
                out.append(x[1])
    walk(pieces(None, k))
    return out


def listed(e, st, v, bp):
    v = e.snap(st, v)
    n = 0
    while v[0] == '&' and n < 4:
        v, n = v[1], n + 1
    if v[0] != 'v':
        return [None]
    return [compiled(e, st, s[1], bp) if s[0] == 'e' else None for s in v[1]]


# ------------------------------------------------------------------ selection
def outcome_of(e, st, v):
    """error, pending, True, False or None for a Result<AttributeState<bool>, _>"""
    d = e.known(st, T('disc', v[1]))
    if d == 1:
        return 'error'
    if d != 0:
        return None
    s = T('fld', v[1], 0, 0)
    d = e.known(st, T('disc', s))
    if d is None:
        return None
    names = [x[0] for x in e.p.types[DTY[T('disc', s)]]['v']]
    if names[d] == 'Pending':
        return 'pending'
    b = e.known(st, T('fld', s, d, 0))
    return None if b is None else bool(b)


def selection(ctx, shapes):
    p = ctx.p
    fi = p.find1('factory::PipelineFactory::build')
    fac, bp = p.adt('factory::PipelineFactory'), p.adt('blueprint::Blueprint')
    pred_ix = field_no(p, bp, 'route_predicates')
    bnd = {'context::ReqRespCtx::' + n: boundary for n in ('ensure_attributes', 'get_attribute', 'get_attribute_ref', 'extract_trace_context', 'with_request_data', 'set_action_set_name', 'set_hostname')}
    e = make(ctx, dict(bnd, **{'blueprint::Blueprint::to_tasks': boundary}), drop=('cel::PredicateVec>::apply',))
    # the request data carried along and the attributes fetched ahead do not bear on the choice
    def kof(s):
        t = p.types[TTY[s]]['s'] if TTY.get(s) is not None else ''
        if any(x in t for x in ('String, std::string::String', 'Attribute>', 'Vec<((')):
            return 0
        return 3 if ctx.tier == 'thorough' and 'Predicate>' not in t else 2
    e.KOF = kof
    e.LOOP = 8
    e.MAXSTEPS *= 10
    e.MAXPATHS *= 10
    sel = lost = errs = none = 0
    for st in e.run(fi):
        if impossible(st):
            continue
        evs = st.events()
        res = st.result
        looks = [ev for ev in evs if ev.path.startswith(TRIE)]
        uses = [ev for ev in evs if ev.path.endswith('Blueprint::to_tasks')]
        tests = [ev for ev in evs if ev.path.endswith('Predicate::test')]
        hosts = [ev for ev in evs if ev.path.endswith(('ReqRespCtx::get_attribute', 'ReqRespCtx::get_attribute_ref')) and bare(ev.args[1]) == C(HOSTATTR)]
        bad = [host_state(e, st, h.ret) for h in hosts]
        bad = [x for x in bad if x != 'text'] + [x for x in (outcome_of(e, st, t.ret) for t in tests) if x in ('error', 'pending')]
        is_err = res[0] == 'a' and res[2] == 1
        tr = lambda: trace_text(e, st)
        if bad:
            errs += 1
            ctx.oblige(is_err, 'error in deciding', 'the choice is made although something it depends on failed or is not there yet (%s)\n%s' % (bad, tr()))
            if is_err and 'pending' in bad:
                x = getf(res, 1, 0)
                names = [v[0] for v in p.types[x[1]]['v']] if x[0] == 'a' else []
                ctx.oblige(names and names[x[2]] == 'DataPending', 'pending reported as failure', 'something that is not there yet is reported as a failed evaluation\n%s' % tr())
            continue
        ctx.oblige(not is_err, 'error without cause', 'an error is reported although nothing failed\n%s' % tr())
        if not ctx.oblige(len(looks) == 1 and looks[0].path == TRIE + 'get_ancestor_value', 'lookup', 'the index is not asked once for the longest pattern covering the host: %s\n%s' % ([l.path for l in looks], tr())):
            continue
        key = looks[0].args[1]
        sh, name = shape(st, key)
        nm, ops = leaf(name) if name is not None else (None, set())
        w = star(st, name) if name is not None else None
        ctx.oblige(hosts and nm is not None and payload_of(nm, hosts), 'host asked for', 'the index is asked for %s, which is not made from the request host\n%s' % (e.show(key), tr()))
        ctx.oblige('lower' in ops, 'case of the host', 'the host is looked up without lower-casing it: %s' % e.show(key))
        ctx.oblige('port' in ops or no_colon(st, nm), 'port of the host', 'the host is looked up with its port: %s\n%s' % (e.show(key), tr()))
        if w is not None:
            ctx.oblige(shapes.get(w) == sh, 'normal form', 'hostnames are registered as %s and looked up as %s' % (shapes.get(w), sh))
        d = e.known(st, T('disc', looks[0].ret[1]))
        if d == 0:
            none += 1
            ctx.oblige(all(is_fallback(e, u, fi, fac) for u in uses), 'used without a match', 'a blueprint is used although no hostname covers the request\n%s' % tr())
            continue
        cands = T('deref', T('fld', looks[0].ret[1], 1, 0))
        had = {}
        for t in tests:
            q = elem_of(t.args[0])
            if q is None:
                ctx.oblige(False, 'predicate', 'a predicate that is not one of a candidate is tested: %s' % e.show(t.args[0]))
                continue
            b = TERMS[q[0]]
            owner = None
            t2 = q[0]
            while TERMS[t2][0] in ('fld', 'deref'):
                if TERMS[t2][0] == 'fld' and TERMS[t2][3] == pred_ix and owner is None:
                    owner = elem_of(('s', TERMS[t2][1]))
                t2 = TERMS[t2][1]
            if owner is None or owner[0] != cands:
                ctx.oblige(False, 'predicate', 'a predicate is tested that is not a route predicate of a candidate: %s' % e.show(t.args[0]))
                continue
            had.setdefault(owner[1], {})[q] = outcome_of(e, st, t.ret)
        known = 0
        while e.known(st, T('more', cands, known)) == 1:
            known += 1
        use = [elem_of(u.args[0]) for u in uses]
        ctx.oblige(len(uses) <= 1, 'two blueprints', 'more than one blueprint is turned into tasks\n%s' % tr())
        if uses and use[0] is not None and use[0][0] == cands:
            sel += 1
            i = use[0][1]
            preds = [q for q in had.get(i, ())]
            ctx.oblige(all(had[i][q] is True for q in preds), 'predicate not true', 'an action set is used although one of its predicates did not come out true\n%s' % tr())
            ctx.oblige(all_tested(e, st, cands, i, pred_ix, had.get(i, {})), 'predicate not tested', 'an action set is used although not all of its predicates were tested\n%s' % tr())
            prev = range(i)
        else:
            lost += 1
            ctx.oblige(not uses or is_fallback(e, uses[0], fi, fac), 'blueprint from elsewhere', 'a blueprint is used that is not a candidate: %s\n%s' % (e.show(uses[0].args[0]) if uses else '', tr()))
            prev = range(known)
        for j in prev:
            ctx.oblige(any(o is False for o in had.get(j, {}).values()), 'candidate passed over', 'candidate %d is passed over although none of its predicates came out false\n%s' % (j, tr()))
    ctx.engine_stats(e)
    ctx.floor('selecting paths', sel, 6)
    ctx.floor('paths without a match', lost, 3)
    ctx.floor('paths with an error', errs, 4)
    ctx.floor('paths without a hostname', none, 1)


def all_tested(e, st, cands, i, ix, got):
    """every predicate of candidate i that the path knows of has been tested, up to the end of the list"""
    lists = {q[0] for q in got}
    if not lists:
        lists = {k[1] for k in (TERMS[t] for t, f in st.facts.items() if TERMS[t][0] == 'more' and f == ('=', 0)) if owner_is(k[1], cands, i, ix)}
        return any(e.known(st, T('more', t, 0)) == 0 for t in lists)
    n = len(got)
    t = next(iter(lists))
    return len(lists) == 1 and sorted(q[1] for q in got) == list(range(n)) and (e.known(st, T('more', t, n)) == 0 or n >= e.klimit(t))


def owner_is(t, cands, i, ix):
    while TERMS[t][0] in ('fld', 'deref'):
        k = TERMS[t]
        if k[0] == 'fld' and k[3] == ix:
            return elem_of(('s', k[1])) == (cands, i)
        t = k[1]
    return False


def host_state(e, st, v):
    d = e.known(st, T('disc', v[1]))
    if d == 1:
        return 'error'
    s = T('fld', v[1], 0, 0)
    d = e.known(st, T('disc', s))
    if d is None:
        return 'unknown'
    if [x[0] for x in e.p.types[DTY[T('disc', s)]]['v']][d] == 'Pending':
        return 'pending'
    o = e.known(st, T('disc', T('fld', s, d, 0)))
    return 'text' if o == 1 else 'missing'


def payload_of(v, hosts):
    v = bare(v)
    for h in hosts:
        t = v[1] if v[0] == 's' else None
        n = 0
        while t is not None and n < 8:
            if ('s', t) == h.ret:
                return True
            k = TERMS[t]
            t = k[1] if k[0] in ('fld', 'deref') else None
            n += 1
    return False


def no_colon(st, nm):
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'disc' and f == ('=', 0):
            k = TERMS[k[1]]
            if k[0] == 'call' and k[1] in ('str::split_once', 'str::find') and leaf(k[2][0])[0] == nm and bare(k[2][1]) in (C(58), C(':')):
                return True
        if k[0] == 'call' and k[1] == 'str::contains' and f == ('=', 0) and leaf(k[2][0])[0] == nm and bare(k[2][1]) in (C(58), C(':')):
            return True
    return False


def is_fallback(e, u, fi, fac):
    v = bare(u.args[0])
    t = v[1] if v[0] == 's' else None
    ix = field_no(e.p, fac, 'fallback_blueprint')
    while t is not None:
        k = TERMS[t]
        if k[0] == 'fld' and k[3] == ix and TERMS[k[1]][0] == 'deref' and TERMS[TERMS[k[1]][1]][0] == 'param':
            return True
        t = k[1] if k[0] in ('fld', 'deref') else None
    return False


def field_no(p, ty, name):
    for v in p.types[ty]['v']:
        for i, (n, _t) in enumerate(v[2]):
            if n == name:
                return i
    raise AnalysisError('no field %s' % name)


def check(ctx):
    ctx.rule('every hostname of every action set is registered under a key made from the lower-cased hostname, with the action sets of one key in configuration order; a configuration with an action set that does not compile is rejected')
    ctx.rule('a wildcard pattern gives the reversed name without the wildcard, a plain name the reversed name with a mark that ends it: a pattern is a beginning of exactly the names it covers')
    ctx.rule('the host is looked up under the same function of the name, lower-cased and without port, as the longest beginning that is registered')
    ctx.rule('the blueprint used is the first candidate whose route predicates were all tested and all true, otherwise none (or the fallback without predicates); every failed or pending step gives an error')
    ctx.assume('radix_trie::Trie::get_ancestor_value returns the value of the longest registered key that is a beginning of the key asked for')
    shapes = registration(ctx)
    selection(ctx, shapes)
