"""C12: attribute reads are cached per path and agree with what was written."""
from engine.acts import *
from .c01 import run_all
from engine.base import pure_boundary

EXPLANATION = '''Every way of reading, prefetching and writing an attribute is enumerated on its abstract paths as a protocol over two objects, the cache and the host:
look up before asking, ask at most once, insert exactly what the host said, under the path that was asked for, and nothing when it said nothing; a write reaches the host first.'''
GET, INS = 'radix_trie::Trie::get', 'radix_trie::Trie::insert'
HG, HGM, HS, HSM = HOST + 'get_attribute', HOST + 'get_attribute_map', HOST + 'set_attribute', HOST + 'set_attribute_map'
READERS = ['context::ReqRespCtx::get_attribute_ref', 'context::ReqRespCtx::get_attribute']
FILL = 'context::ReqRespCtx::ensure_attributes'
WRITERS = ['context::ReqRespCtx::set_attribute', 'context::ReqRespCtx::set_attribute_map']
PATHFROM = 'data::attribute::Path as core::convert::From>::from'
FROM = {'<kuadrant_filter::data::attribute::Path as core::convert::From>::from': pure_boundary}
KINDS = {'HttpRequestHeaders': ('request', 'headers'), 'HttpResponseHeaders': ('response', 'headers')}


def check(ctx):
    ctx.rule('a read looks its path up in the cache before anything else; a hit is answered from the cached value without asking the host and is never pending')
    ctx.rule('a miss asks the host at most once, for that path; its answer is cached once under that path and returned; not available yet is pending (an error for request headers) and, like an error, not cached')
    ctx.rule('prefetching follows the same protocol for each of its paths')
    ctx.rule('a write goes to the host first; on success the written value is cached once under the path written to; otherwise the cache is untouched and the failure is reported')
    ctx.rule('the host side of a path is the same for reads and writes: header maps by their own map kind, filter state under the same prefix')
    ctx.rule('no other code reads or writes host attributes or the cache')
    ctx.rule('an expression sees exactly the value that was read: each typed attribute as that value of that type, nothing as null, pending as pending, an error as that error')
    ctx.rule('the headers seen by an expression are all headers read, repeated ones joined by commas in order; text without a known type is seen as the JSON it is, with all members, or else as that text')
    prefix = {}
    for fi in roots(ctx, READERS):
        reader(ctx, fi, prefix)
    for fi in roots(ctx, [FILL]):
        filler(ctx, fi, prefix)
    for fi in roots(ctx, WRITERS):
        writer(ctx, fi, prefix)
    r, w = prefix.get('r', set()), prefix.get('w', set())
    ctx.oblige(len(r) == 1 and len(w) == 1 and all(a.endswith('.' + b) or a.endswith(b) for a in r for b in w), 'filter state prefix', 'filter state is written under %s and read under %s' % (sorted(w), sorted(r)))
    anchors(ctx)
    key_text(ctx)
    typed(ctx)
    from_json(ctx)


def roots(ctx, names):
    p = ctx.p
    out = []
    for n in names:
        fs = [i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], (n,))]
        ctx.floor(n.split('::')[-1], len(fs), 8 if n == READERS[0] else 1)
        out += fs
    return out


def engine(ctx, K):
    CUR[1] = ctx.p
    e = base.make(ctx.p, extra=FROM)
    e.K = K
    if ctx.tier == 'thorough':
        e.K += 1
        e.LOOP += 1
    return e


def is_cache(e, v, self_):
    """the store inside the context's own cache"""
    return mentions(e.snap(CUR[0], v), lambda k: k == TERMS[strip(self_)[1]], 30)


CUR = [None, None]


def key_of(v):
    """the path a cache key stands for: the path itself written as text"""
    q = pieces(v)
    return canon_path(q[0]) if len(q) == 1 and not isinstance(q[0], str) else None


def canon_path(v):
    v = strip(v)
    for _ in range(6):
        v = strip(eta(CUR[1], v))
        if v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith(('to_string', 'Clone::clone', 'to_owned')):
            v = strip(TERMS[v[1]][2][0])
        elif v[0] == '&':
            v = strip(v[1])
        else:
            break
    return v


def tokens_ix(p):
    fs = p.types[p.adt('data::attribute::Path')]['v'][0][2]
    ix = [i for i, (n, t) in enumerate(fs) if t is not None and 'Vec<' in p.types[t]['s']]
    if len(ix) != 1:
        raise AnalysisError('Path of unknown shape')
    return ix[0]


def tok(e, st, path, i):
    """text of token i of the path if the path decided it, False if it is known to be absent, None if open"""
    s = path_tokens(e, path)
    if e.known(st, T('more', s, i)) == 0:
        return False
    t = T('elem', s, i)
    for x in (t, TIX.get(('deref', t))):
        f = st.facts.get(x) if x is not None else None
        if f is not None and f[0] == '=':
            return f[1]
    return None


def path_tokens(e, path):
    t = strip(path)[1]
    return sym('fld', t if TERMS[t][0] in ('deref', 'elem', 'call') and not isref(e, t) else T('deref', t), 0, tokens_ix(e.p))[1]


def isref(e, t):
    ty = TTY.get(t)
    return ty is not None and e.p.types[ty]['k'] == 'ref'


def shape(e, st, path):
    """'request.headers' / 'response.headers' / 'auth' / 'remote' / None (some other path) as far as the path's tokens were looked at"""
    a, b, c = (tok(e, st, path, i) for i in range(3))
    if a in ('request', 'response') and b == 'headers' and c is False:
        return a + '.headers'
    if a == 'source' and b == 'remote_address' and c is False:
        return 'remote'
    if a == 'auth':
        return 'auth'
    return None


def event_list(e, st):
    CUR[0] = st
    evs = [ev for ev in st.events() if ev.kind == 'call']
    return ([ev for ev in evs if matches(ev.path, (GET,))], [ev for ev in evs if matches(ev.path, (INS,))],
            [ev for ev in evs if matches(ev.path, (HG, HGM))], [ev for ev in evs if matches(ev.path, (HS, HSM))],
            [ev for ev in evs if HOST in '::' + ev.path and not matches(ev.path, (HG, HGM, HS, HSM))])


def hit(e, st, ev):
    """1: the lookup found a value, 0: nothing, None: not looked at"""
    r = strip(ev.ret)
    d = TIX.get(('disc', r[1])) if r[0] == 's' else None
    return e.known(st, d) if d is not None else None


def answer(e, st, ev):
    """variant of a host call's result: 'Ok', or the name of the error (None: open)"""
    rty = TTY.get(ev.ret[1])
    v = variant_of(e, st, ev.ret, rty)
    if v != 'Err':
        return v
    vs = e.p.types[rty]['v']
    ix = [i for i, x in enumerate(vs) if x[0] == 'Err'][0]
    ety = vs[ix][2][0][1]
    return possible_variants(e, st, getf(ev.ret, ix, 0), ety)


def from_value(v, t):
    return mentions(v, lambda k: k == TERMS[t], 40)


def host_read(ctx, e, st, fi, path, ev, prefix):
    """the host is asked for the path itself"""
    p = ctx.p
    tr = lambda: trace_text(e, st)
    sh = shape(e, st, path)
    where = '%s: ' % p.where(fi)
    if matches(ev.path, (HGM,)):
        kind = map_kind(e, st, ev.args[1])
        ctx.oblige(kind in KINDS and sh == '.'.join(KINDS[kind]), 'header map of another path', where + 'the header map %s is read for %s\n%s' % (kind, sh, tr()))
        return
    ctx.oblige(sh not in ('request.headers', 'response.headers'), 'headers as attribute', where + '%s is read as a plain attribute\n%s' % (sh, tr()))
    arg = canon_path(e.snap(st, ev.args[1]))
    k = TERMS[arg[1]] if arg[0] == 's' else None
    if not same_path(e, arg, path) and k is not None and k[0] == 'call' and k[1].endswith(PATHFROM):
        q = pieces(k[2][0])
        if sh == 'remote':
            ctx.oblige(q == ['source.address'], 'remote address source', where + 'source.remote_address is taken from %s' % q)
            return
        okk = ctx.oblige(sh == 'auth', 'attribute under another name', where + 'the host is asked for %s although the path is not under auth\n%s' % (e.show(arg, 6), tr()))
        if okk:
            state_name(ctx, e, st, path, q, prefix, 'r', where)
        return
    ctx.oblige(same_path(e, arg, path), 'attribute of another path', where + 'the host is asked for %s\n%s' % (e.show(arg, 6), tr()))
    ctx.oblige(sh != 'auth', 'auth read elsewhere', where + 'a path under auth is not read from the filter state\n%s' % tr())


def state_name(ctx, e, st, path, q, prefix, rw, where):
    """constant prefix, then the tokens of the path joined"""
    txt = ''.join(x for x in q[:-1] if isinstance(x, str))
    last = q[-1]
    okk = all(isinstance(x, str) for x in q[:-1]) and not isinstance(last, str) and last[0] == 's' and TERMS[last[1]][0] == 'call' and TERMS[last[1]][1].endswith('::join')
    if ctx.oblige(okk, 'filter state name', where + 'the name in the filter state is made of %s' % [x if isinstance(x, str) else e.show(x, 4) for x in q]):
        a = TERMS[last[1]][2]
        s = path_tokens(e, path)
        n = e.show(a[0], 8)
        x = canon(e, st, strip(a[0]))
        all_ = x == [('all', s)] or x == [] and e.known(st, T('more', s, 0)) == 0
        ctx.oblige(pieces(a[1]) == ['\\.'] and all_, 'filter state tokens', where + 'the name in the filter state joins %s of the path' % n)
        prefix.setdefault(rw, set()).add(txt)


def same_path(e, a, b):
    a, b = strip(a), strip(b)
    return a == b or (a[0] == 's' and b[0] == 's' and (TERMS[a[1]] == ('deref', b[1]) or TERMS[b[1]] == ('deref', a[1])))


def map_kind(e, st, v):
    v = e.snap(st, v)
    ty = v[1] if v[0] == 'a' else TTY.get(v[1]) if v[0] == 's' else None
    if ty is None:
        return None
    return variant_of(e, st, v, ty)


def lookup_protocol(ctx, e, st, fi, self_, path, gets, ins, reads, prefix):
    """returns ('hit', event) / ('miss', None) / ('host', event, answer)"""
    p = ctx.p
    tr = lambda: trace_text(e, st)
    where = '%s: ' % p.where(fi)
    if not ctx.oblige(len(gets) == 1 and is_cache(e, gets[0].args[0], self_) and same_path(e, key_of(e.snap(st, gets[0].args[1])) or C(0), path),
                      'lookup', where + 'not exactly one look-up under the path itself (%s)\n%s' % ([e.show(e.snap(st, x.args[1]), 5) for x in gets], tr())):
        return None
    order = [id(ev) for ev in st.events()]
    h = hit(e, st, gets[0])
    if not ctx.oblige(h in (0, 1), 'lookup ignored', where + 'the result of the look-up is not looked at\n%s' % tr()):
        return None
    if h == 1:
        ctx.oblige(not reads and not ins, 'hit asks the host', where + 'a cached path is read from the host again or cached again\n%s' % tr())
        return ('hit', gets[0])
    if not ctx.oblige(len(reads) == 1 and order.index(id(reads[0])) > order.index(id(gets[0])), 'miss', where + '%d host reads for a path that is not cached\n%s' % (len(reads), tr())):
        return None
    host_read(ctx, e, st, fi, path, reads[0], prefix)
    a = answer(e, st, reads[0])
    if a == 'Ok':
        if len(ins) == 0 and shape(e, st, path) == 'remote' and not_text(e, st, reads[0]):
            return ('bad', reads[0], a)
        if ctx.oblige(len(ins) == 1 and is_cache(e, ins[0].args[0], self_) and same_path(e, key_of(e.snap(st, ins[0].args[1])) or C(0), path), 'answer not cached',
                      where + 'the answer of the host is cached %d times or not under its path (%s)\n%s' % (len(ins), [e.show(e.snap(st, x.args[1]), 5) for x in ins], tr())):
            cached_value(ctx, e, st, fi, reads[0], ins[0], path, where)
    else:
        ctx.oblige(not ins, 'failure cached', where + 'a value is cached although the host returned an error\n%s' % tr())
    return ('host', reads[0], a)


def not_text(e, st, ev):
    return any(TERMS[t][0] == 'isutf8' and f == ('=', 0) and term_mentions(t, lambda k: k == TERMS[ev.ret[1]], 12) for t, f in st.facts.items())


def cached_value(ctx, e, st, fi, ev, ins, path, where):
    """what is cached is what the host said"""
    v = e.snap(st, ins.args[2])
    okix = 0
    oc = getf(ev.ret, okix, 0)
    cty = ctx.p.adt('cache::CachedValue')
    vn = variant_of(e, st, v, cty) if v[0] in ('a', 's') else None
    if matches(ev.path, (HGM,)):
        ctx.oblige(vn == 'Headers' and from_value(v, ev.ret[1]), 'cached headers', where + 'the cached value %s is not the header map the host returned' % e.show(v, 6))
        return
    some = TIX.get(('disc', oc[1]))
    d = e.known(st, some) if some is not None else None
    x = getf(v, 0, 0) if vn == 'Bytes' else None
    if x is None:
        ctx.oblige(False, 'cached kind', where + 'an attribute is cached as %s' % vn)
        return
    if strip(x) == strip(oc):
        return
    xty = TTY.get(x[1]) if x[0] == 's' else x[1]
    xn = variant_of(e, st, x, xty) if xty is not None else None
    if d == 0:
        ctx.oblige(xn == 'None', 'cached absence', where + 'the host has no value but %s is cached' % e.show(v, 6))
    elif d == 1:
        w = getf(x, 1, 0)
        okk = strip(w) == strip(getf(oc, 1, 0))
        if shape(e, st, path) == 'remote':
            okk = from_value(w, ev.ret[1])
        ctx.oblige(xn == 'Some' and okk, 'cached bytes', where + 'the host returned %s but %s is cached' % (e.show(oc, 4), e.show(v, 8)))
    else:
        ctx.oblige(False, 'cached bytes', where + 'the cached value is %s' % e.show(v, 6))


def outer(e, st, fi):
    """'Pending' / ('value', v) / ('err', v) / None"""
    rty = e.p.fns[fi]['b']['ls'][0][0]
    v = variant_of(e, st, st.result, rty)
    if v == 'Err':
        return ('err', e.snap(st, getf(st.result, 1, 0)))
    if v != 'Ok':
        return None
    a = getf(st.result, 0, 0)
    aty = e.p.types[rty]['v'][0][2][0][1]
    n = variant_of(e, st, a, aty)
    if n == 'Pending':
        return ('pending',)
    if n != 'Available':
        return None
    ix = [i for i, x in enumerate(e.p.types[aty]['v']) if x[0] == 'Available'][0]
    return ('value', e.snap(st, getf(a, ix, 0)), e.p.types[aty]['v'][ix][2][0][1])


def error_kind(e, st, v):
    ty = e.p.adt('attribute::AttributeError')
    return variant_of(e, st, v, ty)


def reader(ctx, fi, prefix):
    p = ctx.p
    e = engine(ctx, 3)
    self_, path = e.params(fi)
    own = path if isref(e, path[1]) and 'attribute::Path' in p.types[TTY[path[1]]]['s'] else None
    n = {'hit': 0, 'host': 0, 'pending': 0}
    what = p.types[p.fns[fi]['b']['ls'][0][0]]['s']
    for st in run_all(ctx, e, fi):
        tr = lambda: trace_text(e, st)
        gets, ins, reads, writes, other = event_list(e, st)
        where = '%s: ' % p.where(fi)
        pth = own
        if pth is None:
            # the path is made from the argument
            k = key_of(e.snap(st, gets[0].args[1])) if gets else None
            okk = k is not None and k[0] == 's' and TERMS[k[1]][0] == 'call' and strip(TERMS[k[1]][2][0]) == strip(path)
            if not ctx.oblige(okk, 'path of a read', where + 'the path looked up is not made from the argument'):
                continue
            pth = k
        ctx.oblige(not writes and not other, 'read writes', where + 'reading an attribute has another effect on the host\n%s' % tr())
        r = lookup_protocol(ctx, e, st, fi, self_, pth, gets, ins, reads, prefix)
        o = outer(e, st, fi)
        if r is None or not ctx.oblige(o is not None, 'result undecided', where + 'the result of the read is %s' % e.show(st.result, 4)):
            continue
        if r[0] == 'hit':
            n['hit'] += 1
            src = r[1].ret[1]
            ctx.oblige(o[0] != 'pending', 'hit pending', where + 'a cached value is reported as pending\n%s' % tr())
            if o[0] == 'value':
                value_from(ctx, e, st, o, src, where, 'hit value')
            elif o[0] == 'err':
                ctx.oblige(error_kind(e, st, o[1]) == 'Parse', 'hit error', where + 'a cached value is reported as another error than one of its form\n%s' % tr())
        elif r[0] == 'bad':
            ctx.oblige(o[0] == 'err', 'bad value', where + 'an unusable value of the host is not an error\n%s' % tr())
        else:
            n['host'] += 1
            src, a = r[1].ret[1], r[2]
            if a == 'Ok':
                ctx.oblige(o[0] != 'pending', 'answer pending', where + 'a value the host returned is reported as pending\n%s' % tr())
                if o[0] == 'value':
                    value_from(ctx, e, st, o, src, where, 'host value')
                elif o[0] == 'err':
                    ctx.oblige(error_kind(e, st, o[1]) == 'Parse', 'answer error', where + 'a value the host returned is reported as another error than one of its form\n%s' % tr())
            elif a == ['NotAvailable']:
                if shape(e, st, pth) == 'request.headers':
                    ctx.oblige(o[0] == 'err', 'request headers pending', where + 'request headers that cannot be read are reported as pending or a value\n%s' % tr())
                else:
                    n['pending'] += 1
                    ctx.oblige(o[0] == 'pending', 'not pending', where + 'a value that is not there yet is reported as %s\n%s' % (o[0], tr()))
            else:
                ctx.oblige(a is not None and 'NotAvailable' not in a and o[0] == 'err', 'error lost', where + 'an error of the host (%s) is reported as %s\n%s' % (a, o[0], tr()))
    for k in n:
        ctx.floor('%s paths of a read as %s' % (k, what[-60:]), n[k], 1)
    ctx.sample({'function': p.short(p.fns[fi]['p']), 'paths': dict(n)})


def value_from(ctx, e, st, o, src, where, key):
    """the value returned is the one found (its absence an absence)"""
    v, ty = o[1], o[2]
    vn = variant_of(e, st, v, ty)
    if vn == 'Some':
        ctx.oblige(from_value(v, src) or derived_by_facts(e, st, v, src), key, where + 'the value returned, %s, does not come from the value found\n%s' % (e.show(v, 6), trace_text(e, st)))
    else:
        # absent: the path must have seen that the value found is absent
        absent = [t for t, f in st.facts.items() if TERMS[t][0] == 'disc' and f == ('=', 0) and TERMS[TERMS[t][1]][0] == 'fld' and term_mentions(TERMS[t][1], lambda k: k == TERMS[src], 30) and opt(e, TERMS[t][1])]
        ctx.oblige(vn == 'None' and bool(absent), key + ' absent', where + 'a value found is returned as absent\n%s' % trace_text(e, st))


def opt(e, t):
    ty = TTY.get(t)
    return ty is not None and e.p.head(ty).endswith('option::Option')


def derived_by_facts(e, st, v, src):
    """a constant value (a boolean, say) chosen by a branch on the value found"""
    return any(term_mentions(t, lambda k: k == TERMS[src], 30) for t in st.facts)


def filler(ctx, fi, prefix):
    p = ctx.p
    e = engine(ctx, 1)
    self_, paths = e.params(fi)
    ptoks = set()
    e.K = 3
    e.KOF = lambda s: 1 if TERMS[s][0] == 'deref' and TERMS[s][1] == paths[1] or s == paths[1] else e.K
    n = {'hit': 0, 'host': 0, 'empty': 0}
    for st in run_all(ctx, e, fi):
        tr = lambda: trace_text(e, st)
        gets, ins, reads, writes, other = event_list(e, st)
        where = '%s: ' % p.where(fi)
        ctx.oblige(not writes and not other, 'prefetch writes', where + 'prefetching has another effect on the host\n%s' % tr())
        s = [x for x in walked_seqs(e, st) if strip(('s', x)) == strip(paths) or TERMS[x] == ('deref', paths[1])]
        if not ctx.oblige(len(s) == 1, 'paths left out', where + 'not every path is prefetched\n%s' % tr()):
            continue
        cnt = walked(e, st, s[0])
        if cnt == 0:
            n['empty'] += 1
            ctx.oblige(not gets and not ins and not reads, 'prefetch of nothing', where + 'something is fetched for an empty list\n%s' % tr())
            continue
        r = lookup_protocol(ctx, e, st, fi, self_, ('s', T('elem', s[0], 0)), gets, ins, reads, prefix)
        if r is not None and r[0] in n:
            n[r[0]] += 1
    for k in n:
        ctx.floor('%s paths of a prefetch' % k, n[k], 1)


def writer(ctx, fi, prefix):
    p = ctx.p
    e = engine(ctx, 3)
    self_, path, value = e.params(fi)
    hdr = p.head(TTY[value[1]]).endswith('Headers')
    n = {'ok': 0, 'pending': 0, 'err': 0, 'refused': 0}
    for st in run_all(ctx, e, fi):
        tr = lambda: trace_text(e, st)
        gets, ins, reads, writes, other = event_list(e, st)
        where = '%s: ' % p.where(fi)
        ctx.oblige(not reads and not other, 'write reads', where + 'writing an attribute has another effect on the host\n%s' % tr())
        o = outer(e, st, fi)
        if not ctx.oblige(o is not None and len(writes) <= 1, 'write undecided', where + 'the result of the write is %s' % e.show(st.result, 4)):
            continue
        if hdr:
            pth = path
            sh = shape(e, st, path)
        else:
            pth, sh = None, None
        if not writes:
            n['refused'] += 1
            ctx.oblige(hdr and sh is None, 'write lost', where + 'the value is not written to the host\n%s' % tr())
            ctx.oblige(o[0] == 'err' and not ins, 'write refused', where + 'nothing was written but the result is %s, %d cached\n%s' % (o[0], len(ins), tr()))
            continue
        w = writes[0]
        if hdr:
            kind = map_kind(e, st, w.args[1])
            ctx.oblige(matches(w.path, (HSM,)) and kind in KINDS and sh == '.'.join(KINDS[kind]), 'header map written elsewhere', where + 'headers of %s are written to %s\n%s' % (sh, kind, tr()))
            ctx.oblige(whole(e, st, e.snap(st, w.args[2]), value), 'headers written', where + 'the headers written are %s' % e.show(e.snap(st, w.args[2]), 6))
        else:
            ctx.oblige(matches(w.path, (HS,)), 'attribute written elsewhere', where + 'an attribute is written by %s' % w.path)
            x = canon_path(e.snap(st, w.args[2]))
            ctx.oblige(same_bytes(e, x, value), 'attribute value', where + 'the value written is %s' % e.show(x, 6))
            arg = canon_path(e.snap(st, w.args[1]))
            k = TERMS[arg[1]] if arg[0] == 's' else None
            if ctx.oblige(k is not None and k[0] == 'call' and k[1].endswith(PATHFROM), 'attribute name', where + 'the attribute written is %s' % e.show(arg, 6)):
                q = pieces(k[2][0])
                # the path the value is written to, from the argument
                own = [TIX[x] for x in TIX if x[0] == 'call' and x[1].endswith(PATHFROM) and strip(x[2][0]) == strip(path)]
                if ctx.oblige(len(own) == 1, 'attribute path', where + 'the attribute written is not named by the argument'):
                    pth = ('s', own[0])
                    state_name(ctx, e, st, pth, q, prefix, 'w', where)
        a = answer(e, st, w)
        if a == 'Ok':
            n['ok'] += 1
            order = [id(ev) for ev in st.events()]
            if ctx.oblige(len(ins) == 1 and order.index(id(ins[0])) > order.index(id(w)) and is_cache(e, ins[0].args[0], self_), 'write not cached', where + 'after a successful write %d values are cached\n%s' % (len(ins), tr())):
                k = key_of(e.snap(st, ins[0].args[1]))
                ctx.oblige(k is not None and pth is not None and same_path(e, k, pth), 'write cached elsewhere', where + 'the value is cached under %s\n%s' % (e.show(e.snap(st, ins[0].args[1]), 6), tr()))
                v = e.snap(st, ins[0].args[2])
                cty = p.adt('cache::CachedValue')
                vn = variant_of(e, st, v, cty)
                if hdr:
                    ctx.oblige(vn == 'Headers' and strip(getf(v, 1, 0)) == strip(value) or from_value(v, value[1]) and vn == 'Headers', 'cached headers of a write', where + 'the cached value is %s' % e.show(v, 6))
                else:
                    x = getf(v, 0, 0) if vn == 'Bytes' else None
                    ctx.oblige(x is not None and x[0] == 'a' and x[2] == 1 and same_bytes(e, getf(x, 1, 0), value), 'cached value of a write', where + 'the cached value is %s' % e.show(v, 6))
            ctx.oblige(o[0] == 'value', 'write reported', where + 'a successful write is reported as %s\n%s' % (o[0], tr()))
        else:
            ctx.oblige(not ins, 'failed write cached', where + 'a value that could not be written is cached\n%s' % tr())
            if a == ['NotAvailable']:
                n['pending'] += 1
                want = ('err',) if sh == 'request.headers' else ('pending',)
                ctx.oblige(o[0] in want, 'write not pending', where + 'a write that is not possible yet is reported as %s\n%s' % (o[0], tr()))
            else:
                n['err'] += 1
                ctx.oblige(a is not None and 'NotAvailable' not in a and o[0] == 'err', 'write error lost', where + 'a failed write (%s) is reported as %s\n%s' % (a, o[0], tr()))
    for k in n:
        if k != 'refused' or hdr:
            ctx.floor('%s paths of %s' % (k, p.short(p.fns[fi]['p'])), n[k], 1)


def whole(e, st, v, value):
    """v holds all entries of the header list `value`, in order"""
    if from_value(v, value[1]) and v[0] != 'v':
        return strip(v)[0] == 's' and field_chain(strip(v)[1], value[1])
    q = canon(e, st, v)
    if not q:
        return any(n == 0 and field_chain(s, value[1]) for s, n in walked_seqs(e, st).items())
    return len(q) == 1 and q[0][0] == 'all' and field_chain(q[0][1], value[1])


def same_bytes(e, v, value):
    v, value = canon_path(v), canon_path(value)
    for _ in range(6):
        if v == value:
            return True
        if v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith(('to_vec', 'to_owned', 'clone', 'into', 'from')):
            v = canon_path(TERMS[v[1]][2][0])
        elif v[0] == 's' and TERMS[v[1]] == ('deref', value[1]) or value[0] == 's' and v[0] == 's' and TERMS[value[1]] == ('deref', v[1]):
            return True
        elif v[0] == 'v' and len(v[1]) == 1:
            sg = v[1][0]
            return mentions(v, lambda k: k == TERMS[value[1]], 8) and 'elem' not in str(sg[0])
        else:
            return False
    return False


def anchors(ctx):
    """who may touch host attributes and the cache"""
    p, g = ctx.p, ctx.g
    rts = [i for i, f in enumerate(p.fns) if f['b'] is not None and matches(f['p'], tuple(READERS + [FILL] + WRITERS))]
    n = {}
    sites = [(s, path) for s, path in g.calls_named(lambda path, c: matches(path, (GET, INS, HG, HGM, HS, HSM)))]
    owners = {}
    for s, path in sites:
        owners.setdefault(s.fi, set()).add(path)
    for fi in owners:
        for c in outside(ctx, fi, set(rts)):
            ctx.oblige(False, 'attribute access outside: %s' % p.short(p.fns[fi]['p']), '%s reads or writes host attributes or the cache and can be entered from %s without the cache protocol' % (p.where(fi), p.short(p.fns[c]['p'])))
        n[fi] = 1
        ctx.oblige(True, '', '')
    ctx.floor('functions touching attributes', len(n), 5)


def outside(ctx, fi, rts):
    """functions from which fi is entered without passing a root: entry functions with no caller in this crate"""
    g, p = ctx.g, ctx.p
    seen, todo, out = set(), [fi], []
    while todo:
        x = todo.pop()
        if x in seen or x in rts:
            continue
        seen.add(x)
        cs = list(g.callers(x))
        if not cs and p.fns[x]['l']:
            out.append(x)
        todo += cs
    return out


def key_text(ctx):
    """two different paths have different keys: as text, the tokens of a path are separated by a text that, with what is
    done to the characters of each token, leaves a prefix-free code"""
    p = ctx.p
    fi = p.find1('<kuadrant_filter::data::attribute::Path as core::fmt::Display>::fmt')
    e = base.make(p)
    n = 0
    toks = tokens_ix(p)
    for st in run_all(ctx, e, fi):
        self_ = e.params(fi)[0]
        out = []
        for ev in st.events():
            if ev.kind == 'call' and ev.path.endswith(('Formatter::write_fmt', 'Formatter::write_str', 'Formatter::pad')):
                a = e.snap(st, ev.args[1])
                out += fmt_pieces(a) if ev.path.endswith('write_fmt') else pieces(a)
        j = out[0] if len(out) == 1 and not isinstance(out[0], str) else None
        k = TERMS[strip(j)[1]] if j is not None and strip(j)[0] == 's' else ('',)
        if not (k[0] == 'call' and k[1].endswith('::join')):
            ctx.notes['text of a path'] = 'not a join of its tokens: injectivity not decided'
            continue
        sep = pieces(k[2][1])
        items = strip(k[2][0])
        segs = [x[1] for x in items[1]] if items[0] == 'v' else [] if items[0] == 's' else None
        if items[0] == 's':
            ctx.oblige(False, 'path text', '%s: the tokens of a path are joined as they are: different paths have the same cache key' % p.where(fi))
            continue
        for x in segs:
            chain, y = [], strip(x)
            while y[0] == 's' and TERMS[y[1]][0] == 'call' and TERMS[y[1]][1].endswith('str::replace'):
                a = TERMS[y[1]][2]
                f, t = strip(a[1]), strip(a[2])
                chain.insert(0, (chr(f[1]) if isinstance(f[1], int) else f[1], t[1]) if f[0] == 'c' and t[0] == 'c' else None)
                y = strip(a[0])
            if y[0] != 's' or TERMS[y[1]][0] != 'elem' or None in chain or not all(len(f) == 1 for f, t in chain):
                ctx.notes['text of a path'] = 'tokens are transformed in another way: injectivity not decided'
                continue
            n += 1
            sigma = set(sep[0]) | {c for f, t in chain for c in f + t} | {'x'}
            img = {}
            for c in sigma:
                z = c
                for f, t in chain:
                    z = z.replace(f, t)
                img[c] = z
            code = list(img.values()) + [sep[0]]
            okk = all(not (i != j and b.startswith(a)) for i, a in enumerate(code) for j, b in enumerate(code)) and all(code)
            ctx.oblige(okk, 'path text', '%s: characters of a token become %s, tokens are separated by %r: different paths have the same cache key' % (p.where(fi), img, sep[0]))
    ctx.notes['token texts'] = n


# -- what expressions see ----------------------------------------------------------------------------

ATTR = 'cel::Attribute::get'
GAR = 'context::ReqRespCtx::get_attribute_ref'
SAME = ('From>::from', 'From::from', 'Into>::into', 'Into::into', 'Clone::clone', 'Clone>::clone', 'to_string', 'to_owned', 'as_str', 'Deref::deref', 'Deref>::deref', 'Arc::new', 'as_ref', 'to_vec', 'as_bytes', 'as_slice', 'into_bytes')


def plain(v):
    """the value something is a copy of, conversions that keep it taken off"""
    n = 0
    while n < 20:
        n += 1
        v = strip(v)
        if v[0] == 'a' and len(v[4]) == 1:
            v = v[4][0][1]
        elif v[0] == 's' and TERMS[v[1]][0] == 'deref':
            v = ('s', TERMS[v[1]][1])
        elif v[0] == 's' and TERMS[v[1]][0] == 'call' and len(TERMS[v[1]][2]) == 1 and TERMS[v[1]][1].endswith(SAME):
            v = TERMS[v[1]][2][0]
        else:
            break
    return v


def case(p, v):
    """variant name of a built value"""
    return p.types[v[1]]['v'][v[2]][0] if v[0] == 'a' and v[1] is not None and p.types[v[1]]['k'] == 'adt' else None


def only(v):
    return v[4][0][1] if v[0] == 'a' and len(v[4]) == 1 else ('undef',)


def seen_type(e, st):
    """the variants the attribute's type can be on this path"""
    p = e.p
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] != 'disc' or f[0] != '=':
            continue
        x = strip(k[1] if isinstance(k[1], tuple) else ('s', k[1]))
        ty = TTY.get(x[1]) if x[0] == 's' else None
        while ty is not None and p.types[ty]['k'] == 'ref':
            ty = p.types[ty]['t']
        if ty is not None and p.types[ty]['k'] == 'adt' and p.types[ty]['p'].endswith('objects::ValueType'):
            return p.types[ty]['v'][f[1]][0]
    return None


def part(ret, v):
    """v is the value inside Ok(Available(Some(_))) of a read"""
    n = 0
    v = strip(v)
    while v[0] == 's' and v != strip(ret) and TERMS[v[1]][0] in ('fld', 'deref') and n < 8:
        n += TERMS[v[1]][0] == 'fld'
        v = strip(('s', TERMS[v[1]][1]))
    return v == strip(ret) and n == 3


def json_fns(p):
    """conversions of a JSON value to what an expression sees"""
    fs, json = [], None
    for i, f in enumerate(p.fns):
        if f['l'] and f['b'] is not None and '{closure' not in f['p'] and f['b']['n'] == 1:
            a, r = p.types[f['b']['ls'][1][0]], p.types[f['b']['ls'][0][0]]
            while a['k'] == 'ref':
                a = p.types[a['t']]
            if a['k'] == 'adt' and a['p'].endswith('Value') and 'serde_json' in a['p'] and r['k'] == 'adt' and r['p'].endswith('cel::objects::Value'):
                fs.append(i)
                json = p.types.index(a)
    return fs, json


def typed(ctx):
    p = ctx.p
    fi = p.find1(ATTR)
    conv = [p.fns[i]['p'] for i in json_fns(p)[0]]
    e = base.make(p, dict(FROM, **{GAR: boundary}, **{k: pure_boundary for k in conv}))
    e.K = 2 if ctx.tier != 'thorough' else 3
    n = {}
    for st in e.run(fi):
        gs = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (GAR,))]
        if not ctx.oblige(len(gs) == 1, 'seen: read once', 'an attribute is read %d times for one evaluation' % len(gs)):
            continue
        ret = gs[0].ret
        res = strip(e.snap(st, st.result, 9))
        ty = seen_type(e, st)
        what = ty or 'untyped'
        ok = e.known(st, T('disc', ret[1]))
        if case(p, res) == 'Err':
            ctx.oblige(ok == 1, 'seen: error', 'reading a %s attribute becomes an error although it succeeded' % what)
            continue
        if not ctx.oblige(case(p, res) == 'Ok' and ok == 0, 'seen: failed read', 'a failed read of a %s attribute is seen as a value' % what):
            continue
        state = only(res)
        inner = sym('fld', ret[1], 0, 0)
        av = e.known(st, T('disc', inner[1]))
        if case(p, state) == 'Pending' or strip(state) == strip(inner) and av == 0:
            ctx.oblige(av == 0, 'seen: pending', 'a %s attribute that is there is reported as pending' % what)
            n[what, 'pending'] = 1
            continue
        if not ctx.oblige(case(p, state) == 'Available' and av == 1, 'seen: not there yet', 'a pending %s attribute is seen as a value' % what):
            continue
        v = strip(only(state))
        opt = sym('fld', inner[1], 1, 0)
        there = e.known(st, T('disc', opt[1]))
        if case(p, v) == 'Null' and there == 0:
            n[what, 'null'] = 1
            continue
        if there == 0:
            ctx.oblige(False, 'seen: nothing', 'a missing %s attribute is seen as a value other than null' % what)
            continue
        n[what, 'value'] = 1
        if ty is None:
            x = plain(v)
            text = part(ret, x)
            jok = [t for t, f in st.facts.items() if TERMS[t][0] == 'disc' and isinstance(TERMS[t][1], int) and TERMS[TERMS[t][1]][0] == 'call' and TERMS[TERMS[t][1]][1].endswith('from_str') and part(ret, plain(TERMS[TERMS[t][1]][2][0]))]
            good = [t for t in jok if st.facts[t] == ('=', 0)]
            if not ctx.oblige(bool(jok), 'seen: JSON tried', 'an attribute of no known type is not read as JSON'):
                continue
            if good:
                k = TERMS[x[1]] if x[0] == 's' else ('',)
                y = plain(k[2][0]) if k[0] == 'call' and k[1] in [c.split('::', 1)[-1] for c in conv] + conv else ('undef',)
                ctx.oblige(y[0] == 's' and TERMS[y[1]][0] == 'fld' and TERMS[y[1]][1] == TERMS[good[0]][1], 'seen: JSON', 'text that is JSON is not seen as the JSON it is: %s' % e.show(v, 5)[:300])
                n['untyped', 'json'] = 1
            else:
                ctx.oblige(text, 'seen: text', 'text that is no JSON is not seen as that text: %s' % e.show(v, 5)[:300])
                n['untyped', 'text'] = 1
            continue
        if case(p, v) is not None:
            ctx.oblige(case(p, v) == ty, 'seen: type ' + ty, 'an attribute of type %s is seen as %s' % (ty, case(p, v)))
        x = plain(v)
        if ty == 'Map':
            ctx.oblige(x[0] == 'm', 'seen: headers', 'the headers are not followed into what the expression sees')
            if x[0] == 'm':
                header_view(ctx, e, st, ret, x)
            continue
        ctx.oblige(part(ret, x), 'seen: ' + ty, 'an attribute of type %s is not seen as the value that was read: %s' % (ty, e.show(v, 5)[:200]))
    ctx.engine_stats(e)
    for k in ('json', 'text'):
        ctx.floor('untyped attributes seen as ' + k, ('untyped', k) in n, 1)
    for k in ('String', 'Int', 'UInt', 'Float', 'Bool', 'Bytes', 'Timestamp', 'Map', 'untyped'):
        ctx.floor('%s attributes seen' % k, (k, 'value') in n, 1)
        ctx.floor('%s attributes missing' % k, (k, 'null') in n, 1)


def el_part(v):
    """(list, position, field) of a part of a list element"""
    x = plain(v)
    if x[0] != 's' or TERMS[x[1]][0] != 'fld':
        return None
    j = TERMS[x[1]][3]
    y = plain(('s', TERMS[x[1]][1]))
    k = TERMS[y[1]] if y[0] == 's' else ('',)
    return (k[1], k[2], j) if k[0] == 'elem' else None


def header_view(ctx, e, st, ret, m):
    lists = set()
    values = []
    good = True
    for s in m[1]:
        if s[0] != 'kv':
            good = False
            continue
        key = el_part(s[1])
        ps = [el_part(x) or x for x in pieces(s[2])]
        good = good and key is not None and key[2] == 0 and len(ps) % 2 == 1
        good = good and all(x == ',' or strip(x) == C(',') if i % 2 else (len(x) == 3 and x[2] == 1 and isinstance(x[1], int)) for i, x in enumerate(ps) if True)
        if not good:
            break
        vs = [x for i, x in enumerate(ps) if i % 2 == 0]
        lists |= {key[0]} | {x[0] for x in vs}
        good = vs[0][1] == key[1] and [x[1] for x in vs] == sorted(x[1] for x in vs)
        values += [x[1] for x in vs]
        if not good:
            break
    k = None
    if len(lists) == 1:
        k = walked(e, st, lists.copy().pop())
        good = good and part_root(ret, lists.copy().pop())
    elif not m[1]:
        k = 0
        for t, f in st.facts.items():
            if TERMS[t][0] == 'more' and part_root(ret, TERMS[t][1]) and f == ('=', 1):
                k = None
    ctx.oblige(good and k is not None and sorted(values) == list(range(k)), 'seen: every header', 'the headers seen by an expression are not those read, each once under its own name: %s' % e.show(m, 7)[:400])


def part_root(ret, seq):
    return mentions(('s', seq), lambda k: k == TERMS[strip(ret)[1]], 12)


def from_json(ctx):
    """the value seen for a JSON text has every member of it"""
    p = ctx.p
    fs, json = json_fns(p)
    ctx.floor('conversions of JSON values', len(fs), 1)
    n = {}
    for fi in fs:
        path = p.fns[fi]['p']
        e = base.make(p, {path: pure_boundary})
        e.K = 2 if ctx.tier != 'thorough' else 4
        self_ = plain(e.params(fi)[0])
        for st in e.run(fi):
            v = strip(e.snap(st, st.result, 9))
            d = [f[1] for t, f in st.facts.items() if TERMS[t][0] == 'disc' and plain(('s', TERMS[t][1]) if isinstance(TERMS[t][1], int) else TERMS[t][1]) == self_ and f[0] == '=']
            if not ctx.oblige(len(d) == 1, 'JSON: kind', 'a JSON value is converted without looking at its kind'):
                continue
            kind = p.types[json]['v'][d[0]][0]
            n[kind] = n.get(kind, 0) + 1
            x = plain(v)
            if kind == 'Null':
                ctx.oblige(case(p, v) == 'Null', 'JSON: null', 'JSON null is seen as %s' % e.show(v))
            elif kind in ('Bool', 'String'):
                k = TERMS[x[1]] if x[0] == 's' else ('',)
                ctx.oblige(k[0] == 'fld' and plain(('s', k[1])) == self_, 'JSON: ' + kind, 'a JSON %s is not seen as itself: %s' % (kind, e.show(v, 5)[:200]))
            elif kind in ('Array', 'Object'):
                segs = x[1] if x[0] in ('v', 'm') else None
                if not ctx.oblige(segs is not None, 'JSON: %s followed' % kind, 'the members of a JSON %s are not followed: %s' % (kind, e.show(v, 5)[:200])):
                    continue
                got = []
                for s in segs:
                    y = plain(s[1]) if s[0] == 'e' else (plain(s[2]) if s[0] == 'kv' else ('undef',))
                    if s[0] == 'kv':
                        kk = el_part(s[1])
                        val = el_part(TERMS[y[1]][2][0]) if y[0] == 's' and TERMS[y[1]][0] == 'call' and TERMS[y[1]][1].endswith(path.split('::', 1)[-1]) else None
                        got.append(val[:2] if kk and val and kk[:2] == val[:2] and (kk[2], val[2]) == (0, 1) else None)
                    else:
                        z = plain(TERMS[y[1]][2][0]) if y[0] == 's' and TERMS[y[1]][0] == 'call' and TERMS[y[1]][1].endswith(path.split('::', 1)[-1]) else ('undef',)
                        got.append(TERMS[z[1]][1:3] if z[0] == 's' and TERMS[z[1]][0] == 'elem' else None)
                seqs = {g[0] for g in got if g}
                k = walked(e, st, seqs.copy().pop()) if len(seqs) == 1 else (0 if not got and not any(f == ('=', 1) for t, f in st.facts.items() if TERMS[t][0] == 'more') else None)
                ctx.oblige(None not in got and k is not None and [g[1] for g in got] == list(range(k)), 'JSON: every member', 'a JSON %s is seen with other members than its own: %s' % (kind, e.show(v, 6)[:300]))
        ctx.engine_stats(e)
    for k in ('Null', 'Bool', 'Number', 'String', 'Array', 'Object'):
        ctx.floor('JSON %s converted' % k, n.get(k, 0), 3 if k in ('Array', 'Object') else 1)
