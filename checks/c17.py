"""C17: descriptor fetching never loses, mixes up or stalls on a service."""
from engine.rules import *
from engine.core import *
from engine import base
from engine.base import matches, boundary
from engine.models import strip, seq_place
from .c14 import bare

EXPLANATION = '''Each public operation of the descriptor manager is run as abstract paths over an unknown table of services (keys and states symbolic), and what a path does to the table is read off as a set of changed entries.
That set must be exactly the one the operation is for: fetching asks for all missing services and no others and marks exactly those as waiting for its token, a reply changes exactly the entries it holds valid descriptors
for, resetting changes exactly the entries waiting for that token, and a lookup answers from the entry of that very service.'''
MAN = 'descriptor_manager::DescriptorManager'
DISP = 'resolver::AttributeResolver::dispatch_grpc_call'


class Dm:
    def __init__(self, ctx):
        p = self.p = ctx.p
        self.ctx = ctx
        self.ty = p.adt(MAN)
        self.key = p.adt('descriptor_manager::DescriptorKey')
        self.state = p.adt('descriptor_manager::DescriptorState')
        fs = p.types[self.ty]['v'][0][2]
        self.ix = {}
        for i, (n, t) in enumerate(fs):
            s = p.types[t]['s']
            for what, pat in (('descriptors', 'DescriptorKey, '), ('pools', '<u64, '), ('embedded', 'HashMap<std::string::String, u64'), ('service', 'Option<std::string::String')):
                if pat in s:
                    self.ix[what] = i
        if len(self.ix) != 4:
            raise AnalysisError('tables of the descriptor manager not found: %s' % sorted(self.ix))
        self.variants = [v[0] for v in p.types[self.state]['v']]

    def run(self, name, K=2, **kw):
        p, ctx = self.p, self.ctx
        fi = p.find1('%s::%s' % (MAN, name))
        e = base.make(p, {'prost::message::Message::decode': boundary, 'prost::message::Message::encode': boundary,
                          'core::hash::Hash>::hash': hash_into, 'core::hash::Hash::hash': hash_into})
        for f in p.fns:
            if f['p'].endswith('Hash>::hash') and not f['l']:
                e.prims[f['p']] = hash_into
            if f['p'].endswith('Hasher>::finish'):
                e.prims[f['p']] = base.pure_boundary
        e.K = K + (ctx.tier == 'thorough')
        if ctx.tier == 'thorough':
            e.MAXSTEPS *= 40
            e.MAXPATHS *= 40
        out = e.run(fi)
        ctx.engine_stats(e)
        ctx.cov['functions_analysed'].add(p.fns[fi]['p'])
        return fi, e, [st for st in out if not contradiction(st) and not unequal(st, self)]

    def table(self, what):
        """the term of the table before the operation (self is the first parameter)"""
        return lambda fi: None

    def before(self, e, fi, what):
        s = e.params(fi)[0]
        return T('fld', T('fld', T('deref', s[1]), 0, self.ix[what]), 0, 'mx')

    def after(self, e, st, fi, what):
        ptr = ('r', ('z', e.params(fi)[0][1]), (('f', 0, self.ix[what], None), ('mx',)))
        for ev in st.events():
            if ev.kind == 'lock' and ev.ret is not None and ev.ret[0] == 'r' and any(x[0] == 'f' and x[2] == self.ix[what] for x in ev.ret[2]):
                ptr = ev.ret
                return e.snap(st, e.load(st, ptr[1], ptr[2]))
        return ('s', self.before(e, fi, what))

    # keys are pairs of texts, however the program holds them
    def pair(self, v):
        v = bare(v)
        if v[0] == 'a' and v[1] == self.key:
            return bare(getf(v, 0, 0)), bare(getf(v, 0, 1))
        if v[0] == 's':
            k = TERMS[v[1]]
            if k[0] == 'key' or (TTY.get(v[1]) is not None and self.p.types[TTY[v[1]]].get('p', '').endswith('DescriptorKey')) or k[0] == 'param':
                return bare(('s', T('fld', v[1], 0, 0))), bare(('s', T('fld', v[1], 0, 1)))
        return (v, None)

    def delta(self, e, st, fi, what='descriptors'):
        pair = self.pair if what == 'descriptors' else lambda v: (bare(v), None)
        """([(key, new value)], dropped keys) of the table, entries left as they were excluded"""
        m0 = self.before(e, fi, what)
        F = self.after(e, st, fi, what)
        ch, gone = [], []
        if F[0] == 'm':
            kept = set()
            taken = []
            for s in F[1]:
                if s[0] == 'kv':
                    kept.add(pair(s[1]))
                    v = strip(s[2])
                    if not (v[0] == 's' and TERMS[v[1]][0] == 'mapget' and pair(TERMS[v[1]][2]) == pair(s[1])) and not (v[0] == 's' and TERMS[v[1]][0] == 'val' and pair(('s', T('key', TERMS[v[1]][1], TERMS[v[1]][2]))) == pair(s[1])):
                        ch.append((pair(s[1]), v))
                else:
                    t = s[1]
                    while TERMS[t][0] == 'without':
                        taken.append(pair(TERMS[t][2]))
                        t = TERMS[t][1]
                    if t != m0 or not all(pair(('s', T('key', m0, i))) in kept for i in range(s[2])):
                        gone.append('everything')
            gone += [k for k in taken if not any(same(st, self, k, x) for x in kept)]
            if not any(s[0] == 'rest' for s in F[1]):
                n = 0
                while e.known(st, T('more', m0, n)) == 1 and pair(('s', T('key', m0, n))) in kept:
                    n += 1
                if n < e.klimit(m0) and e.known(st, T('more', m0, n)) != 0:
                    gone.append('everything')
        elif not (F[0] == 's' and F[1] == m0):
            gone.append('everything')
        for cell, v in st.mem.items():
            if cell[0] == 'k' and isinstance(cell[1], tuple) and cell[1][0] == 's' and TERMS[cell[1][1]][0] in ('val', 'mapget'):
                k = TERMS[cell[1][1]]
                if k[1] == m0:
                    x = strip(e.snap(st, v))
                    if x != cell[1]:
                        kk = ('s', T('key', m0, k[2])) if k[0] == 'val' else k[2]
                        ch.append((pair(kk), x))
        return ch, gone

    def variant(self, e, st, v):
        if v[0] == 'a':
            return self.variants[v[2]] if v[2] is not None and v[3] is None else None
        if v[0] == 's':
            d = e.known(st, T('disc', v[1]))
            if d is not None:
                return self.variants[[int(x[1]) for x in self.p.types[self.state]['v']].index(d)]
        return None

    def entries(self, e, st, fi):
        """[(i, key pair, value, variant)] of the entries the path looked at, and whether it looked at all of them"""
        m0 = self.before(e, fi, 'descriptors')
        out, i = [], 0
        while e.known(st, T('more', m0, i)) == 1:
            v = ('s', T('val', m0, i))
            out.append((i, self.pair(('s', T('key', m0, i))), v, self.variant(e, st, v)))
            i += 1
        return out, e.known(st, T('more', m0, i)) == 0 or i >= e.klimit(m0)

    def payload(self, v):
        return strip(getf(v, v[2], 0)) if v[0] == 'a' else None


def hash_into(e, st, c):
    """the hasher after taking something in is a function of both"""
    cell, pl, x = seq_place(e, st, c.args[1])
    e.store(st, cell, pl, sym('call', 'hashed', (strip(e.snap(st, x)), strip(e.snap(st, c.args[0])))))
    c.give(UNIT)


def contradiction(st):
    """keys of a table differ from each other and are in it"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'haskey' and f == ('=', 0):
            x = bare(k[2])
            r = None
            if x[0] == 'a':
                fs = [bare(y) for _i, y in x[4]]
                if fs and all(y[0] == 's' and TERMS[y[1]][0] == 'fld' and TERMS[y[1]][3] == i for i, y in enumerate(fs)) and len({TERMS[y[1]][1] for y in fs}) == 1:
                    x = ('s', TERMS[fs[0][1]][1])
            if x[0] == 's' and TERMS[x[1]][0] == 'fld' and TERMS[x[1]][3] == 0:
                x = ('s', TERMS[x[1]][1])
            if x[0] == 's' and TERMS[x[1]][0] == 'key':
                m = k[1]
                out = set()
                while TERMS[m][0] == 'without':
                    out.add(TERMS[m][2])
                    m = TERMS[m][1]
                if m == TERMS[x[1]][1] and k[2] not in out:
                    return True
    return False


def ret(st):
    r = st.result
    return r[2] if r[0] == 'a' and r[3] is None else None


def fetch(ctx, d):
    fi, e, states = d.run('fetch_missing')
    p = ctx.p
    n = asked = 0
    req_ty = p.adt('GetServiceDescriptorsRequest')
    ref_ty = p.adt('kuadrant::v1::ServiceRef')
    rix = {nm: i for i, (nm, _t) in enumerate(p.types[ref_ty]['v'][0][2])}
    for st in states:
        tr = lambda: trace_text(e, st)
        ents, whole = d.entries(e, st, fi)
        missing = [k for _i, k, _v, var in ents if var == 'Missing']
        disp = [ev for ev in st.events() if matches(ev.path, (DISP,))]
        ch, gone = d.delta(e, st, fi)
        n += 1
        ctx.oblige(not gone, 'fetch: services dropped', 'fetching drops entries: %s\n%s' % (gone, tr()))
        ctx.oblige(len(disp) <= 1, 'fetch: several calls', 'more than one fetch is dispatched\n%s' % tr())
        ok = ret(st) == 0
        if not disp:
            ctx.oblige(not ch, 'fetch: marked without asking', 'entries change although nothing was asked for: %s\n%s' % (show(e, ch), tr()))
            ctx.oblige(not ok or (whole and not missing and all(v is not None for *_x, v in ents)), 'fetch: not asked', 'a service is missing and not asked for, yet no error is reported\n%s' % tr())
            if not ok:
                sv = e.known(st, T('disc', d.before(e, fi, 'service')))
                enc = [ev for ev in st.events() if ev.path.endswith('Message::encode') and e.known(st, T('disc', ev.ret[1])) == 1]
                ctx.oblige(sv == 0 or enc, 'fetch: gives up', 'the fetch is given up although the service to ask is known\n%s' % tr())
            continue
        asked += 1
        ev = disp[0]
        ctx.oblige(whole and all(v is not None for *_x, v in ents), 'fetch: not all entries', 'the fetch goes out without looking at every service\n%s' % tr())
        ctx.oblige(bare(ev.args[1]) == bare(('s', T('fld', d.before(e, fi, 'service'), 1, 0))), 'fetch: service', 'the fetch goes to %s instead of the configured descriptor service\n%s' % (e.show(ev.args[1]), tr()))
        ctx.oblige([bare(a) for a in ev.args[2:4]] == [C('kuadrant.v1.DescriptorService'), C('GetServiceDescriptors')], 'fetch: method', 'the fetch calls %s' % [e.show(a) for a in ev.args[2:4]])
        b = bare(ev.args[5])
        enc = [x for x in st.events() if x.path.endswith('Message::encode')]
        src = [x for x in enc if b[0] == 's' and TERMS[b[1]][0] == 'mut' and TERMS[b[1]][1].endswith('Message::encode')]
        req = e.snap(st, src[0].args[0]) if len(src) == 1 else TERMS[b[1]][2][0] if b[0] == 's' and TERMS[b[1]][0] == 'call' and TERMS[b[1]][1].endswith('Message::encode_to_vec') else None
        ctx.oblige(req is not None, 'fetch: message', 'the bytes sent are not the encoded request: %s\n%s' % (e.show(ev.args[5]), tr()))
        if req is not None:
            r = strip(req)
            refs = strip(getf(r, 0, 0)) if r[0] == 'a' and r[1] == req_ty else ('?',)
            got = [(bare(getf(s[1], 0, rix['cluster_name'])), bare(getf(s[1], 0, rix['service']))) for s in refs[1] if s[0] == 'e'] if refs[0] == 'v' else None
            ctx.oblige(got is not None and sorted(map(repr, got)) == sorted(map(repr, missing)), 'fetch: services asked for', 'the fetch asks for %s instead of exactly the missing services %s\n%s' % (
                [tuple(e.show(y) for y in x) for x in got or ()], [tuple(e.show(y) for y in x) for x in missing], tr()))
        t = e.known(st, T('disc', ev.ret[1]))
        if t == 0:
            tok = bare(('s', T('fld', ev.ret[1], 0, 0)))
            want = sorted(repr(k) for k in missing)
            good = all(v[0] == 'a' and d.variant(e, st, v) == 'Pending' and d.payload(v) == tok for _k, v in ch)
            ctx.oblige(ok and good and sorted(repr(k) for k, _v in ch) == want, 'fetch: marked', 'after the fetch went out, the entries changed are %s instead of exactly those asked for, waiting for its token\n%s' % (show(e, ch), tr()))
        else:
            ctx.oblige(not ok and not ch, 'fetch: failed dispatch', 'the dispatch failed, yet %s changes or no error is reported\n%s' % (show(e, ch), tr()))
    ctx.floor('fetching paths', n, 20)
    ctx.floor('fetches dispatched', asked, 6)


def show(e, ch):
    return [('/'.join(e.show(x) for x in k if x is not None), e.show(v)) for k, v in ch]


def reset(ctx, d):
    fi, e, states = d.run('reset_pending')
    tok = e.params(fi)[1]
    n = r = 0
    for st in states:
        tr = lambda: trace_text(e, st)
        n += 1
        ents, whole = d.entries(e, st, fi)
        ch, gone = d.delta(e, st, fi)
        want = []
        for i, k, v, var in ents:
            ctx.oblige(var is not None, 'reset: not looked at', 'an entry is passed over\n%s' % tr())
            if var == 'Pending':
                q = e.truth(st, e.mk_eq(st, tok, ('s', T('fld', v[1], d.variants.index('Pending'), 0))))
                ctx.oblige(q is not None, 'reset: token', 'a waiting entry is dealt with without comparing its token\n%s' % tr())
                if q == 1:
                    want.append(k)
        r += bool(want)
        ctx.oblige(whole and not gone, 'reset: entries', 'resetting drops entries or stops early\n%s' % tr())
        ctx.oblige(sorted(repr(k) for k, _v in ch) == sorted(map(repr, want)) and all(d.variant(e, st, v) == 'Missing' for _k, v in ch), 'reset: changes',
                   'resetting a token changes %s instead of making exactly the entries waiting for it missing again\n%s' % (show(e, ch), tr()))
    ctx.floor('resetting paths', n, 10)
    ctx.floor('resets', r, 3)


def expected(ctx, d):
    fi, e, states = d.run('add_expected')
    key = e.params(fi)[1]
    k = (bare(('s', T('fld', key[1], 0, 0))), bare(('s', T('fld', key[1], 0, 1))))
    n = 0
    for st in states:
        tr = lambda: trace_text(e, st)
        n += 1
        ch, gone = d.delta(e, st, fi)
        m0 = d.before(e, fi, 'descriptors')
        had = e.known(st, T('haskey', m0, key))
        ctx.oblige(not gone, 'expect: dropped', 'expecting a service drops others: %s\n%s' % (gone, tr()))
        if had == 1:
            ctx.oblige(not ch, 'expect: known service', 'the state of a service that is already known is changed to %s\n%s' % (show(e, ch), tr()))
            continue
        emb = d.before(e, fi, 'embedded')
        h = e.known(st, T('haskey', emb, k[1]))
        ctx.oblige(had == 0 and len(ch) == 1 and ch[0][0] == k, 'expect: entry', 'expecting a service records %s\n%s' % (show(e, ch), tr()))
        if len(ch) == 1:
            v = d.variant(e, st, ch[0][1])
            ctx.oblige(v == ('Embedded' if h == 1 else 'Missing') and h is not None, 'expect: state', 'a service whose descriptor is %s starts as %s\n%s' % ('built in' if h == 1 else 'not built in', v, tr()))
            if v == 'Embedded':
                ctx.oblige(d.payload(ch[0][1]) == ('s', T('mapget', emb, k[1])), 'expect: descriptor', 'a built in service gets the descriptor %s\n%s' % (e.show(ch[0][1]), tr()))
    ctx.floor('expecting paths', n, 3)
    fi, e, states = d.run('has_expected')
    n = 0
    for st in states:
        ents, whole = d.entries(e, st, fi)
        n += 1
        r = e.truth(st, st.result)
        if r == 0:
            ctx.oblige(whole and all(v in ('Embedded', 'Resolved') for *_x, v in ents), 'polling stops', 'nothing is expected any more although %s\n%s' % ([v for *_x, v in ents], trace_text(e, st)))
        else:
            ctx.oblige(r == 1 and any(v != 'Embedded' for *_x, v in ents), 'polling', 'something is expected although every service is built in\n%s' % trace_text(e, st))
    ctx.floor('polling paths', n, 4)


def lookup(ctx, d):
    fi, e, states = d.run('get_pool')
    a = e.params(fi)
    k = (bare(a[1]), bare(a[2]))
    n = ok = 0
    for st in states:
        tr = lambda: trace_text(e, st)
        n += 1
        m0, p0 = d.before(e, fi, 'descriptors'), d.before(e, fi, 'pools')
        keys = [TERMS[t][2] for t in st.facts if TERMS[t][0] == 'haskey' and TERMS[t][1] == m0]
        mine = [x for x in keys if d.pair(x) == k]
        ctx.oblige(len(mine) == len(keys) == 1, 'lookup: key', 'the descriptor of a service is looked up under %s\n%s' % ([e.show(x) for x in keys], tr()))
        if not mine:
            continue
        s = T('mapget', m0, mine[0])
        has = e.known(st, T('haskey', m0, mine[0]))
        var = d.variant(e, st, ('s', s)) if has == 1 else None
        got = bare(getf(st.result, 0, 0)) if ret(st) == 0 else None
        if ret(st) == 0:
            ok += 1
            h = ('s', T('fld', s, d.variants.index(var), 0)) if var else None
            ctx.oblige(var in ('Embedded', 'Resolved') and got == bare(('s', T('mapget', p0, h))), 'lookup: descriptor', 'a service in state %s gets the descriptor %s\n%s' % (var, e.show(got), tr()))
        else:
            h = ('s', T('fld', s, d.variants.index(var), 0)) if var in ('Embedded', 'Resolved') else None
            ctx.oblige(has == 0 or var in ('Missing', 'Pending') or h is not None and e.known(st, T('haskey', p0, h)) == 0, 'lookup: refused', 'the descriptor of a service in state %s is refused\n%s' % (var, tr()))
        ch, gone = d.delta(e, st, fi)
        ctx.oblige(not ch and not gone, 'lookup: changes', 'looking up a descriptor changes the table\n%s' % tr())
    ctx.floor('lookups', ok, 2)


def reply(ctx, d):
    fi, e, states = d.run('handle_response')
    p = ctx.p
    tok, raw = e.params(fi)[1:3]
    sd = p.adt('kuadrant::v1::ServiceDescriptor')
    six = {nm: i for i, (nm, _t) in enumerate(p.types[sd]['v'][0][2])}
    n = stored = bad = refused = 0
    for st in states:
        tr = lambda: trace_text(e, st)
        n += 1
        evs = st.events()
        ents, whole = d.entries(e, st, fi)
        mine = None
        for i, k, v, var in ents:
            if var == 'Pending':
                q = e.truth(st, e.mk_eq(st, tok, ('s', T('fld', v[1], d.variants.index('Pending'), 0))))
                mine = mine or q == 1
        ch, gone = d.delta(e, st, fi)
        pc, pgone = d.delta(e, st, fi, 'pools')
        ctx.oblige(not gone and not pgone, 'reply: dropped', 'a reply drops entries\n%s' % tr())
        ok = ret(st) == 0
        if not mine:
            refused += 1
            ctx.oblige(not ch and not pc and not ok, 'reply: unknown token', 'a reply nobody waits for is applied: %s\n%s' % (show(e, ch), tr()))
            continue
        decs = [ev for ev in evs if ev.path.endswith('Message::decode')]
        top = [ev for ev in decs if bare(ev.args[0]) == bare(raw)]
        if not ctx.oblige(len(top) == 1, 'reply: decoding', 'the reply is not decoded once\n%s' % tr()):
            continue
        if e.known(st, T('disc', top[0].ret[1])) != 0:
            ctx.oblige(not ch and not pc and not ok, 'reply: malformed', 'a reply that does not decode changes %s or is no error\n%s' % (show(e, ch), tr()))
            continue
        seq = None
        for t, f in st.facts.items():
            k = TERMS[t]
            if k[0] == 'more' and TERMS[k[1]][0] == 'fld' and TERMS[TERMS[k[1]][1]][0] == 'fld' and TERMS[TERMS[k[1]][1]][1] == top[0].ret[1]:
                seq = k[1]
        if not ctx.oblige(seq is not None, 'reply: entries', 'the descriptors of a reply are not looked at\n%s' % tr()):
            continue
        i = 0
        items = []
        while e.known(st, T('more', seq, i)) == 1:
            x = T('elem', seq, i)
            items.append({nm: bare(('s', T('fld', x, 0, j))) for nm, j in six.items()})
            i += 1
        ctx.oblige(e.known(st, T('more', seq, i)) == 0 or i >= e.klimit(seq), 'reply: stops early', 'the rest of a reply is not looked at\n%s' % tr())
        valid = []
        for i, it in enumerate(items):
            dec = [ev for ev in decs if bare(ev.args[0]) == it['file_descriptor_set']]
            good = None
            pool = None
            if len(dec) == 1:
                good = e.known(st, T('disc', dec[0].ret[1])) == 0
                if good:
                    fds = bare(('s', T('fld', dec[0].ret[1], 0, 0)))
                    pe = [ev for ev in evs if ev.path.endswith('DescriptorPool::from_file_descriptor_set') and bare(ev.args[0]) == fds]
                    good = len(pe) == 1 and e.known(st, T('disc', pe[0].ret[1])) == 0
                    if len(pe) != 1:
                        good = None
                    if good:
                        pool = bare(('s', T('fld', pe[0].ret[1], 0, 0)))
                        ge = [ev for ev in evs if ev.path.endswith('DescriptorPool::get_service_by_name') and bare(ev.args[0]) == pool and bare(ev.args[1]) == it['service']]
                        good = (e.known(st, T('disc', ge[0].ret[1])) == 1) if ge else None
            ctx.oblige(good is not None, 'reply: checking', 'descriptor %d of a reply is not decoded, built and checked for its service\n%s' % (i, tr()))
            if good:
                valid.append(((it['cluster_name'], it['service']), pool, it['file_descriptor_set'], i))
        bad += len(valid) < len(items)
        m0 = d.before(e, fi, 'descriptors')
        used = set()
        for k, pool, raw_i, i in valid:
            here = [v for kk, v in ch if same(st, d, kk, k)]
            if not here:
                # left alone: only what is built in
                emb = [TERMS[t][1:3] for t in st.facts if TERMS[t][0] == 'haskey' and same(st, d, d.pair(TERMS[t][2]), k)]
                v = [d.variant(e, st, ('s', T('mapget', m, x))) for m, x in emb if root(m) == m0]
                ctx.oblige('Embedded' in v, 'reply: descriptor lost', 'the valid descriptor %d of a reply is not recorded for its service\n%s' % (i, tr()))
                continue
            v = here[-1]
            src = [x for x in valid if same(st, d, x[0], k) and d.payload(v) is not None and mentions(d.payload(v), x[2])]
            stored += 1
            ctx.oblige(d.variant(e, st, v) == 'Resolved' and src, 'reply: recorded', 'descriptor %d of a reply is recorded as %s\n%s' % (i, e.show(v), tr()))
            for x in src:
                h = d.payload(v)
                F = d.after(e, st, fi, 'pools')
                at = [s[2] for s in F[1] if s[0] == 'kv' and (strip(s[1]) == h or e.truth(st, e.mk_eq(st, strip(s[1]), h)) == 1)] if F[0] == 'm' else []
                okp = [y for y in at if bare(y) == x[1] or bare(y)[0] == 's' and TERMS[bare(y)[1]][0] == 'mapget']
                # two equal descriptors share one pool
                twin = [z for z in valid if any(bare(y) == z[1] for y in at) and hash_eq(st, z, x)]
                ctx.oblige(okp or twin, 'reply: pool', 'the pool of descriptor %d is not the one kept under its hash: %s\n%s' % (i, [e.show(y) for y in at], tr()))
        for kk, v in ch:
            ctx.oblige(any(same(st, d, kk, k) for k, *_x in valid), 'reply: other service', 'a reply changes the entry of a service it holds no valid descriptor for: %s\n%s' % (show(e, [(kk, v)]), tr()))
        ctx.oblige(ok == (len(valid) == len(items)), 'reply: result', 'a reply with %d descriptors, %d of them valid, is reported as %s\n%s' % (len(items), len(valid), 'good' if ok else 'bad', tr()))
    ctx.floor('reply paths', n, 200)
    ctx.floor('descriptors recorded', stored, 50)
    ctx.floor('replies with a bad descriptor', bad, 50)
    ctx.floor('replies refused', refused, 5)


def root(m):
    while TERMS[m][0] == 'without':
        m = TERMS[m][1]
    return m


def hash_eq(st, a, b):
    return any(TERMS[t][0] == 'eq' and f == ('=', 1) and any(mentions(x, a[2]) for x in TERMS[t][1:3]) and any(mentions(x, b[2]) for x in TERMS[t][1:3]) for t, f in st.facts.items()) or a is b


def same(st, d, a, b):
    """the path knows the two keys are equal (equality is transitive)"""
    if a == b:
        return True
    eqs = [(d.pair(TERMS[t][1]), d.pair(TERMS[t][2])) for t, f in st.facts.items() if TERMS[t][0] == 'eq' and f == ('=', 1)]
    cl = {a}
    while True:
        new = {y for x, y in eqs if x in cl} | {x for x, y in eqs if y in cl}
        if new <= cl:
            return b in cl
        cl |= new


def unequal(st, d):
    """keys the path holds both equal and different: no such run"""
    return any(TERMS[t][0] == 'eq' and f == ('=', 0) and same(st, d, d.pair(TERMS[t][1]), d.pair(TERMS[t][2])) for t, f in st.facts.items())


def mentions(v, x, n=0):
    if v == x:
        return True
    if n > 14 or not isinstance(v, tuple) or not v:
        return False
    if v[0] == 's' and isinstance(v[1], int):
        return any(mentions(('s', y) if isinstance(y, int) and TERMS[v[1]][0] in ('fld', 'deref', 'mut', 'elem') and j == 0 else y, x, n + 1) for j, y in enumerate(TERMS[v[1]][1:]) if isinstance(y, (tuple, int)))
    return any(mentions(y, x, n + 1) for y in v if isinstance(y, tuple))


def builtin(ctx, d):
    """a built in service is recorded under the hash of the bytes its pool was made from, with that pool"""
    fi, e, states = d.run('register_embedded')
    a = e.params(fi)
    n = 0
    for st in states:
        n += 1
        tr = lambda: trace_text(e, st)
        emb, gone = d.delta(e, st, fi, 'embedded')
        pc, pgone = d.delta(e, st, fi, 'pools')
        ctx.oblige(not gone and not pgone and len(emb) == 1 and bare(emb[0][0][0]) == bare(a[1]) and mentions(emb[0][1], bare(a[2])), 'built in: entry', 'a built in service is recorded as %s\n%s' % (show(e, emb), tr()))
        F = d.after(e, st, fi, 'pools')
        if emb and F[0] == 'm':
            at = [bare(s[2]) for s in F[1] if s[0] == 'kv' and strip(s[1]) == strip(emb[0][1])]
            ctx.oblige(len(at) == 1 and (at[0] == bare(a[3]) or at[0][0] == 's' and TERMS[at[0][1]][0] == 'mapget'), 'built in: pool', 'the pool of a built in service is %s\n%s' % ([e.show(x) for x in at], tr()))
        else:
            ctx.oblige(False, 'built in: pool', 'the pool of a built in service is not kept\n%s' % tr())
    ctx.floor('built in registrations', n, 2)


def configured(ctx, d):
    """after a configuration the service to ask is the configured one"""
    fi, e, states = d.run('set_descriptor_service')
    want = bare(e.params(fi)[1])
    n = 0
    for st in states:
        n += 1
        old = d.before(e, fi, 'service')
        now = strip(d.after(e, st, fi, 'service'))
        if now == ('s', old):
            x = ('s', T('fld', old, 1, 0))
            good = e.known(st, T('disc', old)) == 1 and any(TERMS[t][0] == 'eq' and f == ('=', 1) and {repr(bare(TERMS[t][1])), repr(bare(TERMS[t][2]))} == {repr(x), repr(want)} for t, f in st.facts.items())
        else:
            good = now[0] == 'a' and now[2] == 1 and bare(getf(now, 1, 0)) == want
        ctx.oblige(good, 'configured service', 'after a configuration the descriptor service is %s\n%s' % (e.show(now), trace_text(e, st)))
    ctx.floor('configuration paths', n, 2)


def check(ctx):
    ctx.rule('fetch_missing asks the configured descriptor service once for exactly the services in state Missing and marks exactly those Pending with the token of the call; nothing changes when nothing is dispatched')
    ctx.rule('handle_response changes nothing unless some service waits for that token and the reply decodes; every returned descriptor is looked at, exactly the valid ones are recorded under the cluster and service they name, with the pool built from them')
    ctx.rule('reset_pending makes exactly the services waiting for that token missing again')
    ctx.rule('add_expected never changes a known service; a new one starts Embedded when built in, Missing otherwise; has_expected is false only when every service has a descriptor; get_pool answers from the entry of that cluster and service')
    ctx.assume('the standard hasher gives different hashes for different descriptor bytes (64 bit)')
    d = Dm(ctx)
    configured(ctx, d)
    expected(ctx, d)
    fetch(ctx, d)
    reset(ctx, d)
    lookup(ctx, d)
    reply(ctx, d)
    builtin(ctx, d)
