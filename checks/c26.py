"""C26: every attribute and body field an expression uses is prefetched for it."""
from engine.acts import *
from engine import blue
from engine.base import boundary, pure_boundary
from engine.models import strip
from engine.core import *

EXPLANATION = '''The walk over the syntax tree is decided by induction: the recursive call is replaced by its contract (it may be entered with any pending selection, handles the whole subtree, and leaves no pending selection behind), and every abstract path of one level is held against the types of the syntax tree: each subexpression the path has not excluded is walked exactly once, with exactly its own pending selection.
What was collected is then followed into the compiled expression, from there into evaluation (fetched or waited for before the expression is resolved), and the body fields of an action into the task that parses bodies, by induction over its follow-ups.'''
IDED = 'cel::common::ast::IdedExpr'
EXPRESSION = 'data::cel::Expression'
ENSURE, RESOLVE, GETV, DATAMAP, ROOT = 'context::ReqRespCtx::ensure_attributes', 'objects::Value::resolve', 'context::BodyContext::get_value', 'cel::Expression::build_data_map', 'cel::is_host_property_root'
BIND_VAR, BIND_FN = 'Context::add_variable_from_value', 'Context::add_function'
ROOTS = ('request', 'response', 'source', 'destination', 'connection', 'ratelimit', 'filter_state', 'metadata')
BODYFN = {'requestBodyJSON': 'request', 'responseBodyJSON': 'response'}


def check(ctx):
    ctx.rule('one level of the walk over an expression: each subexpression is walked exactly once, a selection is walked with its field in front of the pending ones, everything else with none pending, an identifier records itself in front of the pending fields, nothing is pending at the end')
    ctx.rule('a body field named by a literal is recorded as needed, on its own side (request or response)')
    ctx.rule('everything the walk records is part of the compiled expression: an attribute of exactly that path (or the gRPC mark), the body fields on their own side')
    ctx.rule('before an expression is resolved, the attributes under a host root were fetched, the data map was built, every root of it is bound to a variable, and every body field was found in its own body; a missing one means waiting')
    ctx.rule('one level of the data gathered: every attribute has an entry (its stored value, its host value, or its nested attributes); only a name that is no host root may be left out; a value about to be stored is waited for')
    ctx.rule('predicates evaluated together have the attributes of all of them fetched first')
    ctx.rule('the body fields of a service action (predicate, message, request data, follow-ups at any depth) are announced to a parsing task that runs before it; those of a store action to its own parser')
    w = walk(ctx)
    compiled(ctx, w)
    roots(ctx)
    evaluated(ctx, w)
    gathered(ctx, w)
    together(ctx, w)
    announced(ctx, w)
    tasks(ctx, w)
    store(ctx, w)
    ctx.assume('the parser makes no struct literal with map entries; two different names make different map keys; a selection from the bare root by index or by optional selection is dynamic and not claimed')


# -- the syntax tree -------------------------------------------------------------------------------
# the subexpressions of each kind of expression: (field, how it is held)
SHAPE = {
    'Call': ('CallExpr', [('target', 'opt'), ('args', 'vec')]),
    'Comprehension': ('ComprehensionExpr', [(n, 'one') for n in ('iter_range', 'accu_init', 'loop_cond', 'loop_step', 'result')]),
    'List': ('ListExpr', [('elements', 'vec')]),
    'Map': ('MapExpr', [('entries', 'entries')]),
    'Struct': ('StructExpr', [('entries', 'entries')]),
    'Select': ('SelectExpr', [('operand', 'one')]),
    'Ident': (None, []), 'Literal': (None, []), 'Unspecified': (None, []),
}


class Tree:
    """the syntax tree types, and one abstract path's knowledge of a tree"""

    def __init__(self, p):
        self.p = p
        self.expr = self.ty('ast::Expr')
        if {v[0] for v in p.types[self.expr]['v']} != set(SHAPE):
            raise AnalysisError('kinds of expression: ' + ', '.join(sorted(v[0] for v in p.types[self.expr]['v'])))

    def ty(self, suffix):
        c = [i for i, t in enumerate(self.p.types) if t['k'] == 'adt' and t['p'].startswith('cel::') and t['p'].endswith(suffix)]
        if not c:
            raise AnalysisError('type not found: ' + suffix)
        return c[0]

    def ix(self, ty, field, variant=0):
        for i, (n, t) in enumerate(self.p.types[ty]['v'][variant][2]):
            if n == field:
                return i
        raise AnalysisError('%s has no field %s' % (self.p.types[ty]['p'], field))

    def at(self, path, st_name, field):
        return path + (('f', 0, self.ix(self.ty('ast::' + st_name), field)),)

    def children(self, know, root):
        """(variant, [paths of the subexpressions], [what had to be looked at and was not])"""
        e = root + (('f', 0, self.ix(self.ty('common::ast::IdedExpr'), 'expr')),)
        v = know.disc(e)
        if v is None:
            return None, [], [e]
        name = self.p.types[self.expr]['v'][v][0]
        stn, fields = SHAPE[name]
        out, miss = [], []
        pay = e + (('f', v, 0),)
        for f, how in fields:
            q = self.at(pay, stn, f)
            if how == 'one':
                out.append(q)
            elif how == 'opt':
                d = know.disc(q)
                if d is None:
                    miss.append(q)
                elif d == 1:
                    out.append(q + (('f', 1, 0),))
            else:
                n = know.count(q)
                if n is None:
                    miss.append(q)
                for i in range(n or 0):
                    el = q + (('e', i),)
                    if how == 'vec':
                        out.append(el)
                        continue
                    x = self.at(el, 'IdedEntryExpr', 'expr')
                    ety = self.ty('ast::EntryExpr')
                    d = know.disc(x)
                    if d is None:
                        miss.append(x)
                        continue
                    kind = self.p.types[ety]['v'][d][0]
                    y = x + (('f', d, 0),)
                    if kind == 'StructField':
                        out.append(self.at(y, 'StructFieldExpr', 'value'))
                    elif name != 'Struct':
                        out.append(self.at(y, 'MapEntryExpr', 'key'))
                        out.append(self.at(y, 'MapEntryExpr', 'value'))
        return name, out, miss


def canon(v, root):
    """the place of a value below the root value: fields and elements only"""
    v = strip(v)
    if v[0] != 's':
        return None
    t, r = v[1], []
    n = 0
    while n < 40:
        n += 1
        if t == root:
            return tuple(reversed(r))
        k = TERMS[t]
        if k[0] == 'deref':
            t = k[1]
        elif k[0] == 'fld':
            r.append(('f', k[2], k[3]))
            t = k[1]
        elif k[0] == 'elem':
            r.append(('e', k[2]))
            t = k[1]
        elif k[0] == 'call' and k[2] and k[1].endswith(('::deref', '::as_str', '::as_ref', '::inner', '::clone', '::to_string', '::as_deref', '::borrow')):
            x = strip(k[2][0])
            if x[0] != 's':
                return None
            t = x[1]
        else:
            return None
    return None


class Know:
    def __init__(self, e, st, root, K):
        self.K = K
        self.d, self.m, self.l = {}, {}, {}
        for s in {TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more'}:
            c = canon(('s', s), root)
            for i in range(K + 1):
                v = e.known(st, T('more', s, i)) if c is not None else None
                if v is not None:
                    self.m[c, i] = v
        for t, f in st.facts.items():
            k = TERMS[t]
            if k[0] == 'disc' and f[0] == '=':
                c = canon(('s', k[1]), root)
                if c is not None:
                    self.d[c] = f[1]
            elif k[0] == 'more' and f[0] == '=':
                c = canon(('s', k[1]), root)
                if c is not None:
                    self.m[c, k[2]] = f[1]
            elif k[0] == 'len' and f[0] == '=':
                x = k[1] if isinstance(k[1], tuple) else ('s', k[1])
                c = canon(x, root)
                if c is not None:
                    self.l[c] = f[1]

    def disc(self, c):
        return self.d.get(c)

    def count(self, c):
        if c in self.l:
            return self.l[c]
        for i in range(12):
            f = self.m.get((c, i))
            if f is None:
                return i if i >= self.K else None
            if f == 0:
                return i
        return None


class Walk:
    """the function that walks an expression, and what its arguments are for"""

    def __init__(self, ctx):
        p = self.p = ctx.p
        ne = p.find1('cel::Expression::new_expression')
        inside = ctx.g.reach(ne)
        self.fi = None
        for i in sorted(inside):
            f = p.fns[i]
            if f['b'] is None or f['cr'] != 'kuadrant_filter' or not f['b']['n']:
                continue
            tys = [f['b']['ls'][1 + j][0] for j in range(f['b']['n'])]
            if self.is_ided(tys[0]) and any(i in ctx.g.reach(c) for c in ctx.g.edges.get(i, ())):
                self.fi = i
                self.tys = tys
                break
        if self.fi is None:
            raise AnalysisError('the walk over an expression was not found')
        self.ne = ne
        self.path = self.all = None
        self.strs = []
        for j, ty in enumerate(self.tys[1:], 1):
            s = self.p.types[ty]['s']
            if 'String' in s and 'Vec' in s:
                self.strs.append(j)
            elif s.count('Vec') == 2:
                self.all = j
            elif 'str' in s:
                self.path = j
        if self.all is None or self.path is None or len(self.strs) != 2:
            raise AnalysisError('arguments of the walk over an expression: ' + ', '.join(self.p.types[t]['s'] for t in self.tys))
        self.mutpath = bool(self.p.types[self.tys[self.path]].get('m'))
        self.side = {}

    def is_ided(self, ty):
        x = self.p.types[ty]
        return x['k'] == 'ref' and self.p.types[x['t']]['k'] == 'adt' and self.p.types[x['t']]['p'] == IDED

    def prim(self, fill=None):
        def rec(e, st, c):
            e.event(st, 'call', c.path, c.name, c.fi, tuple(e.snap(st, a) for a in c.args), tuple(c.args), None, c.fr)
            if fill:
                for j, v in fill.items():
                    e.store(st, *e.deref_loc(st, c.args[j]), v)
            if self.mutpath:
                e.store(st, *e.deref_loc(st, c.args[self.path]), ('v', ()))
            c.give(UNIT)
        return {self.p.fns[self.fi]['p']: rec}


def run_all(ctx, e, fi):
    r = e.run(fi)
    ctx.engine_stats(e)
    return r


def walk(ctx):
    p = ctx.p
    W = Walk(ctx)
    T = Tree(p)
    e = base.make(p, W.prim())
    e.K = 3 if ctx.tier == 'thorough' else 2
    # arrays written out in the code are walked to their end
    e.LOOP = max(e.K + 2, 8)
    ps = e.params(W.fi)
    root = strip(ps[0])[1]
    n = {}
    where = p.where(W.fi)
    for st in run_all(ctx, e, W.fi):
        know = Know(e, st, root, e.K)
        name, kids, miss = T.children(know, ())
        n[name] = n.get(name, 0) + 1
        tr = lambda: trace_text(e, st)
        ctx.oblige(not miss, 'subexpressions of %s not looked at' % name, '%s: a path over a %s expression ends without having looked at all its parts\n%s' % (where, name, tr()))
        calls = [ev for ev in st.events() if ev.kind == 'call' and ev.fi == W.fi]
        got = [canon(ev.args[0], root) for ev in calls]
        for q in kids:
            ctx.oblige(got.count(q) == 1, 'a subexpression of %s is not walked once' % name, '%s: part %s of a %s expression is walked %d times: what it needs is not collected\n%s' % (where, q, name, got.count(q), tr()))
        for q in got:
            ctx.oblige(q in kids, 'walk of something else', '%s: %s is walked as a part of a %s expression\n%s' % (where, q, name, tr()))
        pre = ps[W.path]
        sel = T.at((('f', 0, 1), ('f', [i for i, v in enumerate(p.types[T.expr]['v']) if v[0] == 'Select'][0], 0)), 'SelectExpr', 'field')
        for ev in calls:
            segs = seq(e, st, ev.args[W.path])
            if name == 'Select':
                ok_ = segs is not None and len(segs) >= 1 and segs[0][0] == 'e' and canon(segs[0][1], root) == sel and pending(st, segs[1:], pre, 0)
                ctx.oblige(ok_, 'selected field not in front', '%s: the operand of a selection is walked with %s pending instead of its field and the fields pending before\n%s' % (where, e.show(ev.args[W.path], 6), tr()))
            else:
                ctx.oblige(segs == (), 'pending selection of another expression', '%s: a part of a %s expression is walked with a selection pending that does not apply to it (%s): the attribute path recorded for it is wrong\n%s' % (where, name, e.show(ev.args[W.path], 6), tr()))
        if W.mutpath:
            end = seq(e, st, ('&', e.snap(st, e.deref(st, pre))))
            ctx.oblige(end == () or empty_fact(st, pre), 'selection left pending', '%s: a %s expression leaves a selection pending for whatever is walked next (%s)\n%s' % (where, name, e.show(e.snap(st, e.deref(st, pre)), 5), tr()))
        # what this level records itself
        new = {j: added(e, st, ps[j]) for j in [W.all] + W.strs}
        for j, x in new.items():
            ctx.oblige(x is not None, 'collected items lost', '%s: what was collected before is not kept (argument %d)\n%s' % (where, j, tr()))
        rec = new[W.all] or []
        if name == 'Ident':
            empty = empty_fact(st, pre)
            v = [i for i, v in enumerate(p.types[T.expr]['v']) if v[0] == 'Ident'][0]
            if empty:
                n['bare'] = n.get('bare', 0) + 1
            else:
                n['recorded'] = n.get('recorded', 0) + 1
                ok_ = False
                if len(rec) == 1:
                    segs = seq(e, st, rec[0])
                    ok_ = segs is not None and len(segs) >= 1 and segs[0][0] == 'e' and canon(segs[0][1], root) == (('f', 0, 1), ('f', v, 0)) and pending(st, segs[1:], pre, 0)
                ctx.oblige(ok_, 'attribute path not recorded', '%s: an identifier with a selection pending records %s instead of its name and the selected fields\n%s' % (where, [e.show(x, 6) for x in rec], tr()))
        else:
            ctx.oblige(not rec, 'attribute path recorded for %s' % name, '%s: a %s expression records a path itself: %s\n%s' % (where, name, [e.show(x, 6) for x in rec], tr()))
        # body fields
        body = None
        if name == 'Call':
            v = know.disc((('f', 0, 1),))
            pay = (('f', 0, 1), ('f', v, 0))
            fn = text_of(st, T.at(pay, 'CallExpr', 'func_name'), root)
            args = T.at(pay, 'CallExpr', 'args')
            lit = [i for i, x in enumerate(p.types[T.expr]['v']) if x[0] == 'Literal'][0]
            a0 = args + (('e', 0), ('f', 0, 1))
            if fn in BODYFN and know.disc(T.at(pay, 'CallExpr', 'target')) == 0 and know.count(args) == 1 and know.disc(a0) == lit and know.disc(a0 + (('f', lit, 0),)) == 5:
                body = fn
            elif fn is None and know.count(args) == 1 and know.disc(T.at(pay, 'CallExpr', 'target')) == 0 and (
                    know.disc(a0) is None or know.disc(a0) == lit and know.disc(a0 + (('f', lit, 0),)) in (None, 5)):
                fs = neq_of(st, T.at(pay, 'CallExpr', 'func_name'), root)
                ctx.oblige(set(BODYFN) <= fs, 'body function not recognised', '%s: a call with one argument is walked without telling whether it reads a body field\n%s' % (where, tr()))
        for j in W.strs:
            x = new[j] or []
            if x:
                s = W.side.setdefault(j, body)
                want = a0 + (('f', lit, 0), ('f', 5, 0)) if body else None
                ctx.oblige(body is not None and s == body and len(x) == 1 and canon(x[0], root) == want, 'body field recorded wrongly', '%s: %s is recorded as a body field\n%s' % (where, [e.show(y, 5) for y in x], tr()))
        if body:
            n[body] = n.get(body, 0) + 1
            ctx.oblige(sum(len(new[j] or []) for j in W.strs) == 1, 'body field not recorded', '%s: the field named in a call of %s is not recorded as needed\n%s' % (where, body, tr()))
    for k in list(SHAPE) + ['recorded', 'bare'] + list(BODYFN):
        ctx.floor('walked: ' + k, n.get(k, 0), 1)
    ctx.oblige(sorted(x or '' for x in W.side.values()) == sorted(BODYFN), 'body sides mixed up', '%s: the fields of the request and of the response body are not collected separately (%s)' % (where, W.side))
    ctx.cov['functions_analysed'].add(p.fns[W.fi]['p'])
    return W


def seq(e, st, v):
    """segments of a sequence given by reference; () when known empty"""
    x = strip(v)
    n = 0
    while x[0] == 'r' and n < 6:
        x = e.load(st, x[1], x[2])
        n += 1
    x = strip(x)
    if x[0] == 'v':
        segs = tuple(s for s in x[1] if not (s[0] == 'rest' and st.facts.get(TIX.get(('more', s[1], s[2]), -1)) == ('=', 0)))
        return segs
    if x[0] == 's':
        if any(st.facts.get(TIX.get((q, x[1], 0) if q == 'more' else (q, x[1]), -1)) == ('=', 0) for q in ('more', 'len')):
            return ()
        return (('rest', x[1], 0),)
    return None


def pending(st, segs, pre, i):
    """do the segments run over all elements of the sequence behind `pre` from i on?"""
    t = strip(pre)[1]
    for s in segs:
        if s[0] == 'e':
            x = strip(s[1])
            if x[0] != 's' or TERMS[x[1]][0] != 'elem' or not same_seq(TERMS[x[1]][1], t) or TERMS[x[1]][2] != i:
                return False
            i += 1
        elif s[0] == 'rest' and same_seq(s[1], t) and s[2] == i:
            return True
        else:
            return False
    for q, f in st.facts.items():
        k = TERMS[q]
        if k[0] == 'more' and same_seq(k[1], t) and k[2] == i and f == ('=', 0):
            return True
    return False


def same_seq(a, t):
    while TERMS[a][0] == 'deref':
        a = TERMS[a][1]
    while TERMS[t][0] == 'deref':
        t = TERMS[t][1]
    return a == t


def empty_fact(st, pre):
    return pending(st, (), pre, 0)


def added(e, st, par):
    """what is appended to the sequence behind a parameter; None when it is not only appended to"""
    x = e.snap(st, e.deref(st, par))
    segs = seq(e, st, ('&', x))
    if segs is None or not segs:
        return None if segs is None else []
    if segs[0][0] == 'rest' and same_seq(segs[0][1], strip(par)[1]) and segs[0][2] == 0:
        segs = segs[1:]
    elif not empty_fact(st, par):
        return None
    return [s[1] for s in segs] if all(s[0] == 'e' for s in segs) else None


def text_of(st, place, root):
    for t, f in st.facts.items():
        if f[0] == '=' and isinstance(f[1], str) and canon(('s', t), root) == place:
            return f[1]
    return None


def neq_of(st, place, root):
    out = set()
    for t, f in st.facts.items():
        if f[0] == '!' and canon(('s', t), root) == place:
            out |= {x for x in f[1] if isinstance(x, str)}
    return out


# -- the compiled expression -----------------------------------------------------------------------

def compiled(ctx, W):
    """what the walk records is in the compiled expression; also sets which field holds what"""
    p = ctx.p
    got = {W.all: sym('param', 'recorded', W.fi)}
    for j in W.strs:
        got[j] = sym('param', W.side.get(j) or 'strings%d' % j, W.fi)
    e = base.make(p, dict(W.prim(got), **{'cel::known_attribute_for': pure_boundary}))
    e.K = 3 if ctx.tier == 'thorough' else 2
    e.LOOP = e.K + 2
    e.MAXSTEPS *= 10
    e.MAXPATHS *= 10
    ety, aty = p.adt(EXPRESSION), p.adt('data::cel::Attribute')
    fs = p.types[ety]['v'][0][2]
    aix = [i for i, (n, t) in enumerate(fs) if t is not None and 'cel::Attribute>' in p.types[t]['s']]
    tix = [i for i, (n, t) in enumerate(fs) if t is not None and p.types[t]['k'] == 'adt' and p.types[t]['p'] == IDED]
    pix = [i for i, (n, t) in enumerate(p.types[aty]['v'][0][2]) if t is not None and p.types[t]['s'].endswith('Path')][0]
    if len(aix) != 1 or len(tix) != 1:
        raise AnalysisError('fields of a compiled expression: ' + str(fs))
    W.aix, W.tix, W.pix, W.ety = aix[0], tix[0], pix, ety
    W.body, W.grpc = {}, set()
    where = p.where(W.ne)
    rec = got[W.all][1]
    n = {}
    for st in run_all(ctx, e, W.ne):
        calls = [ev for ev in st.events() if ev.kind == 'call' and ev.fi == W.fi]
        if st.result[0] != 'a' or p.types[p.fns[W.ne]['b']['ls'][0][0]]['v'][st.result[2]][0] != 'Ok':
            continue
        tr = lambda: trace_text(e, st)
        x = getf(st.result, st.result[2], 0)
        n['ok'] = n.get('ok', 0) + 1
        tree = getf(x, 0, W.tix)
        ctx.oblige(len(calls) == 1 and strip(calls[0].args[0]) == strip(tree), 'another tree walked', '%s: the expression compiled (%s) is not the one walked\n%s' % (where, e.show(tree, 4), tr()))
        for j in W.strs:
            side = W.side.get(j)
            at = [i for i, v in x[4] if strip(v) == got[j]]
            W.body.setdefault(side, at[0] if at else None)
            ctx.oblige(len(at) == 1 and W.body[side] == at[0], 'body fields dropped', '%s: the body fields collected from %s are not kept with the expression\n%s' % (where, side, tr()))
        attrs = items(getf(x, 0, W.aix))
        ctx.oblige(attrs is not None, 'attributes unknown', '%s: the attributes of the expression are %s\n%s' % (where, e.show(getf(x, 0, W.aix), 6), tr()))
        c = 0
        while st.facts.get(TIX.get(('more', rec, c), -1)) == ('=', 1):
            el = TIX[('elem', rec, c)]
            c += 1
            toks = list_of(st, el)
            if toks is None:
                n['long'] = n.get('long', 0) + 1
            mine = [a for a in attrs or () if of_path(e, st, a, el, W.pix)]
            if mine:
                n['attribute'] = n.get('attribute', 0) + 1
                continue
            grpc = [text_is(st, el, 0), text_is(st, el, 1)] == ['request', 'grpc']
            marks = [i for i, v in x[4] if v == C(1)]
            if grpc and marks:
                n['grpc'] = n.get('grpc', 0) + 1
                W.grpc = set(marks) if not W.grpc else W.grpc & set(marks)
            ctx.oblige(grpc and marks, 'recorded path dropped', '%s: a path recorded by the walk is no attribute of the compiled expression (%s)\n%s' % (where, [e.show(a, 6) for a in attrs or ()], tr()))
    for k in ('ok', 'attribute', 'grpc'):
        ctx.floor('compiled: ' + k, n.get(k, 0), 2)
    ctx.oblige(len(W.grpc) == 1, 'gRPC mark', '%s: no mark tells that an expression uses request.grpc' % where)
    ctx.oblige(set(W.body) == set(BODYFN) and None not in W.body.values() and len(set(W.body.values())) == 2, 'body fields of an expression', '%s: body fields are kept in %s' % (where, W.body))
    # a well-known attribute is looked up, and made, for the path asked for
    fi = p.find1('cel::known_attribute_for')
    e = base.make(p, {'map::HashMap::get': pure_boundary, 'OnceLock::get_or_init': pure_boundary})
    par = e.params(fi)[0]
    m = 0
    for st in run_all(ctx, e, fi):
        r = st.result
        if r[0] == 'a' and r[2] == 1:
            m += 1
            a = getf(r, 1, 0)
            gets = [ev for ev in st.events() if ev.kind == 'call' and ev.path.endswith('HashMap::get')]
            ctx.oblige(pathval(e, st, getf(a, 0, W.pix)) == pathval(e, st, par) and all(pathval(e, st, ev.args[1]) == pathval(e, st, par) for ev in gets), 'well-known attribute of another path',
                       '%s: the attribute found for a path is for %s\n%s' % (p.where(fi), e.show(getf(a, 0, W.pix), 5), trace_text(e, st)))
    ctx.floor('well-known attributes', m, 1)


def pathval(e, st, v):
    """the identity of a path: the term of its tokens"""
    x = strip(v)
    n = 0
    while x[0] == 'r' and n < 4:
        x = strip(e.load(st, x[1], x[2]))
        n += 1
    if x[0] == 'a' and x[4]:
        return pathval(e, st, x[4][0][1])
    if x[0] == 's':
        t = x[1]
        while TERMS[t][0] in ('deref', 'fld'):
            t = TERMS[t][1]
        return t
    return x


def items(v):
    """elements of a list whose order does not matter"""
    if v[0] == 'v':
        out = []
        for s in v[1]:
            if s[0] == 'e':
                out.append(s[1])
            else:
                k = TERMS[s[1]]
                if k[0] == 'sorted' and s[2] == 0:
                    y = items(k[1])
                    if y is None:
                        return None
                    out += y
                else:
                    return None
        return out
    if v[0] == 's' and TERMS[v[1]][0] == 'sorted':
        return items(TERMS[v[1]][1])
    return None


def list_of(st, t):
    i = 0
    while i < 8:
        f = st.facts.get(TIX.get(('more', t, i), -1))
        if f == ('=', 0):
            return i
        if f is None:
            return None
        i += 1
    return None


def text_is(st, seq_, i):
    for t, f in st.facts.items():
        if f[0] == '=' and isinstance(f[1], str):
            x = t
            while TERMS[x][0] == 'deref':
                x = TERMS[x][1]
            if TERMS[x] == ('elem', seq_, i):
                return f[1]
    return None


def of_path(e, st, a, el, pix):
    """is the attribute one of exactly the path whose tokens are the elements of `el`?"""
    a = strip(a)
    if a[0] == 's':
        k = TERMS[a[1]]
        if k[0] == 'fld' and TERMS[k[1]][0] == 'call' and TERMS[k[1]][1].endswith('known_attribute_for'):
            return tokens(e, st, TERMS[k[1]][2][0], el)
        return False
    return a[0] == 'a' and tokens(e, st, getf(a, 0, pix), el)


def tokens(e, st, v, el):
    x = strip(v)
    n = 0
    while x[0] == 'r' and n < 4:
        x = strip(e.load(st, x[1], x[2]))
        n += 1
    if x[0] == 'a':
        x = strip(x[4][0][1])
    if x[0] == 's':
        return same_seq(x[1], el)
    if x[0] != 'v':
        return False
    i = 0
    for s in x[1]:
        if s[0] == 'e':
            y = strip(s[1])
            if y[0] == 'c':
                if text_is(st, el, i) != y[1]:
                    return False
            else:
                while y[0] == 's' and TERMS[y[1]][0] == 'deref':
                    y = ('s', TERMS[y[1]][1])
                if y[0] != 's' or TERMS[y[1]] != ('elem', el, i):
                    return False
            i += 1
        elif s[0] == 'rest':
            return same_seq(s[1], el) and s[2] == i
        else:
            return False
    f = st.facts.get(TIX.get(('more', el, i), -1))
    return f == ('=', 0) or f is None and i >= e.K


def roots(ctx):
    p = ctx.p
    fi = p.find1(ROOT)
    e = base.make(p, {})
    e.LOOP = 20
    par = strip(e.params(fi)[0])
    yes, no = set(), None
    for st in run_all(ctx, e, fi):
        names = [f[1] for t, f in st.facts.items() if f[0] == '=' and isinstance(f[1], str)]
        if st.result == C(1):
            yes |= set(names)
        elif st.result == C(0):
            no = {x for t, f in st.facts.items() if f[0] == '!' for x in f[1]}
        for q in [st.result] + [('s', t) for t, f in st.facts.items() if f == ('=', int(st.result == C(1)))]:
            if q[0] == 's' and TERMS[q[1]][0] == 'contains' and mentions(TERMS[q[1]][2], lambda k: k == TERMS[par[1]], 8):
                ls = [strip(x)[1] for x in items(TERMS[q[1]][1]) or () if strip(x)[0] == 'c']
                if st.result != C(0):
                    yes |= set(ls)
                if st.result != C(1):
                    no = (no or set()) | set(ls)
    for r in ROOTS:
        ctx.oblige(r in yes and r in (no or ()), 'not a host root: ' + r, '%s: attributes under %s are not recognised as attributes of the host, so they are not fetched' % (p.where(fi), r))
    ctx.oblige('auth' not in yes, 'stored data taken for host data', '%s: auth is data stored by actions, not an attribute of the host' % p.where(fi))


# -- evaluation ------------------------------------------------------------------------------------
EVAL = 'cel::Expression::eval'
GRPC = 'cel::Expression::resolve_grpc'
QUIETFN = {k: pure_boundary for k in ('map::HashMap::get', 'map::HashMap::contains_key', 'option::Option::cloned', 'option::Option::unwrap_or', 'str::split', ROOT, GRPC, GETV, 'context::ValueStore::paths', 'context::ValueStore::is_pending', 'context::ValueStore::get')}


def eval_run(ctx, W, fields=(), maps=False, K=1, drop=()):
    p = ctx.p
    fi = p.find1(EVAL)
    extra = dict(QUIETFN)
    extra.update({k: boundary for k in (RESOLVE, ENSURE, DATAMAP, BIND_VAR, BIND_FN, 'cel::add_string_extensions', 'strings::add_string_extensions', 'Expression::add_extended_capabilities')})
    for k in drop:
        extra.pop(k, None)
    e = base.make(p, drop=(EVAL,), opaque=make_cone(p, ctx.g, [RESOLVE, ENSURE, GETV, BIND_VAR, BIND_FN], limit=15).opaque, extra=extra)
    e.K, e.LOOP = K, 8
    self_ = strip(e.params(fi)[0])[1]

    def kof(s):
        t = s
        while TERMS[t][0] == 'deref':
            t = TERMS[t][1]
        k = TERMS[t]
        if k[0] == 'fld' and same_seq(k[1], self_):
            return K if k[3] in fields else 0
        if term_mentions(t, lambda q: q[0] == 'fld' and q[3] == W.aix and same_seq(q[1], self_), 8):
            return 2 if W.aix in fields else 0
        return K if maps and term_mentions(t, lambda q: q[0] == 'call' and matches(q[1], (DATAMAP,)), 8) else 0
    e.KOF = kof
    e.MAXSTEPS *= 8
    e.MAXPATHS *= 10
    return fi, e, self_


def of_self(v, self_, ix):
    x = strip(v)
    while x[0] == 's' and TERMS[x[1]][0] == 'deref':
        x = ('s', TERMS[x[1]][1])
    return x[0] == 's' and TERMS[x[1]][0] == 'fld' and TERMS[x[1]][3] == ix and same_seq(TERMS[x[1]][1], self_)


def walked(st, owner, ix, e):
    """(number of elements of the field's list a path saw, saw all of them), None when it did not look"""
    best = None
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'more' and of_self(('s', k[1]), owner, ix):
            s = k[1]
            i = 0
            while st.facts.get(TIX.get(('more', s, i), -1)) == ('=', 1):
                i += 1
            end = st.facts.get(TIX.get(('more', s, i), -1)) == ('=', 0) or i >= e.K
            best = (s, i, end)
    return best


def evaluated(ctx, W):
    p = ctx.p
    ctxty = p.adt('kuadrant::context::ReqRespCtx')
    bodies = {'request': p.field_ix(ctxty, 'request_body'), 'response': p.field_ix(ctxty, 'response_body')}
    n = {}
    # attributes
    fi, e, self_ = eval_run(ctx, W, (W.aix,), K=2 if ctx.tier == 'thorough' else 1)
    where = p.where(fi)
    for st in run_all(ctx, e, fi):
        evs = [ev for ev in st.events() if ev.kind == 'call']
        at = [i for i, ev in enumerate(evs) if matches(ev.path, (DATAMAP,))]
        res = [i for i, ev in enumerate(evs) if matches(ev.path, (RESOLVE,))]
        tr = lambda: trace_text(e, st)
        if res:
            n['resolved'] = n.get('resolved', 0) + 1
            ctx.oblige(len(at) == 1 and at[0] < res[0] and strip(evs[at[0]].args[0])[1] == self_, 'no data map', '%s: the expression is resolved without its data having been gathered\n%s' % (where, tr()))
            ctx.oblige(of_self(evs[res[0]].args[0], self_, W.tix), 'another expression resolved', '%s: %s is resolved\n%s' % (where, e.show(evs[res[0]].args[0], 5), tr()))
        if at:
            w = walked(st, self_, W.aix, e)
            ctx.oblige(w is not None and w[2], 'attributes not fetched', '%s: not all attributes of the expression are considered before its data is gathered\n%s' % (where, tr()))
            for i in range(w[1] if w else 0):
                el = TIX[('elem', w[0], i)]
                if not host_rooted(st, el, W):
                    n['other'] = n.get('other', 0) + 1
                    continue
                n['host'] = n.get('host', 0) + 1
                ok_ = any(matches(ev.path, (ENSURE,)) and any(pathval(e, st, y) == pathval(e, st, ('s', el)) for y in fetched(e, st, ev.args[1])) for ev in evs[:at[0]])
                ctx.oblige(ok_, 'attribute not fetched', '%s: an attribute under a host root is not fetched before the data is gathered\n%s' % (where, tr()))
    for k in ('resolved', 'host', 'other'):
        ctx.floor('attributes: ' + k, n.get(k, 0), 1)
    # bindings of the data map
    fi, e, self_ = eval_run(ctx, W, (), True)
    for st in run_all(ctx, e, fi):
        evs = [ev for ev in st.events() if ev.kind == 'call']
        res = [i for i, ev in enumerate(evs) if matches(ev.path, (RESOLVE,))]
        if not res:
            continue
        tr = lambda: trace_text(e, st)
        binds = [ev for ev in evs[:res[0]] if matches(ev.path, (BIND_VAR,))]
        dm = [ev for ev in evs if matches(ev.path, (DATAMAP,))][0]
        from_map = lambda v: mentions(v, lambda k: k[0] == 'call' and matches(k[1], (DATAMAP,)), 16)
        grpc = any(of_self(('s', t), self_, next(iter(W.grpc), -1)) and f == ('=', 1) for t, f in st.facts.items())
        for r in (() if grpc else ('request',)) + ('metadata', 'source', 'destination', 'auth'):
            ctx.oblige(any(text_arg(b.args[1]) == r and from_map(b.args[2]) for b in binds), 'root not bound: ' + r, '%s: the variable %s is not bound to the data gathered for it\n%s' % (where, r, tr()))
        for t, f in st.facts.items():
            k = TERMS[t]
            if k[0] == 'disc' and TERMS[k[1]][0] == 'key' and f[0] == '=' and term_mentions(TERMS[k[1]][1], lambda q: q[0] == 'call' and matches(q[1], (DATAMAP,)), 16):
                key = k[1]
                kty = [i for i, x in enumerate(p.types) if x['k'] == 'adt' and x['p'].endswith('objects::Key')][0]
                if p.types[kty]['v'][f[1]][0] != 'String':
                    continue
                n['entries'] = n.get('entries', 0) + 1
                m, i = TERMS[key][1:3]
                val = TIX.get(('val', m, i), -1)
                ok_ = any(mentions(b.args[1], lambda q: q == TERMS[key], 12) and mentions(b.args[2], lambda q: TIX.get(q) == val, 12) for b in binds)
                if not ok_:
                    # the entry is one of those bound by name
                    ok_ = any(q[0] in ('eq', 'ne', 'call') and g == ('=', 1 if q[0] == 'eq' or q[1].endswith('::eq') else 0) and named_request(q, key) for q, g in ((TERMS[t2], g2) for t2, g2 in st.facts.items()))
                ctx.oblige(ok_, 'gathered data not bound', '%s: an entry of the data gathered for the expression is not bound to a variable: the expression cannot refer to it\n%s' % (where, tr()))
    ctx.floor('entries of the data map', n.get('entries', 0), 1)
    # the body fields
    fi, e, self_ = eval_run(ctx, W, tuple(x for x in W.body.values() if x is not None), K=2 if ctx.tier == 'thorough' else 1)
    for st in run_all(ctx, e, fi):
        evs = [ev for ev in st.events() if ev.kind == 'call']
        res = [i for i, ev in enumerate(evs) if matches(ev.path, (RESOLVE,))]
        tr = lambda: trace_text(e, st)
        gets = [ev for ev in evs if matches(ev.path, (GETV,))]
        none = [ev for ev in gets if disc_of(st, ev.ret) == 0]
        if none:
            n['waits'] = n.get('waits', 0) + 1
            a = st.result[0] == 'a' and st.result[2] == 0 and getf(st.result, 0, 0)
            ctx.oblige(not res and a and a[0] == 'a' and p.types[a[1]]['v'][a[2]][0] == 'Pending', 'body field not waited for', '%s: a body field of the expression is not there yet, but the path ends in %s\n%s' % (where, e.show(st.result, 4), tr()))
        if not res:
            continue
        binds = [ev for ev in evs[:res[0]] if matches(ev.path, (BIND_VAR,))]
        fns = {text_arg(ev.args[1]): ev for ev in evs[:res[0]] if matches(ev.path, (BIND_FN,))}
        for fn, side in BODYFN.items():
            w = walked(st, self_, W.body[fn], e)
            ctx.oblige(w is not None and w[2], 'body fields not read', '%s: not all fields the expression needs from the %s body are looked up before it is resolved\n%s' % (where, side, tr()))
            var = variable_of(ctx, fns.get(fn))
            b = [x for x in binds if text_arg(x.args[1]) == var]
            ctx.oblige(fn in fns and var is not None and bool(b), 'body function not bound', '%s: %s reads %s, which is not bound\n%s' % (where, fn, var, tr()))
            for i in range(w[1] if w else 0):
                el = TIX[('elem', w[0], i)]
                n[fn] = n.get(fn, 0) + 1
                g = [ev for ev in gets if mentions(ev.args[1], lambda q: TIX.get(q) == el, 8) and mentions(ev.args[0], lambda q: q[0] == 'fld' and q[3] == bodies[side] and p.is_adt(TTY.get(q[1]), 'ReqRespCtx'), 8) and disc_of(st, ev.ret) == 1]
                ctx.oblige(bool(g), 'body field read from elsewhere', '%s: a field needed from the %s body is not read from it\n%s' % (where, side, tr()))
                ok_ = any(mentions(x.args[2], lambda q: TIX.get(q) == el, 16) and any(mentions(x.args[2], lambda q: q == TERMS[ev.ret[1]], 16) for ev in g) for x in b[-1:])
                # asked for twice: the later one stands for both
                ok_ = ok_ or any(TERMS[t][0] == 'eq' and f == ('=', 1) and term_mentions(t, lambda q: TIX.get(q) == el, 8) for t, f in st.facts.items())
                ctx.oblige(ok_, 'body field not handed to the expression', '%s: the value of a %s body field is not in what %s reads\n%s' % (where, side, fn, tr()))
        gm = TIX.get(('fld', self_, 0, next(iter(W.grpc), -1)))
        gm = [t for t, f in st.facts.items() if of_self(('s', t), self_, next(iter(W.grpc), -1)) and f == ('=', 1)]
        if gm:
            n['grpc'] = n.get('grpc', 0) + 1
            r = [ev for ev in evs[:res[0]] if matches(ev.path, (GRPC,))]
            ctx.oblige(bool(r), 'gRPC data not resolved', '%s: an expression that uses request.grpc is resolved without it\n%s' % (where, tr()))
            for ev in r[-1:]:
                if disc_of(st, ev.ret) == 1:
                    n['grpc value'] = n.get('grpc value', 0) + 1
                    rq = [x for x in binds if text_arg(x.args[1]) == 'request'][-1:]
                    ctx.oblige(any(mentions(x.args[2], lambda q: q == TERMS[ev.ret[1]], 16) for x in rq), 'gRPC data not bound', '%s: the resolved gRPC data is not part of the request variable\n%s' % (where, tr()))
    for k in ('waits', 'grpc', 'grpc value') + tuple(BODYFN):
        ctx.floor('evaluated: ' + k, n.get(k, 0), 1)


def disc_of(st, v):
    if v is None:
        return None
    x = strip(v)
    if x[0] == 'a':
        return x[2]
    f = st.facts.get(TIX.get(('disc', x[1]), -1)) if x[0] == 's' else None
    return f[1] if f and f[0] == '=' else None


def text_arg(v):
    x = strip(v)
    return x[1] if x[0] == 'c' and isinstance(x[1], str) else None


def named_request(q, key):
    ks = q[1:] if q[0] != 'call' else q[2]
    vs = [v if isinstance(v, tuple) else ('s', v) for v in ks]
    return any(mentions(v, lambda k: TIX.get(k) == key, 8) for v in vs) and any(v_text(v, 'request') for v in vs)


def v_text(v, s):
    v = strip(v)
    if v == C(s):
        return True
    return v[0] == 's' and TERMS[v[1]][0] == 'call' and any(v_text(a, s) for a in TERMS[v[1]][2])


def variable_of(ctx, ev):
    """the variable a function given to the expression language reads"""
    f = strip(ev.args[2]) if ev is not None else None
    if f is None or f[0] != 'fn' or not isinstance(f[1][1], int):
        return None
    memo = ctx.__dict__.setdefault('_vars26', {})
    if f[1][1] not in memo:
        e = base.make(ctx.p, {'Context::get_variable': pure_boundary})
        r = {text_arg(x.args[1]) for st in run_all(ctx, e, f[1][1]) for x in st.events() if x.kind == 'call' and x.path.endswith('get_variable')}
        memo[f[1][1]] = r.pop() if len(r) == 1 else None
    return memo[f[1][1]]


def host_rooted(st, el, W):
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'call' and matches(k[1], (ROOT,)) and mentions(k[2][0], lambda q: TIX.get(q) == el, 10):
            return f == ('=', 1)
    # not asked: fetched or not, it may be one (unless it has no first token)
    return not any(TERMS[t][0] == 'more' and TERMS[t][2] == 0 and f == ('=', 0) and mentions(('s', TERMS[t][1]), lambda q: TIX.get(q) == el, 10) for t, f in st.facts.items())


def fetched(e, st, v):
    x = strip(v)
    n = 0
    while x[0] == 'r' and n < 4:
        x = strip(e.load(st, x[1], x[2]))
        n += 1
    return [s[1] for s in x[1] if s[0] == 'e'] if x[0] == 'v' else []


# -- the data gathered for an expression ---------------------------------------------------------
ATTRGET = 'cel::Attribute::get'
MAPV = 'data::map_to_value'
STORED = 'context::ValueStore::get'
WAITS = 'context::ValueStore::is_pending'
PREFIX = 'context::ValueStore::has_prefix'


def gathered(ctx, W):
    """one level of the tree of attributes becomes a map with an entry for each of them, by induction"""
    p = ctx.p
    fi = p.find1(MAPV)
    where = p.where(fi)
    e = base.make(p, {ATTRGET: boundary, MAPV: boundary, STORED: pure_boundary, WAITS: pure_boundary, PREFIX: pure_boundary, ROOT: pure_boundary})
    e.K = 3 if ctx.tier == 'thorough' else 2
    e.LOOP = 20
    ps = e.params(fi)
    m = strip(ps[0])[1]
    n = {}
    for st in run_all(ctx, e, fi):
        r = st.result
        tr = lambda: trace_text(e, st)
        if not (r[0] == 'a' and r[2] == 0):
            continue
        a = getf(r, 0, 0)
        if p.types[a[1]]['v'][a[2]][0] != 'Available':
            continue
        calls = [ev for ev in st.events() if ev.kind == 'call']
        kk = [TIX[('key', m, j)] for j in range(e.K) if ('key', m, j) in TIX]
        if any(TERMS[t][0] == 'eq' and f == ('=', 1) and len([x for x in kk if term_mentions(t, lambda q: TIX.get(q) == x, 8)]) > 1 for t, f in st.facts.items()):
            # two names of one level are never equal
            continue
        late = [ev for ev in calls if matches(ev.path, (WAITS,)) and strip(ev.ret)[0] == 's' and st.facts.get(strip(ev.ret)[1]) == ('=', 1)]
        ctx.oblige(not late, 'stored data not waited for', '%s: a value some action is about to store is taken as missing\n%s' % (where, tr()))
        out = items_of_map(e, st, a)
        ctx.oblige(out is not None, 'gathered data unclear', '%s: the data gathered is not a map built here (%s)\n%s' % (where, e.show(e.snap(st, r), 7), tr()))
        i = 0
        end = None
        while out is not None:
            end = st.facts.get(TIX.get(('more', m, i), -1))
            if end != ('=', 1):
                break
            key, val = TIX.get(('key', m, i), -1), TIX.get(('val', m, i), -1)
            i += 1
            hit = [v for k, v in out if mentions(k, lambda q: TIX.get(q) == key, 8)]
            if hit:
                ok_ = False
                for v in hit:
                    for ev in calls:
                        t = strip(ev.ret)[1] if ev.ret else None
                        if t is None or strip(ev.ret)[0] != 's' or not mentions(v, lambda q: TIX.get(q) == t, 12):
                            continue
                        kind = 'stored' if matches(ev.path, (STORED,)) and any(mentions(x, lambda q: TIX.get(q) == key, 12) for x in ev.args[1:]) else 'attribute' if matches(ev.path, (ATTRGET,)) and mentions(ev.args[0], lambda q: TIX.get(q) == val, 8) else 'nested' if matches(ev.path, (MAPV,)) and mentions(ev.args[0], lambda q: TIX.get(q) == val, 8) else None
                        if kind:
                            n[kind] = n.get(kind, 0) + 1
                            ok_ = True
                            asked = kind == 'stored' or any(matches(TERMS[t][1], (WAITS,)) and f == ('=', 0) and any(mentions(x, lambda q: TIX.get(q) == key, 12) for x in TERMS[t][2]) for t, f in st.facts.items() if TERMS[t][0] == 'call')
                            ctx.oblige(asked, 'not asked whether it is about to be stored', '%s: an attribute is gathered without having asked whether some action is about to store a value for it\n%s' % (where, tr()))
                ctx.oblige(ok_, 'gathered value from elsewhere', '%s: what is gathered for an attribute is not its stored value, its host value or its nested attributes: %s\n%s' % (where, [e.show(v, 6) for v in hit], tr()))
            else:
                top = st.facts.get(strip(ps[2])[1]) == ('=', '') or any(TERMS[t][0] == 'eq' and f == ('=', 1) and {TERMS[t][1], TERMS[t][2]} & {C('')} for t, f in st.facts.items())
                n['left out'] = n.get('left out', 0) + 1
                ctx.oblige(top and never_root(ctx, st, key), 'attribute left out of the data', '%s: an attribute that may be one of the host is left out of the data gathered for the expression\n%s' % (where, tr()))
        ctx.oblige(end == ('=', 0) or i >= e.K, 'attributes left out of the data', '%s: not every attribute of the expression is gathered\n%s' % (where, tr()))
    for k in ('stored', 'attribute', 'nested', 'left out'):
        ctx.floor('gathered: ' + k, n.get(k, 0), 1)
    into = p.find1('data::AttributeMap::into')
    e = base.make(p, {MAPV: boundary})
    k = 0
    for st in run_all(ctx, e, into):
        for ev in st.events():
            if ev.kind == 'call' and ev.fi == fi:
                k += 1
                ctx.oblige(text_arg(ev.args[2]) == '' and mentions(ev.args[0], lambda q: q == TERMS[strip(e.params(into)[0])[1]], 8), 'other data gathered', '%s: gathers %s' % (p.where(into), [e.show(x, 5) for x in ev.args]))
    ctx.floor('gathered: from the root', k, 1)


def items_of_map(e, st, a):
    """entries of the map inside a gathered result, by any path of pointers and wrappers"""
    v = e.snap(st, getf(a, a[2], 0))
    for _ in range(8):
        v = strip(v)
        if v[0] == 'm':
            return None if any(s[0] != 'kv' for s in v[1]) else [(s[1], s[2]) for s in v[1]]
        if v[0] == 'r':
            v = e.snap(st, e.load(st, v[1], v[2]))
        elif v[0] == 'a' and len(v[4]) == 1:
            x = v[4][0]
            v = x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], (int, tuple)) and isinstance(x[1], tuple) else x
        else:
            return None
    return None


def never_root(ctx, st, key):
    """the path decided that the name is none of the host's roots"""
    names = set()
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'call' and matches(k[1], (ROOT,)) and f == ('=', 0) and mentions(k[2][0], lambda q: TIX.get(q) == key, 8):
            return True
        if k[0] == 'contains' and f == ('=', 0) and mentions(k[2], lambda q: TIX.get(q) == key, 8):
            names |= {strip(x)[1] for x in items(k[1]) or () if strip(x)[0] == 'c'}
        if f[0] == '!' and (t == key or mentions(('s', t), lambda q: TIX.get(q) == key, 8)):
            names |= {x for x in f[1] if isinstance(x, str)}
    return names >= set(ROOTS)


# -- predicates together ---------------------------------------------------------------------------

def together(ctx, W):
    p = ctx.p
    name = [f['p'] for f in p.fns if f['b'] is not None and f['p'].endswith('::apply') and 'PredicateVec' in f['p']]
    if not name:
        raise AnalysisError('PredicateVec::apply not found')
    fi = [i for i, f in enumerate(p.fns) if f['p'] == name[0] and f['b'] is not None][0]
    e = base.make(p, {ENSURE: boundary, TEST: boundary, ROOT: pure_boundary})
    self_ = strip(e.params(fi)[0])[1]
    pty = p.adt('cel::Predicate')

    def kof(s):
        t = s
        while TERMS[t][0] == 'deref':
            t = TERMS[t][1]
        if same_seq(t, self_):
            return 2
        return 1
    e.KOF = kof
    e.K, e.LOOP = 2, 6
    e.MAXSTEPS *= 8
    n = 0
    for st in run_all(ctx, e, fi):
        evs = [ev for ev in st.events() if ev.kind == 'call']
        tests = [i for i, ev in enumerate(evs) if matches(ev.path, (TEST,))]
        if not tests:
            continue
        pre = [ev for ev in evs[:tests[0]] if matches(ev.path, (ENSURE,))]
        for t, f in list(st.facts.items()):
            k = TERMS[t]
            if k[0] != 'more' or f != ('=', 1):
                continue
            b = TERMS[k[1]]
            if b[0] == 'fld' and b[3] == W.aix and TTY.get(b[1]) == W.ety:
                el = TIX.get(('elem', k[1], k[2]), -1)
                if not host_rooted(st, el, W):
                    continue
                n += 1
                ctx.oblige(any(any(pathval(e, st, y) == pathval(e, st, ('s', el)) for y in fetched(e, st, ev.args[1])) for ev in pre), 'attribute of a predicate not fetched', '%s: predicates are evaluated before all their attributes were fetched\n%s' % (p.where(fi), trace_text(e, st)))
        # every predicate's attributes were looked at
        i = 0
        top = [TERMS[t][1] for t in st.facts if TERMS[t][0] == 'more' and same_seq(TERMS[t][1], self_)]
        for s in top[:1]:
            while st.facts.get(TIX.get(('more', s, i), -1)) == ('=', 1) and i < e.K:
                el = TIX[('elem', s, i)]
                looked = any(TERMS[t][0] == 'more' and TERMS[TERMS[t][1]][0] == 'fld' and TERMS[TERMS[t][1]][3] == W.aix and TTY.get(TERMS[TERMS[t][1]][1]) == W.ety and term_mentions(TERMS[t][1], lambda q: TIX.get(q) == el, 8) for t in st.facts)
                ctx.oblige(looked, 'attributes of a predicate not considered', '%s: predicates are evaluated without the attributes of all of them having been fetched\n%s' % (p.where(fi), trace_text(e, st)))
                i += 1
    ctx.floor('attributes of predicates evaluated together', n, 2)


# -- announcing body fields ------------------------------------------------------------------------
COLLECT = 'blueprint::Action::collect_body_values'


def expressions(p, st, t, ty, out, miss, stop=(), depth=0):
    """every compiled expression inside the value t of type ty, as far as the path knows it; inner actions apart"""
    if depth > 12 or t is None:
        return
    x = p.types[ty]
    if x['k'] in ('ref', 'ptr'):
        return expressions(p, st, TIX.get(('deref', t)), x['t'], out, miss, stop, depth + 1)
    if x['k'] == 'tup':
        for i, ft in enumerate(x.get('a') or x.get('v') or ()):
            if isinstance(ft, int) and contains(p, ft):
                expressions(p, st, TIX.get(('fld', t, 0, i)), ft, out, miss, stop, depth + 1)
        return
    if x['k'] != 'adt' or not contains(p, ty):
        return
    if ty == p.adt(EXPRESSION):
        return out.append(('expr', t))
    if depth and ty in stop:
        return out.append(('action', t))
    if x['p'].endswith('vec::Vec'):
        i = 0
        while True:
            f = st.facts.get(TIX.get(('more', t, i), -1))
            if f is None and i == 0:
                miss.append(t)
            if f != ('=', 1):
                return
            expressions(p, st, TIX.get(('elem', t, i)), x['a'][0], out, miss, stop, depth + 1)
            i += 1
    vs = x['v']
    v = 0
    if len(vs) > 1:
        f = st.facts.get(TIX.get(('disc', t), -1))
        if f is None or f[0] != '=':
            return miss.append(t)
        v = [i for i, q in enumerate(vs) if int(q[1]) == int(f[1])][0]
    for i, (n, ft) in enumerate(vs[v][2]):
        if ft is not None and contains(p, ft):
            q = TIX.get(('fld', t, v, i))
            if q is None:
                miss.append(t)
            expressions(p, st, q, ft, out, miss, stop, depth + 1)


def contains(p, ty, seen=frozenset()):
    """may a value of the type hold a compiled expression (in data)?"""
    memo = p.__dict__.setdefault('_c26', {})
    if ty in memo:
        return memo[ty]
    if ty in seen:
        return False
    x = p.types[ty]
    r = False
    if x['k'] in ('ref', 'ptr', 'slice', 'array'):
        r = contains(p, x['t'], seen | {ty}) if isinstance(x.get('t'), int) else False
    elif x['k'] in ('adt', 'tup'):
        if x['k'] == 'adt' and ty == p.adt(EXPRESSION):
            r = True
        else:
            sub = [a for a in x.get('a') or () if isinstance(a, int)]
            if x['k'] == 'adt':
                sub += [ft for v in x.get('v') or () for n, ft in v[2] if ft is not None]
            r = any(contains(p, a, seen | {ty}) for a in sub)
    if not seen:
        memo[ty] = r
    return r


def needed(p, st, W, side, exprs):
    """(the elements of the body fields lists of the expressions, expressions whose list was not looked at)"""
    ix = W.body[side]
    els, unseen = [], []
    for q in exprs:
        s = TIX.get(('fld', q, 0, ix))
        i = 0
        f = st.facts.get(TIX.get(('more', s, 0), -1)) if s is not None else None
        if f is None:
            unseen.append(q)
        while s is not None and st.facts.get(TIX.get(('more', s, i), -1)) == ('=', 1):
            els.append((s, i))
            i += 1
    return els, unseen


def listed(v):
    """terms a list of texts is made of: elements, and lists included as a whole"""
    x = strip(v)
    if x[0] == 's':
        return {('all', x[1])}
    out = set()
    for s in x[1] if x[0] in ('v', 'm') else ():
        if s[0] in ('e', 'kv'):
            y = strip(s[1])
            if y[0] == 's':
                t = y[1]
                while TERMS[t][0] == 'deref':
                    t = TERMS[t][1]
                out.add(('one', t))
        elif TERMS[s[1]][0] in ('sorted', 'dedup', 'rev'):
            out |= listed(TERMS[s[1]][1])
        else:
            out.add(('all', s[1]))
    return out


def in_list(st, have, x):
    el = TIX.get(('elem',) + x, -1)
    if ('one', el) in have or ('all', x[0]) in have or ('one', TIX.get(('key',) + x, -1)) in have:
        return True
    # or a text known to be equal to it is in the list
    for q, f in st.facts.items():
        k = TERMS[q]
        if f != ('=', 1):
            continue
        if k[0] == 'eq':
            a, b = bare_text(k[1]), bare_text(k[2])
            if a == el and ('one', b) in have or b == el and ('one', a) in have:
                return True
        if k[0] == 'haskey' and bare_text(k[2]) == el and ('all', k[1]) in have:
            return True
    return False


def bare_text(v):
    x = strip(v)
    if x[0] != 's':
        return None
    t = x[1]
    while TERMS[t][0] == 'deref':
        t = TERMS[t][1]
    return t


def walkers(ctx, root):
    """functions the collection goes through that go on to the follow-ups themselves: {path: (function, action, where it collects)}"""
    p, g = ctx.p, ctx.g
    act = p.adt('blueprint::Action')
    out = {}
    for i in g.reach(root):
        f = p.fns[i]
        if i == root or f['b'] is None or not f['l'] or f.get('ti') or '{closure' in f['p'] or not any(i in g.reach(j) for j in g.edges.get(i, ())):
            continue
        tys = [p.types[f['b']['ls'][1 + j][0]] for j in range(f['b']['n'])]
        me = [j for j, x in enumerate(tys) if x['k'] == 'ref' and x['t'] == act]
        acc = [j for j, x in enumerate(tys) if x['k'] == 'ref' and x.get('m') and j not in me]
        if len(me) == 1 and len(acc) <= 1:
            out[f['p']] = (i, me[0], acc[0] if acc else None)
    return out


def announced(ctx, W):
    """the fields collected for a service action, by induction over its follow-ups"""
    root = ctx.p.find1(COLLECT)
    ws = walkers(ctx, root)
    n = {}
    collected(ctx, W, root, 0, None, ws, n)
    for i, me, acc in ws.values():
        collected(ctx, W, i, me, acc, ws, n)
    for k in ('fields', 'request data', 'induction'):
        ctx.floor('announced: ' + k, n.get(k, 0), 1)


def collected(ctx, W, fi, me, acc, ws, n):
    p = ctx.p
    act = p.adt('blueprint::Action')

    def rec(e2, st, c):
        _, j, a = ws.get(c.path, (None, 0, None))
        t = T('call', c.path, (e2.snap(st, c.args[j]),))
        if a is None:
            return c.give(('s', t))
        cell, q = e2.deref_loc(st, c.args[a])
        x = e2.load(st, cell, q)
        e2.store(st, cell, q, (x[0], x[1] + (('rest', t, 0),)) if x[0] in ('v', 'm') else ('v', (('rest', x[1], 0), ('rest', t, 0))))
        c.give(UNIT)
    X = {COLLECT: rec}
    for w in ws:
        X[w] = rec
    e = base.make(p, X)
    e.K = 2 if ctx.tier == 'thorough' else 1
    # one element of each list suffices: the others are treated alike or cut
    e.MAXSTEPS *= 20
    e.MAXPATHS *= 20
    ps = e.params(fi)
    where = p.where(fi)
    data = [strip(ps[j])[1] for j in range(p.fns[fi]['b']['n']) if j not in (me, acc)]
    e.KOF = lambda s: 2 if s in data or TERMS[s][0] == 'deref' and TERMS[s][1] in data or ctx.tier == 'thorough' and p.is_adt(elem_ty(p, s), 'Action') else 1
    top = p.find1(COLLECT)
    op = p.types[p.types[act]['v'][0][2][blue.flow(ctx).action_op()][1]]
    for st in run_all(ctx, e, fi):
        tr = lambda: trace_text(e, st)
        have = listed(e.snap(st, st.result if acc is None else e.deref(st, ps[acc])))
        todo = [('action', strip(ps[me])[1])]
        exprs, miss = [], []
        root = True
        while todo:
            k, t = todo.pop()
            while TERMS[t][0] == 'param' or k == 'action' and root and TERMS[t][0] != 'deref':
                t2 = TIX.get(('deref', t))
                if t2 is None:
                    break
                t = t2
                break
            out = []
            if k == 'action':
                inner = [x for x in TERMS if 0]
                sub = TIX.get(('deref', t)) if root and ('deref', t) in TIX and TERMS[t][0] == 'param' else t
                whole = collected_whole(st, t, have, (COLLECT,) + tuple(ws) if not root else tuple(ws) if acc is None and me == 0 and fi == top else ())
                if whole is not None:
                    n['induction'] = n.get('induction', 0) + 1
                    i = 0
                    f = st.facts.get(TIX.get(('more', whole, 0), -1))
                    ctx.oblige(f is not None or ('all', whole) in have, 'fields of a follow-up dropped', '%s: the fields collected for a follow-up are not used\n%s' % (where, tr()))
                    while st.facts.get(TIX.get(('more', whole, i), -1)) == ('=', 1):
                        ctx.oblige(in_list(st, have, (whole, i)), 'fields of a follow-up dropped', '%s: a body field collected for a follow-up is not announced\n%s' % (where, tr()))
                        i += 1
                    continue
                expressions(p, st, sub, act, out, miss, (act,))
                root = False
            exprs += [x for kk, x in out if kk == 'expr']
            todo += [x for x in out if x[0] == 'action']
        # the request data
        for t in data:
            s = TIX.get(('deref', t), t)
            i = 0
            f = st.facts.get(TIX.get(('more', s, 0), -1))
            if f is None:
                miss.append(s)
            while st.facts.get(TIX.get(('more', s, i), -1)) == ('=', 1):
                el = TIX[('elem', s, i)]
                q = TIX.get(('fld', el, 0, 1))
                exprs.append(q)
                n['request data'] = n.get('request data', 0) + 1
                i += 1
            if f is not None and i < 2 and st.facts.get(TIX.get(('more', s, i), -1)) != ('=', 0):
                miss.append(s)
        ctx.oblige(not miss, 'part of an action not looked at', '%s: a part of an action (%s) is not looked at for the body fields it needs\n%s' % (where, [e.show(('s', m), 6) for m in miss][:3], tr()))
        els, unseen = needed(p, st, W, 'responseBodyJSON', [x for x in exprs if x is not None])
        ctx.oblige(not unseen, 'response body fields not announced', '%s: the response body fields of %s are not collected\n%s' % (where, [e.show(('s', m), 6) for m in unseen][:3], tr()))
        for t in els:
            n['fields'] = n.get('fields', 0) + 1
            ctx.oblige(in_list(st, have, t), 'response body field not announced', '%s: the response body field %s is not collected\n%s' % (where, e.show(('s', t[0]), 8), tr()))
        els, unseen = needed(p, st, W, 'requestBodyJSON', [x for x in exprs if x is not None])
        ctx.oblige(not unseen and all(in_list(st, have, t) for t in els), 'request body fields of a service action are not announced', '%s: no parsing task is told the fields a service action needs from the request body' % where)


def elem_ty(p, s):
    t = TTY.get(s)
    n = 0
    while t is not None and n < 4:
        x = p.types[t]
        if x['k'] in ('ref', 'slice', 'array'):
            t = x.get('t')
        elif x['k'] == 'adt' and x['p'].endswith('vec::Vec'):
            return x['a'][0]
        else:
            return t
        n += 1
    return t


def collected_whole(st, t, have, by):
    """the list collected for the inner action t, when the path asked for it"""
    for q in [TERMS[q][1] for q in st.facts if TERMS[q][0] == 'more'] + [x for kind, x in have if kind == 'all']:
        k = TERMS[q]
        if k[0] == 'call' and matches(k[1], by):
            x = strip(k[2][0])
            if x[0] == 's' and same_seq(x[1], t):
                return q
    return None


def tasks(ctx, W):
    """the parsing task of a service action comes before its own task"""
    p = ctx.p
    B = blue.to_tasks_paths(ctx, extra={COLLECT: pure_boundary})
    e = B.e
    where = p.where(B.fi)
    act = p.adt('blueprint::Action')
    opix = blue.flow(ctx).action_op()
    oty = p.types[act]['v'][0][2][opix][1]
    tu = p.adt('TokenUsageTask')
    lix = [i for i, (n, t) in enumerate(p.types[tu]['v'][0][2]) if t is not None and 'String' in p.types[t]['s'] and 'Vec' in p.types[t]['s']][0]
    n = {}
    for st in B.states:
        ts = blue.elems(getf(st.result, 0, 0))
        tr = lambda: trace_text(e, st)
        parts = [blue.inner_aggs(e, st, t, lambda h: '::tasks::' in h and h.endswith('Task')) for t in ts]
        for t, f in st.facts.items():
            k = TERMS[t]
            if k[0] != 'disc' or f[0] != '=' or TERMS[k[1]][0] != 'fld' or TERMS[k[1]][3] != opix or TTY.get(k[1]) != oty or TERMS[TERMS[k[1]][1]][0] != 'elem' or TTY.get(TERMS[k[1]][1]) not in (act, None):
                continue
            a = TERMS[k[1]][1]
            if TERMS[TERMS[a][1]][0] == 'fld' and TTY.get(TERMS[TERMS[a][1]][1]) == oty:
                continue        # a follow-up
            kind = [v[0] for v in p.types[oty]['v'] if int(v[1]) == int(f[1])][0]
            own = [i for i, x in enumerate(parts) if any(p.head(y[1]) != p.head(tu) and mentions(y, lambda q: TIX.get(q) == a, 14) for y in x)]
            announce = [i for i, x in enumerate(parts) for y in x if y[1] == tu and mentions(getf(y, 0, lix), lambda q: TIX.get(q) == a, 14)]
            if kind == 'Grpc':
                svc = [v for q, v in st.facts.items() if TERMS[q][0] == 'disc' and TERMS[TERMS[q][1]][0] == 'fld' and TERMS[TERMS[q][1]][1] == k[1] and p.is_adt(TTY.get(TERMS[q][1]), 'ServiceInstance')]
                sty = p.types[p.adt('services::ServiceInstance')]
                if svc and svc[0][0] == '=' and [v[0] for v in sty['v'] if int(v[1]) == int(svc[0][1])] == ['Tracing']:
                    continue
                calls = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (COLLECT,)) and mentions(ev.args[0], lambda q: TIX.get(q) == a, 8)]
                ctx.oblige(bool(calls), 'body fields of a service action not collected', '%s: the body fields a service action needs are not collected\n%s' % (where, tr()))
                for ev in calls[-1:]:
                    rd = strip(e.params(B.fi)[2])
                    ctx.oblige(strip(ev.args[1]) == rd, 'request data not considered', '%s: the body fields of the request data are not collected (%s)\n%s' % (where, e.show(ev.args[1], 3), tr()))
                    none = st.facts.get(TIX.get(('more', ev.ret[1], 0), -1)) == ('=', 0) or st.facts.get(TIX.get(('len', ev.ret[1]), -1)) == ('=', 0)
                    if none:
                        n['nothing needed'] = n.get('nothing needed', 0) + 1
                        continue
                    full = [i for i in announce if any(('all', ev.ret[1]) in listed(getf(y, 0, lix)) for y in parts[i] if y[1] == tu)]
                    n['announced'] = n.get('announced', 0) + 1
                    ctx.oblige(bool(full), 'body fields not announced', '%s: the body fields a service action needs are not given to a parsing task\n%s' % (where, tr()))
                    ctx.oblige(not full or not own or full[0] < own[0], 'parsing task after the action', '%s: the task that parses bodies comes after the action that needs them\n%s' % (where, tr()))
            elif kind != 'Store' and own:
                n['others'] = n.get('others', 0) + 1
                ctx.oblige(bool(announce), 'body fields of a top-level deny, headers or fail action are not announced', '%s: no parsing task is told the body fields an action of kind deny, headers or fail needs' % where)
    for k in ('announced', 'nothing needed', 'others'):
        ctx.floor('tasks: ' + k, n.get(k, 0), 1)


def store(ctx, W):
    """a store action parses the fields of its own predicate and expression"""
    p = ctx.p
    fi = p.find1('tasks::store::StoreTask::new')
    e = base.make(p, {'context::ValueStore::reserve': boundary})
    e.K = 1
    ps = e.params(fi)
    tys = [p.fns[fi]['b']['ls'][1 + j][0] for j in range(p.fns[fi]['b']['n'])]
    src = [j for j, t in enumerate(tys) if contains(p, t)]
    where = p.where(fi)
    body = p.adt('store::BodySource')
    tags = {'requestBodyJSON': 'Request', 'responseBodyJSON': 'Response'}
    n = {}
    for st in run_all(ctx, e, fi):
        tr = lambda: trace_text(e, st)
        exprs, miss = [], []
        for j in src:
            out = []
            expressions(p, st, strip(ps[j])[1], tys[j], out, miss)
            exprs += [t for k, t in out]
        # the parts of the new task that hold the source and the fields to parse
        x = e.snap(st, st.result)
        have, kinds = set(), set()
        collect(e, x, body, have, kinds)
        lists = {side: [TIX.get(('fld', q, 0, W.body[side]), -1) for q in exprs] for side in BODYFN}
        empty = lambda l: st.facts.get(TIX.get(('more', l, 0), -1)) == ('=', 0)
        ctx.oblige(len(exprs) == len(src) and not miss, 'store action not looked at', '%s: the predicate and the value of a store action are not both looked at\n%s' % (where, tr()))
        for side, ls in lists.items():
            if tags[side] in kinds:
                n[side] = n.get(side, 0) + 1
                for l in ls:
                    els, c = [], 0
                    while st.facts.get(TIX.get(('more', l, c), -1)) == ('=', 1):
                        els.append((l, c))
                        c += 1
                    ok_ = ('all', l) in have or empty(l) or bool(els) and all(in_list(st, have, x) for x in els)
                    ctx.oblige(ok_, 'body field of a store action not parsed', '%s: a body field a store action needs is not given to its parser\n%s' % (where, tr()))
                other = [l for l in lists[[q for q in lists if q != side][0]] if ('all', l) in have]
                ctx.oblige(not other or len(kinds) > 1, 'store action parses the other body', '%s: fields of one body are looked for in the other\n%s' % (where, tr()))
            elif not all(empty(l) for l in ls):
                if side == 'responseBodyJSON' and 'Request' in kinds:
                    ctx.oblige(False, 'a store action that needs both bodies parses only the request', '%s: with fields of the request body needed, those of the response body are not given to any parser' % where)
                else:
                    ctx.oblige(False, 'body fields of a store action not parsed', '%s: a store action may need fields for %s, but nothing parses that body\n%s' % (where, side, tr()))
            else:
                n['none'] = n.get('none', 0) + 1
    for k in BODYFN:
        ctx.floor('store action: ' + k, n.get(k, 0), 1)


def collect(e, x, body, have, kinds, d=10):
    if d == 0 or not isinstance(x, tuple):
        return
    if x[0] == 'a':
        if x[1] == body:
            kinds.add(e.p.types[body]['v'][x[2]][0])
        for i, y in x[4]:
            collect(e, y, body, have, kinds, d - 1)
    elif x[0] == '&':
        collect(e, x[1], body, have, kinds, d - 1)
    elif x[0] in ('v', 's'):
        have |= {h for h in listed(x)}
