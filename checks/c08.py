"""C08: an action acts only when its predicate is definitely true."""
from engine.acts import *
from .c01 import run_all

EXPLANATION = '''Typestate over every abstract path of every action task: effects (host writes, stored values, bindings, holds, counters, ending or deferring)
require that the task's own predicate was tested on that path and was true. The predicate is traced back to the configuration of the same action, and
Predicate::test / Expression::eval are checked to report true only for a boolean true computed from the compiled text.'''


def check(ctx):
    ctx.rule('on every path of an action task: no effect, Done, Deferred or Terminate before the own predicate was tested; true is required for effects; false => Done without effect; error => Failed without effect; pending => neither Done nor effect')
    ctx.rule('an expression that fails or is pending has no effect either; its error makes the action fail')
    ctx.rule('the predicate of a task is the compiled predicate text of the same configured action (also in follow-ups), for every kind of action')
    ctx.rule('Predicate::test is Available(b) exactly when the expression evaluated to the boolean b, Pending exactly when it is pending, an error otherwise')
    tasks(ctx)
    provenance(ctx)
    predicate(ctx)
    expression(ctx)


def tasks(ctx):
    p = ctx.p
    n = {'false': 0, 'true': 0, 'err': 0, 'pending': 0}
    kinds = n_eff = 0
    for c in core_tasks(ctx):
        e = c.e
        kinds += 1
        optional = 'Option' in p.types[p.types[c.ty]['v'][0][2][c.pix][1]]['s']
        for st, out, evs in c.states():
            tr = lambda: trace_text(e, st)
            if optional and variant_of(e, st, getf(e.deref(st, c.self_), 0, c.pix), p.types[c.ty]['v'][0][2][c.pix][1]) == 'None':
                continue        # excluded by provenance()
            said = None
            for ev in evs:
                if ev.kind != 'call':
                    continue
                if matches(ev.path, (TEST,)):
                    if not ctx.oblige(c.own(ev.args[0], c.pix), c.name + ' tests a foreign predicate', '%s tests %s, which is not its own predicate\n%s' % (p.where(c.fi), e.show(ev.args[0]), tr())):
                        continue
                    v = verdict(e, st, ev)
                    said = v if said in (None, 'true') else said
                elif matches(ev.path, tuple(ACTS)):
                    n_eff += 1
                    ctx.oblige(said == 'true', c.name + ' acts without a true predicate', '%s: %s happens although the predicate %s\n%s' % (
                        p.where(c.fi), p.short(ev.path), {None: 'was not tested or its answer was not looked at', 'false': 'is false', 'err': 'failed', 'pending': 'is pending'}.get(said, said), tr()))
            if out in ('Terminate', 'Deferred'):
                ctx.oblige(said == 'true', c.name + ' ' + out + ' without a true predicate', '%s: outcome %s although the predicate says %s\n%s' % (p.where(c.fi), out, said, tr()))
            elif out == 'Done':
                ctx.oblige(said in ('true', 'false'), c.name + ' done without knowing its predicate', '%s: counts as done although the predicate says %s\n%s' % (p.where(c.fi), said, tr()))
            if said == 'false':
                ctx.oblige(out == 'Done', c.name + ' false predicate', '%s: a false predicate ends in %s\n%s' % (p.where(c.fi), out, tr()))
            elif said == 'err':
                ctx.oblige(out == 'Failed', c.name + ' failing predicate', '%s: a predicate that fails to evaluate ends in %s\n%s' % (p.where(c.fi), out, tr()))
            elif said == 'pending':
                ctx.oblige(out in ('Requeued', 'Failed'), c.name + ' pending predicate', '%s: a pending predicate ends in %s\n%s' % (p.where(c.fi), out, tr()))
            if said in n:
                n[said] += 1
            bad = None
            for ev in evs:
                if ev.kind == 'call' and matches(ev.path, (EXPR,)):
                    v = verdict(e, st, ev)
                    if v == 'err':
                        ctx.oblige(out == 'Failed', c.name + ' failing expression', '%s: an expression that fails to evaluate ends in %s\n%s' % (p.where(c.fi), out, tr()))
                    if v != 'available':
                        bad = bad or ev
                elif bad is not None and ev.kind == 'call' and matches(ev.path, tuple(ACTS)):
                    ctx.oblige(False, c.name + ' acts on no value', '%s: %s happens although its expression gave no value\n%s' % (p.where(c.fi), p.short(ev.path), tr()))
        ctx.sample('%s: %d abstract paths' % (p.where(c.fi), len(c.P.states)))
    ctx.floor('action task kinds', kinds, 5)
    ctx.floor('effects on abstract paths', n_eff, 15)
    for k in n:
        ctx.floor('paths with predicate ' + k, n[k], 5)


def provenance(ctx):
    p = ctx.p
    F = blue.flow(ctx)
    ta = p.adt('configuration::TypedAction')
    px, tx = p.field_ix(ta, 'predicate'), p.field_ix(ta, 'terminal')
    pa = [i for i, (n, t) in enumerate(p.types[F.act]['v'][0][2]) if t is not None and p.types[t]['s'].endswith('cel::Predicate')]
    ctx.oblige(len(pa) == 1, 'action predicate field', 'a compiled action has %d predicates' % len(pa))
    ai = F.action_ix('terminal')
    tix = next(iter(ai)) if ai else None
    n = 0
    for st, a in F.compiled:
        v = eta(p, getf(a, 0, pa[0]))
        src = None
        if v[0] == 's' and TERMS[v[1]][0] == 'fld':
            c = TERMS[TERMS[v[1]][1]]
            if c[0] == 'call' and matches(c[1], ('cel::Predicate::new',)):
                src = strip(c[2][0])
        if not ctx.oblige(src is not None, 'compiled predicate', 'the predicate of a compiled action is %s, not the compiled predicate of its configuration' % F.C.e.show(v)):
            continue
        while src[0] == 's' and TERMS[src[1]][0] == 'deref':
            src = ('s', TERMS[src[1]][1])
        k = TERMS[src[1]] if src[0] == 's' else ('',)
        want = TERMS[getf(a, 0, tix)[1]][1] if tix is not None and getf(a, 0, tix)[0] == 's' else None
        n += 1
        ctx.oblige(k[0] == 'fld' and k[3] == px and p.is_adt(TTY.get(k[1]), 'TypedAction') and k[1] == want, 'compiled predicate source',
                   'the predicate of a compiled action is compiled from %s' % F.C.e.show(src))
    ctx.floor('compiled actions', n, 10)
    seen = set()
    n = 0
    for st, t, inner in F.tasks:
        for a in inner:
            h = p.head(a[1])
            for i, (fnm, fty) in enumerate(p.types[p.adt(h)]['v'][0][2]):
                if fty is None or 'cel::Predicate' not in p.types[fty]['s']:
                    continue
                v = eta(p, getf(a, 0, i))
                opt = 'Option' in p.types[fty]['s']
                if opt:
                    ctx.oblige(v[0] == 'a' and p.types[v[1] if v[1] is not None else fty]['v'][v[2]][0] == 'Some', short_head(h) + ' without predicate', '%s is built without a predicate: %s' % (h, F.B.e.show(v)))
                    v = eta(p, getf(v, v[2], 0)) if v[0] == 'a' else v
                # the configured action the other fields come from
                roots = {blue.root_elem(eta(p, w)) for _j, w in a[4] if _j != i} - {None}
                k = TERMS[v[1]] if v[0] == 's' else ('',)
                n += 1
                seen.add(h)
                if k[0] == 'fld' and k[3] == pa[0] and TERMS[k[1]][0] == 'elem':
                    ctx.oblige(roots == {k[1]}, short_head(h) + ' predicate of another action', '%s gets the predicate %s' % (h, F.B.e.show(v)))
                else:
                    # only the tracing header task has no configured predicate
                    # (nothing but the identity of the action goes into it)
                    ok = tracing_const(F, v) and not any(configured(ctx, F, a, j, w) for j, w in a[4] if j != i)
                    ctx.oblige(ok, short_head(h) + ' predicate', '%s gets the predicate %s, not that of its action' % (h, F.B.e.show(v)))
    ctx.floor('task predicates traced', n, 6)
    ctx.floor('task kinds traced', len(seen), 5)
    allowed = set(F.B.e.fn_seen)
    for h in seen:
        for i in built_only_in(ctx, h, allowed):
            f = p.fns[i]
            # the default reply (its predicate is the constant true) and retries that rebuild a task
            if f['p'].endswith('::default') or 'clone::Clone' in (f.get('ti') or ''):
                continue
            own = [fi for hh, fi in task_impls(p) if hh == h]
            ctx.oblige(i in own, short_head(h) + ' built in ' + fname(p, i), '%s is built in %s, outside of the translation of configured actions' % (h, p.where(i)))


def configured(ctx, F, a, j, w):
    """does field j of a built task carry a compiled expression of the configured action?"""
    p = ctx.p
    ft = p.types[p.adt(p.head(a[1]))]['v'][0][2][j][1]
    return ft is not None and 'cel::Expression' in p.types[ft]['s'] and blue.root_elem(eta(p, w)) is not None


def tracing_const(F, v):
    if v[0] == 's' and TERMS[v[1]][0] == 'fld':
        c = TERMS[TERMS[v[1]][1]]
        if c[0] == 'call' and matches(c[1], ('cel::Predicate::new',)):
            x = strip(c[2][0])
            return 'true' in F.B.e.show(x) and x[0] != 's'
    return False


def predicate(ctx):
    p = ctx.p
    fi = p.find1(TEST)
    e = base.make(p, drop=(TEST,))
    rty = p.fns[fi]['b']['ls'][0][0]
    n = {}
    for st in run_all(ctx, e, fi):
        evs = calls(st.events(), EXPR)
        tr = trace_text(e, st)
        self_ = e.params(fi)[0]
        if not ctx.oblige(len(evs) == 1 and mentions(evs[0].args[0], lambda k: k[0] == 'deref' and ('s', k[1]) == self_), 'Predicate::test evaluates', 'Predicate::test evaluates %d expressions\n%s' % (len(evs), tr)):
            continue
        v = verdict(e, st, evs[0])
        out = variant_of(e, st, st.result, rty)
        res = None
        if out == 'Ok':
            ok = [i for i, x in enumerate(p.types[rty]['v']) if x[0] == 'Ok'][0]
            a = getf(st.result, ok, 0)
            aty = p.types[rty]['v'][ok][2][0][1]
            res = variant_of(e, st, a, aty)
        if v == 'pending':
            n['pending'] = 1
            ctx.oblige(res == 'Pending', 'Predicate::test pending', 'a pending expression makes the predicate %s' % (res or out))
        elif v == 'err':
            n['err'] = 1
            ctx.oblige(out == 'Err', 'Predicate::test error', 'a failing expression makes the predicate %s' % (res or out))
        else:
            val = available(e, evs[0])
            vty = p.adt('cel::objects::Value') if False else TTY.get(val[1])
            vn = variant_of(e, st, val, vty)
            if vn == 'Bool':
                n['bool'] = 1
                b = field(e, val, vty, 'Bool', '0')
                got = field(e, a, aty, 'Available', '0') if res == 'Available' else None
                same = got == b or (got is not None and e.truth(st, got) is not None and e.truth(st, got) == e.truth(st, b))
                ctx.oblige(same, 'Predicate::test value', 'an expression with the boolean result b makes the predicate %s' % (e.show(got) if got else res or out))
            else:
                n['other'] = 1
                ctx.oblige(out == 'Err', 'Predicate::test not a boolean', 'an expression result that is not a boolean (%s) makes the predicate %s' % (vn, res or out))
    ctx.oblige(set(n) == {'pending', 'err', 'bool', 'other'}, 'Predicate::test cases', 'Predicate::test distinguishes only %s' % sorted(n))


def expression(ctx):
    """an expression's value is the value of its compiled text, nothing else"""
    p = ctx.p
    e, ev, sts = eval_expression_paths(ctx)
    rty = p.fns[ev]['b']['ls'][0][0]
    n = 0
    for st in sts:
        out = variant_of(e, st, st.result, rty)
        if out != 'Ok':
            continue
        ok = [i for i, x in enumerate(p.types[rty]['v']) if x[0] == 'Ok'][0]
        a = getf(st.result, ok, 0)
        aty = p.types[rty]['v'][ok][2][0][1]
        if variant_of(e, st, a, aty) != 'Available':
            continue
        n += 1
        rs = [c for c in st.events() if c.kind == 'call' and matches(c.path, (RESOLVE,))]
        v = strip(field(e, a, aty, 'Available', '0'))
        src = TERMS[TERMS[v[1]][1]] if v[0] == 's' and TERMS[v[1]][0] == 'fld' else ('',)
        good = len(rs) == 1 and src[0] == 'call' and matches(src[1], (RESOLVE,)) and mentions(rs[0].args[0], lambda k: k[0] == 'deref' and ('s', k[1]) == e.params(ev)[0])
        ctx.oblige(good, 'Expression::eval value', 'the value of an expression is %s, not the result of evaluating its compiled text\n%s' % (e.show(v), trace_text(e, st)))
    ctx.floor('values of expressions', n, 1)
    # the compiled text is the given text
    fi = p.find1('cel::Expression::new_expression')
    e = base.make(p, drop=('cel::Expression::new_expression',), opaque=make_cone(p, ctx.g, ['parser::Parser::parse'], limit=15).opaque)
    e.K = 1
    n = 0
    for st in run_all(ctx, e, fi):
        ps = [c for c in st.events() if c.kind == 'call' and c.path.endswith('Parser::parse')]
        n += len(ps)
        ctx.oblige(len(ps) == 1 and strip(ps[0].args[1]) == strip(e.params(fi)[0]), 'Expression source', 'an expression is compiled from %s' % [e.show(c.args[1]) for c in ps])
    ctx.floor('expression parses', n, 1)
