"""C21: numbers crossing into or out of expressions are never silently altered."""
from engine.acts import *
from engine.core import *
from engine import conv
from engine.conv import b, fld, Rel, INT
from . import c22, c13
from .c13 import core_tasks, value_fields, SENDR, REPLY, PAIRS, TRACKER
from engine.base import boundary, pure_boundary, matches, Cone

EXPLANATION = '''The conversions between messages and expression values are run as abstract paths; every number written or read must be the number given, with each cast shown to keep it by the bounds the path has checked.
The same is asked of the status of replies, of attributes read from the host and of numbers read from texts and JSON; all other casts of the crate that can change a number must be shown not to, each in its function.'''
AS = {'as_i64': 'i64', 'as_u64': 'u64', 'as_f64': 'f64'}
ATTR = 'data::attribute::AttributeValue>::parse'


def lossy(fr, to):
    if fr in INT and to in INT:
        return not (INT[to][0] <= INT[fr][0] and INT[fr][1] <= INT[to][1])
    if fr in INT:
        a, z = INT[fr]
        m = 1 << (53 if to == 'f64' else 24)
        return a < -m or z > m
    if to in INT:
        return True
    return fr == 'f64' and to == 'f32'


def fits(r, x, fr, to):
    if fr in INT and to not in INT:
        lo, hi = r.interval(x)
        m = 1 << (53 if to == 'f64' else 24)
        return lo is not None and hi is not None and -m <= lo and hi <= m
    return r.fits(x, fr, to)


def double_only(p, f, dest):
    """the destination holds nothing but doubles: the nearest one is what there is"""
    if dest[1]:
        return False
    for bb in f['b']['bb']:
        for s in bb['s']:
            if s[0] == '=' and s[2][0] == 'agg' and any(o.get('mv') == dest or o.get('cp') == dest for o in s[2][3]):
                t = p.types[s[2][1]]
                return t['k'] == 'adt' and isinstance(s[2][2], int) and t['v'][s[2][2]][0] == 'NumberValue'
    return False


def cast_run(ctx, i, roots):
    """lossy casts of function i, in runs from the roots"""
    bad = []
    for root in roots:
        cone = Cone(ctx.g, (ctx.p.fns[i]['p'],), limit=20)
        met = []
        e = conv.make(ctx, cone=cone)
        e.KOF = lambda s: 1

        def on_cast(st, fr, frm, to, v):
            if fr.fi == i and lossy(frm, to):
                met.append(1)
            if fr.fi == i and lossy(frm, to) and not (v[0] == 's' and TERMS[v[1]][0] == 'disc'):
                if not fits(Rel(e, st), b(v), frm, to):
                    bad.append((frm, to, e.show(v)))
        e.on_cast = on_cast
        try:
            e.run(root)
        except AnalysisError as x:
            bad.append(('?', '?', str(x)))
        ctx.engine_stats(e)
        if not met:
            bad.append(('?', '?', 'not met from %s' % ctx.p.fns[root]['p']))
    return bad


def casts(ctx, seen):
    """every cast that can change a number, in the code that is no conversion and no text helper"""
    p = ctx.p
    n = left = 0
    for i, f in enumerate(p.fns):
        if not f['l'] or f['b'] is None or '::tests::' in f['p'] or '::cel::strings::' in f['p']:
            continue
        risky = False
        for bb in f['b']['bb']:
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'cast' and s[2][1] in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                    frm, to = [p.types[x].get('n') or p.types[x]['k'] for x in (s[2][3], s[2][4])]
                    n += 1
                    risky = risky or lossy(frm, to) and 'k' not in s[2][2] and not double_only(p, f, s[1]) and p.types[s[2][3]]['k'] != 'adt'
        if not risky or f['p'] in seen:
            continue
        left += 1
        bad = cast_run(ctx, i, [i])
        # what the callers know about the number counts too
        if bad:
            at = {ctx.g.root_fn(x) for x in ctx.g.callers(i)} if '{closure' not in f['p'] else {ctx.g.root_fn(i)}
            at = {x for x in at if '::tests::' not in p.fns[x]['p']}
            if at and at != {i}:
                bad = [y for x in sorted(at) for y in cast_run(ctx, i, [x])]
        ctx.oblige(not bad, 'cast: %s: %s' % (f['p'], sorted({x[:2] for x in bad})), '%s: a number is cast from %s to %s without having been shown to fit: %s' % ((f['p'],) + bad[0] if bad else ('', '', '', '')))
    ctx.floor('casts looked at', n, 8)
    ctx.sample('casts: %d looked at, %d functions needed a run' % (n, left))


def readings(ctx):
    """a number is read as a floating point one only after it was no integer"""
    p, g = ctx.p, ctx.g
    roots = {}
    for s, path in g.calls_named(lambda path, c: path is not None and (path.endswith('Number::as_f64') or path.endswith('Value::as_f64') or path == 'str::parse')):
        f = p.fns[s.fi]
        if f['l'] and '::tests::' not in f['p'] and 'f64' in p.types[s.destty]['s']:
            roots.setdefault(g.root_fn(s.fi), []).append(path)
    n = 0
    cone = Cone(g, ('Number::as_f64', 'Value::as_f64', 'str::parse'), limit=20)
    for i in sorted(roots):
        e = conv.make(ctx, cone=cone)
        e.KOF = lambda s: 1
        states = e.run(i)
        ctx.engine_stats(e)
        for st in states:
            r = Rel(e, st)
            for nm in ('as_f64', 'parse'):
                for ev, as_, ty in r.all(nm):
                    if nm == 'parse' and ty != 'f64':
                        continue
                    n += 1
                    x = as_[0]
                    for t in ('i64', 'u64'):
                        no = False
                        if nm == 'parse':
                            a = r.ask('parse', x, ty=t)
                            no = a is not None and e.known(st, T('disc', a[1])) == 1
                        else:
                            a = r.ask('as_' + t, x)
                            no = a is not None and r.some(a) == 0
                            a = r.ask('is_' + t, x)
                            no = no or a is not None and r.yes(a) == 0
                        ctx.oblige(no, 'reading: %s: %s' % (p.fns[i]['p'], t), '%s: a number that may be an %s is read as a floating point one\n%s' % (p.fns[i]['p'], t, trace_text(e, st)))
    ctx.floor('functions reading floating point numbers', len(roots), 3)
    ctx.floor('readings', n, 3)


def attributes(ctx):
    """numeric attributes are the eight bytes the host gave"""
    p = ctx.p
    n = 0
    for i, f in enumerate(p.fns):
        if not f['l'] or f['b'] is None or not f['p'].endswith(ATTR):
            continue
        ty = f['p'][1:].split(' as ')[0]
        if ty not in INT and ty != 'f64' and 'DateTime' not in ty:
            continue
        e = conv.make(ctx)
        states = e.run(i)
        ctx.engine_stats(e)
        raw = e.params(i)[0]
        for st in states:
            if st.result[2] != 0:
                continue
            n += 1
            v = b(getf(st.result, 0, 0))
            num = ty
            if 'DateTime' in ty:
                num = 'i64'
                while v[0] == 's' and TERMS[v[1]][0] == 'call' and '>::from' in TERMS[v[1]][1]:
                    v = b(TERMS[v[1]][2][0])
                while v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith(('::fixed_offset', '::to_utc')):
                    v = b(TERMS[v[1]][2][0])
                if v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('from_timestamp_nanos'):
                    v = b(TERMS[v[1]][2][0])
                else:
                    v = ('?',)
            k = TERMS[v[1]] if v[0] == 's' else ('?',)
            ok = k[0] == 'call' and k[1].endswith('%s::from_le_bytes' % num) and r_bytes(k[2][0], raw)
            size = any(f2 == ('=', 8) and TERMS[t] in (('fld', raw[1], 0, 1), ('len', raw)) or f2 == ('=', 8) and c22_len(t, raw) for t, f2 in st.facts.items())
            ctx.oblige(ok, 'attribute: %s' % ty, 'the %s read from an attribute is %s' % (ty, e.show(getf(st.result, 0, 0))))
            ctx.oblige(size, 'attribute: %s: size' % ty, 'an attribute that need not be eight bytes long is read as %s' % ty)
    ctx.floor('numeric attributes', n, 4)


def c22_len(t, raw):
    """the term is the length of the value"""
    k = TERMS[t]
    return k[0] == 'len' and b(k[1]) == raw or k[0] == 'fld' and k[1] == raw[1]


def r_bytes(v, raw):
    """the bytes of the value and nothing else"""
    v = b(v)
    n = 0
    while v != raw and v[0] == 's' and n < 8:
        n += 1
        k = TERMS[v[1]]
        if k[0] in ('deref', 'fld'):
            v = b(('s', k[1]))
        else:
            return False
    return v == raw


def replies(ctx):
    p = ctx.p
    n = 0
    X = {PAIRS: pure_boundary, TRACKER: pure_boundary, SENDR: boundary}
    own = reaches(ctx, SENDR, REPLY)
    for c in core_tasks(ctx, extra=X, effects=[SENDR, PAIRS], only=own):
        e = c.e
        consts = set()
        for st, o, evs in c.states():
            for ev in evs:
                if ev.kind != 'call' or not matches(ev.path, (SENDR, REPLY)):
                    continue
                status = e.snap(st, ev.args[1])
                if status[0] == 'c':
                    consts.add(status[1])
                if not value_fields(status):
                    continue
                n += 1
                r = Rel(e, st)
                v, ok = b(status), True
                while v[0] == 's' and TERMS[v[1]][0] == 'cast':
                    k = TERMS[v[1]]
                    ok = ok and r.fits(('s', k[3]), k[1], k[2])
                    v = b(('s', k[3]))
                k = TERMS[v[1]] if v[0] == 's' else ('?',)
                ok = ok and k[0] in ('call', 'fld')
                ctx.oblige(ok, '%s: status' % c.name, 'the status of the reply is %s, which need not be the number the response has' % e.show(status))
        ctx.oblige(len(consts) < 2, '%s: other status' % c.name, 'a reply without a usable status of its own has one of %s: one of them stands for a number that was changed' % sorted(consts))
    ctx.floor('replies with a status of the response', n, 1)


def check(ctx):
    ctx.rule('cel_to_dynamic_message and dynamic_message_to_cel: a number written to or read from a field or map key is the number given, each cast shown to keep it by the bounds checked on the path')
    c22.writing(ctx, only='numbers')
    c22.reading(ctx, only='numbers')
    seen = set(ctx.cov['functions_analysed'])
    ctx.rule('the status of a reply is the number of the response, or the default when that does not fit')
    replies(ctx)
    ctx.rule('numeric attributes are the little-endian value of the eight bytes given')
    attributes(ctx)
    ctx.rule('a number is read as floating point only where both integer readings of it have failed')
    readings(ctx)
    ctx.rule('every other cast of the crate that can change a number is shown to keep it, or its destination holds nothing but doubles')
    casts(ctx, seen)
