"""C28: body fields are extracted from the whole of the body they name, however it is cut into chunks."""
from engine.acts import *
from engine.pipe import invoke
from engine.base import boundary, pure_boundary
from engine.zone import Zone
from .c01 import run_all
from .c17 import mentions
from .c09 import READS, RB, bodies, in_body, getter_ix, same_task, parse_state, remembers

EXPLANATION = '''Every abstract path of the tasks that read body bytes is accounted for: which body the bytes come from, where reading starts and how far it goes, that each piece goes into the extractor exactly once and unchanged,
when the extraction is concluded and where its results are put.  The extractors are run in the same way: what a call leaves behind must be what was there plus the whole chunk, whatever the place it was cut at.'''
BODY = {'get_http_request_body': 'request', 'get_http_response_body': 'response'}


def check(ctx):
    ctx.rule('bytes of exactly the body the wanted fields belong to are read, from where the extractor stopped to the end of what the host holds')
    ctx.rule('each piece read goes into the extractor exactly once, whole and as the host returned it')
    ctx.rule('nothing received stays unread while the task goes on')
    ctx.rule('the extraction is concluded when the stream has ended, and only then; fields still missing then fail the task')
    ctx.rule('a task put back keeps its extractor with all it has been fed')
    ctx.rule('an extractor keeps, adds up or passes on every chunk exactly once, also when it ends within a character or a line')
    ctx.rule('an extracted value is stored for the field it was extracted for, in the body it was read from')
    ctx.rule('the size the host reports for a body is the one read back')
    M = Model(ctx)
    for h, fi in M.tasks:
        R = Reader(M, h, fi)
        R.run()
        construction(M, R)
    for h in M.impls:
        Extractor(M, h).run()
    events(M)
    grammar(M)
    remembers(ctx, 'size', 'context::BodyContext::buffer_size', 'usize')
    ctx.floor('tasks that read body bytes', len(M.tasks), 2)
    ctx.floor('paths that read body bytes', M.n['read'], 40)
    ctx.floor('paths that conclude the extraction', M.n['conclude'], 40)
    ctx.floor('kinds of extractors', len(M.impls), 4)


def dyn_steps(p, ty, d=4, seen=()):
    """ways from a value of a struct to the trait object of this crate it owns: [(trait, ((variant, field), ..))]"""
    t = p.types[ty]
    if t['k'] != 'adt' or d == 0 or ty in seen:
        return []
    out = []
    if t['p'].endswith('boxed::Box'):
        x = p.types[t['a'][0]]
        if x['k'] == 'dyn' and x['p'].startswith(p.crate):
            return [(x['p'], ())]
        return []
    if not (t.get('l') or t['p'].endswith('option::Option')):
        return []
    for vi, (n, dv, fs) in enumerate(t['v']):
        for j, (fn, ft) in enumerate(fs):
            if ft is not None:
                for tr, s in dyn_steps(p, ft, d - 1, seen + (ty,)):
                    out.append((tr, ((ty, vi, j),) + s))
    return out


class Model:
    def __init__(self, ctx):
        p = self.p = ctx.p
        self.ctx = ctx
        self.n = dict(read=0, conclude=0, back=0)
        self.B = bodies(ctx)
        self.bs = getter_ix(ctx, 'context::BodyContext::buffer_size')
        self.bty = p.adt('context::BodyContext')
        self.tasks, self.way, self.traits = [], {}, {}
        for h, fi in task_impls(p):
            ws = [w for w in dyn_steps(p, p.adt(h)) if not w[0].endswith('tasks::Task')]
            direct = ctx.g.reach_named(fi, lambda y: matches(y, tuple(HOST + b for b in BODY)), lambda y: matches(y, (TEST, EXPR, APPLY)))
            if not direct or task_keep(p, h):
                continue
            if len(ws) != 1:
                raise AnalysisError('%s reads body bytes but keeps %d extractors' % (h, len(ws)))
            self.tasks.append((h, fi))
            self.way[fi] = ws[0]
            self.traits[ws[0][0]] = self.roles(ws[0][0])
        self.impls = sorted({h for tr in self.traits for h, _ in self.methods(tr)})

    def methods(self, tr):
        """{(implementing type, method): function}"""
        out = {}
        for i, f in enumerate(self.p.fns):
            ti = f.get('ti') or ''
            if f['b'] is not None and ti.startswith(tr + '::') and '::tests::' not in f['p']:
                out[(f['p'][1:].split(' as ')[0], ti.split('::')[-1])] = i
        return out

    def roles(self, tr):
        p = self.p
        out = {}
        for (h, m), i in self.methods(tr).items():
            b = p.fns[i]['b']
            ret = p.types[b['ls'][0][0]]
            ps = [b['ls'][k][0] for k in range(2, b['n'] + 1)]
            mut = p.types[b['ls'][1][0]].get('m')
            r = None
            if len(ps) == 1 and p.types[ps[0]]['s'] in ('&[u8]', 'alloc::vec::Vec<u8>', 'std::vec::Vec<u8>') or len(ps) == 1 and is_bytes(p, ps[0]):
                r = 'feed'
            elif len(ps) == 1 and p.types[ps[0]]['k'] == 'ref' and p.types[ps[0]]['m'] and p.types[ps[0]]['t'] == self.bty:
                r = 'put'
            elif not ps and ret['k'] == 'int':
                r = 'used'
            elif not ps and not mut and ret['k'] == 'adt' and ret['p'].endswith('vec::Vec'):
                r = 'missing'
            elif not ps and mut and ret['k'] == 'adt' and ret['p'].endswith('result::Result'):
                r = 'end'
            elif len(ps) == 1 and ret['k'] == 'adt' and ret['p'].endswith('option::Option'):
                r = 'take'
            if r is None or out.get(m, r) != r:
                raise AnalysisError('%s::%s is no known step of an extraction' % (tr, m))
            out[m] = r
        if 'feed' not in out.values():
            raise AnalysisError('%s has no way to feed bytes' % tr)
        return out


def is_bytes(p, t):
    x = p.types[t]
    while x['k'] == 'ref':
        x = p.types[x['t']]
    if x['k'] == 'slice':
        return p.types[x['t']]['s'] == 'u8'
    return x['k'] == 'adt' and x['p'].endswith('vec::Vec') and p.types[x['a'][0]]['s'] == 'u8'


def pending(e, st, c):
    """an evaluation that has to wait: what follows it is not this property's business"""
    vs = e.p.types[c.dt]['v']
    ok = [i for i, v in enumerate(vs) if v[0] == 'Ok'][0]
    aty = vs[ok][2][0][1]
    pi = [i for i, v in enumerate(e.p.types[aty]['v']) if v[0] == 'Pending'][0]
    c.give(('a', c.dt, ok, None, ((0, ('a', aty, pi, None, ())),)))


def makers(M, tr):
    """functions that build an extractor"""
    p = M.p
    out = set()
    for i, f in enumerate(p.fns):
        if f['b'] is None or not f['l'] or f.get('ti') or '::tests::' in f['p'] or '{closure' in f['p']:
            continue
        t = f['b']['ls'][0][0]
        x = p.types[t]
        if x['k'] == 'adt' and x['p'].endswith(('result::Result', 'option::Option')):
            x = p.types[x['a'][0]]
        if x['k'] == 'adt' and x['p'] in M.impls:
            out.add(f['p'])
    return out


def self_chain(v):
    """(extractor calls already applied to this extractor value, what it was first)"""
    done = []
    v = strip(v)
    for _ in range(60):
        if v[0] != 's':
            break
        k = TERMS[v[1]]
        if k[0] == 'mut':
            done.append((k[1], k[4] if len(k) > 4 else None))
            v = strip(k[3])
        elif k[0] == 'deref':
            v = ('s', k[1])
        else:
            break
    return list(reversed(done)), v


def answered_some(e, st, ev):
    """the bytes a body read delivered, False when it delivered none, None when the path does not say"""
    rty = TTY.get(ev.ret[1])
    vn = variant_of(e, st, ev.ret, rty)
    if vn != 'Ok':
        return None if vn is None else False
    ok = [i for i, v in enumerate(e.p.types[rty]['v']) if v[0] == 'Ok'][0]
    a = getf(ev.ret, ok, 0)
    aty = e.p.types[rty]['v'][ok][2][0][1]
    vn = variant_of(e, st, a, aty)
    if vn != 'Some':
        return None if vn is None else False
    so = [i for i, v in enumerate(e.p.types[aty]['v']) if v[0] == 'Some'][0]
    return getf(a, so, 0)


def failed_call(e, st, ev):
    """True: it said Err; False: Ok; None: it cannot fail"""
    rty = TTY.get(ev.ret[1]) if ev.ret is not None and ev.ret[0] == 's' else None
    if rty is None or e.p.types[rty]['k'] != 'adt' or not e.p.types[rty]['p'].endswith('result::Result'):
        return None
    return variant_of(e, st, ev.ret, rty) != 'Ok'


class Reader:
    """what one task does with the bytes of a body, path by path"""

    def __init__(self, M, h, fi):
        self.M, self.h, self.fi = M, h, fi
        self.p, self.ctx = M.p, M.ctx
        self.tr, self.steps = M.way[fi]
        self.roles = M.traits[self.tr]
        self.by = {r: self.tr + '::' + m for m, r in self.roles.items()}
        self.name = short_head(h)
        self.sides = {}         # tag -> bodies it was seen with
        self.lists = {}         # tag -> lists the extractor was made for
        self.streaming = {x for x in M.impls if self.ctx.g.reach_named(M.methods(self.tr).get((x, self.role_name('feed')), -1), lambda y: y.endswith('sse_line_parser::line'), lambda y: False)} if self.tr in M.traits else set()

    def role_name(self, r):
        return [m for m, x in self.roles.items() if x == r][0]

    def run(self):
        M, p = self.M, self.p
        X = dict(RB)
        for m, r in self.roles.items():
            X[self.tr.split('::')[-1] + '::' + m] = pure_boundary if r in ('used', 'missing') else boundary
        mk = self.makers = {x for x in makers(M, self.tr)}
        for x in mk:
            X['::'.join(x.split('::')[-2:])] = pure_boundary
        for x in ('is_missing_body_values', 'MessageConverter::cel_value_to_bytes', 'ReqRespCtx::set_attribute', 'Headers::get'):
            X[x] = pure_boundary
        X['BodyContext::set_value'] = boundary
        X['cel::Predicate::test'] = X['cel::Expression::eval'] = pending
        self.P = Paths(self.ctx, self.fi, effects=READS + list(X) , extra=X, K=1)
        self.e = self.P.e
        self.self_ = self.e.params(self.fi)[0]
        for st in self.P.states:
            self.path(st)
        for tag, ws in sorted(self.sides.items(), key=str):
            self.ctx.oblige(len(ws) == 1, '%s one body' % self.name, '%s: the bytes, the end and the values of one extraction belong to different bodies: %s' % (p.where(self.fi), sorted(ws)))
        self.ctx.sample('%s: %d abstract paths, bodies %s' % (p.where(self.fi), len(self.P.states), {str(k): sorted(v) for k, v in self.sides.items()}))

    # -------------------------------------------------------------- facts of one path
    def own(self):
        """(term of the extractor the task already has, [(enum value, variant)] that must hold)"""
        t = T('deref', strip(self.self_)[1])
        need = []
        for ty, vi, j in self.steps:
            if len(self.p.types[ty]['v']) > 1:
                need.append((('s', t), ty, self.p.types[ty]['v'][vi][0]))
            t = T('fld', t, vi, j)
        return t, need

    def has(self, st):
        """does the path know the task to have an extractor (True), to have none (False)?"""
        _, need = self.own()
        for v, ty, vn in need:
            TTY.setdefault(v[1], ty)
            k = variant_of(self.e, st, v, ty)
            if k is None:
                return None
            if k != vn:
                return False
        return True

    def tag(self, st):
        """the fieldless enum values kept next to the extractor (or to what it is made from), as known on the path"""
        root = T('deref', strip(self.self_)[1])
        out = []
        for t, f in st.facts.items():
            k = TERMS[t]
            if k[0] == 'disc' and f[0] == '=' and TERMS[k[1]][0] == 'fld':
                ty = TTY.get(k[1])
                if ty is not None and self.p.types[ty]['k'] == 'adt' and self.p.types[ty].get('l') and not any(v[2] for v in self.p.types[ty]['v']):
                    x = k[1]
                    while TERMS[x][0] in ('fld', 'deref') and x != root:
                        x = TERMS[x][1]
                    if x == root:
                        out.append((self.p.types[ty]['p'].split('::')[-1], f[1]))
        return tuple(sorted(set(out)))

    def is_size(self, v, w):
        v = strip(v)
        return v[0] == 's' and TERMS[v[1]][0] == 'fld' and TERMS[v[1]][3] == self.M.bs and in_body(self.M.B, TERMS[v[1]][1], w)

    def bodies_ended(self, st):
        out = {}
        for t, f in st.facts.items():
            k = TERMS[t]
            if k[0] == 'fld' and k[3] == self.M.B.eos_ix and f[0] == '=':
                for w in self.M.B.ctx_ix:
                    if in_body(self.M.B, k[1], w):
                        out.setdefault(w, set()).add(f[1])
        return out

    def body_of(self, v):
        v = strip(v)
        return [w for w in self.M.B.ctx_ix if v[0] == 's' and in_body(self.M.B, v[1], w)]

    # -------------------------------------------------------------- one path
    def path(self, st):
        M, p, e, ctx, name = self.M, self.p, self.e, self.ctx, self.name
        out, _ = outcome(e, st)
        evs = [ev for ev in st.events() if ev.kind == 'call']
        tr = lambda: trace_text(e, st)
        say = lambda c, key, msg: ctx.oblige(c, '%s %s' % (name, key), '%s %s\n%s' % (p.where(self.fi), msg, tr()))
        tag = self.tag(st)
        ended = self.bodies_ended(st)
        sides = set(ended)
        held = None             # bytes read and not passed on yet
        reads, fed, made, takes, missing = [], [], [], [], None
        concluded = False
        has = self.has(st)
        for ev in evs:
            short = ev.path.split('::')[-1]
            role = self.roles.get(short) if ev.path == self.tr + '::' + short else None
            if matches(ev.path, tuple(HOST + b for b in BODY)):
                w = BODY[short]
                sides.add(w)
                M.n['read'] += 1
                say(held is None, 'piece lost', 'reads on although the piece read before went nowhere')
                start, size = ev.args[1], strip(ev.args[2])
                how = 'whole' if start == C(0) and self.is_size(size, w) else None
                if how is None and size[0] == 's' and TERMS[size[1]][0] == 'Sub':
                    a, b = TERMS[size[1]][1:3]
                    if self.is_size(a, w) and strip(b) == strip(start) and (start == C(0) or self.used_now(start, fed)):
                        how = 'rest'
                say(how is not None, 'part of the body', 'reads the %s body from %s for %s bytes' % (w, e.show(start), e.show(size)))
                say((how == 'rest') == ('used' in self.by and start != C(0)) or how == 'whole' and 'used' not in self.by, 'start of reading', 'reads from %s although the extractor says how far it is' % e.show(start))
                reads.append(ev)
                got = answered_some(e, st, ev)
                held = got or None
                if got is None:
                    say(False, 'answer ignored', 'does not look at what the body read returned')
            elif role == 'feed':
                say(held is not None and canon_bytes(ev.args[1]) == canon_bytes(held), 'feeds something else', 'feeds %s where %s was read' % (e.show(ev.args[1]), e.show(held) if held else 'nothing'))
                held = None
                fed.append(ev)
                self.live(ev, fed, made, has, say)
                if failed_call(e, st, ev):
                    say(out == 'Failed', 'feeding fails', 'ends in %s although the extractor rejected the bytes' % out)
            elif role in ('end', 'take'):
                concluded = True
                M.n['conclude'] += 1
                self.live(ev, fed, made, has, say)
                say(held is None, 'piece lost', 'concludes the extraction before the bytes read went into it')
                say(len(ended) == 1 and all(x == {1} for x in ended.values()), 'concludes early', 'concludes the extraction although the stream is not known to have ended')
                if failed_call(e, st, ev):
                    say(out == 'Failed', 'concluding fails', 'ends in %s although the extraction could not be concluded' % out)
                if role == 'take':
                    takes.append(ev)
            elif role == 'missing':
                missing = ev if concluded else None
            elif role == 'put':
                w = self.body_of(ev.args[1])
                sides |= set(w) or {'?'}
                self.live(ev, fed, made, has, say)
                if 'end' in self.by:
                    say(all(x == {0} for x in ended.values()) and ended or concluded, 'not concluded', 'stores the values without concluding the extraction of an ended body')
                    if concluded and 'missing' in self.by:
                        n, ex = count(st, missing.ret) if missing is not None else (0, False)
                        say(ex and n == 0, 'missing fields ignored', 'goes on at the end of the body although wanted fields may be missing')
            elif ev.path.endswith('BodyContext::set_value'):
                w = self.body_of(ev.args[0])
                sides |= set(w) or {'?'}
                mine = [t for t in takes if mentions(ev.args[2], t.ret)]
                say(len(mine) == 1 and canon_bytes(mine[0].args[1]) == canon_bytes(ev.args[1]), 'value of another field', 'stores %s for %s' % (e.show(ev.args[2]), e.show(ev.args[1])))
            elif ev.path in self.makers:
                say(has is False, 'starts over', 'makes a new extractor although it has one')
                if failed_call(e, st, ev):
                    say(out == 'Failed', 'no extractor', 'ends in %s although no extractor could be made' % out)
                else:
                    made.append(ev)
                self.made(st, ev, tag, sides, say)
        if held is not None:
            say(out == 'Failed', 'piece lost', 'ends in %s although the bytes read went nowhere' % out)
        if has or made:
            self.sides.setdefault(tag, set()).update(sides)
            if out in ('Requeued', 'Done', 'Terminate') and not reads:
                say(self.nothing_unread(st), 'bytes unread', 'ends in %s although the host may hold bytes that were not read' % out)
        elif out not in ('Failed',) and not reads:
            pass
        if out == 'Requeued':
            self.back(st, fed, made, has, say)

    def used_now(self, start, fed):
        """start is what the extractor says it has used, asked after the last piece went in"""
        k = TERMS[strip(start)[1]] if strip(start)[0] == 's' else ('',)
        if k[0] != 'call' or k[1] != self.by.get('used') and not self.by.get('used', '').endswith(k[1]):
            return False
        done, base = self_chain(k[2][0])
        return len([1 for d in done if self.is_feed(d[0])]) == len(fed)

    def is_feed(self, path):
        return path == self.by['feed'] or self.by['feed'].endswith('::' + path)

    def live(self, ev, fed, made, has, say):
        """the call goes to the task's own extractor (or the one just made), with all it has been fed"""
        done, base = self_chain(ev.args[0])
        n = len([1 for d in done if self.is_feed(d[0])])
        want = len([f for f in fed if f is not ev])
        t, _ = self.own()
        mine = base == ('s', t) or any(mentions(base, m.ret) for m in made)
        say(mine and n == want, 'another extractor', 'calls %s on %s' % (ev.path.split('::')[-1], self.e.show(ev.args[0])))

    def nothing_unread(self, st):
        z = Zone(self.e, st)
        for t in list(st.facts):
            for x in (('s', t),) + tuple(v for v in TERMS[t][1:] if isinstance(v, tuple) and v and v[0] == 's'):
                for w in self.M.B.ctx_ix:
                    if self.is_size(x, w):
                        if z.le(x, C(0)):
                            return True
                        for y in self.used_terms(st):
                            if z.le(x, y):
                                return True
        return False

    def used_terms(self, st):
        return [('s', TIX[TERMS[ev.ret[1]]]) for ev in st.events() if ev.kind == 'call' and ev.path == self.by.get('used')]

    def back(self, st, fed, made, has, say):
        e = self.e
        self.M.n['back'] += 1
        items = requeued(e, st)
        if len(items) != 1 or items[0][0] not in ('s', 'a'):
            return              # C09 says what is put back
        v = raw_item(e, st)
        for _ in range(3):
            if v[0] == 'r' or v[0] == 's' and v == self.self_:
                v = e.deref(st, v)
        for ty, vi, j in self.steps:
            if v[0] == 'r':
                v = e.deref(st, v)
            if v[0] == 'a' and v[2] is not None and len(self.p.types[ty]['v']) > 1 and v[2] != vi:
                v = None
                break
            v = getf(v, vi, j)
        if v is not None:
            v = e.snap(st, e.deref(st, v), 12)
        if v is None:
            say(not fed and not made and not has, 'extractor dropped', 'is put back without the extractor it had')
            return
        done, base = self_chain(v)
        t, _ = self.own()
        n = len([1 for d in done if self.is_feed(d[0])])
        if n == 0 and not fed and not made:
            return
        mine = base == ('s', t) or any(mentions(base, m.ret) for m in made)
        say(mine and n == len(fed), 'extractor dropped', 'is put back with %s' % e.show(v))

    def made(self, st, ev, tag, sides, say):
        e = self.e
        kind = [x for x in self.M.impls if ev.path.startswith(x + '::')]
        typed = set()
        for t, f in st.facts.items():
            k = TERMS[t]
            if f[0] == '=' and k[0] in ('call', 'contains') and 'text/event-stream' in e.show(('s', t), 8):
                typed.add(f[1])
        if kind and len(typed) == 1:
            say((kind[0] in self.streaming) == (typed == {1}), 'kind of extractor', 'makes %s for a body that is %s event stream' % (kind[0].split('::')[-1], 'an' if typed == {1} else 'no'))
        elif kind and typed == set():
            say(kind[0] not in self.streaming, 'kind of extractor', 'makes %s for a body whose content type is not known to be an event stream' % kind[0].split('::')[-1])


def raw_item(e, st):
    """the task inside a Requeued outcome, as the program holds it"""
    v = ofield(e, st, 'Requeued', '0')
    for _ in range(4):
        if v[0] == 'v' and len(v[1]) == 1 and v[1][0][0] == 'e':
            return v[1][0][1]
        v = e.deref(st, v) if v[0] == 'r' else getf(v, 0, 0)
    raise AnalysisError('a task is put back in an unknown way')


def canon_bytes(v):
    """the thing itself, whatever was borrowed, cloned or collected from it unchanged"""
    v = strip(v)
    for _ in range(8):
        if v[0] == 'v' and len(v[1]) == 1 and v[1][0][0] == 'rest' and v[1][0][2] == 0:
            v = strip(('s', v[1][0][1])) if isinstance(v[1][0][1], int) else v[1][0][1]
        elif v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith(('to_string', 'Clone::clone', 'to_owned', 'to_vec')):
            v = strip(TERMS[v[1]][2][0])
        else:
            break
    return v


# ------------------------------------------------------------------ what a task asks the extractor for
def expression_lists(v, ety, out, n=0):
    """fields of expressions a value is made from: {(field index, the expression)}"""
    if n > 30 or not isinstance(v, tuple) or not v:
        return out
    if v[0] == 's' and isinstance(v[1], int):
        k = TERMS[v[1]]
        if k[0] == 'fld' and TTY.get(k[1]) == ety:
            out.add((k[3], k[1]))
            return out
        for y in k[1:]:
            if isinstance(y, tuple):
                expression_lists(y, ety, out, n + 1)
        if k[0] in ('fld', 'deref', 'mut', 'elem', 'sorted', 'dedup') and isinstance(k[1], int):
            expression_lists(('s', k[1]), ety, out, n + 1)
        return out
    if v[0] == 'rest' and isinstance(v[1], int):
        return expression_lists(('s', v[1]), ety, out, n + 1)
    for y in v:
        if isinstance(y, tuple):
            expression_lists(y, ety, out, n + 1)
    return out


def construction(M, R):
    """the fields an extraction is started for are those of the task's own expressions, for the body it reads"""
    p, ctx = M.p, M.ctx
    ty = p.adt(R.h)
    if len(R.steps) < 2 or not p.types[R.steps[1][0]].get('l'):
        return              # the fields come from outside: C26 says which
    tag_of = {}
    for tag, ws in R.sides.items():
        for t in tag:
            tag_of.setdefault(t[1], set()).update(ws)
    n = 0
    for i, f in enumerate(p.fns):
        if f['b'] is None or not f['l'] or f.get('ti') or not f['p'].startswith(R.h + '::') or '{closure' in f['p']:
            continue
        ret = f['b']['ls'][0][0]
        x = p.types[ret]
        wrapped = x['k'] == 'adt' and x['p'].endswith('result::Result')
        if (x['a'][0] if wrapped else ret) != ty or any(f['b']['ls'][k][0] == ty for k in range(1, f['b']['n'] + 1)):
            continue
        e = base.make(p)
        e.K = 1
        for st in run_all(ctx, e, i):
            v = e.snap(st, st.result, 10)
            if wrapped:
                if variant_of(e, st, v, ret) != 'Ok':
                    continue
                v = getf(v, 0, 0)
            s = getf(v, 0, R.steps[0][2])
            if s[0] != 'a':
                raise AnalysisError('%s starts with an unknown extraction' % p.where(i))
            n += 1
            own = expressions_of(M, e, f, i)
            if not s[4]:
                for w, ix in M.B.expr_ix.items():
                    for x in own:
                        c, ex = count(st, sym('fld', x, 0, ix))
                        ctx.oblige(ex and c == 0, R.name + ' wants nothing', '%s extracts nothing although its expressions may need values of the %s body\n%s' % (p.where(i), w, trace_text(e, st)))
                continue
            tags = [y for _, y in s[4] if y[0] == 'a' and not y[4]] 
            lists = [y for _, y in s[4] if y[0] == 'v' or y[0] == 's']
            d = {int(p.types[t[1]]['v'][t[2]][1]) for t in tags}
            ws = set().union(*[tag_of.get(x, set()) for x in d]) if d else set()
            ok = ctx.oblige(len(ws) == 1 and len(lists) == 1, R.name + ' wants', '%s starts an extraction of an unknown kind %s' % (p.where(i), e.show(s)))
            if not ok:
                continue
            ix = M.B.expr_ix[list(ws)[0]]
            got = expression_lists(lists[0], M.B.ety, set())
            want = {(ix, x) for x in own}
            spare = {(ix, x) for x in own if count(st, sym('fld', x, 0, ix)) == (0, True)}
            ctx.oblige(got <= want and want - spare <= got, R.name + ' wants other fields', '%s: the fields wanted from the %s body are %s' % (p.where(i), list(ws)[0], e.show(lists[0])))
    ctx.floor('ways to start an extraction', n, 3)


def expressions_of(M, e, f, i):
    """terms of the expressions given to a function (on their own or within a predicate)"""
    out = []
    for k, v in enumerate(e.params(i)):
        t = f['b']['ls'][k + 1][0]
        x = M.p.types[t]
        if t == M.B.ety:
            out.append(v[1])
        elif x['k'] == 'adt' and x.get('l') and len(x['v']) == 1:
            for j, (n, ft) in enumerate(x['v'][0][2]):
                if ft == M.B.ety:
                    y = T('fld', v[1], 0, j)
                    TTY.setdefault(y, ft)
                    out.append(y)
    return out


# ------------------------------------------------------------------ what an extractor does with a chunk
SINKS = ('acutejson::parser::Parser::feed', 'EventParser::parse')
SCALAR = 'body_parser::parse_json_scalar'


class Extractor:
    def __init__(self, M, h):
        self.M, self.h, self.p, self.ctx = M, h, M.p, M.ctx
        self.ty = M.p.adt(h)
        self.fields = M.p.types[self.ty]['v'][0][2]
        self.name = short_head(h)
        tr = [t for t in M.traits if any(x == h for x, _ in M.methods(t))]
        if len(tr) != 1:
            raise AnalysisError('%s extracts in %d ways' % (h, len(tr)))
        self.fn = {M.traits[tr[0]][m]: i for (x, m), i in M.methods(tr[0]).items() if x == h}
        self.slots = [j for j, (n, t) in enumerate(self.fields) if t is not None and M.p.types[t]['k'] == 'array']
        self.fields_ix = [j for j, (n, t) in enumerate(self.fields) if t is not None and M.p.types[t]['s'].endswith('Vec<std::string::String>')]
        self.values_ix = [j for j, (n, t) in enumerate(self.fields) if t is not None and 'HashMap<' in M.p.types[t]['s'] and 'Mutex' not in M.p.types[t]['s']]

    def states(self, role, K=1, extra=None):
        """abstract paths of one method, over an extractor in an unknown state"""
        X = {SCALAR: pure_boundary, 'BodyContext::set_value': boundary, 'EventParser::parse': boundary}
        X.update(extra or {})
        fi = self.fn[role]
        e = base.make(self.p, X)
        e.K = self.K = K
        self.self_ = e.params(fi)[0]
        me = T('deref', self.self_[1])
        st = State()
        over = []
        for j in self.slots:
            t = self.p.types[self.fields[j][1]]
            a = T('fld', me, 0, j)
            TTY.setdefault(a, self.fields[j][1])
            es = []
            for i in range(t['n']):
                x = T('elem', a, i)
                TTY.setdefault(x, t['t'])
                es.append(('e', ('s', x)))
            over.append((j, ('v', tuple(es))))
        self.me = me
        self.over = dict(over)
        if over:
            st.mem[('z', self.self_[1])] = ('a', self.ty, 0, me, tuple(over))
        r = e.run(fi, None, st)
        self.ctx.engine_stats(e)
        return fi, e, r

    def after(self, e, st, j):
        return e.snap(st, getf(e.deref(st, self.self_), 0, j), 12)

    def before(self, j):
        return self.over.get(j) or ('s', T('fld', self.me, 0, j))

    def run(self):
        self.feeding()
        if 'end' in self.fn:
            self.values('end')
        if 'take' in self.fn:
            self.taking()
        if 'missing' in self.fn:
            self.lacking()
        if 'put' in self.fn:
            self.putting()
        if self.streaming():
            self.slot()
        elif any('acutejson' in self.p.types[t]['s'] for n, t in self.fields if t is not None):
            self.registration()

    def streaming(self):
        return any(t is not None and 'EventParser' in self.p.types[t]['s'] for n, t in self.fields)

    # -------------------------------------------------------------- feed
    def feeding(self):
        p, ctx, name = self.p, self.ctx, self.name
        used = self.used()
        fi, e, states = self.states('feed', K=2)
        chunk = strip(e.params(fi)[1])
        flags = set()
        n = 0
        for st in states:
            tr = lambda: trace_text(e, st)
            sinks = []
            bad = None
            for ev in st.events():
                if ev.kind == 'call' and matches(ev.path, SINKS):
                    got = canon_bytes(ev.args[1])
                    if got == chunk:
                        sinks.append(ev)
                    else:
                        bad = got
            for j, (fn, ft) in enumerate(self.fields):
                if ft is None or not (is_bytes(p, ft) or p.types[ft]['s'].endswith('string::String')):
                    continue
                a, b = flat(e, st, self.after(e, st, j)), flat(e, st, self.before(j))
                if a != b:
                    if a == b + flat(e, st, chunk):
                        sinks.append(None)
                    else:
                        bad = self.after(e, st, j)
            ctx.oblige(bad is None, name + ' feeds another chunk', '%s passes on %s instead of the chunk\n%s' % (p.where(fi), e.show(bad) if bad else '', tr()))
            res = variant_of(e, st, st.result, TTYRET(p, fi)) if TTYRET(p, fi) is not None else None
            for j, (fn, ft) in enumerate(self.fields):
                if ft is not None and p.types[ft]['k'] == 'bool' and e.snap(st, self.after(e, st, j)) == C(1) and e.known(st, T('fld', self.me, 0, j)) != 1:
                    done = [s for s in sinks if s is not None and said_done(e, st, s)]
                    ctx.oblige(bool(done), name + ' complete early', '%s sets %s although the extraction did not say it is done\n%s' % (p.where(fi), fn, tr()))
            over = any(ft is not None and p.types[ft]['k'] == 'bool' and e.known(st, T('fld', self.me, 0, j)) == 1 for j, (fn, ft) in enumerate(self.fields))
            ctx.oblige(len(sinks) == 1 or not sinks and (over or res == 'Err'), name + ' chunk', '%s takes the chunk in %d times\n%s' % (p.where(fi), len(sinks), tr()))
            for s in sinks:
                if s is not None and res is not None:
                    f = failed_call(e, st, s)
                    ctx.oblige(f is not True or res == 'Err', name + ' error hidden', '%s says Ok although the chunk was rejected\n%s' % (p.where(fi), tr()))
            if used is not None:
                v = self.after(e, st, used)
                k = TERMS[v[1]] if v[0] == 's' else ('',)
                good = k[0] == 'Add' and (is_len(k[2], chunk) and strip(k[1]) == self.before(used) or is_len(k[1], chunk) and strip(k[2]) == self.before(used))
                ctx.oblige(good or res == 'Err', name + ' count', '%s counts %s bytes as used\n%s' % (p.where(fi), e.show(v), tr()))
            n += 1
            if self.slots:
                self.shift(fi, e, st, sinks, res)
        ctx.floor(name + ' feeding paths', n, 1)

    def used(self):
        """field that says how many bytes have been used, None if none are kept"""
        if 'used' not in self.fn:
            return None
        fi, e, states = self.states('used')
        vs = {strip(e.snap(st, st.result)) for st in states}
        if vs == {C(0)}:
            return None
        v = list(vs)[0]
        k = TERMS[v[1]] if v[0] == 's' else ('',)
        if len(vs) != 1 or k[0] != 'fld' or k[1] != self.me:
            raise AnalysisError('%s is of unknown shape' % self.p.where(fi))
        return k[3]

    def shift(self, fi, e, st, sinks, res):
        """the last events are kept, newest first"""
        j = self.slots[0]
        old = [s[1] for s in self.over[j][1]]
        new = self.after(e, st, j)
        got = []
        for s in sinks:
            if s is None or failed_call(e, st, s):
                continue
            ok = getf(s.ret, 0, 0)
            n, ex = count(st, ok)
            if not ex and n < self.K:
                ctx = self.ctx
                ctx.oblige(False, self.name + ' last events', '%s does not look at every event\n%s' % (self.p.where(fi), trace_text(e, st)))
                return
            got = [('s', T('elem', ok[1], i)) for i in range(n)]
        want = [x for x in reversed(got)][:len(old)] + old[:max(0, len(old) - len(got))]
        have = [unsome(e, s[1]) for s in new[1]] if new[0] == 'v' and all(s[0] == 'e' for s in new[1]) else None
        ctx = self.ctx
        ctx.oblige(have is not None and [strip(x) for x in have] == [strip(x) for x in want], self.name + ' last events', '%s keeps %s after %d events\n%s' % (self.p.where(fi), e.show(new), len(got), trace_text(e, st)))
        self.M.n['shift'] = self.M.n.get('shift', 0) + 1

    def slot(self):
        """the fields come from the event before the last one"""
        p, ctx = self.p, self.ctx
        role = 'end' if 'end' in self.fn else 'take'
        fi, e, states = self.states(role)
        n = 0
        for st in states:
            for ev in st.events():
                if ev.kind == 'call' and 'serde_json' in ev.path and 'from_' in ev.path:
                    n += 1
                    x = ('s', T('elem', T('fld', self.me, 0, self.slots[0]), 1))
                    ctx.oblige(mentions(ev.args[0], x), self.name + ' event', '%s reads the fields of %s' % (p.where(fi), e.show(ev.args[0])))
        ctx.floor(self.name + ' events read', n, 1)

    # -------------------------------------------------------------- results
    def values(self, role):
        """each value goes under the field it was found for"""
        p, ctx, name = self.p, self.ctx, self.name
        fi, e, states = self.states(role, K=2)
        n = 0
        j = self.values_ix[0]
        for st in states:
            v = self.after(e, st, j)
            for s in (v[1] if v[0] == 'm' else ()):
                if s[0] != 'kv':
                    continue
                n += 1
                key, val = canon_bytes(s[1]), strip(s[2])
                ctx.oblige(self.found_for(e, st, key, val), name + ' value of another field', '%s stores %s for %s\n%s' % (p.where(fi), e.show(val), e.show(key), trace_text(e, st)))
        ctx.floor(name + ' values stored', n, 1)

    def found_for(self, e, st, key, val):
        if key[0] == 's' and TERMS[key[1]][0] == 'key':
            m, i = TERMS[key[1]][1:3]
            if not mentions(val, ('s', T('val', m, i))):
                return False
            return any(TERMS[t][0] == 'haskey' and f == ('=', 1) and canon_bytes(TERMS[t][2]) == key for t, f in st.facts.items())
        hits = [ev for ev in st.events() if ev.kind == 'call' and ev.path.endswith('Value::pointer') and canon_bytes(ev.args[1]) == key]
        return any(mentions(val, h.ret) for h in hits)

    def taking(self):
        p, ctx = self.p, self.ctx
        fi, e, states = self.states('take')
        want = strip(e.params(fi)[1])
        n = 0
        for st in states:
            if variant_of(e, st, st.result, TTYRET(p, fi)) == 'Some':
                n += 1
                v = getf(e.snap(st, st.result, 10), 1, 0)
                hits = [ev for ev in st.events() if ev.kind == 'call' and ev.path.endswith('Value::pointer') and canon_bytes(ev.args[1]) == want and mentions(v, ev.ret)]
                ctx.oblige(bool(hits), self.name + ' value of another field', '%s returns %s for %s\n%s' % (p.where(fi), e.show(v), e.show(want), trace_text(e, st)))
        ctx.floor(self.name + ' values returned', n, 1)

    def lacking(self):
        """the fields reported missing are the wanted ones without a value"""
        p, ctx = self.p, self.ctx
        fi, e, states = self.states('missing', K=2)
        seq = T('fld', self.me, 0, self.fields_ix[0])
        j = self.values_ix[0]
        full = 0
        for st in states:
            n, ex = count(st, ('s', seq))
            if not ex and n < e.K:
                ctx.oblige(False, self.name + ' missing', '%s does not look at every wanted field\n%s' % (p.where(fi), trace_text(e, st)))
                continue
            v = e.snap(st, st.result, 8)
            got = [canon_bytes(s[1]) for s in v[1] if s[0] == 'e'] if v[0] == 'v' else None
            want = []
            for i in range(n):
                el = ('s', T('elem', seq, i))
                has = {f[1] for t, f in st.facts.items() if TERMS[t][0] == 'haskey' and f[0] == '=' and canon_bytes(TERMS[t][2]) == el}
                if has == {0}:
                    want.append(el)
                elif has != {1}:
                    want.append(None)
            full += 1
            ctx.oblige(got is not None and got == want, self.name + ' missing', '%s reports %s as missing\n%s' % (p.where(fi), e.show(v), trace_text(e, st)))
        ctx.floor(self.name + ' answers about missing fields', full, 4)

    def putting(self):
        p, ctx = self.p, self.ctx
        fi, e, states = self.states('put', K=2)
        m = T('fld', self.me, 0, self.values_ix[0])
        body = strip(e.params(fi)[1])
        k = 0
        for st in states:
            n, ex = count(st, ('s', m))
            sets = [ev for ev in st.events() if ev.kind == 'call' and ev.path.endswith('BodyContext::set_value')]
            want = {(('s', T('key', m, i)), ('s', T('val', m, i))) for i in range(n)}
            got = {(canon_bytes(ev.args[1]), canon_bytes(ev.args[2])) for ev in sets}
            k += n
            ctx.oblige(got == want and (ex or n >= e.K) and all(self_chain(ev.args[0])[1] == body for ev in sets), self.name + ' values put', '%s puts %d of %d values into the body\n%s' % (p.where(fi), len(got), n, trace_text(e, st)))
        ctx.floor(self.name + ' values put', k, 2)

    # -------------------------------------------------------------- how found bytes reach the buffers
    def registration(self):
        """what the JSON parser reports for a field is appended to that field's own bytes and marks only that field as found"""
        p, ctx, name = self.p, self.ctx, self.name
        n = 0
        for i, f in enumerate(p.fns):
            if f['b'] is None or not f['l'] or f.get('ti') or not f['p'].startswith(self.h + '::') or '{closure' in f['p']:
                continue
            ret = f['b']['ls'][0][0]
            x = p.types[ret]
            wrapped = x['k'] == 'adt' and x['p'].endswith('result::Result')
            if (x['a'][0] if wrapped else ret) != self.ty:
                continue
            e = base.make(p)
            e.K = 2
            for st in run_all(ctx, e, i):
                if wrapped and variant_of(e, st, st.result, ret) != 'Ok':
                    continue
                me = getf(st.result, 0, 0) if wrapped else st.result
                regs = [ev for ev in st.events() if ev.kind == 'call' and ev.path.endswith('Builder::register')]
                c, ex = count(st, e.params(i)[0])
                keys = [canon_bytes(ev.args[1]) for ev in regs]
                want = [('s', T('elem', e.params(i)[0][1], k)) for k in range(c)]
                ctx.oblige(keys == want and (ex or c >= e.K), name + ' registers', '%s registers %s\n%s' % (p.where(i), [e.show(k) for k in keys], trace_text(e, st)))
                for j, v in ((j, e.snap(st, getf(me, 0, j))) for j in self.fields_ix):
                    ctx.oblige(canon_bytes(v) == canon_bytes(e.params(i)[0]), name + ' wanted fields', '%s keeps %s as the wanted fields' % (p.where(i), e.show(v)))
                if not regs or len(regs) > 2 or len(regs) == 2 and 1 in (e.known(st, T('eq', keys[0], keys[1])), e.known(st, T('eq', keys[1], keys[0]))):
                    continue        # the same field twice: there is one buffer
                for k, ev in enumerate(regs):
                    u8s = sym('param', 'found', i)
                    fn = ev.raw[2]
                    for s2 in invoke(e, st, fn, [u8s, sym('param', 'last', i)]):
                        n += 1
                        self.reported(i, e, st, s2, me, keys, k, u8s)
                        again = sym('param', 'found next', i)
                        for s3 in invoke(e, s2, fn, [again, sym('param', 'last', i)]):
                            self.reported(i, e, s2, s3, me, keys, k, again)
        ctx.floor(name + ' reports of found bytes', n, 3)

    def reported(self, i, e, st, s2, me, keys, k, found):
        ctx, p = self.ctx, self.p
        for j, (fn, ft) in enumerate(self.fields):
            s = p.types[ft]['s'] if ft is not None else ''
            if 'Mutex' not in s:
                continue
            a, b = locked(e, st, getf(me, 0, j)), locked(e, s2, getf(me, 0, j))
            if 'HashMap' in s:
                for x, key in enumerate(keys):
                    va, vb = a.get(key), b.get(key)
                    if va is None or vb is None:
                        ok = False
                    elif x == k:
                        ok = flat(e, s2, vb) == flat(e, st, va) + flat(e, s2, found)
                    else:
                        ok = va == vb
                    ctx.oblige(ok, self.name + ' bytes of a field', '%s: bytes found for %s leave %s for %s' % (p.where(i), e.show(keys[k]), e.show(vb) if vb else 'nothing', e.show(key)))
            elif 'HashSet' in s:
                ctx.oblige(set(b) == set(a) | {keys[k]}, self.name + ' field found', '%s: bytes found for %s mark %s as found' % (p.where(i), e.show(keys[k]), [e.show(x) for x in b]))


def locked(e, st, v):
    """{key: value} of the map (or set) behind a lock"""
    v = e.snap(st, v, 12)
    for _ in range(6):
        v = strip(v)
        if v[0] == 'm':
            return {canon_bytes(s[1]): (s[2] if len(s) > 2 else None) for s in v[1] if s[0] in ('kv', 'e')}
        if v[0] == 'v':
            return {canon_bytes(s[1]): None for s in v[1]}
        if v[0] != 'a' or not v[4]:
            break
        v = v[4][0][1]
    raise AnalysisError('a locked map of unknown shape: ' + e.show(v))


def is_len(v, what):
    v = strip(v)
    k = TERMS[v[1]] if v[0] == 's' else ('',)
    return k[0] == 'len' and canon_bytes(k[1] if isinstance(k[1], tuple) else ('s', k[1])) == what


def TTYRET(p, fi):
    t = p.fns[fi]['b']['ls'][0][0]
    return t if p.types[t]['k'] == 'adt' else None


def unsome(e, v):
    v = strip(v)
    if v[0] == 'a' and v[2] is not None and e.p.types[v[1]]['p'].endswith('option::Option') and v[4]:
        return v[4][0][1]
    return v


def said_done(e, st, ev):
    ok = getf(ev.ret, 0, 0)
    rty = TTY.get(ev.ret[1])
    aty = [v for v in e.p.types[rty]['v'] if v[0] == 'Ok'][0][2][0][1] if rty is not None else None
    return aty is not None and e.p.types[aty]['k'] == 'adt' and variant_of(e, st, ok, aty) == 'Done'


def flat(e, st, v):
    """a byte string or text as the list of what it is put together from"""
    v = strip(v)
    if v[0] == 'v':
        q = canon(e, st, v)
        out = []
        for x in q:
            if x[0] == 'all':
                out += flat(e, st, ('s', x[1]))
            else:
                out.append(x)
        return out
    if v[0] == 's':
        k = TERMS[v[1]]
        if k[0] == 'cat':
            return flat(e, st, k[1]) + flat(e, st, k[2])
        if k[0] == 'deref':
            return flat(e, st, ('s', k[1]))
    return [v]


# ------------------------------------------------------------------ the event stream
LINE = 'sse_line_parser::line'
ADD, DISPATCH_EV = 'EventBuilder::add', 'EventBuilder::dispatch'


def events(M):
    """the text kept is the text there was plus the whole chunk, minus the complete lines, each of which went into an event"""
    p, ctx = M.p, M.ctx
    fi = p.find1('EventParser::parse')
    e = base.make(p, {LINE: boundary, ADD: boundary, DISPATCH_EV: boundary, 'Utf8Error::error_len': pure_boundary, 'Utf8Error::valid_up_to': pure_boundary})
    ty = p.types[p.fns[fi]['b']['ls'][1][0]]['t']
    me = T('deref', e.params(fi)[0][1])
    fields = p.types[ty]['v'][0][2]
    store = [(j, T('fld', me, 0, j), p.types[t]['s'].endswith('string::String')) for j, (n, t) in enumerate(fields) if t is not None and (is_bytes(p, t) or p.types[t]['s'].endswith('string::String'))]
    text = [j for j, t, s in store if s]
    if len(text) != 1:
        raise AnalysisError('the event parser keeps %d texts' % len(text))
    done_ix = done_field(p)
    chunk = strip(e.params(fi)[1])
    n = dict(ok=0, lines=0, events=0)
    rty = p.fns[fi]['b']['ls'][0][0]
    for st in run_all(ctx, e, fi):
        tr = lambda: trace_text(e, st)
        res = variant_of(e, st, st.result, rty)
        evs = [ev for ev in st.events() if ev.kind == 'call']
        lines = [ev for ev in evs if matches(ev.path, (LINE,))]
        order = [ev for ev in evs if matches(ev.path, (LINE, ADD, DISPATCH_EV))]
        whole = [('s', t) for j, t, s in store if not s] + [chunk]
        old = ('s', T('fld', me, 0, text[0]))
        rejected = None
        cur = None              # the text still to be read
        last = None
        i = 0
        while i < len(order):
            ev = order[i]
            i += 1
            if not matches(ev.path, (LINE,)):
                ctx.oblige(False, 'event stream step', '%s: %s without a line\n%s' % (p.where(fi), ev.path, tr()))
                break
            given = flat(e, st, ev.args[0])
            if cur is None:
                first = given
                ok = given == [old] + whole or received(e, st, given, old, whole)
                ctx.oblige(ok, 'text of the chunk', '%s looks for lines in %s after %s came in\n%s' % (p.where(fi), [e.show(x) for x in given], e.show(chunk), tr()))
            else:
                ctx.oblige(remainder(e, given) == cur, 'text left', '%s goes on with %s instead of the rest of the text\n%s' % (p.where(fi), [e.show(x) for x in given], tr()))
            n['lines'] += 1
            last = ev
            lty = TTY.get(ev.ret[1])
            vn = variant_of(e, st, ev.ret, lty) if lty is not None else None
            if vn != 'Ok':
                inner = err_kind(e, st, ev, lty)
                if inner != 'Incomplete':
                    rejected = ev
                if cur is None:
                    cur = given
                break
            pair = getf(ev.ret, 0, 0)
            cur = [strip(getf(pair, 0, 0))]
            if not (i < len(order) and matches(order[i].path, (ADD,)) and strip(order[i].args[1]) == strip(getf(pair, 0, 1))):
                ctx.oblige(False, 'line lost', '%s does not add the line it read to the event\n%s' % (p.where(fi), tr()))
                break
            add = order[i]
            i += 1
            d = i < len(order) and matches(order[i].path, (DISPATCH_EV,))
            full = complete_fact(e, st, add, done_ix)
            ctx.oblige(full == (1 if d else 0), 'event completed', '%s %s the event although it is%s known to be complete\n%s' % (p.where(fi), 'takes' if d else 'leaves', '' if full else ' not', tr()))
            if d:
                i += 1
        if res == 'Err':
            ok = rejected is not None or invalid(e, st, [('s', t) for j, t, s in store if not s] + [chunk])
            ctx.oblige(ok, 'chunk rejected', '%s rejects a chunk that need not be malformed: it may end within a character\n%s' % (p.where(fi), tr()))
            continue
        n['ok'] += 1
        me2 = e.deref(st, e.params(fi)[0])
        left = flat(e, st, e.snap(st, getf(me2, 0, text[0]), 12))
        kept = sum((flat(e, st, e.snap(st, getf(me2, 0, j), 12)) for j, t, s in store if not s), [])
        if last is None:
            ok = conserve(e, left, kept, [old] + whole)
            ctx.oblige(ok, 'text kept', '%s keeps %s of what came in\n%s' % (p.where(fi), [e.show(x) for x in left + kept], tr()))
            ctx.oblige(is_empty(e, st, left), 'text not read', '%s returns without looking for lines\n%s' % (p.where(fi), tr()))
        else:
            ok = remainder(e, left) == cur and (conserve(e, first, kept, [old] + whole))
            ctx.oblige(ok, 'text kept', '%s keeps %s of what came in\n%s' % (p.where(fi), [e.show(x) for x in left + kept], tr()))
            lty = TTY.get(last.ret[1])
            ctx.oblige(variant_of(e, st, last.ret, lty) != 'Ok' or is_empty(e, st, left), 'stops early', '%s returns although more complete lines may be there\n%s' % (p.where(fi), tr()))
        want = []
        for ev in evs:
            if matches(ev.path, (DISPATCH_EV,)):
                vn = variant_of(e, st, ev.ret, TTY.get(ev.ret[1]))
                if vn == 'Some':
                    want.append(strip(getf(ev.ret, 1, 0)))
        got = e.snap(st, getf(st.result, 0, 0), 8)
        have = [strip(s[1]) for s in got[1]] if got[0] == 'v' and all(s[0] == 'e' for s in got[1]) else None
        n['events'] += len(want)
        ctx.oblige(have == want, 'events returned', '%s returns %s for %d events\n%s' % (p.where(fi), e.show(got), len(want), tr()))
    ctx.floor('chunks taken by the event parser', n['ok'], 20)
    ctx.floor('lines read by the event parser', n['lines'], 40)
    ctx.floor('events of the event parser', n['events'], 20)


def done_field(p):
    ty = p.adt('sse_body_parser::EventBuilder')
    ix = [j for j, (n, t) in enumerate(p.types[ty]['v'][0][2]) if t is not None and p.types[t]['k'] == 'bool']
    if len(ix) != 1:
        raise AnalysisError('the event builder has %d flags' % len(ix))
    return ix[0]


def complete_fact(e, st, add, ix):
    """what the path found out about the event builder after this line went in"""
    out = set()
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'fld' and k[3] == ix and f[0] == '=' and TERMS[k[1]][0] == 'mut' and TERMS[k[1]][1].endswith(ADD) and strip(TERMS[k[1]][3]) == strip(add.args[0]):
            out.add(f[1])
    return list(out)[0] if len(out) == 1 else None


def err_kind(e, st, ev, lty):
    er = [i for i, v in enumerate(e.p.types[lty]['v']) if v[0] == 'Err'][0]
    x = getf(ev.ret, er, 0)
    return variant_of(e, st, x, e.p.types[lty]['v'][er][2][0][1])


def split_of(x):
    """(what is split, 'pre' or 'suf', where) for one side of a text or list cut in two"""
    if x[0] != 's':
        return None
    k = TERMS[x[1]]
    if k[0] == 'mut' and k[1].endswith('split_off'):
        return strip(k[3]), 'pre', None
    if k[0] == 'call' and k[1].endswith('split_off'):
        return strip(k[2][0]), 'suf', k[2][1]
    return None


def conserve(e, text, kept, whole):
    """text followed by what is kept back is everything there was"""
    t, k = list(text), list(kept)
    if t and k:
        a, b = split_of(t[-1]), split_of(k[0])
        if a and b and a[0] == b[0] and a[1] == 'pre' and b[1] == 'suf':
            mid = flat_plain(a[0])
            return t[:-1] + mid + k[1:] == whole
    return t + k == whole


def flat_plain(v):
    v = strip(v)
    if v[0] == 'v':
        return [strip(('s', s[1])) if s[0] == 'rest' and s[2] == 0 else s[1] for s in v[1]]
    return [v]


def received(e, st, given, old, whole):
    """the text looked at is the old text and the decoded part of what came in: the rest is checked at the end of the path"""
    if not given or given[0] != old:
        return False
    rest = given[1:]
    if len(rest) == 1 and split_of(rest[0]) and split_of(rest[0])[1] == 'pre':
        return flat_plain(split_of(rest[0])[0]) == whole
    return rest == whole


def remainder(e, xs):
    """a text cut off at `its length minus the length of the rest` is the rest"""
    if len(xs) != 1:
        return xs
    s = split_of(xs[0])
    if s and s[1] == 'suf':
        at = s[2]
        k = TERMS[at[1]] if at[0] == 's' else ('',)
        if k[0] == 'Sub' and strip(k[1]) == ('s', TIX.get(('len', s[0]), -1)):
            r = TERMS[strip(k[2])[1]] if strip(k[2])[0] == 's' else ('',)
            if r[0] == 'len':
                return [strip(r[1])]
    x = canon_bytes(xs[0])
    return [x]


def is_empty(e, st, xs):
    """the path knows the text to be empty"""
    if not xs:
        return True
    z = Zone(e, st)
    if all(z.le(('s', T('len', x)), C(0)) for x in xs):
        return True
    want = remainder(e, xs)
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'len' and f == ('=', 0):
            x = k[1] if isinstance(k[1], tuple) else ('s', k[1])
        elif f == ('=', ''):
            x = ('s', t)
        else:
            continue
        if flat(e, st, x) in (xs, want) or remainder(e, flat(e, st, x)) == want:
            return True
    return False


def invalid(e, st, whole):
    """the path knows the bytes to be no text at all, whatever follows them"""
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] != 'isutf8' or f != ('=', 0):
            continue
        x = strip(k[1])
        s = split_of(x)
        if s and s[1] == 'pre':
            return True         # the part before the first error is text: this path does not happen
        for t2, f2 in st.facts.items():
            k2 = TERMS[t2]
            if k2[0] == 'disc' and f2[0] == '=' and f2[1] == 1:
                c = TERMS[k2[1]]
                if c[0] == 'call' and c[1].endswith('Utf8Error::error_len') and term_mentions(k2[1], lambda q: q[0] == 'utf8err' and strip(q[1]) == x, 8):
                    return True
    return False


# ------------------------------------------------------------------ the line grammar
def grammar(M):
    """a line is recognised by parsers that ask for more input whenever more input could change the answer"""
    p, g, ctx = M.p, M.ctx.g, M.ctx
    fi = p.find1(LINE)
    n = 0
    for i in sorted(g.reach(fi)):
        f = p.fns[i]
        if not f['l']:
            continue
        ctx.cov['functions_analysed'].add(f['p'])
        for s in g.sites.get(i, ()):
            path = g.path_of(s.callee) if s.callee is not None else None
            if not path:
                continue
            if '::streaming::' in path:
                n += 1
            bad = '::complete::' in path or path.endswith(('combinator::complete', 'combinator::eof', 'combinator::rest', 'combinator::all_consuming'))
            ctx.oblige(not bad, 'line grammar ' + path.split('::')[-1], '%s uses %s: the end of a chunk would be taken for the end of a line' % (p.where(i, s.line), path))
    ctx.floor('streaming parsers of the line grammar', n, 5)
