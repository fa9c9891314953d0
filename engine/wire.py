"""Which configuration field ends up in which field of a compiled action, and which of those in which field of a task --
read off the abstract results of Blueprint::compile and Blueprint::to_tasks."""
from .acts import *
from .blue import flow, elems, inner_aggs, root_elem

COMPILED = ('cel::Expression::new', 'cel::Predicate::new')


def ptype(p, ty):
    while ty is not None and p.types[ty]['k'] == 'ref':
        ty = p.types[ty]['t']
    return ty


def names(p, v, stop):
    """(base term, 'a.B.c' field names) of a value read from a struct whose type name is `stop`"""
    v = strip(v)
    t = v[1] if v[0] == 's' else None
    out = []
    while t is not None:
        k = TERMS[t]
        if out and p.is_adt(ptype(p, TTY.get(t)), stop):
            return t, '.'.join(x for x in reversed(out) if x)
        if k[0] == 'fld':
            ty = ptype(p, TTY.get(k[1]))
            if ty is None and TERMS[k[1]][0] == 'deref':
                ty = ptype(p, TTY.get(TERMS[k[1]][1]))
            if ty is None or p.types[ty]['k'] != 'adt' or not isinstance(k[2], int) or k[2] >= len(p.types[ty]['v']) or not isinstance(k[3], int):
                out.append('?%s' % (k[3],))
            else:
                vn, _d, fs = p.types[ty]['v'][k[2]]
                n = fs[k[3]][0] if k[3] < len(fs) else '?'
                out.append('' if n.isdigit() else n)
                if len(p.types[ty]['v']) > 1:
                    out.append(vn)
            t = k[1]
        elif k[0] == 'deref':
            t = k[1]
        else:
            return None
    return None


def source(e, st, v):
    """how a value of a compiled action was made from the typed action: (how, typed action term, field names) or None"""
    p = e.p
    v = strip(e.snap(st, v)) if v[0] == 'r' else strip(v)
    n = names(p, v, 'configuration::TypedAction')
    if n is not None:
        return ('copy',) + n
    if v[0] == 's':
        k = TERMS[v[1]]
        if k[0] == 'fld' and TERMS[k[1]][0] == 'call' and matches(TERMS[k[1]][1], COMPILED):
            c = TERMS[k[1]]
            n = names(p, c[2][0], 'configuration::TypedAction')
            return ('compiled',) + n if n is not None else None
        if k[0] == 'fld':
            b = k[1]
            while TERMS[b][0] in ('fld', 'deref'):
                b = TERMS[b][1]
            if TERMS[b][0] == 'mapget':
                n = names(p, ('s', TERMS[b][2]) if isinstance(TERMS[b][2], int) else TERMS[b][2], 'configuration::TypedAction')
                return ('lookup',) + n if n is not None else None
        return None
    if v[0] == 'a' and v[1] is not None and v[3] is None:
        # an enum chosen by an enum of the configuration, or a wrapper around parts of one source
        got = {source(e, st, x) for _i, x in v[4]}
        if len(got) == 1 and None not in got:
            return got.pop()
        if not v[4] and len(p.types[v[1]]['v']) > 1:
            return ('variant', None, p.types[v[1]]['v'][v[2]][0])
    return None


class Wires:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        F = self.F = flow(ctx)
        p, e = self.p, F.C.e
        self.op = F.action_op()
        self.opty = p.types[F.act]['v'][0][2][self.op][1]
        self.comp = {}          # part of a compiled action -> {(how, configuration field)}
        self.mixed = []         # compiled actions with parts of several typed actions
        self.head = {}          # (state, action) -> (operation variant, typed action)
        self.states = []
        for st, a in F.compiled:
            if a[0] != 'a':
                continue
            roots = set()
            parts = {}
            for i, v in a[4]:
                if i == self.op:
                    if v[0] != 'a' or v[2] is None:
                        continue
                    vn = p.types[self.opty]['v'][v[2]][0]
                    for j, x in v[4]:
                        parts[(vn, j)] = (x, source(e, st, x))
                else:
                    parts[('', i)] = (v, source(e, st, v))
            for k, (v, s) in parts.items():
                if s is not None:
                    self.comp.setdefault(k, set()).add((s[0], s[2]) if s[0] != 'variant' else ('variant', ''))
                    if s[1] is not None:
                        roots.add(s[1])
                else:
                    self.comp.setdefault(k, set()).add(None)
            if len(roots) > 1:
                self.mixed.append((st, a, roots))
            self.states.append((st, a, parts))
        self.e = e

    def part(self, how, cfg):
        """the part of a compiled action made from this configuration field"""
        return {k for k, s in self.comp.items() if (how, cfg) in s}

    def task_fields(self):
        """{(task type, field): {part of the compiled action}} and the actions each task was built from"""
        p, e = self.p, self.F.B.e
        out, mixed, per = {}, [], []
        for st, t, inner in self.F.tasks:
            for a in inner:
                roots = set()
                got = {}
                for i, v in a[4]:
                    q = self.action_part(e.snap(st, v) if v[0] == 'r' else v)
                    if q is not None:
                        roots.add(q[0])
                        out.setdefault((p.head(a[1]), i), set()).add(q[1])
                        got[i] = q
                if len(roots) > 1:
                    mixed.append((st, a, roots))
                per.append((st, a, got))
        return out, mixed, per

    def action_part(self, v):
        """(action term, part) of a value read from a compiled action"""
        p = self.p
        v = strip(eta(p, v))
        t = v[1] if v[0] == 's' else None
        chain = []
        while t is not None:
            k = TERMS[t]
            ty = ptype(p, TTY.get(t))
            if chain and (p.is_adt(ty, 'blueprint::Action') or k[0] == 'elem' and ty is None):
                break
            if k[0] == 'fld':
                chain.append((k[2], k[3]))
                t = k[1]
            elif k[0] == 'deref':
                t = k[1]
            else:
                return None
        else:
            return None
        chain.reverse()
        if chain[0][1] == self.op:
            if len(chain) < 2 or not isinstance(chain[1][0], int):
                return None
            return t, (p.types[self.opty]['v'][chain[1][0]][0], chain[1][1])
        return t, ('', chain[0][1])


def wires(ctx):
    if not hasattr(ctx, '_wires'):
        ctx._wires = Wires(ctx)
    return ctx._wires
