"""Whole-crate call graph over the MIR facts (closures, vtables, drops and fn pointers included)."""
from .core import *


def operands_of(x, out):
    """collect every constant operand's value dict under a json MIR fragment"""
    if isinstance(x, dict):
        if 'v' in x and 'k' in x:
            out.append(x['v'])
        for y in x.values():
            operands_of(y, out)
    elif isinstance(x, list):
        for y in x:
            operands_of(y, out)


def agg_closures(x, out):
    if isinstance(x, list):
        if len(x) == 4 and x[0] == 'agg' and x[2] == 'clo':
            out.append(x[1])
        for y in x:
            agg_closures(y, out)


class Site:
    __slots__ = ('fi', 'bb', 'callee', 'line', 'args', 'macro', 'argtys', 'destty', 'dest')

    def __init__(self, fi, bb, callee, line, args, macro, argtys, destty, dest):
        self.fi, self.bb, self.callee, self.line, self.args, self.macro, self.argtys, self.destty, self.dest = fi, bb, callee, line, args, macro, argtys, destty, dest


class Graph:
    def __init__(self, p):
        self.p = p
        self.by_ti = {}
        for i, f in enumerate(p.fns):
            ti = f.get('ti')
            if ti and f['b'] and f['l']:
                self.by_ti.setdefault(ti, []).append(i)
        self.edges = {}
        self.plain = {}      # the same without what runs while unwinding
        self.sites = {}      # caller -> [Site]
        self.rev = {}
        for i, f in enumerate(p.fns):
            if f['b'] is not None:
                self._scan(i, f)
        for i, es in self.edges.items():
            for j in es:
                self.rev.setdefault(j, set()).add(i)
        self._reach = {}
        self._size = {}
        self._loopy = {}

    def _callee(self, c):
        r = set()
        if 'f' in c:
            r.add(c['f'])
        elif 'virt' in c:
            r.update(self.by_ti.get(c['virt'], ()))
        elif 'unres' in c:
            r.update(self.by_ti.get(c['unres'], ()))
        return r

    def _scan(self, i, f):
        es = set()
        ss = []
        cl = []
        out = set()
        for bi, b in enumerate(f['b']['bb']):
            before, es = es, (set() if b.get('cl') else es)
            ops = []
            for s in b['s']:
                operands_of(s, ops)
                agg_closures(s, cl)
            t = b['t']
            operands_of(t, ops)
            for v in ops:
                self._val(v, es)
            if t[0] == 'call':
                fnop = t[1]
                c = fnop.get('v', {}).get('fn') if 'k' in fnop else None
                ss.append(Site(i, bi, c, t[6], t[2], t[7], t[9], t[8], t[3]))
            elif t[0] == 'drop':
                self._dropedges(t[2], es, set())
            if b.get('cl'):
                out |= es
                es = before
        for c in cl:
            ct = self.p.types[c]
            if ct.get('f') is not None:
                es.add(ct['f'])
        self.edges[i] = es | out
        self.plain[i] = es
        self.sites[i] = ss

    def _val(self, v, es):
        if not isinstance(v, dict):
            return
        if 'fn' in v:
            es.update(self._callee(v['fn']))
        if 'fp' in v:
            es.add(v['fp'])
        if 'clo' in v:
            ct = self.p.types[v['clo']]
            if ct.get('f') is not None:
                es.add(ct['f'])
        if 'ref' in v:
            self._val(v['ref'], es)
        if 'agg' in v:
            for x in v['agg'][1]:
                self._val(x, es)

    def _dropedges(self, ty, es, seen):
        if ty is None or ty in seen:
            return
        seen.add(ty)
        t = self.p.types[ty]
        if t.get('drop') is not None:
            es.add(t['drop'])
        if t['k'] == 'adt':
            for a in t['a']:
                self._dropedges(a, es, seen)
            for _n, _d, fs in t['v']:
                for _, x in fs:
                    self._dropedges(x, es, seen)
        elif t['k'] == 'tup':
            for x in t['ts']:
                self._dropedges(x, es, seen)
        elif t['k'] in ('slice', 'array'):
            self._dropedges(t['t'], es, seen)
        elif t['k'] == 'closure':
            for x in t['up']:
                self._dropedges(x, es, seen)

    # ---- queries
    def path_of(self, c):
        return self.p.fns[c['f']]['p'] if 'f' in c else c.get('virt') or c.get('unres')

    def reach_named(self, i, match, stop=None):
        """names matched by `match` among the call targets (and fn values) reachable from function i,
        not descending below functions for which stop(path) holds"""
        seen, st, out = set(), [i], {}
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.p.fns[x]
            if f['b'] is None:
                if match(f['p']):
                    out.setdefault(f['p'], x)
                continue
            if x != i and match(f['p']):
                out.setdefault(f['p'], x)
            if x != i and stop is not None and stop(f['p']):
                continue
            for s in self.sites.get(x, ()):
                if s.callee is not None:
                    pth = self.path_of(s.callee)
                    if match(pth):
                        out.setdefault(pth, x)
            st.extend(self.edges.get(x, ()))
        return out

    def reach(self, i):
        r = self._reach.get(i)
        if r is None:
            r = set()
            st = [i]
            while st:
                x = st.pop()
                if x in r:
                    continue
                r.add(x)
                st.extend(self.edges.get(x, ()))
            self._reach[i] = r
        return r

    def callers(self, i):
        return self.rev.get(i, set())

    def rreach(self, targets):
        r = set()
        st = list(targets)
        while st:
            x = st.pop()
            if x in r:
                continue
            r.add(x)
            st.extend(self.rev.get(x, ()))
        return r

    def calls_named(self, pred):
        """call sites whose callee path satisfies pred: [(Site, path)]"""
        out = []
        for i, ss in self.sites.items():
            for s in ss:
                c = s.callee
                if c is None:
                    continue
                path = self.p.fns[c['f']]['p'] if 'f' in c else c.get('virt') or c.get('unres')
                if pred(path, c):
                    out.append((s, path))
        return out

    def size(self, i):
        s = self._size.get(i)
        if s is None:
            seen, st = set(), [i]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st.extend(self.plain.get(x, ()))
            s = sum(len(self.p.fns[x]['b']['bb']) for x in seen if self.p.fns[x]['b'] is not None and self.p.fns[x]['l'])
            self._size[i] = s
        return s

    def root_fn(self, i):
        """closures belong to the function they are written in"""
        p = self.p.fns[i]['p']
        while '::{closure#' in p:
            p = p[:p.rindex('::{closure#')]
        r = self.p.by_path.get(p)
        return r[0] if r else i
