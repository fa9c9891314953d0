"""Disjunctive abstract interpreter over the MIR dumped by driver/driver.rs.

Values are provenance terms: what an abstract value *is* is which source expression (parameter,
field, call result, constant) it came from.  No concrete inputs, no solver: a branch is decided only
when the abstract store already fixes its discriminant, otherwise both outcomes are kept as separate
abstract states.  Collections of unknown contents are k-limited (0, 1 .. K distinct elements) and a
block is entered at most LOOP times per activation.
"""
import json, sys
sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


# ----------------------------------------------------------------- terms
TERMS = []
TIX = {}
TTY = {}
DTY = {}


def T(*k):
    i = TIX.get(k)
    if i is None:
        i = len(TERMS)
        TIX[k] = i
        TERMS.append(k)
    return i


def sym(*k):
    return ('s', T(*k))


def C(v):
    return ('c', v)


UNIT = ('a', None, 0, None, ())
TRUE, FALSE = C(1), C(0)


def is_sym(v):
    return v[0] == 's'


def term(v):
    return TERMS[v[1]] if v[0] == 's' else None


def const_of(v):
    return v[1] if v[0] == 'c' else None


# ----------------------------------------------------------------- program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.fns = d['fns']
        self.impls = d['impls']
        self.vt = {}
        self.vt_raw = d['vt']
        for v in d['vt']:
            m = self.vt.setdefault(v['from'], {})
            for ti, f in v['ms']:
                m[ti] = f
        self.by_path = {}
        for i, f in enumerate(self.fns):
            f['i'] = i
            self.by_path.setdefault(f['p'], []).append(i)
        self._adt = {}
        self._nd = {}

    def short(self, p):
        return p.replace('kuadrant_filter::', '')

    def find(self, suffix, local=True, must=True, body=True):
        """all functions whose path ends with `suffix` (on a path-segment boundary)"""
        r = []
        for p, ix in self.by_path.items():
            if p == suffix or p.endswith('::' + suffix) or (suffix.startswith('<') and p.endswith(suffix)):
                for i in ix:
                    f = self.fns[i]
                    if (not local or f['l']) and (not body or f['b']):
                        r.append(i)
        if must and not r:
            raise AnalysisError('anchor not found: %s' % suffix)
        return r

    def find1(self, suffix, **kw):
        r = self.find(suffix, **kw)
        if len(r) > 1:
            raise AnalysisError('anchor ambiguous: %s -> %s' % (suffix, [self.fns[i]['p'] for i in r]))
        return r[0] if r else None

    def trait_impls(self, trait_suffix, method):
        """[(self type head, fn idx)] of every local impl function of `Trait::method` with a body"""
        r = []
        for i, f in enumerate(self.fns):
            ti = f.get('ti')
            if f['l'] and f['b'] and ti and ti.endswith(trait_suffix + '::' + method) and f['p'] != ti:
                r.append((self.head(f.get('st')), i))
        return sorted(r)

    def ty(self, i):
        return self.types[i] if i is not None else None

    def head(self, i):
        t = self.ty(i)
        if t is None:
            return '?'
        k = t['k']
        if k == 'adt':
            return t['p']
        if k in ('ref', 'ptr'):
            return '&' + self.head(t['t'])
        if k == 'dyn':
            return 'dyn ' + t['p']
        if k == 'closure':
            return t['p']
        if k == 'slice':
            return '[%s]' % self.head(t['t'])
        return t['s']

    def is_adt(self, i, p):
        t = self.ty(i)
        return t is not None and t['k'] == 'adt' and (t['p'] == p or t['p'].endswith('::' + p))

    def variant_ix(self, ty, name):
        t = self.types[ty]
        for n, (vn, _d, _f) in enumerate(t['v']):
            if vn == name:
                return n
        raise AnalysisError('no variant %s in %s' % (name, t['s']))

    def field_ix(self, ty, name, variant=0):
        t = self.types[ty]
        for n, (fn, _t) in enumerate(t['v'][variant][2]):
            if fn == name:
                return n
        raise AnalysisError('no field %s in %s' % (name, t['s']))

    def adt(self, suffix):
        """type index of a (non generic) local adt"""
        if suffix in self._adt:
            return self._adt[suffix]
        for i, t in enumerate(self.types):
            if t['k'] == 'adt' and not t['a'] and (t['p'] == suffix or t['p'].endswith('::' + suffix)) and t.get('l'):
                self._adt[suffix] = i
                return i
        raise AnalysisError('type not found: ' + suffix)

    def types_where(self, pred):
        return [i for i, t in enumerate(self.types) if pred(t)]

    def interesting_drop(self, i, seen=None):
        """does dropping a value of this type run a local Drop impl or release a boxed dyn local trait?"""
        if i is None:
            return False
        if i in self._nd:
            return self._nd[i]
        seen = seen or set()
        if i in seen:
            return False
        seen.add(i)
        t = self.types[i]
        r = False
        if t['k'] == 'adt':
            if t.get('drop') is not None:
                r = True
            else:
                subs = list(t['a'])
                for _n, _d, fs in t['v']:
                    subs += [x for _, x in fs if x is not None]
                r = any(self.interesting_drop(x, seen) for x in subs)
                if t['p'].endswith('MutexGuard') or t['p'].endswith('EnteredSpan'):
                    r = True
        elif t['k'] == 'dyn':
            r = t['p'].startswith(self.crate) or 'FnOnce' in t['p']
        elif t['k'] == 'tup':
            r = any(self.interesting_drop(x, seen) for x in t['ts'])
        elif t['k'] in ('slice', 'array'):
            r = self.interesting_drop(t['t'], seen)
        elif t['k'] == 'closure':
            r = any(self.interesting_drop(x, seen) for x in t['up'])
        if len(seen) == 1 or r:
            self._nd[i] = r
        return r

    def where(self, fi, line=None):
        f = self.fns[fi]
        sp = f.get('sp') or ['?', 0]
        return '%s (%s:%s)' % (self.short(f['p']), sp[0], line if line else sp[1])


# ----------------------------------------------------------------- state
class Event:
    __slots__ = ('path', 'name', 'fi', 'args', 'raw', 'ret', 'site', 'line', 'stack', 'kind', 'extra')

    def __init__(self, kind, path, name, fi, args, raw, ret, site, line, stack, extra=None):
        self.kind, self.path, self.name, self.fi, self.args, self.raw, self.ret = kind, path, name, fi, args, raw, ret
        self.site, self.line, self.stack, self.extra = site, line, stack, extra

    def __repr__(self):
        return 'E(%s %s)' % (self.kind, self.path)


class Frame:
    __slots__ = ('fi', 'id', 'bb', 'si', 'dest', 'target', 'visits', 'native', 'log', 'nargs', 'line', 'nname', 'ctxt')

    def copy(self):
        f = Frame()
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        if f.visits is not None:
            f.visits = dict(f.visits)
        return f


class State:
    __slots__ = ('mem', 'frames', 'facts', 'trace', 'nid', 'ghost', 'result', 'note', 'uid')

    def __init__(self):
        self.mem, self.frames, self.facts, self.trace = {}, [], {}, None
        self.nid, self.ghost, self.result, self.note, self.uid = 0, {}, None, None, 0

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.nid, s.ghost, s.note, s.uid = self.nid, dict(self.ghost), self.note, self.uid
        return s

    def events(self):
        r = []
        t = self.trace
        while t is not None:
            r.append(t[0])
            t = t[1]
        r.reverse()
        return r


class Cut(Exception):
    """this abstract path is k-limited"""


class Infeasible(Exception):
    pass


class Fork(Exception):
    """raised with a list of functions applied to forked states"""

    def __init__(self, alts):
        self.alts = alts


def getf(v, variant, i):
    k = v[0]
    if k == 'a':
        for j, x in v[4]:
            if j == i:
                return x
        if v[3] is not None:
            return sym('fld', v[3], variant, i)
        return sym('undef')
    if k == 's':
        return sym('fld', v[1], variant, i)
    if k == 'r':
        return v
    if k == 'undef':
        return ('undef',)
    if k == 'c' and v[1] is None:
        return sym('undef')
    return sym('fldv', v, variant, i)


def setf(v, variant, i, nv):
    k = v[0]
    if k == 'a':
        ps = [(j, x) for j, x in v[4] if j != i]
        ps.append((i, nv))
        ps.sort(key=lambda p: p[0])
        return ('a', v[1], v[2], v[3], tuple(ps))
    if k == 's':
        return ('a', TTY.get(v[1]), variant, v[1], ((i, nv),))
    if k == 'undef':
        return ('a', None, variant, None, ((i, nv),))
    return ('a', None, variant, T('val', v), ((i, nv),))


# how much longer than n a list must be able to be for a comparison with n to come out either way
COMPARE = {'Lt': 0, 'Ge': 0, 'Le': 1, 'Gt': 1, 'Eq': 0, 'Ne': 0}
SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}
CUTTING = ('take', 'skip', 'nth', 'get', 'get_mut', 'truncate', 'chunks', 'windows', 'split_at', 'split_off', 'step_by')


class Engine:
    K = 2
    DEEPEST = 12        # elements enumerated at most because the program compares a count with a number
    floor = 0           # elements enumerated at least for that reason
    wanted = 0
    LENLIM = True
    LUMP = ()           # enums (path endings) whose other variants are kept together where the code does not tell them apart
    LENSPLIT = True
    KOF = None          # limit per sequence term
    LENCUT = False      # a path that establishes more elements than the limit stops
    CUR = None
    LOOP = 3
    RECUR = 2
    MAXDEPTH = 60
    MAXPATHS = 20000
    MAXSTEPS = 2000000
    STEPS = 1000000

    quiet_drops = ()       # local types whose Drop impl is recorded but not run

    def __init__(self, prog, models=None, prims=None, opaque=None):
        self.p = prog
        from . import models as M
        self.models = dict(M.MODELS)
        self.trait_models = dict(M.TRAIT_MODELS)
        if models:
            self.models.update(models)
        self.prims = prims or {}       # path suffix -> handler(engine, st, call) or None (opaque event)
        self.opaque = opaque or (lambda f: False)
        self.on_event = None
        self.on_assert = None       # (st, frame, terminator, condition, known truth)
        self.on_cast = None         # (st, frame, from, to, value) of numeric casts of unknown numbers
        self.on_arith = None        # (st, op, a, b, type) of checked arithmetic
        self.pure_virt = ('tasks::Task::is_guard', 'tasks::Task::id', 'tasks::Task::dependencies')   # getters on &self
        self.stats = {'paths': 0, 'cut': 0, 'steps': 0, 'infeasible': 0}
        self.fn_seen = set()
        self.unmodelled = {}
        self.cuts = set()
        self.cutsites = {}

    # ------------------------------------------------------------ memory
    def content(self, st, cell):
        v = st.mem.get(cell)
        if v is not None:
            return v
        if isinstance(cell, tuple):
            if cell[0] == 'k':
                return cell[1]
            if cell[0] == 'z':
                t = T('deref', cell[1])
                ty = TTY.get(cell[1])
                if ty is not None and t not in TTY:
                    tt = self.p.types[ty]
                    if tt['k'] in ('ref', 'ptr'):
                        TTY[t] = tt['t']
                    elif tt['k'] == 'adt' and tt['a'] and (tt.get('box') or tt['p'].endswith('::Arc') or tt['p'].endswith('::Rc')):
                        TTY[t] = tt['a'][0]
                return ('s', t)
            if cell[0] == 'st':
                return sym('static', cell[1])
        return ('undef',)

    def proj(self, st, v, pr):
        if pr[0] == 'f':
            r = getf(v, pr[1], pr[2])
            if r[0] == 's' and pr[3] is not None and r[1] not in TTY:
                TTY[r[1]] = pr[3]
            return r
        if pr[0] == 'sg':
            if v[0] == 'v' and pr[1] < len(v[1]) and v[1][pr[1]][0] == 'e':
                return v[1][pr[1]][1]
            return sym('sgv', v if v[0] != 's' else v[1], pr[1])
        if pr[0] == 'mv':
            if v[0] == 'm' and pr[1] < len(v[1]) and v[1][pr[1]][0] == 'kv':
                return v[1][pr[1]][2]
            return sym('mvv', v if v[0] != 's' else v[1], pr[1])
        if pr[0] == 'i':
            ix = pr[1]
            if v[0] == 'v' and ix[0] == 'c':
                segs = v[1]
                if ix[1] < len(segs) and all(s[0] == 'e' for s in segs[:ix[1] + 1]):
                    return segs[ix[1]][1]
                if len(segs) == 1 and segs[0][0] == 'rest':
                    return sym('elem', segs[0][1], segs[0][2] + ix[1])
            if v[0] == 's' and ix[0] == 'c':
                return sym('elem', v[1], ix[1])
            return sym('idx', v, ix)
        if pr[0] == 'ss':
            if v[0] == 'v' and all(s[0] == 'e' for s in v[1]):
                n = len(v[1])
                to = n - pr[2] if pr[3] else pr[2]
                return ('v', v[1][pr[1]:to])
            return sym('subslice', v, pr[1:])
        if pr[0] == 'mx':
            return getf(v, 0, 'mx')
        raise AnalysisError('proj %r' % (pr,))

    def load(self, st, cell, path):
        v = self.content(st, cell)
        for pr in path:
            v = self.proj(st, v, pr)
        return v

    def _upd(self, st, v, path, nv):
        if not path:
            return nv
        pr = path[0]
        if pr[0] == 'f':
            sub = ('undef',) if v[0] == 'undef' else getf(v, pr[1], pr[2])
            if v[0] == 'r':
                return v
            return setf(v, pr[1], pr[2], self._upd(st, sub, path[1:], nv))
        if pr[0] == 'mx':
            return setf(v, 0, 'mx', self._upd(st, getf(v, 0, 'mx'), path[1:], nv))
        if pr[0] in ('sg', 'i'):
            k = pr[1] if pr[0] == 'sg' else const_of(pr[1])
            if v[0] == 'v' and isinstance(k, int) and k < len(v[1]) and v[1][k][0] == 'e':
                segs = list(v[1])
                segs[k] = ('e', self._upd(st, segs[k][1], path[1:], nv))
                return ('v', tuple(segs))
            st.uid += 1
            return sym('mut', v, 'index', st.uid)
        if pr[0] == 'mv':
            if v[0] == 'm' and pr[1] < len(v[1]) and v[1][pr[1]][0] == 'kv':
                segs = list(v[1])
                segs[pr[1]] = ('kv', segs[pr[1]][1], self._upd(st, segs[pr[1]][2], path[1:], nv))
                return ('m', tuple(segs))
            st.uid += 1
            return sym('mut', v, 'mapval', st.uid)
        st.uid += 1
        return sym('mut', v, str(pr), st.uid)

    def store(self, st, cell, path, nv):
        if isinstance(cell, tuple) and cell[0] == 'k':
            # interior of an anonymous element: remember the mutation under the same key
            pass
        if not path:
            st.mem[cell] = nv
            return
        st.mem[cell] = self._upd(st, self.content(st, cell), path, nv)

    def new_cell(self, st, v):
        st.nid += 1
        c = ('h', st.nid)
        st.mem[c] = v
        return c

    def deref_loc(self, st, v):
        if v[0] == 'r':
            return v[1], v[2]
        if v[0] == 's':
            return ('z', v[1]), ()
        if v[0] == 'a' and v[4]:
            # wrapper struct around a pointer (guards, Pin, NonNull ...)
            return self.deref_loc(st, v[4][0][1])
        return ('k', sym('derefof', v)), ()

    def deref(self, st, v):
        c, p = self.deref_loc(st, v)
        return self.load(st, c, p)

    def ptr(self, v):
        """pointer to an anonymous immutable value"""
        return ('r', ('k', v), ())

    def box(self, st, v):
        return ('r', self.new_cell(st, v), ())

    # ------------------------------------------------------------ snapshot
    def snap(self, st, v, d=6):
        k = v[0]
        if k == 'r':
            if d == 0:
                return ('&', '..')
            return ('&', self.snap(st, self.load(st, v[1], v[2]), d - 1))
        if k == 's':
            # a pointer whose target was refined/modified
            z = ('z', v[1])
            if z in st.mem and d > 0:
                return ('&', self.snap(st, st.mem[z], d - 1))
            return v
        if k == 'a':
            if d == 0:
                return ('a', v[1], v[2], v[3], '..')
            return ('a', v[1], v[2], v[3], tuple((i, self.snap(st, x, d - 1)) for i, x in v[4]))
        if k == 'v':
            return ('v', tuple((s[0], self.snap(st, s[1], d - 1)) if s[0] == 'e' and d > 0 else s for s in v[1]))
        if k == 'm':
            return ('m', tuple((s[0], self.snap(st, s[1], d - 1), self.snap(st, s[2], d - 1)) if s[0] == 'kv' and d > 0 else s for s in v[1]))
        return v

    # ------------------------------------------------------------ facts
    def known(self, st, t):
        """known concrete value (int / variant discr) of term t or None"""
        f = st.facts.get(t)
        if f is not None and f[0] == '=':
            return f[1]
        k = TERMS[t]
        if k[0] == 'not':
            x = self.known(st, k[1])
            return None if x is None else 1 - x
        if k[0] == 'more' and k[2] == 0 and TERMS[k[1]][0].endswith(('str::split', 'str::rsplit')):
            return 1        # there is always a first part
        if k[0] == 'eq' and k[2][0] == 'c' and k[1][0] == 's':
            x = self.known(st, k[1][1])
            if x is not None:
                return 1 if x == k[2][1] else 0
            g = st.facts.get(k[1][1])
            if g is not None and g[0] == '!' and k[2][1] in g[1]:
                return 0
            if TERMS[k[1][1]][0] == 'len' and isinstance(k[2][1], int) and self.len_floor(st, TERMS[k[1][1]][1]) > k[2][1]:
                return 0
            if self.LENSPLIT and self.compound(k[1], k[2]):
                z = self.sized(st, t, k)
                if z is not None and z[0] is not None:
                    return z[0]
            q = TERMS[k[1][1]]
            if k[2] == C(0) and q[0] == 'Sub':      # of unsigned numbers
                f = st.facts.get(TIX.get(('lt', q[2], q[1])))
                if f is not None and f[0] == '=':
                    return 1 - f[1]
        if k[0] == 'haskey' and TERMS[k[1]][0] == 'without':
            # a key that was taken out is gone
            while TERMS[t][0] == 'haskey' and TERMS[TERMS[t][1]][0] == 'without':
                w = TERMS[TERMS[t][1]]
                if w[2] == k[2]:
                    return 0
                q = TIX.get(('eq', w[2], k[2]), TIX.get(('eq', k[2], w[2])))
                q = st.facts.get(q) if q is not None else None
                if q == ('=', 1):
                    return 0
                if q != ('=', 0) and not (w[2][0] == 'c' and k[2][0] == 'c'):
                    return None
                t = TIX.get(('haskey', w[1], k[2]))
                if t is None:
                    return None
            return self.known(st, t)
        if k[0] == 'len':
            s = self.seq_of(k[1])
            n = self.len_floor(st, k[1])
            if s is not None:
                m = st.facts.get(TIX.get(('more', s, n)))
                if m is not None and m == ('=', 0):
                    return n
        elif k[0] == 'more':
            x = TIX.get(('len', ('s', k[1])))
            f = st.facts.get(x) if x is not None else None
            if f is not None:
                if f[0] == '=':
                    return 1 if k[2] < f[1] else 0
                if isinstance(k[2], int) and k[2] < 64:
                    # elements that were met, and lengths that were ruled out
                    j = 0
                    while j <= k[2] and (j in f[1] or st.facts.get(TIX.get(('more', k[1], j), -1)) == ('=', 1)):
                        j += 1
                    if j > k[2]:
                        return 1
            q = TERMS[k[1]]
            if q[0] == 'sorted' or q[0] == 'dedup' and k[2] == 0:
                x = self.extent(st, ('s', T('len', q[1])))
                if x is not None and isinstance(k[2], int):
                    if x[0] > k[2]:
                        return 1
                    if x[1] is not None and x[1] <= k[2]:
                        return 0
        elif k[0] == 'lt':
            a, b = k[1], k[2]
            if self.LENSPLIT and self.compound(a, b):
                z = self.sized(st, t, k)
                if z is not None and z[0] is not None:
                    return z[0]
            if a[0] == 'c' and b[0] == 's' and TERMS[b[1]][0] == 'len' and isinstance(a[1], int):
                x = self.known(st, b[1])
                if x is not None:
                    return 1 if a[1] < x else 0
                n = self.len_floor(st, TERMS[b[1]][1])
                if n > a[1]:
                    return 1
                s = self.seq_of(TERMS[b[1]][1])
                if self.LENLIM and s is not None and a[1] > 0 and min(a[1], n) >= self.klimit(s) > 0:
                    self.stats['cut'] += 1
                    return 0        # a loop over positions stops where one over elements does
            elif b[0] == 'c' and a[0] == 's' and TERMS[a[1]][0] == 'len' and isinstance(b[1], int):
                x = self.known(st, a[1])
                if x is not None:
                    return 1 if x < b[1] else 0
                if self.len_floor(st, TERMS[a[1]][1]) >= b[1]:
                    return 0
        return None

    def compound(self, a, b):
        """a number compared with the size of several lists together, or of one the path has added to"""
        if a[0] == 'c':
            a, b = b, a
        if b[0] != 'c' or not isinstance(b[1], int) or a[0] != 's':
            return False
        k = TERMS[a[1]]
        return k[0] == 'Add' or k[0] == 'len' and k[1][0] in ('v', 'm') and self.seq_of(k[1]) is None

    def extent(self, st, x):
        """(least size, greatest size or None, what would have to be known to be more exact) or None"""
        if x[0] == 'c':
            return (x[1], x[1], None) if isinstance(x[1], int) else None
        if x[0] != 's':
            return None
        k = TERMS[x[1]]
        if k[0] == 'Add':
            a, b = self.extent(st, k[1]), self.extent(st, k[2])
            if a is None or b is None:
                return None
            return a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1], a[2] if a[2] is not None else b[2]
        if k[0] != 'len':
            return None
        v = k[1]
        if v[0] == 's':
            if self.textual(v):
                return None
            segs = (('rest', v[1], 0),)
        elif v[0] in ('v', 'm'):
            segs = v[1]
        else:
            return None
        lo, at, closed = 0, None, True
        for s in segs:
            if s[0] != 'rest':
                lo += 1
                continue
            n, lim = s[2], self.klimit(s[1])
            while True:
                m = 0 if n >= lim else self.known(st, T('more', s[1], n))
                if m != 1:
                    break
                n += 1
                lo += 1
            if m is None:
                closed = False
                if at is None:
                    at = T('more', s[1], n)
        return lo, lo if closed else None, at

    def sized(self, st, t, k):
        """(truth or None, what to know first) of a comparison of sizes with a number"""
        a, b = self.extent(st, k[1]), self.extent(st, k[2])
        if a is None or b is None:
            return None
        at = a[2] if a[2] is not None else b[2]
        if k[0] == 'eq':
            if a[1] is not None and b[1] is not None:
                return (1 if a[0] == b[0] else 0), None
            if (a[1] is not None and a[1] < b[0]) or (b[1] is not None and b[1] < a[0]):
                return 0, None
        else:
            if a[1] is not None and a[1] < b[0]:
                return 1, None
            if b[1] is not None and a[0] >= b[1]:
                return 0, None
        return None, at

    def first_ask(self, st, t):
        """what a condition about sizes depends on that the path has not looked at"""
        while TERMS[t][0] == 'not':
            t = TERMS[t][1]
        k = TERMS[t]
        if self.LENSPLIT and k[0] in ('eq', 'lt') and self.compound(k[1], k[2]):
            z = self.sized(st, t, k)
            if z is not None:
                return z[1]
        return None

    def updated(self, ty, vk, ops):
        """a value made of parts; parts taken over from one value of the same type keep it as their whole"""
        src = {}
        for i, o in enumerate(ops):
            if o[0] == 's':
                k = TERMS[o[1]]
                if k[0] == 'fld' and k[2] == vk and k[3] == i and TTY.get(k[1]) == ty:
                    src.setdefault(k[1], set()).add(i)
        if len(src) == 1:
            (b, ix), = src.items()
            if len(ix) == len(ops) and len(self.p.types[ty]['v']) == 1:
                return ('s', b)
            if len(ix) > 1 and 2 * len(ix) >= len(ops):
                return ('a', ty, vk, b, tuple((i, o) for i, o in enumerate(ops) if i not in ix))
        return ('a', ty, vk, None, tuple(enumerate(ops)))

    def ask(self, at):
        """decide something first, then do the same step again"""
        raise Fork([lambda s2: self.assume(s2, at, 1), lambda s2: self.assume(s2, at, 0)])

    def seq_of(self, v):
        if v[0] == 's':
            return v[1]
        if v[0] == 'v' and len(v[1]) == 1 and v[1][0][0] == 'rest' and v[1][0][2] == 0:
            return v[1][0][1]
        return None

    def len_floor(self, st, v):
        """number of elements the path has established"""
        s = self.seq_of(v)
        n = 0
        while s is not None and n < 64 and self.known(st, T('more', s, n)) == 1:
            n += 1
        return n

    def assume(self, st, t, val):
        """record t == val; raise Infeasible on contradiction"""
        cur = self.known(st, t)
        if cur is not None:
            if cur != val:
                raise Infeasible()
            return
        g = st.facts.get(t)
        if g is not None and g[0] == '!' and val in g[1]:
            raise Infeasible()
        k = TERMS[t]
        if k[0] == 'not':
            return self.assume(st, k[1], 1 - val)
        if self.LENCUT and k[0] == 'len' and isinstance(val, int):
            self.cut_long(k[1], val)
        st.facts[t] = ('=', val)
        if k[0] == 'lt':
            self.length_facts(st, k[1], k[2], val)
        if k[0] == 'eq' and k[2][0] == 'c' and k[1][0] == 's':
            if val == 1:
                self.assume(st, k[1][1], k[2][1])
            else:
                self.assume_not(st, k[1][1], k[2][1])

    def cut_long(self, v, n):
        s = self.seq_of(v)
        if s is not None and n > self.klimit(s):
            self.stats['cut'] += 1
            raise Infeasible()

    def length_facts(self, st, a, b, val):
        """a comparison of a length with a small number says which elements there are"""
        if a[0] == 'c' and b[0] == 's':
            n, l, up = a[1], b, val == 1            # n < len / len <= n
            at = n
        elif b[0] == 'c' and a[0] == 's':
            n, l, up = b[1], a, val == 0            # n <= len / len < n
            at = n - 1 if isinstance(n, int) else None
        else:
            return
        if not isinstance(n, int) or not -1 <= at <= 8 or TERMS[l[1]][0] != 'len':
            return
        s = self.seq_of(TERMS[l[1]][1])
        if s is None or at < 0:
            return
        for i in (range(at + 1) if up else (at,)):
            t = T('more', s, i)
            if self.known(st, t) is None:
                self.assume(st, t, 1 if up else 0)

    def assume_not(self, st, t, val):
        cur = self.known(st, t)
        if cur is not None:
            if cur == val:
                raise Infeasible()
            return
        g = st.facts.get(t)
        s = (g[1] if g is not None else frozenset()) | {val}
        if self.LENCUT and TERMS[t][0] == 'len':
            n = 0
            while n in s:
                n += 1
            self.cut_long(TERMS[t][1], n)
        ty = DTY.get(t)
        if ty is not None:
            left = [int(dv) for _n, dv, _f in self.p.types[ty]['v'] if int(dv) not in s]
            if not left:
                raise Infeasible()
            if len(left) == 1:
                return self.assume(st, t, left[0])
        st.facts[t] = ('!', s)

    def truth(self, st, v):
        """0/1/None"""
        if v[0] == 'c':
            return 1 if v[1] else 0
        if v[0] == 's':
            return self.known(st, v[1])
        return None

    # boolean term constructors
    def mk_not(self, v):
        if v[0] == 'c':
            return C(0 if v[1] else 1)
        if v[0] == 's' and TERMS[v[1]][0] == 'not':
            return ('s', TERMS[v[1]][1])
        if v[0] == 's':
            return sym('not', v[1])
        return sym('notv', v)

    def mk_eq(self, st, a, b):
        if a == b and not (a[0] == 's' and TERMS[a[1]][0] in ('undef',)):
            return TRUE
        if a[0] == 'c' and b[0] == 'c':
            return FALSE
        if a[0] == 'c':
            a, b = b, a
        if b[0] != 'c' and repr(b) < repr(a):
            a, b = b, a
        if b[0] == 'c' and a[0] == 's':
            x = self.known(st, a[1])
            if x is not None:
                return TRUE if x == b[1] else FALSE
        if a[0] == '&' and b[0] == '&':
            return self.mk_eq(st, a[1], b[1])
        if a[0] == 'a' and b[0] == 'a' and a[3] is None and b[3] is None:
            if a[2] != b[2]:
                return FALSE
        for x, y in ((a, b), (b, a)):
            if x[0] == 'a' and y[0] == 's' and x[3] is None and not x[4] and self.unit_variant(x):
                # a variant without fields equals whatever is of that variant
                d = self.mkdisc(y[1], x[1])
                return self.mk_eq(st, d, C(int(self.p.types[x[1]]['v'][x[2]][1])))
        return sym('eq', a, b)

    def unit_variant(self, x):
        t = self.p.types[x[1]] if x[1] is not None else None
        return t is not None and t['k'] == 'adt' and len(t['v']) > 1 and not t['v'][x[2]][2]

    # ------------------------------------------------------------ operands
    def const(self, j, ty):
        v = j
        if 'c' in v:
            return C(v['c'])
        if 'str' in v:
            return ('r', ('k', C(v['str'])), ())
        if 'ref' in v:
            it = None
            if ty is not None and self.p.types[ty]['k'] in ('ref', 'ptr'):
                it = self.p.types[ty]['t']
            return ('r', ('k', self.const(v['ref'], it)), ())
        if 'bytes' in v:
            return C(('b', v['bytes']))
        if 'agg' in v:
            t = self.p.types[ty] if ty is not None else None
            vi, fs = v['agg']
            if t is not None and t['k'] in ('array', 'slice'):
                return ('v', tuple(('e', self.const(x, t['t'])) for x in fs))
            if t is None and vi is None and fs:
                pass
            vi = vi or 0
            ft = None
            if t is not None and t['k'] == 'adt':
                ft = [x for _, x in t['v'][vi][2]]
            elif t is not None and t['k'] == 'tup':
                ft = t['ts']
            return ('a', ty, vi, None, tuple((i, self.const(x, ft[i] if ft else None)) for i, x in enumerate(fs)))
        if 'fn' in v:
            return ('fn', self.callee_key(v['fn']))
        if 'fp' in v:
            return ('fn', ('f', v['fp'], None, ()))
        if 'clo' in v:
            return ('a', v['clo'], 0, None, ())
        if 'static' in v:
            return ('r', ('st', v['static']), ())
        if 'fl' in v:
            return C(('f', v['fl']))
        return sym('const', v.get('unk', '?'), ty)

    def callee_key(self, c):
        a = tuple(c.get('a', ()))
        if 'f' in c:
            return ('f', c['f'], c.get('n'), a)
        if 'virt' in c:
            return ('virt', c['virt'], c['virt'], a)
        return ('unres', c['unres'], c['unres'], a)

    def operand(self, st, fr, o):
        if 'cp' in o or 'mv' in o:
            pl = o.get('cp') or o.get('mv')
            c, p = self.place(st, fr, pl)
            return self.load(st, c, p)
        v = self.const(o['v'], o['k'])
        if v[0] == 's' and 'cn' in o:
            return sym('constitem', o['cn'])
        return v

    def place(self, st, fr, pl):
        cell, path = (fr.id, pl[0]), ()
        var = 0
        for pr in pl[1]:
            if pr == '*':
                v = self.load(st, cell, path)
                cell, path = self.deref_loc(st, v)
                var = 0
                continue
            if pr == 'o':
                continue
            k = pr[0]
            if k == 'd':
                var = pr[1]
                # reading through a downcast fixes the variant
                continue
            if k == 'f':
                t = self.p.types[pr[2]]
                if t['k'] == 'adt' and (t['p'] in ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::boxed::BoxRaw')):
                    v = self.load(st, cell, path)
                    if v[0] in ('r', 's'):
                        continue
                path = path + (('f', var, pr[1], pr[2]),)
                var = 0
            elif k == 'i':
                path = path + (('i', self.load(st, (fr.id, pr[1]), ())),)
            elif k == 'ci':
                if pr[2]:
                    v = self.load(st, cell, path)
                    if v[0] == 'v' and all(s[0] == 'e' for s in v[1]):
                        path = path + (('i', C(len(v[1]) - pr[1])),)
                    else:
                        path = path + (('i', sym('fromend', pr[1])),)
                else:
                    path = path + (('i', C(pr[1])),)
            elif k == 'ss':
                path = path + (('ss', pr[1], pr[2], pr[3]),)
        return cell, path

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            c, p = self.place(st, fr, rv[1])
            # reborrow of an opaque pointer target keeps the pointer's identity
            if isinstance(c, tuple) and c[0] == 'z' and not p:
                return ('s', c[1])
            return ('r', c, p)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in rv[3]]
            vk = rv[2]
            if vk == 'array':
                return ('v', tuple(('e', o) for o in ops))
            if vk == 'ptr':
                return ops[0]
            if vk in ('tup', 'clo', 'other'):
                return ('a', rv[1], 0, None, tuple(enumerate(ops)))
            if isinstance(vk, list):
                return ('a', rv[1], vk[0], None, ((vk[1], ops[0]),))
            return self.updated(rv[1], vk, ops)
        if k == 'disc':
            c, p = self.place(st, fr, rv[1])
            v = self.load(st, c, p)
            return self.disc(st, v, rv[2])
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            ck = rv[1]
            if ck in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                if v[0] == 'c' and isinstance(v[1], int):
                    return v
                to = self.p.types[rv[4]].get('n') or self.p.types[rv[4]]['k']
                frm = self.p.types[rv[3]].get('n') or self.p.types[rv[3]]['k']
                if self.on_cast is not None:
                    self.on_cast(st, fr, frm, to, v)
                if v[0] == 's':
                    if TERMS[v[1]][0] in ('disc',):
                        return v
                    return sym('cast', frm, to, v[1])
                return v
            if ck == 'Unsize':
                ft = self.p.types[rv[3]]
                if v[0] == 's':
                    inner = ft['t'] if ft['k'] in ('ref', 'ptr') else (ft['a'][0] if ft['k'] == 'adt' and ft['a'] else None)
                    if inner is not None and self.p.types[inner]['k'] != 'dyn':
                        TTY.setdefault(T('deref', v[1]), inner)
                elif v[0] == 'r':
                    x = self.load(st, v[1], v[2])
                    inner = ft['t'] if ft['k'] in ('ref', 'ptr') else (ft['a'][0] if ft['k'] == 'adt' and ft['a'] else None)
                    if inner is not None and self.p.types[inner]['k'] != 'dyn':
                        if x[0] == 's':
                            TTY.setdefault(x[1], inner)
                        elif x[0] == 'a' and x[1] is None:
                            self.store(st, v[1], v[2], ('a', inner) + x[2:])
            return v
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            if rv[1] in COMPARE:
                self.note_compare(fr, rv, a, b)
            return self.binop(st, rv[1], a, b, rv[4])
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if v[0] == 'c' and v[1] in (0, 1):
                    return C(1 - v[1])
                return self.mk_not(v)
            if rv[1] == 'PtrMetadata':
                x = self.deref(st, v)
                return self.seqlen(st, x)
            return sym('un', rv[1], v)
        if k == 'rep':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n is not None and n <= 8:
                return ('v', tuple(('e', v) for _ in range(n)))
            return sym('rep', v, n)
        if k == 'tls':
            return ('r', ('st', rv[1]), ())
        return sym('rv', k)

    def seqlen(self, st, x):
        if x[0] == 'v':
            if all(s[0] == 'e' for s in x[1]):
                return C(len(x[1]))
            if self.seq_of(x) is not None:
                return sym('len', ('s', self.seq_of(x)))
            return sym('len', x)
        if x[0] == 'c' and isinstance(x[1], str):
            return C(len(x[1].encode()))
        if x[0] == 'c' and isinstance(x[1], tuple) and x[1][0] == 'b':
            return C(len(x[1][1]) // 2)
        return sym('len', self.snap(st, x))

    def disc(self, st, v, ty):
        t = self.p.types[ty]
        if v[0] == 'a':
            if v[3] is not None and v[2] is None:
                return self.mkdisc(v[3], ty)
            if t['k'] == 'adt' and t['v']:
                return C(int(t['v'][v[2]][1]))
            return C(v[2])
        if v[0] == 's':
            return self.mkdisc(v[1], ty)
        if v[0] == 'c':
            return v
        return sym('discv', v, ty)

    def mkdisc(self, t, ty):
        d = T('disc', t)
        if ty is not None and d not in DTY:
            DTY[d] = ty
        return ('s', d)

    def binop(self, st, op, a, b, ty):
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if self.on_arith is not None:
                self.on_arith(st, op[:3], a, b, ty)
            r = self.binop(st, op[:3], a, b, ty)
            return ('a', None, 0, None, ((0, r), (1, FALSE)))
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            op = op[:3]
        ca, cb = const_of(a), const_of(b)
        if isinstance(ca, int) and isinstance(cb, int):
            try:
                r = {'Add': lambda: ca + cb, 'Sub': lambda: ca - cb, 'Mul': lambda: ca * cb,
                     'Eq': lambda: int(ca == cb), 'Ne': lambda: int(ca != cb), 'Lt': lambda: int(ca < cb),
                     'Le': lambda: int(ca <= cb), 'Gt': lambda: int(ca > cb), 'Ge': lambda: int(ca >= cb),
                     'BitAnd': lambda: ca & cb, 'BitOr': lambda: ca | cb, 'BitXor': lambda: ca ^ cb}[op]()
                return C(r)
            except KeyError:
                pass
        if op == 'Eq' or op == 'Ne':
            isb = self.p.types[ty]['k'] == 'bool'
            if isb and b[0] == 'c':
                r = a if b[1] else self.mk_not(a)
            elif isb and a[0] == 'c':
                r = b if a[1] else self.mk_not(b)
            else:
                r = self.mk_eq(st, a, b)
            return r if op == 'Eq' else self.mk_not(r)
        if op == 'Gt':
            return self.lt(st, b, a, ty)
        if op == 'Lt':
            return self.lt(st, a, b, ty)
        if op == 'Ge':
            return self.mk_not(self.lt(st, a, b, ty))
        if op == 'Le':
            return self.mk_not(self.lt(st, b, a, ty))
        if op == 'Sub' and a[0] == 's' and TERMS[a[1]][0] == 'Add' and TERMS[a[1]][2] == b:
            return TERMS[a[1]][1]
        if op == 'Add' and a[0] == 's' and TERMS[a[1]][0] == 'Sub' and TERMS[a[1]][2] == b:
            return TERMS[a[1]][1]
        if op in ('BitAnd', 'BitOr') and self.p.types[ty]['k'] == 'bool':
            ta, tb = self.truth(st, a), self.truth(st, b)
            if op == 'BitAnd':
                if ta == 0 or tb == 0:
                    return FALSE
                if ta == 1:
                    return b
                if tb == 1:
                    return a
            else:
                if ta == 1 or tb == 1:
                    return TRUE
                if ta == 0:
                    return b
                if tb == 0:
                    return a
        return sym(op, a, b)

    def lt(self, st, a, b, ty):
        if a == b:
            return FALSE
        uns = not self.p.types[ty].get('sg', True) if ty is not None else False
        if uns and a == C(0):
            return self.mk_not(self.mk_eq(st, b, C(0)))
        if uns and b == C(1):
            return self.mk_eq(st, a, C(0))
        if uns and b == C(0):
            return FALSE
        return sym('lt', a, b)

    # ------------------------------------------------------------ running
    def start(self, fi, args, st=None):
        st = st or State()
        self.push(st, fi, args, None, None)
        return st

    def params(self, fi, st=None, **over):
        """symbolic arguments for function fi, named after its parameters"""
        f = self.p.fns[fi]
        ls = f['b']['ls']
        r = []
        for i in range(1, f['b']['n'] + 1):
            nm = ls[i][1] if len(ls[i]) > 1 else 'arg%d' % i
            if nm in over:
                r.append(over[nm])
                continue
            t = T('param', nm, fi)
            TTY[t] = ls[i][0]
            r.append(('s', t))
        return r

    def run(self, fi, args=None, st=None):
        """all final abstract states of the function"""
        if args is None:
            args = self.params(fi)
        st = self.start(fi, args, st)
        return self.explore([st])

    def klimit(self, s):
        """elements of an unknown sequence that are enumerated before the path stops at its end"""
        k = self.K if self.KOF is None else self.KOF(s)
        return max(k, self.floor) if k > 0 else k


    def literal(self, o):
        """the number an operand is in the program text"""
        if 'v' not in o or o.get('k') is None:
            return None
        t = self.p.types[o['k']]
        n = o['v'].get('c') if isinstance(o['v'], dict) else None
        if t.get('n') != 'usize' or not isinstance(n, int) or str(o.get('cn', '')).startswith('core::'):
            return None
        return n

    def note_count(self, fr, n):
        """the program tells lists of fewer than n elements from longer ones"""
        if self.wanted < n <= self.DEEPEST and self.p.fns[fr.fi]['l']:
            self.wanted = n

    def note_cut(self, fr, name, n, ty):
        """a list is cut off after n elements, more than are enumerated"""
        if n < max(self.K, self.floor) or not self.p.fns[fr.fi]['l']:
            return
        if name.split('::')[-1] == 'take' and not any(x in ty for x in ('Chars', 'CharIndices', 'Bytes', 'Split', 'array::', 'Range')):
            self.cuts.add((self.p.fns[fr.fi]['p'], n))

    def note_compare(self, fr, rv, a, b):
        for o, x, op in ((rv[3], a, rv[1]), (rv[2], b, SWAP.get(rv[1], rv[1]))):
            n = self.literal(o)
            if n is None:
                continue
            if x[0] == 's':
                if TERMS[x[1]][0] != 'len' or self.textual(TERMS[x[1]][1]):
                    continue
            elif x[0] != 'c':
                continue
            self.note_count(fr, n + COMPARE[op])

    def textual(self, v):
        s = self.seq_of(v)
        t = TTY.get(s) if s is not None else None
        return t is None or not any(x in self.p.types[t]['s'] for x in ('Vec<', '[', 'VecDeque<', 'Map<', 'Set<')) or any(x in self.p.types[t]['s'] for x in ('Vec<u8', '[u8'))

    def explore(self, work):
        """all final states; lists are enumerated further when the program compares a count of them with a larger number"""
        first = [st.fork() for st in work]
        self.wanted = 0
        before = set(self.cuts)
        out = self.explore_paths(work)
        while self.wanted > max(self.K, self.floor):
            keep = self.floor, self.LOOP, self.MAXSTEPS
            cuts, self.cuts = self.cuts, set(before)
            self.floor = self.wanted
            self.LOOP = max(self.LOOP, self.floor + 1)
            self.MAXSTEPS = self.stats['steps'] + max(self.MAXSTEPS, 1000000)
            try:
                deeper = self.explore_paths([st.fork() for st in first])
            except AnalysisError as x:
                if 'budget' not in str(x):
                    raise
                self.floor, self.LOOP, self.MAXSTEPS = keep
                self.cuts |= cuts
                return out
            self.MAXSTEPS = keep[2]
            out = deeper
        return out

    def explore_paths(self, work):
        out = []
        Engine.CUR = self
        while work:
            st = work.pop()
            try:
                while True:
                    self.stats['steps'] += 1
                    if self.stats['steps'] > self.MAXSTEPS:
                        raise AnalysisError('step budget exhausted')
                    if not st.frames:
                        out.append(st)
                        self.stats['paths'] += 1
                        if len(out) > self.MAXPATHS:
                            raise AnalysisError('path budget exhausted')
                        break
                    self.step(st)
            except Fork as f:
                n = 0
                for a in f.alts:
                    s2 = st.fork()
                    try:
                        a(s2)
                    except Infeasible:
                        self.stats['infeasible'] += 1
                        continue
                    except Cut:
                        self.stats['cut'] += 1
                        continue
                    work.append(s2)
                    n += 1
            except Infeasible:
                self.stats['infeasible'] += 1
            except Cut as c:
                self.stats['cut'] += 1
                k = str(c) or '?'
                self.cutsites[k] = self.cutsites.get(k, 0) + 1
        return out

    def push(self, st, fi, args, dest, target):
        f = self.p.fns[fi]
        if len(st.frames) > self.MAXDEPTH:
            raise Cut('depth')
        fr = Frame()
        st.nid += 1
        fr.fi, fr.id, fr.bb, fr.si = fi, st.nid, 0, 0
        fr.dest, fr.target, fr.visits, fr.native, fr.log, fr.nargs, fr.line, fr.nname, fr.ctxt = dest, target, {0: 1}, None, None, None, 0, None, None
        n = f['b']['n']
        if len(args) != n:
            raise AnalysisError('arity %s: %d vs %d' % (f['p'], len(args), n))
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        st.frames.append(fr)
        self.fn_seen.add(fi)

    def push_native(self, st, gen, nargs, dest, target, name):
        fr = Frame()
        st.nid += 1
        fr.fi, fr.id, fr.bb, fr.si = None, st.nid, 0, 0
        fr.dest, fr.target, fr.visits, fr.native, fr.log, fr.nargs, fr.line, fr.nname, fr.ctxt = dest, target, None, gen, (), nargs, 0, name, None
        st.frames.append(fr)

    def goto(self, st, fr, bb):
        fr.bb, fr.si = bb, 0
        n = fr.visits.get(bb, 0) + 1
        if n > self.LOOP:
            raise Cut('loop in %s' % self.p.short(self.p.fns[fr.fi]['p']))
        fr.visits[bb] = n

    def ret(self, st, v):
        fr = st.frames.pop()
        if fr.native is None:
            n = len(self.p.fns[fr.fi]['b']['ls'])
            keep = self.escaping(v)
            for i in range(n):
                if (fr.id, i) in st.mem and (fr.id, i) not in keep:
                    # cells of a popped frame stay reachable only through pointers that escaped
                    # in the result; Rust forbids that, so they can go
                    del st.mem[(fr.id, i)]
        if not st.frames:
            st.result = v
            return
        up = st.frames[-1]
        if up.native is not None:
            up.log = up.log + (v,)
            return
        if fr.dest is not None:
            c, p = fr.dest
            self.store(st, c, p, v)
        if fr.target is None:
            raise Infeasible()
        self.goto(st, up, fr.target)

    def escaping(self, v):
        return ()

    def deliver(self, st, v, dest, target, fr):
        if dest is not None:
            self.store(st, dest[0], dest[1], v)
        if fr.native is not None:
            fr.log = fr.log + (v,)
            return
        if target is None:
            raise Infeasible()
        self.goto(st, fr, target)

    def step(self, st):
        fr = st.frames[-1]
        if fr.native is not None:
            return self.step_native(st, fr)
        b = self.p.fns[fr.fi]['b']['bb'][fr.bb]
        ss = b['s']
        while fr.si < len(ss):
            s = ss[fr.si]
            if s[0] == '=':
                fr.line = s[3]
                v = self.rvalue(st, fr, s[2])
                c, p = self.place(st, fr, s[1])
                self.store(st, c, p, v)
            elif s[0] == 'sd':
                c, p = self.place(st, fr, s[1])
                v = self.load(st, c, p)
                if v[0] == 'a':
                    self.store(st, c, p, ('a', v[1], s[2], v[3], v[4]))
                else:
                    self.store(st, c, p, ('a', None, s[2], None, ()))
            elif s[0] == 'x':
                st.mem.pop((fr.id, s[1]), None)
            fr.si += 1
        fr.line = b['ln']
        t = b['t']
        k = t[0]
        if k == 'goto':
            return self.goto(st, fr, t[1])
        if k == 'ret':
            return self.ret(st, self.load(st, (fr.id, 0), ()))
        if k == 'sw':
            return self.switch(st, fr, t)
        if k == 'call':
            return self.call(st, fr, t)
        if k == 'drop':
            return self.drop(st, fr, t)
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            tv = self.truth(st, c)
            want = 1 if t[2] else 0
            if self.on_assert is not None:
                self.on_assert(st, fr, t, c, tv)
            if tv is not None and tv != want:
                raise Infeasible()
            if tv is None and c[0] == 's':
                self.assume(st, c[1], want)
            return self.goto(st, fr, t[4])
        if k in ('unr', 'resume', 'uterm', 'other'):
            raise Infeasible()
        raise AnalysisError('terminator ' + k)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        tys = self.p.types[t[2]]
        targets = [(int(x), b) for x, b in t[3]]
        if tys.get('n') == 'usize' and (v[0] == 'c' or v[0] == 's' and TERMS[v[1]][0] == 'len' and not self.textual(TERMS[v[1]][1])):
            self.note_count(fr, max([x for x, _b in targets] + [0]))
        other = t[4]
        if v[0] == 'c':
            x = v[1]
            if x is None:
                raise AnalysisError('switch on None const')
            for c, b in targets:
                if c == x or (isinstance(x, int) and x < 0 and (x & ((1 << 128) - 1)) == c) or (isinstance(x, int) and x < 0 and any((x & ((1 << n) - 1)) == c for n in (8, 16, 32, 64))):
                    return self.goto(st, fr, b)
            return self.goto(st, fr, other)
        if v[0] != 's':
            v = sym('sw', v)
        tid = v[1]
        inv = False
        while TERMS[tid][0] == 'not':
            tid = TERMS[tid][1]
            inv = not inv
        if inv:
            targets = [(1 - c, b) for c, b in targets]
        x = self.known(st, tid)
        isbool = tys['k'] == 'bool'
        if isbool and len(targets) == 1:
            c, b = targets[0]
            targets = [(c, b), (1 - c, other)]
            other = None
        elif inv:
            raise AnalysisError('inverted non-bool switch')
        if x is not None:
            for c, b in targets:
                if c == x:
                    return self.goto(st, fr, b)
            if other is None:
                raise Infeasible()
            return self.goto(st, fr, other)
        at = self.first_ask(st, tid)
        if at is not None:
            self.ask(at)
        alts = []
        k = TERMS[tid]
        rest = None
        if k[0] == 'disc' and tid in DTY:
            td = self.p.types[DTY[tid]]
            if td['k'] == 'adt' and td['ak'] == 'enum':
                alld = [int(d) for _n, d, _f in td['v']]
                ex = [d for d in alld if d not in [c for c, _ in targets]]
                rest = ex
                # an unreachable `otherwise` is filtered by the MIR itself (unr)
        g = st.facts.get(tid)
        excl = g[1] if g is not None and g[0] == '!' else frozenset()

        def mk(c, b):
            def f(s2):
                self.assume(s2, tid, c)
                self.goto(s2, s2.frames[-1], b)
            return f
        for c, b in targets:
            if c not in excl:
                alts.append(mk(c, b))
        if other is not None:
            blk = self.p.fns[fr.fi]['b']['bb'][other]
            if not (blk['t'][0] == 'unr' and not blk['s']):
                if rest is not None and len([d for d in rest if d not in excl]) > 1 and self.p.types[DTY[tid]]['p'].endswith(self.LUMP):
                    rest = None
                if rest is not None:
                    for d in rest:
                        if d not in excl:
                            alts.append(mk(d, other))
                else:
                    def fo(s2):
                        for c, _ in targets:
                            self.assume_not(s2, tid, c)
                        self.goto(s2, s2.frames[-1], other)
                    alts.append(fo)
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            return alts[0](st)
        raise Fork(alts)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t):
        fo = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        dest = self.place(st, fr, t[3])
        target = t[4]
        argtys = t[9]
        dt = t[8]
        if 'k' in fo and 'fn' in fo['v']:
            ck = self.callee_key(fo['v']['fn'])
            if len(t[2]) > 1 and str(fo['v']['fn'].get('n', '')).split('::')[-1] in CUTTING:
                n = max([self.literal(o) or 0 for o in t[2][1:]])
                self.note_count(fr, n + 1)
                self.note_cut(fr, str(fo['v']['fn'].get('n', '')), n, self.p.types[argtys[0]]['s'] if argtys and argtys[0] is not None else '')
        else:
            fv = self.operand(st, fr, fo)
            return self.call_value(st, fr, fv, args, dest, target, dt, argtys)
        return self.call_key(st, fr, ck, args, dest, target, dt, argtys)

    def call_value(self, st, fr, fv, args, dest, target, dt, argtys=None):
        v = fv
        ptr = None
        n = 0
        while v[0] == 'r' and n < 5:
            ptr = v
            v = self.load(st, v[1], v[2])
            n += 1
        if v[0] == 's' and TTY.get(v[1]) is not None:
            ty = TTY[v[1]]
            tt = self.p.types[ty]
            m = 0
            while tt['k'] == 'ref' and m < 3:
                ptr = v
                v = self.deref(st, v)
                ty = tt['t']
                tt = self.p.types[ty]
                m += 1
            if tt['k'] == 'closure' and v[0] == 's':
                v = ('a', ty, 0, v[1], ())
        if v[0] == 'a' and v[1] is not None and self.p.types[v[1]]['k'] == 'closure':
            fi = self.p.types[v[1]]['f']
            f = self.p.fns[fi]
            if f['b'] is None:
                return self.opaque_call(st, fr, f['p'], fi, None, [v] + args, dest, target, dt, argtys)
            t1 = self.p.types[f['b']['ls'][1][0]]
            if t1['k'] == 'ref':
                a0 = ptr if ptr is not None else self.box(st, v)
            else:
                a0 = v
            if f['b']['n'] == 1 + len(args):
                return self.push(st, fi, [a0] + args, dest, target)
            raise AnalysisError('closure arity ' + f['p'])
        if v[0] == 'fn':
            return self.call_key(st, fr, v[1], args, dest, target, dt, argtys)
        return self.opaque_call(st, fr, 'callable', None, None, [fv] + args, dest, target, dt, argtys)

    def prim_for(self, path):
        h = self.prims.get(path)
        if h is not None:
            return h
        parts = path.split('::')
        for n in (1, 2, 3, 4):
            if len(parts) >= n:
                s = '::'.join(parts[-n:])
                if s in self.prims:
                    return self.prims[s]
        return None

    def call_key(self, st, fr, ck, args, dest, target, dt, argtys):
        kind = ck[0]
        if kind == 'f':
            fi = ck[1]
            f = self.p.fns[fi]
            path = f['p']
            name = ck[2] or f.get('ti') or path
            # callables
            if name.startswith('core::ops::function::Fn') and name.rsplit('::', 1)[1] in ('call', 'call_mut', 'call_once'):
                tup = args[1]
                ta = [x for _, x in tup[4]] if tup[0] == 'a' else self.untuple(tup, argtys)
                return self.call_value(st, fr, args[0], ta, dest, target, dt)
            h = self.prim_for(path)
            if h is not None:
                return h(self, st, Call(self, st, fr, path, name, fi, ck, args, dest, target, dt, argtys))
            m = self.models.get(path) or self.models.get(name) or (self.trait_models.get(f.get('ti') or name) if not f['l'] else None)
            if m is not None:
                c = Call(self, st, fr, path, name, fi, ck, args, dest, target, dt, argtys)
                return m(self, st, c)
            if f['b'] is not None and not (f['l'] and self.opaque(f)):
                depth = sum(1 for x in st.frames if x.fi == fi)
                if depth >= self.RECUR:
                    return self.opaque_call(st, fr, path, fi, name, args, dest, target, dt, argtys, note='recursion')
                b = f['b']
                if len(args) != b['n']:
                    raise AnalysisError('arity ' + path)
                return self.push(st, fi, args, dest, target)
            return self.opaque_call(st, fr, path, fi, name, args, dest, target, dt, argtys)
        if kind == 'virt':
            h = self.prim_for(ck[1])
            if h is not None:
                return h(self, st, Call(self, st, fr, ck[1], ck[1], None, ck, args, dest, target, dt, argtys))
            v = args[0]
            n = 0
            ty = None
            if ck[1].startswith('core::ops::function::Fn'):
                tup = args[1]
                ta = [x for _, x in tup[4]] if tup[0] == 'a' else self.untuple(tup, argtys)
                return self.call_value(st, fr, args[0], ta, dest, target, dt)
            while n < 4:
                if v[0] == 'a' and (v[1] is not None or v[3] is not None):
                    ty = v[1] if v[1] is not None else TTY.get(v[3])
                    if ty in self.p.vt and ck[1] in self.p.vt[ty]:
                        break
                    ty = None
                    break
                if v[0] == 's':
                    ty = TTY.get(v[1])
                    if ty is not None and ty in self.p.vt and ck[1] in self.p.vt[ty]:
                        break
                    ty = None
                if v[0] in ('r', 's') and n < 3:
                    if v[0] == 's' and TTY.get(v[1]) is not None and self.p.types[TTY[v[1]]]['k'] == 'dyn':
                        break
                    v = self.deref(st, v)
                    n += 1
                    continue
                break
            if ty is not None:
                fi = self.p.vt[ty][ck[1]]
                return self.call_key(st, fr, ('f', fi, ck[1], ck[3]), args, dest, target, dt, argtys)
            pure = any(ck[1].endswith(x) for x in self.pure_virt) or None
            return self.opaque_call(st, fr, ck[1], None, ck[1], args, dest, target, dt, argtys, note='virtual', pure=pure)
        # unresolved
        return self.opaque_call(st, fr, ck[1], None, ck[1], args, dest, target, dt, argtys, note='unresolved')

    def untuple(self, v, argtys):
        t = self.p.types[argtys[1]] if argtys else None
        if t is None or t['k'] != 'tup':
            raise AnalysisError('untuple')
        return [getf(v, 0, i) for i in range(len(t['ts']))]

    PURE_CRATES = ('core', 'alloc', 'std')

    def opaque_call(self, st, fr, path, fi, name, args, dest, target, dt, argtys, note=None, pure=None):
        if dt is not None and self.p.types[dt]['k'] == 'adt' and args:
            # a constructor used as a function
            t = self.p.types[dt]
            for i, v in enumerate(t['v']):
                if len(v[2]) == len(args) and path in (t['p'] + '::' + v[0], t['p'] if len(t['v']) == 1 and v[0] == t['p'].split('::')[-1] else None):
                    return self.deliver(st, ('a', dt, i, None, tuple(enumerate(args))), dest, target, fr)
        snaps = tuple(self.snap(st, a) for a in args)
        hasmut = False
        muts = []
        callables = []
        if argtys:
            for i, (a, ty) in enumerate(zip(args, argtys)):
                t = self.p.types[ty]
                if t['k'] == 'ref' and t['m'] and self.p.types[t['t']]['k'] != 'closure':
                    muts.append(i)
        if pure is None:
            f = self.p.fns[fi] if fi is not None else None
            pure = f is not None and f['cr'] in self.PURE_CRATES and not muts
        if pure:
            r = sym('call', path, snaps)
        else:
            st.uid += 1
            r = sym('call', path, snaps, st.uid)
        if r[1] not in TTY:
            TTY[r[1]] = dt
        for i in muts:
            c, p = self.deref_loc(st, args[i])
            st.uid += 1
            nt = T('mut', path, i, self.snap(st, args[i]), st.uid)
            inner = self.p.types[argtys[i]]['t']
            TTY[nt] = inner
            self.store(st, c, p, ('s', nt))
        if fi is not None and not self.p.fns[fi]['l']:
            self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        self.event(st, 'call', path, name, fi, snaps, tuple(args), r, fr, note)
        if target is None and fr.native is None:
            # diverging call (panic)
            st.note = ('panic', path)
            raise Infeasible()
        if dt is not None and self.p.types[dt]['k'] == 'tup' and not self.p.types[dt]['ts']:
            r = UNIT
        self.deliver(st, r, dest, target, fr)

    def event(self, st, kind, path, name, fi, args, raw, ret, fr=None, extra=None):
        site, line = None, 0
        for x in reversed(st.frames):
            if x.native is None:
                site, line = x.fi, x.line
                break
        stack = tuple((x.fi, x.line) for x in st.frames if x.native is None)
        e = Event(kind, path, name, fi, args, raw, ret, site, line, stack, extra)
        st.trace = (e, st.trace)
        if self.on_event is not None:
            self.on_event(st, e)
        return e

    # ------------------------------------------------------------ native frames
    def step_native(self, st, fr):
        gen = fr.native(*fr.nargs)
        log = fr.log
        try:
            req = next(gen)
            for r in log:
                req = gen.send(r)
        except StopIteration as s:
            return self.ret(st, s.value if s.value is not None else UNIT)
        k = req[0]
        if k == 'callv':
            return self.call_value(st, fr, req[1], list(req[2]), None, None, req[3] if len(req) > 3 else None)
        if k == 'callk':
            return self.call_key(st, fr, req[1], list(req[2]), None, None, req[3] if len(req) > 3 else None, req[4] if len(req) > 4 else None)
        if k == 'push':
            return self.push(st, req[1], list(req[2]), None, None)
        if k == 'load':
            fr.log = fr.log + (self.load(st, req[1], req[2]),)
            return
        if k == 'deref':
            fr.log = fr.log + (self.deref(st, req[1]),)
            return
        if k == 'derefloc':
            fr.log = fr.log + (self.deref_loc(st, req[1]),)
            return
        if k == 'snap':
            fr.log = fr.log + (self.snap(st, req[1]),)
            return
        if k == 'store':
            self.store(st, req[1], req[2], req[3])
            fr.log = fr.log + (UNIT,)
            return
        if k == 'box':
            fr.log = fr.log + (self.box(st, req[1]),)
            return
        if k == 'fresh':
            st.uid += 1
            v = sym(*(req[1] + (st.uid,)))
            if len(req) > 2 and req[2] is not None:
                TTY[v[1]] = req[2]
            fr.log = fr.log + (v,)
            return
        if k == 'event':
            self.event(st, *req[1])
            fr.log = fr.log + (UNIT,)
            return
        if k == 'branch':
            v = req[1]
            tv = self.truth(st, v)
            if tv is not None:
                fr.log = fr.log + (tv,)
                return
            if v[0] != 's':
                v = sym('sw', v)
            at = self.first_ask(st, v[1])
            if at is not None:
                self.ask(at)

            def mk(b):
                def f(s2):
                    self.assume(s2, v[1], b)
                    s2.frames[-1].log = s2.frames[-1].log + (b,)
                return f
            raise Fork([mk(1), mk(0)])
        if k == 'variant':   # value, [(variant index)] , type -> variant index
            v, ty = req[1], req[2]
            d = self.disc(st, v, ty)
            td = self.p.types[ty]
            ds = [int(x[1]) for x in td['v']]
            if d[0] == 'c':
                fr.log = fr.log + (ds.index(d[1]),)
                return
            kn = self.known(st, d[1])
            if kn is not None:
                fr.log = fr.log + (ds.index(kn),)
                return

            def mk2(i):
                def f(s2):
                    self.assume(s2, d[1], ds[i])
                    s2.frames[-1].log = s2.frames[-1].log + (i,)
                return f
            raise Fork([mk2(i) for i in range(len(ds))])
        if k == 'optv':
            # variant of an Option/Result-like value with no type at hand: 0/1
            v = req[1]
            if v[0] == 'a':
                fr.log = fr.log + (v[2],)
                return
            if v[0] != 's':
                raise AnalysisError('optv of %r' % (v,))
            d = self.mkdisc(v[1], TTY.get(v[1]))[1]
            kn = self.known(st, d)
            if kn is not None:
                fr.log = fr.log + (kn,)
                return

            def mk3(i):
                def f(s2):
                    self.assume(s2, d, i)
                    s2.frames[-1].log = s2.frames[-1].log + (i,)
                return f
            raise Fork([mk3(0), mk3(1)])
        if k == 'choose':
            def mk4(i):
                def f(s2):
                    s2.frames[-1].log = s2.frames[-1].log + (i,)
                return f
            raise Fork([mk4(i) for i in range(req[1])])
        if k == 'cut':
            raise Cut(req[1])
        if k == 'infeasible':
            raise Infeasible()
        raise AnalysisError('native request %r' % (req,))

    # ------------------------------------------------------------ drops
    def drop(self, st, fr, t):
        ty = t[2]
        target = t[3]
        if not self.p.interesting_drop(ty):
            return self.goto(st, fr, target)
        c, p = self.place(st, fr, t[1])
        v = self.load(st, c, p)
        from .models import drop_gen
        self.push_native(st, drop_gen, (self, c, p, v, ty), None, target, 'drop')

    # ------------------------------------------------------------ pretty printing
    def show(self, v, d=5):
        if not isinstance(v, tuple) or not v:
            return repr(v)
        k = v[0]
        if d == 0:
            return '..'
        if k == 's':
            return self.show_term(v[1], d)
        if k == 'c':
            return repr(v[1])
        if k == '&':
            return '&' + (self.show(v[1], d - 1) if v[1] != '..' else '..')
        if k == 'r':
            return '*%s%s' % (v[1] if not (isinstance(v[1], tuple) and v[1][0] == 'k') else self.show(v[1][1], d - 1), v[2] or '')
        if k == 'a':
            n = ''
            if v[1] is not None:
                t = self.p.types[v[1]]
                n = t['p'].split('::')[-1] if t['k'] in ('adt', 'closure') else t['k']
                if t['k'] == 'adt' and t['ak'] == 'enum' and v[2] is not None:
                    n += '::' + t['v'][v[2]][0]
            else:
                n = '#%s' % v[2]
            fs = v[4] if v[4] == '..' else ', '.join('%s:%s' % (i, self.show(x, d - 1)) for i, x in v[4])
            return '%s{%s%s}' % (n, ('..%s ' % self.show_term(v[3], d - 1)) if v[3] is not None else '', fs)
        if k == 'v':
            return '[' + ', '.join(self.show(s[1], d - 1) if s[0] == 'e' else '..rest(%s,%s)' % (self.show_term(s[1], d - 1), s[2]) for s in v[1]) + ']'
        if k == 'm':
            return '{' + ', '.join('%s=>%s' % (self.show(s[1], d - 1), self.show(s[2], d - 1)) if s[0] == 'kv' else '..rest(%s)' % self.show_term(s[1], d - 1) for s in v[1]) + '}'
        if k == 'fn':
            f = v[1]
            return 'fn ' + (self.p.fns[f[1]]['p'] if f[0] == 'f' else str(f[1]))
        if k == 'it':
            return 'it(%s)' % ', '.join(self.show(x, d - 1) if isinstance(x, tuple) else str(x) for x in v[1:])
        return repr(v)

    def show_term(self, t, d=5):
        if not isinstance(t, int):
            return repr(t)
        if d == 0:
            return 't%d' % t
        k = TERMS[t]
        if k[0] == 'param':
            return k[1]
        if k[0] == 'fld':
            base = self.show_term(k[1], d)
            ty = TTY.get(k[1])
            nm = '%s.%s' % (k[2], k[3])
            if ty is not None:
                tt = self.p.types[ty]
                if tt['k'] == 'adt' and k[2] is not None and k[2] < len(tt['v']) and isinstance(k[3], int) and k[3] < len(tt['v'][k[2]][2]):
                    vn = tt['v'][k[2]]
                    nm = (vn[0] + '.' if tt['ak'] == 'enum' else '') + vn[2][k[3]][0]
            return '%s.%s' % (base, nm)
        if k[0] == 'deref':
            return '*' + self.show_term(k[1], d)
        if k[0] == 'call':
            return '%s(%s)%s' % (self.p.short(k[1]), ', '.join(self.show(a, d - 1) for a in k[2]), '#%d' % k[3] if len(k) > 3 else '')
        return '%s(%s)' % (k[0], ', '.join(self.show_term(x, d - 1) if isinstance(x, int) and not isinstance(x, bool) and k[0] in ('disc', 'not', 'elem', 'more') and i == 0 else (self.show(x, d - 1) if isinstance(x, tuple) else str(x)) for i, x in enumerate(k[1:])))


class Call:
    __slots__ = ('e', 'st', 'fr', 'path', 'name', 'fi', 'ck', 'args', 'dest', 'target', 'dt', 'argtys')

    def __init__(self, e, st, fr, path, name, fi, ck, args, dest, target, dt, argtys):
        self.e, self.st, self.fr, self.path, self.name, self.fi, self.ck = e, st, fr, path, name, fi, ck
        self.args, self.dest, self.target, self.dt, self.argtys = args, dest, target, dt, argtys

    def give(self, v):
        self.e.deliver(self.st, v, self.dest, self.target, self.fr)

    def native(self, gen, *nargs):
        self.e.push_native(self.st, gen, nargs, self.dest, self.target, self.path)

    def opaque(self, pure=None, note=None):
        self.e.opaque_call(self.st, self.fr, self.path, self.fi, self.name, self.args, self.dest, self.target, self.dt, self.argtys, pure=pure, note=note)

    def fork(self, alts):
        """alts: list of (assume(st) or None, value)"""
        c = self

        def mk(pre, v):
            def f(s2):
                if pre is not None:
                    pre(s2)
                x = v(s2) if callable(v) else v
                c.e.deliver(s2, x, c.dest, c.target, s2.frames[-1])
            return f
        raise Fork([mk(p, v) for p, v in alts])
