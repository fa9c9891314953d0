"""Runs of the message conversions: everything asked of descriptors, messages and expression values is a function of what it is asked of."""
from .core import *
from .base import BASE, boundary

PURE = {'prost_reflect', 'cel', 'prost', 'prost_types', 'chrono', 'serde_json'}


class E(Engine):
    RECUR = 1

    def opaque_call(self, st, fr, path, fi, name, args, dest, target, dt, argtys, note=None, pure=None):
        if fi is not None and self.p.fns[fi]['cr'] in PURE or pure:
            muts = any(self.p.types[t]['k'] == 'ref' and self.p.types[t]['m'] for t in argtys or ())
            if not muts:
                pure = True
            if path.endswith(('downcast_ref', '>::from', '::into', '>::try_from', '>::try_into', 'str::parse')) and dt is not None:
                path += '<%s>' % tyname(self.p, dt)
        return Engine.opaque_call(self, st, fr, path, fi, name, args, dest, target, dt, argtys, note, pure)


def tyname(p, t):
    """the type a conversion gives: references and the outer option or result taken off"""
    n = 0
    while n < 6:
        n += 1
        x = p.types[t]
        if x['k'] in ('ref', 'ptr'):
            t = x['t']
        elif x['k'] == 'adt' and x['p'].endswith(('option::Option', 'result::Result')) and x.get('sg') is not None:
            t = x['v'][1 if x['p'].endswith('Option') else 0][2][0][1]
        elif x['k'] == 'adt' and x['p'].endswith(('option::Option', 'result::Result')):
            t = x['v'][1 if x['p'].endswith('Option') else 0][2][0][1]
        else:
            break
    return p.types[t]['s']


def make(ctx, extra=None, K=1, cone=None):
    pr = dict(BASE)
    pr.update(extra or {})
    e = E(ctx.p, prims=pr) if cone is None else E(ctx.p, prims=pr, opaque=cone.opaque)
    e.K = K
    e.LUMP = ('::Cardinality', '::Kind')
    e.MAXSTEPS *= 5
    if ctx.tier == 'thorough':
        e.MAXSTEPS *= 20
        e.MAXPATHS *= 20
    return e


INT = {'i8': (-1 << 7, (1 << 7) - 1), 'i16': (-1 << 15, (1 << 15) - 1), 'i32': (-1 << 31, (1 << 31) - 1), 'i64': (-1 << 63, (1 << 63) - 1), 'i128': (-1 << 127, (1 << 127) - 1), 'isize': (-1 << 31, (1 << 31) - 1),
       'u8': (0, (1 << 8) - 1), 'u16': (0, (1 << 16) - 1), 'u32': (0, (1 << 32) - 1), 'u64': (0, (1 << 64) - 1), 'u128': (0, (1 << 128) - 1), 'usize': (0, (1 << 32) - 1)}


F32MAX = (('c', ('f', 0x7f7fffff)), ('c', ('f', 0x47efffffe0000000)))     # the largest f32, as f32 and as f64
F32MIN = (('c', ('f', 0xff7fffff)), ('c', ('f', 0xc7efffffe0000000)))


def b(v):
    """the value itself: references and boxes taken off"""
    n = 0
    while n < 12:
        n += 1
        if v[0] == '&':
            v = v[1]
        elif v[0] == 's' and TERMS[v[1]][0] == 'deref':
            v = ('s', TERMS[v[1]][1])
        else:
            break
    return v


def fld(v, variant, i):
    """field i of a value known to be of that variant"""
    v = b(v)
    if v[0] == 'a':
        return b(getf(v, variant, i)) if v[2] == variant else ('?',)
    if v[0] != 's':
        return ('?',)
    t, n = v[1], 0
    types = Engine.CUR.p.types
    while TTY.get(t) is not None and types[TTY[t]]['k'] in ('ref', 'ptr') and n < 3:
        t = T('deref', t)
        n += 1
    return b(('s', T('fld', t, variant, i)))


def keys_in(v, out=None, seen=None):
    """the map keys a value is made from"""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], int):
            k = TERMS[v[1]]
            if k[0] == 'key':
                out.add(k[1:])
            elif k[0] in ('fld', 'deref', 'cast'):
                keys_in(('s', k[3] if k[0] == 'cast' else k[1]), out)
            else:
                keys_in(k[1:], out)
        else:
            for x in v:
                keys_in(x, out)
    return out


class Rel:
    """what one path found out about values, by the questions it asked"""

    def __init__(self, e, st):
        self.e, self.st, self.p = e, st, e.p
        self.evs = st.events()
        self.at = {}
        for ev in self.evs:
            nm = ev.path
            if nm.endswith('>') and '<' in nm:
                j, d = len(nm) - 1, 0
                while j >= 0:
                    d += nm[j] == '>'
                    d -= nm[j] == '<'
                    if d == 0:
                        break
                    j -= 1
                nm, ty = nm[:j], nm[j + 1:-1]
            else:
                ty = None
            self.at.setdefault(nm.split('::')[-1], []).append((ev, tuple(b(a) for a in ev.args), ty))

    def possible(self):
        """no two keys of one map are taken to be equal"""
        for t, f in self.st.facts.items():
            k = TERMS[t]
            if k[0] == 'eq' and f == ('=', 1):
                a, z = keys_in(k[1]), keys_in(k[2])
                if any(x[0] == y[0] and x[1] != y[1] for x in a for y in z):
                    return False
        return True

    def ask(self, name, *args, ty=None):
        """the answer to the question, None when it was not asked"""
        args = tuple(b(a) for a in args)
        for ev, as_, t in self.at.get(name, ()):
            if as_[:len(args)] == args and (ty is None or t is not None and t.split('::')[-1] == ty):
                return b(ev.ret)
        return None

    def all(self, name):
        return self.at.get(name, ())

    def ty_of(self, v):
        """the type of a value"""
        v = b(v)
        ty, t = v[1] if v[0] == 'a' else None, v[1]
        for _ in range(3 if v[0] == 's' else 0):
            ty = TTY.get(t) if ty is None else ty
            t = T('deref', t)
        if ty is None and v[0] == 's' and TERMS[v[1]][0] == 'key':
            ty = ([i for i, x in enumerate(self.p.types) if x['k'] == 'adt' and x['p'] == self.KEY] or [None])[0]
        if ty is None and v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('DynamicMessage::get_field'):
            ty = ([i for i, x in enumerate(self.p.types) if x['k'] == 'adt' and x['p'] == 'prost_reflect::dynamic::Value'] or [None])[0]
        n = 0
        while ty is not None and n < 6:
            n += 1
            x = self.p.types[ty]
            if x['k'] in ('ref', 'ptr'):
                ty = x['t']
            elif x['k'] == 'adt' and x['p'].endswith('borrow::Cow'):
                ty = x['a'][0]
            else:
                break
        return ty

    KEY = None

    def variant(self, v):
        """name of the variant of an enum value, None when the path does not know"""
        v = b(v)
        if v[0] == 'a':
            t = self.p.types[v[1]]
            return t['v'][v[2]][0] if v[2] is not None and len(t['v']) > 1 else None
        if v[0] == 's':
            d, t = None, v[1]
            for _ in range(3):
                d = self.e.known(self.st, T('disc', t)) if d is None else d
                t = T('deref', t)
            ty = self.ty_of(v)
            if d is None or ty is None or self.p.types[ty]['k'] != 'adt':
                return None
            for x in self.p.types[ty]['v']:
                if int(x[1]) == d:
                    return x[0]
        return None

    def ix(self, v, name):
        return [x[0] for x in self.p.types[self.ty_of(v)]['v']].index(name)

    def some(self, v):
        """1 / 0 / None: an optional value is there"""
        v = b(v)
        if v[0] == 'a':
            return 1 if v[2] == 1 else 0
        return self.e.known(self.st, T('disc', v[1])) if v[0] == 's' else None

    def payload(self, v, variant=1):
        return fld(v, variant, 0)

    def yes(self, v):
        return self.e.truth(self.st, v) if v is not None else None

    def is_text(self, v, s):
        """1 / 0 / None: the text is that constant"""
        if v is None:
            return None
        v = b(v)
        if v[0] == 'c':
            return int(v[1] == s)
        return self.e.truth(self.st, self.e.mk_eq(self.st, v, C(s)))

    def interval(self, x):
        """bounds the path knows for a number"""
        x = b(x)
        lo = hi = None
        if x[0] == 'c' and isinstance(x[1], int):
            return x[1], x[1]
        if x[0] == 's':
            k = TERMS[x[1]]
            if k[0] == 'cast' and k[1] in INT:
                lo, hi = INT[k[1]]
            if k[0] == 'call' and k[1].endswith(('timestamp_subsec_nanos', 'Timelike>::nanosecond')):
                lo, hi = 0, 1999999999
        for t, f in self.st.facts.items():
            k = TERMS[t]
            if f[0] != '=':
                continue
            if k[0] == 'lt':
                if b(k[1]) == x and k[2][0] == 'c' and isinstance(k[2][1], int):
                    if f[1] == 1:
                        hi = k[2][1] - 1 if hi is None else min(hi, k[2][1] - 1)
                    else:
                        lo = k[2][1] if lo is None else max(lo, k[2][1])
                if b(k[2]) == x and k[1][0] == 'c' and isinstance(k[1][1], int):
                    if f[1] == 1:
                        lo = k[1][1] + 1 if lo is None else max(lo, k[1][1] + 1)
                    else:
                        hi = k[1][1] if hi is None else min(hi, k[1][1])
            elif x == b(('s', t)) and isinstance(f[1], int):
                return f[1], f[1]
        return lo, hi

    def fits(self, x, fr, to):
        """casting the number to the type keeps it"""
        if fr in INT and to in INT:
            a, z = INT[fr], INT[to]
            lo, hi = self.interval(x)
            lo = a[0] if lo is None else max(lo, a[0])
            hi = a[1] if hi is None else min(hi, a[1])
            return z[0] <= lo and hi <= z[1]
        if fr in INT and to in ('f64', 'f32'):
            return True         # the nearest there is
        if fr == 'f32' and to == 'f64':
            return True
        if fr == 'f64' and to == 'f32':
            lo = hi = False
            for t, f in self.st.facts.items():
                k = TERMS[t]
                if k[0] == 'lt' and f == ('=', 0):
                    hi = hi or (b(k[2]) == x and k[1] in F32MAX)
                    lo = lo or (b(k[1]) == x and k[2] in F32MIN)
            return lo and hi
        return False

    def exact(self, v, want):
        """the number is the wanted one, unchanged by what happened to it on the way"""
        v, want = b(v), b(want)
        n = 0
        while v != want and n < 8:
            n += 1
            if v[0] != 's':
                return False
            k = TERMS[v[1]]
            if k[0] == 'cast':
                if not self.fits(b(('s', k[3])), k[1], k[2]):
                    return False
                v = b(('s', k[3]))
            elif k[0] == 'fld' and k[2] == 0 and TERMS[k[1]][0] == 'call' and ('try_from' in TERMS[k[1]][1] or 'try_into' in TERMS[k[1]][1]):
                v = b(TERMS[k[1]][2][0])
            elif k[0] == 'call' and self.yes(self.e.mk_eq(self.st, v, want)) == 1:
                return True
            else:
                return False
        return v == want

    def same(self, v, want, also=()):
        """the text or bytes are the wanted ones, copied"""
        v, want = b(v), b(want)
        n = 0
        while v != want and n < 8:
            n += 1
            if v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].split('<std')[0].endswith(('::from', '::deref', '::as_ref', '::clone', '::to_vec', '::to_owned', '::to_string', '::as_str', '::as_bytes', '::as_slice', '::into', '::borrow', '::copy_from_slice', '::into_owned') + tuple(also)) and len(TERMS[v[1]][2]) == 1:
                v = b(TERMS[v[1]][2][0])
            elif v[0] == 's' and TERMS[v[1]][0] == 'call' and ('From>::from' in TERMS[v[1]][1] or 'Into>::into' in TERMS[v[1]][1]):
                v = b(TERMS[v[1]][2][0])
            else:
                return False
        return v == want
