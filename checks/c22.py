"""C22: every protobuf field kind has matching type, read and write conversions (and C21: numbers keep their value in them)."""
from engine.rules import *
from engine.core import *
from engine import conv, base
from engine.conv import b, fld, Rel
from engine.models import strip

EXPLANATION = '''The conversions are run as abstract paths from their public entries over unknown descriptors, messages and expression values; descriptors and values are asked questions whose answers are functions of what was asked.
Every field written, every value read and every announced type is compared with one table of field kinds, the value must be derived from exactly the field it is for, and a path that fails must have found a reason to.'''
W = 'converters::MessageConverter::'
D = 'converters::DescriptorConverter::'
# kind -> (message value, type of the expression language, announced type)
TABLE = {}
for ks, pv, ct, an in (
        ('Bool', 'Bool', 'CelBool', 'bool'),
        ('Int32 Sint32 Sfixed32', 'I32', 'CelInt', 'int'),
        ('Int64 Sint64 Sfixed64', 'I64', 'CelInt', 'int'),
        ('Uint32 Fixed32', 'U32', 'CelUInt', 'uint'),
        ('Uint64 Fixed64', 'U64', 'CelUInt', 'uint'),
        ('Float', 'F32', 'CelDouble', 'double'), ('Double', 'F64', 'CelDouble', 'double'),
        ('String', 'String', 'CelString', 'string'), ('Bytes', 'Bytes', 'CelBytes', 'bytes'), ('Enum', 'EnumNumber', 'CelInt', 'int')):
    for k in ks.split():
        TABLE[k] = (pv, ct, an)
NUM = ('I32', 'I64', 'U32', 'U64', 'F32', 'F64', 'EnumNumber')
KEY = {'Bool': ('Bool', 'CelBool'), 'I32': ('Int', 'CelInt'), 'I64': ('Int', 'CelInt'), 'U32': ('UInt', 'CelUInt'), 'U64': ('UInt', 'CelUInt'), 'String': ('String', 'CelString')}
TS = 'google.protobuf.Timestamp'


class Write(Rel):
    """is the message value the one for the field, made from the expression value?"""
    numbers = 0
    KEY = 'cel::common::types::map::Key'

    def shape(self, F):
        """'map', 'list' or 'single'"""
        for q in ('is_map',):
            a = self.ask(q, F)
            if a is not None and self.yes(a) == 1:
                return 'map'
        rep = None
        c = self.ask('cardinality', F)
        if c is not None:
            for t, f in self.st.facts.items():
                k = TERMS[t]
                if k[0] == 'eq' and c in (b(k[1]), b(k[2])) and f[0] == '=':
                    other = b(k[2]) if b(k[1]) == c else b(k[1])
                    if other[0] == 'a' and self.p.types[other[1]]['v'][other[2]][0] == 'Repeated':
                        rep = f[1]
            v = self.variant(c)
            if v is not None:
                rep = int(v == 'Repeated')
            elif self.excluded(c, 'Repeated'):
                rep = 0
        l = self.ask('is_list', F)
        if l is not None and self.yes(l) == 1:
            return 'list'
        if rep == 0:
            return 'single'
        if rep == 1:
            k = self.ask('kind', F)
            if k is not None and self.excluded(k, 'Message'):
                return 'list'
            if k is None or self.variant(k) is None:
                return None
            if self.variant(k) != 'Message':
                return 'list'
            m = self.ask('is_map_entry', fld(k, self.ix(k, 'Message'), 0))
            y = self.yes(m) if m is not None else None
            return None if y is None else 'map' if y else 'list'
        return None

    def dc(self, src, ty):
        return self.ask('downcast_ref', src, ty=ty)

    def inner(self, x):
        return self.ask('inner', x)

    def induct(self, role, path, have, args):
        """this function of the crate is used in that role with its arguments in those places: decided by a run of its own"""
        have = [b(a) for a in have]
        if path not in self.own or not all(b(a) in have for a in args):
            return False
        self.need.add((role, path, tuple(have.index(b(a)) for a in args)))
        return True

    def hyp(self, role, V, *args):
        """the result of converting these very values elsewhere"""
        V = b(V)
        k = TERMS[V[1]] if V[0] == 's' else ('?',)
        if k[0] == 'fld' and k[2] == 0 and TERMS[k[1]][0] == 'call':
            return self.induct(role, TERMS[k[1]][1], TERMS[k[1]][2], args)
        return False

    def refused(self, role, *args):
        """converting these very values failed elsewhere"""
        return any(ev.ret[0] == 's' and TERMS[ev.ret[1]][0] == 'call' and self.e.known(self.st, T('disc', ev.ret[1])) == 1 and self.induct(role, ev.path, ev.args, args) for ev in self.evs if ev.ret is not None)

    def write(self, V, src, F):
        if self.hyp('write', V, src, F):
            return None
        sh = self.shape(F)
        V = b(V)
        if sh is None:
            return 'it is not known whether the field is repeated'
        if sh == 'single':
            return self.single(V, src, F)
        if self.variant(V) != ('List' if sh == 'list' else 'Map'):
            return 'a %s field gets %s' % (sh, self.e.show(V))
        x = self.payload(V, V[2])
        l = self.dc(src, 'CelList' if sh == 'list' else 'CelMap')
        if l is None or self.some(l) != 1:
            return 'the value of a %s field is not taken as one' % sh
        items = self.payload(l)
        if sh == 'list':
            if x[0] != 'v':
                return 'the list is %s' % self.e.show(x)
            seq = self.seq_of(items)
            n = 0
            for s in x[1]:
                if s[0] != 'e' or seq is None:
                    return 'the list is %s' % self.e.show(x)
                r = self.single(s[1], ('s', T('elem', seq, n)), F)
                if r:
                    return r
                n += 1
            if seq is None:
                return 'the items of the list are not looked at'
            return self.whole(seq, n)
        if x[0] != 'm':
            return 'the map is %s' % self.e.show(x)
        k = self.ask('kind', F)
        d = fld(k, self.ix(k, 'Message'), 0)
        seq = self.seq_of(items)
        if seq is None:
            return 'the entries of the map are not looked at'
        n = 0
        for s in x[1]:
            if s[0] != 'kv':
                return 'the map is %s' % self.e.show(x)
            kf, vf = self.entry(d, 'key'), self.entry(d, 'value')
            if kf is None or vf is None:
                return 'the map entry is converted without its key and value fields'
            r = self.key(s[1], ('s', T('key', seq, n)), kf) or self.single(s[2], ('s', T('val', seq, n)), vf)
            if r:
                return r
            n += 1
        return self.whole(seq, n)

    def entry(self, d, name):
        a = self.ask('map_entry_%s_field' % name, d)
        if a is not None:
            return a
        a = self.ask('get_field_by_name', d, C(name))
        if a is None or self.some(a) != 1:
            return None
        return self.payload(a)

    def seq_of(self, x):
        """the sequence the path walks over when it walks over x"""
        x = b(x)
        for t in self.st.facts:
            k = TERMS[t]
            if k[0] == 'more' and k[2] == 0:
                y = b(('s', k[1]))
                n = 0
                while y != x and n < 4 and y[0] == 's' and TERMS[y[1]][0] == 'call' and TERMS[y[1]][1].endswith(('Deref>::deref', '::iter', '::as_slice', '::inner')):
                    y = b(TERMS[y[1]][2][0])
                    n += 1
                if y == x:
                    return k[1]
        return None

    def whole(self, seq, n):
        m = 0
        while self.e.known(self.st, T('more', seq, m)) == 1:
            m += 1
        if m != n:
            return '%d of %d elements are taken over' % (n, m)
        if self.e.known(self.st, T('more', seq, m)) != 0 and m < self.e.klimit(seq):
            return 'the rest of the elements is not looked at'
        return None

    def key(self, K, src, F):
        V = self.variant(K)
        if V not in KEY:
            return 'a map key is %s' % self.e.show(K)
        kv, ct = KEY[V]
        if self.variant(src) != kv:
            return 'a map key of type %s becomes %s' % (self.variant(src), V)
        k = self.ask('kind', F)
        if k is None or self.variant(k) not in TABLE or TABLE[self.variant(k)][0] != V:
            return 'a key of type %s goes into a map with keys of kind %s' % (V, self.variant(k) if k else 'not looked at')
        got = self.payload(K, b(K)[2])
        want = self.inner(self.payload(src, self.ix(src, kv)))
        if want is None:
            return 'a map key is %s' % self.e.show(K)
        return self.value(V, got, want, 'a map key')

    def value(self, V, got, want, what):
        if V in NUM:
            self.numbers += 1
            if not self.exact(got, want):
                return 'number: %s of type %s is %s, which need not be the value %s given' % (what, V, self.e.show(got), self.e.show(want))
        elif not self.same(got, want):
            return '%s of type %s is %s instead of the value given' % (what, V, self.e.show(got))
        return None

    def single(self, V, src, F):
        if self.hyp('single', V, src, F):
            return None
        V = b(V)
        k = self.ask('kind', F)
        kind = self.variant(k) if k is not None else None
        if kind is None:
            return 'the kind of the field is not looked at'
        if kind == 'Message':
            return self.nested(V, src, fld(k, self.ix(k, 'Message'), 0), F)
        pv, ct, _an = TABLE[kind]
        if self.variant(V) != pv:
            return 'a field of kind %s gets %s' % (kind, self.e.show(V))
        a = self.dc(src, ct)
        if a is None or self.some(a) != 1:
            return 'a field of kind %s gets a value that is not known to be a %s' % (kind, ct)
        want = self.inner(self.payload(a))
        if want is None:
            return 'the value for a field of kind %s is not read' % kind
        got = self.payload(V, V[2])
        if kind == 'Enum':
            g = b(got)
            if g[0] == 's' and TERMS[g[1]][0] == 'call' and TERMS[g[1]][1].endswith('::number'):
                x = b(TERMS[g[1]][2][0])
                if x[0] == 's' and TERMS[x[1]][0] == 'fld' and TERMS[TERMS[x[1]][1]][0] == 'call' and TERMS[TERMS[x[1]][1]][1].endswith('::get_value'):
                    got = b(TERMS[TERMS[x[1]][1]][2][1])
        return self.value(pv, got, want, 'a field of kind %s' % kind)

    def nested(self, V, src, desc, F):
        if self.variant(V) != 'Message':
            return 'a message field gets %s' % self.e.show(V)
        m = self.payload(V, V[2])
        ts = self.dc(src, 'CelTimestamp')
        if ts is not None and self.some(ts) == 1:
            if self.is_text(self.ask('full_name', desc), TS) != 1:
                return 'a timestamp goes into another kind of message'
            return self.timestamp(m, self.inner(self.payload(ts)), desc)
        if ts is None and self.is_text(self.ask('full_name', desc), TS) != 0:
            return 'a timestamp field is not given the chance to be a timestamp'
        return self.msg(m, src, desc)

    def msg(self, m, src, desc):
        if self.hyp('msg', m, src, desc):
            return None
        s = self.dc(src, 'CelStruct')
        if s is None or self.some(s) != 1:
            return 'a message field gets a value that is not known to be a struct'
        return self.message(m, self.payload(s), desc)

    def chain(self, m):
        """[(field, value)] the message was filled with, and what it was made from"""
        out = []
        m = b(m)
        n = 0
        while m[0] == 's' and TERMS[m[1]][0] == 'mut' and n < 9:
            n += 1
            k = TERMS[m[1]]
            nm = k[1].split('::')[-1]
            prev = b(k[3])
            ev = [(x, as_) for x, as_, _t in self.all(nm) if as_[0] == prev]
            if nm not in ('set_field', 'try_set_field') or not ev:
                return None, m
            ev = [x for x in ev if x[1] not in [y[2] for y in out]] or ev
            out.append((ev[0][1][1], ev[0][1][2], ev[0][1]))
            m = prev
        return [(f, v) for f, v, _a in reversed(out)], m

    def made(self, m, desc):
        k = TERMS[m[1]] if m[0] == 's' else ('?',)
        return k[0] == 'call' and k[1].endswith('DynamicMessage::new') and self.same(k[2][0], desc)

    def timestamp(self, m, dt, desc):
        ch, new = self.chain(m)
        if ch is None or not self.made(new, desc):
            return 'a timestamp message is %s' % self.e.show(m)
        want = {'seconds': ('I64', 'timestamp'), 'nanos': ('I32', 'timestamp_subsec_nanos')}
        for name, (pv, q) in want.items():
            a = self.ask('get_field_by_name', desc, C(name))
            mine = [v for f, v in ch if a is not None and f == self.payload(a)]
            w = self.ask(q, dt) if dt is not None else None
            if len(mine) == 1 and dt is not None and w is None:
                return 'number: the %s of a timestamp are %s' % (name, self.e.show(mine[0]))
            if len(mine) != 1 or self.variant(mine[0]) != pv or w is None:
                return 'the %s of a timestamp are %s' % (name, [self.e.show(v) for v in mine])
            r = self.value(pv, self.payload(mine[0], mine[0][2]), w, 'the %s of a timestamp' % name)
            if r:
                return r
        return None if len(ch) == 2 else 'a timestamp has other fields'

    def message(self, m, struct, desc):
        if self.hyp('message', m, struct, desc):
            return None
        ch, new = self.chain(m)
        if ch is None or not self.made(new, desc):
            return 'a message is %s' % self.e.show(m)
        seq = self.ask('fields', desc)
        if seq is None:
            return 'the fields of a message are not looked at'
        seq = seq[1]
        n = 0
        left = list(ch)
        while self.e.known(self.st, T('more', seq, n)) == 1:
            F = ('s', T('elem', seq, n))
            n += 1
            fv, name = self.given(struct, F)
            if fv is None:
                return 'a field of a message is not looked for in the value'
            has = self.some(fv)
            mine = [v for f, v in left if f == F]
            left = [x for x in left if x[0] != F]
            if has is None or len(mine) != has:
                return 'a field that is %sthere is set %d times' % ('' if has else 'not ', len(mine))
            if has:
                r = self.write(mine[0], self.payload(fv), F)
                if r:
                    return r
        if left:
            return 'a message gets fields it does not have'
        if self.e.known(self.st, T('more', seq, n)) != 0 and n < self.e.klimit(seq):
            return 'the rest of the fields is not looked at'
        return None

    def given(self, struct, F):
        name = self.ask('name', F)
        if name is None:
            return None, None
        return self.ask('field_value', struct, name), name

    def struct_of(self, src):
        i = self.ix(src, 'Struct')
        return fld(src, i, 0)

    def root(self, V, src, desc):
        if self.variant(src) != 'Struct':
            return 'a message is made from something that is not known to be a struct'
        return self.message(V, self.struct_of(src), desc)

    def bad_root(self, src, desc):
        v = self.variant(src)
        if v is not None:
            return v != 'Struct' or self.bad_struct(self.struct_of(src), desc)
        return self.excluded(src, 'Struct')

    # reasons to refuse
    def fails(self, src, F):
        sh = self.shape(F)
        if self.refused('write', src, F):
            return True
        if sh in ('list', 'map'):
            l = self.dc(src, 'CelList' if sh == 'list' else 'CelMap')
            if l is not None and self.some(l) == 0:
                return True
            if l is None:
                return False
            seq = self.seq_of(self.payload(l))
            d = None
            if sh == 'map':
                k = self.ask('kind', F)
                d = fld(k, self.ix(k, 'Message'), 0)
                for nm in ('key', 'value'):
                    a = self.ask('get_field_by_name', d, C(nm))
                    if a is not None and self.some(a) == 0:
                        return True
            n = 0
            while seq is not None and self.e.known(self.st, T('more', seq, n)) == 1:
                if sh == 'list':
                    if self.fails_one(('s', T('elem', seq, n)), F):
                        return True
                else:
                    kf, vf = self.entry(d, 'key'), self.entry(d, 'value')
                    if kf is not None and self.fails_key(('s', T('key', seq, n)), kf) or vf is not None and self.fails_one(('s', T('val', seq, n)), vf):
                        return True
                n += 1
            return False
        return sh == 'single' and self.fails_one(src, F)

    def fails_key(self, src, F):
        k = self.ask('kind', F)
        kind = self.variant(k) if k is not None else None
        v = self.variant(src)
        if v is None or k is None:
            return False
        if kind is None:        # one of several kinds, none of them fitting
            ok = [x for x, (pv, _c, _a) in TABLE.items() if pv in KEY and KEY[pv][0] == v]
            return all(self.excluded(k, x) for x in ok)
        pv = TABLE[kind][0] if kind in TABLE else None
        if pv not in KEY or KEY[pv][0] != v:
            return True
        return pv in NUM and self.outside(self.inner(self.payload(src, self.ix(src, v))), pv)

    def excluded(self, v, name):
        v = b(v)
        if v[0] == 'a':
            return self.variant(v) != name
        if v[0] != 's':
            return False
        ty = self.ty_of(v)
        d = [int(x[1]) for x in self.p.types[ty]['v'] if x[0] == name][0]
        f = self.st.facts.get(T('disc', v[1]))
        return f is not None and (f[0] == '!' and d in f[1] or f[0] == '=' and f[1] != d)

    def outside(self, x, pv):
        if x is None:
            return False
        if pv == 'F32':
            for t, f in self.st.facts.items():
                k = TERMS[t]
                if k[0] == 'lt' and f == ('=', 1) and (b(k[1]) == b(x) and k[2] in conv.F32MIN or b(k[2]) == b(x) and k[1] in conv.F32MAX):
                    return True
                if k[0] == 'call' and k[1].endswith(('is_finite', 'is_nan', 'is_infinite')) and b(k[2][0]) == b(x):
                    if f == ('=', 0 if k[1].endswith('is_finite') else 1):
                        return True
            return False
        lo, hi = self.interval(b(x))
        a, z = conv.INT[{'EnumNumber': 'i32'}.get(pv, pv.lower())]
        return hi is not None and hi < a or lo is not None and lo > z

    def fails_one(self, src, F):
        k = self.ask('kind', F)
        kind = self.variant(k) if k is not None else None
        if kind is None:
            return False
        if self.refused('single', src, F):
            return True
        if kind == 'Message':
            desc = fld(k, self.ix(k, 'Message'), 0)
            ts = self.dc(src, 'CelTimestamp')
            if ts is not None and self.some(ts) == 1:
                return any(a is not None and self.some(a) == 0 for a in (self.ask('get_field_by_name', desc, C(nm)) for nm in ('seconds', 'nanos')))
            return self.bad_msg(src, desc)
        pv, ct, _an = TABLE[kind]
        a = self.dc(src, ct)
        if a is None:
            return False
        if self.some(a) == 0:
            return True
        want = self.inner(self.payload(a))
        if kind == 'Enum' and any(self.some(b(ev.ret)) == 0 for ev, as_, _t in self.all('get_value') if want is not None and self.exact(as_[1], want)):
            return True
        return pv in NUM and self.outside(want, pv)

    def bad_msg(self, src, desc):
        if self.refused('msg', src, desc):
            return True
        s = self.dc(src, 'CelStruct')
        if s is None:
            return False
        return self.some(s) == 0 or self.bad_struct(self.payload(s), desc)

    def bad_struct(self, struct, desc):
        if self.refused('message', struct, desc):
            return True
        seq = self.ask('fields', desc)
        n = 0
        while seq is not None and self.e.known(self.st, T('more', seq[1], n)) == 1:
            F = ('s', T('elem', seq[1], n))
            fv, _name = self.given(struct, F)
            if fv is not None and self.some(fv) == 1 and self.fails(self.payload(fv), F):
                return True
            n += 1
        return False


class Read(Rel):
    """is the expression value the one the message holds?"""
    numbers = 0
    KEY = 'prost_reflect::dynamic::MapKey'

    hyp, value, whole, seq_of, refused, induct = Write.hyp, Write.value, Write.whole, Write.seq_of, Write.refused, Write.induct

    def made_from(self, V, ty):
        """what a value of that type of the expression language was made from"""
        V = b(V)
        if V[0] != 's' or TERMS[V[1]][0] != 'call':
            return None
        k = TERMS[V[1]]
        for x in ('From>::from<', 'Into>::into<'):
            if x in k[1] and k[1].split(x)[1][:-1].split('::')[-1] == ty:
                return b(k[2][0])
        return None

    def desc(self, m):
        return self.ask('descriptor', m)

    def read(self, V, src):
        if self.hyp('read', V, src):
            return None
        v = self.variant(src)
        if v is None:
            return 'what the field holds is not looked at'
        x = self.payload(src, self.ix(src, v))
        if v == 'Message':
            return self.message(V, x)
        if v == 'List':
            return self.list(V, x)
        if v == 'Map':
            return self.map(V, x)
        ct = [c for _k, (pv, c, _a) in TABLE.items() if pv == v][0]
        got = self.made_from(V, ct)
        if got is None:
            return 'a %s is read as %s' % (v, self.e.show(V))
        return self.value(v, got, x, 'what is read from a %s' % v)

    def list(self, V, x):
        got = self.made_from(V, 'CelList')
        if got is None or got[0] != 'v' or any(s[0] != 'e' for s in got[1]):
            return 'a list is read as %s' % self.e.show(V)
        seq = self.seq_of(x)
        if seq is None:
            return None if not got[1] and self.empty(x) else 'the items of a list are not looked at'
        for n, s in enumerate(got[1]):
            r = self.read(s[1], ('s', T('elem', seq, n)))
            if r:
                return r
        return self.whole(seq, len(got[1]))

    def empty(self, x):
        return self.e.known(self.st, T('len', x)) == 0 if x[0] == 's' else False

    def map(self, V, x):
        got = self.made_from(V, 'CelMap')
        if got is None or got[0] != 'm' or any(s[0] != 'kv' for s in got[1]):
            return 'a map is read as %s' % self.e.show(V)
        seq = self.seq_of(x)
        if seq is None:
            return None if not got[1] and self.empty(x) else 'the entries of a map are not looked at'
        for n, s in enumerate(got[1]):
            r = self.key(s[1], ('s', T('key', seq, n))) or self.read(s[2], ('s', T('val', seq, n)))
            if r:
                return r
        return self.whole(seq, len(got[1]))

    def key(self, K, src):
        v = self.variant(src)
        if v not in KEY:
            return 'a map key is not looked at'
        kv, ct = KEY[v]
        K = b(K)
        if self.variant(K) != kv:
            return 'a map key of type %s is read as %s' % (v, self.e.show(K))
        got = self.made_from(self.payload(K, K[2]), ct)
        return self.value(v, got, self.payload(src, self.ix(src, v)), 'a map key') if got is not None else 'a map key is %s' % self.e.show(K)

    def message(self, V, m):
        d = self.desc(m)
        name = self.ask('full_name', d) if d is not None else None
        if name is None:
            return 'the type of a message is not looked at'
        known = {x: self.is_text(name, 'google.protobuf.' + x) for x in ('Timestamp', 'Struct', 'Value', 'ListValue')}
        for x, y in known.items():
            if y == 1:
                return getattr(self, 'wkt_' + x.lower())(V, m, d)
        for x, y in known.items():
            if y is None:
                return 'a message that may be a google.protobuf.%s is read as a plain one' % x
        return self.object(V, m, d)

    def held(self, m, d, name):
        """what the named field of the message holds"""
        a = self.ask('get_field_by_name', d, C(name))
        if a is None or self.some(a) != 1:
            return None
        return self.ask('get_field', m, self.payload(a))

    def wkt_timestamp(self, V, m, d):
        got = self.made_from(V, 'CelTimestamp')
        if got is None:
            return 'a timestamp is read as %s' % self.e.show(V)
        n = 0
        while got[0] == 's' and n < 6:
            n += 1
            k = TERMS[got[1]]
            if k[0] == 'call' and k[1].split('<chrono')[0].endswith(('::from', '::into', '::fixed_offset', '::with_timezone')) or k[0] == 'call' and 'From>::from<chrono' in k[1]:
                got = b(k[2][0])
            elif k[0] == 'fld' and TERMS[k[1]][0] == 'call' and TERMS[k[1]][1].endswith('::from_timestamp'):
                s, ns = TERMS[k[1]][2]
                hs, hn = self.held(m, d, 'seconds'), self.held(m, d, 'nanos')
                if hs is None or hn is None or self.variant(hs) != 'I64' or self.variant(hn) != 'I32':
                    return 'a timestamp is made from something else than its seconds and nanos'
                r = self.value('I64', s, self.payload(hs, self.ix(hs, 'I64')), 'the seconds of a timestamp')
                ns, want = b(ns), self.payload(hn, self.ix(hn, 'I32'))
                # from_timestamp refuses nanos of 2^31 and more, which negative ones become
                if not r and not (ns[0] == 's' and TERMS[ns[1]][0] == 'cast' and TERMS[ns[1]][1:3] == ('i32', 'u32') and b(('s', TERMS[ns[1]][3])) == want):
                    r = self.value('I32', ns, want, 'the nanos of a timestamp')
                return r
            else:
                break
        return 'a timestamp is made from %s' % self.e.show(got)

    def wkt_struct(self, V, m, d):
        h = self.held(m, d, 'fields')
        if h is None or self.variant(h) != 'Map':
            return 'the fields of a google.protobuf.Struct are not read'
        return self.map(V, self.payload(h, self.ix(h, 'Map')))

    def wkt_listvalue(self, V, m, d):
        h = self.held(m, d, 'values')
        if h is None or self.variant(h) != 'List':
            return 'the values of a google.protobuf.ListValue are not read'
        return self.list(V, self.payload(h, self.ix(h, 'List')))

    def null(self, V):
        V = b(V)
        return V[0] == 'a' and self.p.types[V[1]]['p'].endswith(('null::Null', 'CelNull'))

    def fields(self, d):
        """[(field)] the path walked over, and whether these are all"""
        seq = self.ask('fields', d)
        if seq is None:
            return None, False
        out, n = [], 0
        while self.e.known(self.st, T('more', seq[1], n)) == 1:
            out.append(('s', T('elem', seq[1], n)))
            n += 1
        return out, self.e.known(self.st, T('more', seq[1], n)) == 0 or n >= self.e.klimit(seq[1])

    def is_value(self, m, F):
        """the oneof member is the one that is set"""
        h = self.ask('has_field', m, F)
        return self.yes(h) if h is not None else None

    def wkt_value(self, V, m, d):
        fs, whole = self.fields(d)
        if fs is None:
            return 'the fields of a google.protobuf.Value are not looked at'
        for F in fs:
            o = self.ask('containing_oneof', F)
            if o is not None and self.some(o) == 0:
                return None         # it has no such field
            h = self.is_value(m, F)
            if h is None:
                return 'it is not known which field of a google.protobuf.Value is set'
            if h == 0:
                continue
            g = self.ask('get_field', m, F)
            if self.null(V):
                return None if self.is_text(self.ask('name', F), 'null_value') == 1 else 'another value than null is read as null'
            if self.is_text(self.ask('name', F), 'null_value') != 0:
                return 'a null is read as %s' % self.e.show(V)
            return self.read(V, g) if g is not None else 'the value is not read'
        if not whole:
            return 'the rest of the fields of a google.protobuf.Value is not looked at'
        return None if self.null(V) else 'a google.protobuf.Value with nothing set is read as %s' % self.e.show(V)

    def object(self, V, m, d=None):
        d = self.desc(m) if d is None else d
        if d is None:
            return 'the descriptor is not looked at'
        if self.hyp('object', V, m):
            return None
        ch, new = self.chain(V)
        k = TERMS[new[1]] if new[0] == 's' else ('?',)
        if ch is None or k[0] != 'call' or not k[1].endswith('::new') or not self.same(k[2][0], self.ask('full_name', d)):
            return 'a message is read as %s' % self.e.show(V)
        fs, whole = self.fields(d)
        if fs is None:
            return 'the fields of a message are not looked at'
        left = list(ch)
        for F in fs:
            h, pr, name = self.ask('has_field', m, F), self.ask('supports_presence', F), self.ask('name', F)
            h, pr = [self.yes(x) if x is not None else None for x in (h, pr)]
            want = 1 if h == 1 or pr == 0 else 0 if h == 0 and pr == 1 else None
            mine = [v for n, v in left if name is not None and self.same(n, name)]
            left = [x for x in left if name is None or not self.same(x[0], name)]
            if want is None:
                return 'it is not known whether a field is to be read'
            if len(mine) != want:
                return 'a field that is %sthere is read %d times' % ('' if want else 'not ', len(mine))
            if want:
                g = self.ask('get_field', m, F)
                w = b(mine[0])
                if g is None:
                    return 'a field is read without its value'
                r = self.read(self.payload(w, w[2]) if w[0] == 'a' and self.p.types[w[1]]['p'].endswith('Cow') else w, g)
                if r:
                    return r
        if left:
            return 'a message is read with fields it does not have'
        return None if whole else 'the rest of the fields is not looked at'

    def chain(self, m):
        out = []
        m = b(m)
        n = 0
        while m[0] == 's' and TERMS[m[1]][0] == 'mut' and n < 9:
            n += 1
            k = TERMS[m[1]]
            prev = b(k[3])
            ev = [as_ for x, as_, _t in self.all(k[1].split('::')[-1]) if as_[0] == prev]
            if not k[1].endswith('::add_field_value') or not ev:
                return None, m
            ev = [x for x in ev if x not in [y[2] for y in out]] or ev
            out.append((ev[0][1], ev[0][2], ev[0]))
            m = prev
        return [(f, v) for f, v, _a in reversed(out)], m

    def whole_message(self, V, m):
        V = b(V)
        if self.variant(V) != 'Struct':
            return 'a message is read as %s' % self.e.show(V)
        d = self.desc(m)
        return self.object(self.payload(V, V[2]), m, d) if d is not None else 'the descriptor is not looked at'

    def refuses(self, *_args):
        """the path found something no message of that descriptor holds, or a time there is none for"""
        for ev in self.evs:
            nm = ev.path.split('::')[-1]
            if ev.path in self.own and ev.ret[0] == 's' and self.e.known(self.st, T('disc', ev.ret[1])) == 1:
                # whatever it was given, it is one of the conversions decided here
                # (in whatever role; if none asks for it, in that of a reader)
                return any(self.induct('any', ev.path, ev.args, (a,)) for a in ev.args[:1])
            if nm in ('get_field_by_name', 'from_timestamp', 'timestamp_opt') and self.some(ev.ret) == 0:
                return True
            if nm == 'get_field_by_name':
                want = {'seconds': 'I64', 'nanos': 'I32', 'fields': 'Map', 'values': 'List'}
                F = self.payload(ev.ret)
                for x, as_, _t in self.all('get_field'):
                    w = want.get(b(ev.args[1])[1])
                    if as_[1] == F and w and self.excluded(b(x.ret), w):
                        return True
            if nm == 'name':
                o = [as_[0] for _x, as_, _t in self.all('containing_oneof')]
                if b(ev.args[0]) in o and all(self.is_text(ev.ret, x) == 0 for x in ('null_value', 'number_value', 'string_value', 'bool_value', 'struct_value', 'list_value')):
                    return True
        return False

    excluded = Write.excluded


class Announce(Rel):
    shape = Write.shape

    def name_of(self, t):
        """the name a constant type has"""
        out = set()

        def walk(v, n=0):
            if isinstance(v, tuple) and n < 12:
                if len(v) == 2 and v[0] == 'c' and isinstance(v[1], str):
                    out.add(v[1])
                else:
                    for x in v:
                        walk(x, n + 1)
        walk(self.e.snap(self.st, t))
        return out.pop() if len(out) == 1 else None

    def type(self, t, F):
        sh = self.shape(F)
        if sh is None:
            return 'it is not known whether the field is repeated'
        if sh != 'single':
            return None if self.name_of(t) == sh else 'a %s field is announced as %s' % (sh, self.e.show(t))
        k = self.ask('kind', F)
        kind = self.variant(k) if k is not None else None
        if kind is None:
            return 'the kind of the field is not looked at'
        if kind != 'Message':
            return None if self.name_of(t) == TABLE[kind][2] else 'a field of kind %s is announced as %s' % (kind, self.e.show(t))
        d = fld(k, self.ix(k, 'Message'), 0)
        name = self.ask('full_name', d)
        y = self.is_text(name, TS)
        if y == 1:
            return None if self.name_of(t) == TS else 'a timestamp is announced as %s' % self.e.show(t)
        t = b(t)
        if y == 0 and t[0] == 's' and TERMS[t[1]][0] == 'call' and TERMS[t[1]][1].endswith('::new_struct') and self.same(TERMS[t[1]][2][0], name):
            return None
        return 'a message field is announced as %s' % self.e.show(t)

    def struct(self, v, d):
        """is it the announcement of that message?"""
        v, n, ch = b(v), 0, []
        while v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('StructDef::add_field') and n < 9:
            n += 1
            prev, name, ty = TERMS[v[1]][2]
            ch.append((name, ty))
            v = b(prev)
        name = self.ask('full_name', d)
        if not (v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('StructDef::new') and name is not None and self.same(TERMS[v[1]][2][0], name)):
            return 'a message is announced as %s' % self.e.show(v)
        fs, whole = Read.fields(self, d)
        if fs is None:
            return 'the fields of a message are not looked at'
        for F in fs:
            name = self.ask('name', F)
            mine = [x for x in ch if name is not None and self.same(x[0], name)]
            if len(mine) != 1:
                return 'a field is announced %d times' % len(mine)
            ch = [x for x in ch if x is not mine[0]]
            r = self.type(mine[0][1], F)
            if r:
                return r
        if ch:
            return 'a field is announced that the message does not have'
        return None if whole else 'the rest of the fields is not announced'

    def head(self, v):
        """the name a definition is for"""
        v, n = b(v), 0
        while v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('StructDef::add_field') and n < 9:
            v, n = b(TERMS[v[1]][2][0]), n + 1
        return b(TERMS[v[1]][2][0]) if v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('StructDef::new') else None

    def reach(self, defs, d, why='the message itself', seen=None):
        """every message that can be met from this one is announced"""
        seen = [] if seen is None else seen
        name = self.ask('full_name', d)
        if name is None:
            return '%s is not looked at' % why
        if any(x == name or self.yes(self.e.mk_eq(self.st, x, name)) == 1 for x in seen):
            return None
        seen.append(name)
        me = self.ask('is_map_entry', d)
        me = self.yes(me) if me is not None else None
        mine = [x for x in defs if self.head(x) is not None and self.same(self.head(x), name)]
        if me == 0 and len(mine) != 1 or me == 1 and mine:
            return '%s is announced %d times' % (why, len(mine))
        if me is None:
            return '%s: it is not known whether it is a map entry' % why
        if mine:
            r = self.struct(mine[0], d)
            if r:
                return r
        fs, _w = Read.fields(self, d)
        if fs is None:
            return 'the fields of a message are not looked at'
        for F in fs:
            k = self.ask('kind', F)
            kind = self.variant(k) if k is not None else None
            if kind is None:
                if not self.excluded(k, 'Message') if k is not None else True:
                    return 'the kind of a field is not looked at'
            if kind == 'Message':
                r = self.reach(defs, fld(k, self.ix(k, 'Message'), 0), 'the message of a field', seen)
                if r:
                    return r
        return None

    excluded = Write.excluded


def depth_of(s):
    """how many message fields lie between the message the fields of which are meant and the outermost one"""
    n = 0
    todo, seen = [s], set()
    while todo:
        t = todo.pop()
        if isinstance(t, int) and not isinstance(t, bool):
            if t in seen or not 0 <= t < len(TERMS):
                continue
            seen.add(t)
            k = TERMS[t]
            n += k[0] == 'call' and k[1].endswith('FieldDescriptor::kind')
            todo += k[1:2] if k[0] in ('fld', 'deref', 'elem') else k[2] if k[0] == 'call' else ()
        elif isinstance(t, tuple):
            todo += t[1:]
    return n


def announcing(ctx):
    n = m = refused = 0
    for K in (1, 2):
        fi, e, states = runs(ctx, D + 'to_struct_def', None, K)
        d = b(e.params(fi)[0])
        for st in states:
            r = Announce(e, st)
            n += 1
            if st.result[2] != 0:
                refused += 1
                ctx.oblige(False, 'announce: refused', 'a message type is not announced\n%s' % trace_text(e, st))
                continue
            why = r.struct(getf(e.snap(st, st.result), 0, 0), d)
            ctx.oblige(not why, 'announce: %s' % key_of(why), '%s\n%s' % (why, trace_text(e, st)))
    for K in (1, 2):
        fi, e, states = runs(ctx, D + 'collect_struct_defs', None, K, lambda s: max(0, K - depth_of(s)))
        d = b(e.params(fi)[0])
        for st in states:
            r = Announce(e, st)
            m += 1
            v = getf(e.snap(st, st.result), st.result[2], 0)
            if st.result[2] != 0 or v[0] != 'v' or any(x[0] != 'e' for x in v[1]):
                ctx.oblige(False, 'announce all: refused', 'the messages of a service are not announced\n%s' % trace_text(e, st))
                continue
            why = r.reach([x[1] for x in v[1]], d)
            ctx.oblige(not why, 'announce all: %s' % key_of(why), '%s\n%s' % (why, trace_text(e, st)))
    ctx.floor('announced message types', n, 20)
    ctx.floor('collected message types', m, 20)


def runs(ctx, name, extra=None, K=1, fields=None):
    fi = ctx.p.find1(name)
    e = conv.make(ctx, extra, K)
    if callable(fields):
        e.KOF = lambda s: fields(s) if TERMS[s][0] == 'call' and TERMS[s][1].endswith('MessageDescriptor::fields') else e.K
    elif fields is not None:
        e.KOF = lambda s: fields if TERMS[s][0] == 'call' and TERMS[s][1].endswith('MessageDescriptor::fields') else e.K
    out = e.run(fi)
    ctx.engine_stats(e)
    ctx.cov['functions_analysed'].add(ctx.p.fns[fi]['p'])
    return fi, e, out


ROLES = {'write': ('write', 'fails'), 'single': ('single', 'fails_one'), 'message': ('message', 'bad_struct'), 'msg': ('msg', 'bad_msg'), 'root': ('root', 'bad_root'),
         'read': ('read', 'refuses'), 'object': ('object', 'refuses'), 'whole': ('whole_message', 'refuses')}


def deciding(ctx, cls, start, configs, only, tag0):
    """every function used as a conversion, from the public one on, each run on its own"""
    own = {f['p'] for f in ctx.p.fns if f['l']}
    todo, done = [start], set()
    n = good = bad = num = 0
    while todo:
        todo.sort(key=lambda t: t[0] != 'any')
        role, path, pos = todo.pop()
        if role == 'any':
            if any(p == path for _r, p, _a in done):
                continue
            role = 'read'
        if (role, path, pos) in done:
            continue
        done.add((role, path, pos))
        need = set()
        for K, fields, extra, tag in configs:
            fi, e, states = runs(ctx, path, extra, K, fields)
            ps = e.params(fi)
            args = [b(ps[i]) for i in pos]
            for st in states:
                n += 1
                r = cls(e, st)
                r.own, r.need = own, need
                if not r.possible():
                    continue
                where = '' if role in ('root', 'whole') else '%s: ' % path.split('::')[-1]
                res = e.snap(st, st.result)
                d = res[2] if res[0] == 'a' else e.known(st, T('disc', res[1])) if res[0] == 's' else None
                if d != 1:      # it succeeds, or hands on what another conversion gives
                    good += 1
                    V = getf(res, 0, 0) if res[0] == 'a' else ('s', T('fld', res[1], 0, 0)) if res[0] == 's' else res
                    why = getattr(r, ROLES[role][0])(V, *args)
                    num += r.numbers
                    if only is None or not why or why.startswith('number: ') == (only == 'numbers'):
                        ctx.oblige(not why, '%s: %s%s%s' % (tag0, where, tag, key_of(why)), '%s\n%s' % (why, trace_text(e, st)))
                elif only is None:
                    bad += 1
                    ctx.oblige(getattr(r, ROLES[role][1])(*args), '%s: %srefused' % (tag0, where), 'a value is refused although everything looked at fits\n%s' % trace_text(e, st))
        todo += sorted(need - done)
    ctx.sample('%s: functions decided: %s' % (tag0, sorted(done)))
    return n, good, bad, num


def writing(ctx, only=None):
    configs = [(1, 1, None, ''), (2, 2, texts(ctx), 'several fields: '), (2, 2, maps(ctx), 'several entries: ')]
    n, good, bad, num = deciding(ctx, Write, ('root', ctx.p.fns[ctx.p.find1(W + 'cel_to_dynamic_message')]['p'], (0, 1)), configs, only, 'write')
    ctx.floor('writing paths', n, 500)
    ctx.floor('messages written', good, 200)
    if only is None:
        ctx.floor('values refused', bad, 100)
    ctx.floor('numbers written', num, 20)


def reading(ctx, only=None):
    configs = [(1, 1, None, ''), (2, 2, holding(ctx, 'String'), 'several fields: '), (2, 1, holding(ctx, 'List'), 'several items: '), (2, 1, holding(ctx, 'Map'), 'several entries: ')]
    n, good, bad, num = deciding(ctx, Read, ('whole', ctx.p.fns[ctx.p.find1(W + 'dynamic_message_to_cel')]['p'], (0,)), configs, only, 'read')
    ctx.floor('reading paths', n, 200)
    ctx.floor('messages read', good, 100)
    if only is None:
        ctx.floor('messages refused', bad, 20)
    ctx.floor('numbers read', num, 10)


def holding(ctx, name):
    """all fields hold lists, or maps, or texts"""
    p = ctx.p
    v = adt(p, 'prost_reflect::dynamic::Value')

    def held(e, st, args):
        x = T('call', 'held', tuple(args))
        ty = [f[1] for w in p.types[v]['v'] if w[0] == name for f in w[2]][0]
        TTY[x] = ty
        return enum(p, v, name, (('s', x),))

    def prim(e, st, c):
        args = tuple(e.snap(st, a) for a in c.args)
        r = held(e, st, args)
        e.event(st, 'call', c.path, c.name, c.fi, args, tuple(c.args), r, c.fr)
        c.give(r)
    return {'DynamicMessage::get_field': prim}


def key_of(why):
    import re
    return re.sub(r'\s+', ' ', (why or '').split(' is ')[0].split(' gets ')[0])[:70]


def enum(p, ty, name, fields=()):
    return ('a', ty, [x[0] for x in p.types[ty]['v']].index(name), None, tuple(enumerate(fields)))


def adt(p, path):
    """the type with that full path"""
    n = [i for i, t in enumerate(p.types) if t['k'] == 'adt' and t['p'] == path]
    if len(n) != 1:
        raise AnalysisError('no single type %s' % path)
    return n[0]


def texts(ctx):
    """all fields hold texts, repeated or not"""
    k = adt(ctx.p, 'prost_reflect::descriptor::Kind')
    return {'FieldDescriptor::kind': kind_prim(ctx, lambda e, st, F: enum(ctx.p, k, 'String'))}


def maps(ctx):
    """all fields are maps from texts to texts"""
    p = ctx.p
    k, r = adt(p, 'prost_reflect::descriptor::Kind'), adt(p, 'prost_reflect::descriptor::Cardinality')

    def of(e, st, F):
        F = b(F)
        if F[0] == 's' and TERMS[F[1]][0] == 'elem':
            return enum(p, k, 'Message', (('s', T('call', 'entry_of', (F,))),))
        return enum(p, k, 'String')

    return {'FieldDescriptor::kind': kind_prim(ctx, of), 'FieldDescriptor::cardinality': kind_prim(ctx, lambda e, st, F: enum(p, r, 'Repeated')),
            'MessageDescriptor::is_map_entry': kind_prim(ctx, lambda e, st, d: C(1))}


def kind_prim(ctx, f):
    def prim(e, st, c):
        v = f(e, st, e.snap(st, c.args[0]))
        e.event(st, 'call', c.path, c.name, c.fi, tuple(e.snap(st, a) for a in c.args), tuple(c.args), v, c.fr)
        c.give(v)
    return prim


def check(ctx):
    ctx.rule('cel_to_dynamic_message: every field of the descriptor that the value has is set once, from that very value, in the form its kind requires, lists and maps whole; a path that refuses has found a value of the wrong type or out of range')
    writing(ctx)
    ctx.rule('dynamic_message_to_cel: every field that is set or has no presence is read once, under its name, as the value its type requires, lists and maps whole, well-known types unwrapped')
    reading(ctx)
    ctx.rule('to_struct_def and collect_struct_defs: every field is announced once, under its name, with the type its conversion reads and writes, and so is every message met through the fields')
    announcing(ctx)
