"""Difference bounds between the numbers on an abstract path: does the path establish a + k <= b?"""
from .core import *


def const_int(v):
    return v[1] if v[0] == 'c' and isinstance(v[1], int) else None


class Zone:
    """nodes are values; an edge (x, y, k) states x + k <= y.  Built from the branch facts of one path
    and from what the terms themselves say (lengths and unsigned numbers are not negative, positions found in a text lie in it)."""

    def __init__(self, e, st):
        self.e, self.st = e, st
        self.edges = {}
        self.seen = set()
        for t, f in st.facts.items():
            k = TERMS[t]
            if k[0] == 'lt' and f[0] == '=':
                if f[1] == 1:
                    self.edge(k[1], k[2], 1)
                else:
                    self.edge(k[2], k[1], 0)
            elif k[0] == 'eq' and f == ('=', 1):
                self.edge(k[1], k[2], 0)
                self.edge(k[2], k[1], 0)
            if k[0] == 'eq' and k[2] == C(0) and k[1][0] == 's' and TERMS[k[1][1]][0] == 'Sub' and f == ('=', 0):
                self.edge(TERMS[k[1][1]][2], TERMS[k[1][1]][1], 1)
            if k[0] == 'Sub' and (f == ('=', 0) or f[0] == '!' and 0 in f[1]):
                self.edge(k[1], k[2], 0) if f[0] == '=' else self.edge(k[2], k[1], 1)
            if f[0] == '=' and isinstance(f[1], int):
                self.edge(('s', t), C(f[1]), 0)
                self.edge(C(f[1]), ('s', t), 0)
            elif f[0] == '!':
                n = 0
                while n in f[1]:
                    n += 1
                if n:
                    self.edge(C(n), ('s', t), 0)

    def edge(self, x, y, k):
        self.edges.setdefault(x, []).append((y, k))
        self.node(x)
        self.node(y)

    def node(self, v):
        if v in self.seen:
            return
        self.seen.add(v)
        if v[0] != 's':
            return
        k = TERMS[v[1]]
        if k[0] == 'len':
            self.edge(C(0), v, 0)
            r = rest_of(k[1])
            if r is not None:
                self.edge(v, ('s', T('len', r)), 0)
            q = slice_of(k[1])
            if q is not None:
                x, lo, hi = q
                whole = ('s', T('len', x))
                if hi is None:
                    hi = whole
                if lo == C(0):
                    self.edge(v, hi, 0)
                    self.edge(hi, v, 0)
                self.edge(v, hi, 0)
                self.edge(hi, whole, 0)
            if k[1][0] in ('s', 'v'):
                n = self.e.len_floor(self.st, k[1]) if self.e.seq_of(k[1]) is not None else 0
                if n:
                    self.edge(C(n), v, 0)
                kv = self.e.known(self.st, v[1])
                if isinstance(kv, int):
                    self.edge(C(kv), v, 0)
                    self.edge(v, C(kv), 0)
        elif k[0] == 'Add':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                n = const_int(b)
                if n is not None:
                    self.edge(a, v, n)
                    self.edge(v, a, -n)
                self.edge(a, v, 0)      # unsigned sums checked against overflow
        elif k[0] == 'Sub':
            n = const_int(k[2])
            if n is not None:
                self.edge(v, k[1], n)
                self.edge(k[1], v, -n)
            self.edge(v, k[1], 0)
        elif k[0] == 'call' and k[1].endswith('Utf8Error::valid_up_to'):
            x = misread(k[2][0])
            if x is not None:       # as far as the bytes are text
                self.edge(v, ('s', T('len', x)), 0)
                self.edge(v, self.e.seqlen(self.st, x), 0)
        else:
            t = position(v)
            if t is not None:
                s, w, how = t
                self.edge(v, ('s', T('len', s)), w)
                while slice_of(s) is not None and slice_of(s)[1] == C(0):
                    s = slice_of(s)[0]
                    self.edge(v, ('s', T('len', s)), w)
                self.edge(C(0), v, 0)

    def le(self, a, b, k=0):
        """a + k <= b"""
        ca, cb = const_int(a), const_int(b)
        if ca is not None and cb is not None:
            return ca + k <= cb
        self.node(a)
        self.node(b)
        # longest known distance from a to b over the constraint graph, constants linked to each other
        best = {a: 0}
        work = [a]
        n = 0
        while work and n < 4000:
            n += 1
            x = work.pop(0)
            d = best[x]
            nxt = list(self.edges.get(x, ()))
            cx = const_int(x)
            if cx is not None:
                for y in list(self.edges) + [b]:
                    cy = const_int(y)
                    if cy is not None and y != x:
                        nxt.append((y, cy - cx))
            for y, w in nxt:
                if y not in best or best[y] < d + w:
                    if d + w > 1 << 40:
                        continue
                    best[y] = d + w
                    self.node(y)
                    work.append(y)
        if b in best and best[b] >= k:
            return True
        if ca is None and C(0) not in best:
            pass
        if cb is not None:
            for y in best:
                cy = const_int(y)
                if cy is not None and best[y] + (cb - cy) >= k:
                    return True
        if ca is not None and ca + k <= 0:
            return True         # not below zero: all of these are unsigned
        return False


FOUND = ('str::find', 'str::rfind')


def position(v):
    """(text, bytes known to follow, how) when v is a position found in a text: the payload of find / rfind, or the
    position part of an element of char_indices"""
    if v[0] != 's':
        return None
    k = TERMS[v[1]]
    if k[0] != 'fld':
        return None
    b = TERMS[k[1]]
    if b[0] == 'fld' and b[3] == 0 and TERMS[b[1]][0] == 'elem':
        b = TERMS[b[1]]
    if b[0] == 'call' and b[1].endswith(FOUND) and k[2] == 1 and k[3] == 0:
        s, pat = plain(b[2][0]), plain(b[2][1])
        return s, width(pat), 'found'
    if b[0] == 'elem' and k[3] == 0:
        q = TERMS[b[1]]
        if q[0].endswith('str::char_indices'):
            return plain(q[1][0]), 1, 'char'
    return None


def misread(v):
    """the bytes that an error about text that is none is about"""
    v = plain(v)
    k = TERMS[v[1]] if v[0] == 's' else ('',)
    return k[1] if k[0] == 'utf8err' else None


def slice_of(v):
    """(text, from, to) when v is a slice that was taken (to None: up to the end)"""
    if v[0] != 's':
        return None
    k = TERMS[v[1]]
    if k[0] != 'call' or not k[1].endswith('Index>::index') or len(k[2]) < 2 or k[2][1][0] != 'a':
        return None
    r = k[2][1]
    ty = Engine.CUR.p.types[r[1]]['p'].split('::')[-1] if r[1] is not None else ''
    fs = dict(r[4])
    x = plain(k[2][0])
    if ty == 'RangeTo':
        return x, C(0), fs[0]
    if ty == 'RangeFrom':
        return x, fs[0], None
    if ty == 'Range':
        return x, fs[0], fs[1]
    return None


def rest_of(v):
    """the input a parser's remainder is the end of: result of type Result<(&str, _), nom::Err<_>>"""
    if v[0] != 's':
        return None
    k = TERMS[v[1]]
    while k[0] == 'deref':
        k = TERMS[k[1]]
    if k[0] != 'fld' or k[3] != 0:
        return None
    b = TERMS[k[1]]
    if b[0] != 'fld' or b[2] != 0 or b[3] != 0:
        return None
    c = TERMS[b[1]]
    if c[0] != 'call' or len(c[2]) != 1:
        return None
    ty = TTY.get(b[1])
    p = Engine.CUR.p
    t = p.types[ty] if ty is not None else None
    if t is None or t['k'] != 'adt' or not t['p'].endswith('Result') or len(t.get('a') or ()) != 2:
        return None
    er = p.types[t['a'][1]]
    if er['k'] != 'adt' or not er['p'].startswith('nom::'):
        return None
    return plain(c[2][0])


def plain(v):
    n = 0
    while n < 8:
        n += 1
        if v[0] == '&':
            v = v[1]
        elif v[0] == 's' and TERMS[v[1]][0] == 'deref':
            v = ('s', TERMS[v[1]][1])
        else:
            break
    return v


def width(pat):
    if pat[0] == 'c' and isinstance(pat[1], str):
        return len(pat[1].encode())
    if pat[0] == 'c' and isinstance(pat[1], int) and pat[1] < 128:
        return 1
    return 0
