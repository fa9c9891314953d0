"""Reading a CEL text assembled by the program: literal text and holes (values of the configuration) are parsed
together, so that what a hole means is decided by where it stands."""
from .acts import *

CHARS = {92: '\\', 34: '"', 39: "'", 10: '\n', 13: '\r', 9: '\t'}
ESC = {'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', '"': '"', "'": "'"}


class Unclear(Exception):
    pass


def const(v):
    v = strip(v)
    while v[0] == '&':
        v = strip(v[1])
    if v[0] == 'c' and isinstance(v[1], str):
        return v[1]
    if v[0] == 'c' and isinstance(v[1], int) and not isinstance(v[1], bool):
        return chr(v[1])
    return None


def bare(v):
    v = strip(v)
    n = 0
    while n < 30:
        n += 1
        if v[0] == '&':
            v = strip(v[1])
            continue
        if v[0] != 's':
            return v
        k = TERMS[v[1]]
        if k[0] == 'deref':
            v = strip(('s', k[1]))
        elif k[0] == 'call' and k[2] and k[1].endswith(('ToString::to_string', 'Clone::clone', 'to_owned', 'String::as_str', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow')):
            v = strip(k[2][0])
        else:
            return v
    return v


def flat(v, escapers=()):
    """[str | ('raw', term) | ('esc', term)]: the parts of a text, escaping resolved"""
    v = bare(v)
    if v[0] == 'c' and isinstance(v[1], (str, int)):
        return [str(v[1])]
    k = TERMS[v[1]] if v[0] == 's' else None
    if k is None:
        raise Unclear('a text of unknown making')
    if k[0] == 'cat':
        return flat(k[1], escapers) + flat(k[2], escapers)
    if k[0] == 'format':
        out = parts_of_format(k[1])
        if out is None:
            raise Unclear('formatted with width, precision or debug output')
        r = []
        for x in out:
            r += [x] if isinstance(x, str) else flat(x, escapers)
        return r
    if k[0] == 'call' and k[1].endswith('::join') or k[0] == 'call' and k[1].endswith('::concat'):
        l = bare(k[2][0])
        sep = flat(k[2][1], escapers) if len(k[2]) > 1 else []
        if l[0] != 'v' or any(s[0] != 'e' for s in l[1]):
            raise Unclear('a join of a list whose elements are not known')
        r = []
        for i, s in enumerate(l[1]):
            if i:
                r += sep
            r += flat(s[1], escapers)
        return r
    if k[0] == 'call' and k[1] in escapers:
        return escaped(flat(k[2][-1], escapers), {c: '\\' + e for e, c in ESC.items() if c != "'"})
    if k[0] == 'call' and k[1].endswith('::replace'):
        chain = []
        while v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith('::replace'):
            a = TERMS[v[1]][2]
            chain.append((const(a[1]), const(a[2])))
            v = bare(a[0])
        chain.reverse()
        if any(x is None or y is None for x, y in chain):
            raise Unclear('replacement of unknown text')
        m = table(chain)
        return escaped(flat(v, escapers), m)
    return [('raw', v[1])]


def table(chain):
    """what a chain of replacements makes of each special character; Unclear when it is not a character map"""
    m = {}
    if any(len(x) != 1 for x, y in chain):
        raise Unclear('a chain of replacements that is no escaping')
    for c in {x for x, _ in chain}:
        s = c
        for x, y in chain:
            s = s.replace(x, y)
        if s != c:
            m[c] = s
    return m


def escaped(parts, m):
    """the parts with the character map applied; it must be the escaping of a double quoted literal"""
    for c in '\\"\n\r':
        if m.get(c) is None or unesc(m[c]) != c:
            raise Unclear('escaping that leaves %r as %r' % (c, m.get(c, c)))
    if any(unesc(s) != c for c, s in m.items()):
        raise Unclear('escaping that changes the text')
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(''.join(m.get(c, c) for c in x))
        elif x[0] == 'raw':
            out.append(('esc', x[1]))
        else:
            raise Unclear('text escaped twice')
    return out


def unesc(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '\\':
            i += 1
            if i >= len(s) or s[i] not in ESC:
                return None
            out += ESC[s[i]]
        else:
            if s[i] == '"':
                return None
            out += s[i]
        i += 1
    return out


def parts_of_format(v):
    k = TERMS[v[1]] if v[0] == 's' else None
    if k is None or k[0] != 'fmtargs':
        return None
    args = [s[1] for s in k[2][1]] if k[2][0] == 'v' else None
    t = k[1][1] if k[1][0] == 'c' else None
    if isinstance(t, tuple) and t[0] == 'b':
        t = bytes.fromhex(t[1])
    if isinstance(t, str):
        return [t] if not args else None
    if args is None or not isinstance(t, bytes):
        return None
    out, i, n = [], 0, 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(t[i:i + b].decode())
            i += b
        elif b == 0x80:
            ln = int.from_bytes(t[i:i + 2], 'little')
            out.append(t[i + 2:i + 2 + ln].decode())
            i += 2 + ln
        else:
            if b & 0x37:
                return None     # width, precision or flags
            if b & 8:
                n = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            a = args[n] if n < len(args) else None
            n += 1
            ak = TERMS[a[1]] if a is not None and a[0] == 's' else None
            if ak is None or ak[0] != 'fmtarg' or ak[1] != 'display':
                return None
            out.append(ak[2])
    return out


# ------------------------------------------------------------------ tokens
def tokens(parts):
    """[(kind, value)]: id, num, str, op, hole"""
    seq = []
    for x in parts:
        if isinstance(x, str):
            seq += list(x)
        else:
            seq.append(x)
    out, i, n = [], 0, len(seq)

    def isc(c, f):
        return isinstance(c, str) and f(c)
    while i < n:
        c = seq[i]
        if not isinstance(c, str):
            if c[0] == 'esc':
                raise Unclear('escaped text outside of a literal')
            out.append(('hole', c[1], i > 0 and isc(seq[i - 1], lambda x: x.isalnum() or x in '_"\''), i + 1 < n and isc(seq[i + 1], lambda x: x.isalnum() or x in '_"\'')))
            i += 1
        elif c.isspace():
            i += 1
        elif c.isalpha() or c == '_':
            j = i
            while j < n and isc(seq[j], lambda x: x.isalnum() or x == '_'):
                j += 1
            if j < n and seq[j] in ('"', "'"):
                raise Unclear('a prefixed literal')
            out.append(('id', ''.join(seq[i:j])))
            i = j
        elif c.isdigit():
            j = i
            while j < n and isc(seq[j], lambda x: x.isalnum() or x == '.'):
                j += 1
            out.append(('num', ''.join(seq[i:j])))
            i = j
        elif c in '"\'':
            j, s = i + 1, []
            while True:
                if j >= n:
                    raise Unclear('a literal that does not end')
                d = seq[j]
                if not isinstance(d, str):
                    if d[0] != 'esc':
                        raise Unclear('text put into a literal without escaping it')
                    if c != '"':
                        raise Unclear('text escaped for another kind of literal')
                    s.append(('text', d[1]))
                elif d == '\\':
                    j += 1
                    if j >= n or not isinstance(seq[j], str) or seq[j] not in ESC:
                        raise Unclear('an unknown escape in a literal')
                    s.append(ESC[seq[j]])
                elif d == c:
                    break
                elif d in '\n\r':
                    raise Unclear('a line break in a literal')
                else:
                    s.append(d)
                j += 1
            r = []
            for x in s:
                if isinstance(x, str) and r and isinstance(r[-1], str):
                    r[-1] += x
                else:
                    r.append(x)
            out.append(('str', tuple(r)))
            i = j + 1
        else:
            two = c + (seq[i + 1] if i + 1 < n and isinstance(seq[i + 1], str) else '')
            if two in ('&&', '||', '==', '!=', '<=', '>='):
                out.append(('op', two))
                i += 2
            elif two == '//':
                raise Unclear('a comment')
            elif c in '()[]{}.,:?!<>+-*/%':
                out.append(('op', c))
                i += 1
            else:
                raise Unclear('an unexpected %r' % c)
    return out


# ------------------------------------------------------------------ parser
LEVELS = [('||',), ('&&',), ('==', '!=', '<', '>', '<=', '>=', 'in'), ('+', '-'), ('*', '/', '%')]


class Cel:
    """precedence parser; a hole is an expression of unknown shape, so it may only stand where a whole expression may
    (whole(term) says it may also be an operand of ||)"""

    def __init__(self, parts, operand=lambda t: False):
        self.t = tokens(parts)
        self.i = 0
        self.operand = operand

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', None)

    def op(self, x):
        if self.peek()[:2] == ('op', x):
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.op(x):
            raise Unclear('%r where %r is expected' % (self.peek()[1], x))

    def whole(self):
        r = self.expr()
        if self.peek()[0] != 'end':
            raise Unclear('%s after the end of an expression' % (self.peek()[1],))
        return r

    def expr(self):
        t = self.peek()
        if t[0] == 'hole':
            if t[2] or t[3]:
                raise Unclear('an expression glued to other text')
            n = self.peek(1)
            if n[0] == 'end' or n[0] == 'op' and n[1] in (')', ']', '}', ',', ':'):
                self.i += 1
                return ('hole', t[1])
        c = self.binary(0)
        if self.op('?'):
            a = self.binary(0)
            self.need(':')
            return ('cond', c, a, self.expr())
        return c

    def binary(self, lv):
        if lv == len(LEVELS):
            return self.unary()
        t, n = self.peek(), self.peek(1)
        if lv == 1 and t[0] == 'hole' and (n[0] == 'end' or n[0] == 'op' and n[1] in (')', ']', '}', ',', ':', '||')) and self.operand(t[1]):
            self.i += 1
            return ('hole', t[1])
        a = self.binary(lv + 1)
        while (self.peek()[0] == 'op' or self.peek() == ('id', 'in')) and self.peek()[1] in LEVELS[lv]:
            o = self.peek()[1]
            self.i += 1
            b = self.binary(lv + 1)
            a = ('bin', o, a, b)
        return a

    def unary(self):
        if self.op('!'):
            return ('not', self.unary())
        if self.op('-'):
            return ('neg', self.unary())
        return self.member()

    def args(self, end):
        out = []
        while not self.op(end):
            out.append(self.expr())
            if not self.op(','):
                self.need(end)
                break
        return tuple(out)

    def member(self):
        a = self.primary()
        while True:
            if self.op('.'):
                t = self.peek()
                if t[0] != 'id':
                    raise Unclear('a selection of %s' % (t[1],))
                self.i += 1
                if self.op('('):
                    a = ('method', a, t[1], self.args(')'))
                else:
                    a = ('sel', a, t[1])
            elif self.op('['):
                x = self.expr()
                self.need(']')
                a = ('index', a, x)
            elif self.peek()[:2] == ('op', '{') and self.path(a) is not None:
                self.i += 1
                a = ('msg', self.path(a), self.fields())
            else:
                return a

    def path(self, a):
        if a[0] == 'id':
            return a[1]
        if a[0] == 'sel':
            b = self.path(a[1])
            return b and b + '.' + a[2]
        return None

    def fields(self):
        out = {}
        while not self.op('}'):
            t = self.peek()
            if t[0] != 'id' or t[1] in out:
                raise Unclear('a field named %s' % (t[1],))
            self.i += 1
            self.need(':')
            out[t[1]] = self.expr()
            if not self.op(','):
                self.need('}')
                break
        return tuple(sorted(out.items()))

    def primary(self):
        t = self.peek()
        if t[0] == 'hole':
            raise Unclear('an expression of the configuration used as an operand without parentheses')
        self.i += 1
        if t[0] == 'num':
            return ('num', t[1])
        if t[0] == 'str':
            return t
        if t[0] == 'id':
            if self.op('('):
                return ('call', t[1], self.args(')'))
            return ('id', t[1])
        if t == ('op', '('):
            a = self.expr()
            self.need(')')
            return a
        if t == ('op', '['):
            return ('list', self.args(']'))
        if t == ('op', '{'):
            out = []
            while not self.op('}'):
                k = self.expr()
                self.need(':')
                out.append((k, self.expr()))
                if not self.op(','):
                    self.need('}')
                    break
            return ('map', tuple(out))
        raise Unclear('%s where an expression is expected' % (t[1],))


def parse(parts, operand=lambda t: False):
    return Cel(parts, operand).whole()
