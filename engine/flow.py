"""Flow-insensitive backward data flow over MIR: where the value of an operand can come from."""
import re
from .base import matches

THROUGH = ('ToString::to_string', 'Clone::clone', 'ToOwned::to_owned', 'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'From::from', 'Into::into', 'String::as_str', 'String::from',
           'str::as_bytes', 'String::as_bytes', 'fmt::format', 'Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Argument::new_display', 'Argument::new_debug', 'alloc::fmt::format', 'hint::must_use', 'Cow::into_owned',
           'Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'str::trim', 'str::to_lowercase', 'str::to_uppercase', 'str::replace', 'slice::concat', 'slice::join', 'Arguments::from_str', 'Arguments::as_str', 'Arguments::from_str_nonconst', 'rt::Argument::new', 'convert::identity',
           'Option::unwrap_or', 'Option::unwrap_or_default', 'Option::as_deref', 'Option::as_ref', 'Result::ok', 'Add::add', 'str::to_owned', 'Arc::clone', 'Arc::new', 'Box::new', 'Vec::as_slice')


class Flow:
    def __init__(self, p, g, through=THROUGH):
        self.p, self.g, self.through = p, g, through
        self._defs = {}

    def defs(self, fi):
        """local -> [('rv', rvalue, line) | ('call', terminator)] writing (a part of) it or through it"""
        d = self._defs.get(fi)
        if d is not None:
            return d
        d = {}
        b = self.p.fns[fi]['b']
        for bb in b['bb']:
            for s in bb['s']:
                if s[0] == '=':
                    d.setdefault(s[1][0], []).append(('rv', s[2], s[3]))
            t = bb['t']
            if t[0] == 'call':
                d.setdefault(t[3][0], []).append(('call', t))
        # a local lent for writing to a call: everything else given to that call may end up in it
        lent = {}
        for bb in b['bb']:
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'ref' and s[2][2]:
                    lent.setdefault(s[1][0], []).append(s[2][1][0])
        for bb in b['bb']:
            t = bb['t']
            if t[0] == 'call':
                for a in t[2]:
                    l = local_of(a)
                    for x in self._lent(lent, l):
                        d.setdefault(x, []).append(('lent', t))
        self._defs[fi] = d
        return d

    def _lent(self, lent, l, n=0):
        out = []
        for x in lent.get(l, ()):
            out.append(x)
            if n < 6:
                out += self._lent(lent, x, n + 1)
        return out

    def origins(self, fi, op, up=None):
        """set of ('const', value) ('param', fi, i) ('call', path, fi) ('none',): sources of the operand; `up(fi)` gives the callers to look into
        for a parameter (None: stop at parameters)"""
        out = set()
        seen = set()
        todo = [(fi, op)]
        while todo:
            f, o = todo.pop()
            if isinstance(o, dict) and 'k' in o and 'v' in o:
                out.add(('const', repr(o['v'])[:80]))
                continue
            l = local_of(o)
            if l is None or (f, l) in seen:
                continue
            seen.add((f, l))
            fn = self.p.fns[f]
            ds = self.defs(f).get(l, [])
            if 1 <= l <= fn['b']['n']:
                callers = up(f) if up is not None else None
                if callers is None:
                    out.add(('param', f, l))
                else:
                    k = 0
                    for s in callers:
                        if l - 1 < len(s.args):
                            k += 1
                            todo.append((s.fi, s.args[l - 1]))
                    if not k:
                        out.add(('param', f, l))
            for x in ds:
                if x[0] == 'rv':
                    todo += [(f, q) for q in parts(x[1])]
                    if x[1][0] in ('disc', 'bin', 'un') or (x[1][0] == 'agg' and not parts(x[1])):
                        out.add(('const', x[1][0]))
                else:
                    path = self.callee(x[1])
                    if x[0] == 'lent':
                        todo += [(f, a) for a in x[1][2] if local_of(a) != l]
                        if path is None or not matches(path, self.through + ('String::push_str', 'String::push', 'String::insert_str', 'Write::write_str', 'Write::write_fmt', 'Extend::extend', 'Vec::push')):
                            out.add(('call', path or '?', f))
                    elif path is not None and matches(path, self.through):
                        todo += [(f, a) for a in x[1][2]]
                    else:
                        out.add(('call', path or '?', f))
        return out

    def callee(self, t):
        c = t[1].get('v', {}).get('fn') if 'k' in t[1] else None
        if c is None:
            return None
        path = self.p.fns[c['f']]['p'] if 'f' in c else c.get('virt') or c.get('unres')
        m = re.match(r'<.* as ([^<>]*(?:<.*>)?)>::(\w+)$', path)
        if m and not path.startswith('<kuadrant'):
            return re.sub(r'<.*>$', '', m.group(1)) + '::' + m.group(2)
        return path


def local_of(o):
    if isinstance(o, dict):
        pl = o.get('cp') or o.get('mv')
        return pl[0] if pl else None
    if isinstance(o, (list, tuple)) and o and isinstance(o[0], int):
        return o[0]
    return None


def parts(rv):
    """operands and places an rvalue is made of"""
    k = rv[0]
    if k == 'use':
        return [rv[1]]
    if k == 'ref':
        return [tuple(rv[1])]
    if k == 'cast':
        return [rv[2]]
    if k == 'agg':
        return [x for x in rv[3]]
    return []
