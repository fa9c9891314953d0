"""Analysis configuration shared by the checks: which functions are boundaries of the analysis."""
from .core import *
from . import models as M


def boundary(e, st, c):
    c.opaque(pure=False)


def pure_boundary(e, st, c):
    c.opaque(pure=True)


# Functions whose inside is somebody else's property: the analysis keeps the call as an event and its
# result as an unknown of the right type.  `undischarged()` proves for each check that none of them
# reaches an effect the check reasons about.
BASE = {
    'cel::Predicate::test': boundary,
    'cel::Expression::eval': boundary,
    'cel::PredicateVec>::apply': boundary,
    'cel::Predicate::new': pure_boundary,
    'cel::Expression::new': pure_boundary,
    'cel::Expression::new_expression': pure_boundary,
    'context::CelScope::new_ctx': boundary,
    'metrics::Counter::increment': boundary,
    'metrics::Counter::inc_by': boundary,
    'metrics::Metrics::get_counter': pure_boundary,
    'metrics::Metrics::configs': pure_boundary,
    'metrics::Metrics::hits': pure_boundary,
    'metrics::Metrics::misses': pure_boundary,
    'metrics::Metrics::allowed': pure_boundary,
    'metrics::Metrics::denied': pure_boundary,
    'metrics::Metrics::errors': pure_boundary,
}


def make(prog, extra=None, drop=(), **kw):
    pr = dict(BASE)
    for d in drop:
        pr.pop(d, None)
    if extra:
        pr.update(extra)
    return Engine(prog, prims=pr, **kw)


def matches(path, pats):
    for p in pats:
        if path == p or path.endswith('::' + p) or (p.startswith('<') and path.endswith(p)):
            return True
        if p.endswith('*') and (('::' + p[:-1]) in ('::' + path)):
            return True
    return False


class Cone:
    """functions that can reach one of the effects (call sites matched by callee path) -- everything
    else of non trivial size is summarised as an unknown result"""

    def __init__(self, g, effects, limit=40, keep=()):
        self.g, self.p = g, g.p
        self.effects = tuple(effects)
        self.limit = limit
        hit = set()
        self.found = {}
        for s, path in g.calls_named(lambda path, c: matches(path, effects)):
            hit.add(s.fi)
            for e in effects:
                if matches(path, (e,)):
                    self.found[e] = self.found.get(e, 0) + 1
        for i, f in enumerate(g.p.fns):
            if f['b'] is not None and matches(f['p'], effects):
                hit.add(i)
        self.inside = g.rreach(hit)
        self.keep = keep
        self.cut = {}

    def opaque(self, f):
        i = f['i']
        if i in self.inside or matches(f['p'], self.keep):
            return False
        if self.g.size(i) <= self.limit:
            return False
        if f['l'] and (f.get('ti') or '').endswith('default::Default::default'):
            return False        # a default value is data, not behaviour
        self.cut[f['p']] = self.cut.get(f['p'], 0) + 1
        return True


def make_cone(prog, g, effects, extra=None, limit=40, keep=(), drop=(), **kw):
    cone = Cone(g, effects, limit, keep)
    e = make(prog, extra, drop, opaque=cone.opaque, **kw)
    e.cone = cone
    return e
