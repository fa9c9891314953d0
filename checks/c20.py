"""C20: request data never becomes expression source."""
from engine.rules import *
from engine.base import matches
from engine.flow import Flow

EXPLANATION = '''Every function that can run once a request is there is found from the call graph (whatever is handed the request context or talks to the host, every task, the pipeline); in those functions every call
that compiles text -- followed through helper parameters to all callers of that kind -- may only be given program constants. The rest of the program, which compiles the configuration, is shown not to reach any host call.'''
NEW = ('cel::Expression::new', 'cel::Expression::new_expression', 'cel::Expression::new_extended', 'cel::Predicate::new', 'cel::Predicate::new_extended', 'cel::Program::compile', 'cel::parser::parser::Parser::parse', 'cel::parser::Parser::parse')
HOST = 'kuadrant::resolver::AttributeResolver::'
CONFIG = ('factory::PipelineFactory::try_from', 'blueprint::Blueprint::compile')


def is_compile(path):
    return matches(path, NEW) or path in ('cel::Program::compile',) or (path.startswith('cel::') and path.endswith(('Program::compile', 'Parser::parse')))


def runtime_roots(p):
    out = set()
    for i, f in enumerate(p.fns):
        if f['b'] is None or not f['l']:
            continue
        ti = f.get('ti') or ''
        ls = f['b']['ls']
        given = any(holds(p, ls[k][0]) for k in range(1, f['b']['n'] + 1))
        if given or '::pipeline::executor::' in f['p'] or 'tasks::Task::' in ti or 'tasks::TeardownAction::' in ti or ti.endswith('BodyParser::feed'):
            out.add(i)
    return out


def holds(p, ty, n=0):
    t = p.ty(ty)
    if t is None or n > 5:
        return False
    if t['k'] in ('ref', 'ptr'):
        return holds(p, t['t'], n + 1)
    if t['k'] == 'adt':
        return t['p'].endswith(('context::ReqRespCtx', 'executor::Pipeline')) or any(holds(p, a, n + 1) for a in t.get('a') or () if isinstance(a, int))
    if t['k'] == 'dyn':
        return 'AttributeResolver' in t.get('s', '')
    return False


def check(ctx):
    p, g = ctx.p, ctx.g
    ctx.rule('a call that compiles text, in a function that can run for a request, is given program constants only')
    ctx.rule('compiling the configuration reaches no call to the host')
    roots = runtime_roots(p)
    run = set()
    for i in roots:
        run |= g.reach(i)
    ctx.cov['functions_analysed'] |= {p.fns[i]['p'] for i in run if p.fns[i]['l'] and p.fns[i]['b'] is not None}
    ctx.floor('functions that run for a request', len([i for i in run if p.fns[i]['l']]), 150)
    F = Flow(p, g)
    calls = {}
    for s, path in g.calls_named(lambda path, c: True):
        if s.fi in run and s.callee is not None and 'f' in s.callee:
            calls.setdefault(s.callee['f'], []).append(s)
    n = 0
    named = set()
    for s, path in g.calls_named(lambda path, c: is_compile(path)):
        if s.fi not in run:
            continue
        n += 1
        named.add((s.fi, s.callee.get('f')))
        where = p.short(p.fns[g.root_fn(s.fi)]['p'])
        text = [a for a in s.args if is_text(p, s, a)]
        ctx.oblige(bool(text), 'text: %s' % where, 'no text argument at %s' % p.where(s.fi, s.line))
        for a in text:
            o = F.origins(s.fi, a, lambda f: calls.get(f))
            bad = sorted(describe(p, x) for x in o if x[0] != 'const')
            ctx.oblige(o and not bad, 'compiled in %s' % where, 'text compiled as an expression while a request is handled comes from %s: %s' % (', '.join(bad) or 'nowhere', p.where(s.fi, s.line)))
            ctx.sample({'site': p.where(s.fi, s.line), 'origins': sorted(str(x) for x in o)[:4]})
    ctx.floor('compiling calls that run for a request', n, 4)
    # a compiling function handed around as a value could be applied to anything
    comp = {i for i, f in enumerate(p.fns) if is_compile(f['p'])}
    for i in run:
        if p.fns[i]['b'] is None or not p.fns[i]['l']:
            continue
        for j in g.edges.get(i, ()):
            if j in comp:
                ctx.oblige((i, j) in named, 'compiling function as a value: %s' % p.short(p.fns[i]['p']), 'a compiling function is passed around while a request is handled')
    cfg = [i for i, f in enumerate(p.fns) if f['b'] is not None and (matches(f['p'], CONFIG) or f['p'].endswith('factory::PipelineFactory as core::convert::TryFrom>::try_from'))]
    ctx.floor('configuration compilers', len(cfg), 2)
    for i in cfg:
        r = g.reach_named(i, lambda path: HOST in path)
        ctx.oblige(not r, 'host in %s' % p.short(p.fns[i]['p']), 'compiling the configuration can ask the host: %s' % sorted(p.short(x) for x in r)[:3])
        ctx.oblige(i not in run, 'runtime %s' % p.short(p.fns[i]['p']), 'the configuration is compiled while a request is handled')


def is_text(p, s, a):
    if not isinstance(a, dict):
        return False
    k = [x for x, y in zip(s.argtys or (), s.args) if y is a]
    t = p.ty(k[0]) if k else None
    while t is not None and t['k'] in ('ref', 'ptr'):
        t = p.ty(t['t'])
    return t is not None and (t['k'] == 'str' or (t['k'] == 'adt' and t['p'].endswith('String')))


def describe(p, x):
    if x[0] == 'call':
        return 'the result of ' + p.short(x[1])
    if x[0] == 'param':
        return 'a parameter of ' + p.short(p.fns[x[1]]['p'])
    return str(x)
