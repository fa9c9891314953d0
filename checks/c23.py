"""C23: a configuration is used completely or rejected."""
from engine.acts import *
from engine.blue import COMPILE_EFF, TRANSLATE
from engine.wire import wires, names, COMPILED
from engine.svc import check_services
from engine.base import boundary, pure_boundary

EXPLANATION = '''Three stages are read off abstract paths. Parsing: for every configuration type, which documented key fills which setting and what a missing key becomes (the generated readers are run with no key, one key and two keys present).
Compilation: on every path that accepts a configuration, each listed predicate, action, follow-up, expression and service was looked at, compiled and found, and ended up, in order, in the blueprint; a path on which one of them failed must reject the whole.
Clients: each service type makes its own kind of client with its own gRPC service and method.'''
CFG = 'kuadrant_filter::configuration::'
FC, COMP = 'services::ServiceInstance::from_config', 'blueprint::Blueprint::compile'
REQ, OPT, DEF = 'required', 'optional', 'default'

# the documented keys: type -> {key: (setting, what it is when missing)}
KEYS = {
    'PluginConfiguration': {'services': ('services', REQ), 'actionSets': ('action_sets', REQ), 'observability': ('observability', 'nothing'), 'requestData': ('request_data', 'empty'),
                            'descriptorService': ('descriptor_service', 'kuadrant-operator-grpc')},
    'Service': {'type': ('service_type', REQ), 'endpoint': ('endpoint', REQ), 'failureMode': ('failure_mode', 'Deny'), 'timeout': ('timeout', 20_000_000),
                'grpcService': ('grpc_service', OPT), 'grpcMethod': ('grpc_method', OPT)},
    'Observability': {'httpHeaderIdentifier': ('http_header_identifier', OPT), 'defaultLevel': ('default_level', OPT), 'tracing': ('tracing', OPT)},
    'Tracing': {'service': ('service', REQ)},
    'ActionSet': {'name': ('name', REQ), 'routeRuleConditions': ('route_rule_conditions', REQ), 'actions': ('actions', REQ)},
    'RouteRuleConditions': {'hostnames': ('hostnames', REQ), 'predicates': ('predicates', 'empty')},
    'Action': {'service': ('service', REQ), 'scope': ('scope', REQ), 'predicates': ('predicates', 'empty'), 'conditionalData': ('conditional_data', 'empty'), 'sources': ('sources', 'empty')},
    'ConditionalData': {'predicates': ('predicates', 'empty'), 'data': ('data', 'empty')},
    'ExpressionItem': {'key': ('key', REQ), 'value': ('value', REQ)},
    'StaticItem': {'key': ('key', REQ), 'value': ('value', REQ)},
    'TypedAction': {'predicate': ('predicate', REQ), 'terminal': ('terminal', REQ), 'isGuard': ('is_guard', True), 'execution': ('execution', 'Parallel'), 'sources': ('sources', 'empty')},
    'GrpcOperation': {'var': ('var', REQ), 'service': ('service', REQ), 'messageBuilder': ('message_builder', REQ), 'onReply': ('on_reply', 'empty'), 'label': ('label', 'empty')},
    'DenyOperation': {'denyWith': ('deny_with', REQ)},
    'HeadersOperation': {'target': ('target', REQ), 'headers': ('headers', REQ)},
    'StoreOperation': {'path': ('path', REQ), 'value': ('value', REQ), 'exportToHost': ('export_to_host', False)},
    'FailOperation': {'logMessage': ('log_message', REQ)},
}
# the documented names of each choice
NAMES = {
    'ServiceType': {'auth': 'Auth', 'ratelimit': 'RateLimit', 'ratelimit-check': 'RateLimitCheck', 'ratelimit-report': 'RateLimitReport', 'tracing': 'Tracing', 'dynamic': 'Dynamic'},
    'FailureMode': {'deny': 'Deny', 'allow': 'Allow'},
    'Execution': {'parallel': 'Parallel', 'sequential': 'Sequential'},
    'HeadersTarget': {'request': 'Request', 'response': 'Response'},
    'DataType': {'static': 'Static', 'expression': 'Expression'},
    'Operation': {'grpc': 'Grpc', 'deny': 'Deny', 'headers': 'Headers', 'store': 'Store', 'fail': 'Fail'},
}


def check(ctx):
    ctx.rule('parsing: each documented key of each configuration type fills its own setting and no other; a missing key is an error where it is required and the documented default where it is not; each documented name selects its own choice')
    ctx.rule('an accepted action set holds every configured route predicate and every configured action, in order, each compiled from its own text')
    ctx.rule('every setting of an action (execution mode aside, see C27) is part of the compiled action, compiled or looked up where it is an expression or a service, and every follow-up is compiled, in order')
    ctx.rule('an accepted configuration has a client for every configured service, a compiled expression for every requestData entry, a blueprint for every action set, and a known tracing service')
    ctx.rule('on no accepting path did compiling a predicate, an expression, an action, an action set or creating a client fail, or was a service not found')
    ctx.rule('each service type makes its own kind of client for its own gRPC service and method, endpoint and timeout')
    parsing(ctx)
    sets(ctx)
    one_action(ctx)
    replies(ctx)
    whole(ctx)
    check_services(ctx)
    ctx.assume('deserializers (serde_json) call the generated readers with every key and value of the document')


# -- parsing ---------------------------------------------------------------------------------------

def reader(p, ty, fn, which=''):
    out = [i for i, f in enumerate(p.fns) if f['b'] is not None and f['p'].startswith('<<%s%s as serde_core::de::Deserialize>::deserialize::__%sVisitor' % (CFG, ty, which)) and f['p'].endswith('Visitor>::' + fn)]
    if not out:
        raise AnalysisError('reader of %s not found (%s)' % (ty, fn))
    return out[0]


def exact(p, path):
    out = [i for i, f in enumerate(p.fns) if f['p'] == path and f['b'] is not None]
    if not out:
        raise AnalysisError('not found: ' + path)
    return out[0]


def key_table(ctx, ty):
    """key text -> number of the generated field tag"""
    p = ctx.p
    i = reader(p, ty, 'visit_str', 'Field')
    e = base.make(p)
    e.LOOP = 14
    out = {}
    for st in e.run(i):
        on = [TERMS[t] for t, f in st.facts.items() if TERMS[t][0] == 'eq' and f == ('=', 1)]
        txt = [x[1] for k in on for x in k[1:] if isinstance(x, tuple) and x[0] == 'c' and isinstance(x[1], str)]
        r = st.result
        if r[0] != 'a' or r[2] != 0 or len(txt) != 1:
            continue
        v = getf(r, 0, 0)
        if v[0] == 'a' and v[2] is not None:
            out[txt[0]] = p.types[v[1]]['v'][v[2]][0]
    ctx.engine_stats(e)
    return out


def origin(v):
    """where a value of a parsed struct comes from: ('missing', key) | ('given',) | ('flat',) | ('default', value)"""
    n = 0
    x = strip(v)
    while x[0] == 's' and n < 30:
        n += 1
        k = TERMS[x[1]]
        if k[0] in ('fld', 'deref'):
            x = ('s', k[1])
            continue
        if k[0] == 'call':
            name = k[1].split('::')[-1]
            if name == 'missing_field':
                a = strip(k[2][0])
                return ('missing', a[1] if a[0] == 'c' else None)
            if name in ('next_value', 'next_value_seed', 'next_entry'):
                return ('given',)
            if name == 'deserialize':
                return ('flat',)
            if k[2] and name in ('branch', 'map', 'map_err', 'into', 'from'):
                x = strip(k[2][0])
                continue
        break
    return ('default', v)


def nanos(v):
    v = strip(v)
    while v[0] == 'a' and len(v[4]) == 1:
        v = strip(v[4][0][1])
    if v[0] == 's' and TERMS[v[1]][0] == 'call':
        k = TERMS[v[1]]
        cs = [strip(x) for x in k[2]]
        if all(c[0] == 'c' and isinstance(c[1], int) for c in cs):
            unit = {'from_nanos': 1, 'from_micros': 1000, 'from_millis': 10**6, 'from_secs': 10**9}.get(k[1].split('::')[-1])
            if unit:
                return cs[0][1] * unit
            if k[1].endswith('Duration::new'):
                return cs[0][1] * 10**9 + cs[1][1]
    return None


def is_default(p, v, want):
    v = strip(v)
    if want == 'empty':
        return v in (('v', ()), ('m', ()), ('c', '')) or v[0] == 's' and TERMS[v[1]][0] == 'call' and TERMS[v[1]][1].endswith(('::new', 'Default>::default')) and not TERMS[v[1]][2]
    if want == 'nothing':
        return v[0] == 'a' and v[3] is None and all(x[0] == 'a' and p.types[x[1]]['v'][x[2]][0] == 'None' for _i, x in v[4])
    if isinstance(want, bool):
        return v in (('c', int(want)), ('c', want))
    if isinstance(want, int):
        return nanos(v) == want
    if v[0] == 'a' and v[2] is not None and len(p.types[v[1]]['v']) > 1:
        return p.types[v[1]]['v'][v[2]][0] == want
    return v == ('c', want)


def seen_keys(p, e, st):
    """names of the field tags the path read"""
    out = []
    for t, f in st.facts.items():
        k = TERMS[t]
        ty = TTY.get(k[1]) if k[0] == 'disc' else None
        if ty is not None and p.head(ty).endswith('__Field') and f[0] == '=':
            out += [nm for nm, d, _f in p.types[ty]['v'] if int(d) == f[1]]
    return out


def parsing(ctx):
    p = ctx.p
    n = 0
    for ty, keys in sorted(KEYS.items()):
        sty = p.adt('configuration::' + ty)
        fs = p.types[sty]['v'][0][2]
        ix = {nm: i for i, (nm, t) in enumerate(fs)}
        for k, (f, _d) in keys.items():
            if f not in ix:
                raise AnalysisError('setting %s of %s not found' % (f, ty))
        tags = key_table(ctx, ty)
        for k in keys:
            ctx.oblige(k in tags and not tags[k].startswith(('__ignore', '__other')), '%s: key %s' % (ty, k), 'the documented key %s of %s is not read' % (k, ty))
        i = reader(p, ty, 'visit_map')
        e = base.make(p)
        e.LOOP = 2
        ctx.cov['functions_analysed'].add(p.fns[i]['p'])
        got = {}        # tags read -> [{setting: origin}]
        for st in e.run(i):
            r = st.result
            if r[0] != 'a' or p.types[r[1]]['v'][r[2]][0] != 'Ok':
                continue
            s = getf(r, r[2], 0)
            read = tuple(sorted(set(seen_keys(p, e, st))))
            got.setdefault(read, []).append({nm: origin(e.snap(st, getf(s, 0, j))) for nm, j in ix.items()})
        ctx.engine_stats(e)
        ctx.oblige(() in got, '%s: empty' % ty, 'reading %s without keys was not followed to its end' % ty)
        back = {tags[k]: k for k in tags}
        for k, (f, d) in sorted(keys.items()):
            for o in got.get((), ()):
                n += 1
                w = o[f]
                if d in (REQ, OPT):
                    opt = p.types[fs[ix[f]][1]]['s'].startswith('std::option::Option<')
                    # a missing optional value is asked for by its key like a required one, or simply None
                    good = w == ('missing', k) and opt == (d == OPT) or d == OPT and w[0] == 'default' and is_default_none(p, w[1])
                    ctx.oblige(good, '%s: %s missing' % (ty, k), 'a %s without the %s key %s %s' % (ty, d, k, 'is accepted' if w[0] == 'default' else 'is not handled as documented'))
                else:
                    ctx.oblige(w[0] == 'default' and is_default(p, w[1], d), '%s: %s default' % (ty, k), 'a %s without the key %s %s instead of taking %r' % (
                        ty, k, 'is rejected' if w[0] == 'missing' else 'takes %s' % e.show(w[1]) if w[0] == 'default' else 'takes another value', d))
            one = got.get((tags.get(k),), ())
            ctx.oblige(bool(one), '%s: %s given' % (ty, k), 'a %s with the key %s is never accepted' % (ty, k))
            for o in one:
                n += 1
                ctx.oblige(o[f] == ('given',), '%s: %s used' % (ty, k), 'the value of the key %s of %s does not become its %s' % (k, ty, f))
                for f2, w in o.items():
                    ctx.oblige(f2 == f or w != ('given',), '%s: %s only' % (ty, k), 'the value of the key %s of %s becomes its %s' % (k, ty, f2))
        ctx.sample({'type': ty, 'keys': sorted(tags), 'read combinations': len(got), 'other keys': sorted(set(back.values()) - set(keys))})
        for f, j in ix.items():
            if f not in [x for x, _d in keys.values()]:
                ctx.oblige(all(o[f] == ('flat',) for os in got.values() for o in os), '%s: %s' % (ty, f), 'the %s of %s is not read from the keys of the %s itself' % (f, ty, ty))
    for ty, names_ in sorted(NAMES.items()):
        tags = key_table(ctx, ty)
        if ty == 'Operation':
            i = exact(p, '<%sOperation as serde_core::de::Deserialize>::deserialize' % CFG)
        else:
            i = reader(p, ty, 'visit_enum')
        e = base.make(p)
        e.LOOP = 2
        ctx.cov['functions_analysed'].add(p.fns[i]['p'])
        sel = {}
        for st in e.run(i):
            tg = seen_keys(p, e, st)
            v = chosen(p, e, st, ty)
            if len(tg) == 1 and v is not None:
                sel.setdefault(tg[0], set()).add(v)
        ctx.engine_stats(e)
        for k, v in sorted(names_.items()):
            n += 1
            ctx.oblige(sel.get(tags.get(k)) == {v}, '%s: %s' % (ty, k), 'the documented name %s of a %s selects %s' % (k, ty, sorted(sel.get(tags.get(k), ())) or 'nothing'))
        # only an internally tagged type reads its tag itself
        if ty == 'Operation':
            tag = [strip(ev.args[0]) for st in e.run(i)[:1] for ev in st.events() if ev.kind == 'call' and ev.path.endswith('TaggedContentVisitor::new')]
            ctx.oblige(tag == [('c', 'type')], 'Operation: tag', 'the kind of an action is not read from its key `type`')
    timeout(ctx)
    either(ctx)
    ctx.floor('documented keys and names', n, 100)


def is_default_none(p, v):
    v = strip(v)
    return v[0] == 'a' and v[2] is not None and p.types[v[1]]['v'][v[2]][0] == 'None'


def chosen(p, e, st, ty):
    """the variant of the choice a path returns"""
    r = e.snap(st, st.result)
    if r[0] == 'a' and p.types[r[1]]['v'][r[2]][0] == 'Ok':
        v = getf(r, r[2], 0)
        if v[0] == 'a' and v[2] is not None:
            return p.types[v[1]]['v'][v[2]][0]
        return None
    if r[0] == 's' and TERMS[r[1]][0] == 'call' and TERMS[r[1]][1].endswith('Result::map'):
        f = e.show(TERMS[r[1]][2][1])
        if 'configuration::%s::' % ty in f:
            return f.split('::')[-1]
    return None


def timeout(ctx):
    """a timeout is the duration its text denotes, or an error"""
    p = ctx.p
    i = [j for j, f in enumerate(p.fns) if 'configuration::Timeout' in f['p'] and f['p'].endswith('Visitor>::visit_str') and f['b'] is not None]
    if not i:
        # generic, instantiated only where a document is parsed: the text reader it forwards to
        i = [j for j, f in enumerate(p.fns) if 'configuration::Timeout' in f['p'] and 'Visitor>::visit_' in f['p'] and f['b'] is not None]
    n = 0
    for j in i[:1]:
        e = base.make(p, {'functions::time::duration': pure_boundary})
        for st in e.run(j):
            r = st.result
            if r[0] == 'a' and p.types[r[1]]['v'][r[2]][0] == 'Ok':
                n += 1
                ctx.oblige(mentions(e.snap(st, r), lambda q: q[0] == 'call' and q[1].endswith('time::duration'), 40), 'timeout: value', 'a timeout is not the duration its text denotes')
        ctx.engine_stats(e)
    ctx.sample({'timeout readers': len(i), 'accepting paths': n})


def either(ctx):
    """an action is read as a typed one, else as a legacy one, else rejected"""
    p = ctx.p
    i = exact(p, '<%sActionConfig as serde_core::de::Deserialize>::deserialize' % CFG)
    e = base.make(p)
    seen = set()
    for st in e.run(i):
        r = e.snap(st, st.result)
        if r[0] == 'a' and p.types[r[1]]['v'][r[2]][0] == 'Ok':
            t = e.show(r, 40)
            got = [v for v in ('Typed', 'Legacy') if 'configuration::ActionConfig::%s)' % v in t or 'ActionConfig::%s{' % v in t]
            seen |= set(got)
    ctx.engine_stats(e)
    ctx.oblige(seen == {'Typed', 'Legacy'}, 'action kinds', 'actions are read as %s only' % sorted(seen))


# -- compiling -------------------------------------------------------------------------------------

def compilers(p):
    """functions that make a compiled action from a configured one"""
    act, cta, cla = p.adt('blueprint::Action'), p.adt('configuration::TypedAction'), p.adt('configuration::Action')
    out = {}
    for i, f in enumerate(p.fns):
        if not f['l'] or f['b'] is None or '{closure' in f['p'] or f['p'].startswith('<'):
            continue
        r = p.types[f['b']['ls'][0][0]]
        if r['k'] != 'adt' or not r['s'].startswith('std::result::Result<') or r['a'][0] != act:
            continue
        for j in range(f['b']['n']):
            t = f['b']['ls'][1 + j][0]
            while p.types[t]['k'] == 'ref':
                t = p.types[t]['t']
            if t in (cta, cla):
                out[i] = t == cta
    return out


def failed(p, e, st, svc=True):
    """something that was tried on the path and did not work: [text]"""
    out = []
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'disc' and TERMS[k[1]][0] == 'call':
            c = TERMS[k[1]]
            ty = TTY.get(k[1])
            if ty is None or not p.types[ty]['s'].startswith('std::result::Result<') or not any(x in p.types[ty]['s'] for x in ('cel::Expression', 'cel::Predicate', 'blueprint::', 'services::')):
                continue
            if f == ('=', 1):
                out.append('%s fails' % p.short(c[1]))
        if svc and k[0] == 'haskey' and f == ('=', 0) and is_services(p, k[1]):
            out.append('a service is not found')
    return out


def is_services(p, t):
    if not isinstance(t, int):
        return False
    ty = TTY.get(t)
    while ty is not None and p.types[ty]['k'] == 'ref':
        ty = p.types[ty]['t']
    return ty is not None and 'services::ServiceInstance' in p.types[ty]['s'] and 'HashMap' in p.types[ty]['s']


def counted(p, e, st, pred):
    """{sequence term: elements found on the path} of the sequences satisfying pred; sequences not read to their end map to None"""
    got = {}
    for t, f in st.facts.items():
        k = TERMS[t]
        if k[0] == 'more' and isinstance(k[1], int) and pred(k[1]):
            got.setdefault(k[1], {})[k[2]] = f
    out = {}
    for s, fs in got.items():
        n = len([1 for f in fs.values() if f == ('=', 1)])
        out[s] = n if n >= e.klimit(s) or ('=', 0) in fs.values() else None
    return out


def ok_of(v):
    """the call whose Ok value v is (or was before single fields of it were set)"""
    v = strip(v)
    if v[0] == 'a' and v[3] is not None:
        v = ('s', v[3])
    n = 0
    while v[0] == 's' and n < 6:
        k = TERMS[v[1]]
        if k[0] == 'call':
            return k
        if k[0] not in ('fld', 'deref'):
            return None
        v, n = ('s', k[1]), n + 1
    return None


def at(p, v, seqpred):
    """(sequence, position) of the element of a configured list a value is (part of)"""
    v = strip(v)
    t = v[1] if v[0] == 's' else v[3] if v[0] == 'a' else None
    n = 0
    while t is not None and n < 30:
        n += 1
        k = TERMS[t]
        if k[0] in ('elem', 'key', 'val') and seqpred(k[1]):
            return k[1], k[2]
        if k[0] in ('fld', 'deref', 'elem'):
            t = k[1]
            continue
        if k[0] == 'call' and k[2]:
            x = strip(k[2][0])
            t = x[1] if x[0] == 's' else None
            continue
        return None
    return None


def cfg_list(p, owner, field):
    """terms that are this list of this configured thing"""
    def pred(s):
        if not isinstance(s, int):
            return False
        n = names(p, ('s', s), owner)
        return n is not None and n[1] == field
    return pred


def sets(ctx):
    p = ctx.p
    fi = p.find1(COMP)
    cs = compilers(p)
    ctx.floor('functions compiling actions', len(cs), 1)
    ops = {k: pure_boundary for k in TRANSLATE + tuple(COMPILE_EFF)}
    ops.update({p.fns[i]['p']: boundary for i in cs})
    e = base.make(p, ops)
    deep = ctx.tier == 'thorough'
    e.K = 2 + deep
    AS = 'configuration::ActionSet'
    is_p, is_a = cfg_list(p, AS, 'route_rule_conditions.predicates'), cfg_list(p, AS, 'actions')
    e.KOF = lambda s: e.K if is_p(s) or is_a(s) or not isinstance(s, int) or TTY.get(s) is None or 'Vec<std::string::String>' in p.types[TTY[s]]['s'] else 1
    if deep:
        e.MAXSTEPS *= 20
        e.MAXPATHS *= 20
    bp = p.adt('blueprint::Blueprint')
    fs = p.types[bp]['v'][0][2]
    pix = [i for i, (n, t) in enumerate(fs) if p.types[t]['s'].endswith('Vec<data::cel::Predicate>')]
    aix = [i for i, (n, t) in enumerate(fs) if p.types[t]['s'].endswith('blueprint::Action>')]
    nix = [i for i, (n, t) in enumerate(fs) if p.types[t]['s'] == 'std::string::String']
    if not (len(pix) == len(aix) == len(nix) == 1):
        raise AnalysisError('parts of a blueprint not found')
    ctx.cov['functions_analysed'].add(p.fns[fi]['p'])
    n = most = 0
    for st in e.run(fi):
        r = st.result
        tr = lambda: trace_text(e, st)
        if r[0] != 'a':
            ok = r[0] == 's' and variant_of(e, st, r, p.fns[fi]['b']['ls'][0][0]) == 'Err'
            ctx.oblige(ok, 'action set: result', 'the result of compiling an action set is not understood: %s' % e.show(r))
            continue
        if r[2] != 0:
            continue
        n += 1
        bad = failed(p, e, st)
        ctx.oblige(not bad, 'action set: failure ignored', 'an action set is accepted although %s\n%s' % ('; '.join(bad[:2]), tr()))
        b = getf(r, 0, 0)
        nm = names(p, e.snap(st, getf(b, 0, nix[0])), AS)
        ctx.oblige(nm is not None and nm[1] == 'name', 'action set: name', 'a blueprint is not named after its action set')
        for what, ix, pred in (('route predicate', pix[0], is_p), ('action', aix[0], is_a)):
            lists = counted(p, e, st, pred)
            v = e.snap(st, getf(b, 0, ix))
            items = [s[1] for s in v[1]] if v[0] == 'v' and all(s[0] == 'e' for s in v[1]) else None
            if not ctx.oblige(len(lists) == 1 and None not in lists.values(), '%s: not read' % what, 'the configured %ss of an accepted action set are not read to their end\n%s' % (what, tr())):
                continue
            if not ctx.oblige(items is not None, '%s: list' % what, 'the %ss of a blueprint are not the compiled ones: %s' % (what, e.show(v))):
                continue
            (seq, m), = lists.items()
            most = max(most, m)
            src = [at_arg(p, e, st, x, pred) for x in items]
            ctx.oblige(src == [(seq, j) for j in range(m)], '%s: complete and in order' % what, 'an action set with %d %s(s) is compiled to %s\n%s' % (
                m, what, [s and 'number %d' % s[1] for s in src] or 'none', tr()))
    ctx.engine_stats(e)
    ctx.floor('accepting paths of an action set', n, 10)
    ctx.floor('elements of a list', most, 2)


def at_arg(p, e, st, item, pred):
    """the configured element an element of the result was compiled from"""
    c = ok_of(item)
    if c is None:
        return None
    got = {a for a in (at(p, e.snap(st, x) if x[0] == 'r' else x, pred) for x in c[2]) if a is not None}
    return got.pop() if len(got) == 1 else None


OWN = {'predicate': 'compiled', 'terminal': 'copy', 'is_guard': 'copy', 'sources': 'copy'}
HOW = {'operation.Grpc.service': 'lookup', 'operation.Grpc.message_builder': 'compiled', 'operation.Deny.deny_with': 'compiled', 'operation.Headers.headers': 'compiled', 'operation.Store.value': 'compiled'}


def one_action(ctx):
    """every setting of the configured action is part of the compiled one, and nothing else is"""
    p = ctx.p
    W = wires(ctx)
    e = W.e
    opt = p.adt('configuration::Operation')
    need = {}
    for nm, _d, fs in p.types[opt]['v']:
        t = fs[0][1]
        need[nm] = {'operation.%s.%s' % (nm, f) for f, _t in p.types[t]['v'][0][2]}
    top = cfg_list(p, 'configuration::ActionSet', 'actions')
    n = 0
    kinds = set()
    for st, a, parts in W.states:
        opv = getf(a, 0, W.op)
        vn = p.types[W.opty]['v'][opv[2]][0] if opv[0] == 'a' and opv[2] is not None else None
        if not ctx.oblige(vn in need, 'compiled: kind', 'the kind of a compiled action does not depend on the configured one alone'):
            continue
        n += 1
        kinds.add(vn)
        roots = {s[1] for _v, s in parts.values() if s is not None and s[1] is not None}
        have = {(s[0], s[2]) for _v, s in parts.values() if s is not None and s[0] != 'variant'}
        for f in sorted(need[vn] - {'operation.Grpc.on_reply', 'operation.Headers.target'}) + sorted(OWN):
            how = HOW.get(f) or OWN.get(f, 'copy')
            ctx.oblige((how, f) in have, 'compiled: %s' % f, 'the configured %s is not %s a compiled action\n%s' % (f, 'looked up for' if how == 'lookup' else 'compiled into' if how == 'compiled' else 'part of', trace_text(e, st)))
        ctx.oblige(all(f.split('.')[1] == vn for _h, f in have if f.startswith('operation.')), 'compiled: kind of %s' % vn, 'an action is compiled from settings of another kind of action: %s' % sorted(have))
        # the kind is the configured one
        for r in roots:
            for t, f in st.facts.items():
                k = TERMS[t]
                if k[0] == 'disc' and f[0] == '=' and TTY.get(k[1]) == opt and names(p, ('s', k[1]), 'configuration::TypedAction') == (r, 'operation'):
                    ctx.oblige(p.types[opt]['v'][f[1]][0] == vn, 'compiled: kind of %s' % vn, 'a configured %s action is compiled to a %s action' % (p.types[opt]['v'][f[1]][0], vn))
    ctx.oblige(kinds == set(need), 'compiled: kinds', 'some kinds of actions are never accepted: %s' % sorted(set(need) - kinds))
    ctx.floor('compiled actions', n, 20)
    for st, a, roots in W.mixed:
        ctx.oblige(False, 'compiled: mixed', 'a compiled action mixes parts of different configured actions')
    m = 0
    for st in W.F.C.states:
        r = st.result
        if r[0] == 'a' and r[2] == 0:
            m += 1
            bad = failed(p, e, st)
            ctx.oblige(not bad, 'action: failure ignored', 'an action is accepted although %s\n%s' % ('; '.join(bad[:2]), trace_text(e, st)))
    ctx.floor('accepting paths of an action', m, 50)


def replies(ctx):
    """every configured follow-up is compiled, in order"""
    p = ctx.p
    act = p.adt('blueprint::Action')
    W = wires(ctx)
    n = most = 0
    for fi, typed in sorted(compilers(p).items()):
        if not typed:
            continue
        ops = {k: pure_boundary for k in tuple(COMPILE_EFF)}
        e = base.make(p, ops)
        e.RECUR = 1
        deep = ctx.tier == 'thorough'
        e.K = 2 + deep
        if deep:
            e.MAXSTEPS *= 20
            e.MAXPATHS *= 20
        is_r = cfg_list(p, 'configuration::TypedAction', 'operation.Grpc.on_reply')
        ctx.cov['functions_analysed'].add(p.fns[fi]['p'])
        for st in e.run(fi):
            r = st.result
            if r[0] != 'a' or r[2] != 0:
                continue
            a = getf(r, 0, 0)
            opv = getf(a, 0, W.op)
            lists = counted(p, e, st, is_r)
            bad = failed(p, e, st)
            ctx.oblige(not bad, 'follow-ups: failure ignored', 'an action is accepted although %s\n%s' % ('; '.join(bad[:2]), trace_text(e, st)))
            if opv[0] != 'a' or opv[2] is None or p.types[W.opty]['v'][opv[2]][0] != 'Grpc':
                continue
            n += 1
            v = [e.snap(st, x) for j, x in opv[4] if is_actions(p, W.opty, opv[2], j)]
            if not ctx.oblige(len(lists) == 1 and None not in lists.values() and len(v) == 1 and v[0][0] == 'v' and all(s[0] == 'e' for s in v[0][1]), 'follow-ups: not read', 'the follow-ups of an accepted action are not all compiled\n%s' % trace_text(e, st)):
                continue
            (seq, m), = lists.items()
            most = max(most, m)
            src = [at_arg(p, e, st, s[1], is_r) for s in v[0][1]]
            ctx.oblige(src == [(seq, j) for j in range(m)], 'follow-ups: complete and in order', 'an action with %d follow-up(s) is compiled to %s' % (m, [s and 'number %d' % s[1] for s in src] or 'none'))
        ctx.engine_stats(e)
    ctx.floor('accepting paths with follow-ups', n, 10)
    ctx.floor('follow-ups of an action', most, 2)


def is_actions(p, ty, v, j):
    fs = p.types[ty]['v'][v][2]
    return j < len(fs) and p.types[fs[j][1]]['s'].endswith('Vec<kuadrant::pipeline::blueprint::Action>')


# -- the whole configuration -----------------------------------------------------------------------

def whole(ctx):
    p = ctx.p
    fi = p.find1('factory::PipelineFactory::try_from')
    fac = p.adt('factory::PipelineFactory')
    rix = [i for i, (n, t) in enumerate(p.types[fac]['v'][0][2]) if p.types[t]['s'].endswith('data::cel::Expression)>>')]
    if len(rix) != 1:
        raise AnalysisError('requestData of the factory not found')
    PC = 'configuration::PluginConfiguration'
    is_s, is_d, is_a = (cfg_list(p, PC, f) for f in ('services', 'request_data', 'action_sets'))
    deep = ctx.tier == 'thorough'
    n = {'services': 0, 'requestData': 0, 'action sets': 0, 'tracing': 0}
    most = dict(n)
    for ks, kd, ka in ((2, 1, 1), (0, 2, 1), (1, 0, 2)):
        e = base.make(p, {FC: pure_boundary, COMP: boundary, 'cel::Expression::new': pure_boundary, 'cel::Predicate::new': pure_boundary, 'factory::domain_and_field_name': pure_boundary})
        if deep:
            e.MAXSTEPS *= 20
            e.MAXPATHS *= 20
        e.KOF = lambda s: (ks + deep * (ks == 2) if is_s(s) else kd + deep * (kd == 2) if is_d(s) else ka + deep * (ka == 2) if is_a(s) else 0)
        for st in e.run(fi):
            r = st.result
            tr = lambda: trace_text(e, st)
            if r[0] != 'a' or r[2] != 0:
                continue
            bad = failed(p, e, st, svc=False)
            ctx.oblige(not bad, 'configuration: failure ignored', 'a configuration is accepted although %s\n%s' % ('; '.join(bad[:2]), tr()))
            made = [ev for ev in st.events() if ev.kind == 'call' and matches(ev.path, (FC,))]
            lists = counted(p, e, st, lambda s: is_s(s) or is_d(s) or is_a(s))
            for what, pred, k in (('services', is_s, ks), ('requestData', is_d, kd), ('action sets', is_a, ka)):
                mine = [m for s, m in lists.items() if pred(s)]
                if not k:
                    continue
                if not ctx.oblige(len(mine) == 1 and mine[0] is not None, '%s: not read' % what, 'the configured %s are not read to their end\n%s' % (what, tr())):
                    continue
                n[what] += 1
                most[what] = max(most[what], mine[0])
                if what == 'services':
                    src = sorted(x for x in (at(p, e.snap(st, ev.args[0]), is_s) for ev in made) if x is not None)
                    ctx.oblige([j for _s, j in src] == list(range(mine[0])), 'services: created', 'of %d configured services the clients of %s are created' % (mine[0], [j for _s, j in src]))
                elif what == 'requestData':
                    v = e.snap(st, getf(getf(r, 0, 0), 0, rix[0]))
                    data_ok(ctx, p, e, st, v, is_d, mine[0], 'kept')
                    for ev in st.events():
                        if ev.kind == 'call' and matches(ev.path, (COMP,)):
                            data_ok(ctx, p, e, st, e.snap(st, ev.args[2]), is_d, mine[0], 'given to the action sets')
                else:
                    src = [at(p, e.snap(st, ev.args[0]), is_a) for ev in st.events() if ev.kind == 'call' and matches(ev.path, (COMP,))]
                    ctx.oblige([x and x[1] for x in src] == list(range(mine[0])), 'action sets: compiled', 'of %d configured action sets %s are compiled' % (mine[0], [x and x[1] for x in src]))
            # tracing
            on = [t for t, f in st.facts.items() if TERMS[t][0] == 'disc' and f == ('=', 1) and names(p, ('s', TERMS[t][1]), PC) is not None and names(p, ('s', TERMS[t][1]), PC)[1] == 'observability.tracing']
            if on and ks:
                n['tracing'] += 1
                hit = [TERMS[t] for t, f in st.facts.items() if TERMS[t][0] == 'eq' and f == ('=', 1) and any(is_tracing(p, x) for x in TERMS[t][1:])]
                ctx.oblige(len(hit) == 1, 'tracing: unknown service', 'a configuration that names an unknown tracing service is accepted\n%s' % tr())
                if len(hit) == 1:
                    who = {y for y in (at(p, x, is_s) for x in hit[0][1:] if isinstance(x, tuple)) if y is not None}
                    used = {y for y in (at(p, x, is_s) for x in instances(p, e.snap(st, r))) if y is not None}
                    ctx.oblige(used <= who, 'tracing: service', 'traces go to another service than the configured one')
        ctx.engine_stats(e)
    ctx.cov['functions_analysed'].add(p.fns[fi]['p'])
    for w, x in n.items():
        ctx.floor('accepting paths: ' + w, x, 4)
    for w in ('services', 'requestData', 'action sets'):
        ctx.floor('configured ' + w, most[w], 2)


def is_tracing(p, x):
    n = names(p, x, 'configuration::PluginConfiguration') if isinstance(x, tuple) else None
    return n is not None and n[1].startswith('observability.tracing')


def instances(p, v, d=30, out=None):
    """service instances anywhere below a value"""
    out = [] if out is None else out
    if not isinstance(v, tuple) or d == 0:
        return out
    if v and v[0] == 'a' and v[1] is not None and isinstance(v[1], int) and p.is_adt(v[1], 'services::ServiceInstance'):
        out += [x for _i, x in v[4]] if v[4] else ([('s', v[3])] if v[3] is not None else [])
        return out
    if v and v[0] == 's' and isinstance(v[1], int) and TTY.get(v[1]) is not None and p.is_adt(TTY[v[1]], 'services::ServiceInstance'):
        out.append(v)
        return out
    for x in v:
        if isinstance(x, tuple):
            instances(p, x, d - 1, out)
    return out


def data_ok(ctx, p, e, st, v, is_d, m, what):
    """the list holds each of the m configured entries, compiled, under its own name"""
    n = 0
    while v[0] != 'v' and n < 6:
        n += 1
        v = v[1] if v[0] == '&' else v[4][0][1] if v[0] == 'a' and v[4] else v
        if v[0] == 'a' and len(v[4]) > 1:
            xs = [x for _i, x in v[4] if x[0] == 'v']
            v = xs[0] if xs else v
    while v[0] == 'v' and len(v[1]) == 1 and v[1][0][0] == 'rest' and TERMS[v[1][0][1]][0] == 'sorted' and v[1][0][2] == 0:
        v = TERMS[v[1][0][1]][1]        # ordering does not matter here
    if not ctx.oblige(v[0] == 'v' and all(s[0] == 'e' for s in v[1]), 'requestData: list %s' % what, 'the requestData %s is not the compiled one: %s' % (what, e.show(v))):
        return
    got = []
    for s in v[1]:
        x = strip(s[1])
        ex = at_arg(p, e, st, getf(x, 0, 1), is_d)
        nm = {y for y in leaf_at(p, getf(x, 0, 0), is_d)}
        got.append(ex[1] if ex is not None else None)
        ctx.oblige(ex is not None and nm == {ex}, 'requestData: name', 'a requestData expression is %s under the name of another one: %s' % (what, e.show(x)))
    ctx.oblige(sorted(got, key=str) == list(range(m)), 'requestData: compiled', 'of %d requestData entries %s are %s\n%s' % (m, got, what, trace_text(e, st)))


def leaf_at(p, v, pred):
    v = strip(v)
    if v[0] == 'a' and v[4]:
        return set().union(*[leaf_at(p, x, pred) for _i, x in v[4]])
    if v[0] == 'c':
        return set()
    a = at(p, v, pred)
    return {a} if a is not None else {None}
