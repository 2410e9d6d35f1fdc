"""Path summaries of type registration: a path that adds a descriptor is taken only when its name is absent from the name
index under the lock that also covers the insertion, fills every attribute read back by the public accessors with the
matching argument, indexes that descriptor under its own name and returns it; every other path returns the descriptor
already stored for the name, or nothing for an empty name, and modifies nothing. Descriptors are never removed and their
attributes never written again. Lookup by name, id and C++ type (per witness instantiation) reach that descriptor."""
from ..registry import *

ATTR = {'typeName': 0, 'typeSize': 1, 'decayId': 2, 'pointerArity': 3, 'typeFlags': 5}
REMOVE = re.compile(r'^(erase\w*|clear|pop\w*|resize|remove\w*|extract|swap|assign|splice\w*|merge|operator=|insert_or_assign|unique|reverse|sort)$')


def run(ctx):
    p = ctx.load('types.cpp')
    regs = {r: g for r, g in guards(p).items() if any(re.search(r'\brtti::TypeInfo\b', t) for t in g['data'].values())}
    if len(regs) != 1:
        raise Broken('type registry not recognised (%s)' % ', '.join(regs))
    R = list(regs)[0]
    fs = [f for f in ctx.fns('rtti::MetaType::registerMetaType')]
    deepest = [f for f in fs if f.loc.startswith(REPO + '/src/')] or fs
    fields = {}
    for f in deepest:
        register(ctx, p, f, fields, R)
    for f in fs:
        if f not in deepest:
            forward(ctx, p, f, deepest[0])
    if not fields:
        if not ctx.undec:
            ctx.bad('registration adds a descriptor', deepest[0].where(), 'no path of registration adds a descriptor')
        return
    accessors(ctx, p, fields)
    manager(ctx, p, fields)
    handles(ctx, p, R)
    permanent(ctx, p, R)
    by_type(ctx, p)


def idval(v):
    """Value wrapped by an identifier."""
    if v is not None and v[0] == 'rec' and len(v[2]) == 1:
        return v[2][0][1]
    return v


def existing(p, v):
    """Key whose index entry v is."""
    if v is None:
        return None
    t = v[1] if v[0] == 'init' else v
    if t[0] == 'fld' and t[2] == 'second' and t[1][0] == 'mapval':
        return t[1][2]
    if v[0] == 'fv' and v[2] == 'second' and v[1][0] == 'fv':
        return v[1][2]
    return None


def nothing(p, v):
    v = idval(v)
    return v in (NULL, ('c', 0)) or is_nothing(p, v)


def of_registry(p, loc, R):
    g = guarded_of(p, loc) if loc is not None else None
    return g is not None and any(r == R for r, _ in g[2])


def writes(p, q, R):
    return [e for e in q.events if e.kind == 'cont' and e.x.get('mode') == 'w' and of_registry(p, e.obj, R) and not
            (e.n in ('emplace', 'try_emplace', 'insert') and e.args and truth(q, ('has', e.x.get('value'), e.args[0])) is True)]


def register(ctx, p, f, fields, R):
    ps = ctx.explore(f, **opts(p))
    if ps is None:
        return
    P = [param(f, i) for i in range(len(f.params))]
    name = P[0]
    kinds = set()
    for q in ps:
        if q.ctl == 'loopback':
            ctx.undecided('registration', f.where(), 'registration by a loop')
            continue
        if q.ctl != 'return':
            ctx.bad('registration ends normally', f.where(), 'registration ends in %s: %s' % (q.ctl, path_desc(q)))
            continue
        v = idval(q.val)
        ws = writes(p, q, R)
        if nothing(p, q.val):
            kinds.add('nothing')
            empty = truth(q, ('op', '==', ('size', name), ('c', 0)))
            down = any(b and k[0] == 'op' and k[1] in ('!=0', '==') and any(t and t[0] == 'glob' and not str(t[1]).startswith('sl:') for t in subterms(k)) for k, b in q.facts.items())
            if ws:
                ctx.bad('refused registration changes nothing', ws[0].where(), 'a registration that returns nothing modifies the registry: %s' % path_desc(q))
            elif empty is not True and not down:
                ctx.bad('registration refused without reason', f.where(), 'returns nothing for a name that may be non-empty: %s' % path_desc(q))
            else:
                ctx.ok('refused registration', f.where())
            continue
        if truth(q, ('op', '==', ('size', name), ('c', 0))) is not False and not (v[0] == 'addr' or existing(p, v) is not None) :
            ctx.undecided('registration', f.where(), 'result %s not recognised' % show(v))
            continue
        k = existing(p, v)
        if k is not None:
            kinds.add('existing')
            if k != name:
                ctx.bad('existing type is the one of that name', f.where(), 'returns the entry stored for %s: %s' % (show(k), path_desc(q)))
            elif ws:
                ctx.bad('existing type is left alone', ws[0].where(), 'registering a known name calls %s on %s' % (ws[0].n, show(ws[0].obj)))
            elif [e for e in q.events if e.kind in ('write', 'copyassign') and e.obj is not None and contains(e.obj, 'mapval') and not any(t and t[0] == 'var' for t in subterms(e.obj))]:
                ctx.bad('existing type is left alone', f.where(), 'registering a known name writes to its descriptor')
            else:
                ctx.ok('existing type', f.where())
                ctx.sample('existing: ' + path_desc(q))
            continue
        if v[0] == 'addr' and any(t == ('obj0', 'rtti::TypeInfo', v[1]) for t in (q.mem.get(v[1]),)):
            kinds.add('new')
            added(ctx, p, f, q, v[1], P, fields, ws)
            continue
        if v[0] == 'addr' and v[1][0] in ('var', 'tmp', 'glob'):
            ctx.bad('registration result', f.where(), 'returns the address of %s' % show(v[1]))
        else:
            ctx.undecided('registration', f.where(), 'result %s not recognised' % show(v))
    for k in ('new', 'existing'):
        if k not in kinds and not ctx.undec:
            ctx.bad('registration has a path returning the %s descriptor' % k, f.where(), 'no path returns the %s descriptor' % k)
    if not any(truth(q, ('op', '==', ('size', name), ('c', 0))) is True for q in ps if q.ctl == 'return') and not ctx.undec:
        ctx.bad('empty names are refused', f.where(), 'no path tests for an empty name')
    for q in ps:
        if q.ctl == 'return' and not nothing(p, q.val) and truth(q, ('op', '==', ('size', name), ('c', 0))) is not False:
            ctx.bad('empty names are refused', f.where(), 'an empty name may be registered: %s' % path_desc(q))


def added(ctx, p, f, q, E, P, fields, ws):
    name = P[0]
    maps = [e for e in ws if e.args and e.obj is not None and contains_key(e, name)]
    idx = [l for l, v in q.mem.items() if l[0] == 'fld' and l[2] == 'second' and l[1][0] == 'mapval' and v == ('addr', E)]
    if not idx:
        ctx.bad('new type is indexed', f.where(), 'the new descriptor is not entered into the name index: %s' % path_desc(q))
    for l in idx:
        key = l[1][2]
        if key != name and not named_of(q, key, E, name):
            ctx.bad('new type is indexed under its name', f.where(), 'the new descriptor is indexed under %s' % show(key))
        else:
            ctx.ok('new type is indexed', f.where())
        M = l[1][1]
        ins = [e for e in ws if e.obj == M]
        for e in ins:
            V = e.x.get('value') if e.x.get('raw') is None else e.x['raw']
            r = None
            for cand in (e.x.get('raw'), e.x.get('value')):
                if cand is not None and r is None:
                    r = truth(q, ('has', cand, key), e.facts)
                    if r is None:
                        r = truth(q, ('has', cand, key))
            if e.n in ('emplace', 'try_emplace', 'insert') and r is None:
                r = truth(q, ('has', q.it.read(M) if hasattr(q.it, 'read') else None, key))
            if r is not False:
                ctx.bad('a descriptor is only added for an unknown name', e.where(), 'the name may already be registered when %s runs (lookup and insertion are not one critical section): %s' % (e.n, path_desc(q)))
            else:
                ctx.ok('absence known at insertion', e.where())
                ctx.sample('new: ' + path_desc(q))
    for l, v in q.mem.items():
        if l[0] == 'fld' and l[1] == E:
            fields.setdefault(l[2], []).append((q, v, E, P, f))


def contains_key(e, name):
    return any(contains(a, name) for a in e.args)


def named_of(q, key, E, name):
    """key is the name kept by the descriptor itself."""
    return any(l[0] == 'fld' and l[1] == E and v == name and key in (('init', l), v) for l, v in q.mem.items())


def forward(ctx, p, f, g):
    """The keyed overload passes its arguments on unchanged."""
    ps = ctx.explore(f, **dict(opts(p, g.bn), inline=None))
    for q in ps or ():
        cs = [e for e in q.events if e.kind == 'call' and (e.x.get('target') == g or e.x.get('target') is not None and getattr(e.x['target'], 'id', None) == g.id or e.n == g.bn)]
        for e in cs:
            want = [param(f, i) for i in range(min(7, len(f.params)))]
            if list(e.args[:7]) != want:
                ctx.bad('registration arguments', e.where(), 'arguments are passed on as %s' % ', '.join(show(a) for a in e.args))
            else:
                ctx.ok('registration arguments', e.where())


def accessors(ctx, p, fields):
    for a, i in ATTR.items():
        for f in ctx.fns('rtti::MetaType::' + a):
            ps = ctx.explore(f, **opts(p))
            for q in ps or ():
                if q.ctl != 'return':
                    ctx.bad('%s does not fail' % a, f.where(), 'ends in %s: %s' % (q.ctl, path_desc(q)))
                    continue
                v = wide(q.val, 16 if a == 'pointerArity' else 32)
                t = v[1] if v is not None and v[0] == 'init' else None
                if t and t[0] == 'fld' and t[1][0] == 'deref':
                    owner = t[1][1]
                    if owner != ('init', ('fld', THIS, 'm_typeInfo')) and not (owner[0] == 'init' and owner[1][0] == 'fld' and owner[1][1] == THIS):
                        if any(x and x[0] == 'fld' and x[1][0] == 'deref' and x[1][1] == ('init', ('fld', THIS, 'm_typeInfo')) for x in subterms(owner)):
                            ctx.bad('%s reports what was registered' % a, f.where(), 'reports an attribute of another descriptor (%s)' % show(v))
                        else:
                            ctx.undecided(a, f.where(), 'reads %s' % show(v))
                        continue
                    got = fields.get(t[2])
                    if not got:
                        ctx.undecided(a, f.where(), 'attribute %s not set by registration' % t[2])
                        continue
                    for q2, val, E, P, rf in got:
                        if a == 'decayId':
                            decay(ctx, p, f, q2, t[2], val, E, P)
                        elif strip_conv(val, 16 if a == 'pointerArity' else 32) != P[i]:
                            ctx.bad('%s reports what was registered' % a, f.where(), 'registration stores %s in %s, which %s reports' % (show(val), t[2], a))
                        else:
                            ctx.ok('%s reports what was registered' % a, f.where())
                elif v is not None and (v[0] in ('c', 's') or nothing(p, v)):
                    if truth(q, ('op', '!=0', ('init', ('fld', THIS, 'm_typeInfo')), ('c', 0))) is not False:
                        ctx.bad('%s of a valid type' % a, f.where(), 'returns the constant %s for a type that may be valid: %s' % (show(v), path_desc(q)))
                    else:
                        ctx.ok('%s of an invalid type' % a, f.where())
                else:
                    ctx.undecided(a, f.where(), 'result %s not recognised' % show(v))


def strip_conv(v, bits):
    while v and v[0] == 'op' and (v[1] in ('cast', 'conv') or v[1] == 'trunc' and v[3][1] >= bits):
        v = v[2]
    return v


def decay(ctx, p, f, q, fld, val, E, P):
    want = P[2]
    own = ('addr', E)
    rec = q.mem.get(('fld', ('fld', E, fld), 'm_val'))
    if rec is not None:
        val = rec
    val = idval(val)
    wl = want[1]
    valid = None
    for k, b in q.facts.items():
        if contains(k, wl) and k[0] == 'op' and k[1] in ('!=0', '!='):
            valid = b
        elif contains(k, wl) and k[0] == 'op' and k[1] == '==':
            valid = not b
    if val == own:
        if valid is not False:
            ctx.bad('decayed type is kept', f.where(), 'the decayed type given at registration may be replaced by the type itself: %s' % path_desc(q))
        else:
            ctx.ok('own decay', f.where())
    elif val == want or contains(val, wl):
        if valid is not True:
            ctx.bad('a type without decayed type is its own decay', f.where(), 'an invalid decayed type may be stored: %s' % path_desc(q))
        else:
            ctx.ok('decay kept', f.where())
    else:
        ctx.bad('decayed type is kept', f.where(), 'the decayed type stored is %s' % show(val))


def manager(ctx, p, fields):
    """The operations used are those of the registered table."""
    slots = {}
    for n in ('allocate', 'deallocate', 'default_construct', 'copy_construct', 'move_construct', 'move_or_copy', 'destroy', 'compare_eq'):
        for f in p.fn('rtti::MetaType::' + n):
            if f.body is None:
                continue
            ps = ctx.explore(f, **opts(p))
            for q in ps or ():
                ic = [e for e in q.events if e.kind == 'icall']
                for e in ic:
                    ts = [t for t in subterms(e.obj if e.obj is not None else e.x.get('callee')) if t and t[0] == 'fld']
                    for t in ts:
                        if t[1] == ('deref', ('init', ('fld', THIS, 'm_typeInfo'))) and t[2] in fields:
                            for q2, val, E, P, rf in fields[t[2]]:
                                if val == P[6]:
                                    ctx.ok('%s uses the registered operations' % n, f.where())
                                else:
                                    ctx.bad('%s uses the registered operations' % n, f.where(), 'registration stores %s as %s' % (show(val), t[2]))


def handles(ctx, p, R):
    TI = ('fld', THIS, 'm_typeInfo')
    cs = [f for f in p.funcs.values() if f.cls == 'rtti::MetaType' and f.body is not None and f.d.get('ctor') and len(f.params) == 1]
    for f in cs:
        kind = 'name' if 'string_view' in f.params[0]['t'] else 'id' if 'ID<' in f.params[0]['t'] else None
        if kind is None:
            continue
        ps = ctx.explore(f, **opts(p))
        found = 0
        arg = param(f)
        for q in ps or ():
            if q.ctl != 'return':
                ctx.bad('lookup by %s' % kind, f.where(), 'ends in %s: %s' % (q.ctl, path_desc(q)))
                continue
            if writes(p, q, R):
                ctx.bad('lookup by %s registers nothing' % kind, f.where(), 'lookup modifies the registry')
            v = q.mem.get(TI)
            if v is None:
                cand = [x for l, x in q.mem.items() if l[0] == 'fld' and l[1] == THIS]
                v = cand[0] if len(cand) == 1 else None
            if v is None:
                ctx.undecided('lookup by ' + kind, f.where(), 'handle not recognised')
                continue
            k = existing(p, v)
            down = any(b and any(t and t[0] == 'glob' and not str(t[1]).startswith('sl:') for t in subterms(k2)) for k2, b in q.facts.items())
            if kind == 'name':
                if k is not None:
                    found += 1
                    ctx.req(k == arg, 'lookup by name', f.where(), 'yields the descriptor stored for %s' % show(k))
                elif nothing(p, v):
                    absent = any(b is False and kk[0] == 'has' and kk[2] == arg for kk, b in q.facts.items())
                    empty = truth(q, ('op', '==', ('size', arg), ('c', 0)))
                    ctx.req(absent or empty is True or down, 'lookup by name misses', f.where(), 'yields an invalid type although the name may be registered: %s' % path_desc(q))
                else:
                    ctx.undecided('lookup by name', f.where(), 'yields %s' % show(v))
            else:
                if v == arg or contains(v, arg[1]):
                    if v[0] == 'op':
                        ctx.bad('lookup by id', f.where(), 'the handle refers to %s' % show(v))
                    else:
                        found += 1
                        ctx.ok('lookup by id', f.where())
                elif nothing(p, v):
                    zero = any(contains(k2, arg[1]) for k2 in q.facts)
                    ctx.req(down or zero, 'lookup by id', f.where(), 'a valid id yields an invalid type: %s' % path_desc(q))
                else:
                    ctx.undecided('lookup by id', f.where(), 'yields %s' % show(v))
        if ps and not found and not ctx.undec:
            ctx.bad('lookup by %s' % kind, f.where(), 'no path yields a registered type')
    for f in ctx.fns('rtti::MetaType::typeId'):
        for q in ctx.explore(f, **opts(p)) or ():
            v = idval(q.val) if q.ctl == 'return' else None
            down = any(b and any(t and t[0] == 'glob' and not str(t[1]).startswith('sl:') for t in subterms(k2)) for k2, b in q.facts.items())
            if v == ('init', TI) or v is not None and contains(v, TI) and v[0] != 'op':
                ctx.ok('id of a handle', f.where())
            elif v is not None and nothing(p, v):
                ctx.req(down or truth(q, ('op', '!=0', ('init', TI), ('c', 0))) is False, 'id of a handle', f.where(), 'a valid type has no id: %s' % path_desc(q))
            else:
                ctx.bad('id of a handle', f.where(), 'the id is %s: %s' % (show(v), path_desc(q)))


def permanent(ctx, p, R):
    """No removal, no later write."""
    n = 0
    for f in p.funcs.values():
        if f.body is None or not in_repo(f.loc) or f.lam:
            continue
        if f.cls == R and not f.d.get('dtor') and not f.d.get('ctor'):
            for q in ctx.explore(f, **opts(p)) or ():
                n += 1
                for e in writes(p, q, R):
                    if REMOVE.match(e.n):
                        ctx.bad('types are never removed', e.where(), '%s is applied to %s' % (e.n, show(e.obj)))
        if f.cls != 'rtti::TypeInfo' or not (f.d.get('ctor') or f.d.get('dtor')):
            for x in assigned(f.body):
                if x.get('c') == 'rtti::TypeInfo' and x.get('f') != 'metaClass':
                    ctx.bad('attributes are never written again', f.where(), '%s assigns to %s of a registered type' % (f.n, x.get('f')))
    ctx.ok('types are never removed', '', '%d paths' % n)
    rec = p.records.get('rtti::TypeInfo')
    if rec:
        for fd in rec['fields']:
            t = fd['t']
            if fd.get('const') or t.startswith('const ') and not t.endswith('*') or t.endswith('const'):
                ctx.ok('%s is constant' % fd['n'], '')


def assigned(x):
    """Member nodes that are targets of assignments, increments or non-const references."""
    if isinstance(x, dict):
        if x.get('k') == 'bin' and str(x.get('op', '')).endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
            y = x.get('a')
            while isinstance(y, dict) and y.get('k') in ('paren', 'cast', 'full'):
                y = y.get('e')
            if isinstance(y, dict) and y.get('k') == 'm':
                yield y
        if x.get('k') == 'un' and x.get('op') in ('++', '--'):
            y = x.get('e')
            if isinstance(y, dict) and y.get('k') == 'm':
                yield y
        for y in x.values():
            if isinstance(y, (dict, list)):
                yield from assigned(y)
    elif isinstance(x, list):
        for y in x:
            yield from assigned(y)


def by_type(ctx, p):
    """metaTypeId<T> registers the name of T and returns that registration."""
    fs = [f for f in p.fn('rtti::metaTypeId') if f.body is not None and f.ta]
    n = 0
    for f in fs:
        T = f.ta[0]
        if T == 'void':
            continue
        ps = ctx.explore(f, hooks={'rtti::type_name': lambda it, e, obj, args: named_type(p, e)}, **opts(p, 'rtti::MetaType::registerMetaType'))
        for q in ps or ():
            key = 'metaTypeId<%s>' % T
            if q.ctl != 'return':
                ctx.undecided(key, f.where(), 'ends in ' + q.ctl)
                continue
            regs = [e for e in q.events if e.kind == 'call' and e.n.endswith('registerMetaType')]
            if not regs:
                ctx.bad(key, f.where(), 'the type is not registered')
                continue
            e = regs[-1]
            a = e.args[0] if e.args else None
            if a is not None and a[0] == 's' and a[1] != 'name of ' + T:
                ctx.bad(key, e.where(), 'registered under the %s' % a[1])
                continue
            if a is None or a[0] != 's':
                ctx.undecided(key, e.where(), 'name argument %s' % show(a))
                continue
            v = q.val
            if v is None or not (v == e.res or contains(v, e.res) if e.res is not None else contains(v, 'registerMetaType')):
                ctx.bad(key, f.where(), 'the result %s is not the registration of %s' % (show(v), T))
                continue
            st = [x for x in q.events if x.kind == 'static_init']
            ctx.ok(key, f.where())
            n += 1
    ctx.counts['types'] = n
    if n < 20 and not ctx.undec:
        raise Broken('only %d type instantiations found' % n)


def named_type(p, e):
    f = p.funcs.get(e.get('f'))
    return ('s', 'name of ' + f.ta[0]) if f is not None and f.ta else NotImplemented
