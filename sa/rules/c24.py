"""A registry kept in a static object whose destructor runs at exit must mark itself destroyed there, on every path, and
nothing else may change the mark. In the path summaries of every function of the library that can reach the registry,
each access to it lies on a path where the mark has been tested and found clear; paths where the mark is set return an
invalid id, null or false, leave a type handle invalid, and touch nothing."""
from ..registry import *


def run(ctx):
    p = ctx.load()
    regs = {}
    for r, i in guards(p).items():
        if not i['data']:
            continue
        fs = [f for f in p.funcs.values() if f.cls == r and f.body is not None and not f.lam]
        if not fs:
            continue
        regs[r] = fs
    # static instances and the functions that touch them
    g = guards(p)
    seed = {f.id for f in p.funcs.values() if f.body is not None and f.cls == 'rtti::MetaType' and f.loc.startswith(REPO + '/src/')}
    if not seed:
        raise Broken('anchor vanished: definitions of MetaType functions')
    flags = {}
    inst = {}
    near = reaches(p, {f.id for fs in regs.values() for f in fs})
    seed &= near
    for r in regs:
        if any(f.d.get('dtor') and f.loc.startswith(REPO) and f.d.get('up', True) for f in regs[r]) and flag_exists(p, regs[r]):
            flag_of(ctx, p, r, flags)
    for f in sorted((p.funcs[x] for x in seed), key=lambda f: f.loc):
        ps = ctx.explore(f, **opts(p))
        if ps is None:
            continue
        function(ctx, p, f, ps, flags, inst)
    if len(inst) < 2:
        if not ctx.undec:
            raise Broken('only %d static registries recognised' % len(inst))
    for G, r in inst.items():
        flag_of(ctx, p, r, flags)
        fl = flags.get(r)
        ctx.sample('%s is guarded by %s' % (r, fl and show(fl[0])))
    for r in set(inst.values()):
        if flags.get(r):
            stable(ctx, p, r, flags[r])
    handles(ctx, p, flags, inst)


def flag_exists(p, fs):
    return any(f.d.get('dtor') and mentions_write(f.body) for f in fs)


def mentions_write(x):
    if isinstance(x, dict):
        if x.get('k') == 'v' and x.get('g') == 'g':
            return True
        return any(mentions_write(y) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(mentions_write(y) for y in x)
    return False


def flag_of(ctx, p, r, flags):
    """(global, value) written by the destructor of r on every path."""
    if r in flags:
        return flags[r]
    flags[r] = None
    ds = [f for f in p.funcs.values() if f.cls == r and f.d.get('dtor') and f.body is not None]
    key = '%s marks itself destroyed' % r
    if not ds:
        rec = p.records.get(r)
        ctx.bad(key, (rec.get('loc') or '').replace('/repo/', '') if rec else '', 'the registry has no destructor that marks it destroyed')
        return None
    ps = ctx.explore(ds[0], **opts(p))
    if ps is None:
        return None
    common = None
    for q in ps:
        if q.ctl == 'loopback':
            continue
        ws = set()
        for e in q.events:
            if e.kind == 'write' and e.obj is not None and e.obj[0] == 'glob':
                ws.add((e.obj, e.args[0]))
            elif e.kind == 'atomic' and e.obj is not None and e.obj[0] == 'glob' and e.n != 'load':
                ws.add((e.obj, e.args[0]))
        common = ws if common is None else common & ws
    if not common:
        ctx.bad(key, ds[0].where(), 'the destructor can finish without marking the registry destroyed')
        return None
    loc, v = sorted(common, key=str)[0]
    gi = p.globals.get(loc[1])
    i = gi and gi.get('init')
    if i and i.get('k') == 'c' and v == ('c', i.get('v')):
        ctx.bad(key, ds[0].where(), 'the mark %s has the same value before and after destruction' % show(loc))
    else:
        ctx.ok(key, ds[0].where())
    flags[r] = (loc, v)
    return flags[r]


def stable(ctx, p, r, flag):
    loc, v = flag
    n = 0
    for f in p.funcs.values():
        if f.body is None or not in_repo(f.loc) or f.d.get('dtor') and f.cls == r:
            continue
        if writes_glob(f.body, loc[1]):
            ctx.bad('%s mark is changed' % r, f.where(), '%s changes the destroyed mark %s' % (f.n, show(loc)))
            n += 1
    if not n:
        ctx.ok('%s mark is only set by its destructor' % r)


def names_glob(x, n):
    if isinstance(x, dict):
        if x.get('k') in ('g', 'v', 'm', 'sm', 'gv') and (x.get('n') == n or x.get('g') == n or x.get('qn') == n):
            return True
        return any(names_glob(y, n) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(names_glob(y, n) for y in x)
    return False


def writes_glob(x, n):
    if isinstance(x, dict):
        if x.get('k') in ('bin', 'asg', 'assign', 'casg') and str(x.get('op', '')).endswith('=') and x.get('op') not in ('==', '!=', '<=', '>=') and names_glob(x.get('a') or x.get('l2') or x.get('lhs'), n):
            return True
        if x.get('k') == 'call' and isinstance(x.get('obj'), dict) and x['obj'].get('k') == 'v' and x['obj'].get('n') == n and re.search(r'::(store|exchange|operator=|compare_exchange\w+)$', x.get('bn', '')):
            return True
        return any(writes_glob(y, n) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(writes_glob(y, n) for y in x)
    return False


def registry_of(p, G, q):
    v = q.mem.get(G)
    if v and v[0] == 'obj0' and v[1] in guards(p):
        return v[1]
    t = q.types.get(G)
    if t in guards(p):
        return t
    g = p.globals.get(G[1])
    if g and g.get('t') in guards(p):
        return g['t']
    return None


def function(ctx, p, f, ps, flags, inst):
    for q in ps:
        for e in q.events:
            if e.kind in ('cont', 'iterate', 'lock', 'static_init', 'uptr_use', 'write', 'swap'):
                loc = e.args[0][1] if e.kind == 'lock' and e.args and e.args[0][0] == 'addr' else e.obj
                if loc is None:
                    continue
                G = base_of(loc)
                if G[0] == 'glob':
                    r = registry_of(p, G, q)
                    if r is None:
                        continue
                    inst[G] = r
                else:
                    r = e.fn.cls
                    if r not in flags or not flags[r] or not any(t and t[0] == 'glob' for t in subterms(G)):
                        continue
                if f.d.get('dtor'):
                    continue
                fl = flag_of(ctx, p, r, flags)
                if fl is None:
                    continue
                key = '%s reaches %s' % (f.n, r)
                t = is_set(q, fl, e.facts)
                if t is None:
                    ctx.bad(key, e.where(), 'the registry is used without testing whether it was destroyed (%s): %s' % (show(fl[0]), path_desc(q)))
                elif t:
                    ctx.bad(key, e.where(), 'the registry is used after it was destroyed (%s): %s' % (show(fl[0]), path_desc(q)))
                else:
                    ctx.ok(key, e.where())
    for r in set(inst.values()):
        fl = flags.get(r)
        if not fl:
            continue
        for q in ps:
            if is_set(q, fl, q.facts):
                key = '%s after shutdown of %s' % (f.n, r)
                if q.ctl != 'return':
                    ctx.bad(key, f.where(), 'ends in %s after the registry was destroyed: %s' % (q.ctl, path_desc(q)))
                elif f.d.get('ctor') or f.rt == 'void' or q.val is None:
                    ctx.ok(key, f.where())
                elif is_nothing(p, q.val) or q.it.holds(q.val, q.facts) is False:
                    ctx.ok(key, f.where())
                    ctx.sample('%s: %s' % (f.n, path_desc(q)))
                elif q.val[0] == 'c' and q.val[1] != 0 or q.val[0] == 'addr' or q.val[0] in ('init', 'call', 'icall', 'op', 'not', 'rec'):
                    ctx.bad(key, f.where(), 'returns %s after the registry was destroyed: %s' % (show(q.val), path_desc(q)))
                else:
                    ctx.undecided(key, f.where(), 'result %s not recognised' % show(q.val))


def is_set(q, fl, facts):
    loc, v = fl
    t = ('init', loc)
    if v == ('c', 0):
        r = q.it.holds(('op', '!=0', t, ('c', 0)), facts)
        return None if r is None else not r
    r = q.it.holds(('op', '!=0', t, ('c', 0)), facts)
    if r is None:
        r = q.it.holds(('op', '==', t, v), facts)
    return r


def handles(ctx, p, flags, inst):
    """Type handles made after shutdown are invalid, and valid ones answer no id."""
    tr = [r for r in set(inst.values()) if any('TypeInfo' in t for t in guards(p)[r]['data'].values())]
    if len(tr) != 1 or not flags.get(tr[0]):
        ctx.undecided('type handles', '', 'type registry not recognised')
        return
    fl = flags[tr[0]]
    fs = [f for f in p.funcs.values() if f.cls == 'rtti::MetaType' and f.body is not None and f.d.get('ctor') and len(f.params) == 1 and
          re.search(r'string_view|ID<', f.params[0]['t'])] + [f for f in p.fn('rtti::MetaType::typeId') if f.body is not None]
    for f in fs:
        ps = ctx.explore(f, **opts(p))
        for q in ps or ():
            if q.ctl != 'return':
                continue
            if f.d.get('ctor'):
                vs = [v for l, v in q.mem.items() if l[0] == 'fld' and l[1] == THIS and l[2] == 'm_typeInfo']
                v = vs[0] if vs else None
            else:
                v = q.val
            key = '%s(%s) after shutdown' % (f.n, f.params[0]['n'] if f.params else '')
            if v is None:
                ctx.undecided(key, f.where(), 'result not recognised')
            elif is_nothing(p, v) or q.it.holds(v, q.facts) is False:
                ctx.ok(key, f.where())
            elif is_set(q, fl, q.facts) is False:
                ctx.ok(key, f.where())
            else:
                ctx.bad(key, f.where(), 'yields %s without testing whether the registry was destroyed: %s' % (show(v), path_desc(q)))
