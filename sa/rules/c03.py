"""Lockset analysis over every path of every library entry point (callees analysed in context): each access to a
container or pointer kept in a class with a mutex happens with a mutex of the same object held, exclusively when it
modifies; no path acquires a non-recursive mutex it already holds or leaves one held; deferred definitions and
registrations are never started while a registry list is locked; no registry container lives in a class without a lock,
and public const queries write no unsynchronised field."""
import re
from ..lib import *
from ..core import Broken

MIN_GUARDED = 6
READ_K = ('uptr_use', 'uptr_read')
RUNS_DEFS = DEFER + ('rtti::MetaContainer::forceDeferredDefine', 'rtti::MetaContainerPrivate::forceDeferredDefine')
WRITE_K = ('write', 'copyassign', 'move', 'uptr_dtor', 'uptr_release', 'swap')


def run(ctx):
    p = ctx.load()
    g = guards(p)
    withdata = {n: i for n, i in g.items() if i['data']}
    ctx.cov['registry_classes'] = {n: {'mutex': sorted(i['mutex']), 'guards': sorted(i['data'])} for n, i in withdata.items()}
    for n, f, loc in unguarded_containers(p):
        ctx.bad('container %s::%s' % (n, f), loc.replace('/repo/', ''),
                'registry container %s::%s has no mutex beside it' % (n, f))
    for n, i in withdata.items():
        ctx.ok('class %s has %s' % (n, ','.join(i['mutex'])), p.records[n]['loc'])
    if len(withdata) < 1:
        raise Broken('no lock-protected class found')
    names = {f for i in g.values() for f in i['data']} | {f for i in g.values() for f in i['mutex']}
    seed = {f.id for f in p.funcs.values() if f.body is not None and mentions(f.body, names)}
    seed |= {f.id for f in p.funcs.values() if f.bn == INVOKE_DEF}
    near = reaches(p, seed)
    rs = [f for f in roots(p) if f.id in near or f.cm and f.d.get('acc') == 'public' and f.cls and (f.cls == 'rtti::MetaType' or p.derives(f.cls, 'rtti::MetaItem'))]
    entered = set()
    checked = {}
    for f in rs:
        recursive_stop = {'rtti::MetaItemPrivate::makeQualifiedName'}
        ps = ctx.explore(f, stop=recursive_stop, nonnull_elems=True, maxpaths=3000)
        if ps is None:
            continue
        entered.add(f.id)
        manual = False
        for q in ps:
            manual |= check_path(ctx, p, f, q, checked, entered)
        if manual:
            ps = ctx.explore(f, stop=recursive_stop, nonnull_elems=True, exc=True, maxpaths=3000)
            for q in ps or ():
                if q.ctl == 'throw' and q.locks:
                    ctx.bad('%s leaks lock' % f.n, f.where(), 'exception leaves %s locked: %s' % (show(q.locks[-1][0]), path_desc(q)))
    for (fn, n, field, mode), (ok, where) in sorted(checked.items()):
        if ok:
            ctx.ok('%s accesses %s.%s (%s)' % (fn, n, field, mode), where)
            ctx.sample('%s: %s.%s %s under its lock' % (where, n, field, mode))
    nsites = len(checked)
    ctx.counts['access_sites'] = nsites
    if nsites < 20:
        raise Broken('only %d guarded accesses found' % nsites)
    # functions touching guarded fields which no exploration reached
    for f in p.funcs.values():
        if f.body is None or not in_repo(f.loc) or f.id in entered or f.d.get('ctor') or f.lam:
            continue
        if f.cls in g and mentions(f.body, g[f.cls]['data']):
            if not callers(p).get(f.id):
                ctx.undecided(f.n, f.where(), 'accesses registry data but was not reached')


def private_state(p, loc):
    """Is loc a field of a registry object (reached through d_ptr, a list entry or a type descriptor)?"""
    while isinstance(loc, tuple) and loc and loc[0] in ('fld', 'idx', 'elem', 'mapval'):
        if loc[0] == 'fld':
            par = loc[1]
            if par[0] == 'deref' and isinstance(par[1], tuple) and par[1] and par[1][0] == 'init' and par[1][1][0] == 'fld' and par[1][1][2] in ('d_ptr', 'm_typeInfo'):
                return True
        loc = loc[1]
    return False


def check_path(ctx, p, root, q, checked, entered):
    manual = False
    for e in q.events:
        if e.kind == 'enter':
            entered.add(e.x['callee'].id)
            if e.x['callee'].bn not in RUNS_DEFS:
                continue
        if e.kind == 'lock':
            m = e.args[0][1]
            if isinstance(e.obj, tuple) and e.obj[0] == 'm':
                manual = True
            if e.x['x0'] and not e.x['recursive']:
                ctx.bad('%s relocks' % e.fn.n, e.where(), '%s is acquired again while already held (entry %s): %s' % (show(m), root.n, path_desc(q)))
            continue
        if e.kind == 'enter' or e.kind == 'call' and (e.n == INVOKE_DEF or e.n in RUNS_DEFS):
            for m, k, h in e.locks:
                if m[0] == 'fld' and guarded_lists(p, m):
                    ctx.bad('%s runs definitions under a registry lock' % e.fn.n, e.where(),
                            'deferred definition can run while %s is held (entry %s)' % (show(m), root.n))
            continue
        loc, mode = None, None
        if e.kind in ('cont', 'iterate', 'iterderef'):
            loc = e.obj
            mode = 'w' if e.kind == 'cont' and e.x.get('mode') == 'w' else 'r'
            if e.kind == 'iterderef':
                continue
        elif e.kind in READ_K:
            loc, mode = e.obj, 'r'
        elif e.kind in WRITE_K:
            loc, mode = e.obj, 'w'
        elif e.kind == 'ctor' and e.args and e.args[0] and e.args[0][0] == 'addr' and (e.x.get('copy') or e.x.get('move')):
            loc, mode = e.args[0][1], 'w' if e.x.get('move') else 'r'
        if loc is None:
            continue
        if e.kind == 'swap':
            locs = [a[1] for a in e.args]
        else:
            locs = [loc]
        for loc in locs:
            b = base_of(loc)
            if b[0] in ('obj', 'tmp', 'var'):
                continue
            gi = guarded_of(p, loc)
            if gi is None:
                # an element reached through a guarded container: writes need the container's lock
                if mode == 'w':
                    own = elem_owner(p, loc)
                    if own is not None:
                        h = held(e, own[0], own[2])
                        key = (e.fn.n, own[2][0][0], own[1], 'modify entry')
                        if h != 'x':
                            ctx.bad('%s modifies entry of %s' % (e.fn.n, own[1]), e.where(), 'entry of %s is modified with %s' % (
                                own[1], 'only a shared lock' if h == 's' else 'no lock'))
                            checked[key] = (False, e.where())
                        else:
                            checked.setdefault(key, (True, e.where()))
                    elif e.kind in ('write', 'copyassign') and private_state(p, loc) and root.cm and root.d.get('acc') == 'public':
                        if not any(k == 'x' for m, k, h in e.locks):
                            ctx.bad('%s writes shared state' % e.fn.n, e.where(), 'const query %s writes %s without synchronisation' % (root.n, show(loc)))
                continue
            owner, field, info = gi
            h = held(e, owner, info)
            recs = info[0][0]
            key = (e.fn.n, recs, field, 'modify' if mode == 'w' else 'read')
            if mode == 'r' and h is None or mode == 'w' and h != 'x':
                ctx.bad('%s %s %s' % (e.fn.n, 'modifies' if mode == 'w' else 'reads', field), e.where(),
                        '%s is %s with %s (entry %s): %s' % (show(loc), 'modified' if mode == 'w' else 'read',
                                                            'only a shared lock' if h else 'no lock', root.n, path_desc(q, 6)))
                checked[key] = (False, e.where())
            else:
                checked.setdefault(key, (True, e.where()))
    if q.ctl == 'return' and q.locks:
        ctx.bad('%s leaves lock' % root.n, root.where(), '%s is still held on return: %s' % (show(q.locks[-1][0]), path_desc(q)))
    # a reference into the container's own slots must not leave the critical section
    v = q.val
    if q.ctl == 'return' and isinstance(v, tuple) and v and v[0] == 'addr':
        l = v[1]
        gi = guarded_of(p, l)
        if gi is not None and base_of(l)[0] not in ('obj', 'tmp', 'var') and l != ('fld', gi[0], gi[1]):
            stable = re.match(r'^std::(__cxx11::)?(forward_list|list|map|unordered_map|set|unordered_set)<', gi[2][0][1]['data'][gi[1]])
            if not stable:
                ctx.bad('%s returns slot' % root.n, root.where(), 'returns a reference to a slot of %s, which moves when entries are added' % show(l))
    return manual


def elem_owner(p, loc):
    """Guarded container an entry (reached through an owning pointer) belongs to."""
    while isinstance(loc, tuple) and loc:
        if loc[0] == 'deref' and isinstance(loc[1], tuple) and loc[1] and loc[1][0] in ('init', 'sync') and loc[1][-1][0] in ('elem', 'mapval'):
            return guarded_of(p, loc[1][-1])
        if loc[0] in ('fld', 'idx'):
            loc = loc[1]
        else:
            return None
    return None


def guarded_lists(p, m):
    """Does this mutex protect a container (as opposed to the definition callback itself)?"""
    for n, i in guards(p).items():
        if m[2] in i['mutex'] and any(CONT_T.match(t) for t in i['data'].values()):
            return True
    return False
