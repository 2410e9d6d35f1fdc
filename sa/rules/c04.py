"""Every path of every library entry point is summarised (callees in context). Insertions into an index keyed by string views:
the view must refer to storage inside the entry inserted on the same path (or to static storage), never to a parameter or a local
string; the same holds for names of types, followed to the calls that pass them. No path outside a destructor removes, replaces,
moves or clears entries of a registry, resets an item's private part, or writes the name of an existing entry (the converter
registry, which offers removal, excepted). No public function returns, stores or passes to a callback the address of a slot of a
relocating container, of a local, or of a static object it overwrites."""
import re
from ..registry import *
from .c03 import elem_owner, RUNS_DEFS

ADDS = ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'emplace_hint', 'operator[]', 'push_back', 'emplace_back', 'push_front',
        'emplace_front', 'insert_after', 'emplace_after', 'reserve', 'rehash', 'max_load_factor')
INDEX_T = re.compile(r'^std::(__cxx11::)?(unordered_)?(multi)?(map|set)<std::basic_string_view<')
STABLE = re.compile(r'^std::(__cxx11::)?(forward_list|list|map|unordered_map|set|unordered_set|multimap)<')
CONV = 'rtti::MetaType::unregisterConverter'
NAMES = (('rtti::MetaItem', 'name'), ('rtti::MetaItem', 'qualifiedName'), ('rtti::MetaItem', 'attributeName'), ('rtti::MetaEnum', 'elementName'),
         ('rtti::MetaType', 'typeName'))


def run(ctx):
    p = ctx.load('inherit.cpp')
    g = guards(p)
    if not any(i['data'] for i in g.values()):
        raise Broken('no registry class found')
    names = {f for i in g.values() for f in i['data']}
    seed = {f.id for f in p.funcs.values() if f.body is not None and mentions(f.body, names)}
    near = reaches(p, seed)
    rs = [f for f in roots(p) if f.id in near or f.d.get('acc') == 'public' and f.cls and (f.cls == 'rtti::MetaType' or p.derives(f.cls, 'rtti::MetaItem')) and (f.rt.endswith(('&', '*')) or 'string_view' in f.rt)]
    cs = callers(p)
    have = {f.id for f in rs}
    for f in p.funcs.values():
        if f.body is not None and f.id in near and f.id not in have and f.loc.startswith(REPO + '/src/') and not f.lam and not f.d.get('ctor') and not f.d.get('dtor') and \
                not any(p.funcs[c].loc.startswith(REPO + '/src/') for c in cs.get(f.id, ())):
            rs.append(f)
    namefields = name_fields(ctx, p)
    views = set()
    done = set()
    for f in rs:
        ps = ctx.explore(f, stop={'rtti::MetaItemPrivate::makeQualifiedName'}, nonnull_elems=True, maxpaths=3000)
        for q in ps or ():
            TYPES.clear()
            for e in q.events:
                if e.kind == 'cont' and e.obj in q.ctypes:
                    TYPES[e.obj] = q.ctypes[e.obj]
            for e in q.events:
                if e.kind == 'cont':
                    indexes(ctx, p, f, q, e, views, done)
                    removal(ctx, p, f, q, e, done)
                    stored(ctx, p, f, q, e, done)
                replaced(ctx, p, f, q, e, namefields, done)
                handed(ctx, p, f, q, e, done)
            returned(ctx, p, f, q, done)
    type_names(ctx, p, views)
    for k in sorted(done):
        ctx.ok(*k)
    ctx.counts['roots'] = len(rs)
    if not any(k[0].startswith('key of') for k in done) and not views and not ctx.undec and not [o for o in ctx.obl if not o[1]]:
        raise Broken('no insertion into a name index found')


def stable_slot(p, loc):
    """False when loc lies in a slot of a relocating container (no indirection in between)."""
    cur = loc
    while isinstance(cur, tuple) and cur:
        if cur[0] in ('fld', 'idx'):
            cur = cur[1]
        elif cur[0] == 'elem':
            t = cont_type(p, cur[1])
            if t is None:
                return None
            return bool(STABLE.match(t))
        elif cur[0] == 'mapval':
            return True
        else:
            return True
    return True


TYPES = {}


def cont_type(p, cloc):
    t = TYPES.get(cloc)
    if t is not None:
        return t
    if cloc[0] == 'fld':
        ts = {f['t'] for r in p.records.values() if (r.get('loc') or '').startswith(REPO) for f in r['fields'] if f['n'] == cloc[2] and CONT_T.match(f['t'])}
        if len(ts) == 1:
            return ts.pop()
    return None


def within(loc, what):
    """Is loc (transitively) inside / reached from the entry `what` (a location)?"""
    return loc == what or contains(loc, what)


def indexes(ctx, p, f, q, e, views, done):
    if e.n not in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'emplace_hint', 'operator[]') or e.x.get('mode') != 'w':
        return
    t = cont_type(p, e.obj)
    if t is None or not INDEX_T.match(t):
        return
    what = 'key of %s' % show(e.obj).split('.')[-1] + ' in ' + (e.fn.cls or e.fn.n)
    raw = e.x.get('raw')
    kl = e.x.get('keyloc')
    if raw is None:
        ctx.undecided(what, e.where(), 'key not understood')
        return
    loc = None
    if kl is not None and 'basic_string<' in kl[1]:
        loc = kl[0]
    elif raw[0] == 'sv':
        loc = raw[2]
    if loc is None and raw[0] == 's':
        done.add((what, e.where(), ''))
        return
    if loc is None and raw[0] == 'init':
        l = raw[1]
        b = base_of(l)
        if b[0] == 'var':
            # the caller's view: allowed only if the entry itself keeps that view, and every caller passes static storage
            if entry_keeps_view(p, q, e, raw):
                views.add((f.id, raw, what, e.where()))
            else:
                ctx.bad(what, e.where(), 'the key is the caller\'s view %s, not the name kept by the entry (entry %s)' % (show(raw), f.n))
            return
        loc = l
    if loc is None:
        ctx.undecided(what, e.where(), 'storage of key %s not known' % show(raw))
        return
    b = base_of(loc)
    if b[0] == 'glob':
        done.add((what, e.where(), ''))
        return
    if b[0] in ('var', 'tmp'):
        if contains(q.mem.get(b, ()), ('static',)):
            return
        ctx.bad(what, e.where(), 'the key refers to the local string %s (entry %s)' % (show(loc), f.n))
        return
    if stable_slot(p, loc) is False:
        ctx.bad(what, e.where(), 'the key refers to %s, which moves when entries are added' % show(loc))
        return
    ins = [x for x in q.events if x.kind == 'cont' and x.x.get('elem') is not None and x.obj[:2] == e.obj[:2]]
    vals = [x.x.get('val') for x in ins] + [x.x.get('elem') for x in ins]
    if not ins:
        ctx.undecided(what, e.where(), 'no entry is inserted on the path')
        return
    if any(v is not None and (v[0] == 'addr' and within(loc, v[1]) or within(loc, v)) for v in vals):
        done.add((what, e.where(), 'inside the entry'))
        ctx.sample('%s: %s' % (what, show(loc)))
    elif b[0] == 'obj' and b in owned(q, [v[1] for v in vals if v is not None and v[0] == 'addr']):
        done.add((what, e.where(), 'inside the entry'))
    elif b[0] == 'obj' or b[0] == 'deref' and b[1][0] == 'init':
        # reached through the pointer that is stored
        ps_ = [v for v in vals if v is not None]
        if any(contains(loc, v) for v in ps_):
            done.add((what, e.where(), 'inside the entry'))
        else:
            ctx.bad(what, e.where(), 'the key refers to %s, the entry inserted is %s' % (show(loc), ', '.join(show(v) for v in ps_)))
    else:
        ctx.undecided(what, e.where(), 'storage %s of the key not recognised' % show(loc))


def entry_keeps_view(p, q, e, raw):
    """The inserted entry has a string_view name initialised with the same view."""
    for x in q.events:
        if x.kind == 'cont' and x.x.get('elem') is not None and x.obj[:2] == e.obj[:2]:
            el = x.x['elem']
            cands = [el] + ([x.x['val'][1]] if x.x.get('val') and x.x['val'][0] == 'addr' else [])
            if raw in (x.x.get('args_') or x.args):
                return view_entry(p, x)
            for c in cands:
                for l, v in q.mem.items():
                    if l[0] == 'fld' and contains(l, c) and v == raw:
                        return view_entry(p, x)
    return False


def view_entry(p, x):
    t = cont_type(p, x.obj) or ''
    m = re.search(r'<(?:std::unique_ptr<)?(rtti::[\w:]+)', t)
    r = p.records.get(m.group(1)) if m else None
    return bool(r) and any('basic_string_view<' in fl['t'] for fl in r['fields']) and not any('basic_string<' in fl['t'] for fl in r['fields'])


def removal(ctx, p, f, q, e, done):
    if e.x.get('mode') != 'w' or e.n in ADDS:
        return
    gi = guarded_of(p, e.obj)
    if gi is None or base_of(e.obj)[0] in ('var', 'tmp', 'obj'):
        return
    if in_dtor(f, e):
        return
    if 'ConvertFunction' in (cont_type(p, e.obj) or '') or 'ConvertFunction' in (e.fn.cls or ''):
        return
    ctx.bad('%s modified by %s' % (gi[1], e.n), e.where(), 'entries of %s can be removed or moved by %s (entry %s)' % (show(e.obj), e.n, f.n))


def in_dtor(f, e):
    return bool(f.d.get('dtor') or e.fn.d.get('dtor')) or any('::~' in s[0] for s in e.stack or ())


def in_ctor(f, e):
    return bool(f.d.get('ctor') or e.fn.d.get('ctor')) or any('{ctor}' in s[0] or s[0].split('::')[-1] == s[0].split('::')[-2:][0] for s in e.stack or ())


def owned(q, start):
    """Objects reachable through the fields of the new objects in start."""
    out = set(start)
    grow = True
    while grow:
        grow = False
        for l, v in q.mem.items():
            if isinstance(v, tuple) and v and v[0] == 'addr' and v[1][0] == 'obj' and v[1] not in out and base_of(l) in out:
                out.add(v[1])
                grow = True
    return out


def stored(ctx, p, f, q, e, done):
    """Addresses kept in a registry must not point into slots of a relocating container or into locals."""
    if e.x.get('mode') != 'w' or guarded_of(p, e.obj) is None:
        return
    v = e.x.get('val')
    if v is None or v[0] != 'addr':
        return
    l = v[1]
    if base_of(l)[0] == 'var' and l[0] == 'var' and not f_param(f, l):
        pass
    if stable_slot(p, l) is False:
        ctx.bad('address stored in %s' % show(e.obj).split('.')[-1], e.where(), 'stores the address of %s, which moves when entries are added' % show(l))
    elif l[0] in ('elem', 'mapval') or base_of(l)[0] in ('elem', 'mapval'):
        done.add(('address stored in %s' % show(e.obj).split('.')[-1], e.where(), show(l)))


def f_param(f, l):
    return any(x['n'] == l[1] for x in f.params)


def name_fields(ctx, p):
    """Fields whose address or view the public name accessors hand out."""
    out = set()
    for cls, n in NAMES:
        for f in p.fn(cls + '::' + n):
            if f.body is None:
                continue
            for q in ctx.explore(f, **opts(p)) or ():
                if q.ctl != 'return' or q.val is None:
                    continue
                l = q.val[1] if q.val[0] in ('addr', 'init') else q.val[2] if q.val[0] == 'sv' else None
                if l and l[0] == 'fld':
                    out.add(l[2])
    return out


def replaced(ctx, p, f, q, e, namefields, done):
    if e.kind not in ('write', 'copyassign', 'move', 'uptr_dtor', 'uptr_release', 'swap'):
        return
    locs = [a[1] for a in e.args if a and a[0] == 'addr'] if e.kind == 'swap' else [e.obj]
    for loc in locs:
        if not isinstance(loc, tuple) or not loc:
            continue
        b = base_of(loc)
        if in_dtor(f, e) or f.d.get('ctor'):
            continue
        # the owning pointer in a slot of a registry
        if loc[0] == 'elem' and guarded_of(p, loc[1]) is not None and b[0] not in ('var', 'tmp', 'obj') and e.kind != 'move':
            if not fresh_elem(q, e, loc):
                ctx.bad('entry of %s replaced' % show(loc[1]).split('.')[-1], e.where(), 'the entry at %s is replaced or released (entry %s)' % (show(loc), f.n))
            continue
        if loc[0] == 'fld' and loc[2] == 'd_ptr' and b[0] == 'deref' and not e.fn.d.get('ctor') and e.fn.cls and e.fn.cls.startswith('rtti::Meta'):
            ctx.bad('private part replaced', e.where(), '%s of an existing item is replaced (entry %s)' % (show(loc), f.n))
            continue
        if loc[0] == 'fld' and loc[2] in namefields and b[0] == 'deref' and not in_ctor(f, e):
            if (p.records.get(e.fn.cls or '') or elem_owner(p, loc) is not None) and string_field(p, loc[2]):
                V = ('init', loc)
                empty = any(v and contains(k, loc) and k[0] in ('empty', 'op', 'not') for k, v in q.facts.items())
                if empty:
                    ctx.undecided('name written', e.where(), 'name %s is filled in later' % show(loc))
                else:
                    ctx.bad('name of an entry changes', e.where(), '%s, which was handed out by reference, is written (entry %s)' % (show(loc), f.n))


def string_field(p, n):
    for r in p.records.values():
        if (r.get('loc') or '').startswith(REPO + '/src'):
            for fl in r['fields']:
                if fl['n'] == n and 'basic_string' in fl['t']:
                    return True
    return False


def fresh_elem(q, e, loc):
    for x in q.events:
        if x is e:
            return False
        if x.kind == 'cont' and x.x.get('elem') == loc:
            return True
    return False


def handed(ctx, p, f, q, e, done):
    """Addresses given to user callbacks."""
    if e.kind not in ('icall', 'call') or e.kind == 'call' and 'operator()' not in e.n:
        return
    for a in e.args:
        l = a[1] if isinstance(a, tuple) and a and a[0] == 'addr' else a[2] if isinstance(a, tuple) and a and a[0] == 'sv' else None
        if isinstance(l, tuple) and slot_of_registry(p, l):
            ctx.bad('%s hands out a slot' % f.n, e.where(), 'the callback receives %s, which moves when entries are added' % show(l))
        elif isinstance(l, tuple):
            done.add(('callback of %s' % f.n, e.where(), ''))


def slot_of_registry(p, l):
    if stable_slot(p, l) is not False:
        return False
    cur = l
    while cur[0] in ('fld', 'idx'):
        cur = cur[1]
    gi = guarded_of(p, cur[1])
    if gi is None or base_of(cur)[0] in ('var', 'tmp', 'obj'):
        return False
    return True


def returned(ctx, p, f, q, done):
    if q.ctl != 'return' or q.val is None or f.d.get('acc') != 'public' and f.cls:
        return
    rt = f.rt
    view = 'basic_string_view' in rt
    if not (rt.endswith(('&', '*')) or view):
        return
    v = q.val
    loc = None
    if v[0] == 'addr':
        loc = v[1]
    elif v[0] == 'sv':
        loc = v[2]
    if loc is None:
        return
    b = base_of(loc)
    key = 'address returned by %s' % f.n
    if b[0] in ('var', 'tmp') and not f_ref_param(f, b):
        ctx.bad(key, f.where(), 'returns the address of the local %s: %s' % (show(loc), path_desc(q)))
    elif b[0] == 'glob' and [e for e in q.events if e.kind in ('write', 'copyassign') and e.obj is not None and base_of(e.obj) == b and not e.fn.d.get('ctor') and (b[1].startswith('sl:') or e.fn.id == f.id)]:
        ctx.bad(key, f.where(), 'returns the address of %s, which the next call overwrites' % show(loc))
    elif slot_of_registry(p, loc):
        ctx.bad(key, f.where(), 'returns the address of %s, which moves when entries are added' % show(loc))
    else:
        done.add((key, f.where(), ''))


def f_ref_param(f, b):
    return b[0] == 'var' and any(x['n'] == b[1] and x['t'].endswith('&') for x in f.params)


def local_storage(v):
    """Locations of local strings a view refers to."""
    out = []
    for s in subterms(v):
        if s and s[0] == 'sv' and len(s) == 3 and isinstance(s[2], tuple) and s[2] and base_of(s[2])[0] in ('var', 'tmp'):
            out.append(s[2])
    return out


def type_names(ctx, p, views):
    """The names passed to type registration outlive the registry: every call passes a view of static storage."""
    n = 0
    for fid, raw, what, where in sorted(views, key=str):
        f = p.funcs[fid]
        i = next((k for k, x in enumerate(f.params) if raw == ('init', ('var', x['n'] or 'arg%d' % k, 0))), None)
        if i is None:
            ctx.undecided(what, where, 'origin of the view not found')
            continue
        if f.d.get('acc') == 'public' and f.cls and not any('Key' in x['t'] for x in f.params):
            ctx.bad(what, where, 'the key is the view given by the caller of the public %s' % f.n)
            continue
        ctx.ok(what, where, 'view given by the callers of %s' % f.n)
        same = [g for g in p.funcs.values() if g.bn == f.bn]
        seen = set()
        todo = [(g.id, i) for g in same]
        while todo:
            gid, k = todo.pop()
            if gid in seen:
                continue
            seen.add(gid)
            for c in sorted(callers(p).get(gid, ())):
                cf = p.funcs[c]
                if cf.bn == f.bn or cf.body is None or not in_repo(cf.loc):
                    continue
                ps = ctx.explore(cf, **opts(p, f.bn))
                for q in ps or ():
                    for e in q.events:
                        if e.kind == 'call' and e.n == f.bn and len(e.args) > k:
                            n += 1
                            v = e.args[k]
                            bad = local_storage(v)
                            if bad:
                                ctx.bad('name of a type', e.where(), '%s passes a view of the local %s' % (cf.n, show(bad[0])))
                            elif any(s and s[0] == 'init' and base_of(s[1])[0] == 'var' and 'string' in str(q.types.get(s[1], '')) for s in subterms(v)):
                                ctx.undecided('name of a type', e.where(), 'passes %s' % show(v))
                            else:
                                ctx.ok('name of a type', e.where(), 'static storage')
    ctx.counts['type name call sites'] = n
    for f in p.fn('rtti::type_name'):
        if f.body is None:
            continue
        for q in ctx.explore(f, **opts(p)) or ():
            if q.ctl == 'return' and q.val is not None:
                bad = local_storage(q.val)
                if bad or 'basic_string<' in f.rt and 'view' not in f.rt:
                    ctx.bad('type_name', f.where(), 'returns a view of the local %s' % show(bad[0]) if bad else 'returns a temporary string, views of it dangle')
                else:
                    ctx.ok('type_name', f.where())
