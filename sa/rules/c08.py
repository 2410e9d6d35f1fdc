"""MetaClass::addBaseClass is summarised with its helpers: a throwing path (always a library error, taken only for an invalid or
unregistered base) has changed no list; a returning path has the base, with the given cast function, recorded once on the class and
the class recorded once on that base; both lists are exactly the ones the public queries read.  inheritedFrom is verified as a
recursive definition: false for null, true for itself, otherwise true exactly when it holds for one of the recorded bases, all of
which are tested from the first on."""
from ..inherit import *
from .c06 import subst

OWN = ('fld', THIS, 'd_ptr')


def run(ctx):
    p = ctx.load('inherit.cpp')
    B, D = base_list(ctx), base_list(ctx, 'derived')
    if B is None or D is None:
        ctx.undecided('recorded links', '', 'lists of base and derived classes not recognised')
        return
    ctx.req(B != D, 'base and derived lists', '', 'both counts report the same list')
    add(ctx, p, B, D)
    inherited(ctx, p, B)
    found(ctx, p)


def own(t):
    """Is this the class' own data?"""
    return contains(t, OWN)


def changes(q):
    return [e for e in q.events if e.kind == 'cont' and e.x.get('mode') == 'w' and e.obj is not None and not local(e.obj)]


def local(loc):
    b = base_of(loc)
    return b[0] in ('var', 'tmp')


def add(ctx, p, B, D):
    key = 'declaring a base'
    n = 0
    for f in ctx.fns('rtti::MetaClass::addBaseClass'):
        if len(f.params) < 2:
            continue
        tid, fn = param(f, 0), param(f, 1)
        ps = ctx.explore(f, **opts(p))
        for q in ps or ():
            ch = changes(q)
            if q.ctl == 'throw':
                name = q.val[0] if q.val else None
                late = any(own(k) and not contains(k, ('var', f.params[0]['n'], 0)) and not any(x and x[0] in ('has', 'find', 'size') for x in subterms(k)) for k in q.facts)
                ctx.req(not ch or late, key + ' fails before anything changes', (ch or [f])[0].where(), 'throws %s after a list was changed: %s' % (name, path_desc(q)))
                ctx.req(name is None or p.derives(name, 'rtti::runtime_error'), key + ' fails with a documented error', f.where(), 'throws ' + str(name))
                why = [k for k, v in q.facts.items() if (v is False and (contains(k, tid) or contains(k, ('var', f.params[0]['n'], 0)) or late)) or 'Destroyed' in show(k)]
                ctx.req(bool(why), key + ' fails for invalid bases only', f.where(), 'throws although the base is registered: ' + path_desc(q))
                continue
            if q.ctl != 'return':
                ctx.bad(key + ' is recorded', f.where(), 'ends in ' + q.ctl + ': ' + path_desc(q))
                continue
            n += 1
            mine = [e for e in ch if e.obj == B]
            base = [e for e in ch if e.obj != B and e.obj[0] == 'fld' and same_field(e.obj, D)]
            other = [e for e in ch if e not in mine and e not in base]
            for e in other:
                ctx.bad(key + ' changes the two links only', e.where(), 'changes ' + show(e.obj))
            link(ctx, q, key + ' records the base', f, B, mine, tid, f, fn)
            # the other end
            owners = {subst_owner(e.obj, D) for e in base} or {None}
            has = [k for k, v in q.facts.items() if v and k[0] == 'has' and field_tail(loc_of(k[1])) == field_tail(D) and loc_of(k[1]) != D]
            if base:
                e = base[0]
                ctx.req(len(base) == 1 and e.n in ('push_back', 'emplace_back'), key + ' records the derived class', e.where(), 'the derived class is recorded %d times' % len(base))
                ctx.req(reached_from(e.obj, f.params[0]['n']) and e.obj != D, key + ' records the derived class', e.where(),
                        'recorded in %s, not in the list of the declared base' % show(e.obj))
                ctx.req(any(own(x) and not contains(x, B) for x in subterms(e.x.get('val')) if x) or own(e.x.get('val')), key + ' records the derived class', e.where(),
                        'records %s instead of the class itself' % show(e.x.get('val')))
                ctx.req(any(k[0] == 'has' and not v and loc_of(k[1]) == e.obj for k, v in q.facts.items()), key + ' is recorded once', e.where(),
                        'the derived class is appended without looking for it')
            elif has:
                ctx.req(reached_from(loc_of(has[0][1]), f.params[0]['n']), key + ' records the derived class', f.where(), 'looks in ' + show(has[0][1]))
            else:
                ctx.bad(key + ' records the derived class', f.where(), 'returns without recording the class on its base: ' + path_desc(q))
            ctx.sample('addBaseClass: ' + path_desc(q))
    if not n and not ctx.undec:
        ctx.bad(key + ' is recorded', '', 'no path of addBaseClass returns')


def link(ctx, q, key, f, X, ws, tid, fdecl, fn):
    v0 = ('var', fdecl.params[0]['n'], 0)
    has = [(k, v) for k, v in q.facts.items() if k[0] == 'has' and loc_of(k[1]) == X]
    if ws:
        e = ws[0]
        ctx.req(len(ws) == 1, key, e.where(), 'the base is recorded %d times' % len(ws))
        ctx.req(e.n in ('push_back', 'emplace_back'), key, e.where(), 'the base is not appended (%s)' % e.n)
        v = (e.x.get('val'), tuple(e.args))
        ctx.req(contains(v, tid) or contains(v, v0), key, e.where(), 'records %s instead of the given type' % show(v))
        ctx.req(contains(v, fn), key, e.where(), 'records the base without the given cast function')
        ok = [k for k, b in has if not b and (contains(k[2], tid) or contains(k[2], v0))]
        ctx.req(bool(ok), key + ' once', e.where(), 'the base is appended without looking for it: ' + path_desc(q))
    elif [k for k, b in has if b and (contains(k[2], tid) or contains(k[2], v0))]:
        ctx.ok(key, f.where())
    else:
        ctx.bad(key, f.where(), 'returns without recording the base: ' + path_desc(q))


def loc_of(V):
    """Container location behind a version term."""
    while V and V[0] in ('sync', 'mut', 'init', 'havoc'):
        V = V[2] if V[0] in ('sync', 'mut', 'havoc') else V[1]
        if isinstance(V, tuple) and V and V[0] in ('fld', 'var', 'glob', 'deref', 'idx'):
            return V
    return V


def field_tail(loc):
    out = []
    while isinstance(loc, tuple) and loc and loc[0] == 'fld':
        out.append(loc[2])
        loc = loc[1]
    return tuple(out)


def same_field(a, b):
    return field_tail(a) == field_tail(b)


def subst_owner(loc, D):
    return base_of(loc)


def reached_from(loc, name):
    """Does the location belong to something looked up with the given parameter?"""
    return contains(loc, ('var', name, 0))


def inherited(ctx, p, B):
    key = 'inheritance test'
    hits = 0
    for f in ctx.fns(INH):
        base, me = param(f), ('addr', THIS)
        ps = ctx.explore(f, **opts(p, INH, *FIND))
        for q in ps or ():
            if q.ctl == 'loopback':
                walk(ctx, key, f, ps, q, B, {INH}, truth_of, lambda q: False)
                continue
            if q.ctl != 'return':
                ctx.bad(key + ' answers', f.where(), 'ends in ' + q.ctl + ': ' + path_desc(q))
                continue
            nul = q.it.holds(('op', '!=0', base, ('c', 0)), q.facts)
            eq = same(q, me, base)
            v = q.it.holds(q.val, q.facts) if q.val is not None else None
            ts = tested(q, B, {INH})
            if nul is False:
                ctx.req(v is False, key + ' of null', f.where(), 'a null class is answered with ' + show(q.val))
                continue
            if eq is True:
                ctx.req(v is True, key + ' is reflexive', f.where(), 'a class is answered %s for itself' % show(q.val))
                continue
            if v is None and q.val and q.val[0] == 'op' and q.val[1] == '==' and {q.val[2], q.val[3]} == {me, base}:
                v, eq = False, False
            if v is None and ts and q.val == ts[-1][1].res:
                # the answer of the last base that was asked: it may be false
                last = ts[-1]
                if not exhausted(q):
                    ctx.bad(key + ' follows every base', f.where(), 'gives up with the answer of one base although others may remain: ' + path_desc(q))
                elif all(truth_of(q, e) is False for _, e in ts[:-1]):
                    hits += 1
                    ctx.req(bool(last[1].args) and last[1].args[0] == base and first_of(last[0], last[1].obj), key + ' is transitive', last[1].where(),
                            'asks %s about %s' % (show(last[1].obj), show(last[1].args[0] if last[1].args else None)))
                else:
                    ctx.undecided(key, f.where(), 'returns the answer of a base directly')
                continue
            if v is None:
                ctx.undecided(key, f.where(), 'returns ' + show(q.val))
                continue
            if nul is None and not ts and v is False and same(q, me, base) is None:
                pass
            r = walk(ctx, key, f, ps, q, B, {INH}, truth_of, lambda q: v is False)
            if r is None:
                continue
            if r == 'miss':
                ctx.req(eq is False, key + ' is reflexive', f.where(), 'answers false without comparing with the class itself: ' + path_desc(q))
            elif r == 'none':
                ctx.bad(key + ' is justified', f.where(), 'answers true although neither the class nor a base matched: ' + path_desc(q))
            else:
                hits += 1
                ctx.req(bool(r[1].args) and r[1].args[0] == base, key + ' is transitive', r[1].where(), 'a base is asked about %s' % show(r[1].args[0] if r[1].args else None))
                ctx.req(first_of(r[0], r[1].obj), key + ' is transitive', r[1].where(), 'asks ' + show(r[1].obj))
                ctx.sample('inheritedFrom: ' + path_desc(q))
    if not hits and not ctx.undec:
        ctx.bad(key + ' is transitive', ctx.fns(INH)[0].where(), 'no path answers true because of a base')


def first_of(en, obj):
    """The object was found through the type identifier stored in the entry."""
    return any(x and x[0] == 'call' and x[1] in FIND for x in subterms(obj))


def truth_of(q, e):
    return q.it.holds(e.res, q.facts)


def found(ctx, p):
    """The class found for a type is the one registered for that very type."""
    key = 'class of a type'
    n = 0
    for f in ctx.fns('rtti::MetaClass::find'):
        for q in ctx.explore(f, **opts(p)) or ():
            if q.ctl != 'return':
                ctx.bad(key, f.where(), 'ends in ' + q.ctl)
                continue
            if is_nothing(p, q.val):
                continue
            n += 1
            v = q.val
            ok = v[0] == 'init' and v[1][0] == 'fld' and v[1][2] == 'metaClass'
            if not ok:
                ctx.undecided(key, f.where(), 'returns ' + show(v))
                continue
            ctx.req(not contains_field(v, 'decay'), key, f.where(), 'returns ' + show(v))
            ctx.req(contains(v, ('var', f.params[0]['n'], 0)), key, f.where(), 'returns %s, unrelated to the given type' % show(v))
    if not n:
        ctx.undecided(key, '', 'MetaClass::find not recognised')


def contains_field(t, name):
    return any(isinstance(x, tuple) and x and x[0] == 'fld' and x[2] == name for x in subterms(t))
