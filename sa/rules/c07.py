"""Every const member function of a metadata item (the public queries and the virtual lookups behind them) is summarised; on each path
the deferred-definition check must run on an object before that object's lists are touched.  The check itself: the stored callback is
taken out before it runs, it runs at most once, while the recursive definition lock is held and the pending mark is still set
(published with release/acquire), so other threads wait and inner queries pass.  Attaching while pending throws before changing
anything, attaching marks the container pending.  The callback holder invokes the client's function exactly once on the container."""
from ..registry import *

HOLDER = 'rtti::IDefinitionCallbackHolder'
ACQ = {None, ('c', 2), ('c', 4), ('c', 5), ('c', 1)}
REL = {None, ('c', 3), ('c', 4), ('c', 5)}


def item_classes(p):
    return {n for n in p.records if p.derives(n, 'rtti::MetaContainer') or n == 'rtti::MetaItem'}


def owner_of(loc):
    """The metadata item whose private part a location lies in."""
    best = None
    for t in subterms(loc):
        if t and t[0] == 'fld' and t[2] == 'd_ptr':
            best = t[1]     # innermost mention is visited last
            return best
    return None


def is_check(e):
    return e.kind == 'call' and e.n in DEFER


def run(ctx):
    p = ctx.load('define.cpp')
    fields = holder_fields(ctx, p)
    queries(ctx, p, fields)
    check(ctx, p, fields)
    attach(ctx, p, fields)
    invoked(ctx, p)
    force(ctx, p)


def holder_fields(ctx, p):
    """(record, callback field, atomic flags, locks) of the deferred definition."""
    for n, r in p.records.items():
        if not (r.get('loc') or '').startswith(REPO + '/src/'):
            continue
        h = [f['n'] for f in r['fields'] if HOLDER in f['t'] and 'unique_ptr' in f['t']]
        if h:
            at = [f['n'] for f in r['fields'] if f['t'].startswith('std::atomic')]
            mx = {f['n']: f['t'] for f in r['fields'] if 'mutex' in f['t']}
            return n, h[0], at, mx
    raise Broken('anchor vanished: the owner of deferred definitions')


def queries(ctx, p, fields):
    seen = 0
    own = {fields[1], *fields[2], *fields[3]}
    for f in sorted(p.funcs.values(), key=lambda f: f.loc):
        if f.body is None or f.lam or f.cls not in item_classes(p) or f.d.get('ctor') or f.d.get('dtor') or f.d.get('st'):
            continue
        if not f.d.get('cm') or f.bn in DEFER or not in_repo(f.loc):
            continue
        key = f.n
        ps = ctx.explore(f, **opts(p, f.bn))
        touched = 0
        for q in ps or ():
            checked = set()
            for e in q.events:
                if is_check(e):
                    if (e.node or {}).get('qual') and e.n == 'rtti::MetaItem::checkDeferredDefine':
                        continue         # not dispatched: does nothing
                    checked.add(e.obj)
                elif e.kind == 'call' and e.obj is not None and e.n == f.bn and e.obj not in (None, THIS):
                    checked.add(e.obj)   # the same query on another item: verified on its own
                elif e.kind in ('cont', 'lock') or e.kind == 'atomic' and False:
                    loc = e.obj if e.kind == 'cont' else (e.args[0] if e.args else e.obj)
                    if loc is None:
                        continue
                    if loc[0] == 'addr':
                        loc = loc[1]
                    if loc[0] == 'fld' and loc[2] in own:
                        continue
                    g = guarded_of(p, loc) if e.kind == 'cont' else None
                    if e.kind == 'cont' and g is None:
                        continue
                    o = owner_of(loc)
                    if o is None or e.kind == 'lock':
                        continue
                    touched += 1
                    if o in checked:
                        ctx.ok(key, e.where())
                    else:
                        ctx.bad(key, e.where(), 'reads %s before the deferred definition of %s ran' % (show(loc)[-60:], 'the item' if o == THIS else 'another item'))
        if touched:
            seen += 1
            ctx.sample('%s: %d accesses' % (f.n, touched))
    ctx.counts['queries'] = seen
    if seen < 15 and not ctx.undec:
        raise Broken('only %d content queries recognised' % seen)


def mine(e, name):
    o = e.obj
    return o is not None and o[0] == 'fld' and o[2] == name


def check(ctx, p, fields):
    rec, cb, flags, locks = fields
    key = 'deferred definition'
    fs = [f for f in p.fn(DEFER[0]) if f.body is not None]
    if not fs:
        raise Broken('anchor vanished: ' + DEFER[0])
    if not any(o == '_ZNK4rtti8MetaItem19checkDeferredDefineEv' or 'MetaItem' in o for o in fs[0].d.get('ov', ())):
        ctx.bad(key + ' is reached', fs[0].where(), 'the check of containers does not override the one of items')
    # the callback is invoked from nowhere else
    f = fs[0]
    for g in p.funcs.values():
        if g.body is not None and g.loc.startswith(REPO + '/src/') and INVOKE_DEF in {x for x in called_names(g.body)} and g.id not in {x.id for x in fs} \
                and not reaches_only(p, g, fs):
            ctx.bad(key + ' runs from the check only', g.where(), g.n + ' runs a definition')
    ran = 0
    for f in fs:
        def probe(it, node, obj, args):
            v = next((x for k, x in it.mem.items() if k[0] == 'fld' and k[2] == cb), ('init', ('fld', THIS, cb)))
            it.event('probe', cb, (v,))
            return NotImplemented
        ps = ctx.explore(f, exc=True, hooks={INVOKE_DEF: probe}, **opts(p, INVOKE_DEF))
        for q in ps or ():
            inv = [e for e in q.events if e.kind == 'call' and e.n == INVOKE_DEF]
            lk = [e for e in q.events if e.kind == 'lock' and lock_field(e) in locks]
            if not inv:
                if q.ctl != 'return':
                    continue
                loads = [e for e in q.events if e.kind == 'atomic' and e.n == 'load' and e.obj[0] == 'fld' and e.obj[2] in flags]
                if not lk:
                    # nothing was waited for: the definition must be known to be finished
                    done = [e for e in loads if q.it.holds(e.res, q.facts) is False]
                    ctx.req(bool(done), key + ' is waited for', f.where(), 'returns without waiting and without knowing that no definition is pending')
                    for e in done:
                        ctx.req(e.x.get('order') in ACQ, key + ' is published', e.where(), 'the pending mark is read without acquire order')
                else:
                    # waited: nothing left to run
                    h = callback_state(q, cb)
                    ctx.req(h is not True, key + ' is run', f.where(), 'returns although a definition is stored')
                continue
            ran += 1
            e = inv[0]
            ctx.req(len(inv) == 1, key + ' runs once', e.where(), 'the callback is invoked %d times' % len(inv))
            held_ = [m for m, k, h in e.locks if m[0] == 'fld' and m[2] in locks and k == 'x']
            ctx.req(bool(held_), key + ' is waited for', e.where(), 'the definition runs without its lock')
            for m in held_:
                ctx.req('recursive' in locks[m[2]], key + ' lets inner queries pass', e.where(), 'the lock held while the definition runs is not recursive')
            i = q.events.index(e)
            left = [x.args[0] for x in q.events[:i] if x.kind == 'probe'][-1:]
            if left and left[0] != NULL and left[0][0] not in ('init', 'sync'):
                ctx.undecided(key + ' runs once', e.where(), 'stored callback while it runs: ' + show(left[0]))
            else:
                ctx.req(left == [NULL], key + ' runs once', e.where(), 'the callback is still stored while it runs')
            early = [x for x in q.events[:i] if x.kind == 'atomic' and x.n in ('store', 'exchange') and x.obj[0] == 'fld' and x.obj[2] in flags]
            ctx.req(not early, key + ' is waited for', (early or [e])[0].where(), 'the pending mark is cleared before the definition ran')
            for x in q.events[i:]:
                if x.kind == 'atomic' and x.n == 'store' and x.obj[0] == 'fld' and x.obj[2] in flags:
                    ctx.req(x.x.get('order') in REL, key + ' is published', x.where(), 'the pending mark is cleared without release order')
                    ctx.req(q.it.holds(x.args[0], q.facts) is not True, key + ' is finished', x.where(), 'the pending mark is set after the definition ran')
            a = e.args[0] if e.args else None
            ctx.req(a == ('addr', THIS), key + ' gets its container', e.where(), 'the definition is run on ' + show(a or NULL))
            if q.ctl == 'terminate':
                ctx.bad(key + ' failing', f.where(), 'a failing definition terminates the program')
            elif e.x.get('threw'):
                ctx.req(q.ctl == 'throw', key + ' failing', f.where(), 'the failure of a definition is swallowed')
    if not ran and not ctx.undec:
        ctx.bad(key + ' is run', fs[0].where(), 'no path runs the stored definition')


def lock_field(e):
    m = e.args[0] if e.args else e.obj
    if m is None:
        return None
    if m[0] == 'addr':
        m = m[1]
    return m[2] if m[0] == 'fld' else None


def callback_state(q, cb):
    for t, v in q.facts.items():
        if t[0] == 'op' and t[1] == '!=0' and any(x and x[0] == 'fld' and x[2] == cb for x in subterms(t)):
            return v
    return None


def called_names(x):
    if isinstance(x, dict):
        if x.get('k') in ('call', 'icall') and x.get('bn'):
            yield x['bn']
        for y in x.values():
            if isinstance(y, (dict, list)):
                yield from called_names(y)
    elif isinstance(x, list):
        for y in x:
            yield from called_names(y)


def reaches_only(p, g, fs):
    """Is g a helper called by the check only?"""
    c = callers(p)
    up, todo = set(), [g.id]
    ok = {f.id for f in fs}
    while todo:
        for y in c.get(todo.pop(), ()):
            if y in ok or y in up:
                continue
            up.add(y)
            todo.append(y)
    def lamfree(y):
        f = p.funcs.get(y)
        return f is not None and not f.lam
    return bool(c.get(g.id)) and not [y for y in up if lamfree(y)]


def attach(ctx, p, fields):
    rec, cb, flags, locks = fields
    key = 'attaching a deferred definition'
    fs = [f for f in ctx.fns('rtti::MetaContainer::setDeferredDefine') if len(f.params) == 1]
    stored = refused = 0
    for f in fs or ctx.fns('rtti::MetaContainer::setDeferredDefine'):
        arg = param(f)
        ps = ctx.explore(f, assume={('op', '!=0', arg, ('c', 0)): True}, **opts(p))
        for q in ps or ():
            pend = [e for e in q.events if e.kind == 'atomic' and e.n in ('load', 'exchange') and e.obj[0] == 'fld' and e.obj[2] in flags]
            state = [q.it.holds(e.res, q.facts) for e in pend]
            hold = callback_state(q, cb)
            if q.ctl == 'throw':
                refused += 1
                n = q.val[0] if q.val else None
                ctx.req(n is None or p.derives(n, 'rtti::definition_error'), key, f.where(), 'refused by ' + str(n))
                ctx.req(True in state or hold is True, key, f.where(), 'refused although none is pending')
                w = [e for e in q.events if e.kind.startswith('uptr') and e.kind not in ('uptr_read', 'uptr_use', 'uptr_dtor') and mine(e, cb)]
                ctx.req(not w, key, (w or [f])[0].where(), 'the pending definition is replaced before the refusal')
                continue
            if q.ctl != 'return':
                ctx.bad(key, f.where(), 'ends in ' + q.ctl)
                continue
            v = next((x for k, x in q.mem.items() if k[0] == 'fld' and k[2] == cb), None)
            if v is None:
                ctx.bad(key, f.where(), 'the definition is not stored')
                continue
            stored += 1
            ctx.req(contains(v, arg) or v == arg, key, f.where(), 'stores ' + show(v))
            ctx.req(False in state or hold is False, key, f.where(), 'a pending definition is replaced')
            ws = [e for e in q.events if e.obj and mine(e, cb) and e.kind not in ('uptr_read', 'uptr_use', 'move')]
            lk = [e for e in q.events if e.kind == 'lock' and lock_field(e) in locks]
            ctx.req(bool(lk), key, f.where(), 'the definition is stored without its lock')
            if flags:
                st = [e for e in q.events if e.kind == 'atomic' and e.n in ('store', 'exchange') and e.obj[0] == 'fld' and e.obj[2] in flags]
                last = st[-1] if st else None
                if last is None:
                    ctx.bad(key, f.where(), 'the container is not marked as pending')
                else:
                    r = q.it.holds(last.args[0], q.facts)
                    if r is None:
                        ctx.undecided(key, last.where(), 'pending mark ' + show(last.args[0]))
                    else:
                        ctx.req(r, key, last.where(), 'the container is not marked as pending')
    if not (stored and refused) and not ctx.undec:
        ctx.bad(key, (fs or [None])[0].where(), 'there is no %s path' % ('refusing' if stored else 'storing'))


def invoked(ctx, p):
    fs = [f for f in p.funcs.values() if f.body is not None and f.bn.endswith('DefinitionCallbackHolder::invoke') and f.bn != INVOKE_DEF]
    n = 0
    for f in fs:
        key = 'the client\'s definition'
        for q in ctx.explore(f, stop=DEFER_SET | vstop(p), nonnull_elems=True) or ():
            if q.ctl != 'return':
                continue
            runs = [e for e in q.events if e.kind in ('call', 'icall', 'enter') and (e.n.startswith('w::') or e.kind == 'icall' or '(lambda' in e.n or 'std::function' in e.n and 'operator()' in e.n)]
            runs = [e for e in runs if e.obj is not None and '{ctor}' not in e.n and '{dtor}' not in e.n]
            n += 1
            ctx.req(len(runs) == 1, key, f.where(), 'the definition function is run %d times' % len(runs))
            if runs:
                ok = any(a and contains(a, 'container') or a and param(f) == a or a and contains(a, param(f)) for a in arg_values(q, runs[0]) if isinstance(a, tuple))
                if not ok:
                    ctx.undecided(key, runs[0].where(), 'argument ' + ', '.join(show(a) for a in runs[0].args))
    ctx.counts['holders'] = n
    if not n:
        ctx.undecided('the client\'s definition', '', 'callback holder not recognised')


def arg_values(q, e):
    out = []
    for a in e.args:
        out.append(a)
        if a and a[0] == 'addr':
            l = a[1]
            out += [v for k, v in q.mem.items() if contains(k, l)]
    return out


def force(ctx, p):
    """Forcing runs the pending definition of the container itself; forcing recursively does the same for every class and namespace in it,
    recursively again."""
    f = ctx.fns('rtti::MetaContainer::forceDeferredDefine')[0]
    w = ctx.fns('w::force')[0]
    modes = []
    for q in ctx.explore(w, **opts(p, f.bn)) or ():
        modes = [e.args[0] for e in q.events if e.kind == 'call' and e.n == f.bn and e.args]
    if len(modes) != 2 or any(m[0] != 'c' for m in modes):
        ctx.undecided('force', f.where(), 'modes not recognised')
        return
    lists = []
    for n in ('classCount', 'namespaceCount'):
        X = list_of(ctx, ctx.fns('rtti::MetaContainer::' + n)[0])
        if X is None:
            ctx.undecided('force', f.where(), 'list of %s not recognised' % n)
            return
        lists.append((n.replace('Count', ''), X))
    for kind, m in zip(('self', 'recursively'), modes):
        ps = ctx.explore(f, args=[m], **opts(p, f.bn))
        seen = set()
        for q in ps or ():
            if q.ctl in ('throw', 'terminate'):
                ctx.bad('force ' + kind, f.where(), 'forcing ends in %s: %s' % (q.ctl, path_desc(q)))
                continue
            if not any(is_check(e) and e.obj == THIS for e in q.events):
                ctx.bad('force ' + kind, f.where(), 'the own definition of the container is not run: %s' % path_desc(q))
                continue
            ctx.ok('force ' + kind, f.where())
            if kind == 'self':
                continue
            calls = [e for e in q.events if e.kind == 'call' and e.n == f.bn]
            for e in calls:
                ctx.req(e.args and e.args[0] == m, 'force nested', e.where(), 'an item is not forced recursively, definitions further below stay pending')
            for n, X in lists:
                key = 'force every ' + n
                els = [e for e in q.events if e.kind in ('cont', 'iterderef') and e.obj == X and e.n in ('operator[]', 'at', 'front', 'back', 'iterderef')]
                forced = [e for e in calls if contains(e.obj, X) and contains(e.obj, ('elem',)) or any(s[:2] == ('elem', X) for s in subterms(e.obj or ()) if isinstance(s, tuple))]
                for e in els:
                    if e.n in ('operator[]', 'at') and is_counter(e.x.get('index')) and not counter_ok(ps, e.x['index']):
                        ctx.bad(key, e.where(), 'the position %s does not step through the list one by one' % show(e.x['index']))
                if forced:
                    seen.add(n)
                elif els:
                    ctx.bad(key, els[0].where(), 'an item is looked at without its definitions being run: %s' % path_desc(q))
                    continue
                if q.ctl == 'return':
                    asked = [e for e in q.events if e.kind in ('cont', 'iterate') and e.obj == X]
                    if not asked and not forced:
                        ctx.bad(key, f.where(), 'returns without looking at every %s: %s' % (n, path_desc(q)))
                    elif not ends(q, X):
                        ctx.bad(key, f.where(), 'returns although entries may remain: %s' % path_desc(q))
                    else:
                        ctx.ok(key, f.where())
        if kind != 'self' and ps:
            for n, X in lists:
                if n not in seen:
                    ctx.undecided('force every ' + n, f.where(), 'not recognised how items are reached')


def ends(q, X):
    """The path knows that no entry of X remains."""
    for k, b in q.facts.items():
        if not any(isinstance(s, tuple) and len(s) > 1 and s[0] in ('size', 'end', 'more') and any(y[-1] == X for y in s[1:] if isinstance(y, tuple)) for s in subterms(k)):
            continue
        if k[0] == 'more' and not b or k[0] == 'op' and k[1] == '==' and b or k[0] == 'op' and k[1] == '<' and not b or k[0] == 'op' and k[1] == '!=0' and not b:
            return True
    return False
