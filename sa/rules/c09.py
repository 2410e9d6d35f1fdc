"""MetaClass::cast is verified as a recursive definition on every path: null target gives null, the own class gives the instance
unchanged, otherwise the result is the cast from the first recorded base that inherits the target, applied to the result of exactly
that edge's cast function on exactly the given instance; null when no base inherits the target.  Every cast function that the
builder records converts through the real derived type to the base it is recorded for (the conversion chain of each instantiation is
read off the typed syntax tree, for second, virtual and repeated bases).  meta_cast asks the dynamic class of the object, for the
target's own type, with the object's own address, and yields null / bad_meta_cast otherwise."""
from ..inherit import *


def tid_hook(it, node, obj, args):
    f = it.p.funcs.get(node.get('f'))
    if f is None or not f.ta:
        return NotImplemented
    return ('call', TID + '<' + f.ta[0] + '>', (), 'mpl::ID')


HOOKS = {TID: tid_hook}


def run(ctx):
    p = ctx.load('inherit.cpp')
    B = base_list(ctx)
    if B is None:
        ctx.undecided('instance cast', '', 'list of base classes not recognised')
        return
    cast(ctx, p, B)
    edges(ctx, p)
    info(ctx, p)
    metacast(ctx, p)


def cast(ctx, p, B):
    key = 'instance cast'
    hits = 0
    for f in ctx.fns(CAST):
        if len(f.params) < 2:
            continue
        base, inst, me = param(f), param(f, 1), ('addr', THIS)
        ps = ctx.explore(f, **opts(p, INH, CAST, *FIND))
        for q in ps or ():
            if q.ctl == 'return' and q.val and q.val[0] == 'call' and q.val[1] == CAST and q.val[2][:3] == (me, base, inst):
                ctx.ok(key + ' of mutable instances', f.where())
                continue
            if q.ctl not in ('return', 'loopback'):
                ctx.bad(key + ' answers', f.where(), 'ends in ' + q.ctl + ': ' + path_desc(q))
                continue
            nul = q.it.holds(('op', '!=0', base, ('c', 0)), q.facts)
            inul = q.it.holds(('op', '!=0', inst, ('c', 0)), q.facts)
            eq = same(q, me, base)
            if q.ctl == 'return' and (nul is False or inul is False):
                ctx.req(q.val == NULL or inul is False and q.val == inst, key + ' of null', f.where(), 'yields %s for a null %s' % (show(q.val), 'class' if nul is False else 'instance'))
                continue
            if q.ctl == 'return' and eq is True:
                ctx.req(q.val == inst, key + ' to the own class', f.where(), 'changes the instance to ' + show(q.val))
                continue
            r = walk(ctx, key, f, ps, q, B, {INH, CAST}, lambda q, e: e.n == INH and truth(q, e.res) or (e.n == CAST and truth(q, e.res)),
                     lambda q: q.val == NULL or truth(q, q.val) is False) if not mixed(q, B) else walk_inh(ctx, key, f, ps, q, B)
            if r in (None, 'loop'):
                continue
            if r == 'miss':
                ctx.req(eq is False, key + ' to the own class', f.where(), 'yields null without comparing with the class itself')
                continue
            if r == 'none':
                ctx.bad(key + ' goes through a base', f.where(), 'yields %s although no base inherits the target: %s' % (show(q.val), path_desc(q)))
                continue
            en, e = r
            hits += 1
            v = q.val
            if not (v and v[0] == 'call' and v[1] == CAST):
                ctx.bad(key + ' goes through a base', f.where(), 'yields %s although a base inherits the target: %s' % (show(v), path_desc(q)))
                continue
            o, tgt, val = v[2][:3]
            ctx.req(base_elem(o) == en, key + ' goes through the matching base', f.where(), 'the cast continues in another class than the one that was asked: ' + show(o))
            ctx.req(tgt == base, key + ' has one target', f.where(), 'the cast continues towards ' + show(tgt))
            edge = edge_of(val)
            if edge is None:
                ctx.bad(key + ' applies each edge once', f.where(), 'the instance handed to the base is %s' % show(val))
                continue
            fnv, arg = edge
            ctx.req(base_elem(fnv) == en and has_field(fnv, 'second'), key + ' applies the edge of that base', f.where(), 'applies ' + show(fnv))
            ctx.req(arg == inst, key + ' applies each edge once', f.where(), 'the edge is applied to %s instead of the instance' % show(arg))
            ctx.sample('cast: ' + path_desc(q))
    if not hits and not ctx.undec:
        ctx.bad(key + ' goes through a base', ctx.fns(CAST)[0].where(), 'no path casts through a base')


def has_field(t, name):
    return any(isinstance(x, tuple) and x and x[0] in ('fld', 'fv') and x[2] == name for x in subterms(t))


def mixed(q, B):
    return any(e.n == INH for _, e in tested(q, B, {INH}))


def walk_inh(ctx, key, f, ps, q, B):
    return walk(ctx, key, f, ps, q, B, {INH}, lambda q, e: truth(q, e.res), lambda q: q.val == NULL or truth(q, q.val) is False)


def edge_of(v):
    """(cast function, instance) of the application of an edge."""
    if isinstance(v, tuple) and v and v[0] == 'call' and v[1] == 'icall' and len(v[2]) == 2:
        return v[2]
    return None


def edges(ctx, p):
    key = 'cast function of an edge'
    n = 0
    for f in p.fn('w::expect_bases'):
        T, Bs = f.ta[0], f.ta[1:]
        if f.body is None:
            continue
        for q in ctx.explore(f, hooks=HOOKS, **opts(p, 'rtti::MetaClass::addBaseClass')) or ():
            if q.ctl != 'return':
                continue
            adds = [e for e in q.events if e.kind == 'call' and e.n == 'rtti::MetaClass::addBaseClass']
            got = []
            for e in adds:
                a, fn = e.args[0], e.args[1]
                B = a[1][len(TID) + 1:-1] if a[0] == 'call' and a[1].startswith(TID + '<') else None
                got.append(B)
                if B is None or fn[0] != 'fn' and fn[0] != 'lam':
                    ctx.undecided(key, e.where(), 'arguments %s, %s' % (show(a), show(fn)))
                    continue
                n += 1
                edge(ctx, p, '%s from %s to %s' % (key, T, B), fn[1], T, B)
            ctx.req(got == list(Bs), 'bases of ' + T, f.where(), 'declares the bases %s instead of %s' % (got, list(Bs)))
    ctx.counts['edges'] = n
    if not n:
        raise Broken('no recorded cast function recognised')


def edge(ctx, p, key, fid, T, B):
    g = p.funcs.get(fid)
    if g is None or g.body is None:
        ctx.undecided(key, '', 'no body')
        return
    for q in ctx.explore(g, casts=True) or ():
        v = param(g)
        if q.ctl != 'return':
            ctx.bad(key, g.where(), 'ends in ' + q.ctl)
            continue
        if q.it.holds(('op', '!=0', v, ('c', 0)), q.facts) is False:
            ctx.req(q.val in (NULL, v) or conv(q.val)[0] == v, key, g.where(), 'a null instance yields ' + show(q.val))
            continue
        src, steps = conv(q.val)
        if src not in (v, ('addr', ('deref', v))):
            ctx.bad(key, g.where(), 'yields ' + show(q.val))
            continue
        cur, bad = T, None
        for k, frm, to in steps:
            if 'DerivedToBase' not in k:
                bad = '%s from %s to %s' % (k, frm, to)
            elif frm != cur:
                bad = 'takes the instance for a ' + frm
            cur = to
        ctx.req(bad is None, key, g.where(), bad or '')
        ctx.req(cur == B, key, g.where(), 'the address stays that of %s' % cur)


def conv(v):
    """(source, address adjusting conversions in order) of a pointer value."""
    steps = []
    while isinstance(v, tuple) and v and v[0] == 'cast':
        steps.insert(0, (v[1], pointee(v[2]), pointee(v[3])))
        v = v[4]
    return v, steps


def pointee(t):
    t = t[1] if isinstance(t, tuple) and t and t[0] == 's' else str(t)
    t = t.strip('"').replace('const ', '').replace('volatile ', '').strip()
    return t.rstrip('*& ').strip()


def info(ctx, p):
    key = 'class information'
    for n, r in p.records.items():
        if not n.startswith('w::') or '::' in n[3:]:
            continue
        for m in r['methods']:
            f = p.funcs.get(m['f'])
            if f is None or not f.bn.endswith('::classInfo') or f.body is None:
                continue
            for q in ctx.explore(f, hooks=HOOKS, **opts(p)) or ():
                v = q.val
                d = dict(v[2]) if v and v[0] == 'rec' else {}
                fs = {k[-1] if isinstance(k, tuple) else k: x for k, x in d.items()}
                if 'typeId' not in fs:
                    loc = v[1] if v and v[0] in ('init', 'addr') else None
                    ctx.undecided(key + ' of ' + n, f.where(), 'value ' + show(v))
                    continue
                ctx.req(fs['typeId'] == ('call', TID + '<' + n + '>', (), 'mpl::ID'), key + ' of ' + n, f.where(), 'reports ' + show(fs['typeId']))
                ctx.req(fs.get('instance') == ('addr', THIS), key + ' of ' + n, f.where(), 'reports the address ' + show(fs.get('instance')))


def metacast(ctx, p):
    key = 'meta_cast'
    hits = misses = 0
    stops = {f.bn for f in p.funcs.values() if f.bn.endswith('::classInfo')}
    for f in ctx.fns('rtti::meta_cast'):
        if f.body is None or len(f.ta) < 2 or not f.ta[1].startswith('w::'):
            continue
        To, From = f.ta[0], f.ta[1]
        k = '%s<%s, %s>' % (key, To, From)
        ref = f.params[0]['t'].rstrip().endswith('&')
        src = ('addr', ('deref', param(f))) if ref else param(f)
        has = any(m['n'].endswith('classInfo') for m in p.records[From]['methods']) if From in p.records else False
        for q in ctx.explore(f, hooks=HOOKS, **opts(p, CAST, *FIND, *stops)) or ():
            if used_unchecked(ctx, k, q):
                continue
            if q.ctl == 'throw':
                name = q.val[0] if q.val else None
                ctx.req(ref, k + ' of pointers', f.where(), 'throws ' + str(name))
                ctx.req(name is None or p.derives(name, 'rtti::bad_meta_cast'), k + ' fails with bad_meta_cast', f.where(), 'throws ' + str(name))
                if has:
                    fail(ctx, k, f, q)
                misses += 1
                continue
            if q.ctl != 'return':
                ctx.bad(k, f.where(), 'ends in ' + q.ctl)
                continue
            v = q.val
            if v == NULL:
                ctx.req(not ref, k + ' fails with bad_meta_cast', f.where(), 'returns a null reference')
                misses += 1
                if has:
                    fail(ctx, k, f, q)
                else:
                    ctx.req(To != From, k + ' of the same type', f.where(), 'yields null')
                continue
            if v in (src, ('deref', param(f)), ('addr', ('deref', param(f)))):
                ctx.req(not has and To == From or q.it.holds(('op', '!=0', param(f), ('c', 0)), q.facts) is False, k, f.where(), 'yields the source itself')
                continue
            c = next((x for x in subterms(v) if x and x[0] == 'call' and x[1] == CAST), None)
            if c is None and has and any(isinstance(x, tuple) and x and (x[0] == 'fv' and x[2] == 'instance' or x == param(f)) for x in subterms(v)):
                ctx.bad(k + ' casts the object itself', f.where(), 'yields %s without a cast to the target: %s' % (show(v), path_desc(q)))
                continue
            if c is None:
                ctx.undecided(k, f.where(), 'yields ' + show(v))
                continue
            hits += 1
            ctx.req(v in (c, ('addr', ('deref', c)), ('deref', c)), k, f.where(), 'yields ' + show(v))
            cls, tgt, inst = c[2][:3]
            dyn = lambda x: any(y and y[0] == 'call' and y[1].endswith('::classInfo') and contains(y, param(f)) for y in subterms(x))
            ctx.req(dyn(cls) and not dyn(tgt), k + ' asks the dynamic class', f.where(), 'asks ' + show(cls))
            ctx.req(dyn(inst) and inst[0] == 'fv' and inst[2] == 'instance', k + ' casts the object itself', f.where(), 'casts ' + show(inst))
            ctx.req(any(x == ('call', TID + '<' + To + '>', (), 'mpl::ID') for x in subterms(tgt)), k + ' has the requested target', f.where(), 'casts towards ' + show(tgt))
            ctx.req(q.it.holds(('op', '!=0', c, ('c', 0)), q.facts) is True or not ref, k + ' of references', f.where(), 'a failed cast is dereferenced')
            for e in q.events:
                if e.kind == 'cast' and e.obj == c:
                    to = pointee(e.args[1])
                    ctx.req(to == To or 'NoOp' in e.n, k + ' has the requested target', e.where(), 'the result is taken for a ' + to)
    ctx.counts['meta_cast hits'] = hits
    if not hits or not misses:
        ctx.undecided(key, '', 'meta_cast not recognised')


def fail(ctx, k, f, q):
    """A failing path has a reason: null source, unregistered class or failed cast."""
    why = [x for x, v in q.facts.items() if not v and x[0] == 'op' and x[1] == '!=0']
    ctx.req(bool(why), k + ' fails for a reason', f.where(), 'fails although the cast succeeded: ' + path_desc(q))
