"""Every create function of the six item kinds is summarised path by path. At most one candidate is created; a candidate
that goes into a list goes into the list its own category's count reports for that owner, once, under its own name and
only where the name is proved absent, is returned and is not destroyed; any other candidate is destroyed exactly once,
never returned, and left out of every list. Paths without a candidate write no registry state and return the entry looked
up under the given name (nothing only for an unusable invoker or name). Throwing paths change nothing. For classes the
link from the type is set exactly when the class was inserted, and insertion requires a valid type without a class."""
from ..registry import *

KINDS = {'rtti::Meta' + c: 'rtti::MetaContainer::' + c[0].lower() + c[1:] + 'Count' for c in CATS}


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def run(ctx):
    p = ctx.load()
    lists = {}
    for cls, cnt in KINDS.items():
        lists[cls] = list_of(ctx, ctx.fns(cnt)[0])
    n = 0
    for cls in KINDS:
        fs = [f for f in ctx.fns(cls + '::create')]
        if lists[cls] is None:
            ctx.undecided(cls, fs[0].where(), 'list of this category not recognised')
            continue
        for f in fs:
            with ctx.guard('%s::create' % cls, f.where()):
                n += create(ctx, f, cls, lists, bool(f.loc.startswith(REPO + '/src/')))
    if n < 6 and not ctx.undec:
        raise Broken('only %d insertion paths of create functions found' % n)
    category(ctx)


def category(ctx):
    """Categories are distinct per kind."""
    p = ctx.prog
    seen = {}
    for cls in KINDS:
        fs = [f for f in p.fn(cls + '::category') if f.body is not None]
        if not fs:
            continue
        ps = ctx.explore(fs[0], **opts(p))
        for q in ps or ():
            if q.ctl == 'return' and q.val and q.val[0] == 'c':
                if q.val[1] in seen and seen[q.val[1]] != cls:
                    ctx.bad('category of %s' % cls, fs[0].where(), '%s and %s report the same category' % (cls, seen[q.val[1]]))
                else:
                    seen[q.val[1]] = cls
                    ctx.ok('category of %s' % cls, fs[0].where())


def owner_param(f):
    r = [x for x in f.params if re.search(r'\bMetaContainer &', x['t'])]
    if len(r) != 1:
        raise Undecided('no single owner parameter')
    return ('deref', ('init', ('var', r[0]['n'], 0)))


def named(t, n):
    if isinstance(t, tuple):
        return any(named(x, n) for x in t)
    return t == n


def registry_loc(p, loc):
    """Does loc live in an existing registry object rather than in something this path created?"""
    b = base_of(loc)
    return b[0] == 'deref'


def create(ctx, f, cls, lists, src):
    p = ctx.prog
    O = owner_param(f)
    X = subst(lists[cls], THIS, O)
    others = {subst(v, THIS, O): k for k, v in lists.items() if v is not None and k != cls}
    nameloc = ('var', f.params[0]['n'], 0)
    ps = ctx.explore(f, **opts(p, 'rtti::MetaClass::find', 'rtti::MetaContainerPrivate::findMethod'))
    if ps is None:
        return 0
    short = cls.split('::')[-1]
    nins = 0
    keys = set()
    for q in ps:
        for e in q.events:
            if e.kind == 'cont' and e.x.get('mode') == 'w' and e.x.get('elem') is None and e.args and registry_loc(p, e.obj) and e.n in ('emplace', 'insert', 'try_emplace', 'operator[]', 'insert_or_assign'):
                keys.add(bare(e.args[0]))
    for q in ps:
        if q.ctl == 'loopback':
            continue
        news = [e for e in q.events if e.kind == 'new' and (e.n == cls or p.derives(e.n, 'rtti::MetaItem'))]
        writes = [e for e in q.events if e.kind == 'cont' and e.x.get('mode') == 'w' and registry_loc(p, e.obj)]
        stores = [e for e in q.events if e.kind == 'atomic' and e.n != 'load' and registry_loc(p, e.obj)]
        raw = [e for e in q.events if e.kind in ('write', 'copyassign', 'swap') and e.obj is not None and registry_loc(p, e.obj)]
        w = lambda e: e.where()
        if len(news) > 1:
            ctx.bad('%s candidates' % short, w(news[1]), 'more than one candidate is created: %s' % path_desc(q))
            continue
        if q.ctl in ('throw', 'terminate'):
            if writes or stores or raw:
                ctx.bad('%s throw' % short, w((writes + stores + raw)[0]), 'the registry is changed on a path that throws: %s' % path_desc(q))
            elif news and len(destroyed(q, news[0].obj)) != 1:
                ctx.bad('%s leak' % short, w(news[0]), 'the candidate is destroyed %d times on a path that throws: %s' % (len(destroyed(q, news[0].obj)), path_desc(q)))
            else:
                ctx.ok('%s throws' % short, f.where())
            if cls == 'rtti::MetaClass':
                class_throw(ctx, f, q, short)
            continue
        if not news:
            if writes or stores or raw:
                e = (writes + stores + raw)[0]
                ctx.bad('%s existing changed' % short, w(e), 'an existing item or list is changed by a repeated registration (%s): %s' % (show(e.obj), path_desc(q)))
                continue
            v = q.val
            if is_nothing(p, v):
                if unusable(q, f):
                    ctx.ok('%s rejects' % short, f.where())
                elif class_ref(q, v):
                    ctx.undecided(short, f.where(), 'result %s' % show(v))
                else:
                    ctx.bad('%s creates nothing' % short, f.where(), 'nothing is created or returned although the arguments are usable: %s' % path_desc(q))
                continue
            existing(ctx, f, q, v, X, others, short, nameloc, keys)
            if cls == 'rtti::MetaClass':
                class_existing(ctx, f, q, v, short)
            continue
        o = news[0].obj
        A = ('addr', o)
        ins = [e for e in writes if A in e.args or e.x.get('val') == A or e.x.get('elem') is not None and (e.x.get('val') is not None and contains(e.x['val'], A))]
        dels = destroyed(q, o)
        returned = q.val is not None and contains(q.val, A)
        if ins:
            nins += 1
            good = [e for e in ins if e.obj == X]
            bad = [e for e in ins if e.obj != X and e.x.get('elem') is not None]
            if bad:
                ctx.bad('%s list' % short, w(bad[0]), 'a new %s goes into %s instead of %s' % (short, show(bad[0].obj), show(X)))
            elif len(good) != 1:
                ctx.bad('%s list' % short, w(ins[0]), 'a new %s is put into its list %d times' % (short, len(good)))
            elif not absent(q, writes, good[0]):
                ctx.bad('%s duplicate' % short, w(good[0]), 'a new %s is listed although its name may already be registered: %s' % (short, path_desc(q)))
            elif dels:
                ctx.bad('%s destroyed' % short, w(dels[0]), 'an item in the list is destroyed: %s' % path_desc(q))
            elif not returned:
                ctx.bad('%s not returned' % short, f.where(), 'the item that was inserted is not returned (%s): %s' % (show(q.val), path_desc(q)))
            else:
                ctx.ok('%s inserted' % short, w(good[0]))
                ctx.sample('%s: inserted into %s when %s' % (short, show(X), path_desc(q, 5)))
            content(ctx, f, q, o, short, O)
        else:
            if returned:
                ctx.bad('%s returned' % short, f.where(), 'a candidate that was not inserted is returned: %s' % path_desc(q))
            elif len(dels) != 1:
                ctx.bad('%s leak' % short, w(news[0]), 'a rejected candidate is destroyed %d times: %s' % (len(dels), path_desc(q)))
            else:
                ctx.ok('%s rejected' % short, w(dels[0]))
            if stores or [e for e in writes if e.obj in others or e.obj == X]:
                e = (stores + writes)[0]
                ctx.bad('%s rejected but recorded' % short, w(e), 'the registry is changed although the candidate was rejected: %s' % path_desc(q))
            if not returned and not is_nothing(p, q.val):
                existing(ctx, f, q, q.val, X, others, short, nameloc, keys)
        if cls == 'rtti::MetaClass':
            class_new(ctx, f, q, o, ins, stores, short)
            if not ins and not is_nothing(p, q.val) and not returned:
                class_existing(ctx, f, q, q.val, short)
    if not nins:
        ctx.bad('%s never created' % short, f.where(), 'no path inserts a new item')
    return nins


def destroyed(q, o):
    A = ('addr', o)
    return [e for e in q.events if e.kind == 'delete' and e.args and e.args[0] == A]


def unusable(q, f):
    """Some argument is known to be empty / null."""
    for i, x in enumerate(f.params):
        loc = ('var', x['n'] or 'arg%d' % i, 0)
        for k, b in q.facts.items():
            if k[0] == 'op' and k[1] == '!=0' and not b and contains(k[2], loc):
                return True
            if k[0] == 'op' and k[1] == '==' and b and ('c', 0) in k[2:] and contains(k, ('size', ('init', loc))):
                return True
            if k[0] == 'op' and k[1] == '==' and b and NULL in k[2:] and contains(k, loc):
                return True
    return False


def class_ref(q, v):
    return False


def existing(ctx, f, q, v, X, others, short, nameloc, keys):
    es = outer_elems(v)
    if es:
        if any(e[1] in others for e in es):
            ctx.bad('%s wrong list' % short, f.where(), 'returns an entry of %s: %s' % (show(es[0][1]), path_desc(q)))
            return
        if not any(e[1] == X for e in es):
            ctx.undecided(short, f.where(), 'result %s not recognised' % show(v))
            return
    elif not any(s and s[0] == 'call' for s in subterms(v)):
        ctx.undecided(short, f.where(), 'result %s not recognised' % show(v))
        return
    ks = used_keys(v)
    if not ks:
        if any(isinstance(x, tuple) and x[:1] in (('havoc',), ('it',)) for x in subterms(v)):
            ctx.undecided(short, f.where(), 'result %s found by search' % show(v))
        elif not contains(v, nameloc):
            ctx.bad('%s other entry' % short, f.where(), 'returns %s, which does not depend on the name given: %s' % (show(v), path_desc(q)))
        else:
            ctx.undecided(short, f.where(), 'key of %s not recognised' % show(v))
        return
    for k in ks:
        if keys and k not in keys:
            ctx.bad('%s other entry' % short, f.where(), 'returns the item registered as %s although a new one would be registered as %s: %s' % (show(k), ' or '.join(sorted(show(x) for x in keys)), path_desc(q)))
            return
    ctx.ok('%s existing' % short, f.where())


def absent(q, writes, push):
    """The name recorded beside the new entry is proved absent before."""
    for e in writes:
        if e.args and e.obj != push.obj and e.x.get('elem') is None:
            for at in (push, e):
                if q.it.holds(('has', e.x['value'], e.args[0]), at.facts) is False:
                    return True
            return False
    return True


def bare(k):
    while k and k[0] in ('sv', 'str'):
        k = k[1]
    return k


def used_keys(v):
    out = []
    for s in subterms(v):
        if s and s[0] == 'mapval':
            out.append(bare(s[2]))
    if not out and v[0] == 'call':
        for a in v[2]:
            if a and (a[0] in ('sv', 'str') or a[0] == 'init' and a[1][0] == 'var' and a[1][2] == 0):
                out.append(bare(a))
    return out


def content(ctx, f, q, o, short, O):
    """Everything given at registration ends up in the new item."""
    objs = {loc for loc in q.mem if base_of(loc)[0] == 'obj'}
    vals = [q.mem[l] for l in objs]
    for e in q.events:
        if e.kind in ('ctor', 'construct', 'call'):
            vals += [a for a in e.args if a is not None]
    for i, x in enumerate(f.params):
        loc = ('var', x['n'] or 'arg%d' % i, 0)
        if 'access_key' in x['t'] or not x['n']:
            continue
        held_ = [v for l, v in q.mem.items() if base_of(l)[0] == 'obj' and contains(v, loc)]
        if not held_ and any(contains(k, loc) for k in q.facts):
            continue            # replaced by a default under a condition on the argument itself
        if not held_:
            ctx.bad('%s loses %s' % (short, x['n']), f.where(), 'argument %s does not reach the new item: %s' % (x['n'], path_desc(q, 4)))
        else:
            ctx.ok('%s keeps %s' % (short, x['n']), f.where())


def type_param(f):
    for x in f.params:
        if 'MetaType_ID' in x['t'] or 'ID<' in x['t']:
            return ('var', x['n'], 0)
    return None


def link_of(q, e):
    return e.obj[0] == 'fld' and e.obj[2] == 'metaClass'


def class_new(ctx, f, q, o, ins, stores, short):
    t = type_param(f)
    links = [e for e in stores if contains(e.obj, t)]
    A = ('addr', o)
    if not ins:
        return
    if len(links) != 1 or not any(A in e.args for e in links):
        ctx.bad('%s link' % short, (links or ins)[0].where(), 'the type is linked to the new class %d times: %s' % (len(links), path_desc(q)))
        return
    L = links[0]
    if q.events.index(L) < q.events.index(ins[0]):
        ctx.bad('%s link' % short, L.where(), 'the type is linked before the class is registered')
        return
    if L.n not in ('store', 'operator=', 'exchange') :
        ctx.undecided('%s link' % short, L.where(), 'linked by %s' % L.n)
        return
    facts = ins[0].facts
    link0 = ('op', '!=0', ('init', L.obj), ('c', 0))
    handle = base_of(L.obj)
    h = handle[1] if handle[0] == 'deref' else None
    if h is not None and truth(q, ('op', '!=0', h, ('c', 0)), facts) is not True:
        ctx.bad('%s invalid type' % short, ins[0].where(), 'a class can be registered for an invalid type: %s' % path_desc(q))
    else:
        ctx.ok('%s valid type' % short, ins[0].where())
    if truth(q, link0, facts) is not False:
        ctx.bad('%s second class' % short, ins[0].where(), 'a class can be registered for a type that already has one: %s' % path_desc(q))
    else:
        ctx.ok('%s first class of the type' % short, ins[0].where())


def class_existing(ctx, f, q, v, short):
    """An existing class is only returned when it was registered for the same type."""
    t = type_param(f)
    for k, b in q.facts.items():
        if k[0] == 'op' and k[1] == '==' and b and any(contains(x, t) for x in k[2:]) and any(named(x, 'm_typeId') for x in k[2:]):
            ctx.ok('%s same type' % short, f.where())
            return
    ctx.bad('%s other type' % short, f.where(), 'an existing class is returned without establishing that it was registered for the same type: %s' % path_desc(q))


THROWS = ('rtti::invalid_metatype_id', 'rtti::duplicate_metaclass', 'rtti::definition_error')


def class_throw(ctx, f, q, short):
    t = type_param(f)
    n = q.val[0] if isinstance(q.val, tuple) else None
    if n not in THROWS and not (n and ctx.prog.derives(n, 'rtti::definition_error')):
        ctx.bad('%s throws %s' % (short, n), f.where(), 'a failed class registration throws %s: %s' % (n, path_desc(q)))
        return
    dup = inv = False
    for k, b in q.facts.items():
        if k[0] == 'op' and k[1] == '!=0' and named(k[2], 'metaClass') and b:
            dup = True
        if k[0] == 'op' and k[1] == '==' and not b and named(k, 'm_typeId'):
            dup = True
        if k[0] == 'op' and k[1] == '!=0' and not b and k[2] == ('init', ('fld', t, 'm_val')):
            inv = True
        if contains(k, ('glob', 'rtti::CustomTypes::Destroyed')) and b:
            inv = True
    if n == 'rtti::duplicate_metaclass' and not dup or n == 'rtti::invalid_metatype_id' and not inv:
        ctx.bad('%s %s' % (short, n), f.where(), 'throws %s without cause: %s' % (n, path_desc(q)))
    else:
        ctx.ok('%s %s' % (short, n), f.where())
