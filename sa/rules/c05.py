"""Every lookup and enumeration function of the public API is summarised path by path. By index: a path returning an
entry reads exactly position `index` of the list whose size the matching count reports, with index < size established on
the same version of the list; any other path returns nothing and is taken only when index >= size. By name: the entry
returned is the one at the position stored for that name; nothing is returned only for an empty or absent name. Unchecked
element access always has its bound proved on the path. Enumeration calls back once per entry of the same list from the
first on, stops when told to, continues otherwise and ignores an empty callback. Insertion stores the new entry's own
position under its own name, both only when the name is absent;
no path refuses a name it knows to be absent, and a name is looked up and stored as it was given (not shortened or changed)."""
from ..registry import *

FAMILIES = [('rtti::MetaContainer', c[0].lower() + c[1:] + 'Count', 'get' + c, 'get' + c if c not in ('Constructor', 'Method') else None,
             'for_each_' + c.lower()) for c in CATS] + [
    ('rtti::MetaItem', 'attributeCount', 'attribute', 'attribute', 'for_each_attribute'),
    ('rtti::MetaItem', 'attributeCount', 'attributeName', None, None),
    ('rtti::MetaEnum', 'elementCount', 'element', 'element', 'for_each_element'),
    ('rtti::MetaEnum', 'elementCount', 'elementName', None, None),
    ('rtti::MetaClass', 'baseClassCount', 'baseClass', None, None),
    ('rtti::MetaClass', 'derivedClassCount', 'derivedClass', None, None)]


def run(ctx):
    p = ctx.load()
    used = {}
    for cls, cnt, get, byname, each in FAMILIES:
        fs = ctx.fns(cls + '::' + cnt)
        X = list_of(ctx, fs[0])
        if X is None:
            # a list whose count is not the size of one container
            count_shape(ctx, fs[0])
            continue
        what = cls.split('::')[-1] + '.' + get
        key = (cls, cnt)
        for k, x in used.items():
            if x == X and k != key:
                ctx.bad('%s and %s share a list' % (k[1], cnt), fs[0].where(), '%s and %s report the same list %s' % (k[1], cnt, show(X)))
        used[key] = X
        ctx.ok('%s::%s' % (cls, cnt), fs[0].where(), 'size of %s' % show(X))
        gs = ctx.fns(cls + '::' + get)
        by_index(ctx, by_param(gs, 'index'), X, what)
        if byname:
            f = by_param(gs, 'name')
            if byname == 'getProperty':
                f = ctx.fns(cls + '::getPropertyInternal')[0]
            by_name(ctx, f, X, what)
        if each and p.fn(cls + '::' + each):
            for_each(ctx, ctx.fns(cls + '::' + each)[0], X, cls.split('::')[-1] + '.' + each)
    bounds(ctx)
    ctx.counts['lists'] = len(set(used.values()))
    if len(used) < 5:
        raise Broken('only %d metadata lists recognised' % len(used))
    inserts(ctx, set(used.values()))


def count_shape(ctx, f):
    ps = ctx.explore(f, **opts(ctx.prog))
    for q in ps or ():
        v = q.val
        if q.ctl == 'return' and v is not None:
            for t in subterms(v):
                if t and t[0] == 'op' and t[1] in ('+', '-') and any(x and x[0] == 'size' for x in t[2:]) and any(x and x[0] == 'c' and x[1] for x in t[2:]):
                    ctx.bad('%s count' % f.n, f.where(), 'the count is %s' % show(v))
                    return
            if v[0] == 'c':
                ctx.bad('%s count' % f.n, f.where(), 'the count is %s on a path: %s' % (show(v), path_desc(q)))
                return
    ctx.undecided('%s count' % f.n, f.where(), 'not the size of one list')


def same_list(x, X):
    return x == X


def by_index(ctx, f, X, what):
    p = ctx.prog
    ps = ctx.explore(f, **opts(p, 'rtti::MetaClass::find'))
    if ps is None:
        return
    idx = param(f)
    nfound = 0
    for q in ps:
        if q.ctl == 'loopback':
            ctx.undecided(what, f.where(), 'lookup by a loop')
            return
        if q.ctl != 'return':
            ctx.bad('%s throws' % what, f.where(), 'lookup by index ends in %s: %s' % (q.ctl, path_desc(q)))
            continue
        v = q.val
        en = entry(v)
        if en is not None and en[0] == 'elem':
            nfound += 1
            if en[1] != X:
                ctx.bad('%s wrong list' % what, f.where(), 'returns an entry of %s while the count reports %s' % (show(en[1]), show(X)))
            elif en[2] != idx:
                ctx.bad('%s wrong position' % what, f.where(), 'returns the entry at %s for index %s: %s' % (show(en[2]), show(idx), path_desc(q)))
            else:
                ctx.ok('%s found' % what, f.where())
                ctx.sample('%s: %s' % (what, path_desc(q)))
        elif is_nothing(p, v):
            sizes = [e for e in q.events if e.kind == 'cont' and e.obj == X]
            if not sizes:
                ctx.bad('%s misses' % what, f.where(), 'returns nothing without consulting %s: %s' % (show(X), path_desc(q)))
                continue
            V = sizes[-1].x['value']
            if truth(q, ('op', '<', idx, ('size', V))) is not False:
                ctx.bad('%s misses' % what, f.where(), 'returns nothing although index may be below the count: %s' % path_desc(q))
            else:
                ctx.ok('%s absent' % what, f.where())
        elif en is None and outer_elems(v) == [] and v is not None and v[0] == 'addr' and v[1][0] in ('glob', 'var', 'tmp'):
            ctx.bad('%s nothing' % what, f.where(), 'returns %s: %s' % (show(v), path_desc(q)))
        else:
            ctx.undecided(what, f.where(), 'result %s not recognised' % show(v))
    if not nfound:
        ctx.bad('%s never finds' % what, f.where(), 'no path returns an entry of %s' % show(X))


def by_name(ctx, f, X, what):
    p = ctx.prog
    ps = ctx.explore(f, **opts(p))
    if ps is None:
        return
    name = None
    what += '(name)'
    nfound = 0
    for q in ps:
        if q.ctl == 'loopback':
            ctx.undecided(what, f.where(), 'lookup by a loop')
            return
        if q.ctl == 'throw' and stale_position(q, X):
            continue            # positions stored are below the size
        if q.ctl != 'return':
            ctx.bad('%s throws' % what, f.where(), 'lookup by name ends in %s: %s' % (q.ctl, path_desc(q)))
            continue
        v = q.val
        en = entry(v)
        nm = param(f)
        finds = [e for e in q.events if e.kind == 'cont' and e.n in ('find', 'at', 'count', 'contains', 'operator[]') and e.x.get('raw') is not None and e.obj != X]
        if en is not None:
            nfound += 1
            pos = en[2] if en[0] == 'elem' else None
            if en[0] == 'elem' and en[1] != X:
                ctx.bad('%s wrong list' % what, f.where(), 'returns an entry of %s while the count reports %s' % (show(en[1]), show(X)))
                continue
            mv = entry(pos) if en[0] == 'elem' else en
            if mv is None or mv[0] != 'mapval':
                if en[0] == 'elem' and contains(pos, ('it',)) or is_counter(pos) or pos and pos[0] == 'it':
                    ctx.undecided(what, f.where(), 'lookup by search')
                else:
                    ctx.bad('%s wrong entry' % what, f.where(), 'returns the entry at %s, not the one stored for the name: %s' % (show(pos), path_desc(q)))
                continue
            if pos is not None and pos != ('init', ('fld', mv, 'second')):
                ctx.bad('%s wrong position' % what, f.where(), 'the position used is %s' % show(pos))
                continue
            if altered(mv[2], nm):
                ctx.bad('%s other name' % what, f.where(), 'the entry returned is registered under %s, not under the name asked for: %s' % (show(mv[2]), path_desc(q)))
                continue
            if not contains(mv[2], nm) and mv[2] != nm:
                ctx.undecided(what, f.where(), 'key %s not recognised' % show(mv[2]))
                continue
            if finds and truth(q, ('has', finds[-1].x['value'], mv[2])) is not True:
                ctx.bad('%s unproved' % what, f.where(), 'entry used without establishing that the name is registered: %s' % path_desc(q))
                continue
            if mv[1][0] == 'fld' and X[0] == 'fld' and mv[1][1] != X[1]:
                ctx.bad('%s wrong index' % what, f.where(), 'the index %s does not belong to the list %s' % (show(mv[1]), show(X)))
                continue
            ctx.ok('%s found' % what, f.where())
        elif is_nothing(p, v):
            if truth(q, ('op', '==', ('size', nm), ('c', 0))) is True:
                ctx.ok('%s empty name' % what, f.where())
                continue
            ok = False
            for e in finds:
                k = e.args[0]
                if truth(q, ('has', e.x['value'], k)) is False:
                    ok = True
                mvl = ('init', ('fld', ('mapval', e.obj, k), 'second'))
                for e2 in q.events:
                    if e2.kind == 'cont' and e2.obj == X and truth(q, ('op', '<', mvl, ('size', e2.x['value']))) is False:
                        ok = True       # cannot happen: positions stored are below the size
            if ok:
                ctx.ok('%s absent' % what, f.where())
            elif not finds and any(e.kind in ('cont', 'iterate') and e.obj == X for e in q.events):
                ctx.undecided(what, f.where(), 'lookup by search')
            else:
                ctx.bad('%s misses' % what, f.where(), 'returns nothing although the name may be registered: %s' % path_desc(q))
        elif en is None and outer_elems(v) == [] and v is not None and v[0] == 'addr' and v[1][0] in ('glob', 'var', 'tmp'):
            ctx.bad('%s nothing' % what, f.where(), 'returns %s: %s' % (show(v), path_desc(q)))
        else:
            ctx.undecided(what, f.where(), 'result %s not recognised' % show(v))
    if not nfound:
        ctx.bad('%s never finds' % what, f.where(), 'no path returns an entry of %s' % show(X))


def altered(key, nm):
    """A part of the name, or the name with something changed, stands for another name."""
    return any(s[0] == 'call' and s[1] in ('substr', 'concat', 'tolower', 'toupper', 'remove_prefix', 'remove_suffix') or s[0] == 'op' and s[1] == '+'
               for s in subterms(key) if isinstance(s, tuple) and len(s) > 1) and contains(key, nm)


def stale_position(q, X):
    for e in q.events:
        if e.kind == 'cont' and e.obj == X and 'index' in e.x or e.kind == 'cont' and e.obj == X:
            for k, b in q.facts.items():
                if not b and k[0] == 'op' and k[1] == '<' and k[3] == ('size', e.x['value']) and entry(k[2]) and entry(k[2])[0] == 'mapval':
                    return True
    return False


def for_each(ctx, f, X, what):
    p = ctx.prog
    ps = ctx.explore(f, **opts(p))
    if ps is None:
        return
    fv = None
    ncalls = 0
    for q in ps:
        calls = [e for e in q.events if e.kind == 'icall']
        elems = []
        for e in calls:
            en = None
            for a in e.args:
                for x in outer_elems(a):
                    en = x
            elems.append(en)
        if q.ctl in ('throw', 'terminate'):
            ctx.bad('%s throws' % what, f.where(), 'enumeration ends in %s: %s' % (q.ctl, path_desc(q)))
            continue
        empty = fact_on_param(q, f)
        if empty is False and not calls:
            ctx.ok('%s empty callback' % what, f.where())
            continue
        if empty is not True and calls:
            ctx.bad('%s empty callback' % what, f.where(), 'the callback is called without testing that there is one: %s' % path_desc(q))
            continue
        its = [e for e in q.events if e.kind in ('iterate', 'cont') and e.obj == X]
        if not calls:
            # nothing visited: only when the list is exhausted at once
            wrong = [e.obj for e in q.events if e.kind in ('iterate', 'cont') and e.obj != X and e.n not in ('operator[]', 'at')]
            if q.ctl == 'loopback':
                ctx.bad('%s skips' % what, f.where(), 'an entry is passed over without calling back: %s' % path_desc(q))
            elif not its:
                ctx.bad('%s skips' % what, f.where(), 'returns without visiting %s: %s' % (show(X), path_desc(q)))
            elif not exhausted(q, X):
                ctx.bad('%s skips' % what, f.where(), 'returns without a callback although entries may remain: %s' % path_desc(q))
            else:
                ctx.ok('%s empty list' % what, f.where())
            continue
        ncalls += 1
        bad = False
        for en, e in zip(elems, calls):
            if en is None:
                if any(isinstance(s, tuple) and s[:1] == ('opq',) and s[1] in ('rbegin', 'crbegin', 'rend', 'crend') for a in e.args for s in subterms(a)):
                    ctx.bad('%s order' % what, f.where(), 'entries are visited from the last to the first')
                else:
                    ctx.undecided(what, e.where(), 'callback argument %s not recognised' % [show(a) for a in e.args])
                bad = True
            elif en[0] == 'elem' and en[1] != X:
                ctx.bad('%s wrong list' % what, e.where(), 'visits %s while the count reports %s' % (show(en[1]), show(X)))
                bad = True
            elif en[0] == 'mapval':
                ctx.bad('%s order' % what, e.where(), 'visits the entries in the order of the name index %s' % show(en[1]))
                bad = True
            elif is_counter(en[2]) and not counter_ok(ps, en[2]):
                ctx.bad('%s order' % what, e.where(), 'the position %s does not step through the list one by one' % show(en[2]))
                bad = True
            elif en is not elems[0] and en[2] == succ(elems[elems.index(en) - 1][2]):
                pass
            elif en[2][0] == 'op' and any(is_counter(x) or x[0] == 'it' for x in en[2][2:]):
                ctx.bad('%s order' % what, e.where(), 'visits position %s' % show(en[2]))
                bad = True
            elif en[2][0] == 'c' and en[2][1] != 0 and len(calls) == 1:
                ctx.bad('%s order' % what, e.where(), 'the first entry visited is number %d' % en[2][1])
                bad = True
        if bad:
            continue
        if len(set(elems)) != len(elems):
            ctx.bad('%s twice' % what, calls[-1].where(), 'the callback runs twice for one entry: %s' % path_desc(q))
            continue
        r = truth(q, calls[-1].res)
        last = truth(q, calls[-1].res)
        for e in calls[:-1]:
            if truth(q, e.res) is not True:
                ctx.bad('%s goes on' % what, e.where(), 'continues after the callback asked to stop: %s' % path_desc(q))
                bad = True
        if bad:
            continue
        if q.ctl == 'loopback':
            if r is not True:
                ctx.bad('%s goes on' % what, calls[-1].where(), 'continues %s: %s' % (
                    'after the callback asked to stop' if r is False else 'without looking at the callback result', path_desc(q)))
                continue
        elif r is not False and not exhausted(q, X):
            ctx.bad('%s stops early' % what, calls[-1].where(), 'stops although the callback asked to go on and entries may remain: %s' % path_desc(q))
            continue
        elif r is None and exhausted(q, X):
            ctx.bad('%s goes on' % what, calls[-1].where(), 'the callback result is not looked at: %s' % path_desc(q))
            continue
        ctx.ok('%s visits' % what, f.where())
        ctx.sample('%s: %s' % (what, path_desc(q)))
    if not ncalls:
        ctx.bad('%s never visits' % what, f.where(), 'no path calls back for an entry of %s' % show(X))


def succ(t):
    from ..model import plus1
    return plus1(t) if isinstance(t, tuple) and t else None


def fact_on_param(q, f):
    v = ('deref', ('init', ('var', f.params[0]['n'], 0)))
    for k, b in q.facts.items():
        if k[0] == 'op' and k[1] == '!=0' and contains(k[2], v) and not any(isinstance(s, tuple) and s[:1] in (('icall',), ('call',)) for s in subterms(k)):
            return b
    return None


def exhausted(q, X):
    for k, b in q.facts.items():
        if k[0] == 'more' and not b:
            return True
        if k[0] == 'op' and k[1] == '==' and b and any(x[0] in ('size', 'end') for x in k[2:]):
            return True
        if k[0] == 'op' and k[1] == '<' and not b and k[3][0] == 'size':
            return True
        if k[0] == 'op' and k[1] == '!=0' and not b and k[2][0] == 'size':
            return True
    return False


def bounds(ctx):
    """Unchecked indexing of the library's lists anywhere in src/ has its bound proved on every path."""
    p = ctx.prog
    names = {f for i in guards(p).values() for f in i['data']}
    seen = {}
    fs = [f for f in p.funcs.values() if f.body is not None and f.cls in guards(p) and not f.lam and mentions(f.body, names) and not f.d.get('ctor') and not f.d.get('dtor')]
    for f in fs:
        ps = ctx.explore(f, **opts(p, maxpaths=3000))
        if ps is None:
            continue
        for q in ps:
            for e in q.events:
                if e.kind == 'cont' and 'index' in e.x and not e.x.get('checked') and guarded_of(p, e.obj):
                    r = inside(q, e, e.x['index'], e.obj, e.x['value'])
                    k = '%s indexes %s' % (e.fn.n, e.obj[2] if e.obj[0] == 'fld' else show(e.obj))
                    if r is True and (not is_counter(e.x['index']) or counter_ok(ps, e.x['index'])):
                        seen.setdefault(k, e.where())
                    elif pushed_before(q, e):
                        seen.setdefault(k, e.where())
                    else:
                        ctx.bad(k, e.where(), 'position %s is read without a proof that it is below the size: %s' % (show(e.x['index']), path_desc(q)))
                elif e.kind == 'iterderef' and e.args and e.args[0][0] == 'find' and guarded_of(p, e.args[0][3]):
                    it = e.args[0]
                    k = '%s dereferences %s' % (e.fn.n, show(it[3])[-20:])
                    if q.it.holds(('has', it[1], it[2]), e.facts) is not True:
                        ctx.bad(k, e.where(), 'iterator is used without a proof that the entry exists: %s' % path_desc(q))
                    else:
                        seen.setdefault(k, e.where())
    for k, w in seen.items():
        ctx.ok(k, w)


def pushed_before(q, e):
    """front() or back() right after an insertion"""
    V = e.x['value']
    return isinstance(V, tuple) and V[0] == 'mut' and e.n in ('front', 'back') and V[3] in ('emplace_back', 'push_back', 'emplace_front', 'push_front')


def narrow(p, loc):
    """The type of the positions kept in an associative container, when it is narrower than any realistic number of entries."""
    if loc is None or loc[0] != 'fld':
        return None
    from ..invoke import targs
    from ..interp import INT_BITS, nocv
    for n, r in p.records.items():
        for x in r['fields']:
            if n.startswith('rtti::') and x['n'] == loc[2] and 'map<' in x['t']:
                a = targs(x['t'])
                b = INT_BITS.get(nocv(a[1])) if len(a) > 1 else None
                if b and b < 32:
                    return a[1], 1 << b
    return None


def inserts(ctx, lists):
    """Insertion keeps list and name index consistent."""
    p = ctx.prog
    fs = [f for n in ('rtti::MetaItem::setAttribute', 'rtti::MetaEnum::addElement', 'rtti::internal::MetaItemList::add') for f in p.fn(n) if f.body is not None]
    if not p.fn('rtti::internal::MetaItemList::add'):
        fs += [f for f in p.fn('rtti::MetaContainer::addItem') if f.body is not None]
    n = 0
    for f in fs:
        ps = ctx.explore(f, **opts(p))
        for q in ps or ():
            push = [e for e in q.events if e.kind == 'cont' and e.n in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace') and e.x.get('elem') is not None]
            ins = [e for e in q.events if e.kind == 'cont' and e.x.get('mode') == 'w' and e.x.get('elem') is None and e.n in ('emplace', 'insert', 'try_emplace', 'operator[]', 'insert_or_assign')]
            if q.ctl == 'return' and not push and not ins:
                has = [b for k, b in q.facts.items() if k[0] == 'has']
                if has and not any(has) and not any(k[0] == 'more' for k in q.facts):
                    ctx.bad('%s refuses' % f.n, f.where(), 'an entry is not registered although neither it nor its name is known: %s' % path_desc(q))
                continue
            if q.ctl != 'return':
                continue
            key = '%s inserts' % f.n
            if len(push) != 1 or len(ins) > 1 or (len(ins) != 1 and not ins):
                ctx.bad(key, f.where(), 'an entry is %s: %s' % ('listed without its name being recorded' if push and not ins else
                                                               'recorded under its name without being listed' if ins and not push else 'inserted more than once', path_desc(q)))
                continue
            a, b = push[0], ins[0]
            if 'front' in a.n:
                ctx.bad(key, a.where(), 'a new entry is put in front of the older ones')
                continue
            from ..model import size_of
            want = size_of(a.x['value'])
            val = b.x.get('val')
            if val is None:
                val = q.mem.get(('fld', ('mapval', b.obj, b.args[0]), 'second'))
            if val == a.x['val']:
                pass            # the index holds the entry itself
            elif val != want:
                if val is None:
                    ctx.undecided(key, b.where(), 'stored position not recognised')
                else:
                    ctx.bad(key, b.where(), 'position %s is stored for the entry at %s' % (show(val), show(want)))
                continue
            w = narrow(p, b.obj)
            if w is not None and val != a.x['val']:
                ctx.bad(key, b.where(), 'positions are stored as %s, which cannot tell apart more than %d entries' % w)
                continue
            # the same name, and only when absent
            V = b.x['value']
            if q.it.holds(('has', V, b.args[0]), a.facts) is not False and q.it.holds(('has', V, b.args[0]), b.facts) is not False:
                ctx.bad(key, a.where(), 'an entry is listed although its name may already be registered: %s' % path_desc(q))
                continue
            n += 1
            ctx.ok(key, a.where())
            ctx.sample('%s stores %s -> %s' % (f.n, show(b.args[0]), show(want)))
    if n < 2:
        ctx.undecided('insertions', '', 'only %d insertion paths recognised' % n)
