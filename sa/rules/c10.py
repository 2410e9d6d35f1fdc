"""The virtual lookups of a class are verified as recursive definitions on every path: nothing for an empty name, the class's own
member when the own list has one, otherwise the first non-null answer of the recorded bases, all asked for the same name from the
first on.  The public lookups dispatch to them; constructors are looked up in the own list only; creating a member ignores members
of bases.  Name matching: the conditions of every path of the matching loop are evaluated on the classes of a finite partition of
(registered name, requested name) pairs (equal, bare name, proper prefix, longer, differing before / after the parenthesis, empty,
without parenthesis), which must match exactly for the full signature and the bare name."""
from ..inherit import *

OWNF = {'rtti::MetaContainerPrivate::findMethod', 'rtti::MetaContainerPrivate::item'}
D = ('deref', ('init', ('fld', THIS, 'd_ptr')))


def run(ctx):
    p = ctx.load()
    B = base_list(ctx)
    if B is None:
        ctx.undecided('member lookup', '', 'list of base classes not recognised')
        return
    for what, count in (('Method', 'methodCount'), ('Property', 'propertyCount')):
        resolve(ctx, p, B, what, category(ctx, count))
        public(ctx, p, what)
        creation(ctx, p, what)
    constructors(ctx, p, B)
    matching(ctx, p)


def category(ctx, count):
    """Category constant behind a public count."""
    f = ctx.fns('rtti::MetaContainer::' + count)[0]
    got = set()
    for q in ctx.explore(f, **opts(ctx.prog, 'rtti::MetaContainerPrivate::size')) or ():
        for e in q.events:
            if e.kind == 'call' and e.n == 'rtti::MetaContainerPrivate::size' and e.args:
                got.add(e.args[0])
    return got.pop() if len(got) == 1 else None


def own_call(q):
    return [e for e in q.events if e.kind == 'call' and e.n in OWNF and e.obj is not None and base_elem(e.obj) is None and contains(e.obj, ('fld', THIS, 'd_ptr'))]


def resolve(ctx, p, B, what, cat):
    key = what.lower() + ' lookup'
    bn = 'rtti::MetaClass::get%sInternal' % what
    fs = [f for f in p.fn(bn) if f.body is not None]
    if not fs:
        ctx.undecided(key, '', bn + ' not found')
        return
    hits = own = 0
    for f in fs:
        ov = {p.funcs[o].bn for o in f.d.get('ov', ()) if o in p.funcs}
        ctx.req(bool(f.d.get('ov')), key + ' is virtual', f.where(), 'the lookup of classes does not override the one of containers')
        name = param(f)
        names = {bn, 'rtti::MetaContainer::get' + what}
        ps = ctx.explore(f, **opts(p, *names, *FIND, *OWNF))
        for q in ps or ():
            if q.ctl not in ('return', 'loopback'):
                ctx.bad(key + ' answers', f.where(), 'ends in ' + q.ctl + ': ' + path_desc(q))
                continue
            empty = name_empty(q, name)
            oc = own_call(q)
            wrong = [e for e in oc if len(e.args) != 2 or e.args[1] != name or cat is not None and e.args[0] != cat]
            for e in wrong:
                ctx.bad(key + ' starts with the own members', e.where(), 'looks up ' + ', '.join(show(a) for a in e.args))
            if wrong:
                continue
            if empty is True:
                ctx.req(q.ctl == 'return' and q.val == NULL or bool(oc) and q.val == oc[-1].res, key + ' of an empty name', f.where(), 'finds %s for an empty name' % (show(q.val) if q.val else q.ctl))
                continue
            state = [truth(q, e.res) for e in oc]
            if q.ctl == 'return' and oc and q.val == oc[-1].res and not tested(q, B, names):
                own += 1
                if state[-1] is not True and not exhausted(q):
                    ctx.bad(key + ' continues with the bases', f.where(), 'answers with the own list alone: ' + path_desc(q))
                else:
                    ctx.ok(key + ' starts with the own members', f.where())
                continue
            if not oc and tested(q, B, names):
                ctx.bad(key + ' starts with the own members', f.where(), 'a base is asked before the class itself: ' + path_desc(q))
                continue
            if not oc:
                ctx.bad(key + ' starts with the own members', f.where(), 'answers %s without looking at the own members: %s' % (show(q.val) if q.val else q.ctl, path_desc(q)))
                continue
            if state[-1] is not False:
                ctx.bad(key + ' starts with the own members', f.where(), 'goes on although the class has the member itself: ' + path_desc(q))
                continue
            ts = tested(q, B, names)
            first = q.events.index(oc[0])
            if ts and q.events.index(ts[0][1]) < first:
                ctx.bad(key + ' starts with the own members', f.where(), 'a base is asked before the class itself')
                continue
            r = walk(ctx, key, f, ps, q, B, names, lambda q, e: truth(q, e.res), lambda q: q.val == NULL or truth(q, q.val) is False)
            if r in (None, 'loop', 'miss'):
                if r:
                    ctx.ok(key + ' asks every base', f.where())
                continue
            if r == 'none':
                ctx.bad(key + ' answers with a match', f.where(), 'answers %s although nothing matched: %s' % (show(q.val), path_desc(q)))
                continue
            en, e = r
            hits += 1
            ctx.req(q.val == e.res, key + ' answers with the first match', f.where(), 'answers %s instead of the member found in the base' % show(q.val))
            ctx.req(e.args and e.args[0] == name, key + ' asks for the same name', e.where(), 'asks for ' + show(e.args[0] if e.args else None))
            ctx.req(not (e.node or {}).get('qual') or e.n == bn, key + ' is recursive', e.where(), 'asks the base for its own members only')
            ctx.sample('%s: %s' % (key, path_desc(q)))
    if not ctx.undec:
        ctx.req(own, key + ' starts with the own members', fs[0].where(), 'no path answers with an own member')
        ctx.req(hits, key + ' continues with the bases', fs[0].where(), 'no path answers with a member of a base')


def name_empty(q, name):
    for t, neg in ((('op', '==', ('size', name), ('c', 0)), False), (('empty', name), False), (('op', '!=0', ('size', name), ('c', 0)), True)):
        r = q.it.holds(t, q.facts)
        if r is not None:
            return r != neg
    return None


def public(ctx, p, what):
    key = what.lower() + ' lookup is public'
    target = {'rtti::MetaContainer::get%sInternal' % what, 'rtti::MetaClass::get%sInternal' % what}
    for f in ctx.fns('rtti::MetaContainer::get' + what):
        if not f.params or 'string_view' not in f.params[0]['t'] or len(f.params) != 1 or f.ta:
            continue
        name = param(f)
        n = 0
        for q in ctx.explore(f, **opts(p, *target)) or ():
            if name_empty(q, name) is True:
                ctx.req(q.val == NULL, key, f.where(), 'answers %s for an empty name' % show(q.val))
                continue
            c = [e for e in q.events if e.kind == 'call' and e.n in target]
            if not c or q.ctl != 'return' or q.val != c[-1].res:
                ctx.bad(key, f.where(), 'does not answer with the lookup of the class: ' + path_desc(q))
                continue
            n += 1
            e = c[-1]
            ctx.req(not (e.node or {}).get('qual') and (e.node or {}).get('vm', True), key, e.where(), 'the lookup is not dispatched to the class')
            ctx.req(e.args and e.args[0] == name and e.obj == THIS, key, e.where(), 'asks for ' + show(e.args[0]))
        if not n and not ctx.undec:
            ctx.bad(key, f.where(), 'no path asks the class')


def constructors(ctx, p, B):
    key = 'constructors are not inherited'
    cat = category(ctx, 'constructorCount')
    names = {f.bn for f in p.funcs.values() if f.bn.startswith('rtti::MetaContainer::') and f.bn.split('::')[-1].lower().endswith('constructor')}
    n = 0
    for bn in sorted(names):
        for f in p.fn(bn):
            if f.body is None or f.ta or not f.rt.rstrip().endswith('*'):
                continue
            for q in ctx.explore(f, **opts(p, *OWNF, *FIND)) or ():
                foreign = [e for e in q.events if e.kind == 'call' and e.obj is not None and (base_elem(e.obj) is not None and base_elem(e.obj)[1] == B or 'BaseClass' in e.n)]
                ctx.req(not foreign, key, (foreign or [f])[0].where(), 'looks into the bases')
                if q.ctl != 'return' or q.val == NULL:
                    continue
                oc = own_call(q)
                if not oc:
                    ctx.undecided(key, f.where(), 'answers ' + show(q.val))
                    continue
                n += 1
                ctx.req(q.val == oc[-1].res and (cat is None or oc[-1].args[0] == cat), key, oc[-1].where(), 'answers with ' + show(q.val))
    if n < 2:
        ctx.undecided(key, '', 'constructor lookups not recognised')


def creation(ctx, p, what):
    key = 'own %s beside an inherited one' % what.lower()
    get = {'rtti::MetaContainer::get' + what, 'rtti::MetaContainer::get%sInternal' % what, 'rtti::MetaClass::get%sInternal' % what}
    bn = 'rtti::Meta%s::create' % what
    made = 0
    for f in ctx.fns(bn):
        owner = next((param(f, i) for i, x in enumerate(f.params) if 'MetaContainer' in x['t']), None)
        if owner is None:
            continue
        for q in ctx.explore(f, **opts(p, *get, *OWNF, 'rtti::MetaContainer::addItem')) or ():
            new = [e for e in q.events if e.kind == 'new']
            if new:
                made += 1
            if q.ctl != 'return' or q.val == NULL or q.val is None or new:
                continue
            c = [x for x in subterms(q.val) if isinstance(x, tuple) and x and x[0] == 'call' and x[1] in get]
            if not c:
                continue
            mine = [k for k, v in q.facts.items() if k[0] == 'op' and k[1] == '==' and v and any(contains(x, c[0]) for x in k[2:]) and any(x in (('addr', ('deref', owner)), owner) for x in k[2:])]
            ctx.req(bool(mine), key, f.where(), 'returns a member that may belong to a base instead of creating one: ' + path_desc(q))
    if not made and not ctx.undec:
        ctx.bad(key, ctx.fns(bn)[0].where(), 'no path creates a member')


# ---------------------------------------------------------------- name matching
class Unknown(Exception):
    pass


class Range(Exception):
    pass


def sval(t, env):
    """Value of a string / position term for one representative pair."""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 's':
        return t[1]
    if k in ('str', 'sv'):
        return sval(t[1], env)
    if k == 'size':
        return len(sval(t[1], env))
    if k == 'empty':
        return sval(t[1], env) == ''
    if k == 'not':
        return not sval(t[1], env)
    if k == 'op':
        a = sval(t[2], env)
        b = sval(t[3], env) if len(t) > 3 else None
        o = t[1]
        if o == '!=0':
            return a != 0
        if o in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, str) != isinstance(b, str):
                raise Unknown(show(t))
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
        if o in ('+', '-') and not isinstance(a, str):
            return (a + b if o == '+' else a - b) % 2 ** 64
        if o == '&&':
            return bool(a and b)
        if o == '||':
            return bool(a or b)
        raise Unknown(show(t))
    if k == 'call':
        n = t[1].split('::')[-1]
        a = [sval(x, env) for x in t[2]]
        NP = 2 ** 64 - 1
        def ch(x):
            return chr(x) if isinstance(x, int) else x
        if n in ('find', 'find_first_of') and len(a) >= 2 and len(ch(a[1])) == 1:
            r = a[0].find(ch(a[1]), a[2] if len(a) > 2 else 0)
            return NP if r < 0 else r
        if n == 'find' and len(a) >= 2:
            r = a[0].find(a[1], a[2] if len(a) > 2 else 0)
            return NP if r < 0 else r
        if n in ('rfind', 'find_last_of') and len(a) >= 2 and len(ch(a[1])) == 1:
            r = a[0].rfind(ch(a[1]))
            return NP if r < 0 else r
        if n == 'substr':
            pos = a[1] if len(a) > 1 else 0
            if pos > len(a[0]):
                raise Range('substr')
            return a[0][pos:pos + a[2]] if len(a) > 2 else a[0][pos:]
        if n == 'compare':
            s = a[0]
            if len(a) == 2:
                x, y = s, a[1]
            elif len(a) == 4:
                if a[1] > len(s):
                    raise Range('compare')
                x, y = s[a[1]:a[1] + a[2]], a[3]
            elif len(a) in (5, 6):
                if a[1] > len(s) or a[4] > len(a[3]):
                    raise Range('compare')
                x = s[a[1]:a[1] + a[2]]
                y = a[3][a[4]:] if len(a) == 5 else a[3][a[4]:a[4] + a[5]]
            else:
                raise Unknown(show(t))
            return (x > y) - (x < y)
        if n in ('min', 'max'):
            return min(a) if n == 'min' else max(a)
    raise Unknown(show(t)[:80])


PAIRS = [(m, n) for m in ('foo()', 'foo(int)', 'foo(int, bar(long))', 'f(x)') for n in
         {'', m, m[:m.index('(')], m[:m.index('(')] + '(', m[:m.index('(') - 1], m[:-1], m + 'x', m[:m.index('(')] + 'x', m[:m.index('(')] + 'x' * 12, 'z' + m[1:], m[0] * len(m[:m.index('(')]) + '!',
          m[:m.index('(')] + '!' + m[m.index('(') + 1:], m[:-1] + '!', m[:m.index('(') + 1] + '~', '(', m[m.index('('):], m[:m.index('(') - 1] + '(' + m[m.index('(') + 1:]}] + \
    [('bar', n) for n in ('', 'bar', 'ba', 'barx', 'baz', 'bar(', 'bar()')]


def matching(ctx, p):
    key = 'name matching'
    fs = [f for f in p.fn('rtti::MetaContainerPrivate::findMethod') if f.body is not None]
    if not fs:
        ctx.undecided(key, '', 'findMethod not found')
        return
    f = fs[0]
    name = next(param(f, i) for i, x in enumerate(f.params) if 'string_view' in x['t'])
    cat = next((param(f, i) for i, x in enumerate(f.params) if 'string_view' not in x['t']), None)
    ps = ctx.explore(f, **opts(p))
    decided = 0
    for m, n in PAIRS:
        want = n == m or '(' in m and n == m[:m.index('(')]
        for q in ps or ():
            if q.ctl not in ('return', 'loopback'):
                continue
            els = [e for e in visited(q) if cat is None or e[2] != cat]
            if not els:
                continue
            last = els[-1]
            try:
                if not feasible(q, name, last, m, n):
                    continue
            except Range as x:
                if n:
                    ctx.bad(key, f.where(), 'looking for "%s" beside "%s" throws out_of_range (%s)' % (n, m, x))
                    return
                continue
            except Unknown as x:
                ctx.undecided(key, f.where(), 'condition not recognised: %s' % x)
                return
            ret = entry(q.val) if q.ctl == 'return' and q.val is not None and q.val != NULL else None
            hit = ret is not None and ret == last
            if ret is not None and ret != last:
                continue
            decided += 1
            if cat is not None and not contains(last[1], cat):
                ctx.bad(key + ' in the own list', f.where(), 'searches ' + show(last[1]))
                return
            if not n:
                continue          # an empty name never reaches the list
            if hit != want:
                ctx.bad(key, f.where(), '"%s" %s "%s": %s' % (n, 'matches' if hit else 'does not match', m, path_desc(q)))
                return
        ctx.ok(key, f.where())
    if decided < len(PAIRS) and not ctx.undec:
        ctx.undecided(key, f.where(), 'only %d of %d pairs decided' % (decided, len(PAIRS)))
    ctx.counts['name pairs'] = decided


def visited(q):
    out = []
    for t in list(q.facts):
        for x in outer_elems(t):
            y = x
            if has_items(y) and y not in out:
                out.append(y)
    return out


def has_items(en):
    return en[1][0] == 'fld'


def feasible(q, name, en, m, n):
    env = {name: n}
    for k, v in q.facts.items():
        if not contains(k, en):
            if any(x == name for x in subterms(k)) and not outer_elems(k):
                if bool(sval(k, env)) != v:
                    return False
            continue
        if k[0] in ('more',):
            continue
        if k[0] == 'op' and k[1] == '!=0' and k[2][0] == 'init' and not contains(k, name) and 'm_name' not in show(k):
            continue          # the entry exists
        e2 = dict(env)
        for x in subterms(k):
            if isinstance(x, tuple) and x and x[0] == 'init' and x[1][0] == 'fld' and contains(x, en) and x[1][2] not in ('d_ptr',):
                e2[x] = m
        if bool(sval(k, e2)) != v:
            return False
    return True
