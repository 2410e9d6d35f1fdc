"""Equality of variants.  variant == variant is decided by constant propagation for every pair of a finite domain of stored types (empty,
values, pointers up to depth 2 with every combination of const, arrays of two lengths; of the same or of another decayed type): the path
for that pair has to end in the constant the property asks for, or in exactly one call of the comparison stored with one of the two
types, applied to the two stored values.  The comparisons with values are checked on every path of every instantiation: a variant that
refers to the value is compared, a conversion only adds the comparison of a buffer that a successful conversion has filled with the value
of the other side, and the negated forms negate."""
from ..registry import *
from ..interp import Interp, Opts
from .. import vtable as vt
from . import c12, c14
from .c16 import D, Compat, must_reject, const

EQ = 'rtti::variant::operator=='


def run(ctx):
    p = ctx.load('equal.cpp', 'flags.cpp', 'access.cpp')
    variants(ctx, p)
    values(ctx, p)
    negated(ctx, p)
    conversion(ctx, p)
    c12.compared(ctx, ctx.load('stored.cpp'))
    c14.exact(ctx, 'f_compare_eq')


# --- variant == variant ------------------------------------------------------------------------------------------------------------

def domain(thorough):
    out = [None]
    for a in range(4 if thorough else 3):
        for m in range(1 << (a + 1)):
            out.append(('A', D(a, m, 0)))
    for n in (2, 3):
        for m in range(2):
            out.append(('A', D(0, m, 0, n)))
    out += [('B', D(0, 0, 0)), ('B', D(0, 1, 0)), ('B', D(1, 0, 0)), ('B', D(0, 0, 0, 2))]
    return out


def name(s):
    return 'void' if s is None else '%s:%s' % (s[0], s[1])


class Scene:
    """Answers of the type table and of the type descriptors for one pair of stored types."""
    def __init__(self, p, attrs, comp, cache, left, right):
        self.p, self.attrs, self.comp, self.cache, self.odd = p, attrs, comp, cache, []
        self.stored = {name(left): left, name(right): right}
        self.ids = {}

    def tid(self, s, attr):
        if s is None:
            n = 'void'
            self.ids[n] = None
            return ('typeid', n)
        fam, d = s
        form = self.attrs.get(attr)
        if form is None:
            self.odd.append('attribute %s' % attr)
            form = ''
        mask = d.mask
        if form == 'const &':
            mask |= 1 << d.arity
        elif form == '':
            mask = mask & ~(1 << d.arity) if not d.length else mask
        e = (fam, D(d.arity, mask, {'': 0, '&': 1, 'const &': 1, '&&': 2}[form], d.length))
        self.ids[name(e)] = e
        return ('typeid', name(e))

    def icall(self, it, e, f, args, dest):
        t = vt.table(self.p)
        s = t.slot_of(f)
        if s is None:
            return NotImplemented
        role, M = s
        tab = M[1] if M[0] == 'deref' else ('addr', M)
        if role == 'type' and tab[0] == 'addr' and tab[1][0] == 'glob' and tab[1][1][:6] == 'table:':
            k = const(args[0])
            if k is None:
                self.odd.append('attribute of the stored type not constant')
                k = 0
            return self.tid(self.stored[tab[1][1][6:]], k)
        ev = it.event('slot', 'slot:' + role, args, obj=tab, node=e, role=role)
        if e.get('t') == 'void':
            return None
        ev.res = ('call', 'slot:' + role, (tab,) + tuple(args), e.get('t'))
        return it.ret_value(e, ev.res, dest)

    def of(self, it, x):
        t = vt.mt(it, x)
        if t[0] == 'typeid' and t[1] in self.ids:
            return self.ids[t[1]]
        self.odd.append('type identifier %s' % show(t)[:60])
        return None

    def hooks(self):
        out = dict(vt.hooks(self.p))
        out.update(vt.metatype_hooks(self.p))
        MT = vt.MT

        def one(fn):
            def h(it, e, obj, args):
                return fn(self.of(it, ('addr', obj) if obj is not None else args[0]))
            return h

        def b(x):
            return ('c', 1 if x else 0)

        def compatible(it, e, obj, args):
            x, y = self.of(it, args[0]), self.of(it, args[1])
            if x is None or y is None:
                self.odd.append('compatibility of void')
                return b(x is y)
            key = (str(x[1]), str(y[1]))
            if key not in self.cache:
                self.cache[key] = self.comp.answer(x[1], y[1])
            v, why = self.cache[key]
            if v is None:
                self.odd.append('compatibility of %s' % (key,))
            return b(v)

        def decay(s):
            return ('typeid', 'decay:' + ('void' if s is None else s[0]))

        def size(s):
            d = s[1]
            return ('c', 4 * d.length if d.length else 8 if d.arity else 4)
        out[MT + 'compatible'] = compatible
        out[MT + 'decayId'] = one(decay)
        for n, fn in (('isArray', lambda s: b(s is not None and s[1].length)), ('isPointer', lambda s: b(s is not None and s[1].arity)),
                      ('isConst', lambda s: b(s is not None and s[1].const(s[1].arity))), ('isLvalueReference', lambda s: b(s is not None and s[1].ref == 1)),
                      ('isRvalueReference', lambda s: b(s is not None and s[1].ref == 2)), ('isReference', lambda s: b(s is not None and s[1].ref)),
                      ('pointerArity', lambda s: ('c', 0 if s is None else s[1].arity)), ('typeSize', lambda s: ('c', 0) if s is None else size(s)),
                      ('valid', lambda s: b(True))):
            if MT + n in out:
                out[MT + n] = one(fn)
        return out


def variants(ctx, p):
    fs = [f for f in ctx.fns(EQ) if len(f.params) == 1 and not f.ta and 'rtti::variant' in f.params[0]['t'] and f.body is not None]
    if len(fs) != 1:
        ctx.undecided('variant == variant', '', 'operator== of two variants not found')
        return
    f = fs[0]
    comp = Compat(ctx, p)
    if not comp.known:
        return
    attrs = vt.attributes(ctx)
    t = vt.table(p)
    cache, bad, n, und, calls = {}, {}, 0, 0, 0
    dom = domain(ctx.tier != 'quick')
    L, R = ('glob', 'left'), ('glob', 'right')
    pn = f.params[0]['n'] or 'arg0'

    def explore(l, r, alias):
        sc = Scene(p, attrs, comp, cache, l, r)

        def setup(it, fr):
            it.mem[('var', pn, 0)] = ('addr', L if alias else R)
            it.mem[t.manager(L)] = ('addr', ('glob', 'table:' + name(l)))
            it.mem[t.manager(R)] = ('addr', ('glob', 'table:' + name(r)))
        o = dict(stop=set(DEFER_SET), nonnull_elems=True, hooks=sc.hooks(), hook_icall=sc.icall)
        try:
            return sc, Interp(p, Opts(**o)).explore(f, this=L, setup=setup)
        except TooBig:
            return sc, None

    for l in dom:
        for r in dom:
            if l is not None and r is not None and l[0] == 'B' and r[0] == 'B' and l is not r:
                continue
            for alias in ((False, True) if l is r else (False,)):
                n += 1
                sc, ps = explore(l, r, alias)
                if ps is None or sc.odd or len(ps) != 1 or ps[0].ctl != 'return':
                    und += 1
                    if und < 4:
                        ctx.undecided('%s == %s' % (name(l), name(r)), f.where(), 'no single decided path: ' + (
                            'too many' if ps is None else str(sc.odd[:1] or [(q.ctl, [show(k)[:80] for k in q.facts][:2]) for q in ps[:3]])))
                    continue
                q = ps[0]
                why, kind = judge(q, t, l, r, alias, L, R)
                calls += sum(e.kind == 'slot' and e.x['role'] == 'compare' for e in q.events)
                if why:
                    bad.setdefault(kind, []).append((l, r, why))
    ctx.counts['pairs of stored types'] = n
    ctx.counts['comparisons of stored values'] = calls
    for kind in sorted(bad):
        l, r, why = bad[kind][0]
        ctx.bad('variant == variant: ' + kind, f.where(), 'a variant of %s and one of %s%s: %s (and %d more pairs)' % (
            name(l), name(r), '', why, len(bad[kind]) - 1))
    if not und:
        for kind in ('empty', 'decayed type', 'constness', 'array', 'stored values', 'same type', 'itself'):
            if kind not in bad:
                ctx.ok('variant == variant: ' + kind, f.where())


def judge(q, t, l, r, alias, L, R):
    v = const(q.val) if q.val is not None else None
    cmps = [e for e in q.events if e.kind == 'slot' and e.x['role'] == 'compare']
    if alias:
        if v == 0:
            return 'a variant is not equal to itself', 'itself'
        if v is not None:
            return None, None
        R = L
    if l is None or r is None:
        want = l is None and r is None
        if v is None or bool(v) != want:
            return 'answers %s, expected %s' % (show(q.val)[:80], want), 'empty'
        return None, None
    if v is not None and v:
        return 'answers true without comparing the values', 'stored values'
    same = l[0] == r[0]
    dl, dr = l[1], r[1]
    if v is None:
        if len(cmps) != 1 or not is_res(q.val, cmps[0]):
            return 'the answer is %s, not the comparison of the stored values' % show(q.val)[:100], 'stored values'
        if not same:
            return 'compares values of different decayed types', 'decayed type'
        e = cmps[0]
        own = {('addr', ('glob', 'table:' + name(l))): 'l', ('addr', ('glob', 'table:' + name(r))): 'r'}
        tab = e.obj
        sides = []
        if tab == ('addr', ('glob', 'table:' + name(l))):
            sides.append((L, R, dl, dr, l, r))
        if tab == ('addr', ('glob', 'table:' + name(r))):
            sides.append((R, L, dr, dl, r, l))
        why = 'the comparison stored with %s is called' % show(tab)[:60]
        for A, B, da, db, a, b in sides:
            if e.args[0] != ('addr', t.storage(A)):
                why = 'the comparison of one type is applied to the storage of the other variant'
                continue
            acc = ('call', 'slot:access', (('addr', ('glob', 'table:' + name(b))), ('addr', t.storage(B))))
            got = e.args[1]
            deref = 0
            while got[0] == 'init' and got[1][0] == 'deref':
                got, deref = got[1][1], deref + 1
            while got[0] == 'op' and got[1] in ('cast', 'conv'):
                got = got[2]
            if got[:3] != acc:
                why = 'the value is compared with %s, which is not the value of the other variant' % show(e.args[1])[:100]
                continue
            if bool(da.length) and da.length != db.length:
                return 'compares an array with something that is not an array of that length', 'array'
            if deref != (1 if da.length else 0):
                return ('reads the elements of an array as a pointer' if not deref else 'reads the value as a pointer'), 'array'
            fr, to = D(db.arity, db.mask | 1 << db.arity, 1, db.length), D(da.arity, da.mask | 1 << da.arity, 1, da.length)
            w1, w2 = must_reject(fr, to), must_reject(to, fr)
            if w1 and w2:
                return 'compares values of types that are not compatible: ' + w1, 'constness'
            return None, None
        return why, 'stored values'
    # false without looking at the values
    if same and (dl.arity, dl.length) == (dr.arity, dr.length) and dl.mask | 1 << dl.arity == dr.mask | 1 << dr.arity:
        return 'answers false without comparing two values of the same type', 'same type'
    return None, None


def is_res(v, e):
    while v is not None and v[0] == 'op' and v[1] in ('cast', 'conv'):
        v = v[2]
    return v == e.res


# --- variant == value --------------------------------------------------------------------------------------------------------------

def made_of(q, p, loc, value, T):
    """Is the variant at loc made of the value (or of a reference to it)?"""
    t = vt.table(p)
    made = [e for e in q.events if e.kind == 'slot' and e.x['role'] in ('copy_construct', 'move_construct') and e.args[1] == ('addr', t.storage(loc))]
    if len(made) != 1:
        return 'is not made by one construction'
    e = made[0]
    tab = e.obj[1][1][6:] if e.obj[0] == 'addr' and e.obj[1][0] == 'glob' and str(e.obj[1][1]).startswith('table:') else None
    if tab is None:
        return 'has an unknown type'
    if tab.startswith('std::reference_wrapper<'):
        refs = [c for c in q.events if c.kind == 'call' and c.n in ('std::cref', 'std::ref') and c.i < e.i]
        refs += [c for c in q.events if c.kind == 'ctor' and (c.x.get('cls') or '').startswith('std::reference_wrapper<') and not c.x.get('copy') and not c.x.get('move') and c.i < e.i]
        if not any(same_value(a, value) for c in refs for a in c.args):
            return 'does not refer to the value'
        return None
    if not same_value(e.args[0], value):
        return 'is made of something else'
    if e.x['role'] == 'move_construct':
        return 'is moved out of the value'
    return None


def same_value(a, value):
    return a == ('addr', value) or a == value[1] if value[0] == 'deref' else a == ('addr', value)


def value_loc(f):
    q = f.params[0]
    n = q['n'] or 'arg0'
    return ('deref', ('init', ('var', n, 0))) if q['t'].endswith('&') or '(&)' in q['t'] else ('var', n, 0)


def negation(v):
    """(inner, negated) of a returned truth value."""
    neg = False
    for _ in range(10):
        if v[0] == 'not':
            v, neg = v[1], not neg
        elif v[0] == 'op' and v[1] in ('!', 'not'):
            v, neg = v[2], not neg
        elif v[0] == 'op' and v[1] in ('cast', 'conv'):
            v = v[2]
        elif v[0] == 'op' and v[1] in ('==', '!=', '!=0') and v[3] == ('c', 0):
            v, neg = v[2], neg != (v[1] == '==')
        else:
            break
    return v, neg


def answers(q, e):
    """Sign of e's result in the answer of the path: 1 same, -1 negated, 0 neither, None unknown."""
    v, neg = negation(q.val)
    if e.res is not None and v == e.res:
        return -1 if neg else 1
    c = const(q.val)
    if c is None:
        return 0
    for k, val in q.facts.items():
        x, n2 = negation(k)
        if x == e.res:
            return 1 if (bool(val) != n2) == bool(c) else -1
    return 0


def values(ctx, p):
    n = 0
    for f in ctx.fns(EQ):
        if not f.ta or f.body is None or len(f.params) != 1:
            continue
        T = f.ta[0]
        key = 'variant == ' + T
        with ctx.guard(key, f.where()):
            ps = vt.summaries(ctx, f, EQ)
            if ps is None:
                continue
            n += 1
            ok = True
            for q in ps:
                if q.ctl != 'return':
                    continue
                cs = [e for e in q.events if e.kind == 'call' and e.n == EQ]
                if len(cs) != 1:
                    ok = False
                    ctx.undecided(key, f.where(), 'not one comparison of two variants: %d' % len(cs))
                    break
                e = cs[0]
                args = ([e.obj] if e.obj else []) + [a[1] if a[0] == 'addr' else ('deref', a) for a in e.args]
                mine = [a for a in args if a == THIS or a == ('deref', ('init', ('var', 'this', 0)))]
                other = [a for a in args if a not in mine]
                if answers(q, e) != 1:
                    ok = False
                    ctx.bad(key, f.where(), 'answers %s, not the comparison of the variants' % show(q.val)[:100])
                elif len(mine) != 1 or len(other) != 1:
                    ok = False
                    ctx.bad(key, f.where(), 'compares %s' % ', '.join(show(a)[:60] for a in args))
                else:
                    why = made_of(q, p, other[0], value_loc(f), T)
                    if why:
                        ok = False
                        ctx.bad(key, f.where(), 'the variant compared with ' + why)
            if ok:
                ctx.ok(key, f.where())
    ctx.counts['comparisons with values'] = n
    if not n:
        raise Broken('no comparison of a variant with a value')


def negated(ctx, p):
    for bn, pos in (('rtti::variant::operator!=', EQ), ('rtti::variant::neq', 'rtti::variant::eq')):
        for f in ctx.fns(bn):
            if f.body is None or len(f.params) != 1:
                continue
            key = '%s %s' % (bn.split('::')[-1], f.ta[0] if f.ta else '')
            with ctx.guard(key, f.where()):
                ps = vt.summaries(ctx, f, pos)
                ok = True
                for q in ps or ():
                    if q.ctl != 'return':
                        continue
                    cs = [e for e in q.events if e.kind == 'call' and e.n == pos]
                    if len(cs) != 1 or answers(q, cs[0]) != -1:
                        ok = False
                        ctx.bad(key, f.where(), 'answers %s, not the negation of one comparison' % show(q.val)[:100])
                        break
                    e = cs[0]
                    v = value_loc(f)
                    if e.obj is None or e.obj not in (THIS, ('deref', ('init', ('var', 'this', 0)))) or not any(same_value(a, v) for a in e.args):
                        ok = False
                        ctx.bad(key, f.where(), 'compares something else than the variant and the value')
                        break
                if ok:
                    ctx.ok(key, f.where())


# --- comparison with conversion ----------------------------------------------------------------------------------------------------

def conversion(ctx, p):
    n = 0
    for f in ctx.fns('rtti::variant::eq'):
        if f.body is None or len(f.params) != 1 or not f.ta:
            continue
        T = f.ta[0]
        key = 'eq ' + T
        n += 1
        with ctx.guard(key, f.where()):
            ps = vt.summaries(ctx, f, EQ)
            if ps is None:
                continue
            bad = None
            m = 0
            for q in ps:
                if q.ctl != 'return' or not feasible(q, T):
                    continue
                m += 1
                why = eq_path(q, p, f, T)
                if why and why[0] == '?':
                    ctx.undecided(key, f.where(), why[1:])
                    bad = ''
                    break
                if why:
                    bad = why
                    ctx.bad(key, f.where(), why)
                    break
            if bad is None:
                ctx.ok(key, f.where(), '%d paths' % m)
    ctx.counts['comparisons with conversion'] = n
    if not n:
        raise Broken('no comparison with conversion')


def is_array(T):
    return T.endswith(']')


def feasible(q, T):
    for k, v in q.facts.items():
        x, neg = negation(k)
        if x[0] == 'call' and x[1] == vt.MT + 'isArray' and x[2][0] == ('typeid', T) and (bool(v) != neg) != is_array(T):
            return False
    return True


def fact(q, term):
    for k, v in q.facts.items():
        x, neg = negation(k)
        if x == term:
            return bool(v) != neg
    return None


def eq_path(q, p, f, T):
    t = vt.table(p)
    value = value_loc(f)
    this = THIS if any(e.obj == THIS for e in q.events) else ('deref', ('init', ('var', 'this', 0)))
    cs = [e for e in q.events if e.kind == 'call' and e.n == EQ]
    if len(cs) != 1:
        return 'compares the variants %d times' % len(cs) if T == 'rtti::variant' or len(cs) > 1 else '?no plain comparison on a path'
    e = cs[0]
    args = ([e.obj] if e.obj else []) + [a[1] if a[0] == 'addr' else ('deref', a) for a in e.args]
    other = [a for a in args if a != this]
    if len(other) != 1 or len(args) != 2:
        return 'compares %s' % ', '.join(show(a)[:60] for a in args)
    if T == 'rtti::variant':
        if other[0] != value or answers(q, e) != 1:
            return 'does not answer what comparing the two variants answers'
        return None
    why = made_of(q, p, other[0], value, T)
    if why:
        return 'the variant compared with ' + why
    equal = fact(q, e.res)
    direct = negation(q.val) == (e.res, False)
    has = [x for x in q.events if x.kind == 'mt' and x.x.get('op') == 'hasConverter']
    cvs = [x for x in q.events if x.kind == 'mt' and x.x.get('op') == 'convert']
    c = const(q.val)
    if equal:
        if c != 1 and not direct:
            return 'equal values do not compare equal: answers ' + show(q.val)[:80]
        return None
    if direct and not cvs:
        return 'no conversion is tried'
    if equal is None and not direct:
        return 'the answer does not depend on the plain comparison'
    self_t = lambda x: x[0] == 'call' and x[1] == 'slot:type' and x[2][0] == ('init', t.manager(this))
    val_t = lambda x: x == ('typeid', T)
    good = []
    for x in cvs:
        src, frm, buf, to = x.args
        if self_t(frm) and val_t(to):
            acc = src[0] == 'call' and src[1] == 'slot:access' and src[2] == (('init', t.manager(this)), ('addr', t.storage(this)))
            if not acc:
                return 'converts %s instead of the stored value' % show(src)[:80]
            counter = 'value'
        elif val_t(frm) and self_t(to):
            if is_array(T):
                loc = src[1] if src[0] == 'addr' else None
                held = q.mem.get(loc) if loc else None
                if held is None or not addr_of(held, value):
                    return 'converts %s; an array is given by the address of a pointer to it' % show(src)[:80]
            elif not addr_of(src, value):
                return 'converts %s instead of the value' % show(src)[:80]
            counter = 'self'
        else:
            return 'converts from %s to %s' % (show(frm)[:50], show(to)[:50])
        r = fact(q, x.res)
        if r is None:
            return 'goes on without asking whether the conversion has succeeded'
        if r:
            good.append((x, bufs(buf) | {('made', x.i)}, counter))
    if c == 0 and not good:
        for frm, to, nm in ((self_t, val_t, 'from the stored type to ' + T), (val_t, self_t, 'from %s to the stored type' % T)):
            if to is val_t and is_array(T):
                continue
            asked = [x for x in has if frm(x.args[0]) and to(x.args[1])]
            tried = [x for x in cvs if frm(x.args[1]) and to(x.args[3])]
            if tried or any(fact(q, x.res) is False for x in asked):
                continue
            if to is self_t and any(negation(k)[0][:2] == ('call', vt.MT + 'isArray') and self_t(negation(k)[0][2][0]) and bool(v) != negation(k)[1] for k, v in q.facts.items()):
                continue
            return 'a conversion %s is not tried' % nm
        return None
    if not good:
        return 'answers %s without a successful conversion' % show(q.val)[:80]
    cand = [q.val] if c is None else [k for k, v in q.facts.items()]
    for x, buf, counter in good:
        for v in cand:
            a = involves(v, buf)
            b = involves(v, {value, ('addr', value), value[1] if value[0] == 'deref' else value}) if counter == 'value' else has_access(v, t, this)
            if a and b:
                for y in q.events:
                    if y.kind == 'mt' and y.x.get('op') == 'compare_eq' and y.res is not None and involves(v, {y.res}) and not (val_t if counter == 'value' else self_t)(y.args[0]):
                        return 'compares with the equality of another type'
                if c is not None:
                    xx, neg = negation(v)
                    if (bool(q.facts[v]) != neg) != bool(c):
                        return 'answers the opposite of the comparison'
                else:
                    xx, neg = negation(q.val)
                    if neg or xx[0] == 'op' and xx[1] == '!=':
                        return 'answers the opposite of the comparison'
                return None
    if c == 0:
        return None
    return 'answers %s, not the comparison of the converted value' % show(q.val)[:100]


def addr_of(a, value):
    return same_value(a, value)


def bufs(b):
    out = {b}
    if b[0] == 'addr':
        out.add(b[1])
    return out


def involves(v, what):
    if v in what:
        return True
    return isinstance(v, tuple) and any(involves(x, what) for x in v if isinstance(x, tuple))


def has_access(v, t, this):
    if not isinstance(v, tuple):
        return False
    if v[:2] == ('call', 'slot:access') and v[2] == (('init', t.manager(this)), ('addr', t.storage(this))):
        return True
    return any(has_access(x, t, this) for x in v if isinstance(x, tuple))
