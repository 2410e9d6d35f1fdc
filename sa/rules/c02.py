"""For every witness instantiation of the type registration, the arguments registered (size, pointer depth, constness mask,
flags, decayed type) are compared with values computed independently from standard traits; both sides are constants of the
typed AST. Every predicate is evaluated by constant propagation over the flags and depth of each witness type and compared with the
language."""
from ..registry import *

PRED = ('isConst', 'isLvalueReference', 'isRvalueReference', 'isReference', 'isClass', 'isPointer', 'isVoidPtr', 'isClassPtr', 'isFunctionPtr', 'isArray')
FLAGS = ('Const', 'Pointer', 'MemberPointer', 'LvalueReference', 'RvalueReference', 'Array', 'Void', 'Integral', 'FloatPoint', 'Enum',
         'Function', 'Union', 'Class', 'StandardLayout', 'Trivial', 'Abstract', 'Polymorphic', 'DefaultConstructible', 'CopyConstructible',
         'CopyAssignable', 'MoveConstructible', 'MoveAssignable', 'Destructible', 'EQ_Comparable')
WHAT = {1: 'size', 3: 'pointer depth', 4: 'constness mask', 5: 'flags'}


def run(ctx):
    p = ctx.load('types.cpp')
    probes = [f for f in p.fn('w::probe') if f.body is not None]
    if len(probes) < 100:
        raise Broken('only %d witness types' % len(probes))
    kinds = {}
    n = 0
    for f in probes:
        n += probe(ctx, p, f, kinds)
    ctx.counts['types'] = n
    if n < 100 and not ctx.undec:
        raise Broken('only %d witness registrations recognised' % n)
    predicates(ctx, p, kinds)


def const(v):
    while v is not None and v[0] == 'op' and v[1] in ('cast', 'conv'):
        v = v[2]
    return v[1] if v is not None and v[0] == 'c' else None


def named_type(p, e):
    f = p.funcs.get(e.get('f'))
    return ('s', 'name of ' + f.ta[0]) if f is not None and f.ta else NotImplemented


def probe(ctx, p, f, kinds):
    T = f.ta[0]
    ps = ctx.explore(f, hooks={'rtti::type_name': lambda it, e, obj, args: named_type(p, e)}, **opts(p, 'rtti::MetaType::registerMetaType'))
    done = 0
    for q in ps or ():
        if q.ctl != 'return':
            ctx.undecided(T, f.where(), 'ends in ' + q.ctl)
            continue
        regs = {e.args[0][1][8:]: e for e in q.events if e.kind == 'call' and e.n.endswith('registerMetaType') and e.args and e.args[0][0] == 's'}
        ex = [e for e in q.events if e.kind == 'call' and e.n == 'w::expect']
        ep = [e for e in q.events if e.kind == 'call' and e.n == 'w::expect_predicates']
        ed = [e.x['callee'] for e in q.events if e.kind == 'enter' and e.n == 'w::expect_decay']
        r = regs.get(T)
        if r is None or not ex or not ed:
            ctx.undecided(T, f.where(), 'registration of the type not found')
            continue
        want = [None, ex[0].args[0], None, ex[0].args[1], ex[0].args[2], ex[0].args[3]]
        for i, what in WHAT.items():
            a, b = const(r.args[i]), const(want[i])
            if a is None:
                ctx.undecided('%s of %s' % (what, T), r.where(), 'not a constant: %s' % show(r.args[i]))
            elif a != b:
                if what == 'flags':
                    d = ', '.join(('missing ' if b >> k & 1 else 'wrong ') + FLAGS[k] for k in range(24) if (a ^ b) >> k & 1)
                    ctx.bad('flags of %s' % T, r.where(), 'flags registered differ from the language: %s' % d)
                else:
                    ctx.bad('%s of %s' % (what, T), r.where(), 'registered %s is %s, the type has %s' % (what, a, b))
            else:
                ctx.ok('%s of %s' % (what, T), r.where())
        decay(ctx, p, T, r, ed[0].ta[0], regs)
        if ep and None not in (const(r.args[5]), const(r.args[3])):
            kinds[T] = (const(ex[0].args[3]), const(ex[0].args[1]), const(ep[0].args[0]), const(ep[0].args[1]))
        done = 1
    return done


def decay(ctx, p, T, r, D, regs):
    a = r.args[2]
    key = 'decayed type of %s' % T
    names = {x[1][8:] for x in subterms(a) if x and x[0] == 's' and str(x[1]).startswith('name of ')} if a is not None else set()
    v = a[2][0][1] if a is not None and a[0] == 'rec' and a[2] else a
    if not names:
        if v in (('c', 0), NULL):
            ctx.req(T == D, key, r.where(), 'registered as its own decay instead of %s' % D)
        else:
            ctx.undecided(key, r.where(), 'decay argument %s' % show(a))
        return
    # the outermost registration named by the argument
    for t in subterms(a):
        if t and t[0] == 'call' and t[1].endswith('registerMetaType') and t[2][0][0] == 's':
            got = t[2][0][1][8:]
            ctx.req(got == D, key, r.where(), 'decays to %s instead of %s' % (got, D))
            return
    ctx.undecided(key, r.where(), 'decay argument %s' % show(a))


def predicates(ctx, p, kinds):
    tf = ctx.fns('rtti::MetaType::typeFlags')[0]
    ar = ctx.fns('rtti::MetaType::pointerArity')[0]
    todo = {}
    for T, (fl, n, want, care) in kinds.items():
        todo.setdefault((fl, n, want, care), []).append(T)
    for i, name in enumerate(PRED):
        fs = [f for f in p.fn('rtti::MetaType::' + name) if f.body is not None]
        if not fs:
            raise Broken('anchor vanished: MetaType::' + name)
        f = fs[0]
        memo = {}
        for (fl, n, want, care), Ts in todo.items():
            if not care >> i & 1:
                continue
            if (fl, n) not in memo:
                hooks = {tf.bn: lambda it, e, obj, args, v=fl: ('c', v), ar.bn: lambda it, e, obj, args, v=n: ('c', v)}
                ps = ctx.explore(f, hooks=hooks, **opts(p))
                if ps is None:
                    break
                rs = {const(truthval(q)) for q in ps if q.ctl == 'return'}
                memo[fl, n] = rs
            rs = memo[fl, n]
            if len(rs) != 1 or None in rs:
                ctx.undecided('%s of %s' % (name, Ts[0]), f.where(), 'value not determined by flags and depth')
                continue
            got = bool(rs.copy().pop())
            exp = bool(want >> i & 1)
            ctx.req(got == exp, '%s of %s' % (name, Ts[0]), f.where(), '%s() is %s for %s' % (name, str(got).lower(), Ts[0]))
    ctx.counts['predicates'] = len(PRED)


def truthval(q):
    v = q.val
    if v is None:
        return None
    if v[0] == 'c':
        return v
    r = q.it.holds(v, q.facts)
    return None if r is None else ('c', int(r))
