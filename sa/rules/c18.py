"""Every instantiation of the method and constructor invokers for a witness class covering all forms of targets (0..10 parameters,
static / member / const member, values, references, results by value, reference and void) is summarised path by path.  Every path that
reads an argument or reaches the target must have established that exactly as many arguments as parameters are present, must reach the
target exactly once, pass argument i read as the i-th parameter type, run it on the given instance (an object of it when the variant
holds one, the object pointed to when it holds a pointer) and hand out the target's result in its own form; every other path must throw
the documented exception.  The forwarding layers (MetaMethod, MetaConstructor, variant::invoke) must pass the instance and each
argument in order and in its value category to exactly one invocation and throw when there is nothing to invoke."""
from ..invoke import *

IM = 'rtti::IMethodInvoker'
ERR = 'rtti::runtime_error'


def run(ctx):
    p = ctx.load('invoke.cpp')
    n = {'member': 0, 'static': 0, 'ctor': 0}
    for op in ('invoke_static', 'invoke_method'):
        for f in impls(p, IM, op):
            target(ctx, p, f, op, n)
    ctx.counts.update({'%s targets' % k: v for k, v in n.items()})
    if not all(n.values()) and not ctx.undec and all(o[1] for o in ctx.obl):
        raise Broken('invokers not recognised: %s' % n)
    kinds(ctx, p)
    forward(ctx, p)
    constructor(ctx, p)
    byname(ctx, p)


def label(f):
    return re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'std::string', f.cls.replace('rtti::internal::', ''))


def signature(p, f):
    """(kind, Sig or (class, argument types)) of an invoker class."""
    ta = targs(f.cls)
    if p.derives(f.cls, 'rtti::IConstructorInvoker'):
        return 'ctor', (ta[0], ta[1:])
    try:
        s = Sig(ta[0])
    except (ValueError, IndexError):
        return None, None
    return ('member' if s.cls else 'static'), s


def given(q, f, skip):
    """(number of leading arguments known present, the next one known absent) on a path."""
    names = [x['n'] for x in f.params][skip:]
    n = 0
    while n < len(names) and truth(q, ('call', 'rtti::argument::empty', (('param', names[n]),), 'bool')) is False:
        n += 1
    end = n == len(names) or truth(q, ('call', 'rtti::argument::empty', (('param', names[n]),), 'bool')) is True
    return n, end, names


def target(ctx, p, f, op, n):
    kind, s = signature(p, f)
    key = label(f)
    where = f.where()
    if kind is None:
        ctx.undecided(key, where, 'target of the invoker not recognised')
        return
    skip = 0 if op == 'invoke_static' else 1
    fits = (kind != 'member') == (op == 'invoke_static')
    constinst = skip and f.params[0]['t'].startswith('const ')
    key += ' ' + op + (' const' if constinst else '')
    ps = summaries(ctx, f, 'rtti::variant::ref', 'rtti::variant::to', 'rtti::variant::cref', 'rtti::variant::data')
    if ps is None:
        return
    if not fits:
        for q in ps:
            for e in calls(q) + [e for e in q.events if e.kind == 'argvalue']:
                ctx.bad(key + ': wrong form of call', e.where(), 'runs the target or reads an argument: ' + path_desc(q))
        return
    args = s[1] if kind == 'ctor' else s.args
    inst = ('deref', ('init', ('var', f.params[0]['n'], 0))) if skip else None
    n[kind] += 1
    reached = set()
    for q in ps:
        cnt, end, names = given(q, f, skip)
        run = targets(q, kind, s)
        reads = [e for e in q.events if e.kind == 'argvalue']
        if q.ctl not in ('return', 'throw'):
            (ctx.undecided if q.ctl == 'loopback' else ctx.bad)(key, where, 'ends in %s: %s' % (q.ctl, path_desc(q)))
            continue
        if any(s and s[0] in ('havoc', 'loc') for t in q.facts for s in subterms(t)):
            ctx.undecided(key + ': number of arguments', where, 'count of the arguments present not recognised')
            continue
        exact = cnt == len(args) and end
        differs = cnt > len(args) or end and cnt < len(args)
        if not exact and not differs:
            if not args and cnt == 0 and not end or run or reads:
                ctx.bad(key + ': number of arguments', where, 'reads arguments or runs the target without having established their number: ' + path_desc(q))
            elif q.ctl == 'throw' and q.val[0] == 'rtti::invoke_error':
                ctx.bad(key + ': number of arguments', where, 'throws invoke_error although the number of arguments may be right: ' + path_desc(q))
            continue
        if differs:
            if run or reads:
                ctx.bad(key + ': number of arguments', (run or reads)[0].where(), '%s with %d arguments instead of %d' % ('runs the target' if run else 'converts an argument', cnt, len(args)))
            elif q.ctl != 'throw' or not p.derives(q.val[0], 'rtti::invoke_error'):
                ctx.bad(key + ': number of arguments', where, '%d arguments instead of %d do not throw invoke_error (%s)' % (cnt, len(args), path_end(q)))
            else:
                ctx.ok(key + ': number of arguments', where)
            continue
        if q.ctl == 'throw' and p.derives(q.val[0], 'rtti::invoke_error'):
            ctx.bad(key + ': number of arguments', where, 'the right number of arguments throws invoke_error: ' + path_desc(q))
            continue
        if kind == 'member':
            if not member(ctx, p, f, q, s, inst, constinst, key, run, reached):
                continue
        if q.ctl == 'throw':
            if kind != 'member':
                ctx.bad(key, where, 'throws %s with the right number of arguments: %s' % (q.val[0], path_desc(q)))
            continue
        if len(run) != 1:
            ctx.bad(key + ': runs once', where, 'the target runs %d times: %s' % (len(run), path_desc(q)))
            continue
        ctx.ok(key + ': runs once', where)
        e = run[0]
        passed(ctx, key, q, e, args, names)
        result(ctx, p, key, f, q, e, kind, s)
        reached.add('run')
    if kind == 'member':
        want = {'object', 'pointer', 'neither'}
        if want - reached and not ctx.undec:
            ctx.undecided(key, where, 'no path for: ' + ', '.join(sorted(want - reached)))


def path_end(q):
    return 'returns' if q.ctl == 'return' else 'throws ' + q.val[0]


def targets(q, kind, s):
    """Events that run the target."""
    if kind != 'ctor':
        return calls(q)
    C = s[0]
    return [e for e in q.events if e.kind == 'ctor' and e.x.get('cls') == C and not e.x.get('threw') and own_construction(e)]


def own_construction(e):
    # copies and moves of the finished object into the variant are the business of variant
    return not ((e.x.get('copy') or e.x.get('move')) and not argvals(e.args))


def member(ctx, p, f, q, s, inst, constinst, key, run, reached):
    """Instance handling on a path with the right number of arguments; False: nothing more to check on it."""
    kinds = [(t, v) for t, v in q.facts.items() if t and t[0] in ('call', 'op', 'not')]
    isobj = known(q, 'rtti::MetaType::isClass')
    isptr = known(q, 'rtti::MetaType::isClassPtr')
    where = f.where()
    if isobj is True:
        reached.add('object')
        if constinst and not s.const:
            if run or q.ctl != 'throw':
                ctx.bad(key + ': const instance', where, 'a const object %s a method that is not const: %s' % ('runs' if run else 'silently ignores', path_desc(q)))
            elif not p.derives(q.val[0], ERR):
                ctx.bad(key + ': const instance', where, 'throws ' + q.val[0])
            else:
                ctx.ok(key + ': const instance', where)
            return False
        if q.ctl == 'throw' or not run:
            ctx.bad(key + ': object', where, 'an object of a class is not called (%s): %s' % (path_end(q), path_desc(q)))
            return False
    elif isptr is True:
        reached.add('pointer')
        if q.ctl == 'throw' or not run:
            ctx.bad(key + ': pointer', where, 'a pointer to an object is not called (%s): %s' % (path_end(q), path_desc(q)))
            return False
    elif isobj is False and isptr is False:
        reached.add('neither')
        if q.ctl != 'throw' or run:
            ctx.bad(key + ': instance', where, 'an instance that is neither object nor pointer of a class is %s: %s' % ('called' if run else 'silently ignored', path_desc(q)))
        elif not p.derives(q.val[0], ERR):
            ctx.bad(key + ': instance', where, 'throws ' + q.val[0])
        else:
            ctx.ok(key + ': instance', where)
        return False
    unasked = isobj is None and isptr is None and not any(contains(b[0], inst) or contains(b[0], inst[1]) for b in q.branches)
    for e in run:
        src = of_instance(q, e.obj, inst) if e.obj is not None else None
        if src is None:
            ctx.bad(key + ': instance', e.where(), 'runs on %s, not on the given instance' % show(e.obj))
            continue
        n, ta, cm, ev = src
        if unasked and n in ('ref', 'cref', 'to') and not 'try' in node_kinds(f.body):
            ctx.bad(key + ': ' + ('object' if n == 'to' else 'pointer'), ev.where(), 'an instance is accessed by %s<%s> without asking whether it is an object or a pointer' % (n, ta))
        want = n in ('ref', 'cref') if isobj is True else n == 'to' if isptr is True else True
        base = re.sub(r'\bconst\b', '', ta).replace('*', '').replace('&', '').strip()
        if not want or base != s.cls or (n == 'to') != ta.rstrip(' const').endswith('*'):
            ctx.bad(key + ': instance', ev.where(), 'a stored %s is accessed by %s<%s>' % ('object' if isobj else 'pointer', n, ta))
        elif not s.const and fixed(ta):
            ctx.bad(key + ': instance', ev.where(), 'a method that changes its object is run on a constant one (%s<%s>)' % (n, ta))
        else:
            ctx.ok(key + ': instance', e.where())
    return True


def known(q, bn):
    """Answer established for a predicate of the instance's type."""
    r = None
    for e in q.events:
        if e.kind == 'call' and e.n == bn and e.res is not None:
            v = truth(q, e.res)
            r = v if v is not None else r
    return r


def passed(ctx, key, q, e, args, names):
    if len(e.args) != len(args):
        ctx.undecided(key + ': arguments', e.where(), 'call with %d values' % len(e.args))
        return
    for i, (a, T) in enumerate(zip(e.args, args)):
        vs = argvals(expand(q, a))
        if len(vs) != 1:
            ctx.undecided(key + ': argument %d' % i, e.where(), 'value passed: ' + show(a))
            continue
        (who, V) = vs[0]
        if who != ('param', names[i]):
            ctx.bad(key + ': argument %d' % i, e.where(), 'parameter %d receives %s instead of argument %d' % (i, show(who), i))
        elif plain(V) != plain(T):
            ctx.bad(key + ': argument %d' % i, e.where(), 'argument %d is read as %s, the parameter is %s' % (i, V, T))
        else:
            ctx.ok(key + ': argument %d' % i, e.where())


def plain(t):
    """Spelling of a type without the top-level const of values."""
    t = t.replace(' &', '&').replace(' *', '*').strip()
    return t if t.endswith('&') else re.sub(r'^const (?!.*\*)|(?<=\*)\s*const$', '', t)


def result(ctx, p, key, f, q, e, kind, s):
    where = e.where()
    vctors = [x for x in q.events if x.kind == 'ctor' and x.x.get('cls') == 'rtti::variant' and x.i > e.i]
    val = expand(q, q.val)
    if kind != 'ctor' and s.void:
        from_result = [x for x in vctors if not (x.x.get('copy') or x.x.get('move')) and x.args]
        if from_result:
            ctx.bad(key + ': result', where, 'a void target yields a value')
        elif contains(val, ('glob', 'rtti::variant::empty_variant')) or q.val == ('default', 'rtti::variant') or not from_result:
            ctx.ok(key + ': result', where)
        return
    vs = [x for x in vctors if not (x.x.get('copy') or x.x.get('move')) and x.args]
    if not vs:
        if contains(val, ('glob', 'rtti::variant::empty_variant')) or q.val == ('default', 'rtti::variant'):
            ctx.bad(key + ': result', where, 'the result of the target is dropped')
        else:
            ctx.undecided(key + ': result', where, 'returned: ' + show(q.val))
        return
    x = vs[-1]
    g = p.funcs.get(x.node.get('f')) if x.node else None
    T = g.ta[0] if g is not None and g.ta else None
    if T is None:
        ctx.undecided(key + ': result', where, 'type stored in the result not known')
        return
    wrapped = T.replace('const ', '').startswith('std::reference_wrapper<')
    R = s[0] if kind == 'ctor' else s.ret
    if R.endswith('&'):
        ctx.req(wrapped, key + ': result', x.where(), 'the reference returned by the target is handed out as a copy (%s)' % T)
        if wrapped:
            inner = T[T.index('<') + 1:T.rindex('>')].strip()
            ctx.req(same_ref(inner, R), key + ': result', x.where(), 'the result %s is handed out as reference to %s' % (R, inner))
    else:
        ctx.req(not wrapped, key + ': result', x.where(), 'a value returned by the target is handed out as reference')
        if not wrapped and e.res is not None and kind != 'ctor':
            held = x.held.get(x.args[0][1]) if x.args[0][0] == 'addr' else None
            if contains(expand(q, x.args[0]), e.res) or held is not None and contains(held, e.res) or contains(expand(q, x.args[0]), expand(q, e.res)):
                ctx.ok(key + ': result', x.where())
            elif argvals(expand(q, x.args[0])) or x.args[0][0] == 'c' or held is not None and (argvals(expand(q, held)) or held[0] == 'default'):
                ctx.bad(key + ': result', x.where(), 'the result holds %s instead of the value returned by the target' % show(held or x.args[0]))
            else:
                ctx.undecided(key + ': result', x.where(), 'the result holds ' + show(held or x.args[0]))


def same_ref(inner, R):
    R = R.rstrip('&').strip()
    return plain(inner + '&') == plain(R + '&')


def kinds(ctx, p):
    """isStatic of every invoker."""
    for f in impls(p, IM, 'isStatic'):
        kind, s = signature(p, f)
        if kind is None:
            continue
        vals = {q.val for q in ctx.explore(f, **opts(p)) or () if q.ctl == 'return'}
        if len(vals) == 1 and list(vals)[0][0] == 'c':
            ctx.req(bool(list(vals)[0][1]) == (kind != 'member'), label(f) + ': kind', f.where(), 'reported as %s' % ('static' if list(vals)[0][1] else 'member'))
        else:
            ctx.undecided(label(f) + ': kind', f.where(), 'not a constant')


STOPF = ('rtti::MetaMethod::invoker', 'rtti::MetaConstructor::constructor', 'rtti::MetaItem::qualifiedName', 'rtti::MetaItem::name', 'rtti::argument::{ctor}',
         'rtti::argument::{dtor}', 'rtti::MetaContainer::getMethod', 'rtti::MetaClass::find')


def wrapped(e, a):
    """Location wrapped into an argument object and the deduced type, from a constructor term."""
    if a and a[0] == 'call' and a[1] == 'rtti::argument::{ctor}':
        return a[2][0] if a[2] else None
    return a


def argtypes(p, q, upto):
    """Deduced type of every argument object built on the path: source location -> [type]."""
    out = {}
    for e in q.events:
        if e.kind == 'ctor' and e.x.get('cls') == 'rtti::argument' and e.args and e.node:
            g = p.funcs.get(e.node.get('f'))
            if g is not None and g.ta:
                out.setdefault(e.args[0], []).append(g.ta[0])
    return out


def check_forward(ctx, p, key, f, q, e, params, skip):
    """params: (location term, declared type) of the caller's arguments expected at positions skip.. of the call event."""
    vals = list(e.args[skip:])
    types = argtypes(p, q, e)
    for i, (loc, T) in enumerate(params):
        if i >= len(vals):
            ctx.bad(key + ': arguments', e.where(), 'argument %d is not passed' % i)
            return
        w = wrapped(e, vals[i])
        if w == ('addr', loc):
            got = types.get(w)
            want = T
            if got and want not in got and want.rstrip('&').strip() not in (got if want.endswith('&&') else ()):
                ctx.bad(key + ': value category', e.where(), 'argument %d of type %s is passed on as %s' % (i, T, got[0]))
            else:
                ctx.ok(key + ': arguments', e.where())
        elif w is not None and any(w == ('addr', l) for l, _ in params):
            ctx.bad(key + ': arguments', e.where(), 'position %d receives another argument' % i)
        elif w is None:
            ctx.bad(key + ': arguments', e.where(), 'argument %d is not passed' % i)
        else:
            ctx.undecided(key + ': arguments', e.where(), 'position %d receives %s' % (i, show(w)))
    for a in vals[len(params):]:
        if wrapped(e, a) is not None and a[0] == 'call' and a[2]:
            ctx.bad(key + ': arguments', e.where(), 'an argument is passed twice')


def own_args(f, ta):
    """(location, type with which it was given) of the arguments of a forwarding template."""
    ps = f.params[len(f.params) - len(ta):] if ta else []
    return [(('deref', ('init', ('var', x['n'] or 'arg%d' % i, 0))), t) for i, (x, t) in enumerate(zip(ps, ta))]


def forward(ctx, p):
    fs = [f for f in p.fn('rtti::MetaMethod::invoke') if f.body is not None]
    if not fs:
        raise Broken('anchor vanished: MetaMethod::invoke')
    forms = set()
    for f in fs:
        key = 'MetaMethod::invoke(%s)' % ', '.join(re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'std::string', t) for t in f.ta)
        params = own_args(f, f.ta)
        for q in summaries(ctx, f, *STOPF) or ():
            inv = [e for e in q.events if e.kind == 'call' and e.n in (IM + '::invoke_static', IM + '::invoke_method')]
            st = next((truth(q, e.res) for e in q.events if e.kind == 'call' and e.n == IM + '::isStatic'), None)
            if q.ctl == 'throw':
                if inv or not p.derives(q.val[0], ERR):
                    ctx.bad(key, f.where(), 'throws %s %s' % (q.val[0], 'after the call' if inv else ''))
                elif st is True or params:
                    ctx.bad(key, f.where(), 'a %s method with %d arguments is not invoked: %s' % ('static' if st else 'member', len(params), path_desc(q)))
                else:
                    ctx.ok(key + ': without instance', f.where())
                    forms.add('none')
                continue
            if q.ctl != 'return' or len(inv) != 1:
                ctx.bad(key + ': once', f.where(), '%d invocations, ends in %s: %s' % (len(inv), q.ctl, path_desc(q)))
                continue
            e = inv[0]
            static = e.n.endswith('static')
            if st is None or static != st:
                ctx.bad(key + ': form', e.where(), 'a method that is %sstatic is called by %s' % ('' if st else 'not ', e.n[22:]))
                continue
            forms.add('static' if static else 'member')
            ctx.req(q.val is not None and (q.val == e.res or contains(expand(q, q.val), e.res)), key + ': result', e.where(), 'does not return the result of the invocation')
            if static:
                check_forward(ctx, p, key, f, q, e, params, 0)
            else:
                instance(ctx, key, q, e, params[0][0], f.ta[0])
                check_forward(ctx, p, key, f, q, e, params[1:], 1)
    if forms != {'none', 'static', 'member'} and all(o[1] for o in ctx.obl) and not ctx.undec:
        raise Broken('forms of MetaMethod::invoke not recognised: %s' % forms)


def instance(ctx, key, q, e, loc, T):
    """The instance argument of a call of an invoker."""
    a = e.args[0]
    pt = (e.node or {}).get('pt') or []
    over = pt[0] if pt else ''
    isvar = 'rtti::variant' in T and '<' not in T
    if a != ('addr', loc) and not contains(expand(q, a), loc):
        built = [x for x in q.events if x.kind == 'ctor' and x.x.get('cls') == 'rtti::variant' and x.obj is not None and ('addr', x.obj) == a]
        if not built or not any(contains(expand(q, x.args), loc) for x in built):
            ctx.bad(key + ': instance', e.where(), 'the instance passed is %s' % show(a))
            return
    if isvar and a != ('addr', loc):
        ctx.bad(key + ': instance', e.where(), 'a copy of the instance is passed')
    elif T == 'rtti::variant &' and over.startswith('const '):
        ctx.bad(key + ': instance', e.where(), 'a modifiable instance is passed as const')
    elif T.startswith('const rtti::variant') and over and not over.startswith('const '):
        ctx.bad(key + ': instance', e.where(), 'a const instance is passed as modifiable')
    else:
        ctx.ok(key + ': instance', e.where())


def constructor(ctx, p):
    fs = [f for f in p.fn('rtti::MetaConstructor::invoke') if f.body is not None]
    for f in fs:
        key = 'MetaConstructor::invoke/%d' % len(f.ta)
        for q in summaries(ctx, f, *STOPF) or ():
            inv = [e for e in q.events if e.kind == 'call' and e.n == IM + '::invoke_static']
            if q.ctl != 'return' or len(inv) != 1:
                ctx.bad(key + ': once', f.where(), '%d invocations, ends in %s' % (len(inv), q.ctl))
                continue
            ctx.req(q.val is not None and (q.val == inv[0].res or contains(expand(q, q.val), inv[0].res)), key + ': result', inv[0].where(), 'does not return the constructed object')
            check_forward(ctx, p, key, f, q, inv[0], own_args(f, f.ta), 0)


def byname(ctx, p):
    fs = [f for f in p.fn('rtti::variant::invoke') if f.body is not None]
    if not fs:
        raise Broken('anchor vanished: variant::invoke')
    for f in fs:
        key = 'variant::invoke/%d%s' % (len(f.ta), ' const' if f.cm else '')
        name = param(f)
        params = own_args(f, f.ta)
        hits = 0
        for q in summaries(ctx, f, *STOPF, 'rtti::MetaMethod::invoke', 'rtti::variant::metaClass', 'rtti::variant::classInfo') or ():
            if used_unchecked(ctx, key, q):
                continue
            inv = [e for e in q.events if e.kind == 'call' and e.n == 'rtti::MetaMethod::invoke']
            if q.ctl == 'throw':
                if inv or not p.derives(q.val[0], ERR):
                    ctx.bad(key, f.where(), 'throws %s' % q.val[0])
                    continue
                got = [e for e in q.events if e.kind == 'call' and e.n == 'rtti::MetaContainer::getMethod']
                if got and truth(q, got[-1].res) is True:
                    ctx.bad(key, f.where(), 'a method that was found is not invoked')
                else:
                    ctx.ok(key + ': nothing to invoke', f.where())
                continue
            if q.ctl != 'return' or len(inv) != 1:
                ctx.bad(key + ': once', f.where(), 'a call %s: %s' % ('runs %d methods' % len(inv) if inv else 'is silently ignored', path_desc(q)))
                continue
            hits += 1
            e = inv[0]
            get = [x for x in q.events if x.kind == 'call' and x.n == 'rtti::MetaContainer::getMethod' and x.res is not None and contains(e.obj, x.res)]
            if not get or get[0].args[0] != name:
                ctx.bad(key + ': method', e.where(), 'invokes %s' % show(e.obj))
                continue
            if truth(q, get[0].res) is not True:
                ctx.bad(key + ': method', e.where(), 'invokes a method that may not exist')
            of = get[0].obj
            if not any(x.kind == 'call' and x.n == 'rtti::variant::metaClass' and x.obj == THIS and contains(of, x.res) for x in q.events):
                if any(x.kind == 'call' and x.n == 'rtti::variant::metaClass' for x in q.events):
                    ctx.bad(key + ': class', e.where(), 'looks the method up in %s' % show(of))
                else:
                    ctx.undecided(key + ': class', e.where(), 'looks the method up in %s' % show(of))
            ctx.req(q.val is not None and (q.val == e.res or contains(expand(q, q.val), e.res)), key + ': result', e.where(), 'does not return the result of the invocation')
            ctx.req(e.args and e.args[0] == ('addr', THIS), key + ': instance', e.where(), 'the instance passed is not the variant')
            g = e.x.get('target')
            if g is not None and g.ta and not f.cm and g.ta[0].startswith('const '):
                ctx.bad(key + ': instance', e.where(), 'a modifiable variant is passed as const')
            for i, (loc, T) in enumerate(params):
                if len(e.args) <= i + 1 or e.args[i + 1] != ('addr', loc):
                    ctx.bad(key + ': arguments', e.where(), 'argument %d is not passed as argument %d' % (i, i))
                elif g is not None and len(g.ta) > i + 1 and plain(g.ta[i + 1]) not in (plain(T), plain(T.rstrip('&').strip()) if T.endswith('&&') else plain(T)):
                    ctx.bad(key + ': value category', e.where(), 'argument %d of type %s is passed on as %s' % (i, T, g.ta[i + 1]))
                else:
                    ctx.ok(key + ': arguments', e.where())
        ctx.req(hits > 0, key + ': invokes', f.where(), 'never invokes a method')
