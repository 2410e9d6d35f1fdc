"""Every instantiation of the property invokers (variables, fields, getter/setter pairs; const and not; values, strings, sub-objects,
pointers) is summarised path by path.  Reading: the result is made from the bound variable, the field of the object taken from the given
instance, or the result of exactly one call of the bound getter, and nothing is written.  Writing: exactly one assignment, of the value
read from the argument as the target's type, to exactly that variable or field, or exactly one call of the bound setter with it; a const
target is never written and throws invoke_error; an instance that is neither an object nor a pointer of a class (or, for writing, a
const object) throws before the target is touched, and the wrong form of access never reaches a target.  readOnly is the constness of
the target.  The layers above (MetaProperty::get / set, variant::get_property / set_property) must run exactly one invoker operation, of
the form the property has, with the given instance and value in their value category, and throw a library error otherwise."""
from ..invoke import *
from .c18 import known, own_args, plain, check_forward, instance, argtypes

IP = 'rtti::IPropertyInvoker'
ERR = 'rtti::runtime_error'
OPS = ('get_static', 'set_static', 'get_field', 'set_field')
VAR = 'rtti::variant'
ACC = tuple(VAR + '::' + n for n in ('ref', 'to', 'cref', 'data', 'rref'))


def run(ctx):
    p = ctx.load('invoke.cpp')
    n = {}
    for op in OPS + ('isStatic', 'readOnly'):
        for f in impls(p, IP, op):
            t = Target(p, f)
            if t.kind is None:
                ctx.undecided(label(f), f.where(), 'target of the invoker not recognised')
                continue
            n[t.kind] = n.get(t.kind, 0) + 1
            with ctx.guard(label(f) + ' ' + op, f.where()):
                if op in OPS:
                    invoker(ctx, p, f, op, t)
                else:
                    constant(ctx, p, f, op, t)
    ctx.counts.update({k + ' operations': v for k, v in n.items()})
    if len(n) < 4 and not ctx.undec:
        raise Broken('invokers not recognised: %s' % n)
    forward(ctx, p)
    byname(ctx, p)


def label(f):
    return re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'std::string', f.cls.replace('rtti::internal::', ''))


class Target:
    """What an invoker class is bound to, read from its template arguments."""
    def __init__(self, p, f):
        self.kind = None
        ta = targs(f.cls)
        self.get = self.set = self.type = self.cls = None
        try:
            if len(ta) == 2:
                self.get, self.set = Sig(ta[0]), Sig(ta[1])
                self.kind = 'getter' if self.get.cls else 'static getter'
                self.cls = self.get.cls
            elif len(ta) == 1 and ta[0].endswith('::*'):
                m = re.match(r'(.*?)\s*([\w:]+)::\*$', ta[0])
                self.kind, self.type, self.cls = 'field', m.group(1).strip(), m.group(2)
            elif len(ta) == 1 and ta[0].endswith('*'):
                self.kind, self.type = 'variable', ta[0][:-1].strip()
        except (ValueError, AttributeError):
            self.kind = None

    @property
    def static(self):
        return self.kind in ('variable', 'static getter')

    @property
    def const(self):
        t = self.type
        return t is not None and (t.endswith('const') if t.rstrip(' const').endswith('*') else t.startswith('const ') or t.endswith(' const'))


def constant(ctx, p, f, op, t):
    want = t.static if op == 'isStatic' else t.const
    ps = ctx.explore(f, **opts(p))
    vals = {q.val for q in ps or () if q.ctl == 'return'}
    if len(vals) == 1 and list(vals)[0] and list(vals)[0][0] == 'c':
        ctx.req(bool(list(vals)[0][1]) == want, label(f) + ' ' + op, f.where(), 'reported as %s' % bool(list(vals)[0][1]))
    else:
        ctx.undecided(label(f) + ' ' + op, f.where(), 'not a constant')


def own(t):
    """Is a term or location the invoker's own bound pointer?"""
    return t is not None and contains(t, ('deref', ('init', ('var', 'this', 0))))


def invoker(ctx, p, f, op, t):
    key = label(f) + ' ' + op
    inst = None
    write = op.startswith('set')
    if op.endswith('field'):
        inst = ('deref', ('init', ('var', f.params[0]['n'] or 'arg0', 0)))
        constinst = f.params[0]['t'].startswith('const ')
        if write:
            key += ' const' if constinst else ''
    arg = f.params[-1]['n'] if write else None
    ps = summaries(ctx, f, *ACC)
    if ps is None:
        return
    fits = t.static == op.endswith('static')
    reached = set()
    before = len(ctx.obl)
    for q in ps:
        acc = touches(q)
        run = calls(q)
        reads = [e for e in q.events if e.kind == 'argvalue']
        if not fits:
            for e in acc['write'] + run + acc['access'] + reads:
                ctx.bad(key + ': wrong form', e.where(), 'reaches the target or reads the value: ' + path_desc(q))
            continue
        if q.ctl == 'loopback':
            ctx.undecided(key, f.where(), 'loop')
            continue
        if q.ctl not in ('return', 'throw'):
            ctx.bad(key, f.where(), 'ends in %s: %s' % (q.ctl, path_desc(q)))
            continue
        # a value that was not given cannot be written
        if write and any(truth(q, ('call', 'rtti::argument::empty', (('param', arg),), 'bool')) is True for _ in (0,)):
            if acc['write'] or run:
                ctx.bad(key + ': no value', (acc['write'] + run)[0].where(), 'writes without a value')
            continue
        if write and t.const:
            if acc['write'] or run:
                ctx.bad(key + ': read only', (acc['write'] + run)[0].where(), 'writes a const target')
            elif q.ctl != 'throw' or not p.derives(q.val[0], 'rtti::invoke_error'):
                ctx.bad(key + ': read only', f.where(), 'writing a const target %s' % ('is silently ignored' if q.ctl == 'return' else 'throws ' + q.val[0]))
            else:
                ctx.ok(key + ': read only', f.where())
            continue
        state = None
        if inst is not None:
            a, b = known(q, 'rtti::MetaType::isClass'), known(q, 'rtti::MetaType::isClassPtr')
            state = 'object' if a is True else 'pointer' if b is True else 'neither' if a is False and b is False else None
            reached.add(state)
            sig = t.set if write else t.get
            refused = state == 'object' and constinst and (sig is not None and not sig.const or sig is None and write)
            if state == 'neither' or refused:
                if acc['write'] or run or reads and False:
                    ctx.bad(key + ': instance', (acc['write'] + run)[0].where(), '%s is used: %s' % ('a const object' if refused else 'an instance that is not a class object or pointer', path_desc(q)))
                elif q.ctl != 'throw':
                    ctx.bad(key + ': instance', f.where(), '%s is silently accepted: %s' % ('a const object' if refused else 'an instance that is not a class object or pointer', path_desc(q)))
                elif not p.derives(q.val[0], ERR):
                    ctx.bad(key + ': instance', f.where(), 'throws ' + q.val[0])
                else:
                    ctx.ok(key + ': instance', f.where())
                continue
        if q.ctl == 'throw':
            ctx.bad(key, f.where(), 'throws %s for a proper %s: %s' % (q.val[0], 'instance' if inst else 'access', path_desc(q)))
            continue
        if t.type is None:
            called(ctx, q, key, f, t, write, arg, inst, state, run, acc)
        elif write:
            written(ctx, q, key, f, t, arg, inst, state, acc, reads)
        else:
            readout(ctx, p, q, key, f, t, inst, state, acc)
    if len(ctx.obl) == before and fits:
        ctx.undecided(key, f.where(), 'no path recognised')
    if not fits:
        ctx.ok(key + ': wrong form', f.where())


def touches(q):
    """Writes to and accesses of objects outside the invoker's own frame."""
    w, a = [], []
    for e in q.events:
        if e.kind in ('write', 'copyassign', 'moveassign') and outer(e.obj) or e.kind == 'call' and re.search(r'::operator[-+*/|&^]?=$', e.n) and outer(e.obj):
            w.append(e)
        elif e.kind == 'pmaccess':
            a.append(e)
    return {'write': w, 'access': a}


def outer(loc):
    """Reached through a pointer (a variable, or an object of the instance)."""
    return loc is not None and any(s[0] == 'deref' for s in subterms(loc))


def target_loc(q, loc, t, inst, state):
    """Problem with a location that should be the target, or None."""
    if t.kind == 'variable':
        if loc[0] == 'deref' and own(loc[1]):
            return None
        return 'is %s, not the bound variable' % show(loc)
    if not (loc[0] == 'fld' and isinstance(loc[2], tuple) and loc[2][0] == 'pm' and own(loc[2][1])):
        return 'is %s, not the bound field' % show(loc)
    return object_of(q, loc[1], t, inst, state)


def whole(loc):
    """The target a written member belongs to."""
    l = loc
    while l[0] == 'fld':
        if isinstance(l[2], tuple) and l[2][0] == 'pm':
            return l
        if l[1][0] == 'deref' and own(l[1][1]) and l[1] != THIS:
            return l[1]
        l = l[1]
    return loc


def object_of(q, loc, t, inst, state):
    src = of_instance(q, loc, inst)
    if src is None:
        return 'belongs to %s, not to the given instance' % show(loc)
    n, ta, cm, ev = src
    ptr = ta.replace('const', '').strip().endswith('*')
    base = re.sub(r'\bconst\b', '', ta).replace('*', '').replace('&', '').strip()
    if base != t.cls or ptr != (n == 'to') or (state == 'object') != (n in ('ref', 'cref')):
        return 'is taken from a stored %s by %s<%s>' % (state, n, ta)
    return None


def written(ctx, q, key, f, t, arg, inst, state, acc, reads):
    ws = []
    for w in acc['write']:
        # an implicit assignment of an object assigns its members
        if not (ws and w.obj[0] == 'fld' and whole(w.obj) == whole(ws[-1].obj) and w.obj != ws[-1].obj):
            ws.append(w)
    if len(ws) != 1:
        ctx.bad(key + ': writes once', (ws[1].where() if ws else f.where()), 'assigns %d times: %s' % (len(ws), path_desc(q)))
        return
    e = ws[0]
    wrong = target_loc(q, whole(e.obj), t, inst, state)
    src = of_instance(q, whole(e.obj), inst) if inst is not None and wrong is None else None
    if src is not None and fixed(src[1]):
        wrong = 'is part of a constant object (%s<%s>)' % (src[0], src[1])
    ctx.req(wrong is None, key + ': target', e.where(), 'what is assigned ' + (wrong or ''))
    vs = argvals(expand(q, e.args))
    if not vs and e.args and e.args[0][0] == 'addr' and e.args[0][1] in e.held:
        vs = argvals(expand(q, e.held[e.args[0][1]]))
    if len(vs) != 1:
        if not reads:
            ctx.bad(key + ': value', e.where(), 'assigns %s, not the given value' % ', '.join(show(a) for a in e.args))
        else:
            ctx.undecided(key + ': value', e.where(), 'assigns %s' % ', '.join(show(a) for a in e.args))
        return
    if e.n.split('::')[-1] not in ('=', 'operator=', 'copy', 'move') and not e.kind.endswith('assign'):
        ctx.bad(key + ': value', e.where(), 'combines the old value with the given one (%s)' % e.n)
    who, V = vs[0]
    ctx.req(who == ('param', arg), key + ': value', e.where(), 'assigns %s' % show(who))
    base = lambda T: plain(re.sub(r'^const (?!.*\*)', '', T.rstrip('&').strip()))
    ctx.req(base(V) == base(t.type), key + ': value', e.where(), 'the value is read as %s, the target is %s' % (V, t.type))


def variant_made(p, q, after=-1):
    """Constructions of the result: [(event, stored type)]."""
    out = []
    for e in q.events:
        if e.kind == 'ctor' and e.x.get('cls') == VAR and e.args and not e.x.get('copy') and not e.x.get('move') and e.i > after:
            g = p.funcs.get(e.node.get('f')) if e.node else None
            out.append((e, g.ta[0] if g is not None and g.ta else None))
    return out


def readout(ctx, p, q, key, f, t, inst, state, acc):
    for e in acc['write']:
        ctx.bad(key + ': writes nothing', e.where(), 'writes %s' % show(e.obj))
    vs = variant_made(p, q)
    if not vs:
        ctx.bad(key + ': result', f.where(), 'gives %s' % (show(q.val) if q.val is not None else 'nothing'))
        return
    e, T = vs[-1]
    a = expand(q, e.args[0])
    held = e.held.get(e.args[0][1]) if e.args[0][0] == 'addr' else None
    cand = [s for x in (e.args[0], a, held) if x is not None for s in subterms(x)]
    if t.kind == 'variable':
        good = [s for s in cand if s[0] == 'deref' and own(s[1]) and s[1] != ('init', ('var', 'this', 0)) or s == ('init', ('fld', THIS, s[1][2] if len(s) > 1 and isinstance(s[1], tuple) and len(s[1]) > 2 else None))]
        ctx.req(bool(good), key + ': result', e.where(), 'gives %s, not the bound variable' % show(held or e.args[0]))
    else:
        locs = [s for s in cand if s[0] == 'fld' and isinstance(s[2], tuple) and s[2][0] == 'pm']
        if not locs:
            ctx.bad(key + ': result', e.where(), 'gives %s, not the bound field' % show(held or e.args[0]))
            return
        wrong = target_loc(q, locs[0], t, inst, state)
        ctx.req(wrong is None, key + ': result', e.where(), 'what is given ' + (wrong or ''))


def called(ctx, q, key, f, t, write, arg, inst, state, run, acc):
    if len(run) != 1:
        ctx.bad(key + ': calls once', f.where(), 'runs accessors %d times: %s' % (len(run), path_desc(q)))
        return
    e = run[0]
    pm = e.x['pm'] if e.kind == 'pmcall' else e.obj
    ft = next((s[2] for s in subterms(pm) if s[0] == 'fld' and own(s)), None) if pm is not None else None
    sig = t.set if write else t.get
    if pm is None or not own(pm):
        ctx.undecided(key + ': target', e.where(), 'runs %s' % (show(pm) if pm is not None else '?'))
        return
    if len(e.args) != len(sig.args):
        ctx.bad(key + ': target', e.where(), 'runs the %s' % ('getter' if write else 'setter'))
        return
    ctx.ok(key + ': calls once', e.where())
    if inst is not None:
        wrong = object_of(q, e.obj, t, inst, state)
        ctx.req(wrong is None, key + ': instance', e.where(), 'the object ' + (wrong or ''))
    if write:
        vs = argvals(expand(q, e.args[0]))
        if len(vs) != 1:
            ctx.undecided(key + ': value', e.where(), 'passes ' + show(e.args[0]))
            return
        ctx.req(vs[0][0] == ('param', arg), key + ': value', e.where(), 'passes %s' % show(vs[0][0]))
        ctx.req(plain(vs[0][1]) == plain(sig.args[0]), key + ': value', e.where(), 'the value is read as %s, the setter takes %s' % (vs[0][1], sig.args[0]))
    else:
        vs = variant_made(ctx.prog, q, e.i)
        if not vs:
            ctx.bad(key + ': result', e.where(), 'the result of the getter is dropped')
            return
        x, T = vs[-1]
        held = x.held.get(x.args[0][1]) if x.args[0][0] == 'addr' else None
        if contains(expand(q, x.args[0]), e.res) or held is not None and contains(held, e.res):
            ctx.ok(key + ': result', x.where())
        else:
            ctx.undecided(key + ': result', x.where(), 'gives ' + show(held or x.args[0]))


STOPF = ('rtti::MetaProperty::invoker', 'rtti::MetaItem::qualifiedName', 'rtti::MetaItem::name', 'rtti::argument::{ctor}', 'rtti::argument::{dtor}')


def forward(ctx, p):
    forms = set()
    for bn, write in (('rtti::MetaProperty::get', False), ('rtti::MetaProperty::set', True)):
        fs = [f for f in p.fn(bn) if f.body is not None]
        if not fs:
            raise Broken('anchor vanished: ' + bn)
        for f in fs:
            key = '%s(%s)' % (bn[6:], ', '.join(re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'std::string', t) for t in f.ta))
            params = own_args(f, f.ta)
            has = len(params) == (2 if write else 1)
            for q in summaries(ctx, f, *STOPF) or ():
                ops = [e for e in q.events if e.kind == 'call' and e.n.startswith(IP) and e.n.split('::')[-1] in OPS]
                st = next((truth(q, e.res) for e in q.events if e.kind == 'call' and e.n == IP + '::isStatic'), None)
                if q.ctl == 'throw':
                    if ops or not p.derives(q.val[0], 'rtti::invoke_error'):
                        ctx.bad(key + ': failure', f.where(), 'throws %s%s' % (q.val[0], ' after the access' if ops else ''))
                    elif st is None or st != has:
                        ctx.bad(key + ': failure', f.where(), 'a proper access is refused: ' + path_desc(q))
                    else:
                        forms.add((write, 'refused', has))
                        ctx.ok(key + ': failure', f.where())
                    continue
                if q.ctl != 'return' or len(ops) != 1:
                    ctx.bad(key + ': once', f.where(), '%d accesses, ends in %s: %s' % (len(ops), q.ctl, path_desc(q)))
                    continue
                e = ops[0]
                name = e.n.split('::')[-1]
                if st is None or st == has or name != ('set' if write else 'get') + ('_field' if has else '_static'):
                    ctx.bad(key + ': form', e.where(), 'a property that is %sstatic is accessed %s an instance by %s' % ('' if st else 'not ' if st is False else 'possibly not ', 'with' if has else 'without', name))
                    continue
                forms.add((write, 'done', has))
                if has:
                    # reading takes every instance as const
                    instance(ctx, key, q, e, params[0][0], f.ta[0] if write else re.sub(r'^(?!const )', 'const ', f.ta[0]))
                if write:
                    check_forward(ctx, p, key, f, q, e, params[1 if has else 0:], 1 if has else 0)
                else:
                    ctx.req(q.val is not None and (q.val == e.res or contains(expand(q, q.val), e.res)), key + ': result', e.where(), 'does not return what was read')
    if len(forms) < 8 and all(o[1] for o in ctx.obl) and not ctx.undec:
        raise Broken('forms of MetaProperty::get / set not recognised: %s' % forms)
    f = ctx.fns('rtti::MetaProperty::readOnly')[0]
    for q in ctx.explore(f, **opts(p, 'rtti::MetaProperty::invoker')) or ():
        e = next((e for e in q.events if e.kind == 'call' and e.n == IP + '::readOnly'), None)
        if q.ctl == 'return' and e is None and q.val and q.val[0] != 'c':
            ctx.undecided('MetaProperty::readOnly', f.where(), 'answers ' + show(q.val))
        elif q.ctl == 'return':
            ctx.req(e is not None and (q.val == e.res or truth(q, e.res) is not None and q.val == ('c', int(truth(q, e.res)))), 'MetaProperty::readOnly', f.where(), 'does not answer what the invoker reports')


def byname(ctx, p):
    fs = [f for n in ('get_property', 'set_property') for f in p.fn(VAR + '::' + n) if f.body is not None]
    if len({f.bn for f in fs}) < 2:
        raise Broken('anchor vanished: variant::get_property / set_property')
    for f in fs:
        write = f.bn.endswith('set_property')
        key = 'variant::%s%s' % (f.bn.split('::')[-1], '<%s>' % re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'std::string', f.ta[0]) if f.ta else '')
        name = param(f)
        params = own_args(f, f.ta) if write else []
        hits = 0
        for q in summaries(ctx, f, *STOPF, 'rtti::MetaProperty::get', 'rtti::MetaProperty::set', 'rtti::MetaContainer::getProperty', 'rtti::MetaClass::find', VAR + '::metaClass', VAR + '::classInfo') or ():
            if used_unchecked(ctx, key, q):
                continue
            ops = [e for e in q.events if e.kind == 'call' and e.n in ('rtti::MetaProperty::get', 'rtti::MetaProperty::set')]
            got = [e for e in q.events if e.kind == 'call' and e.n == 'rtti::MetaContainer::getProperty']
            if q.ctl == 'throw':
                if ops or not p.derives(q.val[0], ERR):
                    ctx.bad(key + ': failure', f.where(), 'throws %s' % q.val[0])
                elif got and truth(q, got[-1].res) is True:
                    ctx.bad(key + ': failure', f.where(), 'a property that was found is not accessed')
                else:
                    ctx.ok(key + ': failure', f.where())
                continue
            if q.ctl != 'return' or len(ops) != 1:
                ctx.bad(key + ': once', f.where(), 'an access %s: %s' % ('touches %d properties' % len(ops) if ops else 'is silently ignored', path_desc(q)))
                continue
            hits += 1
            e = ops[0]
            get = [x for x in got if x.res is not None and contains(e.obj, x.res)]
            if not get or get[0].args[0] != name:
                ctx.bad(key + ': property', e.where(), 'accesses %s' % show(e.obj))
                continue
            if truth(q, get[0].res) is not True:
                ctx.bad(key + ': property', e.where(), 'accesses a property that may not exist')
            ctx.req(e.n.endswith('set' if write else 'get'), key + ': form', e.where(), 'calls ' + e.n)
            cl = [x for x in q.events if x.kind == 'call' and x.n == VAR + '::metaClass' and x.obj == THIS and x.res is not None and contains(get[0].obj, x.res)]
            if not cl:
                (ctx.bad if any(x.kind == 'call' and x.n == VAR + '::metaClass' for x in q.events) else ctx.undecided)(key + ': class', e.where(), 'looks the property up in %s' % show(get[0].obj))
            ctx.req(e.args and e.args[0] == ('addr', THIS), key + ': instance', e.where(), 'the instance passed is not the variant')
            g = e.x.get('target')
            if write and g is not None and g.ta and g.ta[0].startswith('const '):
                ctx.bad(key + ': instance', e.where(), 'the modifiable variant is passed as const')
            if not write:
                ctx.req(q.val is not None and (q.val == e.res or contains(expand(q, q.val), e.res)), key + ': result', e.where(), 'does not return what was read')
            for i, (loc, T) in enumerate(params):
                if len(e.args) <= i + 1 or e.args[i + 1] != ('addr', loc):
                    ctx.bad(key + ': value', e.where(), 'the value is not passed on')
                elif g is not None and len(g.ta) > i + 1 and plain(g.ta[i + 1]) not in (plain(T), plain(T.rstrip('&').strip()) if T.endswith('&&') else plain(T)):
                    ctx.bad(key + ': value category', e.where(), 'the value of type %s is passed on as %s' % (T, g.ta[i + 1]))
                else:
                    ctx.ok(key + ': value', e.where())
        ctx.req(hits > 0, key + ': accesses', f.where(), 'never accesses a property')
