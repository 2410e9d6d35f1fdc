"""Constness and value category of what variants hand out (second part of C16)."""
from ..vtable import *
from .. import invoke as iv
from ..registry import *

ACCESS = ('is', 'ref', 'cref', 'rref', 'data', 'to', 'canConvert')
# which views of a stored T each member may ask the type table for
SAFE = {'const': {'const &', ''}, '&': {'&', 'const &'}, '&&': {'', '&&', 'const &'}, 'rref': {'', '&&'}}


def run(ctx, p):
    table_of_checks(ctx, p)
    accessors(ctx, p)
    p = ctx.load('invoke.cpp')
    invokers(ctx, p)
    forwarding(ctx, p)


def short(t):
    return re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'std::string', t)


def table_of_checks(ctx, p):
    """Types of the access members, as the compiler deduced them."""
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.bn in ('w::constness', 'w::members') and f.body is not None), key=lambda f: f.ta):
        for q in ctx.explore(f, **opts(p)) or ():
            for e in q.events:
                if e.kind == 'call' and e.n == 'w::check' and e.args[1][0] == 's':
                    what = e.args[1][1] + (' (%s)' % short(f.ta[0]) if f.ta else '')
                    v = e.args[0]
                    if v[0] != 'c':
                        ctx.undecided(what, f.where(), 'not a constant: ' + show(v))
                        continue
                    n += 1
                    ctx.req(bool(v[1]), what, 'include/rtti/variant.h', 'does not hold for the types the compiler deduces')
    ctx.counts['type-level facts'] = n
    if not n and not ctx.undec:
        raise Broken('no type-level facts found')


def accessors(ctx, p):
    t = table(p)
    mean = attributes(ctx)
    if not {'', '&', '&&', 'const &'} <= set(mean.values()):
        ctx.undecided('views', 'include/rtti/variant.h', 'meaning of the view attributes not recognised: %s' % mean)
        return
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.cls == VARIANT and f.body is not None and f.bn.split('::')[-1] in ACCESS and f.ta), key=lambda f: (f.bn, f.ta[0], f.cm, f.line)):
        m = f.bn.split('::')[-1]
        key = '%s<%s>%s' % (m, short(f.ta[0]), ' const' if f.cm else '')
        temp = f.d.get('rq') == '&&'
        kind = 'rref' if m == 'rref' else 'const' if f.cm else '&&' if temp else '&'
        stop = [VARIANT + '::is'] if m == 'canConvert' else []
        for q in summaries(ctx, f, *stop) or ():
            for e in q.events:
                if e.kind == 'mt' and e.x['op'] in ('compatible', 'hasConverter', 'convert'):
                    frm = e.args[1 if e.x['op'] == 'convert' else 0]
                    for s in subterms(frm):
                        if s[0] == 'call' and s[1] == 'slot:type' and s[2][0] == ('init', ('fld', THIS, t.man)):
                            if s[2][1][0] != 'c':
                                ctx.undecided(key, e.where(), 'view asked for: ' + show(s[2][1]))
                                continue
                            n += 1
                            v = mean.get(s[2][1][1], '?')
                            ctx.req(v in SAFE[kind], key + ': view', e.where(), 'the stored T is taken as %s' % (v and 'T ' + v or 'T'))
                elif e.kind == 'call' and e.x.get('target') is not None and e.x['target'].cls == VARIANT and f.cm and e.obj == THIS:
                    g = e.x['target']
                    if not g.cm and not g.ctor and not g.d.get('st'):
                        ctx.bad(key + ': const', e.where(), 'calls %s, which is not a const member' % g.n)
                elif e.kind == 'write' and f.cm and contains(e.obj, THIS):
                    ctx.bad(key + ': const', e.where(), 'writes the variant')
                elif e.kind == 'slot' and e.x['role'] in ('destroy', 'move', 'move_construct', 'copy') and any(a == ('addr', ('fld', THIS, t.sto)) for a in e.args[:1] if e.x['role'] != 'copy'):
                    ctx.bad(key + ': const', e.where(), '%s on the stored value' % e.x['role'])
    ctx.counts['views of the stored type'] = n
    if not n and not ctx.undec:
        raise Broken('no access asks for the stored type')


def pm_sig(p, f, e):
    """Signature of the member function pointer called by an event."""
    for t in iv.targs(f.cls):
        try:
            s = iv.Sig(t)
        except (ValueError, IndexError):
            continue
        if s.cls and len(s.args) == len(e.args):
            yield s


def invokers(ctx, p):
    n = 0
    fs = [(f, m) for i, m in (('rtti::IMethodInvoker', 'invoke_method'), ('rtti::IPropertyInvoker', 'get_field'), ('rtti::IPropertyInvoker', 'set_field')) for f in iv.impls(p, i, m)]
    for f, m in fs:
        if not f.params or not re.match(r'const rtti::variant &', f.params[0]['t']):
            continue
        n += 1
        key = '%s %s' % (short(f.cls.replace('rtti::internal::', '')), m)
        inst = ('deref', ('init', ('var', f.params[0]['n'] or 'arg0', 0)))
        ps = iv.summaries(ctx, f, 'rtti::variant::ref', 'rtti::variant::to', 'rtti::variant::cref', 'rtti::variant::data', 'rtti::variant::rref')
        found = False
        for q in ps or ():
            for e, name, ta, cm in iv.accesses(q, inst):
                if not cm:
                    ctx.bad(key + ': instance', e.where(), 'the const instance is accessed by %s of a non-const variant' % name)
                    found = True
            own = lambda loc: loc is not None and (lambda r: r is not None and r[0] in ('ref', 'cref', 'data', 'rref'))(iv.of_instance(q, loc, inst))
            prop = [e for e in q.events if e.kind == 'pmaccess' and own(e.obj)]
            for e in q.events:
                if e.kind == 'pmcall' and own(e.obj):
                    ss = list(pm_sig(p, f, e))
                    if ss and not any(s.const for s in ss):
                        ctx.bad(key + ': method', e.where(), 'runs a method that is not const on the object of a const variant')
                        found = True
                elif e.kind in ('write', 'copyassign', 'moveassign') and own(e.obj) or e.kind == 'call' and e.n.split('::')[-1].startswith('operator') and e.n.endswith('=') and not e.n.endswith('==') and own(e.obj):
                    ctx.bad(key + ': write', e.where(), 'writes into the object of a const variant')
                    found = True
                elif e.kind == 'ctor' and e.x.get('cls') == VARIANT and prop and e.args and not e.x.get('copy') and not e.x.get('move'):
                    g = p.funcs.get(e.node.get('f')) if e.node else None
                    T = g.ta[0] if g is not None and g.ta else ''
                    w = re.match(r'(?:const )?std::reference_wrapper<(.*)>', T)
                    if w and not (w.group(1).startswith('const ') and not w.group(1).rstrip().endswith('*') or w.group(1).rstrip().endswith('const')):
                        ctx.bad(key + ': result', e.where(), 'hands out a modifiable reference (%s) into the object of a const variant' % T)
                        found = True
        if not found and ps:
            ctx.ok(key, f.where(), '%d paths' % len(ps))
    ctx.counts['invokers given a const variant'] = n
    if not n:
        raise Broken('no invoker takes a const variant')


def forwarding(ctx, p):
    """A const variant stays const on its way to the invoker."""
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.bn in ('rtti::MetaMethod::invoke', 'rtti::MetaProperty::get', 'rtti::MetaProperty::set') and f.body is not None and f.ta), key=lambda f: (f.bn, f.ta)):
        if not re.match(r'const rtti::variant\b', f.ta[0]):
            continue
        key = '%s(%s)' % (f.bn[6:], ', '.join(short(t) for t in f.ta))
        for q in ctx.explore(f, **opts(p, 'rtti::MetaMethod::invoker', 'rtti::MetaProperty::invoker', 'rtti::MetaItem::qualifiedName', 'rtti::argument::{ctor}', 'rtti::argument::{dtor}')) or ():
            for e in q.events:
                if e.kind == 'call' and e.n.split('::')[-1] in ('invoke_method', 'get_field', 'set_field') and e.args:
                    n += 1
                    pt = (e.node.get('pt') or ['?'])[0]
                    ctx.req(pt.startswith('const ') or contains(e.args[0], ('tmp',)) or e.args[0][0] == 'addr' and e.args[0][1][0] in ('tmp', 'var'), key, e.where(), 'the const variant is passed on as modifiable')
    for f in sorted((f for f in p.funcs.values() if f.bn in ('rtti::variant::invoke', 'rtti::variant::get_property') and f.body is not None and f.cm), key=lambda f: (f.bn, f.ta)):
        key = '%s/%d const' % (f.bn[6:], len(f.ta))
        for q in ctx.explore(f, **opts(p, 'rtti::MetaMethod::invoke', 'rtti::MetaProperty::get', 'rtti::variant::metaClass', 'rtti::MetaContainer::getMethod', 'rtti::MetaContainer::getProperty')) or ():
            for e in q.events:
                if e.kind == 'call' and e.n in ('rtti::MetaMethod::invoke', 'rtti::MetaProperty::get') and e.args and e.args[0] == ('addr', THIS):
                    n += 1
                    g = e.x.get('target')
                    T = g.ta[0] if g is not None and g.ta else (e.node.get('pt') or ['?'])[0]
                    ctx.req(T.startswith('const '), key, e.where(), 'the const variant is passed on as %s' % T)
    ctx.counts['forwarding calls with a const variant'] = n
    if not n and not ctx.undec:
        raise Broken('no forwarding of const variants found')
