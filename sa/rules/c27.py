"""(1) The inheritance between the exception classes is compared with the documented one on compile-time facts.  (2) Every throw expression
of the library, in every instantiation made by the witnesses, throws an object of a class derived from rtti::runtime_error (rethrows
aside).  (3) The throwing operations are summarised path by path: every path that ends in an exception of the library is classified by the
test that decided it (type identifier, registered class, type of a value or instance, number of arguments, form of access) and must throw
the kind documented for that failure.  (4) Effect inference over the call graph, function tables included: no function declared not to
throw (destructors included) reaches, outside a try block that catches everything, a throw expression of the library or an operation of a
user's type that may throw; constructors of a witness type whose every constructor may throw stand for the latter, also where an algorithm
of the standard library runs them on elements.  Calls through the table of an unknown stored type reach every table; where the value is
handed over as a plain pointer, or in a function made for a type, the caller knows the type and only library exceptions are followed."""
import glob
import re
from ..registry import *
from ..prog import VERIF
from .. import vtable as vt
from .. import invoke as iv
from .c18 import label

NS = 'rtti::'
ROOT = 'rtti::runtime_error'
WITNESSES = ('errors.cpp', 'invoke.cpp', 'access.cpp', 'stored.cpp', 'convert.cpp', 'argument.cpp', 'builder.cpp', 'define.cpp', 'equal.cpp', 'inherit.cpp', 'ops.cpp')


def run(ctx):
    p = ctx.load(*WITNESSES)
    hierarchy(ctx, p)
    thrown(ctx, p)
    kinds(ctx, p)
    silent(ctx, p)


# --- 1: the kinds --------------------------------------------------------------------------------------------------------------------

def hierarchy(ctx, p):
    n = 0
    for f in p.fn('w::errors'):
        for q in ctx.explore(f, **opts(p)) or ():
            for e in q.events:
                if e.kind == 'call' and e.n == 'w::check' and e.args[1][0] == 's':
                    v = e.args[0]
                    if v[0] != 'c':
                        ctx.undecided(e.args[1][1], 'include/rtti/metaerror.h', 'not a constant: ' + show(v))
                        continue
                    n += 1
                    ctx.req(bool(v[1]), e.args[1][1], 'include/rtti/metaerror.h', 'documented relation between exceptions does not hold')
    ctx.counts['relations between exceptions'] = n
    if n < 15 and not ctx.undec:
        raise Broken('facts about the exceptions not found')


# --- 2: throw expressions -------------------------------------------------------------------------------------------------------------

class Site:
    __slots__ = ('throws', 'calls', 'icalls')

    def __init__(self):
        self.throws, self.calls, self.icalls = [], [], []


def caught(h):
    return any(x.get('t') in (None, '...', '') for x in h)


def scan(x, s, safe):
    """Throws and calls of a body that are not under a handler for everything."""
    if isinstance(x, dict):
        k = x.get('k')
        if k == 'lambda':
            for c in x.get('caps') or ():
                scan(c, s, safe)
            return
        if k == 'try':
            scan(x.get('a'), s, safe or caught(x.get('h') or ()))
            for h in x.get('h') or ():
                scan(h, s, safe)
            return
        if k == 'throw':
            if x.get('e') is not None:
                s.throws.append((x, safe))
        elif k == 'icall':
            s.icalls.append((x, safe))
        elif isinstance(x.get('f'), str) and k in ('call', 'ctor', 'ictor', 'new'):
            s.calls.append((x, safe))
        for y in x.values():
            if isinstance(y, (dict, list)):
                scan(y, s, safe)
    elif isinstance(x, list):
        for y in x:
            scan(y, s, safe)


def sites(p):
    if '_sites27' not in p.__dict__:
        out = p._sites27 = {}
        for f in p.funcs.values():
            if f.body is not None and in_repo(f.loc):
                s = out[f.id] = Site()
                scan(f.body, s, False)
                scan(f.d.get('inits') or [], s, False)
    return p._sites27


def clean(t):
    return re.sub(r'^const |\s*[&*]*$', '', t or '').replace('class ', '').strip()


def place(f, x):
    return '%s:%d' % (f.where().rsplit(':', 1)[0], x.get('l') or f.line)


def thrown(ctx, p):
    n, seen = 0, {}
    for f in p.funcs.values():
        s = sites(p).get(f.id)
        if s is None:
            continue
        for x, safe in s.throws:
            n += 1
            t = clean(x.get('t'))
            key = 'throw %s in %s' % (t, f.bn)
            if key in seen:
                continue
            seen[key] = 1
            ctx.req(p.derives(t, ROOT), key, place(f, x), 'the library throws %s, which is not an rtti::runtime_error' % t)
    ctx.counts['throw expressions (all instantiations)'] = n
    if n < 100:
        raise Broken('only %d throw expressions found' % n)


# --- 3: which kind for which failure ---------------------------------------------------------------------------------------------------

TYPE_TESTS = re.compile(r'MetaType::|typeFlags|typeId|pointerArity|TypeFlags|compatible|classInfo|isClass|MetaClass::cast|inheritedFrom|variant::(ref|to|cref|data|rref|is)$')


def atom_calls(q):
    """Names of what the deciding test of a path looks at, its text."""
    if not q.branches:
        return None, ''
    a = q.branches[-1][0]
    names = {s[1] for s in subterms(a) if s and s[0] == 'call' and isinstance(s[1], str)}
    names |= {s[2] for s in subterms(a) if s and s[0] == 'fld' and isinstance(s[2], str)}
    if any(s and s[0] == 'mt' for s in subterms(a)):
        names.add('rtti::MetaType::')
    return names, ('' if q.branches[-1][1] else 'not ') + show(a)


def failures(ctx, f, ps):
    """Paths of f that end in an exception the library itself throws: (exception, names in the deciding test, text)."""
    for q in ps or ():
        used_unchecked(ctx, clean(f.bn), q)
        if q.ctl == 'throw' and q.val and isinstance(q.val[0], str) and q.val[0] != '*':
            names, text = atom_calls(q)
            yield q, clean(q.val[0]), names, text


def kinds(ctx, p):
    n = {}

    def need(what, f, q, t, base, text):
        n[what] = n.get(what, 0) + 1
        key = '%s: %s' % (f.bn, what)
        ctx.req(any(p.derives(t, NS + b) for b in ([base] if isinstance(base, str) else base)), key, f.where(),
                'a failure decided by %s is reported as %s instead of %s' % (text or 'the target alone', t, base if isinstance(base, str) else ' or '.join(base)))

    # registration
    for bn in ('rtti::MetaClass::create', 'rtti::MetaClass::addBaseClass', 'rtti::MetaClass::addDerivedClass', 'rtti::MetaContainer::setDeferredDefine'):
        for f in ctx.fns(bn, need=False):
            with ctx.guard(bn, f.where()):
                for q, t, names, text in failures(ctx, f, ctx.explore(f, **opts(p, 'rtti::MetaItem::qualifiedName', 'rtti::MetaItem::name'))):
                    registration(ctx, p, f, q, t, names, text, need)
    # invokers
    for iface, ops_ in (('rtti::IMethodInvoker', ('invoke_static', 'invoke_method')), ('rtti::IPropertyInvoker', ('get_static', 'set_static', 'get_field', 'set_field'))):
        for op in ops_:
            fs = iv.impls(p, iface, op)
            if ctx.tier == 'quick':
                fs = thin(fs, shape)
            for f in fs:
                with ctx.guard(label(f) + ' ' + op, f.where()):
                    ps = iv.summaries(ctx, f, 'rtti::variant::ref', 'rtti::variant::to', 'rtti::variant::cref', 'rtti::variant::data')
                    for q, t, names, text in failures(ctx, f, ps):
                        if names is None:
                            need('misuse', f, q, t, 'invoke_error', text)
                        elif any(TYPE_TESTS.search(x) for x in names):
                            need('type of the instance', f, q, t, ('bad_cast', 'invoke_error') if not any(z.ctl == 'return' for z in ps) else 'bad_cast', text)
                        elif any(x.endswith('::empty') for x in names):
                            need('arguments', f, q, t, ('invoke_error', 'bad_cast'), text)
                        else:
                            need('number of arguments', f, q, t, 'invoke_error', text)
    for bn in ('rtti::MetaMethod::invoke', 'rtti::MetaProperty::get', 'rtti::MetaProperty::set', 'rtti::MetaConstructor::invoke'):
        for f in ctx.fns(bn, need=False):
            with ctx.guard(bn, f.where()):
                for q, t, names, text in failures(ctx, f, ctx.explore(f, **opts(p, 'rtti::MetaItem::qualifiedName', 'rtti::variant::{ctor}'))):
                    if names is None or not any(x.endswith('::empty') for x in names):
                        need('form of access', f, q, t, 'invoke_error', text)
    # arguments
    fs = ctx.fns('rtti::argument::value')
    for f in thin(fs, shape) if ctx.tier == 'quick' else fs:
        with ctx.guard('rtti::argument::value', f.where()):
            for q, t, names, text in failures(ctx, f, vt.summaries(ctx, f, *['rtti::variant::' + m for m in ('ref', 'cref', 'rref', 'to', 'is', 'data')])):
                need('typed access to arguments', f, q, t, 'bad_cast', text)
    # typed access
    for m, base in (('ref', 'bad_variant_cast'), ('cref', 'bad_variant_cast'), ('rref', 'bad_variant_cast'), ('to', 'bad_variant_convert')):
        fs = [f for f in ctx.fns('rtti::variant::' + m) if f.ta]
        for f in thin(fs, shape) if ctx.tier == 'quick' else fs:
            with ctx.guard(f.bn, f.where()):
                for q, t, names, text in failures(ctx, f, vt.summaries(ctx, f)):
                    if m == 'to' and 'move_or_copy' in text:
                        continue
                    need('typed access' if m != 'to' else 'conversion', f, q, t, base, text)
    # casts
    for f in ctx.fns('rtti::meta_cast'):
        with ctx.guard(f.bn, f.where()):
            for q, t, names, text in failures(ctx, f, ctx.explore(f, **opts(p, 'rtti::MetaClass::cast', 'rtti::MetaClass::find', 'rtti::MetaType::metaClass', 'rtti::metaTypeId'))):
                need('casts of objects', f, q, t, 'bad_meta_cast', text)
    ctx.counts.update({'failing paths: ' + k: v for k, v in n.items()})
    if len(n) < 8 and not ctx.undec:
        raise Broken('failures not recognised: %s' % n)


def shape(f):
    """What matters for the failures of an instantiation: the forms of its target and types, not their names."""
    t = '; '.join([f.cls or ''] + list(f.ta))
    t = re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'W', t)
    t = re.sub(r'\b(int|char|bool|double|float|long|short|unsigned|unsigned int|std::size_t)\b', 'N', t)
    t = re.sub(r'\bw::\w+(::\w+)*', 'W', t)
    t = re.sub(r'(, (const )?[NW]\b ?[&*]*){2,}', ', more', t)
    t = re.sub(r'\d+', '1', t)
    return f.bn, f.cm, tuple(x['t'] if 'variant' in x['t'] else '' for x in f.params), t


def thin(fs, key):
    """One instantiation of every shape (the thorough tier looks at all of them)."""
    out = {}
    for f in sorted(fs, key=lambda f: (len(f.id), f.id)):
        out.setdefault(key(f), f)
    return list(out.values())


def registration(ctx, p, f, q, t, names, text, need):
    a = q.branches[-1][0] if q.branches else None
    if f.bn.endswith('setDeferredDefine') or a is None:
        need('registration', f, q, t, 'definition_error', text)
        return
    ids = {x['n'] for x in f.params if 'meta_type_tag' in x['t'] or 'MetaType' in x['t']}
    last = a
    while last and last[0] == 'op' and last[1] in ('!=0', '==0', '==', '!=') and last[-1] in (C0, NULL, ('c', 0)):
        last = last[2]
    cls = any(s and s[0] == 'fld' and p_class_field(p, s) for s in subterms(last)) or any(x.endswith('operator==') or x.endswith('operator!=') for x in names) or last[0] == 'op' and last[1] in ('==', '!=')
    if cls:
        need('registered class', f, q, t, 'duplicate_metaclass' if f.bn.endswith('create') else 'unregistered_metaclass', text)
    elif any(x.endswith(('customTypes', 'getTypeInfo', 'typeInfo', 'valid')) for x in names) or any(s and s[0] in ('glob', 'var') and (
            s[0] == 'glob' and 'Types' in str(s[1]) or s[0] == 'var' and s[1] in ids) for s in subterms(last)):
        need('type identifier', f, q, t, 'invalid_metatype_id', text)
    else:
        need('registration', f, q, t, ('definition_error', 'invalid_metatype_id'), text)


def p_class_field(p, s):
    """A field that holds a class (of a type record)?"""
    for n, r in p.records.items():
        if n.startswith(NS):
            for x in r['fields']:
                if x['n'] == s[2] and 'MetaClass' in x['t']:
                    return True
    return False


# --- 4: operations declared not to throw ------------------------------------------------------------------------------------------------

def function_tables(p):
    """(record, field) -> functions stored there by the constructors of the record."""
    place_ = {}
    for f in p.funcs.values():
        if f.d.get('ctor') and f.cls and f.d.get('inits'):
            ids = {x['id']: i for i, x in enumerate(f.params)}
            for x in f.d['inits']:
                e = x.get('e')
                while isinstance(e, dict) and e.get('k') in ('ld', 'cast', 'mat', 'clean'):
                    e = e.get('e')
                if isinstance(e, dict) and e.get('k') == 'v' and e.get('id') in ids and '(*' in (x.get('ft') or ''):
                    place_[(f.id, ids[e['id']])] = (f.cls, x['field'])
    out = {}

    def fns(x, acc):
        if isinstance(x, dict):
            if x.get('k') in ('fn', 'lambda') and isinstance(x.get('f'), str):
                acc.add(x['f'])
            for y in x.values():
                if isinstance(y, (dict, list)):
                    fns(y, acc)
        elif isinstance(x, list):
            for y in x:
                fns(y, acc)

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'ctor':
                for i, a in enumerate(x.get('args') or ()):
                    w = place_.get((x.get('f'), i))
                    if w:
                        fns(a, out.setdefault(w, set()))
            for y in x.values():
                if isinstance(y, (dict, list)):
                    walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for f in p.funcs.values():
        if f.body is not None and in_repo(f.loc):
            walk(f.body)
    return out


def slot_of(x):
    e = x.get('fn')
    while isinstance(e, dict) and e.get('k') in ('ld', 'cast', 'un', 'paren'):
        e = e.get('e')
    if isinstance(e, dict) and e.get('k') == 'm':
        return e.get('c'), e.get('f')
    return None


VALUE_OP = re.compile(r'::(\{[cd]tor\}|operator\W+|\{conv\})$')      # operations of values: what a user's type does when it is created, copied, compared ...


ELEMENTS = re.compile(r'^std::(?:ranges::)?(?:__\w+::)?uninitialized_(copy|move|value_construct|default_construct|fill)(_n)?$')


def element_op(p, x):
    """An algorithm of the standard library that creates values of a witness type by an operation of its own which may throw."""
    if '_user_ctors' not in p.__dict__:
        tab = p._user_ctors = {}
        text = ''.join(open(x, encoding='utf-8').read() for x in sorted(glob.glob(VERIF + '/witness/*.cpp')))
        once = {'w::' + n for n in re.findall(r'\b(?:struct|class) (?:alignas\(\d+\) )?(\w+)\b[^;{]*\{', text)}
        once = {n for n in once if len(re.findall(r'\b(?:struct|class) (?:alignas\(\d+\) )?%s\b[^;{]*\{' % n[3:], text)) == 1}
        for st in sites(p).values():
            for y, _ in st.calls:
                if y.get('k') == 'ctor' and clean(y.get('t')) in once:
                    k = 'copy' if y.get('cc') else 'move' if y.get('mc') else 'default' if not y.get('args') else None
                    c = clean(y.get('t'))[3:]
                    if k and '%s(%s);' % (c, {'copy': c + ' const&', 'move': c + '&&', 'default': ''}[k]) in text:
                        tab.setdefault(clean(y.get('t')), {}).setdefault(k, set()).add(bool(y.get('nx')))
    m = ELEMENTS.match(x.get('n') or '')
    if not m:
        return None
    kind = 'copy' if m.group(1) == 'fill' else m.group(1)
    for t in x.get('ta') or ():
        ops = p._user_ctors.get(clean(t))
        if not ops:
            continue
        if kind == 'copy':
            k = 'copy'
        elif kind == 'move':
            k = 'move' if 'move' in ops else 'copy'
        else:
            k = 'default'
        if ops.get(k) == {False}:
            return 'creates elements with the %s constructor of %s, which may throw' % (k, clean(t))
    return None


def takes_raw(x):
    """Is a value given to the function of a table as a plain pointer (its type is known to the callers)?"""
    for a in x.get('args') or ():
        while isinstance(a, dict) and a.get('k') in ('ld', 'cast', 'paren') and isinstance(a.get('e'), dict):
            if 'void' in (a.get('t') or ''):
                return True
            a = a['e']
        if isinstance(a, dict) and re.fullmatch(r'(const )?void (const )?\*', (a.get('t') or '').strip()):
            return True
    return False


def silent(ctx, p):
    tabs = function_tables(p)
    ov = {}
    for f in p.funcs.values():
        for o in f.d.get('ov', ()):
            ov.setdefault(o, set()).add(f.id)
    why, user, edges, typed, unknown = {}, {}, {}, {}, {}
    for i, s in sites(p).items():
        f = p.funcs[i]
        for x, safe in s.throws:
            if not safe:
                why.setdefault(i, ('throws ' + clean(x.get('t')), place(f, x), None))
        out = edges[i] = []
        for x, safe in s.calls:
            if safe or x.get('nx'):
                continue
            text = element_op(p, x)
            if text is None and x['k'] == 'ctor' and (x.get('cc') and p._user_ctors.get(clean(x.get('t')), {}).get('copy') == {False}
                                                      or x.get('mc') and p._user_ctors.get(clean(x.get('t')), {}).get('move') == {False}):
                text = 'runs a constructor of %s, which may throw' % clean(x.get('t'))
            if text:
                user.setdefault(i, (text, place(f, x), None))
            for t in {x['f']} | (ov.get(x['f'], set()) if x.get('vm') or x.get('virt') or x['f'] in ov else set()):
                out.append((t, place(f, x)))
                g = p.funcs.get(t)
                loc = g.loc if g is not None else ''
                if loc.startswith(VERIF + '/witness/') and not g.nx and VALUE_OP.search(g.bn):
                    user.setdefault(i, ('runs %s of a user, which may throw' % g.n, place(f, x), None))
        for x, safe in s.icalls:
            if safe:
                continue
            w = slot_of(x)
            ts = tabs.get(w)
            if ts:
                out.extend((t, place(f, x)) for t in sorted(ts))
                if f.d.get('ta') or '<' in f.n or takes_raw(x):
                    typed.setdefault(i, set()).update(ts)      # which of them is called depends on the type the function is made for
            elif f.nx and not ('noexcept' in (x.get('ft') or '')):
                unknown[i] = place(f, x)
    def spread(why, edges):
        changed = True
        while changed:
            changed = False
            for i, out in edges.items():
                if i in why:
                    continue
                for t, at in out:
                    g = p.funcs.get(t)
                    if t in why and g is not None and not g.nx:
                        why[i] = ('calls ' + g.bn, at, t)
                        changed = True
                        break
    spread(why, edges)
    spread(user, {i: [(t, at) for t, at in out if t not in typed.get(i, ())] for i, out in edges.items()})
    for i, w in user.items():
        why.setdefault(i, w)
    n, done = 0, {}
    for i in sites(p):
        f = p.funcs[i]
        if not f.nx:
            continue
        n += 1
        if i in why:
            text, j, k = [], i, 0
            while j is not None and k < 8:
                text.append('%s (%s)' % (why[j][0], why[j][1]))
                j = why[j][2]
                k += 1
            if done.setdefault(f.bn, 0) < 3:
                done[f.bn] += 1
                ctx.bad('declared not to throw: ' + f.bn, f.where(), 'is declared not to throw but ' + ', which '.join(text))
        elif i in unknown:
            ctx.undecided('declared not to throw: ' + f.bn, unknown[i], 'indirect call not resolved')
    ctx.counts['operations declared not to throw'] = n
    ctx.counts['operations that may throw'] = len(why)
    ctx.counts['operations that run those of users'] = len(user)
    if not done:
        ctx.ok('operations declared not to throw', '', '%d functions reach no exception' % n)
    if n < 50:
        raise Broken('only %d functions declared not to throw' % n)
