"""What items say about themselves.  The constructor of an item is summarised, with everything it calls, and its stores are matched with what
the accessors hand out; every create function is followed to the name and owner the new item gets; the signatures of all bound methods and
constructors of a witness are summarised down to the text that reaches the stream and compared with the parameters of the bound function; the
extraction of a type's name is evaluated on the texts that the compilers generate for a list of types."""
import os, re, subprocess, tempfile
from ..registry import *
from ..prog import REPO
from .. import invoke as I

ITEM = 'rtti::MetaItem'
KINDS = ('MetaNamespace', 'MetaClass', 'MetaMethod', 'MetaProperty', 'MetaConstructor', 'MetaEnum')
TYPE_NAME = 'rtti::type_name'
QUAL = ITEM + '::qualifiedName'
LOOKUPS = {'rtti::MetaContainer::defaultConstructor': 'default', 'rtti::MetaContainer::copyConstructor': 'copy', 'rtti::MetaContainer::moveConstructor': 'move'}


def options(p, *stop, **kw):
    o = opts(p, *stop, **kw)
    o['stop'] = o['stop'] - {'rtti::MetaItemPrivate::makeQualifiedName'}
    return o


def bare(t):
    while isinstance(t, tuple) and t and t[0] in ('str', 'sv', 'at'):
        t = t[1]
    return t


def flat(t):
    """Pieces of a concatenation, literals merged."""
    t = bare(t)
    if isinstance(t, tuple) and t and t[0] == 'call' and t[1] == '+':
        out = [x for a in t[2] for x in flat(a)]
    elif t and t[0] == 'c' and isinstance(t[1], int) and 0 < t[1] < 128:
        out = [('s', chr(t[1]))]
    else:
        out = [t]
    res = []
    for x in out:
        if x == ('s', ''):
            continue
        if x[0] == 's' and res and res[-1][0] == 's':
            res[-1] = ('s', res[-1][1] + x[1])
        else:
            res.append(x)
    return res


def spell(parts):
    return ''.join(x[1] if x[0] == 's' else '<%s>' % (x[2][0][1] if x[:2] == ('call', TYPE_NAME) else show(x)) for x in parts)


def opaque(parts):
    """Is any piece the result of something the summary does not describe?"""
    return any(s and s[0] in ('opq', 'havoc', 'mut') or s and s[0] == 'call' and s[1] not in ('+', TYPE_NAME, QUAL) and not str(s[1]).startswith('rtti::')
               for t in parts for s in subterms(t))


def same_object(t, what):
    """t is the pointer/reference `what` (an initial value or the address behind it)."""
    t = bare(t)
    while isinstance(t, tuple) and t and t[0] == 'addr' and t[1][0] == 'deref':
        t = t[1][1]
    return t == what


# -- accessors and the constructor of an item ---------------------------------------------------------------------------------

def accessor(ctx, p, name):
    """The field of the private part an accessor hands out."""
    f = ctx.fns(ITEM + '::' + name)[0]
    out = set()
    for q in ctx.explore(f, **options(p)) or ():
        ctx.count('paths')
        if q.ctl != 'return':
            continue
        t = q.val
        fs = [s for s in subterms(t) if s and s[0] == 'fld']
        if t and t[0] in ('addr', 'init') and t[1][0] == 'fld':
            out.add(t[1][2])
        elif t and t[0] == 'addr' and t[1][0] == 'deref' and t[1][1][0] == 'init' and t[1][1][1][0] == 'fld':
            out.add(t[1][1][1][2])
        elif fs and not any(s and s[0] == 'call' for s in subterms(t)):
            out.add(fs[0][2])
        else:
            ctx.bad('MetaItem::%s' % name, f.where(), 'does not hand out what the item stores: returns %s' % show(t)[:160])
            return None, f
    if len(out) != 1:
        if out:
            ctx.bad('MetaItem::%s' % name, f.where(), 'hands out different fields on different paths: %s' % ', '.join(sorted(out)))
        else:
            ctx.undecided('MetaItem::%s' % name, f.where(), 'no returning path')
        return None, f
    ctx.ok('MetaItem::%s hands out a field' % name, f.where(), out.copy().pop())
    return out.pop(), f


def item(ctx, p, fields):
    cs = [f for f in ctx.fns('rtti::MetaItemPrivate::{ctor}') if f.body is not None and any('string_view' in x['t'] for x in f.params)]
    n = 0
    for f in cs:
        nm = next(('init', ('var', x['n'], 0)) for x in f.params if 'string_view' in x['t'])
        ow = next((('init', ('var', x['n'], 0)) for x in f.params if 'MetaContainer' in x['t']), None)
        what = 'an item %s' % ('inside a container' if ow else 'without owner')
        for q in ctx.explore(f, **options(p, QUAL)) or ():
            if q.ctl != 'return' or ow and truth(q, ('not', ow)):
                continue
            n += 1
            ctx.count('paths')
            got = {k: q.mem.get(('fld', THIS, v)) for k, v in fields.items()}
            missing = [k for k, v in got.items() if v is None]
            if missing:
                ctx.bad('stores of ' + what, f.where(), 'the %s handed out later is never set' % ' and the '.join(missing))
                continue
            parts = flat(got['name'])
            (ctx.undecided if opaque(parts) else lambda *a: ctx.bad(*a))('name of ' + what, f.where(), 'the stored name is %s, not the given one' % spell(parts)) \
                if parts != [nm] else ctx.ok('name of ' + what, f.where(), 'the given one')
            o = got['owner']
            ctx.req(same_object(o, ow) if ow else o == NULL, 'owner of ' + what, f.where(), 'the stored owner is %s' % show(o))
            parts = flat(got['qualifiedName'])
            if ow is None:
                good = not parts
            else:
                good = len(parts) == 3 and is_qual(q, parts[0], ow) and parts[1] == ('s', '::') and is_name(q, parts[2], nm, fields)
            if good:
                ctx.ok('qualified name of ' + what, f.where(), spell(parts)[:120])
            elif opaque(parts):
                ctx.undecided('qualified name of ' + what, f.where(), 'built as %s' % spell(parts)[:200])
            else:
                ctx.bad('qualified name of ' + what, f.where(), 'is "%s", not the qualified name of the owner, "::" and the name' % spell(parts)[:200])
    if n < 2:
        raise Broken('constructors of items not found')


def is_qual(q, t, ow):
    t = bare(t)
    if t and t[0] == 'init' and t[1][0] == 'deref':
        t = t[1][1]
    if t and t[0] == 'call' and t[1] == QUAL:
        return len(t[2]) == 1 and same_object(t[2][0], ow)
    return False


def is_name(q, t, nm, fields):
    return bare(t) == nm


# -- creation ------------------------------------------------------------------------------------------------------------------

def creation(ctx, p, fields):
    for k in KINDS:
        bn = 'rtti::%s::create' % k
        for f in [f for f in ctx.fns(bn) if f.body is not None and f.loc.startswith(REPO + '/src/')] or ctx.fns(bn):
            sv = [x for x in f.params if 'string_view' in x['t']]
            ow = [x for x in f.params if 'MetaContainer' in x['t']]
            if not sv or not ow:
                continue
            nm, ow = ('init', ('var', sv[0]['n'], 0)), ('init', ('var', ow[0]['n'], 0))
            named = k in ('MetaMethod', 'MetaConstructor')
            made = 0
            for q in ctx.explore(f, **opts(p, QUAL, 'rtti::MetaContainer::addItem')) or ():
                ctx.count('paths')
                for loc, v in list(q.mem.items()):
                    if loc[0] != 'fld' or loc[2] != fields['name'] or loc[1][0] != 'obj':
                        continue
                    made += 1
                    t = bare(v)
                    while t and t[0] == 'init' and t[1][0] == 'deref':
                        t = bare(t[1][1])
                    key = 'name given to a new %s' % k
                    if named:
                        good = t and t[0] == 'call' and str(t[1]).endswith('::signature') and len(t[2]) == 2
                        if good:
                            a = bare(t[2][1])
                            good = a == nm or k == 'MetaConstructor' and a[0] == 's' and a[1] and truth(q, ('empty', nm))
                        if good:
                            ctx.ok(key, f.where(), 'signature of the invoker for the given name')
                        elif opaque(flat(v)):
                            ctx.undecided(key, f.where(), show(v)[:160])
                        else:
                            ctx.bad(key, f.where(), 'it is called %s, not by the signature of its invoker under the given name' % show(v)[:160])
                    elif t == nm:
                        ctx.ok(key, f.where(), 'the given one')
                    elif opaque(flat(v)):
                        ctx.undecided(key, f.where(), show(v)[:160])
                    else:
                        ctx.bad(key, f.where(), 'it is called %s, not by the given name' % show(v)[:160])
                    o = q.mem.get(('fld', loc[1], fields['owner']))
                    ctx.req(same_object(o, ow), 'owner given to a new %s' % k, f.where(), 'its owner is %s, not the container it is created in' % (show(o) if o else 'not set'))
            if not made:
                ctx.undecided('creation of a ' + k, f.where(), 'no path stores a name in a new item')


# -- signatures ----------------------------------------------------------------------------------------------------------------

def h_type_name(it, e, obj, args):
    f = it.p.funcs.get(e.get('f'))
    return ('call', TYPE_NAME, (('s', f.ta[0] if f is not None and f.ta else '?'),), 's')


def signatures(ctx, p):
    seen = {}
    n = 0
    for iface in ('rtti::IMethodInvoker', 'rtti::IConstructorInvoker'):
        for f in I.impls(p, iface, 'signature') if any(m['n'] == iface + '::signature' for m in p.records.get(iface, {'methods': []})['methods']) else ():
            ta = I.targs(f.cls)
            short = '%s of %s' % ('signature', f.cls.split('rtti::')[-1].replace('internal::', ''))
            if not f.params or f.cls in seen:
                continue
            seen[f.cls] = f
            nm = ('init', ('var', f.params[0]['n'], 0))
            method = '(' in ''.join(ta) and '*)' in ''.join(ta)
            if method:
                try:
                    s = I.Sig(ta[0])
                    # a member is told from a const one by the object it takes first
                    args = ([('const ' if s.const else '') + s.cls + ' &'] if s.cls else []) + s.args
                except ValueError:
                    ctx.undecided(short, f.where(), 'bound function not recognised')
                    continue
                special = None
            else:
                if not ta or 'onstructor' not in f.cls:
                    ctx.undecided(short, f.where(), 'not a recognised invoker')
                    continue
                args = ta[1:]
                special = reserved(ta[0], args)
            n += 1
            for q in ctx.explore(f, hooks={TYPE_NAME: h_type_name}, **opts(p)) or ():
                ctx.count('paths')
                if q.ctl != 'return':
                    continue
                parts = flat(q.val)
                if special:
                    lit = parts[0][1] if len(parts) == 1 and parts[0][0] == 's' else None
                    if lit is None and opaque(parts):
                        ctx.undecided(short, f.where(), spell(parts)[:200])
                        continue
                    if ctx.req(bool(lit) and '(' not in lit, short, f.where(), 'the %s constructor is registered as "%s" instead of a reserved name' % (special, spell(parts))):
                        RES.setdefault(special, set()).add(lit)
                    continue
                want = [nm, ('s', '(')]
                for i, a in enumerate(args):
                    want += ([('s', ', ')] if i else []) + [('call', TYPE_NAME, (('s', a),), 's')]
                want = merge(want + [('s', ')')])
                got = canon(parts)
                if got == canon(want):
                    ctx.ok(short, f.where(), spell(want))
                elif opaque(parts):
                    ctx.undecided(short, f.where(), 'built as %s' % spell(parts)[:200])
                else:
                    ctx.bad(short, f.where(), 'is built as %s; the bound function has the signature %s' % (spell(parts)[:200], spell(want)))
    if n < 12:
        raise Broken('only %d signatures found' % n)


def merge(ps):
    out = []
    for x in ps:
        if x[0] == 's' and out and out[-1][0] == 's':
            out[-1] = ('s', out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def canon(parts):
    sp = lambda s: re.sub(r'\s+', '', s).replace('std::__cxx11::', 'std::')
    return [('T', sp(x[2][0][1])) if x[:2] == ('call', TYPE_NAME) else x for x in parts]


def reserved(C, args):
    if not args:
        return 'default'
    if len(args) == 1:
        a = args[0].strip()
        core = re.sub(r'^(const |volatile )+', '', a.rstrip('& ')).strip()
        if core == C:
            return 'move' if a.endswith('&&') else 'copy'
    return None


RES = {}


def lookups(ctx, p):
    """The reserved names are those the special lookups ask for, and they differ."""
    for bn, kind in LOOKUPS.items():
        f = ctx.fns(bn)[0]
        for q in ctx.explore(f, **opts(p, 'rtti::MetaContainer::getConstructor')) or ():
            ctx.count('paths')
            lits = {s[1] for e in q.events for a in e.args for s in subterms(a) if s and s[0] == 's'} | {s[1] for s in subterms(q.val) if s and s[0] == 's'} if q.val else set()
            lits.discard('')
            short = bn.replace('rtti::', '')
            if not lits:
                ctx.undecided(short, f.where(), 'no reserved name is looked up')
                continue
            want = RES.get(kind)
            if want:
                ctx.req(want <= lits and not any(lits & RES.get(o, set()) for o in LOOKUPS.values() if o != kind), short, f.where(),
                        'looks up %s while such a constructor is registered as %s' % (', '.join(sorted(lits)), ', '.join(sorted(want))))
    for k, v in RES.items():
        ctx.req(len(v) == 1 and not any(v & w for o, w in RES.items() if o != k), 'reserved name of the %s constructor' % k, 'include/rtti/metadefine.h',
                'names %s are not one name of its own' % sorted(v))


# -- names of types ------------------------------------------------------------------------------------------------------------

TYPES = ('int', 'const w::A&', 'w::A&&', 'const char*', 'const char* const', 'int [3]', 'int [2][3]', 'int (&)[4]', 'w::Of<int [3]>', 'w::Of<w::A>', 'w::Of<w::Of<const w::A*> >',
         'void (*)(int, const w::A&)', 'int (w::A::*)(char) const', 'int w::A::*', 'w::Pair<int, 7>', 'w::T', 'bool', 'volatile long int*', 'std::nullptr_t')
DECLS = 'namespace w { struct A {}; template<class X> struct Of {}; template<class X, int N> struct Pair {}; struct T {}; }\n'


class Unknown(Exception):
    pass


def value(t, text):
    """Evaluate a term over the generated text: ('p', offset) for pointers into it, str for strings, int for numbers, None for a null pointer."""
    t = bare(t)
    k = t[0]
    if t == ('opq', '__PRETTY_FUNCTION__'):
        return ('p', 0)
    if k == 's':
        return t[1]
    if k == 'c':
        return t[1]
    if k == 'null':
        return None
    if k == 'size':
        v = string(value(t[1], text), text)
        return len(v)
    if k == 'op' and t[1] in ('+', '-'):
        a, b = value(t[2], text), value(t[3], text)
        if t[1] == '+' and isinstance(a, tuple) and isinstance(b, int):
            return ('p', a[1] + b)
        if t[1] == '+' and isinstance(b, tuple) and isinstance(a, int):
            return ('p', b[1] + a)
        if t[1] == '-' and isinstance(a, tuple) and isinstance(b, int):
            return ('p', a[1] - b)
        if t[1] == '-' and isinstance(a, tuple) and isinstance(b, tuple):
            return a[1] - b[1]
        if isinstance(a, int) and isinstance(b, int):
            return a + b if t[1] == '+' else a - b
        raise Unknown(show(t))
    if k == 'op' and t[1] in ('!=', '==', '<', '>', '<=', '>='):
        a, b = value(t[2], text), value(t[3], text)
        a, b = (x[1] if isinstance(x, tuple) else -10**9 if x is None else x for x in (a, b))
        if type(a) is not type(b):
            raise Unknown(show(t))
        return int({'!=': a != b, '==': a == b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[t[1]])
    if k == 'op' and t[1] == '!=0':
        v = value(t[2], text)
        return int(v is not None and v != 0)
    if k == 'not':
        return int(not value(t[1], text))
    if k == 'call':
        n = t[1].split('::')[-1]
        a = [value(x, text) for x in t[2]]
        if n in ('strstr', 'strchr', 'strrchr') and len(a) == 2 and isinstance(a[0], tuple):
            c = chr(a[1]) if isinstance(a[1], int) else string(a[1], text)
            i = text.rfind(c) if n == 'strrchr' else text.find(c, a[0][1])
            return ('p', i) if i >= a[0][1] else None
        if n == 'strlen':
            return len(string(a[0], text))
        if n == 'substr':
            s = string(a[0], text)
            if isinstance(t[2][0], tuple) and len(a) == 2 and isinstance(a[0], tuple):     # (pointer, length)
                if not 0 <= a[1]:
                    raise Unknown(show(t))
                return s[:a[1]] if a[1] <= len(s) else s + '\0'
            i = a[1] if len(a) > 1 else 0
            return s[i:i + a[2]] if len(a) > 2 and a[2] >= 0 else s[i:]
        if n in ('find', 'rfind') and len(a) >= 2:
            s = string(a[0], text)
            c = chr(a[1]) if isinstance(a[1], int) else string(a[1], text)
            i = s.find(c, a[2] if len(a) > 2 else 0) if n == 'find' else s.rfind(c)
            return i
    raise Unknown(show(t))


def string(v, text):
    if isinstance(v, tuple):
        return text[v[1]:]
    if isinstance(v, str):
        return v
    raise Unknown(str(v))


def holds(a, text):
    return bool(value(a, text))


def texts(ctx):
    """(type, text, origin): what the compilers generate for the function the name is taken from."""
    out = []
    for t in TYPES:
        out.append((t, 'rtti::internal::TypeName<T>::TypeName() [with T = %s]' % t, 'text in the style of gcc'))
        out.append((t, 'rtti::internal::TypeName<%s>::TypeName() [T = %s]' % (t, t), 'text in the style of clang'))
    return out


def generated():
    """Signature texts that the building compiler itself puts into the object code."""
    cxx = next((c for c in ('g++-10', 'g++') if not subprocess.call(['sh', '-c', 'command -v %s >/dev/null' % c])), None)
    if cxx is None:
        return None
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, 't.cpp')
        with open(src, 'w') as o:
            o.write('#include <string_view>\n#include <cstddef>\n#include <rtti/typename.h>\n' + DECLS)
            for i, t in enumerate(TYPES):
                o.write('std::string_view f%d() { return rtti::type_name<%s>(); }\n' % (i, t))
        r = subprocess.run([cxx, '-std=c++17', '-w', '-DNDEBUG', '-O0', '-S', '-I' + REPO + '/include', '-o', '-', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            return None
        return [m.group(1) for m in re.finditer(r'\.string\s+"((?:[^"\\]|\\.)*)"', r.stdout.decode('utf-8', 'replace'))]


def type_names(ctx, p):
    fs = [f for f in ctx.fns(TYPE_NAME) if f.body is not None]
    f = fs[0]
    key = 'name of a type'
    ps = [q for q in ctx.explore(f, **opts(p)) or () if q.ctl == 'return']

    if not ps or not any(s and s[0] == 'call' and s[1] != 'substr' for q in ps for s in subterms(q.val)):
        ctx.undecided(key, f.where(), 'the front end has folded it for one compiler' if ps else 'no path returns')
        return

    def named(text):
        for q in ps:
            if all(holds(a, text) == bool(b) for a, b, *_ in q.branches):
                return string(value(q.val, text), text)
        raise Unknown('no path')
    try:
        for t, text, origin in texts(ctx):
            ctx.count('texts')
            got = named(text)
            ctx.req(got == t, key, f.where(), 'the name of %s, taken from the %s, is "%s"' % (t, origin, got))
        strings = generated()
        if strings is None:
            ctx.ok(key + ' (compiler)', f.where(), 'building compiler not available, only the known styles are evaluated')
            return
        names = set()
        for s in strings:
            try:
                names.add(named(s))
            except Unknown:
                pass
        sp = lambda x: re.sub(r'\s+', '', x)
        have = {sp(x) for x in names}
        missing = [t for t in TYPES if sp(t) not in have]
        ctx.count('texts', len(TYPES))
        ctx.req(not missing, key + ' (compiler)', f.where(), 'from the text that the building compiler generates, the name of %s does not come out; got %s' % (', '.join(missing[:3]), ' | '.join(sorted(names)[:4])))
    except Unknown as e:
        ctx.undecided(key, f.where(), 'not evaluated: %s' % e)


def run(ctx):
    p = ctx.load('invoke.cpp')
    RES.clear()
    fields = {}
    for n in ('name', 'owner', 'qualifiedName'):
        fields[n] = accessor(ctx, p, n)[0]
    if None not in fields.values():
        item(ctx, p, fields)
        creation(ctx, p, fields)
    signatures(ctx, p)
    lookups(ctx, p)
    type_names(ctx, p)
    ctx.rule = 'item names, owners, qualified names, signatures and type names are what they were given'
