"""Summaries of the invokers behind methods, constructors and properties (implementations of the public invoker interfaces)."""
import re
from .registry import *
from .interp import LV

STOPS = ('rtti::argument::value', 'rtti::argument::empty', 'rtti::customTypes', 'rtti::variant::typeId', 'rtti::type_name', 'rtti::type_name_imp',
         'rtti::MetaType::isClass', 'rtti::MetaType::isClassPtr', 'rtti::MetaType::typeName', 'rtti::MetaType::{ctor}')
VALUE = 'rtti::argument::value'


def split(s):
    """Top-level comma separated parts."""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Sig:
    """Signature of a function (member) pointer type as the compiler spells it."""
    def __init__(self, s):
        self.text = s
        m = re.search(r'\((?:(\S[^()]*)::)?\*\)\(', s)
        if not m:
            raise ValueError(s)
        self.cls = m.group(1)
        self.ret = s[:m.start()].strip()
        i, d = m.end(), 1
        while d:
            d += {'(': 1, ')': -1}.get(s[i], 0)
            i += 1
        self.args = [a for a in split(s[m.end():i - 1]) if a != 'void']
        self.const = bool(re.search(r'\bconst\b', s[i:]))

    @property
    def void(self):
        return self.ret == 'void'


def targs(cls):
    """Template arguments of a class as spelled."""
    i = cls.find('<')
    return split(cls[i + 1:cls.rindex('>')]) if i >= 0 else []


def impls(p, iface, method):
    """Implementations (with a body) of a pure virtual operation of an interface."""
    rec = p.records.get(iface)
    if rec is None:
        raise Broken('anchor vanished: ' + iface)
    ms = [m for m in rec['methods'] if m['n'] == iface + '::' + method]
    if not ms:
        raise Broken('anchor vanished: %s::%s' % (iface, method))
    out = []
    for m in ms:
        for fid in p.all_overriders(m['f']):
            f = p.funcs.get(fid)
            if f is not None and f.body is not None and f not in out:
                out.append(f)
    return out


def ident(it, loc):
    """Which argument object a location is: ('param', name) of the invoker, ('none',) a default (empty) one, or the location."""
    v = it.base_value(loc)
    if v and v[0] == 'init' and v[1][0] == 'var' and v[1][2] == 0:
        return ('param', v[1][1])
    if v and v[0] == 'init' and v[1][0] == 'deref' and v[1][1][0] == 'init' and v[1][1][1][0] == 'var' and v[1][1][1][2] == 0:
        return ('param', v[1][1][1][1])
    if v and v[0] == 'obj0':
        return ('none',)
    return ('loc', loc)


def h_empty(it, e, obj, args):
    i = ident(it, obj)
    if i == ('none',):
        return ('c', 1)
    return ('call', 'rtti::argument::empty', (i,), 'bool')


def h_value(it, e, obj, args):
    f = it.p.funcs.get(e.get('f'))
    T = f.ta[0] if f is not None and f.ta else '?'
    i = ident(it, obj)
    it.event('argvalue', VALUE, (i,), obj=obj, line=e.get('l'), node=e, T=T)
    t = ('call', VALUE, (i,), T)
    return LV(('deref', t)) if T.endswith('&') else t


def summaries(ctx, f, *stop, **kw):
    hooks = {'rtti::argument::empty': h_empty, VALUE: h_value}
    hooks.update(kw.pop('hooks', {}))
    kw.setdefault('hook', handed_on)
    return ctx.explore(f, hooks=hooks, **opts(ctx.prog, *STOPS, *stop, **kw))


def handed_on(it, e, bn, dest):
    """An argument moved into another is the same argument (what the constructor does with the value is the subject of C17)."""
    if e.get('k') != 'ctor' or not e.get('mc') or bn != 'rtti::argument::{ctor}':
        return NotImplemented
    a = it.ev(e['args'][0])
    src = a.loc if isinstance(a, LV) else it.tmp(a)
    it.copy_obj(src, dest)
    return LV(dest)


def expand(q, t, d=0):
    """Replace addresses of temporaries by what they hold."""
    if not isinstance(t, tuple) or not t or d > 12:
        return t
    if t[0] in ('addr', 'init') and isinstance(t[1], tuple) and t[1] and t[1][0] in ('tmp',) and t[1] in q.mem:
        return ('at', expand(q, q.mem[t[1]], d + 1))
    return tuple(expand(q, x, d + 1) if isinstance(x, tuple) else x for x in t)


def argvals(t):
    """Argument reads mentioned in a term: [(identity, type)]."""
    out = []
    for s in subterms(t):
        if s and s[0] == 'call' and s[1] == VALUE and (s[2][0], s[3]) not in out:
            out.append((s[2][0], s[3]))
    return out


def calls(q):
    """Calls through a function or member function pointer."""
    return [e for e in q.events if e.kind in ('pmcall', 'icall') and not e.x.get('threw')]


def accesses(q, inst):
    """Typed reads of an instance variant: [(event, member, type argument, called on const)]."""
    out = []
    for e in q.events:
        if e.kind == 'call' and e.n.startswith('rtti::variant::') and e.obj is not None and e.obj == inst:
            f = e.x.get('target')
            if f is not None and f.ta:
                out.append((e, f.bn[15:], f.ta[0], bool(f.d.get('cm'))))
    return out


def of_instance(q, loc, inst):
    """How a location was obtained from the instance: (member of variant, type argument, const overload, event) or None."""
    for e, n, ta, cm in accesses(q, inst):
        if e.res is not None and contains(loc, e.res):
            return n, ta, cm, e
    return None


def fixed(ta):
    """Is the object a type argument (object or pointer) gives access to constant?"""
    return bool(re.search(r'\bconst\b', ta[:ta.rfind('*')] if '*' in ta else ta))


def where_const(e):
    return e.where()
