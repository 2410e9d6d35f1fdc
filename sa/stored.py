"""The operation tables a variant uses, one per stored type: which function fills which slot, where each storage kind keeps its object,
and path summaries of the slots over that place."""
import re
from .registry import *
from . import slots as S
from . import vtable as V
from .core import Undecided

REFW = 'std::reference_wrapper<'
CELL = ('cell',)


class Stored:
    """One table. kind: inline, heap, array or ref; slots: role -> function; spec of what is stored or referred to."""
    def __init__(self, name, f, slots):
        self.name, self.f, self.slots = name, f, slots
        self.ref = name.startswith(REFW)
        self.inner = name[len(REFW):-1].strip() if self.ref else name
        self.bare = strip_const(self.inner)
        self.array = self.bare.endswith(']')
        self.kind = None


def strip_const(T):
    """Spelling of a type without its top-level constness; of arrays, without that of the elements."""
    T = T.strip()
    m = re.match(r'^(.*?)((?:\s*\[\d+\])+)$', T)
    if m:
        return strip_const(m.group(1)) + m.group(2)
    m = re.match(r'^(.*\(\*)const(\)\(.*\))$', T)
    if m:
        return m.group(1) + m.group(2)
    if '*' in T or '&' in T:
        return re.sub(r'\s*\bconst$', '', T)
    return re.sub(r'^const\s+', '', T)


def key(T):
    return re.sub(r'\s+', '', T)


class Specs:
    def __init__(self, ctx, p):
        self.spec, self.klass, self.names = {}, {}, {}
        for f in p.fn('w::spec'):
            if f.body is None:
                continue
            for q in ctx.explore(f) or ():
                ex = [e for e in q.events if e.kind == 'call' and e.n == 'w::expect_stored']
                if q.ctl == 'return' and ex:
                    c = [S.const(a) for a in ex[0].args]
                    T = f.ta[0]
                    self.spec[key(T)] = S.Spec(T, S.elem_of(T), *c[:14])
                    self.klass[key(T)] = tuple(bool(x) for x in c[14:17])
        for f in p.fn('w::names'):
            if f.body is None:
                continue
            for q in ctx.explore(f, hooks=V.hooks(p)) or ():
                ex = [e for e in q.events if e.kind == 'call' and e.n == 'w::expect_names']
                if q.ctl == 'return' and ex:
                    self.names[key(f.ta[0])] = ex[0].args


def tables(ctx, p):
    """Every table of the witness."""
    t = V.table(p)
    out = []
    for bn in sorted(t.makers):
        for f in p.fn(bn):
            if f.body is None or not f.ta:
                continue
            slots = {}
            for q in ctx.explore(f) or ():
                if q.ctl != 'return':
                    continue
                for k, v in q.mem.items():
                    if k[0] == 'fld' and k[2] in t.role and v:
                        w = q.it.base_value(v) if v[0] == 'init' else v
                        if w and w[0] == 'lam':
                            g = p.funcs.get(w[1])
                        else:
                            g = p.funcs.get(w[1]) if w and w[0] == 'fn' else None
                        if g is not None and g.bn.endswith('::__invoke'):
                            g = next((x for x in p.fn(g.bn[:-len('__invoke')] + 'operator()') if x.body is not None), None)
                        if g is not None:
                            slots[t.role[k[2]]] = g
            out.append(Stored(f.ta[0], f, slots))
    return out


def store_params(p, f):
    """Locations of the storage parameters of a slot, in order."""
    st = V.table(p).store
    out = []
    for i, x in enumerate(f.params):
        if st in x['t']:
            out.append(('deref', param(f, i)))
    return out


def norm(t, sts):
    """All fields of the storage union share its address."""
    if not isinstance(t, tuple):
        return t
    if t in sts:
        return ('fld', t, 'store')
    if t and t[0] == 'fld' and len(t) == 3:
        b = norm(t[1], sts)
        if isinstance(b, tuple) and b and b[0] == 'fld' and b[2] == 'store' and b[1] in sts:
            return b
        return ('fld', b, t[2])
    return tuple(norm(x, sts) for x in t)


def place(st, kind):
    """Pointer to the object kept in a storage."""
    c = ('fld', st, 'store')
    return ('addr', c) if kind == 'inline' else ('init', c)


def paths(ctx, p, f, exc=False, **kw):
    kw['nothrow'] = {'operator new', 'operator new[]', 'malloc', 'aligned_alloc'} | set(kw.get('nothrow', ()))
    return ctx.explore(f, exc=exc, hooks=V.hooks(p), stop={'rtti::type_name'} | DEFER_SET | {g for g in p.bybn if g.endswith('::classInfo') or g.startswith('w::') and g.endswith('::{dtor}')}, **kw)


def final(q, st):
    """What the storage's pointer holds in the end; None when it is not written."""
    out = None
    for k, v in q.mem.items():
        n = norm(k, (st,))
        if n == ('fld', st, 'store') and k != st:
            out = v
    return out
