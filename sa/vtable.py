"""The type table behind variant: its slots are recognised by their signatures, calls through it become slot events."""
import re
from .registry import *
from .interp import LV, nocv, Interp, Opts, Throw

VARIANT = 'rtti::variant'


class Table:
    """rec: record of the type table; role: field -> slot; field: slot -> field; man/sto: fields of variant; store: record of the storage."""
    def __init__(self, p):
        v = p.records.get(VARIANT)
        if v is None:
            raise Broken('anchor vanished: ' + VARIANT)
        self.rec = None
        for x in v['fields']:
            t = x['t'].replace('const ', '').replace('*', '').replace('const', '').strip()
            r = p.records.get(t)
            if x['t'].rstrip(' const').endswith('*') and r is not None and sum('(*' in y['t'] for y in r['fields']) >= 5:
                self.rec, self.man, self.fields = t, x['n'], r['fields']
        if self.rec is None:
            raise Broken('type table of variant not recognised')
        rest = [x for x in v['fields'] if x['n'] != self.man]
        if len(rest) != 1:
            raise Broken('storage of variant not recognised')
        self.sto, self.store = rest[0]['n'], rest[0]['t']
        self.role, self.field = {}, {}
        for x in self.fields:
            r = self.slot(x['t'])
            if r and r not in self.field:
                self.role[x['n']] = r
                self.field[r] = x['n']
        # functions that yield the table of a type
        self.makers = {f.bn for f in p.funcs.values() if f.ta and f.rt and nocv(f.rt.replace('const', '').replace('*', '')).strip() == self.rec and f.rt.strip().endswith('*')}
        self.p = p

    def slot(self, t):
        m = re.match(r'(.*?)\s*\(\*\s*(?:const)?\)\((.*)\)', t)
        if not m:
            return None
        return self.signature(m.group(1), [a.strip() for a in m.group(2).split(', ')])

    def signature(self, ret, args):
        S, CS = self.store + ' &', 'const ' + self.store + ' &'
        ret = ret.strip()
        if ret == 'void':
            return {(CS, S): 'copy', (S, S): 'move', (S,): 'destroy', ('const void *', S): 'copy_construct', ('void *', S): 'move_construct'}.get(tuple(args))
        if ret == 'bool':
            return 'compare' if args == [CS, 'const void *'] else None
        if ret == 'const void *':
            return 'access' if args == [CS] else None
        if ret.endswith('ClassInfo'):
            return 'info' if args == [CS] else None
        if 'meta_type_tag' in ret or ret.endswith('MetaType_ID'):
            return 'type' if len(args) == 1 and 'type_attribute' in args[0] or len(args) == 1 and args[0] not in (CS, S) else None
        return None

    def slot_of(self, f):
        """(slot, table term) of the callee of an indirect call."""
        if f and f[0] == 'init' and f[1][0] == 'fld' and f[1][2] in self.role:
            return self.role[f[1][2]], f[1][1]
        return None

    def manager(self, loc):
        return ('fld', loc, self.man)

    def storage(self, loc):
        return ('fld', loc, self.sto)


def table(p):
    t = p.__dict__.get('_vtable')
    if t is None:
        t = p._vtable = Table(p)
    return t


def typeid(T):
    return ('typeid', T)


def hooks(p):
    """Values for type identifiers and tables of types."""
    t = table(p)

    def h_typeid(it, e, obj, args):
        f = it.p.funcs.get(e.get('f'))
        T = f.ta[0] if f is not None and f.ta else '?'
        it.event('call', 'rtti::metaTypeId', (), res=('typeid', T), line=e.get('l'), node=e, target=f)
        return ('typeid', T)

    def h_table(it, e, obj, args):
        f = it.p.funcs.get(e.get('f'))
        if f is None or not f.ta:
            return NotImplemented
        return ('addr', ('glob', 'table:' + f.ta[0]))
    out = {'rtti::metaTypeId': h_typeid}
    out.update({m: h_table for m in t.makers})
    return out


def icall_hook(p, nothrow=()):
    t = table(p)

    def h(it, e, f, args, dest):
        s = t.slot_of(f)
        if s is None:
            return NotImplemented
        role, M = s
        tab = M[1] if M[0] == 'deref' else ('addr', M)
        if it.o.exc and role not in nothrow and role not in ('destroy', 'access', 'type'):
            if it.choice(2, ('throws', role)) == 1:
                it.event('slot', 'slot:' + role, args, obj=tab, node=e, role=role, threw=True)
                raise Throw('*', None, e.get('l'))
        ev = it.event('slot', 'slot:' + role, args, obj=tab, node=e, role=role)
        if e.get('t') == 'void':
            return None
        ev.res = ('call', 'slot:' + role, (tab,) + tuple(args), e.get('t'))
        return it.ret_value(e, ev.res, dest)
    return h


MT = 'rtti::MetaType::'
MT_CONST = ('valid', 'typeId', 'decayId', 'decayed', 'typeName', 'typeSize', 'typeFlags', 'isConst', 'isLvalueReference', 'isRvalueReference', 'isReference', 'isClass',
            'isPointer', 'isVoidPtr', 'isClassPtr', 'isFunctionPtr', 'isArray', 'pointerArity', 'metaClass')
MT_OPS = ('allocate', 'deallocate', 'default_construct', 'copy_construct', 'move_construct', 'move_or_copy', 'destroy', 'compare_eq', 'construct', 'destruct')
MT_STATIC = ('compatible', 'hasConverter', 'convert')
NOTHROW = set(MT_CONST) | {'deallocate', 'destroy', 'destruct', 'compatible', 'hasConverter'}


def mt(it, t):
    """Identifier a descriptor handle stands for."""
    for _ in range(20):
        if t and t[0] == 'mt':
            t = t[1]
        elif t and t[0] == 'call' and t[1] == MT + 'typeId':
            t = t[2][0]
        elif t and t[0] in ('init', 'sv', 'addr') and len(t) > 1 and isinstance(t[1 if t[0] != 'sv' else 2], tuple):
            v = it.base_value(t[1 if t[0] != 'sv' else 2])
            if v is None or v == t or v[0] == 'init' and t[0] == 'init':
                return t
            t = v
        else:
            break
    return t


def metatype_hooks(p):
    """Handles of type descriptors are values named by their identifier; their operations become call events on those values."""
    out = {}

    def ctor(it, e, obj, args):
        if e.get('cc') or e.get('mc') or len(args) != 1:
            return NotImplemented
        pt = (e.get('pt') or [''])[0]
        if 'string_view' in pt:
            return NotImplemented
        it.write(obj, ('mt', mt(it, args[0])))
        return True

    def member(name):
        bn = MT + name

        def h(it, e, obj, args):
            f = it.p.funcs.get(e.get('f'))
            a = []
            if obj is not None:
                a.append(mt(it, ('addr', obj)))
            for x, t in zip(args, e.get('pt') or [''] * len(args)):
                a.append(mt(it, x) if 'MetaType' in t or 'meta_type_tag' in t else x)
            if name == 'typeId':
                return a[0]
            if it.o.exc and name not in NOTHROW:
                if it.choice(2, ('throws', name)) == 1:
                    it.event('mt', bn, a, line=e.get('l'), node=e, op=name, threw=True)
                    raise Throw('*', None, e.get('l'))
            ev = it.event('mt', bn, a, line=e.get('l'), node=e, op=name, target=f)
            if name in ('copy_construct', 'move_construct', 'move_or_copy') and len(a) == 3 or name == 'convert' and len(a) == 4:
                it.write(it.deref(a[2]), ('made', ev.i))
            if (e.get('t') or '') == 'void':
                return None
            ev.res = ('call', bn, tuple(a), e.get('t')) + ((it.fresh('k')[1],) if name in ('allocate', 'construct', 'convert') else ())
            return ev.res
        return h
    out[MT + '{ctor}'] = ctor
    for n in MT_CONST + MT_OPS + MT_STATIC:
        if any(f.bn == MT + n for f in p.funcs.values()):
            out[MT + n] = member(n)
    return out


STOP = ('rtti::variant::empty', 'rtti::variant::typeId', 'rtti::MetaClass::find', 'rtti::MetaClass::cast', 'rtti::MetaClass::inheritedFrom', 'rtti::type_name')


def summaries(ctx, f, *stop, nothrow=(), exc=False, hooks_=None, **kw):
    """Paths of a function over variants with the type table and type descriptors as opaque values."""
    p = ctx.prog
    hs = dict(hooks(p))
    hs.update(metatype_hooks(p))
    hs.update(hooks_ or {})
    return ctx.explore(f, **dict(reenter=2, stop=set(STOP) | set(stop) | DEFER_SET, hooks=hs, hook_icall=icall_hook(p, nothrow), exc=exc, nonnull_elems=True, **kw))


def attributes(ctx):
    """Meaning of the attribute given to the type slot: constant -> '', '&', '&&', 'const &' (as most tables answer)."""
    p = ctx.prog
    t = table(p)
    votes = {}
    for f in p.funcs.values():
        if f.body is None or len(f.params) != 1 or not f.cls or not f.rt or 'meta_type_tag' not in f.rt or 'type_attribute' not in f.params[0]['t'] or f.cls == VARIANT:
            continue
        base = targs_first(f.cls)
        if base is None or base.endswith(']') or '*' in base or base.startswith('const ') or 'reference_wrapper' in base:
            continue
        for k in range(8):
            ps = Interp(p, Opts(hooks=hooks(p))).explore(f, args=[('c', k)])
            vals = {q.val for q in ps if q.ctl == 'return'}
            if len(vals) == 1 and list(vals)[0] and list(vals)[0][0] == 'typeid':
                T = list(vals)[0][1]
                form = {base: '', base + ' &': '&', base + ' &&': '&&', 'const ' + base + ' &': 'const &'}.get(T)
                votes.setdefault(k, {}).setdefault(form, 0)
                votes[k][form] += 1
    return {k: max(v, key=v.get) for k, v in votes.items()}


def targs_first(cls):
    from .invoke import targs
    ta = targs(cls)
    return ta[0] if ta else None
