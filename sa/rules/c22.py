"""The registration builder.  Every step of meta_define, instantiated for namespaces and classes, is summarised path by path over the
position it starts from (current item, current container, stack of enclosing containers): the items it registers, with their name,
container and target, and the position it returns must be the ones its step stands for; a step that fails leaves the position it
started from or one the end of the item it opened restores.  Opening a class registers exactly the constructors the class has, a base
is declared with the cast from the class to that base, and a lazy definition runs on a builder positioned at its container.
Setting an attribute or element stores the given value on every path, whether or not one of that name exists."""
from ..vtable import *
from ..registry import *
from ..invoke import targs
from .c15 import same, short

B = 'rtti::meta_define'
CREATE = {'rtti::%s::create' % n: n for n in ('MetaNamespace', 'MetaClass', 'MetaEnum', 'MetaConstructor', 'MetaMethod', 'MetaProperty')}
OTHER = {'rtti::MetaItem::setAttribute': 'attribute', 'rtti::MetaEnum::addElement': 'element', 'rtti::MetaClass::addBaseClass': 'base',
         'rtti::MetaContainer::setDeferredDefine': 'lazy', 'rtti::MetaType::registerConverter': 'converter', 'rtti::MetaClass::addDerivedClass': 'derived'}
STOPS = list(CREATE) + list(OTHER) + ['rtti::MetaItem::category', 'rtti::type_name', 'rtti::variant::{ctor}', 'rtti::MetaNamespace::global']
# constructors of the witness classes
CTORS = {'w::Full': 'dcm', 'w::NoDefault': 'cm', 'w::MoveOnly': 'dm', 'w::CopyOnly': 'dcm', 'w::Fixed': '', 'w::Abstract': '', 'w::Bare': 'dcm', 'w::Nested': 'dcm'}
CONVERTING = {('w::Full', ('int',)), ('w::Full', ('const w::Nested &',))}


def run(ctx):
    p = ctx.load('builder.cpp')
    roles = position(p)
    n = {}
    for f in sorted((f for f in p.funcs.values() if f.body is not None and (f.cls or '').startswith(B + '<') and f.bn.startswith(B + '::_')), key=lambda f: (f.bn, f.cls, str(f.ta))):
        step = f.bn.split('::')[-1]
        ta = targs(f.cls)
        key = '%s%s of %s' % (step, '<%s>' % ', '.join(short(str(t)) for t in f.ta) if f.ta else '', 'a namespace' if ta[0] == 'void' else ta[0])
        key += ' (%d)' % len(f.params) if step in ('_property', '_class') else ''
        if step not in STEPS:
            continue
        with ctx.guard(key, f.where()):
            ps = summaries(ctx, f, *STOPS, exc=True)
            if ps is None:
                continue
            n[step] = n.get(step, 0) + 1
            bad = und = None
            for q in ps:
                w = Step(ctx, p, f, q, roles, ta).check(step)
                if w and w[0] == '?':
                    und = und or w[1:]
                elif w:
                    bad = bad or w
            if not any(q.ctl == 'return' for q in ps):
                bad = bad or 'never succeeds'
            if bad:
                ctx.bad(key, f.where(), bad)
            elif und:
                ctx.undecided(key, f.where(), und)
            else:
                ctx.ok(key, f.where(), '%d paths' % len(ps))
    ctx.counts['steps'] = sum(n.values())
    missing = [s for s in STEPS if s not in n]
    if missing:
        raise Broken('steps of the builder not found: %s' % missing)
    start(ctx, p, roles)
    callbacks(ctx, p, roles)
    values(ctx, p)


def values(ctx, p):
    """An attribute or element that is set again holds the value given last: every path with a name passes the value on."""
    for n in ('rtti::MetaItem::setAttribute', 'rtti::MetaEnum::addElement'):
        for f in p.fn(n):
            if f.body is None or len(f.params) < 2:
                continue
            what = '%s(%s)' % (f.n, short(f.params[1]['t']))
            val = ('var', f.params[1]['n'], 0)
            good = 0
            for q in ctx.explore(f, **opts(p)) or ():
                if q.ctl != 'return' or truth(q, ('op', '==', ('size', param(f)), ('c', 0))) is True:
                    continue
                if any(e.kind not in ('move', 'enter', 'leave', 'cast') and any(contains(a, val) for a in e.args) for e in q.events):
                    good += 1
                elif any(e.kind == 'unknown' for e in q.events):
                    ctx.undecided(what, f.where(), 'not fully modelled')
                else:
                    ctx.bad(what, f.where(), 'the value given is not stored: %s' % path_desc(q))
            if good:
                ctx.ok(what, f.where(), '%d paths' % good)


def position(p):
    """Fields of the builder by their role."""
    for name, r in p.records.items():
        if name.startswith(B + '<void'):
            out = {}
            for fl in r['fields']:
                t = fl['t'].replace(' ', '')
                if t == 'rtti::MetaItem*':
                    out['item'] = fl['n']
                elif t == 'rtti::MetaContainer*':
                    out['container'] = fl['n']
                elif t.startswith('std::stack<') and t.endswith('*'):
                    out['stack'] = fl['n']
            if len(out) == 3:
                return out
    raise Broken('position of the builder not recognised')


def now(roles):
    return {k: ('init', ('fld', THIS, f)) for k, f in roles.items()}


def bare(t):
    return nocv(t.replace('&', '').strip()).strip()


class Step:
    def __init__(self, ctx, p, f, q, roles, ta):
        self.ctx, self.p, self.f, self.q, self.roles = ctx, p, f, q, roles
        self.T, self.MB = ta[0], ta[1] if len(ta) > 1 else 'void'
        self.at = now(roles)
        self.eff = [e for e in q.events if e.kind == 'call' and (e.n in CREATE or e.n in OTHER)]
        self.stackloc = ('deref', self.at['stack'])
        self.ops = [e for e in q.events if e.kind == 'cont' and e.obj == self.stackloc and e.n in ('push', 'emplace', 'pop', 'push_back', 'emplace_back', 'pop_back')]

    # parts of an event
    def here(self, t):
        """Does the term refer to the current container?"""
        return unref(t) == self.at['container']

    def named(self, t):
        if not self.f.params or 'string_view' not in self.f.params[0]['t']:
            return '?no name parameter'
        if t == ('init', ('var', self.f.params[0]['n'], 0)):
            return None
        return 'under the name %s instead of the given one' % show(t)[:60]

    def typed(self, t, T):
        for s in subterms(t):
            if s[0] == 'typeid':
                return None if same(s[1], T) else 'with the identifier of %s instead of %s' % (s[1], T)
        return '?identifier not understood: %s' % show(t)[:60]

    def invoker(self, t):
        """(class of the invoker, its location) handed to a create."""
        for s in subterms(t):
            if s[0] == 'obj':
                for e in self.q.events:
                    if e.kind == 'new' and (e.obj == s or e.res == ('addr', s)):
                        return e.n, s
        return None, None

    def stored(self, loc, i):
        """Is the i-th parameter stored inside of the object?"""
        names = ('var', self.f.params[i]['n'], 0)
        for k, v in self.q.mem.items():
            if self.q.it._base(k) == loc and v is not None and any(s == names for s in subterms(v)):
                return True
        for e in self.q.events:
            if e.kind in ('ctor', 'construct') and e.obj is not None and self.q.it._base(e.obj) == loc and any(s == names for a in e.args for s in subterms(a)):
                return True
        return False

    def result(self):
        """Position of the builder handed back."""
        v = self.q.val
        out = dict(self.at)
        over = {}
        while v is not None and v[0] == 'rec':
            for k, x in v[2]:
                over.setdefault(k[0], x)
            v = v[1]
        if v is None:
            return None
        if v != ('init', THIS):
            out = {}
        for r, f in self.roles.items():
            if f in over:
                out[r] = over[f]
        return out if len(out) == 3 else None

    def stays(self, item=None):
        """The position handed back is the one started from (with another item)."""
        r = self.result()
        if r is None:
            return '?position handed back not understood'
        if self.ops:
            return 'changes the stack of containers: %s' % ', '.join(e.n for e in self.ops)
        for k in ('container', 'stack', 'item'):
            want = item if k == 'item' and item is not None else self.at[k]
            if unref(r[k]) != unref(want):
                return 'goes on with %s as its %s' % (show(r[k])[:80], {'container': 'container', 'stack': 'stack', 'item': 'item attributes attach to'}[k])
        return None

    def check(self, step):
        q = self.q
        if any(null_fact(k, v, x) for k, v in q.facts.items() for x in self.at.values()):
            return None
        if q.ctl == 'throw':
            return self.failed()
        if q.ctl != 'return':
            return None
        return getattr(self, 's' + step)()

    def failed(self):
        """A step that fails keeps the position or has opened an item properly."""
        cont = self.q.mem.get(('fld', THIS, self.roles['container']), self.at['container'])
        depth = sum(1 if e.n.startswith(('push', 'emplace')) else -1 for e in self.ops)
        if depth == 0 and unref(cont) == unref(self.at['container']):
            return None
        made = [e for e in self.eff if e.n in ('rtti::MetaNamespace::create', 'rtti::MetaClass::create') and not e.x.get('threw')]
        if depth == 1 and made and unref(cont) == unref(made[0].res):
            return None
        if depth == -1 and unref(cont) != unref(self.at['container']):
            return None
        return 'a failure leaves the builder with %s container on the stack%s' % (
            'an extra' if depth > 0 else 'a missing' if depth < 0 else 'the same', '' if unref(cont) == unref(self.at['container']) else ' and another current container')

    def one(self, name):
        es = [e for e in self.eff if e.n == name]
        others = [e for e in self.eff if e.n != name]
        if not es:
            return None, 'registers nothing'
        if len(es) > 1:
            return None, 'registers %d items' % len(es)
        if others:
            return None, 'also does %s' % others[0].n.replace('rtti::', '')
        return es[0], None

    def opened(self, e, others=()):
        """The builder handed back stands in the created item, the enclosing container is on the stack."""
        r = self.result()
        if r is None:
            return '?position handed back not understood'
        push = [x for x in self.ops if x.n.startswith(('push', 'emplace'))]
        pop = [x for x in self.ops if x not in push]
        if len(push) != 1 or pop:
            return 'the enclosing container is %s' % ('not remembered' if not push else 'pushed %d times' % len(push) if not pop else 'removed')
        if not push[0].args or unref(push[0].args[0]) != self.at['container']:
            return 'remembers %s instead of the enclosing container' % show(push[0].args[0])[:60]
        if unref(r['stack']) != unref(self.at['stack']):
            return 'goes on with another stack'
        for k in ('container', 'item'):
            if unref(r[k]) != unref(e.res):
                return 'goes on with %s as its %s instead of the opened one' % (show(r[k])[:60], k)
        return None

    # the steps
    def s_namespace(self):
        e, w = self.one('rtti::MetaNamespace::create')
        if w:
            return w
        if not self.here(e.args[1]):
            return 'is made in %s instead of the current container' % show(e.args[1])[:60]
        return self.named(e.args[0]) or self.opened(e)

    def s_class(self):
        made = [e for e in self.eff if e.n == 'rtti::MetaClass::create']
        if len(made) != 1:
            return 'registers %d classes' % len(made)
        e = made[0]
        C = self.f.ta[0]
        if not self.here(e.args[1]):
            return 'is made in %s instead of the current container' % show(e.args[1])[:60]
        if self.f.params:
            w = self.named(e.args[0])
        else:
            t = [s for s in subterms(e.args[0]) if s[0] == 'call' and s[1] == 'rtti::type_name']
            src = [x for x in self.q.events if x.kind == 'call' and x.n == 'rtti::type_name' and t and x.res == t[0]]
            w = None if src else 'is not named by its type'
            for x in src:
                ta = x.x['target'].ta if x.x.get('target') is not None else x.node.get('ta')
                if ta and not same(ta[0], C):
                    w = 'is named by the type %s' % ta[0]
        w = w or self.typed(e.args[2], C) or self.opened(e)
        if w:
            return w
        got = []
        for x in self.eff:
            if x is e:
                continue
            if x.n != 'rtti::MetaConstructor::create':
                return 'also does %s' % x.n.replace('rtti::', '')
            if unref(x.args[1]) != unref(e.res):
                return 'registers a constructor in %s' % show(x.args[1])[:60]
            cls, _ = self.invoker(x.args[2])
            ta = cls and targs(cls)
            if not ta or not same(ta[0], C):
                return 'registers the constructor of %s' % (ta and ta[0]) if ta else '?constructor not understood'
            args = tuple(a.replace(' ', '') for a in ta[1:])
            kind = {(): 'd', ('const%s&' % C,): 'c', (C + '&&',): 'm'}.get(args)
            if kind is None:
                return 'registers a constructor from %s' % ', '.join(ta[1:])
            if x.args[0] not in (('s', ''), ('c', 0)) and x.args[0][0] == 's':
                return 'registers a constructor named %s' % show(x.args[0])
            got.append(kind)
        want = CTORS.get(C)
        if want is None:
            return None
        words = {'d': 'default', 'c': 'copy', 'm': 'move'}
        for k in want:
            if k not in got:
                return 'does not register its %s constructor' % words[k]
        for k in got:
            if k not in want:
                return 'registers a %s constructor it does not have' % words[k]
        if len(got) != len(set(got)):
            return 'registers a constructor twice'
        return None

    def s_enum(self):
        e, w = self.one('rtti::MetaEnum::create')
        if w:
            return w
        if not self.here(e.args[1]):
            return 'is made in %s instead of the current container' % show(e.args[1])[:60]
        return self.named(e.args[0]) or self.typed(e.args[2], self.f.ta[0]) or self.stays(e.res)

    def s_attribute(self):
        e, w = self.one('rtti::MetaItem::setAttribute')
        return w or self.attached(e, 'attribute')

    def s_element(self):
        if not self.eff:
            for k, v in self.q.facts.items():
                if any(s[0] == 'call' and s[1] == 'rtti::MetaItem::category' for s in subterms(k)):
                    if k[0] == 'op' and k[1] in ('==', '!=') and v is (k[1] == '=='):
                        return 'does not add the element to an enumeration'
                    return self.stays()
            return 'registers nothing'
        e, w = self.one('rtti::MetaEnum::addElement')
        return w or self.attached(e, 'element')

    def attached(self, e, what):
        if unref(('addr', e.obj)) != self.at['item']:
            return 'attaches the %s to %s instead of the item opened last' % (what, show(e.obj)[:60])
        w = self.named(e.args[0])
        if w:
            return w
        prm = ('var', self.f.params[1]['n'], 0)
        todo, seen, hit = [e.args[1]], set(), False
        while todo:
            for s in subterms(todo.pop()):
                if s == prm:
                    hit = True
                elif s[0] in ('tmp', 'var', 'obj') and s not in seen:
                    seen.add(s)
                    todo += [a for c in self.q.events if c.kind in ('ctor', 'construct') and c.obj is not None and self.q.it._base(c.obj) == s for a in c.args]
                    todo += [v for k, v in self.q.mem.items() if v is not None and self.q.it._base(k) == s]
        if not hit:
            return 'attaches something else than the given value'
        return self.stays()

    def s_constructor(self):
        conv = [e for e in self.eff if e.n == 'rtti::MetaType::registerConverter']
        made = [e for e in self.eff if e.n == 'rtti::MetaConstructor::create']
        rest = [e for e in self.eff if e not in conv and e not in made]
        if rest:
            return 'also does %s' % rest[0].n.replace('rtti::', '')
        if len(made) != 1:
            return 'registers %d constructors' % len(made)
        e = made[0]
        if not self.here(e.args[1]):
            return 'is made in %s instead of the current container' % show(e.args[1])[:60]
        w = self.named(e.args[0])
        if w:
            return w
        cls, _ = self.invoker(e.args[2])
        ta = cls and targs(cls)
        if not ta:
            return '?constructor not understood'
        args = args_of(self.f)
        if not same(ta[0], self.T) or [a.replace(' ', '') for a in ta[1:]] != [a.replace(' ', '') for a in args]:
            return 'registers %s(%s) instead of %s(%s)' % (ta[0], ', '.join(ta[1:]), self.T, ', '.join(args))
        if (self.T, tuple(args)) in CONVERTING:
            if len(conv) != 1:
                return 'a converting constructor registers %d conversions' % len(conv)
            fn = [s for a in conv[0].args for s in subterms(a) if s[0] == 'fn']
            g = self.p.funcs.get(fn[0][1]) if fn else None
            if g is None:
                return '?conversion not understood'
            if len(g.params) != 1 or not same(bare(g.params[0]['t']), bare(args[0])) or not same(str(g.rt), self.T):
                return 'registers the conversion %s(%s)' % (g.rt, ', '.join(x['t'] for x in g.params))
        elif conv:
            return 'registers a conversion from a constructor that does not convert'
        return self.stays()

    def target(self, name, cls, first):
        e, w = self.one(name)
        if w:
            return w
        if not self.here(e.args[1]):
            return 'is made in %s instead of the current container' % show(e.args[1])[:60]
        w = self.named(e.args[0])
        if w:
            return w
        c, loc = self.invoker(e.args[2])
        if c is None:
            return '?invoker not understood'
        for i in range(first, len(self.f.params)):
            if not self.stored(loc, i):
                return 'the given target is not kept'
        return self.stays()

    def s_method(self):
        return self.target('rtti::MetaMethod::create', 'MethodInvoker', 1)

    def s_property(self):
        return self.target('rtti::MetaProperty::create', 'PropertyInvoker', 1)

    def s_lazy(self):
        e, w = self.one('rtti::MetaContainer::setDeferredDefine')
        if w:
            return w
        if unref(('addr', e.obj)) != self.at['container']:
            return 'defers the definition of %s' % show(e.obj)[:60]
        cls, loc = self.invoker(e.args[0])
        if cls is None:
            return '?callback not understood'
        if not same(targs(cls)[0], self.T):
            return 'the deferred definition is one of %s' % targs(cls)[0]
        if not self.stored(loc, 0) and stateful(self.p, self.f.params[0]['t']):
            return 'the given function is not kept'
        return self.stays()

    def s_base(self):
        args = args_of(self.f)
        es = [e for e in self.eff if e.n == 'rtti::MetaClass::addBaseClass']
        rest = [e for e in self.eff if e not in es]
        if rest:
            return 'also does %s' % rest[0].n.replace('rtti::', '')
        got = []
        for e in es:
            if unref(('addr', e.obj)) != self.at['container']:
                return 'declares a base of %s' % show(e.obj)[:60]
            ids = [s[1] for s in subterms(e.args[0]) if s[0] == 'typeid']
            if len(ids) != 1:
                return '?base not understood'
            got.append(ids[0])
            fn = [s for s in subterms(e.args[1]) if s[0] in ('fn', 'lam')]
            g = self.p.funcs.get(fn[0][1]) if fn else None
            if g is None:
                return '?cast not understood'
            if g.ta:
                if not same(g.ta[0], self.T) or not same(g.ta[-1], ids[0]):
                    return 'base %s is declared with the cast from %s to %s' % (ids[0], g.ta[0], g.ta[-1])
        if [g.replace(' ', '') for g in got] != [a.replace(' ', '') for a in args]:
            if sorted(got) == sorted(args):
                return 'bases are declared in the order %s instead of %s' % (', '.join(got), ', '.join(args))
            return 'declares the bases %s instead of %s' % (', '.join(got) or 'none', ', '.join(args))
        return self.stays()

    def s_end(self):
        if self.eff:
            return 'also does %s' % self.eff[0].n.replace('rtti::', '')
        if self.q.facts.get(('op', '==', ('size', ('init', self.stackloc)), ('c', 0))):
            return None
        r = self.result()
        if r is None:
            return '?position handed back not understood'
        pop = [x for x in self.ops if x.n.startswith('pop')]
        if len(self.ops) != len(pop) or len(pop) != 1:
            return 'the stack of containers is popped %d times%s' % (len(pop), ' and pushed' if len(self.ops) != len(pop) else '')
        if unref(r['stack']) != unref(self.at['stack']):
            return 'goes on with another stack'
        top = [e for e in self.q.events if e.kind == 'cont' and e.obj == self.stackloc and e.n in ('top', 'back')]
        if not top:
            return 'goes on with %s instead of the enclosing container' % show(r['container'])[:60]
        if top[-1].i > pop[0].i and not any(t.i < pop[0].i for t in top):
            return 'takes the container after popping it'
        for k in ('container', 'item'):
            x = r[k]
            while x[0] == 'init' and x[1][0] != 'elem' and x != self.at[k]:
                x = x[1]
            if unref(r[k]) == self.at[k]:
                return 'the %s stays the one ended' % k
            if not any(s[0] == 'elem' and s[1] == self.stackloc or s[0] == 'call' and s[1].endswith('::top') for s in subterms(r[k])):
                return 'goes on with %s as its %s' % (show(r[k])[:60], k)
        return None


STEPS = [n[1:] for n in dir(Step) if n.startswith('s_')]


def args_of(f):
    out = []
    for t in f.ta or ():
        if isinstance(t, (list, tuple)):
            out += list(t)
        else:
            out.append(t)
    return [str(t) for t in out]


def unref(t):
    """Pointer value: &*p is p."""
    while t is not None and t[0] == 'addr' and t[1][0] == 'deref':
        t = t[1][1]
    return t


def null_fact(k, v, x):
    neg = False
    while k[0] == 'not':
        k, neg = k[1], not neg
    v = bool(v) != neg
    if k[0] == 'op' and k[1] in ('!=0', '!=', '==') and k[2] == x and k[3] in (('c', 0), ('null',)):
        return v == (k[1] == '==')
    return False


def stateful(p, t):
    t = re.sub(r'\bconst\b|&', '', t).strip()
    r = p.records.get(t)
    return r is None or bool(r['fields'])


def start(ctx, p, roles):
    """The builder one starts with stands in the global namespace."""
    fs = [f for f in p.fn('rtti::global_define') if f.body is not None]
    if not fs:
        raise Broken('start of the builder not found')
    for f in fs:
        with ctx.guard('global_define', f.where()):
            ps = summaries(ctx, f, *STOPS)
            bad = und = None
            for q in ps or ():
                if q.ctl != 'return':
                    continue
                vals = {}
                for r, fl in roles.items():
                    vs = [v for k, v in q.mem.items() if k[0] == 'fld' and k[2] == fl]
                    vals[r] = vs[-1] if vs else None
                if not all(vals.values()):
                    und = 'position not understood'
                    continue
                for r in ('item', 'container'):
                    if not any(s[0] == 'call' and s[1] == 'rtti::MetaNamespace::global' for s in subterms(vals[r])):
                        bad = 'starts with %s as its %s' % (show(vals[r])[:60], r)
                if vals['stack'][0] in ('null',) or vals['stack'] == ('c', 0):
                    bad = 'starts without a stack'
            if bad:
                ctx.bad('global_define', f.where(), bad)
            elif und:
                ctx.undecided('global_define', f.where(), und)
            else:
                ctx.ok('global_define', f.where(), '')


def callbacks(ctx, p, roles):
    """A lazy definition runs the given function once, on a builder of its container with an empty stack."""
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.body is not None and f.bn.endswith('::invoke') and f.cls and p.derives(f.cls, 'rtti::IDefinitionCallbackHolder')), key=lambda f: f.cls):
        key = 'deferred definition of ' + short(f.cls.replace('rtti::internal::', ''))
        with ctx.guard(key, f.where()):
            ps = summaries(ctx, f, *STOPS)
            if ps is None:
                continue
            n += 1
            bad = und = None
            cont = ('init', ('var', f.params[0]['n'], 0))
            for q in ps:
                own = lambda x: x is not None and any(s[0] == 'fld' and s[1] == THIS for s in subterms(x))
                ran = [e for e in q.events if (e.kind == 'icall' and own(e.obj)) or (e.kind in ('call', 'enter') and own(e.obj) and ('operator()' in (e.n or '') or e.x.get('callee') is not None and e.x['callee'].bn.endswith('operator()')))]
                if len(ran) != 1:
                    bad = bad or 'runs the definition %d times' % len(ran) if ran or q.ctl == 'return' else bad
                    continue
                locs = {k[1] for k in q.mem if k[0] == 'fld' and k[2] == roles['container']}
                got = [(l, {r: q.mem.get(('fld', l, fl)) for r, fl in roles.items()}) for l in locs]
                got = [g for g in got if all(g[1].values())]
                if not got:
                    und = und or 'builder not understood'
                    continue
                for _, g in got:
                    for r in ('item', 'container'):
                        if unref(g[r]) not in (cont, ('addr', ('deref', cont))) and g[r] != ('addr', ('deref', cont)):
                            bad = bad or 'runs with %s as its %s' % (show(g[r])[:60], r)
                    if g['stack'][0] == 'null' or g['stack'] == ('c', 0):
                        bad = bad or 'runs without a stack'
            if bad:
                ctx.bad(key, f.where(), bad)
            elif und:
                ctx.undecided(key, f.where(), und)
            else:
                ctx.ok(key, f.where(), '%d paths' % len(ps))
    ctx.counts['deferred definitions'] = n
