"""Every typed access member of variant (is, ref, cref, rref, data, to, canConvert, convert, tryConvert) is summarised path by path for
values, classes, class pointers, pointers, enums and arrays.  A path that hands out a result must have established that the stored
type is compatible with the requested one (asked in this direction, for exactly the requested type) and either has the same decayed
type, the result being the stored object itself, or that the cast from the dynamic class of the value to the requested class gave a
non-null address, the result being that address; every other path must throw the documented exception, or give null / false, and no
path with a compatible value of the same decayed type may fail.  The type test must make the same distinctions."""
from ..vtable import *
from ..registry import *
from . import c16

NAMES = ('is', 'ref', 'cref', 'rref', 'data', 'to', 'canConvert', 'convert', 'tryConvert')
CASTS = ('ref', 'cref', 'rref', 'data')


def run(ctx):
    p = ctx.load('flags.cpp', 'access.cpp')
    seen = {n: 0 for n in NAMES}
    for f in sorted((f for f in p.funcs.values() if f.cls == VARIANT and f.body is not None and f.bn.split('::')[-1] in NAMES and f.ta), key=lambda f: (f.bn, f.ta[0], f.cm, f.line)):
        n = f.bn.split('::')[-1]
        seen[n] += 1
        A(ctx, p, f, n).run()
    ctx.counts.update({'instances of ' + n: v for n, v in seen.items()})
    if not all(seen.values()):
        raise Broken('typed access not recognised: %s' % [n for n in seen if not seen[n]])
    views(ctx, p)
    c16.accepts(ctx, p, 2 if ctx.tier == 'quick' else 3)
    c16.compat(ctx, p)


FORMS = {'ref &': {'&'}, 'const': {'&', 'const &', ''}, 'rref': {'', '&&'}, 'temp': {'', '&&', '&', 'const &'}}


def views(ctx, p):
    """The view of the stored type each member asks for is one that can be viewed as what the member gives."""
    mean = attributes(ctx)
    if not {'', '&', '&&', 'const &'} <= set(mean.values()):
        ctx.undecided('views', 'include/rtti/variant.h', 'meaning of the view attributes not recognised: %s' % mean)
        return
    man = table(p).man
    for f in sorted((f for f in p.funcs.values() if f.cls == VARIANT and f.body is not None and f.bn.split('::')[-1] in CASTS and f.ta and not f.ta[0].startswith('const ')), key=lambda f: (f.bn, f.ta[0], f.line)):
        a = A(ctx, p, f, f.bn.split('::')[-1])
        need = 'rref' if a.n == 'rref' else 'temp' if a.temporary() else 'const' if f.cm or a.n == 'cref' else 'ref &'
        for q in summaries(ctx, f) or ():
            for e in q.events:
                if e.kind == 'mt' and e.x['op'] == 'compatible':
                    for s in subterms(e.args[0]):
                        if s[0] == 'call' and s[1] == 'slot:type' and s[2][0] == a.tab and s[2][1][0] == 'c':
                            v = mean.get(s[2][1][1], '?')
                            ctx.req(v in FORMS[need], a.key + ': view', e.where(), 'the stored T is taken as %s, which can never be viewed as what is asked for' % (v and 'T ' + v or 'T'))


def short(t):
    return re.sub(r'std::__cxx11::basic_string<.*?allocator<char>>', 'std::string', t)


def reftype(T, const, ref):
    """Spelling of a reference to T."""
    m = re.match(r'(.*?)\s*(\[\d+\])$', T)
    if m:
        b = m.group(1)
        if const and not b.startswith('const '):
            b = 'const ' + b
        return '%s (%s)%s' % (b, ref, m.group(2))
    if const:
        if T.rstrip().endswith('*'):
            T = T.rstrip() + 'const'
        elif not T.startswith('const ') and not T.endswith('const'):
            T = 'const ' + T
    return T + ' ' + ref if not T.endswith('*') else T + ref


def same(a, b):
    n = lambda t: re.sub(r'\s+', '', t)
    return n(a) == n(b)


def unptr(t):
    """Pointer value of a returned reference or pointer."""
    while t and t[0] == 'addr' and t[1][0] == 'deref':
        t = t[1][1]
    return t


class A:
    def __init__(self, ctx, p, f, n):
        self.ctx, self.p, self.f, self.n = ctx, p, f, n
        self.T = f.ta[0]
        t = table(p)
        self.tab = ('init', ('fld', THIS, t.man))
        self.sto = ('fld', THIS, t.sto)
        self.key = '%s<%s>%s' % (n, short(self.T), ' const' if f.cm else ' &&' if self.temporary() else '')
        self.where = f.where()
        base = re.sub(r'\bconst\b|&', '', self.T).strip()
        self.array = base.endswith(']')
        self.C = re.sub(r'\*$', '', re.sub(r'\s*(\(\s*\))?\s*(\[\d*\])+$', '', base)).strip()
        cls = (self.C in p.records or self.C.startswith('std::')) and not self.array and not self.C.endswith('*')
        self.kind = 'pointer' if cls and base.endswith('*') else 'class' if cls else 'plain'

    def temporary(self):
        return self.f.d.get('rq') == '&&'

    # facts of a path
    def is_from(self, t):
        return t is not None and t[0] == 'call' and t[1] == 'slot:type' and t[2][0] == self.tab

    def is_access(self, t):
        return t is not None and t[0] == 'call' and t[1] == 'slot:access' and t[2][0] == self.tab and t[2][1] == ('addr', self.sto)

    def is_info(self, t, field):
        return t is not None and t[0] == 'fv' and t[2] == field and t[1][0] == 'call' and t[1][1] == 'slot:info' and t[1][2] == (self.tab, ('addr', self.sto))

    def empty(self, q):
        for e in q.events:
            if e.kind == 'call' and e.n == VARIANT + '::empty' and e.obj == THIS:
                v = truth(q, e.res)
                if v is not None:
                    return v
        return None

    def compat(self, q, want):
        """(established, problem) of the compatibility test."""
        r, bad = None, None
        for e in q.events:
            if e.kind == 'mt' and e.x['op'] == 'compatible':
                v = truth(q, e.res)
                a, b = e.args
                if self.is_from(a) and b[0] == 'typeid' and same(b[1], want):
                    r = v if v is not None else r
                elif v:
                    bad = 'asks whether %s can be viewed as %s, not whether the stored type can be viewed as %s' % (show(a), show(b), want)
        return r, bad

    def decay(self, q, want):
        for k, v in q.facts.items():
            if k[0] == 'op' and k[1] in ('==', '!='):
                ds = [s for s in subterms(k) if s[0] == 'call' and s[1] == MT + 'decayId']
                if any(self.is_from(s[2][0]) for s in ds) and any(s[2][0][0] == 'typeid' and same(s[2][0][1], want) for s in ds):
                    return v if k[1] == '==' else not v
        return None

    def foreign(self, q):
        """An array is never compatible with a class or a class pointer, so these paths cannot be taken for one."""
        return self.array and any(e.kind == 'mt' and e.x['op'] in ('isClass', 'isClassPtr') and self.is_from(e.args[0]) and truth(q, e.res) for e in q.events)

    def castcalls(self, q, name):
        """Calls of MetaClass::cast / inheritedFrom: [(event, problem)]."""
        out = []
        for e in q.events:
            if e.kind == 'call' and e.n == 'rtti::MetaClass::' + name:
                bad = None
                frm = [s for s in subterms(e.obj) if s[0] == 'fv']
                if not any(self.is_info(s, 'typeId') for s in frm):
                    bad = 'starts from %s, not from the dynamic class of the value' % show(e.obj)
                elif not any(s[0] == 'typeid' and same(s[1], self.C) for s in subterms(e.args[0])):
                    bad = 'goes to %s, not to %s' % (show(e.args[0]), self.C)
                elif name == 'cast' and not self.is_info(e.args[1], 'instance'):
                    bad = 'adjusts %s, not the address of the value' % show(e.args[1])
                out.append((e, bad))
        return out

    def equal(self, q, t):
        """Is t known equal (True) / different (False) to the stored pointer?"""
        for k, v in q.facts.items():
            if k[0] == 'op' and k[1] in ('==', '!=') and contains(k, t) and (contains(k, self.sto) or any(self.is_access(s) for s in subterms(k))) and not any(
                    x == NULL or x == ('c', 0) for x in k[2:4]):
                return v if k[1] == '==' else not v
        return None

    def bad(self, what, text, q=None, where=None):
        self.ctx.bad(self.key + ': ' + what, where or self.where, text + (': ' + path_desc(q) if q is not None else ''))

    def run(self):
        stop = {'canConvert': ('is',), 'convert': ('to', 'operator='), 'tryConvert': ('to', 'operator=')}.get(self.n, ())
        ps = summaries(self.ctx, self.f, *[VARIANT + '::' + s for s in stop], exc=self.n == 'tryConvert')
        if ps is None:
            return
        before = len(self.ctx.obl)
        for q in ps:
            used_unchecked(self.ctx, self.key, q)
        if self.n in CASTS:
            self.casts(ps)
        elif self.n == 'is':
            self.tests(ps)
        elif self.n == 'to':
            self.values(ps)
        elif self.n == 'canConvert':
            self.can(ps)
        else:
            self.assigns(ps)
        if len(self.ctx.obl) == before:
            self.ctx.ok(self.key, self.where, '%d paths' % len(ps))

    def want(self):
        if self.n in ('is', 'to', 'canConvert'):
            return self.T
        T = re.sub(r'\s*&+$', '', self.T)
        if self.n == 'rref':
            return reftype(T, False, '&&')
        const = self.n == 'cref' or self.f.cm or self.temporary()
        return reftype(T, const, '&')

    def ok(self, what):
        self.ctx.ok(self.key + ': ' + what, self.where)

    def casts(self, ps):
        want = self.want()
        forms = set()
        for q in ps:
            K, wrong = self.compat(q, want)
            if wrong:
                self.bad('asks for the requested type', wrong)
                continue
            S, E = self.decay(q, want), self.empty(q)
            if S is not True and self.foreign(q):
                continue
            cs = self.castcalls(q, 'cast')
            got = unptr(q.val) if q.ctl == 'return' and q.val is not None else None
            if q.ctl == 'throw' or got == NULL or got == ('c', 0):
                if q.ctl == 'throw' and not self.p.derives(q.val[0], 'rtti::bad_variant_cast'):
                    self.bad('failure', 'throws %s' % q.val[0], q)
                elif q.ctl == 'throw' and self.n == 'data':
                    self.bad('failure', 'throws instead of giving null', q)
                elif q.ctl == 'return' and self.n != 'data':
                    self.bad('failure', 'gives a null reference', q)
                elif E is not True and K and S and not any(self.is_access(s) and truth(q, s) is False for e in q.events if e.kind == 'slot' and e.res for s in [e.res]):
                    self.bad('same type', 'a compatible value of the same type is refused', q)
                elif E is not True and K and any(b is None and truth(q, e.res) and (self.kind == 'class' or self.equal(q, e.res)) for e, b in cs):
                    self.bad('base', 'a value of a derived class is refused', q)
                else:
                    self.ok('failure')
                continue
            if q.ctl != 'return' or got is None:
                self.ctx.undecided(self.key, self.where, 'ends in ' + q.ctl)
                continue
            if E is True:
                self.bad('empty', 'an empty variant gives %s' % show(got), q)
                continue
            if K is not True:
                self.bad('compatible', 'gives %s although the stored type is not known to be compatible with %s' % (show(got), want), q)
                continue
            inner = got
            while self.array and inner[0] == 'init' and inner[1][0] == 'deref':
                inner = inner[1][1]
            stored = self.is_access(inner) and (not self.array or inner != got)
            if S is not True and self.kind == 'pointer' and (self.is_access(got) or contains(got, self.sto) and got[0] == 'addr'):
                ok = [e for e, b in cs if b is None and truth(q, e.res) and self.equal(q, e.res)]
                if any(b for e, b in cs):
                    self.bad('base', next(b for e, b in cs if b), q)
                elif not ok:
                    self.bad('base', 'gives the stored pointer as %s although the base sub-object is not known to be at that address' % want, q)
                else:
                    forms.add('base')
                    self.ok('base')
            elif stored:
                if S is True:
                    forms.add('same')
                    self.ok('same type')
                else:
                    self.bad('same type', 'gives the stored object although its decayed type is not known to be that of %s' % want, q)
            elif self.is_access(got) or got[0] == 'init' and got[1][0] == 'deref' and self.is_access(got[1][1]):
                self.bad('same type', 'gives %s' % ('the address of the pointer to the array' if self.array else 'what the stored object contains'), q)
            else:
                hit = [(e, b) for e, b in cs if got == e.res]
                if hit and (self.kind == 'class' or hit[0][1]):
                    e, b = hit[0]
                    if b:
                        self.bad('base', 'the cast ' + b, q, e.where())
                    elif truth(q, e.res) is not True:
                        self.bad('base', 'gives the result of a cast that may have failed', q, e.where())
                    else:
                        forms.add('base')
                        self.ok('base')
                elif hit or self.is_info(got, 'instance'):
                    self.bad('base', 'gives %s' % show(got), q)
                else:
                    self.ctx.undecided(self.key, self.where, 'gives ' + show(got))
        self.complete(forms)

    def complete(self, forms):
        need = {'same'} | ({'base'} if self.kind != 'plain' else set())
        for x in sorted(need - forms):
            if not any(u[0].startswith(self.key) for u in self.ctx.undec) and all(o[1] for o in self.ctx.obl if o[0].startswith(self.key)):
                self.bad(x, 'no path gives %s' % ('the stored object' if x == 'same' else 'an object of a derived class' if self.kind == 'class' else 'a pointer to an object of a derived class'))

    def tests(self, ps):
        want = self.want()
        forms = set()
        for q in ps:
            K, wrong = self.compat(q, want)
            if wrong:
                self.bad('asks for the requested type', wrong)
                continue
            S, E = self.decay(q, want), self.empty(q)
            if S is not True and self.foreign(q):
                continue
            cs = self.castcalls(q, 'inheritedFrom') + self.castcalls(q, 'cast')
            if q.ctl != 'return':
                self.bad('answers', 'ends in ' + q.ctl, q)
                continue
            v = truth(q, q.val) if q.val[0] != 'c' else bool(q.val[1])
            inh = [(e, b) for e, b in cs]
            own = next((e for e, b in inh if b is None and truth(q, e.res) is True), None)
            if v is None:
                hit = [b for e, b in inh if contains(q.val, e.res)]
                if not hit:
                    self.ctx.undecided(self.key, self.where, 'answers ' + show(q.val))
                elif hit[0]:
                    self.bad('base', 'the class test ' + hit[0], q)
                elif K is not True or E is True:
                    self.bad('compatible', 'may be true although the stored type is not known to be compatible', q)
                else:
                    forms.add('base')
            elif v:
                if E is True or E is None and want == 'void' and K is not False and S is not False:
                    self.bad('empty', 'an empty variant is a %s' % want, q)
                elif K is not True:
                    self.bad('compatible', 'true although the stored type is not known to be compatible with %s' % want, q)
                elif S is True:
                    forms.add('same')
                    self.ok('same type')
                elif own is not None and self.kind != 'plain':
                    forms.add('base')
                    self.ok('base')
                elif inh and inh[0][1]:
                    self.bad('base', 'the class test ' + inh[0][1], q)
                else:
                    self.bad('same type', 'true although the stored type has neither the same decayed type nor is it known to be derived from it', q)
            else:
                if E is not True and K and S:
                    self.bad('same type', 'false for a compatible value of the same type', q)
                elif E is not True and K and own is not None:
                    self.bad('base', 'false for an object of a derived class', q)
                else:
                    self.ok('no')
        self.complete(forms)

    def values(self, ps):
        want = self.want()
        forms = set()
        for q in ps:
            K, wrong = self.compat(q, want)
            if wrong:
                self.bad('asks for the requested type', wrong)
                continue
            S, E = self.decay(q, want), self.empty(q)
            if S is not True and self.foreign(q):
                continue
            cs = self.castcalls(q, 'cast')
            made = [e for e in q.events if e.kind == 'mt' and e.x['op'] in ('copy_construct', 'move_construct', 'move_or_copy', 'default_construct')]
            conv = [e for e in q.events if e.kind == 'mt' and e.x['op'] == 'convert']
            good = [e for e in conv if truth(q, e.res)]
            if conv and E is not True and K is not False and S is not False:
                self.bad('conversion', 'a conversion is tried although the value may be of the requested type', q, conv[0].where())
                continue
            if conv and any(c.i > conv[0].i for c, b in cs):
                self.bad('conversion', 'a conversion is tried before the cast to a base', q, conv[0].where())
                continue
            if q.ctl == 'throw':
                if not self.p.derives(q.val[0], 'rtti::bad_variant_convert'):
                    self.bad('failure', 'throws %s' % q.val[0], q)
                elif made or good:
                    self.bad('failure', 'a value that was obtained is dropped', q)
                elif E is not True and K and S:
                    self.bad('same type', 'a compatible value of the same type is refused', q)
                elif E is not True and K and any(b is None and truth(q, e.res) for e, b in cs):
                    self.bad('base', 'a value of a derived class is refused', q)
                else:
                    self.ok('failure')
                continue
            if q.ctl != 'return':
                self.ctx.undecided(self.key, self.where, 'ends in ' + q.ctl)
                continue
            if len(made) + len(good) != 1:
                self.bad('value', 'the value returned was built %d times' % (len(made) + len(good)), q)
                continue
            if E is True:
                self.bad('empty', 'an empty variant gives a value', q)
                continue
            e = (made + good)[0]
            buf = e.args[2]
            self.returned(q, buf)
            if good:
                src, a, b = e.args[0], e.args[1], e.args[3]
                if not self.is_access(src) or not self.is_from(a) or b[0] != 'typeid' or not same(b[1], want):
                    self.bad('conversion', 'converts %s from %s to %s' % (show(src), show(a), show(b)), q, e.where())
                elif K and S:
                    self.bad('same type', 'a value of the same type is converted', q, e.where())
                else:
                    forms.add('convert')
                    self.ok('conversion')
                continue
            if e.x['op'] != 'copy_construct':
                self.bad('value', 'the stored object is moved from' if e.x['op'] != 'default_construct' else 'gives a new object', q, e.where())
                continue
            if e.args[0][0] != 'typeid' or not same(e.args[0][1], want):
                self.bad('value', 'built by the operations of %s' % show(e.args[0]), q, e.where())
                continue
            src = e.args[1]
            if K is not True:
                self.bad('compatible', 'gives a value although the stored type is not known to be compatible with %s' % want, q)
            elif self.is_access(src):
                if S is True:
                    forms.add('same')
                    self.ok('same type')
                else:
                    self.bad('same type', 'copies the stored object although its decayed type is not known to be %s' % want, q, e.where())
            else:
                held = e.held.get(src[1]) if src[0] == 'addr' else None
                ptr = held if self.kind == 'pointer' else src
                hit = [(c, b) for c, b in cs if ptr == c.res]
                if self.kind == 'pointer' and held is None and any(src == c.res for c, b in cs):
                    self.bad('base', 'copies the object itself into a pointer', q, e.where())
                elif not hit:
                    if self.is_info(src, 'instance') or self.is_info(ptr, 'instance'):
                        self.bad('base', 'copies from the address of the derived object without adjusting it', q, e.where())
                    else:
                        self.ctx.undecided(self.key, e.where(), 'copies from ' + show(src))
                elif hit[0][1]:
                    self.bad('base', 'the cast ' + hit[0][1], q, e.where())
                elif truth(q, hit[0][0].res) is not True:
                    self.bad('base', 'copies from the result of a cast that may have failed', q, e.where())
                else:
                    forms.add('base')
                    self.ok('base')
        self.complete(forms)

    def returned(self, q, buf):
        """The value returned comes out of the buffer it was built in, which is destroyed once."""
        if buf[0] != 'addr':
            self.ctx.undecided(self.key, self.where, 'built in ' + show(buf))
            return
        loc = buf[1]
        cls = re.sub(r'^const ', '', self.T)
        dt = [e for e in q.events if e.obj is not None and (e.obj == loc or contains(e.obj, loc)) and (e.kind == 'dtor' and same(e.x.get('cls', ''), cls) or e.kind == 'call' and e.n == cls + '::{dtor}')]
        if self.T == 'w::A':
            self.ctx.req(len(dt) == 1, self.key + ': buffer', self.where, 'the object built is destroyed %d times' % len(dt))

    def can(self, ps):
        for q in ps:
            t = [e for e in q.events if e.kind == 'call' and e.n == VARIANT + '::is' and e.obj == THIS]
            h = [e for e in q.events if e.kind == 'mt' and e.x['op'] == 'hasConverter']
            wrong = [e for e in t if not same(e.x['target'].ta[0], self.T)] if t and t[0].x.get('target') is not None else []
            if q.ctl != 'return':
                self.bad('answers', 'ends in ' + q.ctl, q)
                continue
            if wrong:
                self.bad('test', 'tests for ' + wrong[0].x['target'].ta[0])
                continue
            for e in h:
                if not self.is_from(e.args[0]) or e.args[1][0] != 'typeid' or not same(e.args[1][1], self.T):
                    self.bad('converter', 'asks for a converter from %s to %s' % (show(e.args[0]), show(e.args[1])), None, e.where())
            yes = [e for e in t + h if truth(q, e.res) is True or e.res is not None and q.val == e.res]
            no = {('is' if e in t else 'conv') for e in t + h if truth(q, e.res) is False or e.res is not None and q.val == e.res}
            v = truth(q, q.val) if q.val[0] != 'c' else bool(q.val[1])
            if v is True and not yes:
                self.bad('answer', 'true without a test that succeeded', q)
            elif v is False and no != {'is', 'conv'}:
                self.bad('answer', 'false although the value may be of that type or convertible', q)
            elif v is None and not any(q.val == e.res for e in t + h):
                self.ctx.undecided(self.key, self.where, 'answers ' + show(q.val))
            else:
                self.ok('answer')

    def assigns(self, ps):
        for q in ps:
            to = [e for e in q.events if e.kind == 'call' and e.n == VARIANT + '::to' and e.obj == THIS]
            asg = [e for e in q.events if e.kind == 'call' and e.n == VARIANT + '::operator=' and e.obj == THIS]
            for e in to:
                g = e.x.get('target')
                if g is not None and g.ta and not same(g.ta[0], self.T):
                    self.bad('value', 'converts to ' + g.ta[0])
            done = [e for e in asg if not e.x.get('threw')]
            if asg and not [e for e in to if not e.x.get('threw')]:
                self.bad('value', 'assigns something else than the converted value', q)
            if self.n == 'tryConvert':
                if q.ctl != 'return':
                    self.bad('answer', 'ends in ' + q.ctl, q)
                    continue
                v = bool(q.val[1]) if q.val and q.val[0] == 'c' else None
                if v is None and q.val and not done and not any(x[0] in ('opq', 'havoc') for x in subterms(q.val)):
                    self.bad('answer', 'answers %s although nothing was converted' % show(q.val), q)
                elif v is None:
                    self.ctx.undecided(self.key, self.where, 'answers ' + show(q.val))
                elif v != bool(done):
                    self.bad('answer', ('true although nothing was converted' if v else 'false although the value was converted'), q)
                else:
                    self.ok('answer')
            elif q.ctl == 'return':
                self.ctx.req(len(done) == 1, self.key + ': value', self.where, 'returns having assigned %d times' % len(done))
