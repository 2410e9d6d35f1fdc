"""Arguments.  Every constructor instance of argument must keep a reference to the caller's object (with its own constness) and record
whether the caller passed an rvalue.  Every instance of argument::value<T> is summarised path by path: a path that binds an rvalue
reference must have established that an rvalue was passed, one that binds a non-const lvalue reference that an lvalue was passed, and
must give the stored object itself; reads of const references and values never move from the stored object or change it; when the kept
object is a variant the same is done with its content; an empty argument always throws."""
from ..vtable import *
from ..registry import *
from .c15 import same, short
from . import c16
from .c16 import const as constval

ARG = 'rtti::argument'
READS = ('data', 'ref', 'cref', 'rref', 'to', 'value')
STOPS = ['rtti::variant::' + n for n in READS + ('is', 'empty', 'typeId', 'raw_data_ptr', 'operator=', '{ctor}', 'clear', 'swap')]


def run(ctx):
    p = ctx.load('argument.cpp')
    marks = constructors(ctx, p)
    handed(ctx, p)
    readings(ctx, p, marks)
    c16.compat(ctx, ctx.load('flags.cpp', 'access.cpp'))


def noref(t):
    return re.sub(r'&+', '', t).replace('()', '').strip()


def isconst(t):
    """Is the (unreferenced) type itself const?"""
    t = noref(t)
    m = re.search(r'\(\s*\*\s*(const)?\s*\)', t)
    if m:
        return bool(m.group(1))
    if re.search(r'\*\s*const\s*$', t):
        return True
    return '*' not in t and (t.startswith('const ') or t.endswith(' const'))


def decayed(t):
    t = noref(t)
    t = re.sub(r'\*\s*const\b', '*', t)
    if '*' not in t or '(*' in t:
        t = re.sub(r'^const ', '', t)
    return t


def category(t):
    return 'rvalue reference' if t.endswith('&&') or '&&)' in t else 'lvalue reference' if ('&' in t and not isconst(t)) else 'const reference' if '&' in t else 'value'


# --- construction --------------------------------------------------------------------------------------------------------------------

def constructors(ctx, p):
    """Checks every way of making an argument of a value; the marks: field -> {'lvalue': constant, 'rvalue': constant}."""
    marks = {}
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.cls == ARG and f.bn == ARG + '::{ctor}' and f.ta and f.body is not None), key=lambda f: str(f.ta)):
        T = f.ta[0]
        key = 'argument(%s)' % short(f.params[0]['t'])
        with ctx.guard(key, f.where()):
            ps = summaries(ctx, f, *STOPS)
            if ps is None:
                continue
            n += 1
            kind = 'lvalue' if '&' in T and '&&' not in T else 'rvalue'
            param = ('var', f.params[0]['n'], 0)
            und = bad = None
            for q in ps:
                if q.ctl != 'return':
                    bad = bad or 'may fail: %s' % (q.val,)
                    continue
                held = [e for e in q.events if e.kind == 'ctor' and e.obj is not None and e.obj[0] == 'fld' and e.obj[1] == THIS and of_param(q, e, param)]
                assigned = [e for e in q.events if e.kind == 'call' and e.n in ('rtti::variant::operator=',) and of_param(q, e, param)]
                if len(held) + len(assigned) != 1:
                    und = und or 'kept value not found'
                    continue
                e = (held + assigned)[0]
                t = e.x.get('target')
                ta = (e.x.get('ta') or (t.ta if t is not None else None) or (e.node.get('ta') if e.node else None) or [None])
                X = ta[0] if ta else None
                if X is None:
                    und = und or 'type of the kept value not known'
                    continue
                m = re.match(r'(?:const )?std::reference_wrapper<(.*)>\s*(?:const)?\s*&*$', X)
                if not m:
                    bad = bad or 'keeps %s of the passed object instead of a reference to it' % ('a copy' if kind == 'lvalue' or isconst(T) else 'the moved content')
                elif isconst(m.group(1)) != isconst(T) and '[' not in T:
                    bad = bad or 'keeps a reference to a %sconst object' % ('' if isconst(m.group(1)) else 'non-')
                elif not same(m.group(1), noref(T)) and '[' not in T:
                    und = und or 'kept reference not understood: %s' % X
                for k, v in q.mem.items():
                    c = constval(v)
                    if k[0] == 'fld' and k[1] == THIS and c is not None:
                        marks.setdefault(k[2], {}).setdefault(kind, {}).setdefault(int(c), key)
            if bad:
                ctx.bad(key, f.where(), bad)
            elif und:
                ctx.undecided(key, f.where(), und)
            else:
                ctx.ok(key, f.where(), 'refers to the object passed')
    ctx.counts['ways of making an argument'] = n
    if not n:
        raise Broken('no constructor of an argument')
    good = {}
    for fld, m in marks.items():
        if all(len(m.get(k, {})) == 1 for k in ('lvalue', 'rvalue')):
            l, r = (next(iter(m[k])) for k in ('lvalue', 'rvalue'))
            if l != r:
                good[fld] = {'lvalue': l, 'rvalue': r}
    where = 'include/rtti/detail/argument_impl.h'
    if good:
        ctx.ok('record of the value category', where, ', '.join('%s=%s' % kv for kv in good.items()))
    elif marks:
        fld, m = sorted(marks.items())[0]
        both = {c for k in m for c in m[k]}
        mixed = [k for k in ('lvalue', 'rvalue') if len(m.get(k, {})) > 1]
        if mixed:
            a, b = list(m[mixed[0]].items())[:2]
            ctx.bad('record of the value category', where, '%s records an %s as %s for %s and as %s for %s' % (fld, mixed[0], a[0], a[1], b[0], b[1]))
        elif len(both) == 1:
            ctx.bad('record of the value category', where, '%s is the same for lvalues and rvalues' % fld)
        else:
            ctx.undecided('record of the value category', where, 'not understood')
    else:
        ctx.undecided('record of the value category', where, 'no field records it')
    return good


def of_param(q, e, param):
    """Does the constructor argument come from the parameter?"""
    for a in e.args:
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            for y in subterms(x):
                if y == param:
                    return True
                if y[0] in ('tmp', 'var', 'obj') and y not in seen:
                    seen.add(y)
                    for k, v in q.mem.items():
                        if v is not None and q.it._base(k) == y:
                            todo.append(v)
                    todo += [b for c in q.events if c.kind == 'ctor' and c.obj == y for b in c.args]
    return False


def handed(ctx, p):
    """Handing an argument on keeps what it refers to and its category."""
    r = p.records.get(ARG)
    if r is None:
        raise Broken('class argument not found')
    fs = [f for f in p.funcs.values() if f.cls == ARG and f.bn == ARG + '::{ctor}' and not f.ta and len(f.params) == 1 and 'rtti::argument' in f.params[0]['t']]
    for f in fs:
        key = 'argument(%s)' % f.params[0]['t']
        with ctx.guard(key, f.where()):
            if f.body is None or f.d.get('def') or f.d.get('impl'):
                ctx.ok(key, f.where(), 'defaulted')
                continue
            ps = summaries(ctx, f, *STOPS)
            src = ('deref', ('init', ('var', f.params[0]['n'] or 'arg0', 0)))
            src2 = ('var', f.params[0]['n'] or 'arg0', 0)
            bad = None
            for q in ps or ():
                for k, v in q.mem.items():
                    if k[0] == 'fld' and k[1] == THIS and constval(v) is not None:
                        bad = '%s is set to %s whatever the other argument records' % (k[2], constval(v))
                    elif k[0] == 'fld' and k[1] == THIS and v[0] == 'init' and v[1][0] == 'fld' and v[1][2] != k[2]:
                        bad = '%s is taken from %s' % (k[2], v[1][2])
                for e in q.events:
                    if e.kind == 'ctor' and e.obj is not None and e.obj[0] == 'fld' and e.obj[1] == THIS and not e.args and any(x in (src, src2) for x in subterms(e.obj)):
                        bad = '%s is not handed on' % e.obj[2]
            if bad:
                ctx.bad(key, f.where(), bad)
            else:
                ctx.ok(key, f.where(), '%d paths' % len(ps or ()))


# --- reading -------------------------------------------------------------------------------------------------------------------------

class Reading:
    """One path of argument::value<T>."""
    def __init__(self, p, f, q, marks):
        self.p, self.f, self.q, self.marks = p, f, q, marks
        self.exact = False

    def calls(self, *names):
        return [e for e in self.q.events if e.kind == 'call' and e.n.startswith('rtti::variant::') and e.n.split('::')[-1] in names]

    def ta(self, e):
        t = e.x.get('target')
        ta = (t.ta if t is not None and t.ta else None) or (e.node.get('ta') if e.node else None)
        return ta[0] if ta else None

    def const(self, e):
        t = e.x.get('target')
        return bool(t is not None and t.cm)

    def kept(self, loc):
        return loc is not None and loc[0] == 'fld' and loc[1] == THIS and loc[2] != self.scratch()

    def scratch(self):
        """Field conversions are kept in: the one assigned."""
        for e in self.calls('operator='):
            if e.obj is not None and e.obj[0] == 'fld' and e.obj[1] == THIS:
                return e.obj[2]
        return None

    def unwrapped(self, loc):
        """Is loc the variant the kept reference refers to?"""
        if loc is None or loc[0] != 'deref':
            return None
        for e in self.calls('ref', 'cref', 'data', 'rref'):
            if self.kept(e.obj) and e.res is not None and strip(loc) == strip(('deref', e.res)) and nocv(self.ta(e) or '').strip() == 'rtti::variant':
                return e
        return None

    def holds_variant(self):
        """Is the kept object known to be (True) or not to be (False) a variant?"""
        r = None
        for k, v in self.q.facts.items():
            x, neg = k, False
            while x[0] == 'not':
                x, neg = x[1], not neg
            ids = [s for s in subterms(x) if s[0] == 'typeid']
            own = any(self.kept(s) for s in subterms(x))
            if own and ids and all(nocv(s[1]).strip() == 'rtti::variant' for s in ids):
                eq = x[0] == 'op' and x[1] == '!='
                r = (bool(v) != neg) != eq
                if not any(s[0] == 'call' and s[1] == MT + 'decayId' for s in subterms(x)) and any(s[0] == 'call' and s[1] == 'rtti::variant::typeId' for s in subterms(x)):
                    self.exact = True
            for e in self.calls('is', 'data'):
                if e.res is not None and nocv(self.ta(e) or '').strip() == 'rtti::variant' and self.kept(e.obj) and any(s == e.res for s in subterms(x)):
                    if x[0] == 'op' and x[1] in ('==', '!=', '!=0'):
                        r = (bool(v) != neg) != (x[1] == '==')
                    elif x == e.res:
                        r = bool(v) != neg
        return r

    def empty(self):
        for k, v in self.q.facts.items():
            x, neg = k, False
            while x[0] == 'not':
                x, neg = x[1], not neg
            if x[0] == 'op' and x[1] == '!=0':
                x = x[2]
            if x[0] == 'call' and x[1] == 'rtti::variant::empty' and any(self.kept(s) for s in subterms(x)):
                return bool(v) != neg
        return None

    def feasible(self, kind):
        """Can the path be taken when the caller passed that kind of value?"""
        for k, v in self.q.facts.items():
            for fld, m in self.marks.items():
                loc = ('init', ('fld', THIS, fld))
                if any(s == loc for s in subterms(k)):
                    got = evaluate(k, loc, m[kind])
                    if got is not None and bool(got) != bool(v):
                        return False
        return True

    def moved(self):
        """Events that take from or change the kept object."""
        out = []
        own = lambda x: x is not None and any(s[0] == 'call' and s[1].startswith('rtti::variant::') and s[1].split('::')[-1] in ('data', 'ref', 'cref', 'rref') or self.kept(s) for s in subterms(x)) \
            and not any(s[0] == 'fld' and s[2] == self.scratch() for s in subterms(x))
        for e in self.q.events:
            if e.kind in ('move', 'fwd') and (any(own(a) for a in e.args) or own(e.obj)):
                out.append('moves from it')
            if e.kind == 'call' and e.n.startswith('rtti::variant::') and own(e.obj):
                n = e.n.split('::')[-1]
                rq = e.x['target'].d.get('rq') if e.x.get('target') is not None else None
                if n in ('rref', 'clear', 'swap', 'operator=') or rq == '&&' and n not in ('to',):
                    out.append('%s of it' % n)
            if e.kind == 'write' and e.obj is not None and e.obj[0] == 'deref' and own(e.obj):
                out.append('writes to it')
        return out


def strip(t):
    while t[0] == 'deref' and t[1][0] == 'addr':
        t = t[1][1]
    return t


def evaluate(t, loc, c):
    if t == loc:
        return c
    v = constval(t)
    if v is not None:
        return int(v)
    if t[0] == 'not':
        x = evaluate(t[1], loc, c)
        return None if x is None else not x
    if t[0] == 'op' and t[1] in ('!=0', '==', '!='):
        a, b = evaluate(t[2], loc, c), evaluate(t[3], loc, c)
        if a is None or b is None:
            return None
        return (a == b) == (t[1] == '==')
    return None


def readings(ctx, p, marks):
    n = {}
    for f in sorted((f for f in p.funcs.values() if f.bn == ARG + '::value' and f.ta and f.body is not None and f.d.get('acc') in (None, 'public', 0)), key=lambda f: str(f.ta)):
        if f.params:
            continue
        T = f.ta[0]
        cat = category(T)
        key = 'value<%s>' % short(T)
        with ctx.guard(key, f.where()):
            ps = summaries(ctx, f, *STOPS)
            if ps is None:
                continue
            n[cat] = n.get(cat, 0) + 1
            bad = und = None
            kinds = set()
            for q in ps:
                r = Reading(p, f, q, marks)
                w = path(r, T, cat)
                if q.ctl == 'return':
                    kinds.update(k for k in ('lvalue', 'rvalue') if r.feasible(k))
                if w and w[0] == '?':
                    und = und or w[1:]
                elif w:
                    bad = bad or '%s: %s' % (w, path_desc(q))
            need = {'rvalue reference': ['rvalue'], 'lvalue reference': ['lvalue']}.get(cat, ['lvalue', 'rvalue'])
            for k in need:
                if k not in kinds and not bad:
                    bad = 'throws for every %s' % k
            if not bad and not und and not any(r.unwrapped(e.obj) for q in ps for r in [Reading(p, f, q, marks)] for e in r.calls(*READS)):
                bad = 'an argument that is a variant is not unwrapped'
            if bad:
                ctx.bad(key, f.where(), bad)
            elif und:
                ctx.undecided(key, f.where(), und)
            else:
                ctx.ok(key, f.where(), '%d paths' % len(ps))
    ctx.counts.update({'readings as ' + k: v for k, v in n.items()})
    if set(n) != {'rvalue reference', 'lvalue reference', 'const reference', 'value'}:
        raise Broken('readings not recognised: %s' % n)


def path(r, T, cat):
    q = r.q
    if r.empty():
        if q.ctl != 'throw':
            return 'an empty argument does not throw'
        return None
    touched = r.moved()
    if q.ctl == 'throw':
        return 'the call fails but %s' % touched[0] if touched else None
    if q.ctl != 'return':
        return 'ends in %s' % q.ctl
    # who may get here
    if cat == 'rvalue reference' and r.feasible('lvalue'):
        return 'binds an lvalue to an rvalue reference' if r.marks else '?value category not recognised'
    if cat == 'lvalue reference' and r.feasible('rvalue'):
        return 'binds an rvalue to a non-const lvalue reference' if r.marks else '?value category not recognised'
    if cat in ('const reference', 'value') and touched:
        return 'reading as %s %s' % (cat, touched[0])
    if cat == 'lvalue reference' and touched:
        return 'binding a non-const reference %s' % touched[0]
    # where the result comes from
    want = decayed(T)
    src = None
    for s in subterms(q.val):
        for e in r.calls(*READS):
            if e.res == s and not same(r.ta(e) or '', 'rtti::variant') and src is None:
                src = e
    conv = None
    if src is None and q.val is not None:
        for s in subterms(q.val):
            if s[0] == 'call' and s[1] == 'rtti::variant::raw_data_ptr' or s[0] == 'call' and s[1].startswith('rtti::variant::'):
                for e in r.calls('raw_data_ptr', 'data', 'ref', 'cref'):
                    if e.res == s and e.obj is not None and e.obj[0] == 'fld' and e.obj[2] == r.scratch():
                        conv = e
        tos = r.calls('to')
        if conv is not None and len(tos) == 1:
            src = tos[0]
    elif src is not None and src.obj is not None and src.obj[0] == 'fld' and src.obj[2] == r.scratch():
        tos = r.calls('to')
        conv, src = src, tos[0] if len(tos) == 1 else None
    if src is None:
        tos = [e for e in r.calls('to', 'value') if e.res is not None]
        if cat == 'value' and len(tos) == 1:
            src = tos[0]
    if src is None:
        return '?result not followed: %s' % show(q.val)[:100]
    name = src.n.split('::')[-1]
    got = r.ta(src)
    if got is None or not same(decayed(got), want):
        return 'reads a %s instead of %s' % (short(str(got)), short(want))
    if conv is not None and cat == 'lvalue reference' or cat == 'lvalue reference' and name == 'to':
        return 'binds a non-const reference to a converted copy'
    if cat in ('rvalue reference', 'lvalue reference') and conv is None and name in ('data', 'ref', 'cref') and (r.const(src) or name == 'cref'):
        return 'binds a mutable reference to what was read as const'
    # whose content
    hv = r.holds_variant()
    un = r.unwrapped(src.obj)
    direct = r.kept(src.obj)
    if hv is True and not un:
        return 'the variant passed is not unwrapped' if direct else '?receiver not followed: %s' % show(src.obj)[:80]
    if hv is False and r.exact:
        return 'a const variant is not recognised: its type is compared undecayed'
    if hv is False and not direct:
        return '?receiver not followed: %s' % show(src.obj)[:80]
    if hv is None:
        return 'reads the content without asking whether it is a variant' if direct else None if un else '?receiver not followed'
    if un and cat in ('rvalue reference', 'lvalue reference') and conv is None and r.const(un):
        return 'unwraps the variant as const and gives mutable access'
    if conv is not None:
        asg = [e for e in r.calls('operator=') if e.obj is not None and e.obj[0] == 'fld' and e.obj[2] == r.scratch()]
        if not asg or conv.i < asg[-1].i:
            return 'gives the scratch value before the conversion is stored in it'
    return None
