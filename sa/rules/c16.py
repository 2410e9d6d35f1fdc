"""Type compatibility is decided by constant propagation through MetaType::compatible for every pair of a finite domain of type
descriptors (pointer depth 0..3, thorough 0..4, every combination of const at every level, value / lvalue / rvalue reference, arrays of
two lengths) and compared with the rules of the language: every pair that would bind a non-const lvalue reference to something else
than an lvalue, an rvalue reference to an lvalue, drop const at a referenced level (also indirectly, by adding const below a level that
is not const), change the depth or lengthen an array must be rejected on its only path.  For the const members of variant every path of
every instantiation is checked to ask the stored type's table only for its const reference type, never for its (non-const) reference
types, and to hand out only const access."""
import itertools
from ..registry import *

FLAGS = ('Const', 'Pointer', 'LvalueReference', 'RvalueReference', 'Array')


def run(ctx):
    p = ctx.load('flags.cpp', 'access.cpp')
    compat(ctx, p)
    from . import c16v
    c16v.run(ctx, p)


def const(v):
    while v is not None and v[0] == 'op' and v[1] in ('cast', 'conv'):
        v = v[2]
    return v[1] if v is not None and v[0] == 'c' else None


class D:
    """Descriptor of one type: pointer depth, const mask (bit i: level i, innermost first), reference kind, array length."""
    def __init__(self, arity, mask, ref, length=0):
        self.arity, self.mask, self.ref, self.length = arity, mask, ref, length

    def const(self, i):
        return bool(self.mask >> i & 1)

    @property
    def pointer(self):
        return self.arity > 0

    def __str__(self):
        s = 'T' + (' const' if self.const(0) else '')
        for i in range(1, self.arity + 1):
            s += '*' + (' const' if self.const(i) else '')
        r = {0: '', 1: '&', 2: '&&'}[self.ref]
        if self.length:
            return s + (('(%s)' % r) if r else '') + '[%d]' % self.length
        return s + r


def domain(depth):
    for a in range(depth + 1):
        for m in range(1 << (a + 1)):
            for r in range(3):
                yield D(a, m, r)
    for n in (3, 5):
        for m in range(2):
            for r in range(3):
                yield D(0, m, r, n)


def must_reject(f, t):
    """Reason why the language forbids to view f as t, or None."""
    if t.ref == 1 and f.ref != 1 and not t.const(t.arity):
        return 'binds a non-const lvalue reference to something that is not an lvalue'
    if t.ref == 2 and f.ref == 1:
        return 'binds an rvalue reference to an lvalue'
    if f.length and t.length and f.length < t.length:
        return 'views an array as a longer one'
    decays = f.length and t.pointer
    fa = f.arity + (1 if decays else 0)
    if not f.length and t.length:
        return 'changes the pointer depth' if f.arity != t.arity else None
    if fa != t.arity:
        return 'changes the pointer depth'
    if decays and t.ref:
        if t.ref == 1 and not t.const(t.arity):
            return 'binds a non-const reference to the temporary pointer an array decays to'
    top = fa if t.ref else fa - 1
    fm = f.mask | (1 << fa if decays else 0)
    for i in range(top + 1):
        if fm >> i & 1 and not t.const(i) and not (decays and i == fa):
            return 'drops const at level %d' % i
    for i in range(top + 1):
        if not fm >> i & 1 and t.const(i) and not all(t.const(j) for j in range(i + 1, top + 1)):
            return 'adds const at level %d below a level that is not const' % i
    return None


def fields(ctx, p):
    """Names of the descriptor fields behind the public accessors."""
    out = {}
    base = None
    for n in ('pointerArity', 'typeSize', 'typeFlags'):
        f = ctx.fns('rtti::MetaType::' + n)[0]
        for q in ctx.explore(f, **opts(p)) or ():
            v = wide(q.val)
            if q.ctl == 'return' and v and v[0] == 'init' and v[1][0] == 'fld' and v[1][1][0] == 'deref':
                out[n] = v[1][2]
                base = v[1][1][1]
    if len(out) != 3 or base is None or base[0] != 'init' or base[1][0] != 'fld':
        return None
    ptr = base[1][2]
    rec = next((r for n, r in p.records.items() if {x['n'] for x in r['fields']} >= set(out.values()) and n.startswith('rtti::')), None)
    if rec is None:
        return None
    types = {x['n']: x['t'] for x in rec['fields']}
    at = types[out['pointerArity']].replace('const ', '')
    rest = [n for n, t in types.items() if t.replace('const ', '') == at and n != out['pointerArity']]
    if len(rest) != 1:
        return None
    out['mask'] = rest[0]
    return ptr, out


def flagvalues(ctx, p):
    f = ctx.fns('w::flags')[0]
    out = {}
    for q in ctx.explore(f, **opts(p)) or ():
        for e in q.events:
            if e.kind == 'call' and e.n == 'w::flag' and e.args[0][0] == 's':
                out[e.args[0][1]] = const(e.args[1])
    return out


class Compat:
    """Answers of MetaType::compatible for constant descriptors."""
    def __init__(self, ctx, p):
        self.f = f = ctx.fns('rtti::MetaType::compatible')[0]
        self.p, self.o = p, opts(p)
        self.endless = []
        self.fl = flagvalues(ctx, p)
        self.sh = fields(ctx, p)
        self.known = not (self.sh is None or any(self.fl.get(x) is None for x in FLAGS) or len(f.params) != 2)
        if not self.known:
            ctx.undecided('compatibility', f.where(), 'descriptor fields or flags not recognised')

    def answer(self, a, b):
        """(answer, None) or (None, what was found instead)."""
        f, fl = self.f, self.fl
        ptr, names = self.sh

        def setup(it, fr):
            for i, (q, d) in enumerate(zip(f.params, (a, b))):
                loc = ('var', q['n'] or 'arg%d' % i, 0)
                g = ('glob', 'descriptor:%d' % i)
                if q['t'].endswith('&'):
                    it.mem[loc] = ('addr', ('glob', 'handle:%d' % i))
                    loc = ('glob', 'handle:%d' % i)
                it.mem[('fld', loc, ptr)] = ('addr', g)
                bits = (fl['Const'] if d.const(d.arity) else 0) | (fl['Pointer'] if d.pointer else 0) | (fl['Array'] if d.length else 0) | \
                    {0: 0, 1: fl['LvalueReference'], 2: fl['RvalueReference']}[d.ref] | fl.get('Integral', 0)
                it.mem[('fld', g, names['pointerArity'])] = ('c', d.arity)
                it.mem[('fld', g, names['mask'])] = ('c', d.mask)
                it.mem[('fld', g, names['typeFlags'])] = ('c', bits)
                it.mem[('fld', g, names['typeSize'])] = ('c', 4 * d.length if d.length else 8 if d.pointer else 4)
        try:
            ps = Interp(self.p, Opts(**self.o)).explore(f, setup=setup)
        except TooBig as e:
            return None, 'too many paths'
        got = {(q.ctl, const(q.val) if q.val is not None else None) for q in ps}
        if len(got) != 1 or list(got)[0][0] == 'return' and list(got)[0][1] is None:
            return None, str(got)[:100]
        ctl, v = got.pop()
        if ctl == 'diverges':
            self.endless.append((a, b))
        return ctl == 'return' and bool(v), None


def must_accept(f, t):
    """Views of the very same type that the language allows."""
    if (f.arity, f.length) != (t.arity, t.length):
        return False
    top = 1 << f.arity
    if f.mask | top != t.mask | top:
        return False
    if f.mask & top and not t.mask & top and t.ref:
        return False
    if t.ref == 1:
        return f.ref == 1 or t.const(t.arity)
    return t.ref == 2 and f.ref != 1 or t.ref == 0


def accepts(ctx, p, depth):
    """Every view of a type as itself that the language allows is accepted."""
    c = Compat(ctx, p)
    if not c.known:
        return
    n, bad = 0, []
    for a, b in itertools.product(list(domain(depth)), repeat=2):
        if not must_accept(a, b):
            continue
        v, why = c.answer(a, b)
        n += 1
        if v is None:
            ctx.undecided('%s as %s' % (a, b), c.f.where(), 'no single constant answer: ' + why)
            return
        if not v:
            bad.append((a, b))
    ctx.counts['descriptor pairs that must be accepted'] = n
    if bad:
        ctx.bad('compatibility of a type with itself', c.f.where(), 'refuses to view %s as %s (and %d more pairs)' % (bad[0] + (len(bad) - 1,)))
    else:
        ctx.ok('compatibility of a type with itself', c.f.where(), '%d pairs' % n)


def compat(ctx, p):
    c = Compat(ctx, p)
    if not c.known:
        return
    f = c.f
    n = und = rej = 0
    bad = {}
    for a, b in itertools.product(list(domain(3 if ctx.tier == 'quick' else 4)), repeat=2):
        why = must_reject(a, b)
        if why is None:
            continue
        v, odd = c.answer(a, b)
        n += 1
        if v is None:
            und += 1
            if und < 4:
                ctx.undecided('%s as %s' % (a, b), f.where(), 'no single constant answer: ' + odd)
        elif v:
            bad.setdefault(why.split(' at level')[0], []).append((a, b))
        else:
            rej += 1
    if c.endless:
        ctx.bad('compatibility: no answer', f.where(), 'never ends for %s as %s (and %d more pairs)' % (c.endless[0] + (len(c.endless) - 1,)))
    ctx.counts['descriptor pairs that must be rejected'] = n
    ctx.counts['descriptor pairs rejected'] = rej
    for why in sorted(bad):
        a, b = bad[why][0]
        ctx.bad('compatibility: ' + why, f.where(), 'accepts to view %s as %s (and %d more pairs), which %s' % (a, b, len(bad[why]) - 1, why))
    if not bad and not und:
        for why in ('value category', 'constness', 'depth', 'array length'):
            ctx.ok('compatibility: ' + why, f.where())
