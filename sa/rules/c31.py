"""Hashing.  std::hash of a variant is decided by constant propagation for every stored type of the finite domain of C21 (empty, values,
pointers, arrays, with every combination of const): the path for that type has to hash exactly the bytes of the stored value - the address
the type's own access operation gives, for an array the elements it points to, and as many bytes as the type has - and its result has to be
that hash; an empty variant has to give a constant without any access to storage.  Every other hash function of the repository has to be a
function of its argument alone: no path may read anything else, write, or return a term that mentions anything else."""
from ..registry import *
from ..interp import Interp, Opts
from .. import vtable as vt
from .c16 import Compat, const
from .c21 import Scene, domain, name


def run(ctx):
    p = ctx.load('hash.cpp', 'equal.cpp', 'flags.cpp', 'access.cpp')
    variant_hash(ctx, p)
    others(ctx, p)


def variant_hash(ctx, p):
    fs = [f for f in p.bybn.get('std::hash::operator()', []) if f.body is not None and vt.targs_first(f.cls) == 'rtti::variant']
    if len(fs) != 1:
        raise Broken('std::hash of a variant not found')
    f = fs[0]
    attrs, t = vt.attributes(ctx), vt.table(p)
    L = ('glob', 'value')
    key = 'hash of a variant'
    bad, und, n = {}, 0, 0
    for s in domain(True):
        n += 1
        sc = Scene(p, attrs, None, {}, s, s)

        def setup(it, fr):
            it.mem[('var', f.params[0]['n'], 0)] = ('addr', L)
            it.mem[t.manager(L)] = ('addr', ('glob', 'table:' + name(s)))
        try:
            ps = Interp(p, Opts(stop=set(DEFER_SET), nonnull_elems=True, hooks=sc.hooks(), hook_icall=sc.icall)).explore(f, this=('glob', 'hasher'), setup=setup)
        except TooBig:
            ps = None
        if ps is None or sc.odd or len(ps) != 1:
            und += 1
            if und < 4:
                ctx.undecided(key, f.where(), 'stored %s: no single decided path: %s' % (name(s), str(sc.odd[:1] if ps is not None else 'too many')))
            continue
        q = ps[0]
        kind, why = judge(q, t, s, L)
        if kind == '?':
            und += 1
            if und < 4:
                ctx.undecided(key, f.where(), 'stored %s: %s' % (name(s), why))
        elif why:
            bad.setdefault(kind, []).append((s, why))
    ctx.counts['stored types'] = n
    for kind in sorted(bad):
        s, why = bad[kind][0]
        ctx.bad('%s: %s' % (key, kind), f.where(), 'stored %s: %s (and %d more types)' % (name(s), why, len(bad[kind]) - 1))
    if not und:
        for kind in ('empty', 'bytes', 'result', 'number of bytes'):
            if kind not in bad:
                ctx.ok('%s: %s' % (key, kind), f.where())


def judge(q, t, s, L):
    if q.ctl != 'return':
        return 'result', 'ends in %s' % q.ctl
    acc = [e for e in q.events if e.kind == 'slot']
    if s is None:
        if acc:
            return 'empty', 'the storage of an empty variant is accessed'
        if const(q.val) is None:
            foreign = outside(q.val, ())
            return ('?', 'hash of nothing is ' + show(q.val)[:80]) if not foreign else ('empty', 'the hash of nothing depends on ' + show(foreign)[:80])
        return None, None
    d = s[1]
    size = 4 * d.length if d.length else 8 if d.arity else 4
    base = ('call', 'slot:access', (('addr', ('glob', 'table:' + name(s))), ('addr', t.storage(L))))
    runs = [e for e in q.events if e.kind == 'call' and e.res is not None and e.n.startswith('std::') and len(e.args) >= 2 and any(pointer(a, base) for a in e.args)]
    if const(q.val) is not None:
        return None, None         # a constant hash is legal, if poor
    own = [e for e in q.events if e.kind == 'call' and e.res is not None and e.n.startswith('std::') and contains(q.val, e.res) and any(address_of(a, L) for a in e.args)]
    if own:
        return 'bytes', '%s hashes the variant object itself instead of its value' % own[0].n
    if not runs:
        return '?', 'no hashing of the stored bytes recognised: ' + show(q.val)[:100]
    if len(runs) != 1 or not contains(q.val, runs[0].res):
        return '?', 'the result is %s' % show(q.val)[:100]
    e = runs[0]
    ptr = next(a for a in e.args if pointer(a, base))
    depth = pointer(ptr, base)
    want = 2 if d.length else 1
    if depth != want:
        return 'bytes', ('hashes the pointer to the elements instead of the elements' if depth < want else 'reads the stored value as if it were an address') + ': ' + show(ptr)[:80]
    i = e.args.index(ptr)
    n = const(e.args[i + 1]) if len(e.args) > i + 1 else None
    if n is None:
        return '?', 'number of bytes %s' % show(e.args[i + 1] if len(e.args) > i + 1 else ('opq', '?'))[:80]
    if n != size:
        return 'number of bytes', 'hashes %d bytes of a value of %d bytes' % (n, size)
    rest = outside(q.val, (e.res,)) or next((r for j, a in enumerate(e.args) if j not in (i, i + 1) for r in (outside(a, ()),) if r is not None), None)
    if rest is not None:
        return 'result', 'the hash also depends on ' + show(rest)[:80]
    return None, None


def pointer(a, base):
    """1: address of the stored value, 2: address read from there, 0: something else."""
    if not isinstance(a, tuple) or not a:
        return 0
    while a and a[0] in ('op',) and a[1] in ('cast', 'conv'):
        a = a[2]
    if a[0] == 'call' and a[:3] == base:
        return 1
    if a[0] == 'addr' and a[1][0] == 'deref':
        return pointer(a[1][1], base)
    if a[0] in ('init', 'sv') and a[-1 if a[0] == 'init' else 2][0] == 'deref':
        x = pointer((a[1] if a[0] == 'init' else a[2])[1], base)
        return x + 1 if x else 0
    return 0


def filled(q, v, n=6):
    """The term with addresses of temporaries replaced by their values."""
    if not isinstance(v, tuple) or not v or not n:
        return v
    if v[0] == 'addr' and isinstance(v[1], tuple) and v[1][0] in ('tmp', 'var') and v[1] in q.mem:
        return filled(q, q.mem[v[1]], n - 1)
    return tuple(filled(q, x, n) if isinstance(x, tuple) else x for x in v)


def address_of(a, loc):
    while isinstance(a, tuple) and a and a[0] == 'op' and a[1] in ('cast', 'conv'):
        a = a[2]
    return isinstance(a, tuple) and a and a[0] == 'addr' and root(a[1]) == loc


def addresses(v, arg):
    """Parts of a term that are the address of the argument rather than something read from it."""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'addr' and contains(v[1], arg) or v == ('init', arg):
        return True
    if v[0] == 'init':
        return False
    return any(addresses(x, arg) if isinstance(x, tuple) else False for x in v)


def outside(v, known):
    """A part of a term that comes from somewhere else than the known terms and constants."""
    if v in known or v is None:
        return None
    if v[0] in ('c', 'null', 's', 'fn', 'default', 'agg'):
        return None
    if v[0] in ('init', 'opq', 'havoc', 'sync', 'new', 'addr', 'glob', 'var', 'made', 'mt', 'typeid'):
        return v
    for x in v[1:]:
        for y in x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,):
            if isinstance(y, tuple) and y and isinstance(y[0], str):
                r = outside(y, known)
                if r is not None:
                    return r
    return None


def others(ctx, p):
    n = 0
    for f in p.funcs.values():
        if not f.bn.endswith('::operator()') or f.body is None or not f.cls or not hasher(f.cls) or vt.targs_first(f.cls) == 'rtti::variant' or len(f.params) != 1:
            continue
        n += 1
        key = 'hash function ' + f.cls
        arg = ('var', f.params[0]['n'], 0)
        for q in ctx.explore(f, **opts(p)) or ():
            if q.ctl != 'return':
                ctx.bad(key, f.where(), 'ends in %s' % q.ctl)
                continue
            ws = [e for e in q.events if e.kind == 'write' and root(e.obj)[0] not in ('var', 'tmp', 'obj')]
            if ws:
                ctx.bad(key, ws[0].where(), 'writes ' + show(ws[0].obj))
                continue
            val = filled(q, q.val)
            odd = [t for t in subterms(val) if t and t[0] == 'init' and not contains(t[1], arg) or t and t[0] in ('opq', 'havoc', 'new')]
            if '&' in f.params[0]['t'] and addresses(val, arg):
                ctx.bad(key, f.where(), 'the hash depends on the address of the key: ' + show(val)[:100])
            elif any(t[0] == 'opq' for t in odd):
                ctx.undecided(key, f.where(), 'result not understood: ' + show(q.val)[:100])
            else:
                ctx.req(not odd, key, f.where(), 'the hash also depends on %s' % (show(odd[0])[:80] if odd else ''))
    ctx.counts['other hash functions'] = n


def hasher(cls):
    d, tail = 0, ''
    for c in reversed(cls):
        d += (c == '>') - (c == '<')
        if c == ':' and d == 0:
            break
        tail = c + tail
    return 'hash' in tail.split('<')[0]


def root(loc):
    while isinstance(loc, tuple) and loc and loc[0] in ('fld', 'idx', 'elem'):
        loc = loc[1]
    return loc if isinstance(loc, tuple) and loc else ('?',)
