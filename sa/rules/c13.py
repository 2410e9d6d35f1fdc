"""Where each stored type is kept is read off its access slot: an object given at an address inside the variant must fit the variant's
storage in size and alignment, everything else must be allocated with at least its size and alignment, and what the construction slots
allocate is released by the destruction slot (and on failure) in the matching form.  The same holds for the allocation and deallocation
operations of every registered type."""
from ..registry import *
from .. import slots as S
from .. import stored as St
from .. import vtable as V
from ..core import Undecided
from . import c12, c14
from .c20 import MAKE


def run(ctx):
    stored(ctx)
    registered(ctx)
    temporaries(ctx)


def stored(ctx):
    p = ctx.load('stored.cpp')
    specs = St.Specs(ctx, p)
    vt = V.table(p)
    rec = p.records.get(vt.store)
    if rec is None or 'size' not in rec:
        raise Broken('storage of variant not recognised')
    ctx.counts['storage size'], ctx.counts['storage alignment'] = rec['size'], rec['align']
    kinds = {}
    for t in St.tables(ctx, p):
        spec = specs.spec.get(St.key(t.bare))
        if spec is None or t.ref:
            continue
        with ctx.guard('storage of ' + t.name, t.f.where()):
            k = place(ctx, p, t, spec, rec)
            if k is None:
                continue
            kinds[k] = kinds.get(k, 0) + 1
            if k == 'inline':
                inplace(ctx, p, t)
            else:
                heap(ctx, p, t, spec)
    ctx.counts.update({'kept %s' % k: n for k, n in kinds.items()})
    if sum(kinds.values()) < 40 and not ctx.undec:
        raise Broken('only %d tables recognised' % sum(kinds.values()))


def place(ctx, p, t, spec, rec):
    key = 'place of ' + t.name
    f = t.slots.get('access')
    if f is None:
        ctx.undecided(key, t.f.where(), 'access slot not set')
        return None
    st = St.store_params(p, f)
    kinds = set()
    for q in St.paths(ctx, p, f) or ():
        v = St.norm(q.val, st) if q.ctl == 'return' and q.val is not None else None
        kinds.add('inline' if v == St.place(st[0], 'inline') else 'heap' if v == St.place(st[0], 'heap') else None)
    if len(kinds) != 1 or None in kinds:
        ctx.undecided(key, f.where(), 'place not recognised')
        return None
    k = kinds.pop()
    if t.array and k == 'inline':
        # arrays are given as the address of a pointer: see where construction puts them
        g = t.slots.get('copy_construct')
        k = 'array'
        return k
    if k == 'inline':
        ctx.req(spec.size <= rec['size'], key, f.where(), '%s of %d byte(s) is kept in a buffer of %d' % (t.name, spec.size, rec['size']))
        ctx.req(rec['align'] % spec.align == 0, key, f.where(), '%s, aligned to %d, is kept in a buffer aligned to %d' % (t.name, spec.align, rec['align']))
    else:
        ctx.ok(key, f.where(), k)
    return k


def inplace(ctx, p, t):
    """Nothing is allocated or released for inline values."""
    for role in ('copy_construct', 'move_construct', 'copy', 'move', 'destroy'):
        f = t.slots.get(role)
        if f is None:
            continue
        for q in St.paths(ctx, p, f) or ():
            es = S.alloc_event(q) + S.free_events(q)
            es = [e for e in es if not (e.kind == 'new')]
            ctx.req(not es, '%s of %s' % (role, t.name), es[0].where() if es else f.where(), 'memory is handled for a value that is kept inline: %s' % (es[0] if es else ''))


def heap(ctx, p, t, spec):
    forms = set()
    for role in ('copy_construct', 'move_construct', 'copy', 'move'):
        f = t.slots.get(role)
        if f is None:
            continue
        key = '%s of %s' % (role, t.name)
        sts = St.store_params(p, f)
        src = [('init', ('fld', sts[0], x['n'])) for x in c12.fields(p)] if len(sts) == 2 else [param(f, 0)]
        own = []
        for q in St.paths(ctx, p, f, exc=True) or ():
            if c12.impossible(q, *src):
                continue
            als = S.alloc_event(q)
            if role == 'move' and not als:
                continue
            if q.ctl == 'return':
                v = St.final(q, sts[-1])
                if not als:
                    # nothing supports construction of the object: reported elsewhere
                    inside = [e for e in q.events if e.kind == 'construct' and St.norm(S.ptr_of(e.obj)[0], sts) == St.place(sts[-1], 'inline')]
                    ctx.req(not inside and v is not None, key, f.where(), 'no memory is allocated for %s of %d byte(s)' % (t.name, spec.size))
                    continue
                own.append(q)
            for a in als:
                if a.x.get('threw'):
                    continue
                fr = [e for e in S.free_events(q) if e.args and S.pointee(e.args[0]) == (a.res, 0)]
                if q.ctl == 'return':
                    ctx.req(not fr, key, a.where(), 'the memory of the object is released again')
                elif q.ctl == 'throw':
                    if ctx.req(len(fr) == 1, key + ' failing', a.where(), 'when construction throws, the memory is released %d times' % len(fr)):
                        match(ctx, spec, a, fr[0], key + ' failing')
        own = [q for q in own if not any(S.nonnull(q, a.res) is False for a in S.alloc_event(q))]
        if own:
            fm = S.check_alloc(ctx, p, f, own, spec, key, result=lambda q: St.final(q, sts[-1]))
            if fm is not None:
                forms.add(fm)
    f = t.slots.get('destroy')
    if f is None:
        return
    key = 'destroy of ' + t.name
    if len(forms) > 1:
        ctx.bad(key, f.where(), 'memory of %s is obtained in different forms: %s' % (t.name, ', '.join(sorted(S.form_str(x) for x in forms))))
        return
    st = St.store_params(p, f)[0]
    ps = [q for q in St.paths(ctx, p, f) or () if not c12.impossible(q, *[('init', ('fld', st, x['n'])) for x in c12.fields(p)])]
    cands = [('init', ('fld', st, x['n'])) for x in c12.fields(p)]
    ptr = next((c for c in cands if any(e.args and e.args[0] == c for q in ps for e in S.free_events(q))), cands[0])
    S.check_free(ctx, p, f, ps, spec, key, ptr, forms.pop() if forms else None)


def match(ctx, spec, a, e, key):
    try:
        fam, size, al = S.alloc_form(a)
        f = S.free_form(e)
    except Undecided as x:
        ctx.undecided(key, e.where(), str(x))
        return
    ctx.req(f[0] == fam and f[2] == al and (f[1] is None or f[1] == size), key, e.where(),
            'memory of %s obtained by %s is released by %s' % (spec.name, S.form_str((fam, size, al)), S.form_str(f)))


def registered(ctx):
    p = ctx.load('ops.cpp')
    n = 0
    for T, spec, table, f in c14.tables(ctx, p):
        a, d = table.get('f_allocate'), table.get('f_deallocate')
        if a is None or d is None:
            ctx.undecided('allocation for ' + T, f.where(), 'operations not found')
            continue
        with ctx.guard('allocation for ' + T, f.where()):
            n += 1
            kw = opts(p, 'rtti::type_name')
            form = S.check_alloc(ctx, p, a, ctx.explore(a, **kw), spec, 'allocation for ' + T)
            S.check_free(ctx, p, d, ctx.explore(d, **kw), spec, 'deallocation for ' + T, c14.S_param(d, 0), form)
    ctx.counts['registered types'] = n


def temporaries(ctx):
    """The local buffers that conversions and comparisons construct values in have room and alignment for them."""
    p = ctx.load('convert.cpp')
    n = 0
    for bn in ('to', 'convert', 'tryConvert', 'eq'):
        for f in ctx.fns('rtti::variant::' + bn):
            if f.body is None or not f.ta or 'sz' not in f.d.get('ta0', ()):
                continue
            T, want = f.ta[0], f.d['ta0']
            key = 'temporary in %s<%s>%s' % (bn, T, ' const' if f.cm else '')
            with ctx.guard(key, f.where()):
                seen = {}
                for q in V.summaries(ctx, f, 'rtti::variant::operator==') or ():
                    for e in q.events:
                        if e.kind != 'mt' or e.x.get('op') not in MAKE or len(e.args) < 3 or e.args[2][0] != 'addr':
                            continue
                        loc = base_of(e.args[2][1])
                        if loc[0] == 'var' and loc in q.it.layouts:
                            seen[loc] = e, q.it.layouts[loc]
                for e, (size, align) in seen.values():
                    n += 1
                    ctx.req(size >= want['sz'], key, e.where(), '%s of %d byte(s) is constructed in a buffer of %d' % (T, want['sz'], size))
                    ctx.req(align % want['al'] == 0, key, e.where(), '%s, aligned to %d, is constructed in a buffer aligned to %d' % (T, want['al'], align))
    ctx.counts['temporaries'] = n
    if not n:
        ctx.undecided('temporaries', '', 'no buffer recognised')
