"""Every operation table of the witness (small, large, over-aligned, array, pointer, class, move-only and reference contents) is read
off the function that yields it; each slot's path summaries are compared with what the slot is for, on the place where that storage
kind keeps its object.  A failing construction must leave nothing allocated."""
import re
from ..registry import *
from .. import slots as S
from .. import stored as St
from .. import vtable as V
from ..core import Undecided

RANGES = {'std::' + n + s for n in S.RANGE for s in ('', '_n')}
OPS = {'copy_construct': 'copy', 'move_construct': 'move_or_copy', 'copy': 'copy', 'move': 'move_or_copy'}


def run(ctx):
    p = ctx.load('stored.cpp')
    specs = St.Specs(ctx, p)
    attrs = V.attributes(ctx)
    if len(specs.spec) < 30:
        raise Broken('only %d stored types in the witness' % len(specs.spec))
    n = 0
    for t in St.tables(ctx, p):
        with ctx.guard('table of ' + t.name, t.f.where()):
            if t.name in ('void', 'rtti::variant'):
                nothing(ctx, p, t)
                continue
            spec = specs.spec.get(St.key(t.bare))
            if spec is None:
                continue
            n += 1
            check(ctx, p, t, spec, specs, attrs)
    ctx.counts['tables'] = n
    if n < 60 and not ctx.undec:
        raise Broken('only %d tables recognised' % n)


def need(ctx, t, role):
    f = t.slots.get(role)
    if f is None:
        ctx.undecided('%s of %s' % (role, t.name), t.f.where(), 'slot not set to a function')
    return f


def each(ctx, p):
    specs = St.Specs(ctx, p)
    for t in St.tables(ctx, p):
        spec = specs.spec.get(St.key(t.bare))
        if spec is not None and t.name not in ('void', 'rtti::variant'):
            yield t, spec


def owned(ctx, p):
    """Copying, moving and destroying a stored value, for every table."""
    for t, spec in each(ctx, p):
        with ctx.guard('table of ' + t.name, t.f.where()):
            if not access(ctx, p, t):
                continue
            for role in ('copy_construct', 'move_construct', 'copy', 'move'):
                f = t.slots.get(role)
                if f is not None:
                    (refer if t.ref else make)(ctx, p, t, f, role, spec)
            f = t.slots.get('destroy')
            if f is not None:
                destroy(ctx, p, t, f, spec)


def compared(ctx, p):
    """The comparison of every table."""
    for t, spec in each(ctx, p):
        with ctx.guard('table of ' + t.name, t.f.where()):
            f = t.slots.get('compare')
            if f is not None and access(ctx, p, t):
                compare(ctx, p, t, f, spec)


def check(ctx, p, t, spec, specs, attrs):
    types(ctx, p, t, specs, attrs)
    if not access(ctx, p, t):
        return
    for role in ('copy_construct', 'move_construct', 'copy', 'move'):
        f = need(ctx, t, role)
        if f is not None:
            (refer if t.ref else make)(ctx, p, t, f, role, spec)
    f = need(ctx, t, 'destroy')
    if f is not None:
        destroy(ctx, p, t, f, spec)
    f = need(ctx, t, 'compare')
    if f is not None:
        compare(ctx, p, t, f, spec)
    f = need(ctx, t, 'info')
    if f is not None:
        info(ctx, p, t, f, specs)


def types(ctx, p, t, specs, attrs):
    f = need(ctx, t, 'type')
    if f is None:
        return
    want = specs.names.get(St.key(t.inner if t.ref else t.bare))
    if want is None:
        return
    for k, form in attrs.items():
        if form is None:
            continue
        key = "type '%s' of %s" % (form, t.name)
        for q in ctx.explore(f, hooks=V.hooks(p), args=[('c', k)]) or ():
            if q.ctl != 'return':
                ctx.bad(key, f.where(), 'ends in ' + q.ctl)
                continue
            w = want[('', '&', '&&', 'const &').index(form)]
            if q.val is None or q.val[0] != 'typeid':
                ctx.undecided(key, f.where(), 'answer not recognised: ' + show(q.val)[:80])
            else:
                ctx.req(q.val == w, key, f.where(), 'the answer is %s instead of %s' % (q.val[1], w[1]))


def access(ctx, p, t):
    f = need(ctx, t, 'access')
    if f is None:
        return False
    key = 'access of ' + t.name
    st = St.store_params(p, f)
    kinds = set()
    for q in St.paths(ctx, p, f) or ():
        v = St.norm(q.val, st) if q.ctl == 'return' and q.val is not None else None
        if v == St.place(st[0], 'inline'):
            kinds.add('inline')
        elif v == St.place(st[0], 'heap'):
            kinds.add('heap')
        elif v is not None and v[0] == 'addr' and v[1][0] == 'deref' and St.norm(v[1][1], st) == St.place(st[0], 'heap'):
            kinds.add('heap')
        else:
            if v is None or v == NULL:
                ctx.bad(key, f.where(), 'the stored object is not given')
            else:
                ctx.undecided(key, f.where(), 'answer not recognised: ' + show(v)[:100])
            return False
    if len(kinds) != 1:
        ctx.undecided(key, f.where(), 'no single answer')
        return False
    k = kinds.pop()
    if t.array:
        # an array is given as the address of the pointer to it
        ctx.req(k == 'inline', key, f.where(), 'an array is not given as the address of a pointer to it')
        t.kind = 'ref' if t.ref else 'array'
    elif t.ref:
        ctx.req(k == 'heap', key, f.where(), 'gives the place of the reference, not the object referred to')
        t.kind = 'ref'
    else:
        t.kind = k
        ctx.ok(key, f.where(), k)
    return True


# ---------------------------------------------------------------- construction
def split(ctx, f, ps):
    """Paths that complete or report a library error, and paths left by an exception of the element or of the allocation."""
    done, failed = [], []
    for q in ps or ():
        if q.ctl == 'throw' and (not q.val or q.val[0] in ('*', None) or q.val[0].startswith('std::')):
            failed.append(q)
        else:
            done.append(q)
    return done, failed


def impossible(q, *ptrs):
    """Paths on which an address that always is valid is taken to be null."""
    for t in ptrs:
        if t is not None and S.nonnull(q, t) is False:
            return True
    for e in S.alloc_event(q):
        if e.res is not None and S.nonnull(q, e.res) is False:
            return True
    return False


def make(ctx, p, t, f, role, spec):
    key = '%s of %s' % (role, t.name)
    op = OPS[role]
    sts = St.store_params(p, f)
    dst = sts[-1]
    inplace = t.kind == 'inline'
    safe = spec.ncc if op == 'copy' or not spec.mc else spec.nmc
    ps = St.paths(ctx, p, f, exc=True, nothrow=RANGES if safe else ())
    if ps is None:
        return
    done, failed = split(ctx, f, ps)
    if len(sts) == 2:
        src = St.place(sts[0], 'inline' if inplace else 'heap')
    else:
        src = param(f, 0)
    good = []
    for q in done:
        raw = [src] if src[0] == 'init' else []
        if len(sts) == 2 and not inplace:
            raw = [('init', ('fld', sts[0], x['n'])) for x in fields(p)]
        if impossible(q, *raw):
            continue
        if role == 'move' and not inplace and q.ctl == 'return' and handed(ctx, p, t, q, sts, key, f):
            continue
        good.append(q)

    def extra(effs, q):
        out = []
        v = St.final(q, dst) if not inplace else None
        if not inplace and q.ctl == 'return':
            if v is None:
                ctx.bad(key, f.where(), 'the storage is not given the new object')
            else:
                als = S.alloc_event(q)
                if not any(a.res == v for a in als):
                    ctx.bad(key, f.where(), 'the storage is given %s, which was not allocated for it' % show(v)[:80])
        for what, b, o, s, e in effs:
            b = St.norm(b, sts)
            s = (St.norm(s[0], sts), s[1]) if s is not None else None
            if what in ('write', 'copyassign') and b[0] == 'addr' and b[1] == ('fld', dst, 'store') and not inplace:
                continue
            if v is not None and b == v:
                b = CELLV
            if role == 'move' and what == 'kill' and b == src:
                continue                                 # the source is empty afterwards
            out.append((what, b, o, s, e))
        return out
    where = St.place(dst, 'inline') if inplace else CELLV
    S.check(ctx, p, f, good, op, spec, key, where=where, source=src, raw=True, extra=extra)
    for q in good:
        if q.ctl == 'throw':
            released(ctx, q, f, key, t)
        elif not inplace and q.ctl == 'return':
            fr = S.free_events(q)
            ctx.req(not fr, key, f.where(), 'the memory of the new object is released again')
    for q in failed:
        if impossible(q):
            continue
        released(ctx, q, f, key, t)
        k = [e for e in q.events if e.kind == 'call' and e.n.endswith('::{dtor}') and not (e.obj and S.local(e.obj))]
        ctx.req(not k or spec.length > 1, key + ' failing', f.where(), 'an object whose construction failed is destroyed')


CELLV = St.CELL


def fields(p):
    return p.records[V.table(p).store]['fields']


def released(ctx, q, f, key, t):
    als = [e for e in S.alloc_event(q) if not e.x.get('threw')]
    fr = S.free_events(q)
    for a in als:
        n = [e for e in fr if e.args and S.pointee(e.args[0]) == (a.res, 0)]
        ctx.req(len(n) == 1, key + ' failing', a.where(), 'when construction of %s throws, its memory is released %d times' % (t.name, len(n)))


def handed(ctx, p, t, q, sts, key, f):
    """A heap object changes hands by its pointer."""
    src, dst = sts
    v = St.final(q, dst)
    if v is None or S.alloc_event(q):
        if not S.alloc_event(q):
            ctx.bad(key, f.where(), 'the destination is not given the object')
            return True
        return False
    v = St.norm(v, sts)
    ok = ctx.req(v == St.place(src, 'heap'), key, f.where(), 'the destination is given %s instead of the object' % show(v)[:80])
    s = St.final(q, src)
    if ok and s is not None:
        ctx.req(St.norm(s, sts) in (NULL, St.place(dst, 'heap')), key, f.where(), 'the source is left with ' + show(s)[:80])
    if ok and s is None:
        # both point to the object now; the source counts as empty
        ctx.ok(key, f.where())
    bad = [e for e in q.events if e.kind in ('construct', 'delete', 'free') or e.kind == 'call' and (e.n.endswith('::{dtor}') or 'operator delete' in e.n)]
    ctx.req(not bad, key, f.where(), 'moving the pointer also runs %s' % (bad[0] if bad else ''))
    return True


def refer(ctx, p, t, f, role, spec):
    key = '%s of %s' % (role, t.name)
    sts = St.store_params(p, f)
    for q in St.paths(ctx, p, f, exc=True) or ():
        if q.ctl != 'return':
            ctx.bad(key, f.where(), 'keeping a reference ends in ' + q.ctl)
            continue
        try:
            effs = S.effects(q, spec)
        except Undecided as x:
            ctx.undecided(key, f.where(), str(x))
            continue
        mine = [('addr', ('fld', s, 'store')) for s in sts]
        odd = [x for x in effs if St.norm(x[1], sts) not in mine or x[0] not in ('write', 'copyassign', 'bits', 'swap')]
        ctx.req(not odd, key, odd[0][4].where() if odd else f.where(), 'keeping a reference also does: %s' % (odd[0][4] if odd else ''))
        ctx.req(not S.alloc_event(q), key, f.where(), 'keeping a reference allocates memory')
        v = St.final(q, sts[-1])
        if v is None:
            ctx.bad(key, f.where(), 'the reference is not kept')
            continue
        v = St.norm(v, sts)
        if len(sts) == 2:
            ctx.req(v == St.place(sts[0], 'heap'), key, f.where(), 'the copy refers to ' + show(v)[:100])
        else:
            s = param(f, 0)
            if v[0] == 'addr' and v[1][0] == 'deref':
                v = v[1][1]
            if v[0] == 'call' and v[1].startswith('std::reference_wrapper') and contains(v, s):
                ctx.ok(key, f.where())
            elif v == s or not contains(v, s):
                ctx.bad(key, f.where(), 'refers to %s instead of the object of the given reference' % show(v)[:100])
            else:
                ctx.undecided(key, f.where(), 'target not recognised: ' + show(v)[:100])


def destroy(ctx, p, t, f, spec):
    key = 'destroy of ' + t.name
    st = St.store_params(p, f)[0]
    ps = St.paths(ctx, p, f, exc=True, nothrow={'std::destroy', 'std::destroy_n', 'std::destroy_at'})
    if ps is None:
        return
    if t.ref:
        for q in ps:
            if q.ctl != 'return':
                ctx.bad(key, f.where(), 'ends in ' + q.ctl)
                continue
            bad = [e for e in q.events if e.kind in ('delete', 'free', 'construct', 'uptr_delete') or e.kind == 'dtor' and e.obj and not S.local(e.obj)
                   or e.kind == 'call' and (e.n.endswith('::{dtor}') and not (e.obj and S.local(e.obj)) or 'operator delete' in e.n or e.n in ('free', 'std::destroy', 'std::destroy_at', 'std::destroy_n'))]
            ctx.req(not bad, key, bad[0].where() if bad else f.where(), 'a variant that only refers to an object ends that object: %s' % (bad[0] if bad else ''))
        return
    inplace = t.kind == 'inline'
    where = St.place(st, 'inline' if inplace else 'heap')
    raw = [('init', ('fld', st, x['n'])) for x in fields(p)]
    good = [q for q in ps if inplace or not impossible(q, *raw)]

    def extra(effs, q):
        out = []
        for what, b, o, s, e in effs:
            b = St.norm(b, (st,))
            if what in ('write', 'copyassign') and b == St.place(st, 'inline') and not inplace or what in ('free', 'delete') and not inplace:
                continue
            out.append((what, b, o, s, e))
        return out
    S.check(ctx, p, f, good, 'destroy', spec, key, where=where, raw=True, extra=extra)
    if inplace:
        for q in good:
            fr = S.free_events(q)
            ctx.req(not fr, key, f.where(), 'memory is released for an object that is kept inline')
        return
    for q in good:
        if q.ctl != 'return':
            continue
        fr = [e for e in S.free_events(q) if e.args and St.norm(e.args[0], (st,)) == where]
        ctx.req(len(fr) == 1 and len(S.free_events(q)) == 1, key, f.where(), 'the memory of the object is released %d times' % len(fr))
        kill = [e for e in q.events if (e.kind == 'call' and (e.n.endswith('::{dtor}') or e.n.startswith('std::destroy')) or e.kind == 'dtor') and not (e.obj and S.local(e.obj))]
        if fr and kill:
            ctx.req(all(e.i < fr[0].i for e in kill), key, fr[0].where(), 'the memory is released before the object is destroyed')


def compare(ctx, p, t, f, spec):
    key = 'comparison of ' + t.name
    st = St.store_params(p, f)
    if not st or len(f.params) != 2:
        return
    st = st[0]
    inplace = t.kind == 'inline'
    cands = [(('addr', ('fld', st, x['n'])) if inplace else ('init', ('fld', st, x['n']))) for x in fields(p)]
    ps = St.paths(ctx, p, f)
    if ps is None:
        return
    lhs = next((c for c in cands if any(contains(q.val, c) or any(contains(x, c) for x in q.facts) for q in ps if q.val is not None)), None)
    if lhs is None:
        if spec.eq:
            whole = ('addr', st)
            ctx.bad(key, f.where(), 'the stored object is not compared: ' + ', '.join(show(q.val)[:60] for q in ps if q.val is not None)[:150])
            return
        lhs = cands[0]
    S.check_equal(ctx, p, f, ps, spec, key, lhs, param(f, 1), raw=True)


# ---------------------------------------------------------------- class information
def info(ctx, p, t, f, specs):
    key = 'class information of ' + t.name
    kl, kp, dyn = specs.klass.get(St.key(t.bare), (False,) * 3)
    st = St.store_params(p, f)[0]
    obj = St.place(st, 'inline' if t.kind == 'inline' else 'heap')
    C = strip(t.bare)
    for q in St.paths(ctx, p, f) or ():
        if q.ctl != 'return' or q.val is None:
            if q.ctl != 'loopback':
                ctx.bad(key, f.where(), 'ends in ' + q.ctl)
            continue
        v = St.norm(q.val, (st,))
        if v[0] == 'call' and v[1].endswith('::classInfo'):
            call = next((e for e in reversed(q.events) if e.kind == 'call' and e.n == v[1]), None)
            if not dyn or not (kl or kp):
                ctx.bad(key, f.where(), 'asks the object of a type that does not tell its class')
                continue
            if call is not None and call.node is not None:
                ctx.req(bool(call.node.get('vm')) and not call.node.get('qual'), key, call.where(), 'the class is not asked of the dynamic type')
            a = v[2][0]
            want = ptr(obj) if kl else ptr(deref(obj))
            ctx.req(ptr(a) == want, key, f.where(), 'asks another object: ' + show(a)[:80])
            continue
        r = fieldsof(q, v)
        if r is None:
            ctx.undecided(key, f.where(), 'answer not recognised: ' + show(v)[:120])
            continue
        tid, inst = r
        if not kl and not kp:
            ctx.req((tid is None or tid[0] not in ('typeid',)) and (inst is None or inst == NULL), key, f.where(), 'reports a class for a value that has none: %s' % show(v)[:80])
            continue
        if tid is None or tid[0] != 'typeid':
            ctx.bad(key, f.where(), 'names no class: ' + show(v)[:100])
            continue
        ctx.req(St.key(tid[1]) == St.key(C), key, f.where(), 'names %s instead of %s' % (tid[1], C))
        if kl:
            ctx.req(not dyn, key, f.where(), 'the dynamic class of the object is not asked for')
            ctx.req(ptr(inst) == ptr(obj), key, f.where(), 'names the address %s' % show(inst)[:80])
            continue
        if inst is None:
            ctx.undecided(key, f.where(), 'address not recognised')
            continue
        null = nullp(q, st, obj)
        if dyn:
            ctx.req(null is True, key, f.where(), 'the dynamic class of the object is not asked for')
            if null is True:
                ctx.req(inst == NULL or ptr(inst) == ptr(deref(obj)), key, f.where(), 'a null pointer is given the address ' + show(inst)[:80])
        else:
            ctx.req(ptr(inst) == ptr(deref(obj)) or null is True and inst == NULL, key, f.where(), 'names the address %s' % show(inst)[:80])
    if dyn and kp:
        for q in St.paths(ctx, p, f) or ():
            for e in q.events:
                if e.kind == 'call' and e.n.endswith('::classInfo'):
                    fs = {St.norm(k, (st,)): x for k, x in q.facts.items()}
                    ctx.req(fs.get(('op', '!=0', deref(obj), C0)) is True, key + ' null', e.where(), 'a null pointer is asked for its class')


def strip(T):
    T = re.sub(r'\s*\*$', '', T)
    return St.strip_const(T)


def deref(ptrterm):
    return ('init', ptrterm[1] if ptrterm[0] == 'addr' else ('deref', ptrterm))


def ptr(t):
    if t and t[0] == 'addr' and t[1][0] == 'deref':
        return ptr(t[1][1])
    return t


def nullp(q, st, obj):
    for k, v in q.facts.items():
        k = St.norm(k, (st,))
        if k == ('op', '!=0', deref(obj), C0):
            return not v
    return None


def fieldsof(q, v):
    if v[0] == 'rec':
        d = {k[-1]: x for k, x in v[2]}
        tid = next((x for k, x in d.items() if x and x[0] == 'typeid' or 'type' in k.lower()), None)
        inst = next((x for k, x in d.items() if not (x and x[0] == 'typeid') and 'type' not in k.lower()), None)
        return tid, inst
    if v[0] == 'obj0':
        return None, None
    return None


# ---------------------------------------------------------------- no value
def nothing(ctx, p, t):
    for role, f in t.slots.items():
        key = '%s of %s' % (role, t.name)
        for q in ctx.explore(f, hooks=V.hooks(p)) or ():
            if q.ctl != 'return':
                ctx.bad(key, f.where(), 'ends in ' + q.ctl)
                continue
            odd = [e for e in q.events if e.kind in ('write', 'construct', 'delete', 'free', 'swap', 'copyassign', 'icall') and not (e.obj and S.local(e.obj))]
            ctx.req(not odd, key, f.where(), 'a variant without a value does: %s' % (odd[0] if odd else ''))
            if role == 'access':
                ctx.req(q.val == NULL, key, f.where(), 'gives an object: ' + show(q.val)[:80])
            elif role == 'compare':
                ctx.req(q.val is not None and q.it.holds(q.val, q.facts) is False, key, f.where(), 'no value equals something')
