"""The operation table registered for every witness type is read off the registration; each slot's path summaries are compared with
what the slot is for: which objects it constructs, destroys, copies, moves or compares, on which address, and that unsupported
operations throw.  The library's own users of the table must forward the right slot with the right arguments, construct() must
release its memory when a constructor throws and destruct() must destroy before it releases."""
from ..registry import *
from .. import slots as S

SLOTS = (('f_default_construct', 'default'), ('f_copy_construct', 'copy'), ('f_move_construct', 'move'), ('f_move_or_copy', 'move_or_copy'),
         ('f_destroy', 'destroy'))
FORWARD = {'allocate': 'f_allocate', 'deallocate': 'f_deallocate', 'default_construct': 'f_default_construct', 'copy_construct': 'f_copy_construct',
           'move_construct': 'f_move_construct', 'move_or_copy': 'f_move_or_copy', 'destroy': 'f_destroy', 'compare_eq': 'f_compare_eq'}


def run(ctx):
    p = ctx.load('ops.cpp')
    n = 0
    for T, spec, table, f in tables(ctx, p):
        n += 1
        with ctx.guard('operations of ' + T, f.where()):
            slots(ctx, p, T, spec, table)
    ctx.counts['types'] = n
    if n < 40 and not ctx.undec:
        raise Broken('only %d operation tables recognised' % n)
    forwards(ctx, p)
    construct(ctx, p)
    destruct(ctx, p)


def exact(ctx, only=None):
    """The registered operations alone (of every witness type, or only the comparison)."""
    p = ctx.load('ops.cpp')
    for T, spec, table, f in tables(ctx, p):
        with ctx.guard('operations of ' + T, f.where()):
            slots(ctx, p, T, spec, {k: v for k, v in table.items() if only in (None, k)}, only)


def tables(ctx, p):
    """(type, spec, {slot: function}) of every witness registration."""
    fs = [f for f in p.fn('w::ops') if f.body is not None]
    if len(fs) < 40:
        raise Broken('only %d witness types' % len(fs))
    for f in fs:
        T = f.ta[0]
        ps = ctx.explore(f, **opts(p, 'rtti::MetaType::registerMetaType', 'rtti::type_name'))
        done = False
        for q in ps or ():
            ex = [e for e in q.events if e.kind == 'call' and e.n == 'w::expect_ops']
            regs = [e for e in q.events if e.kind == 'call' and e.n.endswith('registerMetaType')]
            if q.ctl != 'return' or not ex or not regs or done:
                continue
            spec = S.Spec(T, S.elem_of(T), *[S.const(a) for a in ex[0].args])
            for r in reversed(regs):
                m = r.args[6] if len(r.args) > 6 else None
                if m is None or m[0] != 'addr':
                    continue
                table = {k[2]: p.funcs[v[1]] for k, v in q.mem.items() if k[0] == 'fld' and k[1] == m[1] and v and v[0] == 'fn' and v[1] in p.funcs}
                if table:
                    done = True
                    yield T, spec, table, f
                    break
        if not done:
            ctx.undecided('operations of ' + T, f.where(), 'operation table not found')


def slots(ctx, p, T, spec, table, only=None):
    kw = opts(p, 'rtti::type_name')
    for name, op in SLOTS:
        if only is not None:
            break
        f = table.get(name)
        if f is None:
            ctx.undecided('%s of %s' % (op, T), '', 'slot %s not set to a function' % name)
            continue
        ps = ctx.explore(f, **kw)
        src = S_param(f, 0) if len(f.params) == 2 else None
        dst = S_param(f, len(f.params) - 1)
        S.check(ctx, p, f, ps, op, spec, '%s of %s' % (op, T), where=dst, source=src)
        nothrow(ctx, f, op, spec, T)
    f = table.get('f_compare_eq')
    if f is not None:
        S.check_equal(ctx, p, f, ctx.explore(f, **kw), spec, 'comparison of ' + T, S_param(f, 0), S_param(f, 1))
        nothrow(ctx, f, 'equal', spec, T)
    a, d = table.get('f_allocate'), table.get('f_deallocate')
    if a is None or d is None:
        return
    form = S.check_alloc(ctx, p, a, ctx.explore(a, **kw), spec, 'allocation for ' + T)
    S.check_free(ctx, p, d, ctx.explore(d, **kw), spec, 'deallocation for ' + T, S_param(d, 0), form)


def nothrow(ctx, f, op, spec, T):
    """An operation that may throw inside a function declared not to."""
    if not f.nx:
        return
    safe = {'default': spec.ndc and spec.dc, 'copy': spec.ncc and spec.cc, 'move': spec.nmc and spec.mc, 'destroy': True,
            'move_or_copy': (spec.nmc if spec.mc else spec.ncc and spec.cc), 'equal': spec.neq and spec.eq}[op]
    ctx.req(bool(safe), '%s of %s may throw' % (op, T), f.where(), '%s of %s can throw but is declared noexcept' % (op, T))


def S_param(f, i):
    return ('init', ('var', f.params[i]['n'] or 'arg%d' % i, 0))


def forwards(ctx, p):
    for name, slot in FORWARD.items():
        fs = [f for f in p.fn('rtti::MetaType::' + name) if f.body is not None]
        if not fs:
            ctx.undecided('MetaType::' + name, '', 'not defined')
            continue
        for f in fs:
            ps = ctx.explore(f, **opts(p))
            seen = 0
            for q in ps or ():
                if q.ctl == 'loopback':
                    continue
                calls = [e for e in q.events if e.kind == 'icall']
                info = q.it.holds(('op', '!=0', ('init', ('fld', THIS, 'm_typeInfo')), ('c', 0)), q.facts)
                key = 'MetaType::' + name
                if not calls and info is None and any(e.kind in ('call', 'unknown', 'pmcall') for e in q.events):
                    ctx.undecided(key, f.where(), 'whether the operation is run is not understood')
                    continue
                if not calls:
                    ctx.req(info is False, key, f.where(), 'the type\'s operation is not run')
                    continue
                seen += 1
                c = calls[0]
                t = c.x.get('target')
                got = slot_of(c)
                if got is None:
                    ctx.undecided(key, c.where(), 'called operation not recognised: ' + str(c)[:100])
                    continue
                ctx.req(len(calls) == 1, key, c.where(), 'operations are run %d times' % len(calls))
                ctx.req(got == slot, key, c.where(), 'runs %s instead of %s' % (got, slot))
                want = tuple(param(f, i) for i in range(len(f.params)))
                ctx.req(tuple(c.args) == want, key, c.where(), 'passes (%s)' % ', '.join(show(a) for a in c.args))
                if f.d.get('rt', f.d.get('t', '')) != 'void' and q.val is not None and c.res is not None and name in ('allocate', 'compare_eq'):
                    ctx.req(contains(q.val, c.res) or q.val == c.res or q.val in (C0, C1) and truth(q, c.res) is (q.val == C1), key, f.where(), 'the result of the operation is not returned')
            if ps and not seen:
                ctx.undecided('MetaType::' + name, f.where(), 'no operation is run on any path')


def slot_of(e):
    t = e.x.get('target') if e.obj is None else e.obj
    for x in (e.x.get('target'), e.obj, e.x.get('fn'), e.x.get('callee')):
        for s in subterms(x) if isinstance(x, tuple) else ():
            if s and s[0] == 'fld' and str(s[2]).startswith('f_'):
                return s[2]
    return None


OPS = {'rtti::MetaType::' + n for n in FORWARD}


def construct(ctx, p):
    for f in ctx.fns('rtti::MetaType::construct'):
        key = 'MetaType::construct'
        ps = ctx.explore(f, exc=True, nothrow={'rtti::MetaType::deallocate', 'rtti::MetaType::destroy'}, **opts(p, *OPS))
        thrown = 0
        for q in ps or ():
            if q.ctl == 'loopback':
                continue
            ev = [(e.n.split('::')[-1], e) for e in q.events if e.kind == 'call' and e.n in OPS]
            names = [n for n, _ in ev]
            al = [e for n, e in ev if n == 'allocate']
            if q.ctl == 'throw':
                if len(al) == 1 and names[-1] == 'allocate':
                    continue                     # the allocation itself failed
                fr = [e for n, e in ev if n == 'deallocate' and e.args == (al[0].res,)] if al else []
                thrown += 1
                ctx.req(len(fr) == 1, key + ' failing', f.where(), 'when a constructor throws, the memory is released %d times' % len(fr))
                ctx.req('destroy' not in names, key + ' failing', f.where(), 'when a constructor throws, the object is destroyed')
                continue
            if q.ctl != 'return':
                ctx.bad(key, f.where(), 'ends in ' + q.ctl)
                continue
            mk = [(n, e) for n, e in ev if n.endswith('construct') or n == 'move_or_copy']
            ctx.req(len(al) == 1 and len(mk) == 1, key, f.where(), 'runs ' + ', '.join(names))
            if len(al) != 1 or len(mk) != 1:
                continue
            n, e = mk[0]
            src = q.it.holds(('op', '!=0', param(f, 0), ('c', 0)), q.facts)
            mov = q.it.holds(param(f, 1), q.facts)
            want = {'default_construct'} if src is False else {'copy_construct'} if mov is False else {'move_construct', 'move_or_copy'} if mov else None
            if src is None or want is None:
                ctx.undecided(key, f.where(), 'case not recognised')
            else:
                ctx.req(n in want, key, e.where(), '%s is run for source %s, movable %s' % (n, bool(src), mov))
            ctx.req(e.args[-1] == al[0].res and (n == 'default_construct' or e.args[0] == param(f, 0)), key, e.where(), 'passes (%s)' % ', '.join(show(a) for a in e.args))
            ctx.req(q.val == al[0].res and 'deallocate' not in names and 'destroy' not in names, key, f.where(), 'does not hand over the constructed object: ' + ', '.join(names))
        if ps and not thrown:
            ctx.undecided(key + ' failing', f.where(), 'no failing path seen')


def destruct(ctx, p):
    for f in ctx.fns('rtti::MetaType::destruct'):
        key = 'MetaType::destruct'
        for q in ctx.explore(f, **opts(p, *OPS)) or ():
            if q.ctl == 'loopback':
                continue
            ev = [(e.n.split('::')[-1], e.args) for e in q.events if e.kind == 'call' and e.n in OPS]
            nn = q.it.holds(('op', '!=0', param(f, 0), ('c', 0)), q.facts)
            if nn is False:
                ctx.req(not [n for n, _ in ev if n == 'destroy'], key, f.where(), 'a null address is not ignored')
                continue
            want = [('destroy', (param(f, 0),)), ('deallocate', (param(f, 0),))]
            ctx.req(ev == want, key, f.where(), 'runs ' + (', '.join(n for n, _ in ev) or 'nothing') + ' instead of destroying and then releasing the object')
