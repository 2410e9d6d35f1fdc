"""What a low-level operation (construct, copy, move, destroy, compare, allocate, deallocate) does to the objects of a type,
read off its path summaries, and the comparison of that with what the operation is for.  Array loops have constant bounds in every
instantiation, so element ranges are enumerated exactly."""
import re
from .core import Undecided
from .interp import C0, NULL, subterms, contains, show, offset


class Spec:
    """What one type supports; all fields are constants of the witness."""
    def __init__(self, name, elem, size, align, length, dc, tdc, cc, mc, td, eq, ndc, ncc, nmc, neq, triv):
        self.name, self.elem, self.size, self.align, self.length = name, elem, size, align, length
        self.dc, self.tdc, self.cc, self.mc, self.td, self.eq = dc, tdc, cc, mc, td, eq
        self.ndc, self.ncc, self.nmc, self.neq, self.triv = ndc, ncc, nmc, neq, triv

    FIELDS = ('size', 'align', 'length', 'default', 'trivial default', 'copy', 'move', 'trivial destroy', 'equal',
              'nothrow default', 'nothrow copy', 'nothrow move', 'nothrow equal', 'trivially copyable')


def const(v):
    while v is not None and v[0] == 'op' and v[1] in ('cast', 'conv'):
        v = v[2]
    return v[1] if v is not None and v[0] == 'c' else None


def elem_of(T):
    return re.sub(r'(\[\d+\])+$', '', T).strip()


def plain(t):
    return re.sub(r'\bconst\b|\bvolatile\b|\s', '', t or '').replace('&', '')


def ptr_of(loc):
    """(base pointer term, element offset) of an object location."""
    if loc[0] == 'deref':
        return offset(loc[1])
    if loc[0] == 'idx' and loc[2][0] == 'c':
        if loc[1][0] == 'idx':
            raise Undecided('multi-dimensional element access')
        b, o = ptr_of(loc[1])
        return b, o + loc[2][1]
    return ('addr', loc), 0


def pointee(t):
    """(base, offset) of a pointer value."""
    b, o = offset(t)
    if b[0] == 'addr':
        c, k = ptr_of(b[1])
        return c, k + o
    return b, o


RANGE = {  # name: (positions of first, last/count, destination), how
    'uninitialized_value_construct': (None, 0, 1, 'default'), 'uninitialized_default_construct': (None, 0, 1, 'default'),
    'uninitialized_copy': (0, 1, 2, 'copy'), 'uninitialized_move': (0, 1, 2, 'move'), 'destroy': (None, 0, 1, 'kill')}


def effects(q, spec, where=(), source=()):
    """Object constructions and destructions on a path, in order: (what, base, offset, source (base, offset) or None, event)."""
    out = []
    lib = {t for t in (where, source) if t}
    moved = {e.obj for e in q.events if e.kind == 'move'}
    for i, e in enumerate(q.events):
        if e.kind == 'cast':
            pass
        elif e.kind == 'construct':
            if e.x.get('arr') is True or e.x.get('arr') == 'True':
                raise Undecided('array new-expression')
            if not e.x.get('placement'):
                raise Undecided('a new object is allocated')
            b, o = ptr_of(e.obj)
            c = next((c for c in q.events[i + 1:] if c.kind in ('ctor', 'construct')), None)
            if c is not None and c.kind == 'ctor' and c.obj == e.obj:
                src = None
                if c.args:
                    src = pointee(c.args[0]) if len(c.args) == 1 else ('many', 0)
                if not c.args:
                    how = 'default'
                elif c.x.get('move'):
                    how = 'move'
                elif c.x.get('copy'):
                    how = 'move' if c.args[0][0] == 'addr' and c.args[0][1] in moved else 'copy'
                    if how == 'move':
                        how = 'copy by rvalue'
                else:
                    how = 'other'
                out.append((how, b, o, src, e))
            else:
                v = q.mem.get(e.obj)
                if v is not None and v[0] == 'init':
                    out.append(('bits', b, o, ptr_of(v[1]), e))
                elif v is None or v[0] in ('obj0', 'c', 'rec', 'null', 'zero'):
                    out.append(('default', b, o, None, e))
                else:
                    raise Undecided('constructed from ' + show(v)[:80])
            if plain(e.n) != plain(spec.elem):
                out.append(('wrong type ' + e.n, b, o, None, e))
        elif e.kind == 'call' and e.n.endswith('::{dtor}') or e.kind == 'dtor' and e.obj is not None and not local(e.obj):
            b, o = ptr_of(e.obj)
            out.append(('kill', b, o, None, e))
        elif e.kind == 'call':
            n = e.n.split('::')[-1]
            if e.n.startswith('std::') and (n in RANGE or n[:-2] in RANGE and n.endswith('_n')):
                s, l, d, how = RANGE[n if n in RANGE else n[:-2]]
                if how in ('copy', 'move'):
                    src = pointee(e.args[s])
                    dst = pointee(e.args[d])
                    first = src
                else:
                    src = None
                    dst = first = pointee(e.args[l])
                if n.endswith('_n'):
                    k = const(e.args[1])
                else:
                    end = pointee(e.args[1])
                    if end[0] != first[0]:
                        raise Undecided('range %s .. %s' % (show(e.args[0]), show(e.args[1])))
                    k = end[1] - first[1]
                if k is None or k < 0 or k > 4096:
                    raise Undecided('range length')
                for j in range(k):
                    out.append((how, dst[0], dst[1] + j, (src[0], src[1] + j) if src else None, e))
            elif n == 'destroy_at' and e.n.startswith('std::'):
                b, o = pointee(e.args[0])
                out.append(('kill', b, o, None, e))
            elif n in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove'):
                d, s, k = pointee(e.args[0]), pointee(e.args[1]), const(e.args[2])
                if k is None:
                    raise Undecided('copied size')
                if not spec.triv:
                    out.append(('bitwise copy', d[0], d[1], s, e))
                else:
                    es = spec.size // spec.length
                    if k % es:
                        out.append(('partial copy', d[0], d[1], s, e))
                    else:
                        for j in range(k // es):
                            out.append(('bits', d[0], d[1] + j, (s[0], s[1] + j), e))
            elif any(x and (contains(x, t)) for t in lib for x in list(e.args) + [e.obj]):
                raise Undecided('call of ' + e.n)
        elif e.kind in ('write', 'copyassign', 'swap', 'delete', 'free') and e.obj is not None and not local(e.obj):
            b, o = ptr_of(e.obj) if e.kind in ('write', 'copyassign', 'swap') else pointee(e.args[0])
            out.append((e.kind, b, o, None, e))
        elif e.kind in ('delete', 'free', 'uptr_delete'):
            b, o = pointee(e.args[0]) if e.args else (None, 0)
            out.append((e.kind, b, o, None, e))
    return out


def local(loc):
    while loc[0] in ('fld', 'idx'):
        loc = loc[1]
    return loc[0] in ('var', 'obj', 'tmp', 'elem', 'mapval')


def nonnull(q, t):
    if t[0] == 'addr':
        return True
    return q.it.holds(('op', '!=0', t, C0), q.facts)


HOWS = {'default': ('default',), 'copy': ('copy', 'bits'), 'move': ('move', 'copy by rvalue', 'bits')}
LIBERR = 'rtti::runtime_error'


def lib_error(p, n):
    return p.derives(n, LIBERR)


def check(ctx, p, fn, ps, op, spec, key, where=None, source=None, raw=False, extra=None):
    """op in default/copy/move/move_or_copy/destroy. where/source: pointer terms. raw: the addresses are never null."""
    if ps is None:
        return
    if op == 'move_or_copy':
        how, sup = ('move' if spec.mc else 'copy'), spec.mc or spec.cc
    else:
        how = op
        sup = {'default': spec.dc, 'copy': spec.cc, 'move': spec.mc, 'destroy': True}[op]
    kw = pointee(where)
    ks = pointee(source) if source is not None else None
    for q in ps:
        if q.ctl in ('loopback',):
            continue
        if not sup:
            if q.ctl == 'throw':
                n = q.val[0] if q.val else None
                ctx.req(n is None or lib_error(p, n), key, fn.where(), '%s of a type that does not support it throws %s' % (op, n))
            elif q.ctl == 'terminate':
                ctx.bad(key, fn.where(), '%s of a type that does not support it terminates the program' % op)
            else:
                nn = [nonnull(q, t) for t in (where, source) if t is not None]
                if False in nn:
                    ctx.ok(key, fn.where())
                else:
                    ctx.bad(key, fn.where(), '%s of %s, which does not support it, does not throw' % (op, spec.name))
            continue
        if q.ctl in ('throw', 'terminate'):
            ctx.bad(key, fn.where(), '%s of %s %s' % (op, spec.name, 'throws ' + str(q.val and q.val[0]) if q.ctl == 'throw' else 'terminates'))
            continue
        try:
            effs = effects(q, spec, where, source)
        except Undecided as x:
            ctx.undecided(key, fn.where(), str(x))
            continue
        if extra:
            effs = extra(effs, q)
        need = [t for t in (where, source) if t is not None]
        nn = [nonnull(q, t) for t in need]
        if False in nn:
            ctx.req(not effs, key, effs[0][4].where() if effs else fn.where(), 'a null address is not ignored: ' + (str(effs[0][4]) if effs else ''))
            continue
        want = range(spec.length)
        if how == 'destroy':
            got = [x for x in effs]
            if spec.td and not got:
                ctx.ok(key, fn.where())
                continue
            cells = [x[2] for x in got if x[0] == 'kill' and x[1] == kw[0]]
            odd = [x for x in got if x[0] != 'kill' or x[1] != kw[0]]
        else:
            if how == 'default' and spec.tdc and not effs:
                ctx.ok(key, fn.where())
                continue
            odd = [x for x in effs if x[0] not in HOWS[how] or x[1] != kw[0]]
            if ks is not None:
                odd += [x for x in effs if x not in odd and (x[3] is None or x[3][0] != ks[0] or x[3][1] - ks[1] != x[2] - kw[1])]
            cells = [x[2] for x in effs if x not in odd]
        cells = [c - kw[1] for c in cells]
        if odd:
            x = odd[0]
            if x[0] == 'write' and spec.triv:
                ctx.undecided(key, x[4].where(), 'assignment: %s' % x[4])
                continue
            ctx.bad(key, x[4].where(), '%s of %s does something else: %s (%s)' % (op, spec.name, x[0], x[4]))
        elif sorted(cells) != list(want):
            twice = [c for c in cells if cells.count(c) > 1]
            ctx.bad(key, fn.where(), '%s of %s: of %d element(s), %s' % (
                op, spec.name, spec.length, 'element %d is done twice' % twice[0] if twice else
                'done are %s' % (sorted(cells) if len(cells) < 20 else len(cells))))
        elif None in nn and not raw and effs:
            ctx.bad(key, fn.where(), '%s of %s happens without testing the address for null' % (op, spec.name))
        else:
            ctx.ok(key, fn.where())


def equalities(q, spec, lhs, rhs, term):
    """Element index compared for equality by a term, None if it is something else; 'all' for std::equal over everything."""
    L, R = pointee(lhs), pointee(rhs)

    def side(x):
        if x[0] == 'addr':
            return ptr_of(x[1])
        if x[0] == 'init':
            return ptr_of(x[1])
        return None

    def pair(a, b):
        a, b = side(a), side(b)
        if a is None or b is None:
            return None
        if a[0] == R[0] and b[0] == L[0] and R[0] != L[0]:
            a, b = b, a
        if a[0] != L[0] or b[0] != R[0] or a[1] - L[1] != b[1] - R[1]:
            return None
        return {a[1] - L[1]}
    if term[0] == 'op' and term[1] == '==':
        return pair(term[2], term[3])
    if term[0] == 'call':
        n = term[1].split('::')[-1]
        if n == 'operator==' and len(term[2]) == 2:
            return pair(*term[2])
        if term[1] == 'std::equal' and len(term[2]) in (3, 4):
            a, b, c = (pointee(t) for t in term[2][:3])
            if a[0] == L[0] and b[0] == L[0] and c[0] == R[0] and a[1] - L[1] == c[1] - R[1]:
                return set(range(a[1] - L[1], b[1] - L[1]))
    return None


def norm_bool(t, pol=True):
    while True:
        if t[0] == 'not':
            t, pol = t[1], not pol
        elif t[0] == 'bool':
            t = t[1]
        elif t[0] == 'op' and t[1] == '!=0':
            t = t[2]
        elif t[0] == 'op' and t[1] == '!=':
            t, pol = ('op', '==', t[2], t[3]), not pol
        else:
            return t, pol


def check_equal(ctx, p, fn, ps, spec, key, lhs, rhs, raw=False):
    if ps is None:
        return
    L, R = pointee(lhs), pointee(rhs)
    n = set(range(spec.length))
    for q in ps:
        if q.ctl == 'loopback':
            continue
        if not spec.eq:
            if q.ctl == 'throw':
                m = q.val[0] if q.val else None
                ctx.req(m is None or lib_error(p, m), key, fn.where(), 'comparing a type without equality throws %s' % m)
            else:
                ctx.bad(key, fn.where(), 'comparing %s, which has no equality, does not throw' % spec.name)
            continue
        if q.ctl != 'return':
            ctx.bad(key, fn.where(), 'comparing %s %s' % (spec.name, q.ctl + 's'))
            continue
        same = q.it.holds(('op', '==', lhs, rhs), q.facts)
        nn = [nonnull(q, lhs), nonnull(q, rhs)]
        v, pol = norm_bool(q.val)
        k = q.it.holds(q.val, q.facts) if v[0] != 'c' else (bool(v[1]) == pol)
        true, false = set(), False
        unknown = None
        for t, val in q.facts.items():
            t, pl = norm_bool(t, val)
            es = equalities(q, spec, lhs, rhs, t)
            if es is not None:
                if pl:
                    true |= es
                else:
                    false = True
        if same is True and k is True:
            ctx.ok(key, fn.where())
            continue
        if same is True and k is False:
            ctx.bad(key, fn.where(), 'an object of %s does not equal itself' % spec.name)
            continue
        ident = v[0] == 'op' and v[1] == '==' and {v[2], v[3]} == {lhs, rhs}
        if False in nn:
            if ident and pol:
                ctx.ok(key, fn.where())
            elif k is False:
                # two null addresses may also be the same
                ctx.req(not (nn == [False, False] and same is not False), key, fn.where(), 'two null addresses compare unequal')
            elif k is True:
                ctx.req(nn == [False, False], key, fn.where(), 'a null address equals an object')
            else:
                ctx.bad(key, fn.where(), 'a null address is compared: %s' % show(q.val)[:100])
            continue
        if None in nn and not raw:
            # no null test on this path
            if k is None or true or false:
                ctx.bad(key, fn.where(), 'objects of %s are compared without testing the addresses for null' % spec.name)
                continue
        if k is None:
            es = equalities(q, spec, lhs, rhs, v)
            if es is None:
                bad = [t for t in subterms(v) if t and t[0] == 'call' and re.search(r'::operator(!=|<|>|<=|>=)$', '::' + t[1])]
                cmp = v[0] == 'call' and v[1].split('::')[-1] in ('operator==', 'equal', 'memcmp') or v[0] == 'op' or bad
                (ctx.bad if cmp else ctx.undecided)(key, fn.where(), 'the result for %s is %s' % (spec.name, show(q.val)[:140]))
                continue
            if not pol:
                ctx.bad(key, fn.where(), 'the comparison of %s is negated' % spec.name)
            else:
                ctx.req(n <= true | es and es | true <= n, key, fn.where(), 'only elements %s of %d are compared' % (sorted(true | es)[:9], spec.length))
        elif k:
            ctx.req(n <= true, key, fn.where(), 'objects of %s are reported equal after comparing only elements %s' % (spec.name, sorted(true)))
        elif not false:
            if any(t[0] == 'call' or t[0] == 'op' and t[1] in ('==', '<') for t in q.facts if t[2:] and t != ('op', '==', lhs, rhs)) and not \
                    all(plainfact(t, lhs, rhs) for t in q.facts):
                ctx.undecided(key, fn.where(), 'reported unequal because of ' + ', '.join(show(t) for t in q.facts)[:150])
            else:
                ctx.bad(key, fn.where(), 'objects of %s are reported unequal without comparing them' % spec.name)
        else:
            ctx.ok(key, fn.where())


def plainfact(t, lhs, rhs):
    if t[0] == 'op' and t[1] == '!=0':
        return t[2] in (lhs, rhs)
    return t[0] == 'op' and t[1] == '==' and {t[2], t[3]} == {lhs, rhs}


# ---------------------------------------------------------------- memory
def alloc_event(q):
    es = [e for e in q.events if e.kind == 'call' and e.n.split('::')[-1] in ('operator new', 'operator new[]', 'malloc', 'aligned_alloc', 'calloc')
          or e.kind == 'new']
    return es


def alloc_form(e):
    """(family, size, alignment or None)."""
    n = e.n.split('::')[-1]
    if e.kind == 'new':
        raise Undecided('new-expression')
    if n in ('operator new', 'operator new[]'):
        pt = [plain(t) for t in (e.node or {}).get('pt', ())]
        al = None
        for i, t in enumerate(pt):
            if t.endswith('align_val_t'):
                al = const(e.args[i])
                if al is None:
                    raise Undecided('alignment ' + show(e.args[i]))
        return n[9:], const(e.args[0]), al
    if n == 'malloc':
        return 'malloc', const(e.args[0]), None
    if n == 'aligned_alloc':
        return 'malloc', const(e.args[1]), const(e.args[0])
    raise Undecided(n)


def free_events(q):
    return [e for e in q.events if e.kind == 'call' and e.n.split('::')[-1] in ('operator delete', 'operator delete[]', 'free')
            or e.kind in ('delete', 'free')]


def free_form(e):
    """(family, size or None, alignment or None)."""
    n = e.n.split('::')[-1]
    if e.kind == 'call' and n in ('operator delete', 'operator delete[]'):
        pt = [plain(t) for t in (e.node or {}).get('pt', ())]
        size = al = None
        for i, t in enumerate(pt[1:], 1):
            k = const(e.args[i])
            if t.endswith('align_val_t'):
                al = k
            elif t.endswith('nothrow_t'):
                raise Undecided('nothrow delete')
            else:
                size = k
            if k is None:
                raise Undecided('operator delete argument ' + show(e.args[i]))
        return 'new' + ('[]' if n.endswith('[]') else ''), size, al
    if n == 'free' or e.kind == 'free':
        return 'malloc', None, None
    raise Undecided('delete-expression')


DEFAULT_ALIGN = 16


def check_alloc(ctx, p, fn, ps, spec, key, result=None):
    """Returns the form of allocation when it is the same on all paths."""
    forms = set()
    for q in ps or ():
        if q.ctl != 'return':
            ctx.undecided(key, fn.where(), 'ends in ' + q.ctl)
            continue
        try:
            es = alloc_event(q)
            if len(es) != 1:
                ctx.undecided(key, fn.where(), '%d allocations on a path' % len(es))
                continue
            f = alloc_form(es[0])
        except Undecided as x:
            ctx.undecided(key, fn.where(), str(x))
            continue
        fam, size, al = f
        if size is None:
            ctx.undecided(key, es[0].where(), 'size ' + show(es[0].args[0]))
            continue
        forms.add(f)
        ok = ctx.req(size >= spec.size, key + ' size', es[0].where(), '%d byte(s) are allocated for %s of %d' % (size, spec.name, spec.size))
        have = al or DEFAULT_ALIGN
        ctx.req(have >= spec.align and have % spec.align == 0, key + ' alignment', es[0].where(),
                'memory for %s, aligned to %d, is allocated with alignment %d' % (spec.name, spec.align, have))
        v = q.val if result is None else result(q)
        if v is not None:
            got = es[0].res
            ctx.req(got is not None and pointee(v)[0] == got and pointee(v)[1] == 0, key + ' result', es[0].where(),
                    'the allocated address is not what is returned: ' + show(v)[:80])
    return forms.pop() if len(forms) == 1 else None


def check_free(ctx, p, fn, ps, spec, key, ptr, form):
    for q in ps or ():
        if q.ctl == 'loopback':
            continue
        if q.ctl != 'return':
            ctx.bad(key, fn.where(), 'deallocation %ss' % q.ctl)
            continue
        nn = nonnull(q, ptr)
        es = free_events(q)
        if nn is False:
            odd = [e for e in es if e.n.split('::')[-1] not in ('operator delete', 'operator delete[]', 'free')]
            ctx.req(not odd, key, fn.where(), 'a null address is not ignored')
            continue
        if len(es) != 1:
            ctx.bad(key, fn.where(), 'memory of %s is released %d times' % (spec.name, len(es)))
            continue
        e = es[0]
        if e.kind == 'delete':
            ctx.bad(key, e.where(), 'memory of %s is released by a delete-expression, which also destroys an object' % spec.name)
            continue
        try:
            f = free_form(e)
        except Undecided as x:
            ctx.undecided(key, e.where(), str(x))
            continue
        a = e.args[0]
        if pointee(a) != pointee(ptr):
            ctx.bad(key, e.where(), 'another address is released: ' + show(a)[:80])
            continue
        if form is None:
            ctx.undecided(key, e.where(), 'form of allocation unknown')
            continue
        fam, size, al = form
        ctx.req(f[0] == fam and f[2] == al and (f[1] is None or f[1] == size), key, e.where(),
                'memory of %s obtained by %s is released by %s' % (spec.name, form_str(form), form_str(f)))


def form_str(f):
    return 'operator %s%s%s' % (f[0], ' of %s byte(s)' % f[1] if f[1] is not None else '', ' aligned to %s' % f[2] if f[2] else '')
