"""Typestate of the storage of every variant a public operation touches: each path of the constructors, assignments, swap, clear and the
destructor is replayed over the states empty, holding a value of a table, and moved from.  A value may be copied, moved or ended only
through the table it was made with and only while it is there; nothing is made over a value that is still there; at the end every variant's
table is the one of the value it holds, and temporaries hold nothing.  Aliased arguments are replayed separately."""
from ..registry import *
from .. import slots as S
from .. import stored as St
from .. import vtable as V
from ..core import Undecided
from . import c12, c14

VOID = ('addr', ('glob', 'table:void'))
MOVES = ('move',)


def run(ctx):
    p = ctx.load('stored.cpp')
    t = V.table(p)
    r = Rule(ctx, p, t)
    r.contract()
    r.emptiness()
    n = 0
    for f in r.entries():
        n += 1
        for alias in (False, True):
            if alias and r.other(f) is None:
                continue
            key = r.title(f) + (' with itself' if alias else '')
            with ctx.guard(key, f.where()):
                r.check(f, key, alias)
    ctx.counts['operations'] = n
    if n < 8:
        raise Broken('only %d operations of variant found' % n)
    r.finding()
    c12.owned(ctx, p)
    c14.exact(ctx)


def is_variant(t):
    return t.replace('const', '').replace('&', '').strip() == V.VARIANT


def plain(a):
    """Pointer given by a term."""
    while a and a[0] == 'addr' and a[1][0] == 'deref':
        a = a[1][1]
    return a


class Rule:
    def __init__(self, ctx, p, t):
        self.ctx, self.p, self.t = ctx, p, t
        self.ended = False           # some operation ends values it moved from
        self.reended = True          # a moved-from storage may be ended again
        self.left = []

    def entries(self):
        out = []
        for f in sorted(self.p.funcs.values(), key=lambda f: (f.where(), f.n, str(f.ta))):
            if f.body is None:
                continue
            if f.bn == 'rtti::swap':
                out.append(f)
            elif f.cls == V.VARIANT and (f.d.get('acc') in (None, 'public', '', 0) or f.d.get('ctor') or f.d.get('dtor')):
                if f.d.get('ctor') or f.d.get('dtor') or f.bn == V.VARIANT + '::operator=' or f.bn == V.VARIANT + '::clear':
                    out.append(f)
        return out

    def title(self, f):
        return '%s(%s)' % (f.bn.replace('rtti::', '') + ('<%s>' % f.ta[0] if f.ta else ''), ', '.join(x['t'].replace('rtti::', '') for x in f.params))

    def other(self, f):
        """Index of a parameter that is another variant."""
        if f.d.get('ctor'):
            return None
        for i, x in enumerate(f.params):
            if is_variant(x['t']) and x['t'].rstrip().endswith('&'):
                return i
        return None

    # ------------------------------------------------------------ what the tables do to the source of a move
    def contract(self):
        ctx, p = self.ctx, self.p
        specs = St.Specs(ctx, p)
        for t in St.tables(ctx, p):
            f = t.slots.get('move')
            spec = specs.spec.get(St.key(t.bare))
            if f is None or spec is None or t.ref or t.name in ('void', V.VARIANT):
                continue
            a = t.slots.get('access')
            sts = St.store_params(p, f)
            if a is None or len(sts) != 2:
                continue
            inplace = any(St.norm(q.val, St.store_params(p, a)) == St.place(St.store_params(p, a)[0], 'inline') for q in St.paths(ctx, p, a) or () if q.ctl == 'return') and not t.array
            key = 'moved-from %s value' % ('inline' if inplace else 'array' if t.array else 'heap')
            for q in St.paths(ctx, p, f) or ():
                if q.ctl != 'return':
                    continue
                try:
                    effs = S.effects(q, spec)
                except Undecided:
                    continue
                src = St.place(sts[0], 'inline' if inplace else 'heap')
                kills = [x for x in effs if x[0] == 'kill' and St.norm(x[1], sts) == src]
                if inplace:
                    if kills:
                        self.reended = False
                    elif not spec.td:
                        self.left.append((key, f, t))
                    continue
                made = S.alloc_event(q)
                v = St.final(q, sts[0])
                if v != NULL:
                    self.reended = False
                if made:
                    fr = [e for e in S.free_events(q) if e.args and St.norm(e.args[0], sts) == src]
                    ctx.req(fr and (kills or spec.td), key, f.where(), 'move of %s makes a new object and neither ends nor releases the old one' % t.name)
                else:
                    ctx.req(not kills, key, f.where(), 'move of %s ends the object that it handed over' % t.name)

    def finding(self):
        key = 'moved-from inline value'
        f = self.left[0][1] if self.left else None
        if f is not None:
            self.ctx.req(self.ended, key, f.where(), 'moving an inline value leaves the source object undestroyed (%d tables, first: %s)' % (len(self.left), self.left[0][2].name))
        else:
            self.ctx.ok(key, 'tables')

    # ------------------------------------------------------------ emptiness
    def emptiness(self):
        ctx, p, t = self.ctx, self.p, self.t
        for name, neg in (('empty', False), ('operator bool', True)):
            for f in p.funcs.values():
                if f.body is None or f.n != V.VARIANT + '::' + name or f.params:
                    continue
                for T, want in (('void', True), ('int', False), ('rtti::variant', False)):
                    tab = ('addr', ('glob', 'table:' + T))

                    def setup(it, frame, tab=tab):
                        it.write(t.manager(THIS), tab)
                    for q in ctx.explore(f, hooks=V.hooks(p), hook_icall=V.icall_hook(p), setup=setup) or ():
                        key = '%s with a table of %s' % (name, T)
                        if q.ctl != 'return' or truth(q, q.val) is None:
                            ctx.undecided(key, f.where(), 'no answer')
                        else:
                            ctx.req(truth(q, q.val) == (want != neg), key, f.where(), 'a variant with the table of %s answers %s' % (T, truth(q, q.val)))

    # ------------------------------------------------------------ replay
    def is_void(self, q, M):
        if M == VOID:
            return True
        if M and M[0] == 'addr' and M[1][0] == 'glob':
            return False
        for a, b in ((M, VOID), (VOID, M)):
            v = q.facts.get(('op', '==', a, b))
            if v is not None:
                return v
        return None

    def check(self, f, key, alias):
        ctx, p, t = self.ctx, self.p, self.t
        kw = {}
        own = [] if f.d.get('st') or not f.cls else [THIS]
        vs = list(own)
        for i, x in enumerate(f.params):
            if is_variant(x['t']) and x['t'].rstrip().endswith('&'):
                vs.append(('deref', param(f, i)))
        if alias:
            args = [param(f, i) for i in range(len(f.params))]
            o = self.other(f)
            if own:
                args[o] = THIS[1]
                vs = own
            else:
                rest = [i for i, x in enumerate(f.params) if is_variant(x['t'])]
                if len(rest) < 2:
                    return
                for i in rest[1:]:
                    args[i] = args[rest[0]]
                vs = [('deref', param(f, rest[0]))]
            kw['args'] = args
        ps = ctx.explore(f, hooks=V.hooks(p), hook_icall=V.icall_hook(p, nothrow=MOVES), exc=True, log_copies=True, reenter=3,
                         stop={'rtti::variant::internalTypeId', 'rtti::variant::classInfo', 'rtti::type_name'} | DEFER_SET, **kw)
        if ps is None:
            return
        if not ps:
            ctx.undecided(key, f.where(), 'no path')
        for q in ps:
            if any(q.facts.get(('op', '!=0', ('init', t.manager(v)), C0)) is False for v in vs):
                continue                                    # every variant has a table
            if q.ctl == 'terminate':
                bad = [e for e in q.events if e.kind == 'slot' and e.x.get('threw')]
                if bad:
                    ctx.bad(key, bad[-1].where(), 'an exception of %s leaves an operation declared not to throw' % bad[-1].n)
                continue
            if q.ctl not in ('return', 'throw'):
                ctx.undecided(key, f.where(), 'ends in ' + q.ctl)
                continue
            if not alias and len(vs) > 1 and self.same(q, vs):
                continue                                    # the aliased replay covers it
            try:
                self.replay(f, key, q, vs)
            except Undecided as x:
                ctx.undecided(key, f.where(), str(x))

    def same(self, q, vs):
        a = [plain(('addr', v)) for v in vs]
        for i in range(len(a)):
            for j in range(i):
                for x, y in ((vs[i], vs[j]), (vs[j], vs[i])):
                    for u in ({plain(('addr', x)), ('addr', x)}):
                        for w in ({plain(('addr', y)), ('addr', y)}):
                            if q.facts.get(('op', '==', u, w)):
                                return True
        return False

    def replay(self, f, key, q, vs):
        ctx, t, p = self.ctx, self.t, self.p
        bad = []
        state = {}                                      # storage -> (table, value) or None; moved: ('moved', table)
        start = {}
        for v in vs:
            if f.d.get('ctor') and v == THIS:
                state[t.storage(v)] = None
                continue
            M = ('init', t.manager(v))
            start[v] = (M, ('of', v))
            state[t.storage(v)] = start[v]
        seen = set(state)
        made = {}                                       # value -> (how, what)
        lost = set()                                    # values ended

        def place(a):
            if not a or a[0] != 'addr':
                return None
            l = a[1]
            for _ in range(4):
                if l in seen:
                    return l
                if l[0] == 'fld' and l[2] == t.sto or l[0] in ('var', 'tmp', 'obj'):
                    seen.add(l)
                    state.setdefault(l, None)
                    return l
                if l[0] == 'fld' and l[2] in ('ptr', 'buffer') or l[0] == 'fld':
                    l = l[1]
                    continue
                break
            return None

        def say(e, s):
            bad.append((e.where(), s))

        def live(l, M, e, what):
            """The value at a place, if it belongs to the table used on it."""
            s = state.get(l)
            if s is None or s[0] == 'moved':
                if s and what == 'ended' and self.reended and s[1] == M:
                    return s
                say(e, '%s is %s through %s while it holds nothing' % (show(l), what, show(M)))
                return None
            if s[0] != M:
                say(e, '%s is %s through %s while it holds a value of %s' % (show(l), what, show(M), show(s[0])))
                return None
            return s

        def put(l, M, v, e):
            s = state.get(l)
            if s is not None and s[0] != 'moved' and self.is_void(q, s[0]) is not True:
                say(e, 'a value is made over the one %s still holds' % show(l))
            state[l] = (M, v)

        n = 0
        for e in q.events:
            if e.kind == 'slot':
                M, role = e.obj, e.x.get('role')
                void = self.is_void(q, M)
                if void is True:
                    continue
                ls = [place(a) for a in e.args]
                n += 1
                if role in ('copy_construct', 'move_construct'):
                    l = ls[1]
                    if l is None:
                        raise Undecided('destination not recognised')
                    if e.x.get('threw'):
                        continue
                    made[('new', e.i)] = (role, plain(e.args[0]))
                    put(l, M, ('new', e.i), e)
                elif role in ('copy', 'move'):
                    if None in ls:
                        raise Undecided('storage not recognised')
                    if ls[0] == ls[1]:
                        say(e, 'a value is made over itself')
                        continue
                    s = live(ls[0], M, e, 'copied' if role == 'copy' else 'moved')
                    if e.x.get('threw'):
                        continue
                    if s is None:
                        s = (M, ('lost', e.i))
                    if role == 'copy':
                        put(ls[1], M, ('copy', s[1]), e)
                    else:
                        put(ls[1], M, s[1], e)
                        state[ls[0]] = ('moved', M)
                elif role == 'destroy':
                    if ls[0] is None:
                        raise Undecided('storage not recognised')
                    s = live(ls[0], M, e, 'ended')
                    if s and s[0] == 'moved':
                        self.ended = True
                    elif s:
                        lost.add(s[1])
                    state[ls[0]] = None
                elif role in ('access', 'compare', 'info'):
                    if ls[0] is not None:
                        live(ls[0], M, e, 'used')
                continue
            # bytes of a storage written otherwise
            l = None
            if e.kind == 'enter' and e.x.get('callee') is not None and getattr(e.x['callee'], 'cls', None) == t.store:
                l = place(('addr', e.obj)) if e.obj else None
            elif e.kind in ('write', 'copyassign', 'construct') and e.obj:
                l = place(('addr', e.obj)) if self.storage_like(e.obj, state) else None
            elif e.kind == 'swap':
                for a in e.args:
                    x = place(a) if a and a[0] == 'addr' and self.storage_like(a[1], state) else None
                    if x is not None and state.get(x) is not None and state[x][0] != 'moved' and self.is_void(q, state[x][0]) is not True:
                        say(e, 'the bytes of the value in %s are exchanged' % show(x))
                continue
            elif e.kind == 'call' and e.n in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', 'memset', 'std::memset', 'std::copy_n', 'std::copy') and e.args:
                for a in e.args[:2]:
                    if a and a[0] == 'addr' and place(a) is not None:
                        x = place(a)
                        if state.get(x) is not None and state[x][0] != 'moved' and self.is_void(q, state[x][0]) is not True:
                            say(e, 'the bytes of the value in %s are overwritten or copied' % show(x))
                continue
            if l is not None and l in state:
                s = state[l]
                if s is not None and s[0] != 'moved' and self.is_void(q, s[0]) is not True:
                    say(e, 'the bytes of the value %s still holds are overwritten' % show(l))
                    state[l] = None
                elif s is not None and s[0] == 'moved':
                    state[l] = None
        # how it ends
        for l, s in sorted(state.items(), key=repr):
            here = l[0] == 'fld' and l[1] in vs
            holds = s is not None and s[0] != 'moved' and self.is_void(q, s[0]) is not True
            if not here or f.d.get('dtor') and l[1] == THIS or q.ctl == 'throw' and f.d.get('ctor') and l[1] == THIS:
                if holds and (l[0] == 'fld' and l[1][0] in ('var', 'tmp', 'obj') or l[0] in ('var', 'tmp', 'obj') or here):
                    bad.append((f.where(), 'the value in %s is never ended' % show(l)))
                continue
            M = q.mem.get(t.manager(l[1]), ('init', t.manager(l[1])))
            if M[0] == 'obj0':
                bad.append((f.where(), 'the variant is left without a table'))
                continue
            void = self.is_void(q, M)
            if holds:
                if M != s[0]:
                    bad.append((f.where(), '%s ends with the table %s but holds a value of %s' % (show(l[1]), show(M), show(s[0]))))
            elif void is not True:
                bad.append((f.where(), '%s ends with the table %s but holds nothing' % (show(l[1]), show(M))))
        if not bad and q.ctl == 'return':
            bad += self.purpose(f, q, vs, state, start, made, lost)
        if not bad and q.ctl == 'throw':
            for v in vs:
                if v in start and state[t.storage(v)] != start[v] and self.is_void(q, start[v][0]) is not True:
                    bad.append((f.where(), 'an operation that throws changed %s' % show(v)))
        ctx.counts['storage events replayed'] = ctx.counts.get('storage events replayed', 0) + n
        if not bad:
            ctx.ok(key, f.where(), '%d events' % n)
        for w, s in bad[:1]:
            ctx.bad(key, w, s)

    def storage_like(self, l, state):
        for _ in range(4):
            if l in state or l[0] == 'fld' and l[2] == self.t.sto:
                return True
            if l[0] != 'fld':
                return False
            l = l[1]
        return False

    def purpose(self, f, q, vs, state, start, made, lost):
        """What the operation is for."""
        t = self.t
        out = []

        def held(v):
            s = state[t.storage(v)]
            return s[1] if s is not None and s[0] != 'moved' and self.is_void(q, s[0]) is not True else None

        def first(v):
            return start[v][1] if v in start and self.is_void(q, start[v][0]) is not True else None

        def need(c, s):
            if not c:
                out.append((f.where(), s))
        assign = f.bn == V.VARIANT + '::operator='
        if f.d.get('dtor'):
            return out
        if f.bn == V.VARIANT + '::clear' or f.d.get('ctor') and not f.params:
            need(held(THIS) is None, 'the variant is not left empty')
        elif (f.d.get('ctor') or assign) and is_variant(f.params[0]['t']):
            if len(vs) == 1:                            # with itself
                need(held(THIS) in (first(THIS), ('copy', first(THIS))), 'assigned to itself, a variant does not keep its value')
                return out
            o = vs[1]
            if f.params[0]['t'].rstrip().endswith('&&'):
                need(held(THIS) == first(o), 'the variant does not hold the value of the one moved from')
                need(held(o) is None, 'the variant moved from is not empty')
            else:
                need(held(o) == first(o), 'the variant copied from does not keep its value')
                need(held(THIS) == (('copy', first(o)) if first(o) is not None else None), 'the variant does not hold a copy of the other value')
            if assign:
                need(first(THIS) is None or first(THIS) in lost, 'the old value is not ended')
        elif f.d.get('ctor') or assign:
            want = self.given(f)
            if want is None:
                return out
            kept, moved = want
            h = held(THIS)
            need(h in made, 'the variant does not hold a value made from the argument')
            if h in made:
                how, what = made[h]
                need(what in (param(f, 0), ('addr', param(f, 0)[1])), 'the value is made from %s instead of the argument' % show(what))
                need(how == ('move_construct' if moved else 'copy_construct'), 'the value is %s the argument' % ('moved from' if how == 'move_construct' else 'copied from'))
                M = state[t.storage(THIS)][0]
                if M[0] == 'addr' and M[1][0] == 'glob':
                    need(St.key(M[1][1][len('table:'):]) == St.key(kept), 'the table is that of %s instead of %s' % (M[1][1][len('table:'):], kept))
        elif f.bn == 'rtti::swap':
            if len(vs) == 1:
                need(held(vs[0]) == first(vs[0]), 'swapped with itself, a variant does not keep its value')
            else:
                need(held(vs[0]) == first(vs[1]) and held(vs[1]) == first(vs[0]), 'the values are not exchanged')
        return out

    def given(self, f):
        w = self.__dict__.get('_given')
        if w is None:
            w = self._given = {}
            for g in self.p.fn('w::given'):
                if g.body is None or not g.ta:
                    continue
                for q in self.ctx.explore(g, stop={V.VARIANT + '::{ctor}', V.VARIANT + '::operator=', V.VARIANT + '::{dtor}'}) or ():
                    for e in q.events:
                        if e.kind == 'call' and e.n == 'w::expect' and e.node and e.node.get('ta'):
                            ta = e.node['ta']
                            w[St.key(ta[0])] = (ta[1], S.const(e.args[0]) == 1)
        return w.get(St.key(f.ta[0])) if f.ta else None
