"""Models of the standard-library operations the repository uses (or plausibly could use)."""
import re
from .interp import *

CONT = re.compile(r'^std::(?:__cxx11::|__detail::|__debug::)?(vector|forward_list|list|deque|array|unordered_map|map|unordered_set|set|multimap|unordered_multimap|stack|queue)::(.*)$')
m_str = re.compile(r'^std::(__cxx11::)?basic_(o|i|)stringstream::str$')
STR = re.compile(r'^std::(?:__cxx11::)?(basic_string|basic_string_view)::(.*)$')
READS = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'find', 'count', 'contains', 'at', 'operator[]', 'front', 'back',
         'data', 'rbegin', 'rend', 'crbegin', 'crend', 'top', 'max_size', 'capacity', 'bucket_count', 'lower_bound', 'equal_range', 'length'}


def cint(v):
    while v is not None and v[0] == 'op' and v[1] in ('cast', 'conv'):
        v = v[2]
    return int(v[1]) if v is not None and v[0] == 'c' and isinstance(v[1], int) else None


def bits(v):
    return cint(v[1]) if v is not None and v[0] == 'bitset' else None


def strval(t):
    while isinstance(t, tuple) and t and t[0] in ('sv', 'str'):
        t = t[1]
    return t


def keyval(it, v):
    """Key argument (address of key object or value) -> canonical value."""
    if isinstance(v, tuple) and v and v[0] == 'addr':
        v = it.read(v[1])
    return strval(v)


def argval(it, a):
    v = it.ev(a)
    return it.read(v.loc) if isinstance(v, LV) else v


def size_of(V):
    if isinstance(V, tuple) and V and V[0] == 'mut':
        if V[3] in ('emplace_back', 'push_back', 'emplace_front', 'push_front', 'push'):
            return plus1(size_of(V[2]))
        if V[3] in ('pop_back', 'pop_front', 'pop'):
            return ('op', '-', size_of(V[2]), C1)
        if V[3] == 'clear':
            return C0
    if isinstance(V, tuple) and V and V[0] in ('agg', 'obj0') and len(V) > 1 and isinstance(V[1], str) and ARRAY.match(V[1]):
        return ('c', int(ARRAY.match(V[1]).group(1)))
    if isinstance(V, tuple) and V and V[0] == 'default':
        return C0
    if isinstance(V, tuple) and V and V[0] in ('arr',):
        return ('c', V[2] if len(V) > 2 else len(V[1]))
    if isinstance(V, tuple) and V and V[0] == 's':
        return ('c', len(V[1]))
    return ('size', V)


def plus1(t):
    if t[0] == 'c':
        return ('c', t[1] + 1)
    if t[0] == 'op' and t[1] == '-' and t[3] == C1:
        return t[2]
    return ('op', '+', t, C1)


def access(it, cloc, mode, m, args=(), res=None, raw=None):
    V = it.base_value(cloc)
    it.event('cont', m, args, obj=cloc, res=res, mode=mode, value=V, raw=raw)
    return V


def iter_loc(it, x):
    """Location an iterator value points to."""
    if x[0] == 'find':
        return ('mapval', x[3], x[2]) if x[4] == 'map' else ('elem', x[3], ('at', x[2]))
    if x[0] == 'begin':
        return ('elem', x[2], C0)
    if x[0] == 'iter':
        return ('elem', x[2], x[3])
    return ('deref', x)


def construct_class(it, t, loc, args, e, vals=None):
    """Construct class t from already evaluated argument values (make_unique, emplace)."""
    short = t.split('<')[0]
    cands = [f for f in it.p.funcs.values() if f.d.get('ctor') and f.cls == t and len(f.params) == len(args) and not f.d.get('cc') and not f.d.get('mc')]
    if not cands or not it.can_inline(cands[0]):
        it.event('ctor', t + '::{ctor}', args, obj=loc, cls=t, copy=False, move=False, node=e)
        it.write(loc, ('call', t, tuple(args), t))
        return
    f = cands[0]
    av = []
    for q, a in zip(f.params, args):
        if isref(q['t']):
            av.append(a)
        else:
            av.append(it.read(a[1]) if isinstance(a, tuple) and a and a[0] == 'addr' and not isptr(q['t']) else (it.read(a[1]) if isinstance(a, tuple) and a[0] == 'addr' and a[1][0] in ('tmp', 'var') else a))
    it.mem[loc] = ('obj0', t, loc)
    it.call_fn(f, loc, av, None, e)


def deref_arg(it, a):
    return it.read(a[1]) if isinstance(a, tuple) and a and a[0] == 'addr' else a


def lam_call(it, f, args, e, rt='bool'):
    """Call a callable value."""
    if isinstance(f, tuple) and f and f[0] == 'lam':
        fn = it.p.funcs.get(f[1])
        loc = it.tmp(f)
        pv = []
        for q, a in zip(fn.params, args):
            pv.append(a)
        return it.call_fn(fn, loc, pv, None, e)
    return it.icall(dict(e, t=rt), f, args, None)


class _Need(BaseException):
    pass


def pred_key(it, cloc, V, f):
    """Canonical key of a predicate lambda over the elements of a container."""
    if not (isinstance(f, tuple) and f and f[0] == 'lam'):
        return ('pred', f)
    el = ('elem', cloc, ('any',))
    save = (it.mem.copy(), it.facts, list(it.events), it.ntmp, it.nobj, list(it.branches), it.locks)
    p, t = it.pos, list(it.trace)

    def ch(n, what=None):
        raise _Need()
    it.choice = ch
    frames = len(it.frames)
    temps = len(it.temps)
    scopes = it._scopes
    try:
        fn = it.p.funcs[f[1]]
        q = fn.params[0]
        a = ('addr', el) if isref(q['t']) else it.read(el)
        r = lam_call(it, f, [a], {'l': it.fr().line})
    except _Need:
        r = None
    finally:
        del it.choice
    evs = it.events[len(save[2]):]
    it.mem, it.facts, it.events, it.ntmp, it.nobj, it.branches, it.locks = save
    it.pos, it.trace = p, t
    del it.frames[frames:]
    del it.temps[temps:]
    it._scopes = scopes
    if any(e.kind in ('icall', 'pmcall', 'write', 'delete', 'throw', 'new') for e in evs):
        return ('pred', f)
    if isinstance(r, tuple) and r[0] == 'op' and r[1] == '==':
        for a, b in ((r[2], r[3]), (r[3], r[2])):
            if contains(a, el) and not contains(b, el):
                return strip_elem(a, el, b)
    return ('pred', r if r is not None else f)


def algo_loop(it, bn, cloc, V, f, e):
    """Algorithm with a predicate that has effects or decisions: a generic loop over the elements."""
    site = ('a', it.fr().fn.id, e.get('l'))
    st = {'n': 0, 'res': None}
    idx = ('it', V, e.get('l'))
    el = ('elem', cloc, idx)
    it.event('iterate', bn, obj=cloc, node=e)

    def cond():
        st['n'] += 1
        if st['n'] > 1:
            it.event('cont', 'next', (), obj=cloc, mode='r', value=V, raw=None)
        return it.decide(('more', V, ('c', st['n']), ('site',) + site[2:])) if st['n'] > 1 else \
            not it.decide(('op', '==', ('size', V), C0))

    def body():
        for k in [k for k in it.mem if under(k, el)]:
            del it.mem[k]
        fn = it.p.funcs.get(f[1]) if isinstance(f, tuple) and f and f[0] == 'lam' else None
        a = ('addr', el)
        if fn is not None and fn.params and not isref(fn.params[0]['t']):
            a = it.read(el)
        r = lam_call(it, f, [a], e)
        if isinstance(r, LV):
            r = it.read(r.loc)
        if bn == 'std::for_each':
            return
        hit = it.decide(r) if r is not None else False
        if bn in ('std::find_if_not', 'std::all_of'):
            hit = not hit
        if hit:
            st['res'] = True
            raise Break()
    it.loop(site, cond, body, None)
    if bn == 'std::for_each':
        return f
    if bn in ('std::find_if', 'std::find_if_not'):
        return ('iter', V, cloc, idx) if st['res'] else ('end', V, cloc)
    if bn == 'std::any_of':
        return C1 if st['res'] else C0
    return C0 if st['res'] else C1


def length(it, V):
    n = fixed_size(it, V)
    return ('size', V) if n is None else ('c', n)


def fixed_size(it, V):
    """Number of elements of a std::array small enough to be walked one by one."""
    m = ARRAY.match(V[1]) if isinstance(V, tuple) and len(V) > 1 and V[0] in ('agg', 'obj0') and isinstance(V[1], str) else None
    return int(m.group(1)) if m and int(m.group(1)) <= it.o.unroll else None


def fixed_algo(it, bn, cloc, V, n, arg, e):
    x = argval(it, arg)
    by_value = bn in ('std::find', 'std::count')
    fn = it.p.funcs.get(x[1]) if isinstance(x, tuple) and x and x[0] == 'lam' else None
    hits = 0
    for i in range(n):
        el = array_elem(it, cloc, ('c', i))
        if by_value:
            r = it.binop('==', it.read(el), x)
        else:
            r = lam_call(it, x, [it.read(el) if fn is not None and fn.params and not isref(fn.params[0]['t']) else ('addr', el)], e)
            if isinstance(r, LV):
                r = it.read(r.loc)
        if bn == 'std::for_each':
            continue
        hit = it.decide(r)
        if bn in ('std::find', 'std::find_if', 'std::find_if_not') and hit != (bn == 'std::find_if_not'):
            return ('iter', V, cloc, ('c', i))
        if bn == 'std::any_of' and hit:
            return C1
        if bn == 'std::all_of' and not hit or bn == 'std::none_of' and hit:
            return C0
        hits += hit
    if bn == 'std::for_each':
        return x
    if bn in ('std::find', 'std::find_if', 'std::find_if_not'):
        return ('end', V, cloc)
    if bn == 'std::any_of':
        return C0
    return ('c', hits) if bn in ('std::count', 'std::count_if') else C1


def strip_elem(a, el, b):
    # value of the element itself (or of its pointer / first component)
    return strval(b)


def call(it, e, bn, obj, dest):
    """Model of a call to a function without a body in the program. NotImplemented: not modelled."""
    A = e.get('args', [])
    line = e.get('l')
    # --- identity-like
    if bn in STD_MOVE or bn in ('std::addressof', 'std::__invoke', 'std::launder'):
        if bn in ('std::addressof', 'std::launder'):
            v = it.ev(A[0])
            if bn == 'std::launder':
                return it.val(v)
            if not isinstance(v, LV):
                return v
            return ('addr', v.loc) if v.loc[0] != 'deref' else v.loc[1]
        v = it.ev(A[0])
        if bn == 'std::move' or bn == 'std::forward':
            it.event('move' if bn == 'std::move' or e.get('t', '').endswith('&&') else 'fwd', bn, (), obj=v.loc if isinstance(v, LV) else None, t=e.get('t'))
        return v if isinstance(v, LV) else LV(it.tmp(v))
    if bn in ('std::exchange',):
        l = it.ev(A[0])
        v = it.rv(A[1])
        old = it.read(l.loc)
        it.store(l.loc, v, e)
        return old
    if bn in ('std::swap', 'std::iter_swap') and len(A) == 2:
        a, b = it.lvof(A[0]), it.lvof(A[1])
        it.event('swap', bn, (('addr', a), ('addr', b)))
        t = it.tmp()
        it.copy_obj(a, t)
        it.copy_obj(b, a)
        it.copy_obj(t, b)
        return None
    if bn in ('std::min', 'std::max') and len(A) == 2:
        a, b = argval(it, A[0]), argval(it, A[1])
        if a[0] == 'c' and b[0] == 'c':
            r = ('c', (min if bn == 'std::min' else max)(a[1], b[1]))
        else:
            r = ('call', bn, (a, b), 'n')
        return LV(it.tmp(r))
    if bn in ('__assert_fail',):
        raise Abort('infeasible')
    if bn in ('std::terminate', 'abort', 'std::abort', 'exit', '_exit'):
        it.event('terminate', bn, ())
        raise Abort('terminate')
    if bn == 'std::__cxx11::to_string' or bn == 'std::to_string':
        return ('call', 'to_string', (argval(it, A[0]),), 's')
    if bn in ('std::literals::string_literals::operator""s', 'std::literals::string_view_literals::operator""sv', 'std::operator""s', 'std::operator""sv'):
        return argval(it, A[0])
    if bn in ('std::uncaught_exceptions',):
        return ('opq', bn) if it.o.uncaught is None else ('c', it.o.uncaught + it.unwinding)
    if bn in ('std::uncaught_exception',):
        return ('opq', bn) if it.o.uncaught is None else ('c', int(it.o.uncaught + it.unwinding > 0))
    # --- make_unique / make_shared
    if bn in ('std::make_unique', 'std::make_shared'):
        t = nocv(e['ta'][0])
        args = it.args_of(e)
        it.nobj += 1
        loc = ('obj', it.nobj)
        it.types[loc] = t
        it.event('new', t, (), obj=loc, arr=False, smart=True)
        it.event('construct', t, (), obj=loc, node=e, placement=False, arr=False)
        construct_class(it, t, loc, args, e)
        return ('addr', loc)
    # --- begin/end free functions
    m = re.match(r'^std::(c?r?(?:begin|end)|size|empty|data)$', bn)
    if m and len(A) == 1:
        v = it.ev(A[0])
        cloc = v.loc if isinstance(v, LV) else it.tmp(v)
        return cont_call(it, e, m.group(1), cloc, [], dest)
    # --- algorithms
    if bn in ('std::find', 'std::find_if', 'std::find_if_not', 'std::any_of', 'std::none_of', 'std::all_of', 'std::count', 'std::count_if', 'std::for_each'):
        b = argval(it, A[0])
        en = argval(it, A[1])
        if b[0] != 'begin' or en[0] != 'end':
            return NotImplemented
        cloc, V = b[2], b[1]
        n = fixed_size(it, V)
        if n is not None:
            return fixed_algo(it, bn, cloc, V, n, A[2], e)
        x = argval(it, A[2])
        it.event('cont', 'scan', (), obj=cloc, mode='r', value=V, raw=None)
        if bn in ('std::find', 'std::count'):
            key = keyval(it, x)
        elif bn == 'std::for_each':
            key = None
        else:
            key = pred_key(it, cloc, V, x)
            if key[0] == 'pred' and key[1] == x and isinstance(x, tuple) and x[0] == 'lam' or key[0] == 'pred' and contains(key, ('any',)) is False:
                key = None
        if key is None and bn not in ('std::count_if', 'std::count'):
            return algo_loop(it, bn, cloc, V, x, e)
        kind = 'seq'
        if bn in ('std::find', 'std::find_if'):
            return ('find', V, key, cloc, kind)
        if bn == 'std::any_of':
            return ('has', V, key)
        if bn == 'std::none_of':
            return ('not', ('has', V, key))
        if bn in ('std::count', 'std::count_if') and key is not None:
            return ('op', '!=', ('has', V, key), C0)
        return ('call', bn, (V, key), 'bool')
    # --- iterators
    if e.get('oper') and obj is not None and re.match(r'^(std::__detail::|__gnu_cxx::|std::_(?!_cxx11::))', bn):
        x = it.read(obj)
        op = e['oper']
        if op in ('*', '->'):
            loc = iter_loc(it, x)
            it.event('iterderef', op, (x,), obj=loc)
            if x[0] in ('find', 'begin', 'iter'):
                it.event('cont', 'deref', (), obj=x[3] if x[0] == 'find' else x[2], mode='r', value=x[1], raw=None)
            return LV(loc) if op == '*' else ('addr', loc)
        if op in ('++', '--'):
            nx = x
            if x[0] == 'begin':
                nx = ('iter', x[1], x[2], C1)
            elif x[0] == 'iter':
                nx = ('iter', x[1], x[2], it.binop('+' if op == '++' else '-', x[3], C1))
            else:
                nx = ('next', x)
            it.write(obj, nx)
            return LV(obj) if not A else x
        if op in ('+', '-', '+=', '-='):
            n = argval(it, A[0])
            i = C0 if x[0] == 'begin' else x[3] if x[0] == 'iter' else None
            if i is not None and op[0] in '+-' and not (n[0] in ('begin', 'iter', 'end')):
                return ('iter', x[1], x[2], it.binop(op[0], i, n))
            if op == '-' and n[0] == 'begin' and x[0] in ('begin', 'iter'):
                return C0 if x[0] == 'begin' else x[3]
            return ('opq', 'iter' + op, x, n)
        if op == '[]':
            n = argval(it, A[0])
            return LV(('elem', x[2], n)) if x[0] == 'begin' else LV(('deref', ('op', '+', x, n)))
    if e.get('oper') in ('==', '!=', '<', '>', '<=', '>=', '-') and obj is None and len(A) == 2 and (bn.startswith('std::') or bn.startswith('__gnu_cxx::')):
        a, b = argval(it, A[0]), argval(it, A[1])
        a, b = strval(a), strval(b)
        if e['oper'] == '-':
            if b[0] == 'begin':
                return C0 if a[0] == 'begin' else (a[3] if a[0] == 'iter' else ('idxof', a) if a[0] != 'end' else length(it, a[1]))
            return ('op', '-', a, b)
        return it.binop(e['oper'], a, b) if not (a[0] == 's' and b[0] == 's') else (C1 if (a == b) == (e['oper'] == '==') else C0)
    if bn in ('std::next', 'std::prev', 'std::advance', 'std::distance'):
        a = argval(it, A[0])
        if bn == 'std::next' and a[0] in ('begin', 'iter'):
            n = argval(it, A[1]) if len(A) > 1 else C1
            return ('iter', a[1], a[2], it.binop('+', C0 if a[0] == 'begin' else a[3], n))
        if bn == 'std::distance':
            b = argval(it, A[1])
            if a[0] == 'begin':
                return C0 if b[0] == 'begin' else b[3] if b[0] == 'iter' else length(it, a[1]) if b[0] == 'end' else ('idxof', b)
        return ('opq', bn)
    # --- containers
    m = CONT.match(bn)
    if m and obj is not None:
        return cont_call(it, e, m.group(2), obj, A, dest, m.group(1))
    # --- smart pointers
    m = re.match(r'^std::(unique_ptr|shared_ptr|__shared_ptr|__uniq_ptr_impl)::(.*)$', bn)
    if m and obj is not None:
        return uptr_call(it, e, m.group(2), obj, A)
    # --- atomics
    m = re.match(r'^std::(?:atomic|__atomic_base|atomic_bool)::(.*)$', bn)
    if m and obj is not None:
        f = m.group(1)
        args = [argval(it, a) for a in A]
        v = it.base_value(obj)
        if f in ('load', '{conv}'):
            it.event('atomic', 'load', (), obj=obj, res=v, order=args[0] if args else None)
            return v
        if f in ('store', 'operator='):
            it.event('atomic', 'store', (args[0],), obj=obj, order=args[1] if len(args) > 1 else None)
            it.write(obj, args[0])
            return args[0]
        if f in ('exchange',):
            it.event('atomic', 'exchange', (args[0],), obj=obj, res=v)
            it.write(obj, args[0])
            return v
        if f.startswith('compare_exchange'):
            el = it.ev(A[0]).loc if False else None
            exp = it.ev(A[0])
            ev_ = it.read(exp.loc) if isinstance(exp, LV) else exp
            ok = it.decide(('op', '==', v, ev_))
            it.event('atomic', 'cas', (ev_, args[1]), obj=obj, res=C1 if ok else C0)
            if ok:
                it.write(obj, args[1])
            elif isinstance(exp, LV):
                it.write(exp.loc, v)
            return C1 if ok else C0
        if f.startswith('fetch_') or f.startswith('operator'):
            it.event('atomic', f, tuple(args), obj=obj, res=v)
            it.havoc(obj)
            return v
    # --- std::function
    m = re.match(r'^std::function::(.*)$', bn)
    if m and obj is not None:
        f = m.group(1)
        v = it.base_value(obj)
        if f == '{conv}':
            return ('op', '!=', v, NULL) if v[0] != 'lam' else C1
        if f == 'operator()':
            args = [it.rv_or_addr(a) for a in A]
            if v[0] == 'lam':
                fn = it.p.funcs.get(v[1])
                pv = [a if isref(q['t']) else deref_arg(it, a) for q, a in zip(fn.params, args)]
                return lam_call(it, v, pv, e, e.get('t'))
            return it.icall(e, v, [deref_arg2(it, a, pt) for a, pt in zip(args, e.get('pt', []))], dest)
        if f in ('operator=',):
            x = argval(it, A[0])
            it.write(obj, x)
            return LV(obj)
    # --- mutex / locks used directly
    m = re.match(r'^std::(shared_mutex|mutex|recursive_mutex|timed_mutex|shared_timed_mutex)::(.*)$', bn)
    if m and obj is not None:
        f = m.group(2)
        rec = 'recursive' in m.group(1)
        if f == 'lock':
            it.lock(('m', obj), obj, 'x', rec)
        elif f == 'lock_shared':
            it.lock(('m', obj), obj, 's')
        elif f in ('unlock', 'unlock_shared'):
            it.unlock(('m', obj))
        elif f in ('try_lock', 'try_lock_shared'):
            if it.decide(trylock(it, obj)):
                it.lock(('m', obj), obj, 's' if 'shared' in f else 'x', rec)
                return C1
            return C0
        else:
            return ('opq', f)
        return None
    m = re.match(r'^std::(unique_lock|shared_lock)::(.*)$', bn)
    if m and obj is not None:
        f = m.group(2)
        if f == 'unlock':
            it.unlock(obj)
            return None
        if f == 'lock':
            ml = it.lmut.get(obj) if hasattr(it, 'lmut') else None
            if ml:
                it.lock(obj, ml[0], 's' if m.group(1) == 'shared_lock' else 'x', ml[1])
            return None
        if f == 'try_lock':
            ml = it.lmut.get(obj) if hasattr(it, 'lmut') else None
            if ml and it.decide(trylock(it, ml[0])):
                it.lock(obj, ml[0], 's' if m.group(1) == 'shared_lock' else 'x', ml[1])
                return C1
            return C0
        if f in ('owns_lock', '{conv}'):
            return C1 if any(h == obj for _, _, h in it.locks) else C0
    # --- strings
    m = STR.match(bn)
    if m and obj is not None:
        f = m.group(2)
        v = it.base_value(obj)
        if f == '{conv}':
            return ('sv', strval(v), obj)
        if f in ('size', 'length'):
            return size_of(strval(v))
        if f == 'empty':
            return ('empty', strval(v))
        if f in ('operator=', 'assign'):
            x = argval(it, A[0])
            it.event('write', f, (x,), obj=obj)
            it.write(obj, ('str', strval(x)) if m.group(1) == 'basic_string' else x)
            return LV(obj)
        if f in ('append', 'operator+=', 'push_back'):
            args = [strval(argval(it, a)) for a in A]
            it.event('write', f, tuple(args), obj=obj)
            it.write(obj, ('call', '+', (strval(v),) + tuple(args), 's'))
            return LV(obj)
        if f in ('c_str', 'data'):
            return ('sv', strval(v), obj)
        if f in ('substr',):
            args = tuple(strval(argval(it, a)) for a in A)
            return ('call', 'substr', (strval(v),) + args, 's')
        if f in ('operator[]', 'at', 'front', 'back'):
            args = tuple(strval(argval(it, a)) for a in A)
            return LV(it.tmp(('call', 'char', (strval(v), f) + args, 'n')))
        if f in ('begin', 'end', 'cbegin', 'cend'):
            return ('opq', f, strval(v))
        if f in ('clear', 'reserve', 'resize', 'remove_prefix', 'remove_suffix', 'erase', 'insert', 'pop_back'):
            args = tuple(strval(argval(it, a)) for a in A)
            if f != 'reserve':
                it.event('write', f, args, obj=obj)
                it.write(obj, ('call', f, (strval(v),) + args, 's'))
            return None
        args = tuple(strval(argval(it, a)) for a in A)
        it.event('call', bn, args, obj=obj, node=e)
        return ('call', f, (strval(v),) + args, e.get('rt'))
    if bn == 'std::operator+' or (e.get('oper') == '+' and bn.startswith('std::')):
        args = tuple(strval(argval(it, a)) for a in A)
        return ('call', '+', args, 's')
    if bn in ('std::operator<<', 'std::basic_ostream::operator<<') or (e.get('oper') == '<<' and bn.startswith('std::') and 'ostream' in str(e.get('rt'))):
        s = it.lvof(e['obj']) if obj is None and e.get('obj') is not None else (obj if obj is not None else it.lvof(A[0]))
        args = [strval(argval(it, a)) for a in (A if obj is not None else A[1:])]
        it.event('output', '<<', tuple(args), obj=s)
        t = ('fld', s, '$text')
        it.write(t, ('call', '+', ((it.mem[t] if t in it.mem else ('s', '')),) + tuple(args), 's'))
        return LV(s)
    if m_str.match(bn) and obj is not None and not A:
        t = ('fld', obj, '$text')
        return ('str', it.mem[t] if t in it.mem else ('s', ''))
    # --- bitset
    m = re.match(r'^std::bitset(?:<\d+>)?::(.*)$', bn)
    if m and obj is not None:
        f = m.group(1)
        v = it.base_value(obj)
        args = [argval(it, a) for a in A]
        if f.startswith('reference::'):
            # a reference to one bit, made by the operator[] of a set that is not const
            if v and v[0] == 'bitref':
                n, a0 = bits(it.base_value(v[1])), cint(v[2])
                t = ('c', n >> a0 & 1) if n is not None and a0 is not None else ('test', it.base_value(v[1]), v[2])
                if f[11:] == '{conv}':
                    return t
                if f[11:] == 'operator~':
                    return it.binop('==', t, C0)
                if f[11:] in ('operator=', 'flip'):
                    w = it.binop('==', t, C0) if f[11:] == 'flip' else args[0]
                    if w[0] == 'bitref':
                        w = ('test', it.base_value(w[1]), w[2])
                    on = cint(w)
                    if n is not None and a0 is not None and on is not None:
                        it.write(v[1], ('bitset', ('c', n | 1 << a0 if on else n & ~(1 << a0))))
                    else:
                        it.write(v[1], ('bset', it.base_value(v[1]), v[2], w))
                    return LV(obj)
            return ('call', f, (v,) + tuple(args), e.get('rt'))
        if f == 'operator[]' and 'reference' in str(e.get('rt')):
            return ('bitref', obj, args[0])
        n, a0 = bits(v), cint(args[0]) if args else None
        if f in ('test', 'operator[]'):
            return ('c', n >> a0 & 1) if n is not None and a0 is not None else ('test', v) + tuple(args[:1])
        if f in ('set', 'reset', 'flip') and args:
            on = cint(args[1]) if len(args) > 1 else 1
            if n is not None and a0 is not None and on is not None:
                b = 1 << a0
                r = n ^ b if f == 'flip' else n | b if f == 'set' and on else n & ~b
                it.write(obj, ('bitset', ('c', r)))
            elif f == 'flip':
                it.write(obj, ('bset', v, args[0], ('not', ('test', v, args[0]))))
            else:
                it.write(obj, ('bset', v, args[0], C0 if f == 'reset' else args[1] if len(args) > 1 else C1))
            return LV(obj)
        if f in ('set', 'reset', 'flip'):
            it.write(obj, ('bitset', C0) if f == 'reset' else ('call', f, (v,), 'n'))
            return LV(obj)
        if f in ('operator==', 'operator!='):
            w = bits(args[0])
            if n is not None and w is not None:
                return ('c', int((n == w) == (f == 'operator==')))
            return ('op', f[8:], v, args[0])
        if f in ('operator&=', 'operator|=', 'operator^=', 'operator<<=', 'operator>>='):
            w = bits(args[0]) if f[8:9] in '&|^' else a0
            r = it.binop(f[8:-1], ('c', n), ('c', w)) if n is not None and w is not None else None
            it.write(obj, ('bitset', r) if r is not None else ('call', f, (v, args[0]), 'n'))
            return LV(obj)
        if f in ('operator<<', 'operator>>') and n is not None and a0 is not None:
            return ('bitset', it.binop(f[8:], ('c', n), ('c', a0)))
        if n is not None and f in ('any', 'none', 'count'):
            return ('c', int(n != 0) if f == 'any' else int(n == 0) if f == 'none' else bin(n).count('1'))
        if n is not None and f == 'operator~':
            w = re.search(r'bitset<(\d+)', str(e.get('rt')) + str(e.get('pt')))
            if w:
                return ('bitset', ('c', n ^ ((1 << int(w.group(1))) - 1)))
        if f in ('to_ulong', 'to_ullong'):
            return v[1] if v[0] == 'bitset' else ('call', f, (v,), 'n')
        return ('call', f, (v,) + tuple(args), e.get('rt'))
    if bn in ('std::operator&', 'std::operator|', 'std::operator^') and obj is None and len(A) == 2 and 'bitset' in str(e.get('rt')):
        a, b = argval(it, A[0]), argval(it, A[1])
        if bits(a) is not None and bits(b) is not None:
            return ('bitset', it.binop(bn[13:], ('c', bits(a)), ('c', bits(b))))
    # --- pair / tuple access
    if bn == 'std::get':
        v = it.ev(A[0])
        i = e['ta'][0] if e.get('ta') else '?'
        loc = v.loc if isinstance(v, LV) else it.tmp(v)
        f = {'0': 'first', '1': 'second', '0UL': 'first', '1UL': 'second', '0ul': 'first', '1ul': 'second'}.get(i) if 'pair' in (e['pt'][0] if e.get('pt') else '') else 'get' + i
        return LV(('fld', loc, f or 'get' + i))
    if bn in ('std::make_pair', 'std::make_tuple', 'std::forward_as_tuple', 'std::tie'):
        args = tuple(argval(it, a) for a in A)
        if bn == 'std::make_pair':
            return ('pair',) + args
        return ('tuple',) + args
    if bn in ('std::type_info::operator==', 'std::type_info::operator!='):
        return ('op', bn[-2:], ('opq', 'typeid', obj), argval(it, A[0]))
    if bn in ('std::lock', 'std::try_lock'):
        return NotImplemented
    return NotImplemented


def trylock(it, ml):
    it.ntmp += 1
    return ('op', '!=0', ('call', 'try_lock', (ml, it.ntmp), 'bool'), C0)


def deref_arg2(it, a, pt):
    if not isref(pt) and isinstance(a, tuple) and a and a[0] == 'addr' and not isptr(pt):
        return it.read(a[1])
    return a


def uptr_call(it, e, f, obj, A):
    v = it.read(obj)
    if f in ('get', '{conv}'):
        it.event('uptr_read', f, (v,), obj=obj)
    if f == 'get':
        return v
    if f == 'operator->':
        it.event('uptr_use', '->', (v,), obj=obj)
        return v
    if f == 'operator*':
        it.event('uptr_use', '*', (v,), obj=obj)
        return LV(it.deref(v))
    if f == '{conv}':
        return ('op', '!=', v, NULL) if it.eq_known(v, NULL) is None else (C0 if it.eq_known(v, NULL) else C1)
    if f == 'release':
        it.write(obj, NULL)
        it.event('uptr_release', 'release', (v,), obj=obj)
        return v
    if f == 'reset':
        n = it.rv(A[0]) if A else NULL
        if v != NULL:
            it.event('uptr_dtor', 'reset', (v,), obj=obj)
        it.write(obj, n)
        return None
    if f == 'operator=':
        a = it.ev(A[0])
        if isinstance(a, LV):
            n = it.read(a.loc)
            it.write(a.loc, NULL)
        else:
            n = a
        if v != NULL:
            it.event('uptr_dtor', 'assign', (v,), obj=obj)
        it.event('write', '=', (n,), obj=obj)
        it.write(obj, n)
        return LV(obj)
    if f == 'swap':
        a = it.lvof(A[0])
        n = it.read(a)
        it.event('swap', 'swap', (('addr', obj), ('addr', a)), obj=obj)
        it.write(a, v)
        it.write(obj, n)
        return None
    return NotImplemented


def cont_call(it, e, f, cloc, A, dest, kind=None):
    kind = kind or ''
    if e.get('cls'):
        it.ctypes.setdefault(cloc, e['cls'])
    V0 = it.base_value(cloc)
    ismap = kind in ('unordered_map', 'map', 'unordered_set', 'set', 'multimap', 'unordered_multimap')
    if not kind:
        t = (e.get('pt') or [''])[0]
        ismap = 'map<' in t or 'set<' in t
    if kind == 'stack':
        return stack_call(it, e, f, cloc, A)
    if kind == 'array' and f in ('operator[]', 'at'):
        i = argval(it, A[0])
        it.event('index', '[]', (i,), obj=cloc, line=e.get('l'))
        it.event('cont', f, (i,), obj=cloc, mode='r', value=V0, raw=None, checked=(f == 'at'))
        if i[0] == 'c' and ('idx', ('fld', cloc, '_M_elems'), i) in it.mem or ('fld', cloc, '_M_elems') in it.mem:
            return LV(('idx', ('fld', cloc, '_M_elems'), i))
        r = array_default(it, cloc, i)
        if r is not None:
            return LV(r)
        return LV(('elem', cloc, i))
    if f in ('size', 'length'):
        access(it, cloc, 'r', f)
        return size_of(V0)
    if f == 'empty':
        access(it, cloc, 'r', f)
        s = size_of(V0)
        return ('empty', V0) if s == ('size', V0) else it.binop('==', s, C0)
    if f in ('begin', 'cbegin'):
        access(it, cloc, 'r', f)
        return ('begin', V0, cloc)
    if f in ('end', 'cend'):
        access(it, cloc, 'r', f)
        return ('end', V0, cloc)
    if f in ('rbegin', 'crbegin', 'rend', 'crend', 'data', 'before_begin', 'cbefore_begin'):
        access(it, cloc, 'r', f)
        return ('opq', f, V0, cloc)
    if f in ('find', 'count', 'contains'):
        raw = argval(it, A[0])
        k = strval(raw)
        access(it, cloc, 'r', f, (k,), raw=raw)
        if f == 'find':
            return ('find', V0, k, cloc, 'map')
        if f == 'count':
            return ('has', V0, k)
        return ('has', V0, k)
    if f in ('at', 'operator[]') and ismap:
        raw = argval(it, A[0])
        k = strval(raw)
        access(it, cloc, 'r' if f == 'at' else 'w', f, (k,), raw=raw)
        if f == 'at':
            if not it.decide(('has', V0, k)):
                raise Throw('std::out_of_range')
        else:
            it.write(cloc, ('mut', it.fresh('m')[1], V0, 'operator[]'))
        return LV(('fld', ('mapval', cloc, k), 'second'))
    if f in ('at', 'operator[]'):
        i = argval(it, A[0])
        it.event('cont', f, (i,), obj=cloc, mode='r', value=V0, raw=None, checked=(f == 'at'), index=i, line_=e.get('l'))
        if f == 'at' and not position_of_name(i, cloc) and not it.decide(('op', '<', i, size_of(V0))):
            raise Throw('std::out_of_range')
        return LV(('elem', cloc, i))
    if f in ('front', 'back'):
        i = C0 if f == 'front' else it.binop('-', size_of(V0), C1)
        it.event('cont', f, (i,), obj=cloc, mode='r', value=V0, raw=None, checked=False, index=i)
        return LV(('elem', cloc, i))
    if f in ('emplace_back', 'push_back', 'emplace_front', 'push_front'):
        idx = size_of(V0) if f.endswith('back') else C0
        el = ('elem', cloc, idx)
        return insert_elem(it, e, f, cloc, V0, el, A)
    if f in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'emplace_hint') and ismap:
        keyloc = None
        if f == 'insert' and len(A) == 1:
            a = argval(it, A[0])
            if a[0] == 'pair':
                raw, val = a[1], a[2]
            elif a[0] == 'rec':
                d = {p[0]: x for p, x in a[2]}
                raw, val = d.get('first', ('fv', a, 'first')), d.get('second', ('fv', a, 'second'))
            else:
                raw, val = ('fv', a, 'first'), ('fv', a, 'second')
        else:
            vs, locs = [], []
            for a in A:
                v = it.ev(a)
                locs.append((v.loc, a.get('t', '')) if isinstance(v, LV) else None)
                vs.append(it.read(v.loc) if isinstance(v, LV) else v)
            if f == 'emplace_hint':
                vs, locs = vs[1:], locs[1:]
            raw, val = (vs + [None, None])[:2]
            keyloc = locs[0] if locs else None
        k = strval(raw)
        it.event('cont', f, (k, val), obj=cloc, mode='w', value=V0, raw=raw, val=val, keyloc=keyloc)
        ins = ('not', ('has', V0, k))
        nv = ('mut', it.fresh('m')[1], V0, f)
        known = it.lookup(('has', V0, k))
        if f == 'insert_or_assign':
            dec = None
        else:
            dec = it.decide(('has', V0, k))
            if dec:
                return ('pair', ('find', V0, k, cloc, 'map'), C0)
        it.write(cloc, nv)
        it.facts = dict(it.facts)
        it.facts[('has', nv, k)] = True
        if val is not None:
            it.mem[('fld', ('mapval', cloc, k), 'second')] = val
        it.mem[('fld', ('mapval', cloc, k), 'first')] = raw
        return ('pair', ('find', nv, k, cloc, 'map'), C1)
    # any other member: a modification unless const
    args = [argval(it, a) for a in A]
    mode = 'r' if e.get('cm') or f in READS else 'w'
    it.event('cont', f, tuple(strval(a) for a in args), obj=cloc, mode=mode, value=V0, raw=args[0] if args else None)
    if mode == 'w':
        it.write(cloc, ('mut', it.fresh('m')[1], V0, f))
    if f == 'operator=':
        return LV(cloc)
    return ('opq', f, V0, it.fresh('q'))


def array_default(it, cloc, i):
    """Element of a const std::array member initialised in its class (read through the default initialiser)."""
    if cloc[0] != 'fld' or i[0] != 'c':
        return None
    f = cloc[2]
    for r in it.p.records.values():
        for fd in r['fields']:
            if fd['n'] == f and fd.get('init') and 'std::array' in fd['t'] and (fd.get('const') or fd['t'].startswith('const ')):
                il = fd['init']
                while il and il.get('k') in ('full', 'mat', 'cast', 'bind'):
                    il = il['e']
                while il and il.get('k') == 'il' and len(il['e']) == 1 and il['e'][0].get('k') in ('il',):
                    il = il['e'][0]
                if il and il.get('k') == 'il' and 0 <= i[1] < len(il['e']):
                    x = il['e'][i[1]]
                    # evaluate in the context of the owner
                    from .interp import Frame
                    fr = Frame(it.fr().fn, cloc[1], it.fr().n, None)
                    fr.line = it.fr().line
                    it.frames.append(fr)
                    try:
                        v = it.rv(x)
                    finally:
                        it.frames.pop()
                    loc = ('tmp', 'arr:%s:%d' % (f, i[1]), cloc[1])
                    it.mem[loc] = v
                    return loc
    return None



def position_of_name(i, cloc):
    """Is i a position kept in an associative member of the object whose list is cloc?  Rule C05 proves that such positions are below the size."""
    return i[0] == 'init' and i[1][0] == 'fld' and i[1][2] == 'second' and i[1][1][0] == 'mapval' and i[1][1][1][0] == 'fld' and cloc[0] == 'fld' and i[1][1][1][1] == cloc[1]


def insert_elem(it, e, f, cloc, V0, el, A):
    t = e.get('clst', '')
    et = elem_type(e.get('cls', ''))
    vals = []
    if f.startswith('push') and A:
        v = it.ev(A[0])
        src = v.loc if isinstance(v, LV) else it.tmp(v)
        val = it.read(src)
        it.event('cont', f, (val,), obj=cloc, mode='w', value=V0, raw=('addr', src), val=val, elem=el)
        newV = ('mut', it.fresh('m')[1], V0, f)
        it.write(cloc, newV)
        it.copy_obj(src, el)
        if et.startswith('std::unique_ptr') and e['pt'][0].endswith('&&'):
            it.write(src, NULL)
        return None
    args = [it.rv_or_addr(a) for a in A]
    vals = [deref_arg(it, a) if isinstance(a, tuple) and a and a[0] == 'addr' and not (et.startswith('std::unique_ptr') and a[1][0] == 'obj') else a for a in args]
    ev = it.event('cont', f, tuple(vals), obj=cloc, mode='w', value=V0, raw=args[0] if args else None, val=vals[0] if vals else None, elem=el, args_=tuple(args))
    if it.o.exc and it.choice(2, ('throws', f)) == 1:
        ev.x['threw'] = True
        raise Throw('*')
    newV = ('mut', it.fresh('m')[1], V0, f)
    it.write(cloc, newV)
    if et.startswith('std::unique_ptr'):
        v = vals[0] if vals else NULL
        if A and args[0] and args[0][0] == 'addr' and args[0][1][0] in ('tmp', 'var') and nocv((e.get('ta') or [''])[0]).startswith('std::unique_ptr'):
            it.write(args[0][1], NULL)
        it.write(el, v)
    elif et in it.p.records:
        it.write(el, ('obj0', et, el))
        if len(args) == 1 and args[0][0] == 'addr' and nocv((e.get('ta') or [''])[0]) == et:
            it.copy_obj(args[0][1], el)
        else:
            construct_class(it, et, el, args, e)
    elif et.startswith('std::pair') and len(vals) == 2:
        it.write(el, ('pair', vals[0], vals[1]))
    elif len(vals) == 1:
        it.write(el, vals[0])
    else:
        it.write(el, ('tuple',) + tuple(vals))
    return LV(el)


def elem_type(cls):
    i = cls.find('<')
    if i < 0:
        return ''
    depth, j = 0, i + 1
    for j in range(i + 1, len(cls)):
        c = cls[j]
        if c == '<':
            depth += 1
        elif c == '>':
            if depth == 0:
                break
            depth -= 1
        elif c == ',' and depth == 0:
            break
    return cls[i + 1:j].strip()


def stack_call(it, e, f, cloc, A):
    V = it.base_value(cloc)
    if f in ('push', 'emplace'):
        v = argval(it, A[0])
        it.event('cont', 'push', (v,), obj=cloc, mode='w', value=V, raw=None)
        it.write(cloc, ('push', V, v))
        return None
    if f == 'pop':
        it.event('cont', 'pop', (), obj=cloc, mode='w', value=V, raw=None)
        it.write(cloc, V[1] if V[0] == 'push' else ('pop', V))
        return None
    if f == 'top':
        it.event('cont', 'top', (), obj=cloc, mode='r', value=V, raw=None)
        loc = ('elem', cloc, ('top', V))
        if V[0] == 'push':
            it.mem[loc] = V[2]
        return LV(loc)
    if f == 'empty':
        it.event('cont', 'empty', (), obj=cloc, mode='r', value=V, raw=None)
        return C0 if V[0] == 'push' else C1 if V[0] == 'default' else ('empty', V)
    if f == 'size':
        it.event('cont', 'size', (), obj=cloc, mode='r', value=V, raw=None)
        return ('size', V)
    return NotImplemented


def ctor(it, e, t, loc):
    """Model of a constructor without a body in the program."""
    A = e.get('args', [])
    st = e.get('clst', '')
    if t.startswith(LOCKS_X + LOCKS_S):
        if not A:
            it.write(loc, ('lockobj',))
            return True
        if e.get('mc'):
            src = it.lvof(A[0])
            it.locks = tuple((m, k, loc if h == src else h) for m, k, h in it.locks)
            it.write(loc, ('lockobj',))
            return True
        kind = 's' if t.startswith(LOCKS_S) else 'x'
        ms = []
        defer = adopt = attempt = False
        for i, a in enumerate(A):
            pt = e['pt'][i] if i < len(e['pt']) else ''
            if 'defer_lock_t' in pt:
                defer = True
                it.ev(a)
                continue
            if 'adopt_lock_t' in pt or 'try_to_lock_t' in pt:
                adopt |= 'adopt' in pt
                attempt |= 'try_to' in pt
                it.ev(a)
                continue
            ml = it.lvof(a)
            mt = pt
            ms.append((ml, 'recursive' in mt))
        it.write(loc, ('lockobj',))
        if not hasattr(it, 'lmut'):
            it.lmut = {}
        for ml, rec in ms:
            it.lmut[loc] = (ml, rec)
            if adopt:
                it.locks = tuple((m, k, loc if m == ml and h == ('m', ml) else h) for m, k, h in it.locks)
            elif attempt:
                if it.decide(trylock(it, ml)):
                    it.lock(loc, ml, kind, rec)
            elif not defer:
                it.lock(loc, ml, kind, rec)
        return True
    if st in ('std::basic_string_view', 'std::__cxx11::basic_string', 'std::basic_string'):
        if not A or (len(A) == 1 and st != 'std::basic_string_view' and re.match(r'(const )?(std::)?allocator', e['pt'][0] if e['pt'] else '')):
            it.write(loc, ('s', ''))
            return True
        v = it.ev(A[0])
        src = v.loc if isinstance(v, LV) else None
        v = it.read(src) if src is not None else v
        if v == NULL:
            it.event('nullstring', st, ())
        rest = [argval(it, a) for a in A[1:] if not (isinstance(a, dict) and a.get('k') == 'darg')]
        rest = [r for r in rest if not (isinstance(r, tuple) and r and r[0] == 'call' and 'allocator' in str(r[1]))]
        rest = [r for r in rest if not (isinstance(r, tuple) and r and r[0] in ('default',))]
        if rest and not (len(rest) == 1 and rest[0][0] in ('zero', 'opq', 'agg')):
            v = ('call', 'substr', (strval(v),) + tuple(rest), 's')
        if st == 'std::basic_string_view':
            it.write(loc, v)
        else:
            it.event('strcopy', st, (strval(v),), obj=loc, mv=bool(e.get('mc')))
            it.write(loc, strval(v) if e.get('cc') or e.get('mc') else ('str', strval(v)))
        return True
    if st in ('std::unique_ptr', 'std::shared_ptr'):
        if not A:
            it.write(loc, NULL)
            return True
        v = it.ev(A[0])
        if isinstance(v, LV):
            pt = e['pt'][0]
            val = it.read(v.loc)
            if 'unique_ptr' in pt and pt.endswith('&&'):
                it.write(v.loc, NULL)
            it.write(loc, val)
        else:
            it.write(loc, v)
        for a in A[1:]:
            it.ev(a)
        return True
    if st == 'std::atomic':
        it.write(loc, it.rv(A[0]) if A else UNINIT)
        return True
    if st == 'std::function':
        if not A:
            it.write(loc, NULL)
            return True
        v = it.ev(A[0])
        it.write(loc, it.read(v.loc) if isinstance(v, LV) else v)
        return True
    if st == 'std::bitset':
        it.write(loc, ('bitset', it.rv(A[0])) if A else ('bitset', C0))
        return True
    if st == 'std::pair' and len(A) == 2:
        a, b = argval(it, A[0]), argval(it, A[1])
        it.write(loc, ('pair', a, b))
        return True
    if e.get('cc') or e.get('mc'):
        if st.startswith('std::') or st.startswith('__gnu_cxx::'):
            a = it.ev(A[0])
            src = a.loc if isinstance(a, LV) else it.tmp(a)
            it.event('ctor', e['bn'], (('addr', src),), obj=loc, cls=t, copy=bool(e.get('cc')), move=bool(e.get('mc')), node=e, std=True)
            it.copy_obj(src, loc)
            return True
        return NotImplemented
    if (st.startswith('std::') or st.startswith('__gnu_cxx::')) and not A:
        it.write(loc, ('default', t))
        it.event('ctor', e['bn'], (), obj=loc, cls=t, copy=False, move=False, node=e, std=True)
        return True
    if st.startswith('std::__detail::_Node') or st.startswith('__gnu_cxx::__normal_iterator'):
        v = argval(it, A[0])
        it.write(loc, v)
        return True
    return NotImplemented
