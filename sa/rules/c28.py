"""Compile witnesses over the type-level library.  The operations on type lists are instantiated on all lists of up to four elements over three
(incomplete) types, the traits on all types built from five leaf types by up to three constructors (const, volatile, pointer, array, reference),
function_traits on every combination of class, qualifiers, result and parameters; static assertions compare each result with an independent
definition of it (a recursive definition over the syntax of the type or the list, in this rule).  Uses without a result must be rejected."""
import itertools
from ..core import VERIF
from ..prog import Snippets, Broken

HEAD = '/witness/meta.h'


def ls(xs):
    return 'L<%s>' % ', '.join(xs)


def lists(out):
    def a(op, text):
        out.append(('typelist_' + op, text))

    def eq(op, expr, xs):
        a(op, 'same<%s, %s>' % (expr, ls(xs)))

    def val(op, expr, v):
        a(op, '%s == %s' % (expr, v))
    alpha = ('A', 'B', 'C')
    upto = lambda n: [x for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]
    for x in upto(4):
        l = ls(x)
        a('is', 'mpl::is_typelist_v<%s>' % l)
        val('size', 'mpl::typelist_size_v<%s>' % l, len(x))
        val('isempty', 'mpl::typelist_isempty_v<%s>' % l, str(not x).lower())
        if x:
            a('first', 'same<typename mpl::typelist_first<%s>::type, %s>' % (l, x[0]))
            a('last', 'same<typename mpl::typelist_last<%s>::type, %s>' % (l, x[-1]))
            eq('popfront', 'typename mpl::typelist_popfront<%s>::type' % l, x[1:])
            eq('popback', 'typename mpl::typelist_popback<%s>::type' % l, x[:-1])
        for i in range(len(x)):
            a('get', 'same<mpl::typelist_get_t<%s, %d>, %s>' % (l, i, x[i]))
        for v in alpha:
            val('indexof', 'mpl::typelist_indexof_v<%s, %s>' % (l, v), x.index(v) if v in x else -1)
            val('exists', 'mpl::typelist_exists_v<%s, %s>' % (l, v), str(v in x).lower())
            y = list(x)
            if v in y:
                y.remove(v)
            eq('remove', 'mpl::typelist_remove_t<%s, %s>' % (l, v), y)
            eq('removeall', 'mpl::typelist_removeall_t<%s, %s>' % (l, v), [z for z in x if z != v])
            eq('pushfront', 'typename mpl::typelist_pushfront<%s, %s>::type' % (l, v), (v,) + x)
            eq('pushback', 'typename mpl::typelist_pushback<%s, %s>::type' % (l, v), x + (v,))
        eq('pushfront', 'typename mpl::typelist_pushfront<%s, A, B>::type' % l, ('A', 'B') + x)
        eq('pushback', 'typename mpl::typelist_pushback<%s, A, B>::type' % l, x + ('A', 'B'))
        eq('pushfront', 'typename mpl::typelist_pushfront<%s>::type' % l, x)
        eq('pushback', 'typename mpl::typelist_pushback<%s>::type' % l, x)
        # every type once
        d = 'mpl::typelist_remove_duplicates_t<%s>' % l
        a('remove_duplicates', 'mpl::typelist_size_v<%s> == %d' % (d, len(set(x))) + ''.join(' && mpl::typelist_exists_v<%s, %s>' % (d, v) for v in sorted(set(x))))
        a('tuple', 'same<typename mpl::typelist_tuple<%s>::type, std::tuple<%s>>' % (l, ', '.join(x)))
        eq('map', 'mpl::typelist_map_t<%s, std::add_pointer>' % l, [v + '*' for v in x])
        eq('filter', 'typename mpl::typelist_filter<%s, IsA>::type' % l, [v for v in x if v == 'A'])
        eq('filter', 'typename mpl::typelist_filter<%s, Never>::type' % l, [])
        f = 'void'
        for v in x:
            f = 'L<%s, %s>' % (f, v)
        a('foldl', 'same<typename mpl::typelist_foldl<%s, Left, void>::type, %s>' % (l, f))
        f = 'void'
        for v in reversed(x):
            f = 'L<%s, %s>' % (v, f)
        a('foldr', 'same<typename mpl::typelist_foldr<%s, Left, void>::type, %s>' % (l, f))
        a('index_sequence', 'same<mpl::index_sequence_for_t<%s>, mpl::index_sequence<%s>>' % (l, ', '.join(map(str, range(len(x))))))
        if len(x) != 1:
            a('index_sequence', 'same<mpl::index_sequence_for_t<%s>, mpl::index_sequence<%s>>' % (', '.join(x), ', '.join(map(str, range(len(x))))))
    for n in range(12):
        a('index_sequence', 'same<typename mpl::make_index_sequence<%d>::type, mpl::index_sequence<%s>>' % (n, ', '.join(map(str, range(n)))))
        a('index_sequence', 'mpl::index_sequence<%s>::size::value == %d' % (', '.join(map(str, range(n))), n))
    for x in upto(2):
        for y in upto(2):
            eq('concat', 'typename mpl::typelist_concat<%s, %s>::type' % (ls(x), ls(y)), x + y)
    for x in upto(3):
        for y in upto(3):
            val('unorderedequal', 'mpl::typelist_unorderedequal_v<%s, %s>' % (ls(x), ls(y)), str(sorted(x) == sorted(y)).lower())
    for t in ('int', 'void', 'std::tuple<A>', 'A', 'L<A>*', 'L<A>&'):
        a('is', '!mpl::is_typelist_v<%s>' % t)
    a('tuple', 'same<typename mpl::typelist_tuple<L<A, L<B, C>, L<>>>::type, std::tuple<A, std::tuple<B, C>, std::tuple<>>>')


# --- types: ('b', name) ('c', t) ('v', t) ('p', t) ('a', n, t) ('l', t) ('r', t) ---------------------------------------------------------

LEAVES = ('int', 'K', 'U', 'E', 'A')
SPELL = {'c': 'std::add_const_t<%s>', 'v': 'std::add_volatile_t<%s>', 'p': 'std::add_pointer_t<%s>', 'l': 'std::add_lvalue_reference_t<%s>', 'r': 'std::add_rvalue_reference_t<%s>'}


def spell(t):
    if t[0] == 'b':
        return t[1]
    if t[0] == 'a':
        return ('Arr<%s>' if t[1] == 3 else 'Arr2<%s>') % spell(t[2])
    return SPELL[t[0]] % spell(t[1])


def ref(t):
    return t[0] in 'lr'


def types(depth):
    out = [('b', x) for x in LEAVES]
    last = out
    for _ in range(depth):
        new = []
        for t in last:
            if ref(t):
                continue
            for k in 'cv':
                if t[0] != k and not (t[0] == 'c' and k == 'v') and not (t[0] == 'v' and k == 'c' and t[1][0] == 'c'):
                    new.append((k, t))
            new += [('p', t), ('l', t), ('r', t)]
            if t != ('b', 'A') and t not in (('c', ('b', 'A')), ('v', ('b', 'A'))):
                new.append(('a', 3, t))
        out = out + new
        last = new
    return out


def top(t):
    """Without const and volatile on top (those of an array are those of its elements)."""
    if t[0] in 'cv':
        return top(t[1])
    if t[0] == 'a':
        return ('a', t[1], top(t[2]))
    return t


def const(t):
    if t[0] == 'c':
        return True
    if t[0] == 'v':
        return const(t[1])
    if t[0] == 'a':
        return const(t[2])
    return False


def strip(t):
    """Without any const and volatile."""
    if t[0] in 'cv':
        return strip(t[1])
    if t[0] == 'b':
        return t
    return t[:-1] + (strip(t[-1]),)


def decay(t):
    if ref(t):
        t = t[1]
    u = outer(t)
    if u[0] == 'a':
        return ('p', elem(t))
    return top(t)


def outer(t):
    while t[0] in 'cv':
        t = t[1]
    return t


def elem(t):
    """Element of an array: what stands on the array stands on its element."""
    q = []
    while t[0] in 'cv':
        q.append(t[0])
        t = t[1]
    e = t[2]
    for k in reversed(q):
        e = (k, e)
    return e


def arity(t):
    t = outer(t)
    return 1 + arity(t[1]) if t[0] == 'p' else 0


def pointee(t):
    while outer(t)[0] == 'p':
        t = outer(t)[1]
    return t


def bits(t):
    n, i = 0, arity(t)
    while True:
        if const(t):
            n += 1 << i
        t = outer(t)
        if t[0] != 'p':
            return n
        t, i = t[1], i - 1


def length(t):
    t = outer(t)
    return t[1] * length(t[2]) if t[0] == 'a' else 1


def leaf(t):
    while t[0] != 'b':
        t = t[-1]
    return t


def kinds(out):
    def a(op, text):
        out.append((op, text))
    for t in types(3):
        s = spell(t)
        a('remove_all_cv', 'same<rtti::remove_all_cv_t<%s>, %s>' % (s, spell(strip(t))))
        a('full_decay', 'same<rtti::full_decay_t<%s>, %s>' % (s, spell(strip(decay(t)))))
        a('base_type', 'same<rtti::base_type_t<%s>, %s>' % (s, spell(leaf(t))))
        a('pointer_arity', 'rtti::pointer_arity_v<%s> == %d' % (s, arity(t)))
        if not ref(t):
            a('remove_all_pointers', 'same<rtti::remove_all_pointers_t<%s>, %s>' % (s, spell(top(pointee(t)))))
            for n in range(3):
                u = t
                for _ in range(n):
                    u = ('p', u)
                a('add_pointers', 'same<rtti::add_pointers_t<%s, %d>, %s>' % (s, n, spell(u)))
        a('array_length', 'rtti::array_length_v<%s> == %d' % (s, length(t)))
        a('const_bitset', 'rtti::const_bitset<%s>::value == %d' % (s, bits(t) if not ref(t) else 0))
        r = t[1] if ref(t) else t
        o = outer(r)
        cls = o[0] == 'p' and outer(o[1])[0] == 'b' and outer(o[1])[1] in ('K', 'A')
        a('is_class_ptr', 'rtti::is_class_ptr_v<%s> == %s' % (s, str(cls).lower()))
        a('is_lvalue_const_reference', 'rtti::is_lvalue_const_reference_v<%s> == %s' % (s, str(t[0] == 'l' and const(t[1])).lower()))
        if leaf(t)[1] != 'A' or arity(r):
            a('size_of', 'rtti::size_of_v<%s> == sizeof(%s)' % (s, s))
    for x in ('rtti::array_length_v<int[2][3]> == 6', 'rtti::array_length_v<K const[4][2][5]> == 40'):
        a('array_length', x)
    a('size_of', 'rtti::size_of_v<void> == 0')
    for t, v in (('MoveOnly', 1), ('CopyOnly', 0), ('Both', 1), ('Pinned', 0), ('int', 1), ('K', 1), ('std::string', 1), ('std::unique_ptr<int>', 1), ('int*', 1)):
        a('has_move_constructor', 'rtti::has_move_constructor_t<%s>::value == %s' % (t, ('false', 'true')[v]))
    for x, y, e, n in (('Eq', 'Eq', 1, 0), ('NoexceptEq', 'NoexceptEq', 1, 1), ('NoEq', 'NoEq', 0, 0), ('int', 'int', 1, 1), ('int', 'double', 1, 1), ('Eq', 'int', 0, 0), ('int', 'Eq', 0, 0), ('int*', 'int*', 1, 1),
                       ('E', 'E', 1, 1), ('E', 'int', 0, 0), ('std::string', 'char const*', 1, 0), ('int*', 'K*', 0, 0)):
        a('has_eq', 'rtti::has_eq_v<%s const&, %s const&> == %s' % (x, y, ('false', 'true')[e]))
        a('has_nt_eq', 'rtti::has_nt_eq_v<%s const&, %s const&> == %s' % (x, y, ('false', 'true')[n]))
    for t, c, v in (('FromInt', 'int', 1), ('FromIntExplicit', 'int', 0), ('FromInt', '', 0), ('FromTwo', 'int, int', 0), ('FromInt', 'FromInt', 0), ('FromInt', 'FromInt const&', 0), ('FromInt', 'FromInt &&', 0), ('Target', 'K', 1), ('Target', 'K const&', 1),
                    ('Target', 'K const *', 0), ('FromInt', 'double', 1), ('FromInt', 'int const&', 1), ('FromInt', 'int &&', 1), ('NoEq', 'int', 0), ('std::string', 'char const*', 1)):
        a('is_converting_constructor', 'rtti::is_converting_constructor_v<%s> == %s' % (t + (', ' + c if c else ''), ('false', 'true')[v]))
    for t, v, args in (('Types<A, B>', 1, 'A, B'), ('Types<>', 1, ''), ('Values<1, \'c\'>', 1, 'int, char'), ('Mixed<A, 3>', 1, 'A, int'), ('std::array<int, 3>', 1, 'int, std::size_t'), ('K', 0, ''), ('int', 0, '')):
        a('is_template_type', 'rtti::is_template_type<%s>::value == %s && same<rtti::template_type_args_t<%s>, L<%s>>' % (t, ('false', 'true')[v], t, args))
    for s, v in (('int(HasF::*)(int) const', 1), ('int(HasF::*)(int)', 0), ('int(HasF::*)(double) const', 0), ('void(HasF::*)(int) const', 0), ('int(HasG::*)(int) const', 0), ('int(HasFOverloaded::*)(int) const', 1),
                 ('int(HasFOverloaded::*)(double)', 1), ('int(HasFOverloaded::*)(double) const', 0)):
        a('HAS_METHOD', 'has_method_f<%s>::value == %s' % (s, ('false', 'true')[v]))
    for t, v in (('HasF', 1), ('HasG', 0), ('int', 0)):
        a('HAS_TYPE', 'has_type_inner<%s>::value == %s' % (t, ('false', 'true')[v]))
    for t, s, v in (('HasF', 'int(int)', 1), ('HasF', 'void(int)', 1), ('HasF', 'double(char)', 1), ('HasF', 'K(int)', 0), ('HasF', 'int(K)', 0), ('HasF', 'int()', 0), ('HasG', 'int(int)', 0), ('HasF const&', 'int(int)', 1),
                    ('HasFOverloaded const&', 'int(K)', 0), ('int', 'int(int)', 0)):
        a('CAN_CALL_METHOD', 'can_call_method_f<%s, %s>::value == %s' % (t, s, ('false', 'true')[v]))
    I = 'Id1(%du)'
    for x in range(3):
        a('ID', '%s.value() == %d && %s.valid() == %s && static_cast<unsigned>(%s) == %d' % (I % x, x, I % x, str(x != 0).lower(), I % x, x))
        for y in range(3):
            a('ID', '(%s == %s) == %s && (%s != %s) == %s' % (I % x, I % y, str(x == y).lower(), I % x, I % y, str(x != y).lower()))
    a('ID', '!Id1().valid() && !Id2().valid() && Id2().value() == 7 && Id1() == Id1(0u) && Id2(0u).valid()')
    a('ID', '!std::is_convertible_v<unsigned, Id1> && !std::is_convertible_v<Id1, unsigned> && !std::is_constructible_v<Id1, Id2> && !std::is_convertible_v<Id1, bool>')
    F = ('Flags::None', 'Flags::F1', 'Flags::F2', 'Flags::F4')
    num = {'Flags::None': 0, 'Flags::F1': 1, 'Flags::F2': 2, 'Flags::F4': 4}
    for x in F:
        for y in F:
            a('BITMASK_ENUM', 'static_cast<unsigned>(rtti::operator|(%s, %s)) == %d && static_cast<unsigned>(rtti::operator&(%s, %s)) == %d' % (x, y, num[x] | num[y], x, y, num[x] & num[y]))


def functions(out):
    def a(text):
        out.append(('function_traits', text))
    for pre, cls in (('*', None), ('K::*', 'K')):
        for args in ((), ('int',), ('int', 'K const&'), ('K&&', 'int*', 'double'), ('K&', 'int', 'int', 'int', 'int', 'int', 'int', 'int', 'int', 'int')):
            for ret in ('void', 'int', 'K const&', 'K*'):
                for c in ('', ' const') if cls else ('',):
                    for vol in ('', ' volatile') if cls else ('',):
                        for r in ('', ' &', ' &&') if cls else ('',):
                            for nx in ('', ' noexcept'):
                                if nx and (vol or r == ' &&'):
                                    continue        # not offered
                                f = 'mpl::function_traits<%s (%s)(%s)%s%s%s%s>' % (ret, pre, ', '.join(args), c, vol, r, nx)
                                me = [] if cls is None else ['%s%s%s %s' % (cls, c, vol, '&&' if r == ' &&' else '&')]
                                text = 'same<typename %s::class_type, %s> && %s::is_const::value == %s && %s::is_volatile::value == %s && %s::is_noexcept::value == %s && %s::arity::value == %d && same<typename %s::result_type, %s> && same<typename %s::args, L<%s>>' % (
                                    f, cls or 'void', f, str(bool(c)).lower(), f, str(bool(vol)).lower(), f, str(bool(nx)).lower(), f, len(args), f, ret, f, ', '.join(args))
                                text += ' && %s::is_lrefthis::value == %s && %s::is_rrefthis::value == %s' % (f, str(r == ' &').lower(), f, str(r == ' &&').lower())
                                text += ' && same<typename mpl::function_traits<typename %s::uniform_signature>::args, L<%s>> && same<typename mpl::function_traits<typename %s::uniform_signature>::result_type, %s>' % (
                                    f, ', '.join(me + list(args)), f, ret)
                                text += ''.join(' && same<typename %s::template arg<%d>::type, %s>' % (f, i, x) for i, x in enumerate(args))
                                a(text)
    a('mpl::function_traits<int(int, K&)>::arity::value == 2 && same<mpl::function_traits<int(int, K&)>::class_type, void>')
    a('mpl::function_traits<HasFCall>::arity::value == 2 && mpl::function_traits<HasFCall>::is_const::value && same<mpl::function_traits<HasFCall>::result_type, double>')


def rejected():
    out = []

    def a(what, code, twin):
        out.append((what, code, twin))
    U = 'using X = typename mpl::%s::type; X *x;'
    for op in ('first', 'last', 'popfront', 'popback'):
        a('typelist_%s of nothing' % op, U % ('typelist_%s<L<>>' % op), U % ('typelist_%s<L<A>>' % op))
        a('typelist_%s of what is no list' % op, U % ('typelist_%s<int>' % op), U % ('typelist_%s<L<A>>' % op))
    a('typelist_get beyond the end', U % 'typelist_get<L<A, B>, 2>', U % 'typelist_get<L<A, B>, 1>')
    a('typelist_get of nothing', U % 'typelist_get<L<>, 0>', U % 'typelist_get<L<A>, 0>')
    a('typelist_size of what is no list', 'constexpr auto n = mpl::typelist_size_v<int>; int a[n + 1]; (void)a;', 'constexpr auto n = mpl::typelist_size_v<L<>>; int a[n + 1]; (void)a;')
    a('traits of what is no function', 'using X = mpl::function_traits<int>::result_type; X *x;', 'using X = mpl::function_traits<int()>::result_type; X *x;')
    a('number as an identifier', 'Id1 a = 1u;', 'Id1 a{1u};')
    a('identifier as a number', 'Id1 a; unsigned b = a;', 'Id1 a; unsigned b = a.value();')
    a('identifiers of different kinds compared', 'Id1 a; Id2 b; bool c = a == b;', 'Id1 a; Id1 b; bool c = a == b;')
    a('identifier of another kind', 'Id1 a; Id2 b{a};', 'Id1 a; Id1 b{a};')
    a('bits of an enumeration that is no mask', 'auto x = rtti::operator|(E::E0, E::E0);', 'auto x = rtti::operator|(Flags::F1, Flags::F2);')
    return out


GONE = ('no member named', 'no type named', 'no template named', 'undeclared identifier')


def run(ctx):
    good = []
    lists(good)
    kinds(good)
    functions(good)
    bad = rejected()
    head = open(VERIF + HEAD).read() + '\nstruct HasFCall { double operator()(int, K&) const; };\n'
    size = 200
    packs = [list(range(i, min(i + size, len(good)))) for i in range(0, len(good), size)]
    line = 'static_assert(%s);\n'
    wrap = 'void snippet() { %s }\n'
    jobs = [(''.join(line % good[i][1] for i in pack), ()) for pack in packs]
    n = len(jobs)
    for what, code, twin in bad:
        jobs += [(wrap % code, ()), (wrap % twin, ())]
    with Snippets(head) as s:
        res = s.all(jobs)
        again = [i for k, pack in enumerate(packs) if not res[k][0] for i in pack][:2000]
        single = dict(zip(again, s.all([(line % good[i][1], ()) for i in again]))) if again else {}
    held, fails, und = {}, {}, {}
    for i, (op, text) in enumerate(good):
        ok, err = single.get(i, (True, ''))
        if ok:
            held[op] = held.get(op, 0) + 1
        else:
            fails.setdefault(op, []).append((text, err))
    for op in list(fails):
        # a helper under another name
        if op not in held and all(any(g in err for g in GONE) for _, err in fails[op]):
            und[op] = fails.pop(op)[0]
    if not held:
        raise Broken('no assertion holds: %s' % next(iter(single.values()))[1])
    where = lambda op: 'include/rtti/' + ('typelist.h' if op.startswith('typelist') else 'function_traits.h' if op == 'function_traits' else 'tagged_id.h' if op == 'ID' else
                                          'sfinae.h' if op.isupper() and op != 'BITMASK_ENUM' else 'misc_traits.h')
    for op in sorted({o for o, _ in good}):
        if op in fails:
            for text, err in fails[op][:3]:
                ctx.bad('%s: %s' % (op, text[:150]), where(op), 'does not hold (%d of %d assertions about it fail): %s' % (len(fails[op]), len(fails[op]) + held.get(op, 0), err))
        elif op in und:
            ctx.undecided(op, where(op), 'the name it uses is gone: %s' % und[op][1])
        else:
            ctx.ok(op, where(op), '%d assertions hold' % held[op])
    rej = 0
    for k, (what, code, twin) in enumerate(bad):
        (ok, err), (tok, terr) = res[n + 2 * k], res[n + 2 * k + 1]
        if not tok:
            ctx.undecided(what, 'include/rtti', 'its correct form does not compile either: %s: %s' % (twin, terr))
        elif ok:
            ctx.bad(what, 'include/rtti', 'is accepted: %s' % code)
        else:
            rej += 1
            ctx.ok(what, 'include/rtti', 'rejected: %s -- %s' % (code, err))
    ctx.counts['assertions'] = sum(held.values())
    ctx.counts['programs rejected'] = rej
