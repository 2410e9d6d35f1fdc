"""Compile witnesses over the public API.  (1) Every form of registration and access the API offers is instantiated with every kind of
target it admits (functions, members, fields, accessors, constructors, classes, converters, values); each such program must compile, and
the types and overloads it selects must be the intended ones (static assertions inside the programs).  (2) Programs which misuse a form must be
rejected by the compiler; each has a twin that differs in the misuse only and must compile, so that a rejection for another reason is not counted."""
from ..core import VERIF
from ..prog import Snippets, Broken

HEAD = '/witness/forms.h'
G = 'rtti::global_define()'
CX = G + '._class<X>("X")'


# --- admissible programs ------------------------------------------------------------------------------------------------------------

def admissible():
    out = []

    def a(group, code):
        out.append((group, code))

    for f in ('m0 m1 m2 m3 m4 m5 m6 m7 m8 m9 m10 c0 c1 c10 n0 nc0 v0 vc0 vn0 vnc0 v2 l0 lc0 ln0 lcn0 vol cvol lref clref rref ptr cptr self cself pself abstract cabstract pinned uptr sptr str '
              'moveonly copyonly color vec any fun cval cx flag sv byval byref bycref byrref byptr bycptr move moveref anyarg anycref base cbase pbase cpbase '
              'pinnedarg mo co col fn cval2 strv uni noargdelete s0 s1 sv0 sn0 make s10').split():
        a('method of a class', CX + '._method("f", &X::%s);' % f)
    for f in ('static_cast<int(X::*)(int)>(&X::over)', 'static_cast<int(X::*)(std::string const&) const>(&X::over)', 'static_cast<int(*)(double)>(&X::over)', '&Base::based', '&Base::virt',
              '+[](int) { return 1; }', '&f2', 'f2'):
        a('method of a class', CX + '._method("f", %s);' % f)
    a('method of a class', G + '._class<Derived>("D")._method("f", &Derived::based)._method("g", &Derived::other)._method("h", &Derived::pure)._method("i", &Derived::virt);')
    a('method of a class', G + '._class<Base>("B")._method("f", &Base::pure)._method("g", &Base::virt);')
    for f in ('f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 f10 fv fv2 fn fvn flref fclref frref fuptr fmove fcopy fabstract fabstractp fref fcref frrefarg fany fretany fptr fcolor fretcolor fx fcx farr fcarr '
              'fdecayed fpm ffn').split():
        a('free function', G + '._method("f", &%s)._method("g", %s);' % (f, f))
    a('free function', G + '._method("f", +[](int) { return 1; })._method("g", static_cast<int(*)(int)>(fover))._method("h", static_cast<int(*)(double)>(&fover));')
    a('free function', G + '._namespace("n")._method("f", &f1)._property("p", &gvar)._enum<Color>("C")._element("Red", Color::Red)._end();')
    for f in ('field cfield text owned next cnext fcolor arr items fpinned fbase on cb var mut pm d copied arr2 name8 sfield scfield stext sarr sconst spinned snext').split():
        a('field', CX + '._property("p", &X::%s);' % f)
    a('field', G + '._class<Derived>("D")._property("p", &Derived::bfield)._property("q", &Base::bfield);')
    for f in 'gvar gcvar gtext gowned garr gx gpx gcpx gbase gpinned gcolor gany'.split():
        a('variable', G + '._property("p", &%s);' % f)
    for f in ('get set|getNonConst set|getNoexcept setNoexcept|mget mset|mget msetr|vget vset|bget bset|getRef set|xget xset|sget sset|sname srename|sgetn ssetn|get setNoexcept|getNoexcept set').split('|'):
        x, y = f.split()
        a('accessors', CX + '._property("p", &X::%s, &X::%s);' % (x, y))
    NAME = 'static_cast<std::string const&(X::*)() const>(&X::name)'
    a('accessors', CX + '._property("p", %s, static_cast<void(X::*)(std::string const&)>(&X::name))._property("q", %s, &X::rename);' % (NAME, NAME))
    a('accessors', G + '._property("p", &f0, &fvn)._property("q", f0, fvn)._property("r", &X::sget, &X::sset);')
    for c in ('', 'int', 'int, std::string', 'std::string const&', 'std::unique_ptr<int>', 'int&, int const&, int&&, int*, int const*', ', '.join(['int'] * 10), 'X const&', 'X&&', 'double'):
        a('constructor', CX + '._constructor<%s>();' % c)
        a('constructor', CX + '._constructor<%s>("c");' % c)
    for t in ('std::string &&', 'std::string &', 'std::string const&', 'Pinned const&', 'Pinned &', 'Base const&', 'Base &', 'Base *', 'A3&', 'std::unique_ptr<int>&&', 'std::unique_ptr<int>', 'MoveOnly', 'CopyOnly', 'Color',
              'rtti::variant', 'int', 'std::vector<int>'):
        a('converting constructor', 'struct Z { Z(%s); }; %s._class<Z>()._constructor<%s>();' % (t, G, t))
        a('explicit constructor', 'struct Z { explicit Z(%s); }; %s._class<Z>()._constructor<%s>();' % (t, G, t))
    for t in ('Trivial MoveOnly CopyOnly Moving Pinned NoDefault NoCompare Compare Big Aligned Throwing ConstOnly Immobile NoDelete Base Derived VBase std::string std::vector<int> std::map<int,int> '
              'std::unique_ptr<int> std::optional<int> Self Self::Inner Other Unrelated Functor').split():
        a('class', G + '._class<%s>(); %s._class<%s>("T");' % (t, G, t))
    a('class', CX + '._class<Self>("S")._class<Self::Inner>("I")._end()._end()._end();')
    a('class', G + '._namespace("a")._namespace("b")._class<X>("X")._method("f", &X::m0)._end()._end()._end();')
    a('class', G + '._namespace("a")._class<X>("X")._end()._class<Self>("S")._end()._namespace("b")._end()._end()._namespace("c");')
    a('base', G + '._class<Derived>("D")._base<Base, Other>();')
    a('base', G + '._class<Derived>("D")._base<Base>()._base<Other>();')
    a('base', G + '._class<Derived>("D")._base<>();')
    a('base', G + '._class<VBase>("D")._base<Other>();')
    a('enumeration', G + '._enum<Color>("C")._element("Red", Color::Red)._element("Green", Color::Green);')
    a('enumeration', G + '._enum<Plain>("C")._element("P0", P0)._element("x", 1)._attribute("a", 1);')
    a('enumeration', CX + '._enum<Color>("C")._element("Red", Color::Red)._end();')
    a('attribute', G + '._attribute("a", 1)._attribute("b", std::string{"x"})._attribute("c", "literal")._attribute("d", v)._attribute("e", std::move(v))._attribute("f", Color::Red)._attribute("g", MoveOnly{});')
    a('attribute', 'auto const s = std::string{}; ' + G + '._attribute("a", s);')
    a('attribute', CX + '._attribute("a", 1)._method("f", &X::m0)._attribute("b", 2)._property("p", &X::field)._attribute("c", 3)._constructor<int>()._attribute("d", 4);')
    for c, t in ((G, 'void'), (CX, 'X')):
        for f in ('[](rtti::meta_define<%s>) {}', '[](auto d) { d._method("f", &X::m0); }', '[](auto &&d) { d._method("f", &X::m0); }', '[](auto const &d) {}', '[q = std::unique_ptr<int>{}](rtti::meta_define<%s>) {}',
                  'std::function<void(rtti::meta_define<%s>)>{}'):
            a('deferred definition', '%s._lazy(%s);' % (c, f % t if '%s' in f else f))
        a('deferred definition', 'auto f = [](rtti::meta_define<%s>) {}; auto const h = f; %s._lazy(f); %s._lazy(h);' % (t, c, c))
    a('deferred definition', CX + '._lazy(Mutable{});')
    # converters
    for f in ('&to_string_x|to_string_x|&to_string_byval|&to_int|&to_move|&from_int|&to_int_p|&to_noexcept|&X::toInt|&X::tryInt|&X::toString|&X::tryString|&X::toIntNoexcept|&X::tryIntNoexcept|&X::toUnique|&X::toRef').split('|'):
        a('converter', 'rtti::MetaType::registerConverter(%s);' % f)
    for f, t, c in (('X', 'std::string', 'StringOf{}|StringTry{}|&to_string_try|&to_string_x|&X::toString|&X::tryString|[q = std::string{}](X const&) { return q; }|[q = std::string{}](X const&, bool &ok) { ok = true; return q; }'),
                    ('std::string', 'int', '&to_int_try|&to_int'),
                    ('X', 'int', '&to_noexcept_try|[](X const&) { return 1; }|[](X) { return 1; }|[](X const&, bool&) { return 1; }|[](X const&, bool&) noexcept { return 1; }|std::function<int(X const&)>{}|'
                                 'std::function<int(X const&, bool&)>{}|&X::toInt|&X::tryInt|&X::toIntNoexcept|&X::tryIntNoexcept|[](auto const&) { return 1; }|[q = std::unique_ptr<int>{}](X const&) { return 1; }'),
                    ('X', 'double', '[](X const&) { return 1; }|[](X const&, bool&) { return 1; }|&X::toInt|&X::tryInt'),
                    ('int', 'int', '[](int) { return 1; }'), ('X*', 'int', '[](X*) { return 1; }'), ('X const*', 'int', '[](X const*) { return 1; }'), ('X', 'X*', '[](X const&) { return (X*)0; }'),
                    ('Pinned', 'int', '[](Pinned const&) { return 1; }'), ('Base', 'int', '[](Base const&) { return 1; }|&Base::toInt'), ('MoveOnly', 'int', '[](MoveOnly const&) { return 1; }'),
                    ('Derived', 'int', '&Base::toInt|&Derived::toInt|&Base::tryInt'), ('X', 'Pinned', '[](X const&) { return Pinned(); }'), ('X', 'MoveOnly', '&to_move|[](X const&) { return MoveOnly(); }'),
                    ('Color', 'std::string', '[](Color) { return std::string{}; }'), ('std::unique_ptr<int>', 'int', '[](std::unique_ptr<int> const &x) { return *x; }')):
        for x in c.split('|'):
            a('converter', 'rtti::MetaType::registerConverter<%s, %s>(%s);' % (f, t, x))
    a('converter', 'auto const f = [](X const&) { return 1; }; auto g = f; rtti::MetaType::registerConverter<X, int>(f); rtti::MetaType::registerConverter<X, int>(g);')
    for f, t in (('int', 'double'), ('double', 'int'), ('X', 'int'), ('int', 'X'), ('Derived', 'Other'), ('Plain', 'int'), ('Derived*', 'Base*'), ('int', 'int'), ('char const*', 'std::string'), ('Castable', 'int'), ('PinnedInt', 'int'), ('AbstractInt', 'int')):
        a('default converter', 'rtti::MetaType::registerConverter<%s, %s>();' % (f, t))
    for f, t in (('int', 'double'), ('Color', 'int'), ('X', 'std::string'), ('X*', 'int'), ('X const&', 'int')):
        a('converter lookup', 'bool q = rtti::MetaType::hasConverter<%s, %s>(); rtti::MetaType::unregisterConverter<%s, %s>(); (void)q;' % (f, t, f, t))
    a('converter lookup', 'bool q = rtti::MetaType::hasConverter(ty, ty) || rtti::MetaType::hasConverter(ty.typeId(), ty.typeId()); (void)q;')
    values(a)
    invocations(a)
    identifiers(a)
    return out


# the kinds of types and what values of them can do
FULL = ['int', 'int const', 'int*', 'int const*', 'int**', 'X', 'X*', 'X const*', 'std::string', 'Color', 'Plain', 'CopyOnly', 'Moving', 'NoCompare', 'Compare', 'Trivial', 'Big', 'Aligned', 'Throwing', 'Derived', 'VBase', 'Union',
        'std::vector<int>', 'std::shared_ptr<X>', 'std::function<int(int)>', 'FP', 'int X::*', 'MP', 'std::nullptr_t', 'std::string_view', 'rtti::MetaType_ID', 'char const*', 'std::array<int,3>', 'std::map<std::string,int>',
        'std::pair<int,X>', 'std::tuple<int>', 'bool', 'double', 'void*', 'NoDelete*', 'rtti::MetaClass const*']
MOVE = ['MoveOnly', 'std::unique_ptr<int>']
ARRAY = ['A3', 'AX2', 'AS2', 'A23']
REFS = ['Pinned', 'Immobile', 'Base']


def values(a):
    for t in FULL + MOVE + ARRAY + ['std::optional<int>']:
        s = ['rtti::variant z{val<%s>()}; v = val<%s>();' % (t, t)]
        if t not in MOVE:
            s.append('auto &y = val<%s&>(); rtti::variant z{y}; v = y;' % t)
            s.append('auto &y = val<%s const&>(); rtti::variant z{y}; v = y;' % t)
        a('value into a variant', ' '.join('{ %s }' % x for x in s))
        a('reference into a variant', '{ auto &y = val<%s&>(); rtti::variant z{std::ref(y)}; rtti::variant q{std::cref(y)}; }' % t)
    for t in REFS:
        a('reference into a variant', '{ auto &y = val<%s&>(); rtti::variant z{std::ref(y)}; rtti::variant q{std::cref(y)}; }' % t)
    for t in FULL + MOVE + ARRAY + REFS:
        c = t + ' const' if not t.endswith('*') or '::' in t else t + ' const'
        a('access to a value', 'static_assert(same<decltype(v.ref<%s>()), std::add_lvalue_reference_t<%s>>); static_assert(same<decltype(cv.ref<%s>()), std::add_lvalue_reference_t<std::add_const_t<%s>>>); '
          'static_assert(same<decltype(v.cref<%s>()), std::add_lvalue_reference_t<std::add_const_t<%s>>>); static_assert(same<decltype(cv.cref<%s>()), std::add_lvalue_reference_t<std::add_const_t<%s>>>); '
          'static_assert(same<decltype(std::move(v).rref<%s>()), std::add_rvalue_reference_t<%s>>); static_assert(same<decltype(v.data<%s>()), std::add_pointer_t<%s>>); '
          'static_assert(same<decltype(cv.data<%s>()), std::add_pointer_t<std::add_const_t<%s>>>); '
          'v.ref<%s>(); cv.ref<%s>(); std::move(v).ref<%s>(); std::move(v).rref<%s>(); v.cref<%s>(); cv.cref<%s>(); v.data<%s>(); cv.data<%s>();' % ((t,) * 22))
        a('query of a value', 'bool q = v.is<%s>() || cv.is<%s>() || v.canConvert<%s>() || cv.canConvert<%s>(); (void)q; (void)rtti::metaTypeId<%s>(); (void)rtti::metaType<%s>();' % ((t,) * 6))
    for t in FULL + MOVE:
        a('conversion of a value', 'static_assert(same<std::remove_cv_t<decltype(v.to<%s>())>, std::remove_cv_t<%s>>); v.to<%s>(); cv.to<%s>(); v.convert<%s>(); bool q = v.tryConvert<%s>(); (void)q;' % ((t,) * 6))
    for t in FULL + MOVE + ARRAY + REFS:
        a('comparison of a value', 'bool q = cv == val<%s const&>() || cv != val<%s const&>() || cv.eq(val<%s const&>()) || cv.neq(val<%s const&>()); (void)q;' % ((t,) * 4))
    a('comparison of a value', 'bool q = cv == v || cv != v || v == cv; (void)q;')
    for t in FULL + MOVE:
        a('argument', '{ rtti::argument z{val<%s>()}; z.value<%s>(); } { rtti::argument z{val<%s>()}; z.value<%s&&>(); }' % ((t,) * 4))
    for t in FULL + MOVE + ARRAY + REFS:
        a('argument', '{ rtti::argument z{val<%s&>()}; z.value<%s&>(); } { rtti::argument z{val<%s const&>()}; z.value<%s const&>(); }' % ((t,) * 4))
    a('variant', 'std::swap(v, v); swap(v, v); std::vector<rtti::variant> q; q.push_back(v); q.insert(q.begin(), std::move(v)); v.clear(); bool b = v.empty() || v; (void)b; (void)v.typeId(); (void)cv.metaClass();')
    a('variant', 'rtti::variant a; rtti::variant b{a}; rtti::variant c{std::move(b)}; a = c; a = std::move(c); rtti::variant d{cv}; static_assert(std::is_nothrow_move_constructible_v<rtti::variant>); '
                 'static_assert(std::is_nothrow_move_assignable_v<rtti::variant>); static_assert(std::is_copy_constructible_v<rtti::variant>); static_assert(std::is_nothrow_swappable_v<rtti::variant>);')


def invocations(a):
    for t in FULL + MOVE + ARRAY + REFS:
        x = t if t not in REFS and t not in ARRAY else t + '&'
        a('passing an argument', 'm->invoke(val<%s&>()); m->invoke(v, val<%s const&>()); v.invoke("f", val<%s>(), val<%s&>()); cv.invoke("f", val<%s>(), val<%s&>()); t->invoke(val<%s>()); p->set(v, val<%s>()); v.set_property("p", val<%s>());' % (
            t, t, x, t, x, t, x, x, x))
    for n in range(11):
        s = ', '.join(map(str, range(n)))
        c = ', ' if n else ''
        a('invocation', 'static_assert(same<decltype(m->invoke(%s)), rtti::variant>); m->invoke(%s); m->invoke(v%s%s); m->invoke(cv%s%s); t->invoke(%s); v.invoke("f"%s%s); cv.invoke("f"%s%s);' % (
            s, s, c, s, c, s, s, c, s, c, s))
    a('invocation', 'static_assert(same<decltype(p->get()), rtti::variant>); p->get(); p->get(v); p->get(cv); p->set(v); p->set(v, v); p->set(cv, 1); p->set(1); v.set_property("p", 1); (void)cv.get_property("p");')
    a('invocation', 'c->getMethod<int>("f"); c->getMethod<>("f"); c->getMethod<int&, int const&>("f"); c->getConstructor<>(); c->getConstructor<int>(); c->getConstructor<int const&, std::string&&>();')
    a('cast', 'static_assert(same<decltype(rtti::meta_cast<Derived>(val<Base*>())), Derived*>); static_assert(same<decltype(rtti::meta_cast<Derived>(val<Base const*>())), Derived const*>); '
              'rtti::meta_cast<Derived>(val<Base*>()); rtti::meta_cast<Derived>(val<Base const*>()); rtti::meta_cast<Derived>(val<Base&>()); rtti::meta_cast<Derived>(val<Base const&>());')
    for x, y in (('Other', 'Base&'), ('Base', 'Derived*'), ('Base', 'Derived const*'), ('Derived const', 'Base const*'), ('Derived const', 'Base*'), ('X', 'X*')):
        a('cast', 'rtti::meta_cast<%s>(val<%s>());' % (x, y))


def identifiers(a):
    a('hash of an identifier', 'std::size_t h = std::hash<rtti::MetaType_ID>{}(ty.typeId()); (void)h; std::unordered_map<rtti::MetaType_ID, int> q; q[ty.typeId()] = 1; (void)q.find(ty.typeId());')
    a('hash of a variant', 'std::size_t h = std::hash<rtti::variant>{}(v); (void)h;')
    a('comparison of identifiers', 'bool b = ty.typeId() == ty.typeId() || ty.typeId() != ty.typeId(); (void)b;')
    a('identifiers', 'rtti::MetaType_ID q; static_assert(std::is_trivially_copyable_v<rtti::MetaType_ID>); static_assert(!std::is_convertible_v<rtti::MetaType_ID, int>); bool b = q.valid(); (void)b;')
    a('types', 'static_assert(same<decltype(rtti::metaTypeId<X>()), rtti::MetaType_ID>); static_assert(same<decltype(rtti::metaType<X>()), rtti::MetaType>);')


# --- programs to be rejected -------------------------------------------------------------------------------------------------------------

def inadmissible():
    """(what, program, twin that must compile)."""
    out = []

    def a(what, code, twin):
        out.append((what, code, twin))

    M = CX + '._method("f", %s);'
    a('method with eleven parameters', M % '&X::m11', M % '&X::m10')
    a('static method with eleven parameters', M % '&X::s11', M % '&X::s10')
    a('function with eleven parameters', G + '._method("f", &f11);', G + '._method("f", &f10);')
    a('void method with eleven parameters', M % '&X::vm11', M % '&X::m10')
    a('const method with eleven parameters', M % '&X::c11', M % '&X::c10')
    a('const void method with eleven parameters', M % '&X::vc11', M % '&X::c10')
    a('void function with eleven parameters', G + '._method("f", &fv11);', G + '._method("f", &f10);')
    a('static void method with eleven parameters', M % '&X::sv11', M % '&X::s10')
    a('overloaded method', M % '&X::over', M % 'static_cast<int(*)(double)>(&X::over)')
    a('overloaded function', G + '._method("f", &fover);', G + '._method("f", static_cast<int(*)(int)>(&fover));')
    a('variadic function', G + '._method("f", &fvariadic);', G + '._method("f", &f1);')
    a('null as a method', M % 'nullptr', M % '&X::m0')
    a('number as a method', M % '1', M % '&X::m0')
    a('method of rvalues only', 'struct Q { int f() &&; int g() &; }; %s._class<Q>()._method("f", &Q::f);' % G, 'struct Q { int f() &&; int g() &; }; %s._class<Q>()._method("f", &Q::g);' % G)
    P = CX + '._property("p", %s);'
    good = P % '&X::get, &X::set'
    a('setter with a result', P % '&X::get, &X::setRet', good)
    a('getter with a parameter', P % '&X::getArg, &X::set', good)
    a('getter without a result', P % '&X::getVoid, &X::set', good)
    a('setter with two parameters', P % '&X::get, &X::set2', good)
    a('setter without a parameter', P % '&X::get, &X::set0', good)
    a('accessors of different types', P % '&X::get, &X::setStr', good)
    a('member getter and static setter', P % '&X::get, &X::sset', good)
    a('static getter and member setter', P % '&X::sget, &X::set', good)
    a('constructor the class does not have', CX + '._constructor<std::vector<int>>();', CX + '._constructor<int>();')
    a('constructor with eleven parameters', 'struct Q { Q(int,int,int,int,int,int,int,int,int,int,int); Q(int,int,int,int,int,int,int,int,int,int); }; %s._class<Q>()._constructor<int,int,int,int,int,int,int,int,int,int,int>();' % G,
      'struct Q { Q(int,int,int,int,int,int,int,int,int,int,int); Q(int,int,int,int,int,int,int,int,int,int); }; %s._class<Q>()._constructor<int,int,int,int,int,int,int,int,int,int>();' % G)
    for t in ('Color', 'int', 'X*', 'X&', 'A3'):
        a('%s as a class' % t, G + '._class<%s>("T");' % t, G + '._class<X>("T");')
    a('end of the global namespace', G + '._end();', G + '._namespace("a")._end();')
    a('namespace in a class', CX + '._namespace("a");', G + '._namespace("a");')
    a('class in itself', CX + '._class<X>("X");', CX + '._class<Self>("X");')
    a('base of a namespace', G + '._base<Base>();', G + '._class<Derived>()._base<Base>();')
    a('constructor of a namespace', G + '._constructor<>();', G + '._class<X>()._constructor<>();')
    D = G + '._class<Derived>("D")._base<%s>();'
    for t, w in (('Derived', 'the class itself'), ('Unrelated', 'an unrelated class'), ('Base const', 'a const class'), ('Base*', 'a pointer'), ('int', 'a number'), ('Base, Unrelated', 'an unrelated class among others')):
        a('%s as a base' % w, D % t, D % 'Base')
    a('derived class as a base', G + '._class<Base>("B")._base<Derived>();', D % 'Base')
    a('private base', 'struct Q: private Other {}; %s._class<Q>("D")._base<Other>();' % G, 'struct Q: Other {}; %s._class<Q>("D")._base<Other>();' % G)
    a('ambiguous base', 'struct A {}; struct B1: A {}; struct B2: A {}; struct Q: B1, B2 {}; %s._class<Q>("D")._base<A>();' % G, 'struct A {}; struct B1: A {}; struct B2: A {}; struct Q: B1, B2 {}; %s._class<Q>("D")._base<B1>();' % G)
    L = CX + '._lazy(%s);'
    for f in ('[](rtti::meta_define<Base>) {}', '[] {}', '[](rtti::meta_define<X>, int) {}', '1'):
        a('deferred definition by %s' % f, L % f, L % '[](rtti::meta_define<X>) {}')
    a('attribute that cannot be stored', G + '._attribute("a", Pinned{});', G + '._attribute("a", CopyOnly{});')
    # values
    for t in ('MoveOnly', 'Pinned', 'Base', 'std::unique_ptr<int>'):
        a('copy of a %s in a variant' % t, 'auto &y = val<%s const&>(); rtti::variant z{y};' % t, 'auto &y = val<%s const&>(); rtti::variant z{std::cref(y)};' % t)
        a('assignment of a %s to a variant' % t, 'auto &y = val<%s const&>(); v = y;' % t, 'auto &y = val<CopyOnly const&>(); v = y;')
    a('value that cannot be moved in a variant', 'rtti::variant z{val<Pinned>()};', 'rtti::variant z{val<MoveOnly>()};')
    a('conversion to a reference', 'v.to<X&>();', 'v.to<X>();')
    a('conversion of a const variant to a reference', 'cv.to<X const&>();', 'cv.to<X>();')
    a('conversion to an array', 'v.to<A3>();', 'v.to<X>();')
    a('query of a conversion to a reference', 'v.canConvert<X&>();', 'v.canConvert<X>();')
    a('mutable reference from a const variant', 'X &q = cv.ref<X>();', 'X const &q = cv.ref<X>();')
    a('mutable pointer from a const variant', 'X *q = cv.data<X>();', 'X const *q = cv.data<X>();')
    a('mutable reference from cref', 'X &q = v.cref<X>();', 'X const &q = v.cref<X>();')
    a('rvalue from an lvalue variant', 'v.rref<X>();', 'std::move(v).rref<X>();')
    a('rvalue from a const variant', 'std::move(cv).rref<X>();', 'std::move(v).rref<X>();')
    a('conversion of a const variant in place', 'cv.convert<X>();', 'v.convert<X>();')
    a('attempt to convert a const variant in place', 'cv.tryConvert<X>();', 'v.tryConvert<X>();')
    a('clearing a const variant', 'cv.clear();', 'v.clear();')
    a('cast to a number', 'rtti::meta_cast<int>(val<Base*>());', 'rtti::meta_cast<Derived>(val<Base*>());')
    a('cast to a pointer', 'rtti::meta_cast<Base*>(val<Base*>());', 'rtti::meta_cast<Base>(val<Base*>());')
    a('cast of a pointer to const', 'Derived *q = rtti::meta_cast<Derived>(val<Base const*>());', 'Derived const *q = rtti::meta_cast<Derived>(val<Base const*>());')
    a('cast of a const reference', 'Derived &q = rtti::meta_cast<Derived>(val<Base const&>());', 'Derived const &q = rtti::meta_cast<Derived>(val<Base const&>());')
    # calls
    a('twelve arguments', 'm->invoke(v, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);', 'm->invoke(v, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);')
    a('constructor with eleven arguments', 't->invoke(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);', 't->invoke(1, 2, 3, 4, 5, 6, 7, 8, 9, 10);')
    a('writing a property with nothing', 'p->set();', 'p->set(1);')
    a('writing a property with three values', 'p->set(v, 1, 2);', 'p->set(v, 1);')
    a('reading a property with two instances', 'p->get(v, v);', 'p->get(v);')
    # converters
    R = 'rtti::MetaType::registerConverter(%s);'
    a('converter by a method that is not const', R % '&X::nonconst', R % '&X::toInt')
    a('converter by a method with a parameter', R % '&X::conv2', R % '&X::toInt')
    a('converter without a result', R % '&to_nothing', R % '&to_int')
    a('converter with two parameters', R % '&to_two', R % '&to_int')
    R = 'rtti::MetaType::registerConverter<%s>(%s);'
    a('converter functor that is not const', R % ('X, int', '&X::nonconst'), R % ('X, int', '&X::toInt'))
    a('converter functor of another source', R % ('X, int', '[](std::string const&) { return 1; }'), R % ('std::string, int', '[](std::string const&) { return 1; }'))
    a('converter functor of another result', R % ('X, std::vector<int>', '[](X const&) { return Pinned(); }'), R % ('X, Pinned', '[](X const&) { return Pinned(); }'))
    for f, t in (('Color', 'int'), ('int', 'Color'), ('std::string', 'X'), ('X', 'std::string'), ('int', 'std::string'), ('Base', 'Derived')):
        a('default converter of %s to %s' % (f, t), R % (f + ', ' + t, ''), R % ('int, double', ''))
    return out


INTERNAL = ('argument',)     # names clients have no need to use


def run(ctx):
    good, bad = admissible(), inadmissible()
    wrap = 'void snippet() { %s }\n'
    size = 12
    order = sorted(range(len(good)), key=lambda i: good[i][0])
    packs = [order[i:i + size] for i in range(0, len(order), size)]
    jobs = [(''.join('void snippet%d() { %s }\n' % (i, good[i][1]) for i in pack), ()) for pack in packs]
    n = len(jobs)
    for what, code, twin in bad:
        jobs += [(wrap % code, ()), (wrap % twin, ())]
    with Snippets(open(VERIF + HEAD).read()) as s:
        res = s.all(jobs)
        again = [i for k, pack in enumerate(packs) if not res[k][0] for i in pack]
        single = dict(zip(again, s.all([(wrap % good[i][1], ()) for i in again]))) if again else {}
    compiled = 0
    for i, (group, code) in enumerate(good):
        ok, err = single.get(i, (True, ''))
        compiled += ok
        what = '%s: %s' % (group, code.replace(G, 'global'))
        if ok:
            ctx.ok(what, 'include/rtti', 'compiles')
        elif group in INTERNAL and ('no member named' in err or 'no type named' in err or 'no template named' in err):
            ctx.undecided(what, where(err), 'the name it uses is gone: %s' % err)
        else:
            ctx.bad(what, where(err), 'does not compile: %s' % err)
    if not compiled:
        raise Broken('no program compiles: %s' % next(iter(single.values()))[1])
    rejected = 0
    for k, (what, code, twin) in enumerate(bad):
        (ok, err), (tok, terr) = res[n + 2 * k], res[n + 2 * k + 1]
        if ok:
            ctx.bad(what, 'include/rtti', 'is accepted: %s' % code)
        elif not tok:
            ctx.undecided(what, 'include/rtti', 'its correct form does not compile either: %s: %s' % (twin, terr))
        else:
            rejected += 1
            ctx.ok(what, where(err), 'rejected: %s -- %s' % (code, err))
    ctx.counts['programs that compile'] = compiled
    ctx.counts['programs rejected'] = rejected


def where(err):
    w = err.split(': error')[0]
    return w if w.startswith('include/') and len(w) < 100 else 'include/rtti'
