// Inheritance: plain, second, virtual and repeated bases, and casts of instances.
#include <rtti/metadefine.h>

namespace w {

struct A { int a; DECLARE_CLASSINFO };
struct B { virtual ~B(); int b; DECLARE_CLASSINFO };
struct V { int v; DECLARE_CLASSINFO };
struct M1: A, virtual V { int m1; DECLARE_CLASSINFO };
struct M2: virtual V, B { int m2; DECLARE_CLASSINFO };
struct D: M1, M2 { int d; DECLARE_CLASSINFO };
struct Plain { int x; };

template<typename T, typename... Bs> void expect_bases(rtti::meta_define<T, void> d) { d.template _base<Bs...>(); }
template<typename To, typename From> void expect_cast(From *p, From const *pc, From &r, From const &rc)
{
    To *x1 = rtti::meta_cast<To>(p);
    To const *x2 = rtti::meta_cast<To>(pc);
    To &x3 = rtti::meta_cast<To>(r);
    To const &x4 = rtti::meta_cast<To>(rc);
    (void)x1; (void)x2; (void)x3; (void)x4;
}

void run(rtti::meta_define<M1, void> m1, rtti::meta_define<M2, void> m2, rtti::meta_define<D, void> d)
{
    expect_bases<M1, A, V>(m1);
    expect_bases<M2, V, B>(m2);
    expect_bases<D, M1, M2>(d);
    expect_cast<A, D>(nullptr, nullptr, *new D, *new D);
    expect_cast<D, B>(nullptr, nullptr, *new D, *new D);
    expect_cast<M1, M2>(nullptr, nullptr, *new D, *new D);
    expect_cast<Plain, Plain>(nullptr, nullptr, *new Plain, *new Plain);
    expect_cast<A, Plain>(nullptr, nullptr, *new Plain, *new Plain);
}

} // namespace w
