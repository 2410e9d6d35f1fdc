// Arguments of calls: built from every value category, read as every kind of parameter.
#include <rtti/metadefine.h>
#include <string>
#include <vector>
#include <memory>
#include <utility>

namespace w {

void check(bool holds, char const *what);

struct A { A(); A(A const&); A(A&&) noexcept; virtual ~A(); int a; };
struct C { C(C const&); int c; };                        // copied only
enum class E { one, two };
using F = int (*)(int);

template<typename T> void give(T &&t);

template<typename T> void values(rtti::argument const &a)
{
    give<T>(a.value<T>());
    give<T const>(a.value<T const>());
    give<T const&>(a.value<T const&>());
    give<T&>(a.value<T&>());
}
template<typename T> void all(rtti::argument const &a)
{
    values<T>(a);
    give<T>(a.value<T&&>());
}

void readings(rtti::argument const &a)
{
    all<int>(a);
    all<double>(a);
    all<E>(a);
    all<A>(a);
    values<C>(a);
    all<A*>(a);
    all<A const*>(a);
    all<F>(a);
    all<std::string>(a);
    all<std::vector<int>>(a);
    all<std::shared_ptr<A>>(a);
}

template<typename T> void build(T &lvalue, T const &constant)
{
    rtti::argument a{lvalue};
    rtti::argument b{constant};
    rtti::argument c{std::move(lvalue)};
    rtti::argument d{std::move(constant)};
    rtti::argument e{std::move(a)};
}

template<typename T> void arrays(T (&lvalue)[3], T const (&constant)[3])
{
    rtti::argument a{lvalue};
    rtti::argument b{constant};
}

template void build<int>(int&, int const&);
template void build<E>(E&, E const&);
template void build<A>(A&, A const&);
template void build<A*>(A*&, A* const&);
template void build<F>(F&, F const&);
template void build<std::string>(std::string&, std::string const&);
template void build<std::vector<int>>(std::vector<int>&, std::vector<int> const&);
template void build<std::unique_ptr<A>>(std::unique_ptr<A>&, std::unique_ptr<A> const&);
template void build<rtti::variant>(rtti::variant&, rtti::variant const&);
template void arrays<int>(int (&)[3], int const (&)[3]);
template void arrays<A>(A (&)[3], A const (&)[3]);

void traits()
{
    using R = rtti::argument;
    check(!std::is_copy_constructible_v<R>, "an argument is not copied");
    check(!std::is_copy_assignable_v<R>, "an argument is not assigned");
    check(std::is_nothrow_move_constructible_v<R>, "an argument is handed on without failing");
    check(std::is_nothrow_default_constructible_v<R>, "an empty argument is made without failing");
}

} // namespace w
