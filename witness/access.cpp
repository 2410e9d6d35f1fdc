// Typed access to variants: every accessor for every kind of type, and the constness of what each of them gives.
#include <rtti/metadefine.h>
#include <string>

namespace w {

void check(bool holds, char const *what);

enum class E { one, two };
struct A { int a; virtual ~A(); };
struct B: A { int b; };
struct P { int p; };            // plain, unrelated
struct M { M(M&&) noexcept; M(M const&) = delete; int m; };

template<typename...> using void_type = void;
template<typename V, typename T, typename = void> struct has_rref: std::false_type {};
template<typename V, typename T> struct has_rref<V, T, void_type<decltype(std::declval<V>().template rref<T>())>>: std::true_type {};
template<typename V, typename T, typename = void> struct has_set: std::false_type {};
template<typename V, typename T> struct has_set<V, T, void_type<decltype(std::declval<V>().set_property("", std::declval<T>()))>>: std::true_type {};
template<typename V, typename T, typename = void> struct has_assign: std::false_type {};
template<typename V, typename T> struct has_assign<V, T, void_type<decltype(std::declval<V>() = std::declval<T>())>>: std::true_type {};
template<typename V, typename = void> struct has_clear: std::false_type {};
template<typename V> struct has_clear<V, void_type<decltype(std::declval<V>().clear())>>: std::true_type {};
template<typename V, typename T, typename = void> struct has_convert: std::false_type {};
template<typename V, typename T> struct has_convert<V, T, void_type<decltype(std::declval<V>().template convert<T>())>>: std::true_type {};
template<typename V, typename T, typename = void> struct has_try: std::false_type {};
template<typename V, typename T> struct has_try<V, T, void_type<decltype(std::declval<V>().template tryConvert<T>())>>: std::true_type {};
template<typename V, typename T, typename = void> struct has_swap: std::false_type {};
template<typename V, typename T> struct has_swap<V, T, void_type<decltype(swap(std::declval<V>(), std::declval<T>()))>>: std::true_type {};

using V = rtti::variant;

template<typename X> constexpr bool const_view = std::is_lvalue_reference_v<X> && std::is_const_v<std::remove_reference_t<X>>;
template<typename X> constexpr bool const_pointee = std::is_pointer_v<X> && std::is_const_v<std::remove_pointer_t<X>>;

template<typename T> void constness()
{
    check(const_view<decltype(std::declval<V const&>().template ref<T>())>, "ref of a const variant is const");
    check(const_view<decltype(std::declval<V const&>().template cref<T>())>, "cref of a const variant is const");
    check(const_view<decltype(std::declval<V&>().template cref<T>())>, "cref of a variant is const");
    check(const_view<decltype(std::declval<V&&>().template ref<T>())>, "ref of a temporary variant is const");
    check(const_pointee<decltype(std::declval<V const&>().template data<T>())>, "data of a const variant points to const");
    check(!has_rref<V&, T>::value, "rref does not apply to an lvalue variant");
    check(!has_rref<V const&, T>::value, "rref does not apply to a const variant");
    check(!has_rref<V const&&, T>::value, "rref does not apply to a const temporary");
}

void members()
{
    check(!has_set<V const&, int>::value, "set_property does not apply to a const variant");
    check(!has_set<V const&&, int>::value, "set_property does not apply to a const temporary");
    check(!has_assign<V const&, int>::value, "a const variant is not assigned a value");
    check(!has_assign<V const&, V const&>::value, "a const variant is not assigned another one");
    check(!has_assign<V const&, V&&>::value, "a const variant is not move assigned");
    check(!has_clear<V const&>::value, "a const variant is not cleared");
    check(!has_convert<V const&, int>::value, "a const variant is not converted");
    check(!has_try<V const&, int>::value, "a const variant is not tried to convert");
    check(!has_swap<V const&, V&>::value, "a const variant is not swapped");
    check(!has_swap<V&, V const&>::value, "a const variant is not swapped");
}

template<typename T> void refs(V &v, V const &c, V &&r)
{
    v.ref<T>();
    c.ref<T>();
    std::move(r).ref<T>();
    std::move(r).rref<T>();
    v.cref<T>();
    c.cref<T>();
    v.data<T>();
    c.data<T>();
    v.is<T>();
    c.is<T>();
    v.is<T&>();
    c.is<T const&>();
}

template<typename T> void values(V &v, V const &c)
{
    v.to<T>();
    c.to<T>();
    v.canConvert<T>();
    c.canConvert<T>();
    v.convert<T>();
    v.tryConvert<T>();
}

template<typename T> void all(V &v, V const &c, V &&r)
{
    constness<T>();
    refs<T>(v, c, std::move(r));
    values<T>(v, c);
}

template<typename T> void arrays(V &v, V const &c, V &&r)
{
    constness<T>();
    refs<T>(v, c, std::move(r));
}

void use(V &v, V const &c, V &&r)
{
    all<int>(v, c, std::move(r));
    all<double>(v, c, std::move(r));
    all<E>(v, c, std::move(r));
    all<std::string>(v, c, std::move(r));
    all<A>(v, c, std::move(r));
    all<B>(v, c, std::move(r));
    all<P>(v, c, std::move(r));
    all<A*>(v, c, std::move(r));
    all<A const*>(v, c, std::move(r));
    all<B*>(v, c, std::move(r));
    all<int*>(v, c, std::move(r));
    all<int const*>(v, c, std::move(r));
    all<int**>(v, c, std::move(r));
    arrays<M>(v, c, std::move(r));
    arrays<int[3]>(v, c, std::move(r));
    arrays<A[2]>(v, c, std::move(r));
    arrays<int const>(v, c, std::move(r));
    members();
    v.is<void>();
    c.is<void>();
}

} // namespace w
