// Types whose descriptors are compared with independently computed traits.
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <string>
#include <memory>
#include <vector>
#include <functional>

namespace w {

void expect(std::size_t size, std::size_t arity, std::size_t const_mask, std::uint32_t flags);
template<typename D> void expect_decay() {}
void expect_predicates(unsigned bits, unsigned care);

// own traits, written from the C++ rules
template<typename T> struct depth { static constexpr std::size_t value = 0; };
template<typename T> struct depth<T*> { static constexpr std::size_t value = 1 + depth<T>::value; };
template<typename T> struct depth<T* const> { static constexpr std::size_t value = 1 + depth<T>::value; };
template<typename T> struct depth<T* volatile> { static constexpr std::size_t value = 1 + depth<T>::value; };
template<typename T> struct depth<T* const volatile> { static constexpr std::size_t value = 1 + depth<T>::value; };

template<typename T> constexpr std::size_t mask()
{
    std::size_t result = std::is_const_v<T> ? (std::size_t{1} << depth<T>::value) : 0;
    if constexpr(std::is_pointer_v<T>)
        result |= mask<std::remove_pointer_t<T>>();
    return result;
}

template<typename T> struct strip { using type = std::remove_cv_t<T>; };
template<typename T> struct strip<T*> { using type = typename strip<T>::type*; };
template<typename T> struct strip<T* const> { using type = typename strip<T>::type*; };
template<typename T> struct strip<T* volatile> { using type = typename strip<T>::type*; };
template<typename T> struct strip<T* const volatile> { using type = typename strip<T>::type*; };
template<typename T, std::size_t N> struct strip<T[N]> { using type = typename strip<T>::type[N]; };
template<typename T, std::size_t N> struct strip<T const[N]> { using type = typename strip<T>::type[N]; };

template<typename T> struct root { using type = std::remove_cv_t<T>; };
template<typename T> struct root<T&> { using type = typename root<T>::type; };
template<typename T> struct root<T&&> { using type = typename root<T>::type; };
template<typename T> struct root<T*> { using type = typename root<T>::type; };
template<typename T> struct root<T* const> { using type = typename root<T>::type; };
template<typename T> struct root<T* volatile> { using type = typename root<T>::type; };
template<typename T> struct root<T* const volatile> { using type = typename root<T>::type; };
template<typename T, std::size_t N> struct root<T[N]> { using type = typename root<T>::type; };
template<typename T, std::size_t N> struct root<T const[N]> { using type = typename root<T>::type; };

template<typename T, typename = void> struct comparable: std::false_type {};
template<typename T> struct comparable<T, std::void_t<decltype(std::declval<T>() == std::declval<T>())>>: std::true_type {};

template<typename T> constexpr std::size_t size()
{
    if constexpr(std::is_void_v<T>) return 0; else return sizeof(T);
}

template<typename T> constexpr std::uint32_t bits()
{
    using N = std::remove_reference_t<T>;
    using P = std::remove_pointer_t<N>;
    using B = typename root<T>::type;
    std::uint32_t r = 0;
    auto set = [&r](rtti::TypeFlags bit, bool on) { if (on) r |= static_cast<std::uint32_t>(bit); };
    using F = rtti::TypeFlags;
    set(F::Const, std::is_const_v<N>);
    set(F::Pointer, std::is_pointer_v<N>);
    set(F::MemberPointer, std::is_member_pointer_v<N>);
    set(F::LvalueReference, std::is_lvalue_reference_v<T>);
    set(F::RvalueReference, std::is_rvalue_reference_v<T>);
    set(F::Array, std::is_array_v<P>);
    set(F::Void, std::is_void_v<B>);
    set(F::Integral, std::is_integral_v<B>);
    set(F::FloatPoint, std::is_floating_point_v<B>);
    set(F::Enum, std::is_enum_v<B>);
    set(F::Function, std::is_function_v<B>);
    set(F::Union, std::is_union_v<B>);
    set(F::Class, std::is_class_v<B>);
    set(F::StandardLayout, std::is_standard_layout_v<B>);
    set(F::Trivial, std::is_trivial_v<B>);
    set(F::Abstract, std::is_abstract_v<B>);
    set(F::Polymorphic, std::is_polymorphic_v<B>);
    set(F::DefaultConstructible, std::is_default_constructible_v<B>);
    set(F::CopyConstructible, std::is_copy_constructible_v<B>);
    set(F::CopyAssignable, std::is_copy_assignable_v<B>);
    set(F::MoveConstructible, std::is_move_constructible_v<B>);
    set(F::MoveAssignable, std::is_move_assignable_v<B>);
    set(F::Destructible, std::is_destructible_v<B>);
    set(F::EQ_Comparable, comparable<std::remove_all_extents_t<N>>::value);
    return r;
}

// isConst, isLvalueReference, isRvalueReference, isReference, isClass, isPointer, isVoidPtr, isClassPtr, isFunctionPtr, isArray
template<typename T> constexpr unsigned predicates()
{
    using N = std::remove_reference_t<T>;
    using P = std::remove_pointer_t<N>;
    constexpr bool ptr = std::is_pointer_v<N>;
    return unsigned(std::is_const_v<N>) | unsigned(std::is_lvalue_reference_v<T>) << 1 | unsigned(std::is_rvalue_reference_v<T>) << 2 |
           unsigned(std::is_reference_v<T>) << 3 | unsigned(std::is_class_v<N>) << 4 | unsigned(ptr) << 5 |
           unsigned(ptr && std::is_void_v<P>) << 6 | unsigned(ptr && std::is_class_v<P>) << 7 |
           unsigned(ptr && std::is_function_v<P>) << 8 | unsigned(std::is_array_v<N>) << 9;
}

// predicates whose meaning for T is beyond doubt
template<typename T> constexpr unsigned care()
{
    using N = std::remove_reference_t<T>;
    unsigned r = 0x3ff;
    if (std::is_array_v<N>) r &= ~(1u << 4);                                // class of the elements
    if (depth<N>::value > 1) r &= ~(1u << 6);                               // pointers to void pointers
    if (depth<N>::value == 1 && std::is_array_v<std::remove_pointer_t<N>>) r &= ~(7u << 6);
    return r;
}

template<typename T> void probe()
{
    rtti::metaTypeId<T>();
    expect(std::integral_constant<std::size_t, size<T>()>::value,
           std::integral_constant<std::size_t, depth<std::remove_reference_t<T>>::value>::value,
           std::integral_constant<std::size_t, mask<std::remove_reference_t<T>>()>::value,
           std::integral_constant<std::uint32_t, bits<T>()>::value);
    expect_decay<typename strip<std::decay_t<T>>::type>();
    expect_predicates(std::integral_constant<unsigned, predicates<T>()>::value, std::integral_constant<unsigned, care<T>()>::value);
}

struct Plain { int a; };
struct Comparable { int a; bool operator==(Comparable const &) const; };
struct Abstract { virtual ~Abstract(); virtual void f() = 0; };
struct Poly { virtual ~Poly(); };
struct Derived: Poly, Plain { double d; };
struct MoveOnly { MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); std::unique_ptr<int> p; };
struct CopyOnly { CopyOnly(CopyOnly const&); CopyOnly& operator=(CopyOnly const&); };
struct Fixed { Fixed(int); Fixed(Fixed const&) = delete; Fixed& operator=(Fixed const&) = delete; };
struct Undying { Undying(); private: ~Undying(); };
struct NonAssignable { int const c; };
struct alignas(64) Wide { char c[64]; };
struct Big { char c[128]; };
struct Empty {};
class Mixed { int a; public: int b; };
union Either { int i; float f; };
enum Old { old1 };
enum class Scoped: char { one };

template<typename... T> void probes() { (probe<T>(), ...); }

void run()
{
    probes<bool, char, signed char, unsigned char, short, int, unsigned, long, unsigned long long, wchar_t, char16_t,
           float, double, long double, Old, Scoped, Either, std::nullptr_t>();
    probes<Plain, Comparable, Poly, Derived, MoveOnly, CopyOnly, Fixed, NonAssignable, Wide, Big, Empty, Mixed, std::string,
           std::string_view, std::vector<int>, std::unique_ptr<int>, std::shared_ptr<Plain>, std::function<void()>>();
    probes<int const, Plain const, std::string const, int&, int const&, int&&, int const&&, std::string&, std::string const&,
           std::string&&, std::string const&&, Plain const&, MoveOnly&&, Abstract&, Abstract const&, Wide&, Either&, Scoped const&>();
    probes<int*, int const*, int* const, int const* const, int**, int* const*, int const**, int const* const*, int const* const* const,
           int***, int* const**, void*, void const*, void**, Plain*, Plain const*, Plain* const, Plain const* const&, Plain**, Abstract*,
           Abstract const*, char const*, char const* const, std::string*, Either*, Scoped*>();
    probes<int*&, int* const&, int const*&, int const* const&, int*&&, int**&, int* const*&, Plain*&, Plain const*&, Plain* const&,
           void*&, void const* const&>();
    probes<int[3], int const[3], int[2][5], char[8], std::string[4], std::string const[4], Plain[2], int*[3], int const*[3], int* const[3],
           int(&)[3], int const(&)[3], int(&&)[3], int(*)[3], int const(*)[3], std::string(&)[4], std::string const(&)[4], Comparable[7], Plain[2][3], Plain const(&)[2]>();
    probes<int(*)(double), void(*)(), void(*const)(), void(**)(), int(*&)(double), void(Plain::*)(), int(Plain::*)() const, int Plain::*,
           int const Plain::*, int Plain::* const&>();
    probes<int volatile, int const volatile, int volatile*, int* volatile, Plain volatile&>();
    probes<rtti::MetaType, rtti::MetaType_ID, rtti::TypeFlags, rtti::variant>();
}

} // namespace w
