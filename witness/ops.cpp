// Types whose low-level operations (rtti::internal::type_function_table) are analysed slot by slot.
#include <rtti/metatype.h>

namespace w {

// size, alignment and number of elements of the whole object, then what its elements support
void expect_ops(std::size_t size, std::size_t align, std::size_t length, bool default_, bool trivial_default,
                bool copy, bool move, bool trivial_destroy, bool equal,
                bool nothrow_default, bool nothrow_copy, bool nothrow_move, bool nothrow_equal, bool trivially_copyable);

template<typename T> constexpr bool nothrow_equal();
template<typename T, typename = void> struct has_equal: std::false_type {};
template<typename T> struct has_equal<T, std::void_t<decltype(static_cast<bool>(std::declval<T&>() == std::declval<T&>()))>>: std::true_type {};

template<typename T> constexpr bool nothrow_equal()
{
    if constexpr(has_equal<T>::value) return noexcept(std::declval<T const&>() == std::declval<T const&>()); else return false;
}

template<typename T> struct count { static constexpr std::size_t value = 1; };
template<typename T, std::size_t N> struct count<T[N]> { static constexpr std::size_t value = N * count<T>::value; };

template<typename T> void ops()
{
    using E = std::remove_all_extents_t<T>;
    rtti::metaTypeId<T>();
    expect_ops(sizeof(T), alignof(T), count<T>::value, std::is_default_constructible_v<E>, std::is_trivially_default_constructible_v<E>,
               std::is_copy_constructible_v<E>, std::is_move_constructible_v<E>, std::is_trivially_destructible_v<E>, has_equal<E>::value,
               std::is_nothrow_default_constructible_v<E>, std::is_nothrow_copy_constructible_v<E>, std::is_nothrow_move_constructible_v<E>, nothrow_equal<E>(),
               std::is_trivially_copyable_v<E>);
}

struct Full {
    Full(); Full(Full const&); Full(Full&&); Full& operator=(Full const&); Full& operator=(Full&&); ~Full();
    bool operator==(Full const&) const; bool operator!=(Full const&) const; bool operator<(Full const&) const; int a; int b; };
struct Nothrow {
    Nothrow() noexcept; Nothrow(Nothrow const&) noexcept; Nothrow(Nothrow&&) noexcept; ~Nothrow();
    friend bool operator==(Nothrow const&, Nothrow const&) noexcept; char c[40]; };
struct CopyOnly { CopyOnly(); CopyOnly(CopyOnly const&); ~CopyOnly(); long a; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly const&) = delete; MoveOnly(MoveOnly&&); ~MoveOnly(); void *p; };
struct NoMove { NoMove(); NoMove(NoMove const&); NoMove(NoMove&&) = delete; ~NoMove(); void *p; };
struct Fixed { Fixed(); Fixed(Fixed const&) = delete; Fixed& operator=(Fixed const&) = delete; ~Fixed(); int a; };
struct NoDefault { NoDefault(int); NoDefault(NoDefault const&); NoDefault(NoDefault&&); ~NoDefault(); int a; };
struct Plain { int a; double b; };
struct Wide { alignas(64) char c[64]; Wide(); Wide(Wide const&); Wide(Wide&&); ~Wide(); bool operator==(Wide const&) const; };
struct alignas(32) WidePlain { char c[32]; };
struct Big { char c[1000]; Big(); Big(Big const&); Big(Big&&) noexcept; ~Big(); };
struct TrivialCopy { TrivialCopy(); int a; };
struct DtorOnly { ~DtorOnly(); };
struct Overload { Overload(); Overload(Overload const&); ~Overload(); Overload* operator&(); int operator,(int) const; bool operator==(Overload const&) const; int a; };
struct CopyExplicit { CopyExplicit(); explicit CopyExplicit(int); CopyExplicit(CopyExplicit const&); ~CopyExplicit(); };
struct Base { Base(); virtual ~Base(); Base(Base const&); virtual int f() const; };
struct Derived: Base { Derived(); Derived(Derived const&); ~Derived() override; bool operator==(Derived const&) const; };
struct Abstract { virtual ~Abstract(); virtual void f() = 0; protected: Abstract(); Abstract(Abstract const&); };
struct Greedy { Greedy(); Greedy(Greedy const&); Greedy(Greedy&&); template<typename T> Greedy(T&&); ~Greedy(); };
enum class Color { Red, Green };
enum Old { A, B };

void run()
{
    ops<Full>(); ops<Nothrow>(); ops<CopyOnly>(); ops<MoveOnly>(); ops<NoMove>(); ops<Fixed>(); ops<NoDefault>(); ops<Plain>();
    ops<Wide>(); ops<WidePlain>(); ops<Big>(); ops<TrivialCopy>(); ops<DtorOnly>(); ops<Overload>(); ops<CopyExplicit>();
    ops<Base>(); ops<Derived>(); ops<Color>(); ops<Old>(); ops<Greedy>();
    ops<int>(); ops<bool>(); ops<char>(); ops<double>(); ops<long double>(); ops<int*>(); ops<void*>(); ops<Full*>(); ops<int(*)(int)>();
    ops<int Full::*>(); ops<unsigned long long>(); ops<float>();
    ops<Full[4]>(); ops<Full[2][3]>(); ops<Nothrow[2]>(); ops<CopyOnly[2]>(); ops<MoveOnly[3]>(); ops<Fixed[2]>(); ops<NoDefault[2]>();
    ops<Plain[5]>(); ops<Wide[2]>(); ops<Wide[2][2][2]>(); ops<WidePlain[3]>(); ops<int[3]>(); ops<int[2][2]>(); ops<char[16]>(); ops<Full*[2]>();
 ops<Color[3]>(); ops<Overload[2]>(); ops<Big[2]>(); ops<DtorOnly[3]>(); ops<NoMove[2]>(); ops<Derived[1]>();
}

} // namespace w
