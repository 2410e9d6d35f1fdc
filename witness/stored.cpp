// Values of every storage kind kept in variants; their operation tables are analysed slot by slot.
#include <rtti/metadefine.h>
#include <array>
#include <functional>
#include <string>

namespace w {

// of a type: size, alignment and number of elements of the whole object, then what its elements support
template<typename T>
void expect_stored(std::size_t size, std::size_t align, std::size_t length, bool default_, bool trivial_default,
                   bool copy, bool move, bool trivial_destroy, bool equal,
                   bool nothrow_default, bool nothrow_copy, bool nothrow_move, bool nothrow_equal, bool trivially_copyable,
                   bool class_, bool class_pointer, bool dynamic);

template<typename T, typename = void> struct has_equal: std::false_type {};
template<typename T> struct has_equal<T, std::void_t<decltype(static_cast<bool>(std::declval<T&>() == std::declval<T&>()))>>: std::true_type {};

template<typename T> constexpr bool nothrow_equal()
{
    if constexpr(has_equal<T>::value) return noexcept(std::declval<T const&>() == std::declval<T const&>()); else return false;
}
template<typename T, typename = void> struct has_info: std::false_type {};
template<typename T> struct has_info<T, std::void_t<decltype(std::declval<T const&>().classInfo())>>: std::true_type {};

template<typename T> struct count { static constexpr std::size_t value = 1; };
template<typename T, std::size_t N> struct count<T[N]> { static constexpr std::size_t value = N * count<T>::value; };

template<typename T> void spec()
{
    using E = std::remove_all_extents_t<T>;
    using P = std::remove_cv_t<std::remove_pointer_t<T>>;
    expect_stored<T>(sizeof(T), alignof(T), count<T>::value, std::is_default_constructible_v<E>, std::is_trivially_default_constructible_v<E>,
               std::is_copy_constructible_v<E>, std::is_move_constructible_v<E>, std::is_trivially_destructible_v<E>, has_equal<E>::value,
               std::is_nothrow_default_constructible_v<E>, std::is_nothrow_copy_constructible_v<E>, std::is_nothrow_move_constructible_v<E>, nothrow_equal<E>(),
               std::is_trivially_copyable_v<E>, std::is_class_v<T>, std::is_pointer_v<T> && std::is_class_v<P>, has_info<P>::value);
}

// the identifiers of a type, of references to it and of constant references to it
void expect_names(rtti::MetaType_ID, rtti::MetaType_ID, rtti::MetaType_ID, rtti::MetaType_ID);
template<typename T> void names()
{
    expect_names(rtti::metaTypeId<T>(), rtti::metaTypeId<T&>(), rtti::metaTypeId<T&&>(), rtti::metaTypeId<T const&>());
}

// kept as a copy of an lvalue, of a const lvalue, moved from a temporary; referred to
template<typename T> void copied(T &value, T const &fixed)
{
    spec<T>();
    rtti::variant a{value}, b{fixed};
}
template<typename T> void moved(T &value)
{
    spec<T>();
    rtti::variant a{std::move(value)};
}
template<typename T> void referred(T &value, T const &fixed)
{
    spec<T>(); names<T>(); names<T const>();
    rtti::variant a{std::ref(value)}, b{std::cref(fixed)};
}
template<typename T> void all(T &value, T const &fixed)
{
    copied<T>(value, fixed);
    moved<T>(value);
    referred<T>(value, fixed);
}

struct Hurls { Hurls(); Hurls(Hurls const&); Hurls(Hurls&&); ~Hurls(); bool operator==(Hurls const&) const; long a[3]; };   // no other witness has a type of this name
struct Full {
    Full(); Full(Full const&); Full(Full&&); Full& operator=(Full const&); Full& operator=(Full&&); ~Full();
    bool operator==(Full const&) const; bool operator!=(Full const&) const; bool operator<(Full const&) const; int a; int b; };
struct Nothrow {
    Nothrow() noexcept; Nothrow(Nothrow const&) noexcept; Nothrow(Nothrow&&) noexcept; ~Nothrow();
    friend bool operator==(Nothrow const&, Nothrow const&) noexcept; char c[40]; };
struct CopyOnly { CopyOnly(); CopyOnly(CopyOnly const&); ~CopyOnly(); long a; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly const&) = delete; MoveOnly(MoveOnly&&); ~MoveOnly(); void *p; };
struct MoveOnlyBig { MoveOnlyBig(); MoveOnlyBig(MoveOnlyBig const&) = delete; MoveOnlyBig(MoveOnlyBig&&); ~MoveOnlyBig(); char c[100]; };
struct Plain { int a; double b; };
struct Wide { alignas(64) char c[64]; Wide(); Wide(Wide const&); Wide(Wide&&); ~Wide(); bool operator==(Wide const&) const; };
struct alignas(16) Aligned16 { Aligned16(); Aligned16(Aligned16 const&); Aligned16(Aligned16&&); ~Aligned16(); char c[16]; };
struct alignas(16) Small16 { char c; char d[15]; };
struct Size16 { void *a; void *b; Size16(); Size16(Size16 const&); ~Size16(); bool operator==(Size16 const&) const; };
struct Size17 { char c[17]; };
struct Size24 { void *a, *b, *c; Size24(); Size24(Size24 const&); Size24(Size24&&); ~Size24(); bool operator==(Size24 const&) const; };
struct Big { char c[1000]; Big(); Big(Big const&); Big(Big&&) noexcept; ~Big(); };
struct Overload { Overload(); Overload(Overload const&); ~Overload(); Overload* operator&(); int operator,(int) const; bool operator==(Overload const&) const; int a; };
struct OverloadBig { OverloadBig(); OverloadBig(OverloadBig const&); ~OverloadBig(); OverloadBig* operator&(); bool operator==(OverloadBig const&) const; char c[64]; };
struct Base { Base(); virtual ~Base(); Base(Base const&); virtual int f() const; };
struct Derived: Base { Derived(); Derived(Derived const&); ~Derived() override; bool operator==(Derived const&) const; };
struct Info { Info(); Info(Info const&); virtual ~Info(); DECLARE_CLASSINFO };
struct InfoDerived: Plain, Info { InfoDerived(); InfoDerived(InfoDerived const&); char c[80]; DECLARE_CLASSINFO };
struct InfoInherit: Info { InfoInherit(); InfoInherit(InfoInherit const&); };
struct Abstract { virtual ~Abstract(); virtual void f() = 0; };
// small and moved without exceptions: kept in the variant itself
struct Calm { Calm(); Calm(Calm const&); Calm(Calm&&) noexcept; ~Calm(); bool operator==(Calm const&) const; int a; };
struct CalmMoveOnly { CalmMoveOnly(); CalmMoveOnly(CalmMoveOnly const&) = delete; CalmMoveOnly(CalmMoveOnly&&) noexcept; ~CalmMoveOnly(); bool operator==(CalmMoveOnly const&) const; int a; };
struct CalmOverload { CalmOverload(); CalmOverload(CalmOverload const&); CalmOverload(CalmOverload&&) noexcept; ~CalmOverload(); CalmOverload* operator&(); int operator,(int) const; bool operator==(CalmOverload const&) const; int a; };
struct CalmInfo { CalmInfo(); CalmInfo(CalmInfo const&); CalmInfo(CalmInfo&&) noexcept; virtual ~CalmInfo(); DECLARE_CLASSINFO };
struct CalmDerived: CalmInfo { CalmDerived(); CalmDerived(CalmDerived const&); CalmDerived(CalmDerived&&) noexcept; };
struct CalmAll { CalmAll() noexcept; CalmAll(CalmAll const&) noexcept; CalmAll(CalmAll&&) noexcept; ~CalmAll(); void *a, *b; };
struct Incomplete;
enum class Color { Red, Green };

void run(std::string &s, std::string const &cs)
{
    Full full; all<Full>(full, full);
    Nothrow nothrow; all<Nothrow>(nothrow, nothrow);
    CopyOnly copyonly; all<CopyOnly>(copyonly, copyonly);
    MoveOnly moveonly; moved<MoveOnly>(moveonly); referred<MoveOnly>(moveonly, moveonly);
    MoveOnlyBig moveonlybig; moved<MoveOnlyBig>(moveonlybig); referred<MoveOnlyBig>(moveonlybig, moveonlybig);
    Plain plain; all<Plain>(plain, plain);
    Wide wide; all<Wide>(wide, wide);
    Aligned16 aligned; all<Aligned16>(aligned, aligned);
    Small16 small; all<Small16>(small, small);
    Size16 s16; all<Size16>(s16, s16);
    Size17 s17; all<Size17>(s17, s17);
    Size24 s24; all<Size24>(s24, s24);
    Big big; all<Big>(big, big);
    Overload over; all<Overload>(over, over);
    OverloadBig overbig; all<OverloadBig>(overbig, overbig);
    Base base; all<Base>(base, base);
    Derived derived; all<Derived>(derived, derived);
    Info info; all<Info>(info, info);
    InfoDerived infoderived; all<InfoDerived>(infoderived, infoderived);
    InfoInherit infoinherit; all<InfoInherit>(infoinherit, infoinherit);
    InfoInherit *pii{}; all<InfoInherit*>(pii, pii);
    Calm calm; all<Calm>(calm, calm);
    CalmMoveOnly calmmoveonly; moved<CalmMoveOnly>(calmmoveonly); referred<CalmMoveOnly>(calmmoveonly, calmmoveonly);
    CalmOverload calmover; all<CalmOverload>(calmover, calmover);
    CalmInfo calminfo; all<CalmInfo>(calminfo, calminfo);
    CalmDerived calmderived; all<CalmDerived>(calmderived, calmderived);
    CalmAll calmall; all<CalmAll>(calmall, calmall);
    Color color{}; all<Color>(color, color);
    int i{}; all<int>(i, i);
    bool b{}; all<bool>(b, b);
    double d{}; all<double>(d, d);
    long double ld{}; all<long double>(ld, ld);
    int *pi{}; all<int*>(pi, pi);
    int const *pci{}; all<int const*>(pci, pci);
    void *pv{}; all<void*>(pv, pv);
    Full *pf{}; all<Full*>(pf, pf);
    Full const *pcf{}; all<Full const*>(pcf, pcf);
    Info *pn{}; all<Info*>(pn, pn);
    InfoDerived const *pcn{}; all<InfoDerived const*>(pcn, pcn);
    Base *pb{}; all<Base*>(pb, pb);
    Abstract *pa{}; all<Abstract*>(pa, pa);
    int Full::*pm{}; all<int Full::*>(pm, pm);
    int (*fn)(int){}; all<int(*)(int)>(fn, fn);
    Full af[4]; all<Full[4]>(af, af);
    Nothrow an[2]; all<Nothrow[2]>(an, an);
    int ai[3]; all<int[3]>(ai, ai);
    char ac[8]; all<char[8]>(ac, ac);
    int am[2][2]; all<int[2][2]>(am, am);
    Full afm[2][3]; all<Full[2][3]>(afm, afm);
    Wide aw[2]; all<Wide[2]>(aw, aw);
    Info anf[2]; all<Info[2]>(anf, anf);
    Full *apf[2]; all<Full*[2]>(apf, apf);
    Big ab[2]; all<Big[2]>(ab, ab);
    Hurls hurls; all<Hurls>(hurls, hurls);
    Hurls ah[2]; all<Hurls[2]>(ah, ah);
    (void)s; (void)cs;
}

void empty(rtti::variant const &other)
{
    rtti::variant nothing;
    rtti::variant copy{other};
    (void)nothing.eq(copy);
}

// what becomes of a value handed to a variant: kept as a copy of an lvalue or of a constant temporary, moved from other temporaries
template<typename T> struct Given
{
    using NoRef = std::remove_reference_t<T>;
    using Kept = NoRef;
    static constexpr bool moved = !std::is_reference_v<T> && !std::is_const_v<NoRef>;
};
template<typename T, typename K> void expect(bool moved);
template<typename T> void given(T &&value)
{
    expect<T, typename Given<T>::Kept>(Given<T>::moved);
    rtti::variant made{std::forward<T>(value)};
    made = std::forward<T>(value);
}
template<typename T> void give(T &value, T const &fixed)
{
    given<T&>(value);
    given<T const&>(fixed);
    given<T>(std::move(value));
    given<T const>(std::move(fixed));
}
void histories(rtti::variant &a, rtti::variant &b)
{
    Full full; give<Full>(full, full);
    Calm calm; give<Calm>(calm, calm);
    CalmMoveOnly calmmoveonly; given<CalmMoveOnly>(std::move(calmmoveonly));
    CalmAll calmall; give<CalmAll>(calmall, calmall);
    Big big; give<Big>(big, big);
    CopyOnly copyonly; give<CopyOnly>(copyonly, copyonly);
    MoveOnly moveonly; given<MoveOnly>(std::move(moveonly));
    int i{}; give<int>(i, i);
    Full *pf{}; give<Full*>(pf, pf);
    int ai[3]; give<int[3]>(ai, ai);
    Full af[2]; give<Full[2]>(af, af);
    std::reference_wrapper<Full> rf{full}; give<std::reference_wrapper<Full>>(rf, rf);
    using std::swap;
    swap(a, b);
}

} // namespace w
