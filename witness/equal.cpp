// Comparison of variants with values, with and without conversion.
#include <rtti/metadefine.h>
#include <functional>
#include <string>

namespace w {

struct Full { Full(); Full(Full const&); Full(Full&&) noexcept; ~Full(); bool operator==(Full const&) const; int a; };
struct Unequal { int a; };
struct MoveOnly { MoveOnly(MoveOnly const&) = delete; MoveOnly(MoveOnly&&) noexcept; ~MoveOnly(); bool operator==(MoveOnly const&) const; };
struct Overload { Overload* operator&() const; bool operator==(Overload const&) const; int a; };
enum class Color { Red };

template<typename T> void compare(rtti::variant const &v, T const &value)
{
    (void)(v == value);
    (void)(v != value);
    (void)v.eq(value);
    (void)v.neq(value);
}

void run(rtti::variant const &v, rtti::variant const &other, Full const &full, Unequal const &unequal, MoveOnly const &moveonly, Overload const &overload, std::string const &s,
         int const (&ai)[2], Full const (&af)[3], Full *pf, Full const *pcf)
{
    compare<int>(v, 1);
    compare<double>(v, 1.0);
    compare<Color>(v, Color::Red);
    compare<Full>(v, full);
    compare<Unequal>(v, unequal);
    compare<MoveOnly>(v, moveonly);
    compare<Overload>(v, overload);
    compare<std::string>(v, s);
    compare<Full*>(v, pf);
    compare<Full const*>(v, pcf);
    compare<int[2]>(v, ai);
    compare<Full[3]>(v, af);
    compare<char[4]>(v, "abc");
    compare<rtti::variant>(v, other);
}

} // namespace w
