// Inputs of the type-level computations (rule C28).
#include <rtti/typelist.h>
#include <rtti/function_traits.h>
#include <rtti/misc_traits.h>
#include <rtti/sfinae.h>
#include <rtti/tagged_id.h>

#include <array>
#include <memory>
#include <string>
#include <type_traits>

namespace w {

struct A;
struct B;
struct C;
struct K { int v; };
union U { int a; float b; };
enum class E { E0 };
template<typename T> using Arr = T[3];
template<typename T> using Arr2 = T[2];
template<typename X, typename Y> constexpr bool same = std::is_same_v<X, Y>;
template<typename ...T> using L = mpl::type_list<T...>;
template<typename T> struct IsA: std::bool_constant<std::is_same_v<T, A>> {};
template<typename T> struct Never: std::false_type {};
template<typename T, typename V> struct Left: mpl::identity<L<T, V>> {};       // remembers the order of application
struct MoveOnly { MoveOnly(MoveOnly &&); };
struct CopyOnly { CopyOnly(CopyOnly const&); };
struct Both { Both(Both const&); Both(Both &&); };
struct Pinned { Pinned(Pinned const&) = delete; };
struct Eq { bool operator==(Eq const&) const; };
struct NoexceptEq { bool operator==(NoexceptEq const&) const noexcept; };
struct NoEq {};
struct FromInt { FromInt(int); };
struct FromIntExplicit { explicit FromIntExplicit(int); };
struct FromTwo { FromTwo(int, int); };
struct Target { Target(K const&); };
template<typename ...> struct Types {};
template<auto ...> struct Values {};
template<typename T, auto N> struct Mixed {};
struct HasF { int f(int) const; using inner = int; };
struct HasG { int g(int); };
struct HasFOverloaded { int f(int) const; int f(double); };
enum class Flags: unsigned { None = 0, F1 = 1, F2 = 2, F4 = 4 };
HAS_METHOD(f)
HAS_TYPE(inner)
CAN_CALL_METHOD(f)
struct tag1;
struct tag2;
using Id1 = mpl::ID<tag1, unsigned, 0u>;
using Id2 = mpl::ID<tag2, unsigned, 7u>;

} // namespace w

namespace rtti { BITMASK_ENUM(w::Flags) }

using namespace w;
