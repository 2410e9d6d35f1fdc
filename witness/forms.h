// Targets of the registration and access forms (rule C26).
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/metaconstructor.h>
#include <rtti/metanamespace.h>
#include <rtti/variant.h>
#include <rtti/metaerror.h>

#include <array>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace w {

enum class Color { Red, Green };
enum Plain { P0, P1 };

struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly &&); MoveOnly& operator=(MoveOnly &&); ~MoveOnly(); int v; };
struct CopyOnly { CopyOnly(); CopyOnly(CopyOnly const&); CopyOnly& operator=(CopyOnly const&); ~CopyOnly(); int v; };
struct Moving { Moving(); Moving(Moving const&); Moving(Moving &&) noexcept; ~Moving(); int v; };
struct Pinned { Pinned(); Pinned(Pinned const&) = delete; Pinned& operator=(Pinned const&) = delete; void f(); int v; };
struct NoDefault { explicit NoDefault(int); int v; };
struct NoCompare { int v; };
struct Compare { int v; bool operator==(Compare const&) const; };
struct Trivial { int a, b; };
struct Big { char data[64]; };
struct alignas(64) Aligned { char data[64]; };
struct Throwing { Throwing(Throwing const&) noexcept(false); Throwing(Throwing &&) noexcept(false); };
struct ConstOnly { int v; void f() const; };
struct Immobile { Immobile(int); Immobile(Immobile const&) = delete; };
struct NoDelete { protected: ~NoDelete(); };
union Union { int a; float b; };

struct Base { virtual ~Base(); virtual int virt(int); virtual int pure() const = 0; int toInt() const; int tryInt(bool&) const; int based(int); int bfield; DECLARE_CLASSINFO };
struct Other { int other() const; };
struct Derived: Base, Other { int pure() const override; DECLARE_CLASSINFO };
struct VBase: virtual Other { VBase(); };
struct Unrelated {};
struct Castable { operator int() const; };
struct PinnedInt { PinnedInt(PinnedInt const&) = delete; operator int() const; };
struct AbstractInt { virtual void f() = 0; operator int() const; };
struct Self { struct Inner { int v; }; };

struct X
{
    X();
    X(int);
    X(X const&);
    X(X &&) noexcept;
    X& operator=(X const&);
    X(int, std::string);
    explicit X(std::string const&);
    X(std::unique_ptr<int>);
    X(int&, int const&, int&&, int*, int const*);
    X(int, int, int, int, int, int, int, int, int, int);
    int m0(); int m1(int); int m2(int, int); int m3(int, int, int); int m4(int, int, int, int); int m5(int, int, int, int, int);
    int m6(int, int, int, int, int, int); int m7(int, int, int, int, int, int, int); int m8(int, int, int, int, int, int, int, int);
    int m9(int, int, int, int, int, int, int, int, int); int m10(int, int, int, int, int, int, int, int, int, int);
    int m11(int, int, int, int, int, int, int, int, int, int, int);
    void vm11(int, int, int, int, int, int, int, int, int, int, int); int c11(int, int, int, int, int, int, int, int, int, int, int) const; void vc11(int, int, int, int, int, int, int, int, int, int, int) const; static void sv11(int, int, int, int, int, int, int, int, int, int, int);
    int c0() const; int c1(int) const; int c10(int, int, int, int, int, int, int, int, int, int) const;
    int n0() noexcept; int nc0() const noexcept; void v0(); void vc0() const; void vn0() noexcept; void vnc0() const noexcept; void v2(int, std::string const&);
    int l0() &; int lc0() const &; int ln0() & noexcept; int lcn0() const & noexcept; int vol() volatile; int cvol() const volatile; void noargdelete(NoDelete*);
    int& lref(); int const& clref() const; int&& rref(); int* ptr(); int const* cptr() const; X& self(); X const& cself() const; X* pself(); Base& abstract(); Base const& cabstract() const; Pinned& pinned();
    std::unique_ptr<int> uptr(); std::shared_ptr<X> sptr() const; std::string str() const; MoveOnly moveonly(); CopyOnly copyonly() const; Color color() const; std::vector<int> vec() const; rtti::variant any() const; std::function<int(int)> fun() const;
    const int cval() const; const X cx() const; bool flag() const; std::string_view sv() const;
    void byval(std::string); void byref(std::string&); void bycref(std::string const&); void byrref(std::string&&); void byptr(std::string*); void bycptr(std::string const*); void move(std::unique_ptr<int>); void moveref(std::unique_ptr<int>&&);
    void anyarg(rtti::variant); void anycref(rtti::variant const&); void base(Base&); void cbase(Base const&); void pbase(Base*); void cpbase(Base const*); void pinnedarg(Pinned&); void mo(MoveOnly); void co(CopyOnly); void col(Color); void fn(std::function<int(int)> const&); void cval2(const int); void strv(std::string_view); void uni(Union);
    int over(int); int over(std::string const&) const; static int over(double);
    static int s0(); static int s1(int); static void sv0(); static int sn0() noexcept; static X make(); static int s10(int, int, int, int, int, int, int, int, int, int); static int s11(int, int, int, int, int, int, int, int, int, int, int);
    int get() const; void set(int); std::string const& name() const; void name(std::string const&); void rename(std::string); int getNonConst(); void setNoexcept(int) noexcept; int getNoexcept() const noexcept;
    MoveOnly const& mget() const; void mset(MoveOnly); void msetr(MoveOnly&&); std::vector<int> const& vget() const; void vset(std::vector<int> const&); Base* bget() const; void bset(Base*); int setRet(int); int getArg(int) const; void getVoid() const; void set2(int, int); void set0(); void setStr(std::string const&); int &getRef(); X const* xget() const; void xset(X const*);
    static int sget(); static void sset(int); static std::string const& sname(); static void srename(std::string const&); static int sgetn() noexcept; static void ssetn(int) noexcept;
    int field; int const cfield = 1; std::string text; std::unique_ptr<int> owned; X *next; X const *cnext; Color fcolor; int arr[3]; std::vector<int> items; Pinned fpinned; Base *fbase; bool on; std::function<int(int)> cb; rtti::variant var; mutable int mut; int Derived::*pm; double d; CopyOnly copied; int const arr2[2] = {1, 2}; char name8[8];
    static int sfield; static int const scfield; static std::string stext; static int sarr[3]; static constexpr int sconst = 1; static Pinned spinned; static X *snext;
    operator int() const;
    int toInt() const; int toIntNoexcept() const noexcept; int tryIntNoexcept(bool&) const noexcept; std::unique_ptr<int> toUnique() const; std::string const& toRef() const; int tryInt(bool&) const; std::string toString() const; std::string tryString(bool&) const; int nonconst(); int conv2(int) const;
    DECLARE_CLASSINFO
};

int f0(); int f1(int); int f2(int, int); int f3(int, int, int); int f4(int, int, int, int); int f5(int, int, int, int, int); int f6(int, int, int, int, int, int); int f7(int, int, int, int, int, int, int);
int f8(int, int, int, int, int, int, int, int); int f9(int, int, int, int, int, int, int, int, int); int f10(int, int, int, int, int, int, int, int, int, int); int f11(int, int, int, int, int, int, int, int, int, int, int);
void fv11(int, int, int, int, int, int, int, int, int, int, int); void fv(); void fv2(int, std::string); int fn() noexcept; void fvn(int) noexcept; int& flref(); int const& fclref(); int&& frref(); std::unique_ptr<int> fuptr(); MoveOnly fmove(MoveOnly); CopyOnly fcopy(CopyOnly const&); Base& fabstract(Base&); Base* fabstractp(Base const*);
void fref(std::string&); void fcref(std::string const&); void frrefarg(std::string&&); void fany(rtti::variant); rtti::variant fretany(); void fptr(void*); void fcolor(Color); Color fretcolor(); X fx(X); X const& fcx(X const&); int fvariadic(int, ...); int fover(int); int fover(double); void farr(int (&)[3]); void fcarr(int const (&)[3]); void fdecayed(int[3]); void fpm(int X::*); void ffn(int (*)(int));
std::string to_string_x(X const&); std::string to_string_byval(X); std::string to_string_try(X const&, bool&); int to_int(std::string const&); int to_int_try(std::string const&, bool&); void to_nothing(X const&); int to_two(X const&, int); MoveOnly to_move(X const&); X from_int(int); int to_int_p(X*); int to_noexcept(X const&) noexcept; int to_noexcept_try(X const&, bool&) noexcept;
extern int gvar; extern int const gcvar; extern std::string gtext; extern std::unique_ptr<int> gowned; extern int garr[3]; extern X gx; extern X *gpx; extern X const *gcpx; extern Base &gbase; extern Pinned gpinned; extern Color gcolor; extern rtti::variant gany;
struct Functor { int operator()(int) const; };
struct MutFunctor { int operator()(int); };
struct MoveFunctor { MoveFunctor(); MoveFunctor(MoveFunctor&&); int operator()(int) const; };
struct StringOf { std::string operator()(X const&) const; };
struct StringTry { std::string operator()(X const&, bool&) const; };
struct Mutable { void operator()(rtti::meta_define<X, void>); };

extern rtti::variant v;
extern rtti::variant const cv;
extern X x;
extern X const cx;
extern rtti::MetaContainer const *c;
extern rtti::MetaClass const *k;
extern rtti::MetaNamespace const *n;
extern rtti::MetaMethod const *m;
extern rtti::MetaProperty const *p;
extern rtti::MetaEnum const *e;
extern rtti::MetaConstructor const *t;
extern rtti::MetaItem const *i;
extern rtti::MetaType ty;
extern int num;
extern std::unique_ptr<int> up;
template<typename T> T&& val();
template<typename A, typename B> constexpr bool same = std::is_same_v<A, B>;

} // namespace w

using namespace w;
using A3 = int[3]; using AX2 = X[2]; using AS2 = std::string[2]; using A23 = int[2][3]; using FP = int(*)(int); using MP = int(X::*)(int);
