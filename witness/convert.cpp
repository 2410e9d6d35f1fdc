// Every form of registering a converter, and conversions between the registered types.
#include <rtti/metadefine.h>
#include <string>

namespace w {

struct Dst;
struct Src { Src(Src const&); Src(Src&&) noexcept; ~Src(); int member() const; int member_ok(bool&) const; Dst member_dst() const; Dst member_dst_ok(bool&) const; int a; };
struct Dst { Dst(Src); Dst(Dst const&); Dst(Dst&&) noexcept; ~Dst(); bool operator==(Dst const&) const; int a; };
struct Plain { int a; };
struct Wide { Wide(Wide const&); ~Wide(); bool operator==(Wide const&) const; alignas(64) char a[128]; };
struct OnlyMoves { OnlyMoves(OnlyMoves&&); ~OnlyMoves(); int a; };

struct Functor { Functor(Functor const&); Functor(Functor&&); ~Functor(); Dst operator()(Src const&) const; int state; };
struct FunctorOk { FunctorOk(FunctorOk const&); ~FunctorOk(); Plain operator()(Src const&, bool&) const; int state; };

struct FunctorDst { FunctorDst(FunctorDst const&); ~FunctorDst(); Dst operator()(int, bool&) const; int state; };

Dst convert_src(Src);
double convert_int(int);
OnlyMoves convert_move(int);

void registrations(Functor const &functor, FunctorOk const &ok, FunctorDst const &dst)
{
    using rtti::MetaType;
    MetaType::registerConverter<Src, Dst>(functor);
    MetaType::registerConverter<Src, Dst>(Functor{functor});
    MetaType::registerConverter<Src const, Dst const>(functor);
    MetaType::registerConverter<Src, Plain>(ok);
    MetaType::registerConverter<int, Dst>(dst);
    MetaType::registerConverter<int, Plain>([](int x) { return Plain{x}; });
    MetaType::registerConverter<Plain, std::string>([](Plain const &x, bool &ok) { ok = x.a > 0; return std::string(); });
    MetaType::registerConverter(&convert_src);
    MetaType::registerConverter(&convert_int);
    MetaType::registerConverter(&convert_move);
    MetaType::registerConverter<int, double>();
    MetaType::registerConverter<Src, Dst>();
    MetaType::registerConverter(&Src::member);
    MetaType::registerConverter(&Src::member_ok);
    MetaType::registerConverter(&Src::member_dst);
    MetaType::registerConverter(&Src::member_dst_ok);
    (void)MetaType::hasConverter<Src, Dst>();
    (void)MetaType::hasConverter<int, double>();
    (void)MetaType::hasConverter<Src const*, Dst const>();
    MetaType::unregisterConverter<Src, Dst>();
    MetaType::unregisterConverter<int, double>();
    MetaType::unregisterConverter<Src const&, Dst>();
}

template<typename T> void conversions(rtti::variant &v, rtti::variant const &c)
{
    (void)v.to<T>();
    (void)c.to<T>();
    (void)v.canConvert<T>();
    (void)c.canConvert<T>();
    v.convert<T>();
    (void)v.tryConvert<T>();
}

void run(rtti::variant &v, rtti::variant const &c)
{
    conversions<int>(v, c);
    conversions<double>(v, c);
    conversions<Src>(v, c);
    conversions<Dst>(v, c);
    conversions<Plain>(v, c);
    conversions<Src*>(v, c);
    conversions<Src const*>(v, c);
    conversions<std::string>(v, c);
    conversions<Wide>(v, c);
}

template<typename T> bool compare(rtti::variant const &v, T const &x) { return v.eq(x); }

void equal(rtti::variant const &v, Dst const &d, int i, std::string const &s, Src *p, Wide const &w)
{
    compare(v, w);
    compare(v, d);
    compare(v, i);
    compare(v, s);
    compare(v, p);
}

} // namespace w
