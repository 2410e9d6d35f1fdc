// Every step of the registration builder, on namespaces and on classes.
#include <rtti/metadefine.h>
#include <string>
#include <utility>

namespace w {

enum class Color { red, green };
struct Base { virtual ~Base(); int b; };
struct Second { virtual ~Second(); int s; };
struct Nested;
struct Full: Base, Second { Full(); Full(int); Full(Nested const&); explicit Full(char const*); Full(int, double); Full(Full const&); Full(Full&&); int get() const; void set(int); int field; static int made(); };
struct NoDefault { NoDefault(int); NoDefault(NoDefault const&); NoDefault(NoDefault&&); };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); };
struct CopyOnly { CopyOnly(); CopyOnly(CopyOnly const&); };
struct Fixed { Fixed(); Fixed(Fixed const&) = delete; };
struct Abstract { virtual ~Abstract(); virtual int f() = 0; };
struct Bare { int x; };                 // opened without the macro
struct Nested { int n; };

int function(int);
void nothing(Full&);
int variable;
int getter();
void setter(int);
struct Lambda { void operator()(rtti::meta_define<Full, void>) const; };
struct LambdaNs { void operator()(rtti::meta_define<void, void>) const; };

using Ns = rtti::meta_define<void, void>;
using In = rtti::meta_define<void, Ns>;

void namespaces(Ns &ns, std::string const &text, LambdaNs const &later)
{
    ns._namespace("inner")._namespace("deeper")._end()._end();
    ns._attribute("a", 1);
    ns._attribute("b", text);
    ns._attribute("c", std::string{"moved"});
    ns._enum<Color>("Color")._element("red", Color::red)._element("green", Color::green);
    ns._method("function", &function);
    ns._property("variable", &variable);
    ns._property("pair", &getter, &setter);
    ns._lazy(later);
    ns._lazy(LambdaNs{});
    ns._class<Full>("Full")._end();
    ns._class<Full>();
    ns._class<NoDefault>("NoDefault");
    ns._class<MoveOnly>("MoveOnly");
    ns._class<CopyOnly>("CopyOnly");
    ns._class<Fixed>("Fixed");
    ns._class<Abstract>("Abstract");
    ns._class<Bare>("Bare");
}

void classes(rtti::meta_define<Full, Ns> full, Lambda const &later)
{
    full._base<Base>();
    full._base<Second, Base>();
    full._attribute("a", 1);
    full._enum<Color>("Color")._element("red", Color::red);
    full._constructor<int>();
    full._constructor<Nested const&>();
    full._constructor<char const*>("text");
    full._constructor<int, double>("two");
    full._constructor();
    full._method("get", &Full::get);
    full._method("set", &Full::set);
    full._method("made", &Full::made);
    full._method("outside", &nothing);
    full._property("field", &Full::field);
    full._property("pair", &Full::get, &Full::set);
    full._lazy(later);
    full._class<Nested>("Nested")._class<Bare>("Bare")._end()._end();
    full._end();
}

void begin()
{
    rtti::global_define()._namespace("w");
}

} // namespace w
