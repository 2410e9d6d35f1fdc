// Methods, constructors and properties of every form, registered and used through the public interface.
#include <rtti/metadefine.h>
#include <string>

namespace w {

struct B { int b; };
struct N { int number; std::string name; };
struct A: B
{
    A();
    A(int, std::string const&);
    A(A const&);
    A(A&&);
    A(std::string&&, int&);

    void set();
    void cset() const;
    int get();
    int cget() const;
    void two(int, std::string const&);
    void ctwo(int&, std::string&&) const;
    std::string ret(std::string);
    std::string cret(std::string) const;
    int& ref();
    int const& cref() const;
    std::string& rref(std::string&&);
    B* ptr() const;
    void ten(int, int, int, int, int, int, int, int, int, int) const;
    A& self(A&);

    static void sset();
    static int sget();
    static void stwo(int&, std::string&&);
    static std::string sret(std::string const&, A);
    static int& sref();
    static int const& scref(int);
    static int sten(int, int, int, int, int, int, int, int, int, int);

    int field;
    std::string text;
    int const cfield;
    B part;
    B* next;
    N pair;
    B const cpart;
    static int sfield;
    static std::string stext;
    static int const csfield;

    int getP() const;
    void setP(int);
    std::string const& getT() const;
    void setT(std::string const&);
    B& getR();
    void setR(B&);
    static std::string getS();
    static void setS(std::string);
};
void free0();
int free1(int);
void free2(int, A const&);

void define()
{
    rtti::global_define()
        ._class<A>("A")
            ._constructor<int, std::string const&>()
            ._constructor<std::string&&, int&>("named")
            ._method("set", &A::set)
            ._method("cset", &A::cset)
            ._method("get", &A::get)
            ._method("cget", &A::cget)
            ._method("two", &A::two)
            ._method("ctwo", &A::ctwo)
            ._method("ret", &A::ret)
            ._method("cret", &A::cret)
            ._method("ref", &A::ref)
            ._method("cref", &A::cref)
            ._method("rref", &A::rref)
            ._method("ptr", &A::ptr)
            ._method("ten", &A::ten)
            ._method("self", &A::self)
            ._method("sset", &A::sset)
            ._method("sget", &A::sget)
            ._method("stwo", &A::stwo)
            ._method("sret", &A::sret)
            ._method("sref", &A::sref)
            ._method("scref", &A::scref)
            ._method("sten", &A::sten)
            ._property("field", &A::field)
            ._property("text", &A::text)
            ._property("cfield", &A::cfield)
            ._property("part", &A::part)
            ._property("next", &A::next)
            ._property("pair", &A::pair)
            ._property("cpart", &A::cpart)
            ._property("sfield", &A::sfield)
            ._property("stext", &A::stext)
            ._property("csfield", &A::csfield)
            ._property("getP", &A::getP, &A::setP)
            ._property("getT", &A::getT, &A::setT)
            ._property("getR", &A::getR, &A::setR)
            ._property("getS", &A::getS, &A::setS)
        ._end()
        ._method("free0", &free0)
        ._method("free1", &free1)
        ._method("free2", &free2);
}

void use(rtti::MetaMethod const *m, rtti::MetaConstructor const *c, rtti::MetaProperty const *f,
         rtti::variant &v, rtti::variant const &cv, int &l, int const &cl, std::string &s, A &a)
{
    m->invoke();
    m->invoke(v);
    m->invoke(cv);
    m->invoke(a);
    m->invoke(v, l, cl, std::move(s));
    m->invoke(cv, std::move(v), s, 5);
    m->invoke(l, cl, std::move(s));
    m->invoke(0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
    c->invoke();
    c->invoke(l, cl, std::move(s));
    v.invoke("name");
    v.invoke("name", l, std::move(s));
    cv.invoke("name");
    cv.invoke("name", l, std::move(s));
    f->get();
    f->get(v);
    f->get(cv);
    f->set(l);
    f->set(std::move(s));
    f->set(v, l);
    f->set(cv, std::move(s));
    f->set(a, std::move(s));
    v.set_property("name", l);
    v.set_property("name", std::move(s));
    cv.get_property("name");
}

} // namespace w
