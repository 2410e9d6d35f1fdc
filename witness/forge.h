// Context of the programs that must not compile (rule C25).
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/metaconstructor.h>
#include <rtti/metanamespace.h>
#include <rtti/variant.h>
#include <rtti/metaerror.h>

namespace w {

struct X { int v; X(); void f(); DECLARE_CLASSINFO };
struct Y: X { DECLARE_CLASSINFO };
struct O {};

// const handles
extern rtti::MetaItem const *ci;
extern rtti::MetaContainer const *cc;
extern rtti::MetaNamespace const *cn;
extern rtti::MetaClass const *ck;
extern rtti::MetaMethod const *cm;
extern rtti::MetaProperty const *cp;
extern rtti::MetaEnum const *ce;
extern rtti::MetaConstructor const *ct;
// what a client could at most have forged
extern rtti::MetaItem *i;
extern rtti::MetaContainer *c;
extern rtti::MetaNamespace *n;
extern rtti::MetaClass *k;
extern rtti::MetaMethod *m;
extern rtti::MetaProperty *p;
extern rtti::MetaEnum *e;
extern rtti::MetaConstructor *t;

extern rtti::variant const cv;
extern rtti::variant v;
extern rtti::MetaType ty;
extern X const *cx;
extern X *x;
void const *conv(void const*);

} // namespace w

using namespace w;
