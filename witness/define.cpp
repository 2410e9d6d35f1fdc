// Lazy definitions.
#include <rtti/metadefine.h>

namespace w {

struct Lazy { int a; };
struct Named { void operator()(rtti::meta_define<Lazy, void>) const; };
void plain(rtti::meta_define<void, void>);

void run()
{
    rtti::global_define()._namespace("lazy")._lazy([](rtti::meta_define<void, void>) {});
    rtti::global_define()._namespace("plain")._lazy(plain);
    rtti::global_define()._class<Lazy>("Lazy")._lazy(Named{});
}

void force(rtti::MetaContainer const &container)
{
    container.forceDeferredDefine(rtti::MetaContainer::ForceDeferred::SelfOnly);
    container.forceDeferredDefine(rtti::MetaContainer::ForceDeferred::Recursive);
}

} // namespace w
