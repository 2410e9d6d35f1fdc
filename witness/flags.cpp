// The documented flags: every enumerator with its spelling.
#include <rtti/metatype.h>

namespace w {

void flag(char const *name, std::uint32_t value);

#define FLAG(X) flag(#X, static_cast<std::uint32_t>(rtti::TypeFlags::X))
void flags()
{
    FLAG(None);
    FLAG(Const); FLAG(Pointer); FLAG(MemberPointer); FLAG(LvalueReference); FLAG(RvalueReference); FLAG(Array);
    FLAG(Void); FLAG(Integral); FLAG(FloatPoint); FLAG(Enum); FLAG(Function); FLAG(Union); FLAG(Class);
    FLAG(StandardLayout); FLAG(Trivial); FLAG(Abstract); FLAG(Polymorphic); FLAG(DefaultConstructible);
    FLAG(CopyConstructible); FLAG(CopyAssignable); FLAG(MoveConstructible); FLAG(MoveAssignable); FLAG(Destructible);
    FLAG(EQ_Comparable);
}

} // namespace w
