// Scope guards used in every way their interface offers.
#include <rtti/defines.h>
#include <rtti/finally.h>
#include <utility>

namespace w {

void act(int);
void body();
bool condition();

// left normally or by an exception of the body
int plain()
{
    FINALLY { act(1); };
    body();
    return 1;
}

// left by an early return
int early()
{
    FINALLY_EX(guard) { act(1); };
    if (condition())
        return 1;
    body();
    return 2;
}

// two guards: the later one runs first
void nested()
{
    FINALLY_EX(first) { act(2); };
    body();
    FINALLY_EX(second) { act(1); };
    body();
}

// the end of an inner block
void inner()
{
    {
        FINALLY_EX(guard) { act(1); };
        body();
    }
    act(2);
}

// dismissed after the body
void dismissed()
{
    FINALLY_EX(guard) { act(1); };
    body();
    guard.dismiss();
}

// dismissed twice
void twice()
{
    FINALLY_EX(guard) { act(1); };
    guard.dismiss();
    guard.dismiss();
    body();
}

// handed over to another guard
void moved()
{
    FINALLY_EX(guard) { act(1); };
    auto other = std::move(guard);
    body();
}

// dismissed before it is handed over
void moved_dismissed()
{
    FINALLY_EX(guard) { act(1); };
    guard.dismiss();
    auto other = std::move(guard);
    body();
}

// handed over, the new one dismissed
void moved_then_dismissed()
{
    FINALLY_EX(guard) { act(1); };
    auto other = std::move(guard);
    body();
    other.dismiss();
}

struct Functor { int which; void operator()() noexcept { act(which); } };

// a function object that is no temporary
void copied(Functor &functor)
{
    functor.which = 1;
    auto guard = ::internal::scope_guard_constructor() << functor;
    body();
}

// a guard takes over another one: its own function runs at once, the other one at the end
void assigned()
{
    auto guard = ::internal::scope_guard_constructor() << Functor{1};
    auto other = ::internal::scope_guard_constructor() << Functor{2};
    guard = std::move(other);
    body();
}

// the guard taken over was dismissed
void assigned_dismissed()
{
    auto guard = ::internal::scope_guard_constructor() << Functor{1};
    auto other = ::internal::scope_guard_constructor() << Functor{2};
    other.dismiss();
    guard = std::move(other);
    body();
}

using guard_t = ::internal::scope_guard<Functor>;
static_assert(!std::is_copy_constructible_v<guard_t> && !std::is_copy_assignable_v<guard_t>, "a guard that can be copied runs its function twice");
static_assert(!std::is_default_constructible_v<guard_t>, "a guard without a function");

} // namespace w
