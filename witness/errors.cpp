// Spells out the documented kinds of the library's exceptions.
#include <rtti/metadefine.h>
#include <rtti/metaerror.h>
#include <stdexcept>
#include <type_traits>

namespace w {

void check(bool, char const*);

template<typename Derived, typename Base>
constexpr bool kind = std::is_base_of_v<Base, Derived> && std::is_convertible_v<Derived*, Base*>;

template<typename T>
constexpr bool thrown = std::is_copy_constructible_v<T> && std::is_constructible_v<T, char const*> && std::is_constructible_v<T, std::string const&>;

void errors()
{
    check(kind<rtti::runtime_error, std::runtime_error>, "rtti::runtime_error -> std::runtime_error");
    check(kind<rtti::definition_error, rtti::runtime_error>, "definition_error -> runtime_error");
    check(kind<rtti::unregistered_metaclass, rtti::definition_error>, "unregistered_metaclass -> definition_error");
    check(kind<rtti::duplicate_metaclass, rtti::definition_error>, "duplicate_metaclass -> definition_error");
    check(kind<rtti::invalid_metatype_id, rtti::runtime_error>, "invalid_metatype_id -> runtime_error");
    check(kind<rtti::invoke_error, rtti::runtime_error>, "invoke_error -> runtime_error");
    check(kind<rtti::bad_cast, rtti::runtime_error>, "bad_cast -> runtime_error");
    check(kind<rtti::bad_argument_cast, rtti::bad_cast>, "bad_argument_cast -> bad_cast");
    check(kind<rtti::bad_variant_cast, rtti::bad_cast>, "bad_variant_cast -> bad_cast");
    check(kind<rtti::bad_variant_convert, rtti::bad_variant_cast>, "bad_variant_convert -> bad_variant_cast");
    check(kind<rtti::bad_meta_cast, rtti::bad_cast>, "bad_meta_cast -> bad_cast");

    check(!kind<rtti::invoke_error, rtti::definition_error> && !kind<rtti::invoke_error, rtti::bad_cast>, "invoke_error is a kind of its own");
    check(!kind<rtti::bad_cast, rtti::definition_error> && !kind<rtti::bad_cast, rtti::invoke_error>, "bad_cast is a kind of its own");
    check(!kind<rtti::definition_error, rtti::bad_cast> && !kind<rtti::definition_error, rtti::invoke_error>, "definition_error is a kind of its own");
    check(!kind<rtti::bad_argument_cast, rtti::bad_variant_cast> && !kind<rtti::bad_meta_cast, rtti::bad_variant_cast>, "the bad_cast kinds are distinct");
    check(!kind<rtti::unregistered_metaclass, rtti::duplicate_metaclass> && !kind<rtti::duplicate_metaclass, rtti::unregistered_metaclass>, "the definition_error kinds are distinct");

    check(thrown<rtti::runtime_error> && thrown<rtti::definition_error> && thrown<rtti::unregistered_metaclass> && thrown<rtti::duplicate_metaclass>
       && thrown<rtti::invalid_metatype_id> && thrown<rtti::invoke_error> && thrown<rtti::bad_cast> && thrown<rtti::bad_argument_cast>
       && thrown<rtti::bad_variant_cast> && thrown<rtti::bad_variant_convert> && thrown<rtti::bad_meta_cast>, "exceptions carry a text and can be copied");
}

} // namespace w
