// Keys of unordered containers: variants and type identifiers.
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <unordered_map>
#include <unordered_set>

namespace w {

using rtti::MetaType_ID;

// a type identifier is a value: equal exactly when the numbers are, valid exactly when it is not the default
static_assert(MetaType_ID{5} == MetaType_ID{5} && !(MetaType_ID{5} != MetaType_ID{5}));
static_assert(MetaType_ID{5} != MetaType_ID{6} && !(MetaType_ID{5} == MetaType_ID{6}));
static_assert(MetaType_ID{5} != MetaType_ID{} && MetaType_ID{} == MetaType_ID{});
static_assert(!MetaType_ID{}.valid() && MetaType_ID{5}.valid() && MetaType_ID{MetaType_ID{5}}.valid());
static_assert(!MetaType_ID{MetaType_ID::Default}.valid() && MetaType_ID{}.value() == MetaType_ID::Default);
static_assert(MetaType_ID{7}.value() == 7 && static_cast<MetaType_ID::type>(MetaType_ID{7}) == 7);
static_assert(MetaType_ID{1} != MetaType_ID{(MetaType_ID::type{1} << (8 * sizeof(MetaType_ID::type) - 1)) + 1});

std::size_t keys(rtti::variant const &v, MetaType_ID const &id)
{
    std::unordered_map<MetaType_ID, int> ids;
    ids[id] = 1;
    std::unordered_set<rtti::variant> values;
    values.insert(v);
    return std::hash<rtti::variant>{}(v) + std::hash<MetaType_ID>{}(id) + ids.size() + values.size();
}

} // namespace w
