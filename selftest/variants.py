"""One-edit variants of the library: (name, properties they concern, bug or equivalent, edits)."""
import os
VARIANTS = []


def bug(name, props, *edits, **kw):
    VARIANTS.append(dict(name=name, props=props.split(), bug=True, edits=list(edits), **kw))


def same(name, props, *edits, **kw):
    VARIANTS.append(dict(name=name, props=props.split(), bug=False, edits=list(edits), **kw))


MI, MC, MIP, MCP, CLP = 'src/metaitem.cpp', 'src/metacontainer.cpp', 'src/private/metaitem_p.h', 'src/private/metacontainer_p.h', 'src/private/metaclass_p.h'
MT, CL = 'src/metatype.cpp', 'src/metaclass.cpp'

# --- C03
bug('get-no-lock', 'C03', (MI, '        std::shared_lock<std::shared_mutex> lock{m_lock};\n        if (index < m_items.size())\n            return m_items[index]->name', '        if (index < m_items.size())\n            return m_items[index]->name'))
bug('temp-lock', 'C03', (MC, '    std::unique_lock<std::shared_mutex> lock{m_lock};\n    auto itemFound', '    std::unique_lock<std::shared_mutex>{m_lock};\n    auto itemFound'))
bug('shared-for-write', 'C03', (MIP, 'std::unique_lock lock{m_lock};', 'std::shared_lock lock{m_lock};'))
bug('early-unlock', 'C03', (MC, '        m_names.emplace(name, index);\n', '        lock.unlock();\n        m_names.emplace(name, index);\n'))
bug('manual-lock', 'C03', (MT, '    std::shared_lock lock{m_lock};\n    if (auto it = m_names.find(name); it != std::end(m_names))\n        return it->second;\n', '    m_lock.lock_shared();\n    if (auto it = m_names.find(name); it != std::end(m_names))\n        return it->second;\n    m_lock.unlock_shared();\n'))
bug('relock', 'C03', (CLP, '            if (!find_imp(value))\n', '            if (!find(value))\n'))
bug('size-no-lock', 'C03', (CLP, '            std::shared_lock lock{m_lock};\n            return m_items.size();', '            return m_items.size();'))
bug('wrong-lock', 'C03', (MT, '            std::shared_lock lock{m_lock};\n            return (m_items.find(key) != std::end(m_items));', '            static std::shared_mutex guard;\n            std::shared_lock lock{guard};\n            return (m_items.find(key) != std::end(m_items));'))
bug('lazy-qualified', 'C03', (MIP, '    std::string const &qualifiedName() const\n    { return m_qualifiedName; }', '    std::string const &qualifiedName() const\n    { if (m_qn.empty()) m_qn = makeQualifiedName(); return m_qn; }\n    mutable std::string m_qn;'))
bug('force-under-lock', 'C03', (MC, '''        for (std::size_t i = 0; i < d->m_classes.size(); ++i)
        {
            auto *c = static_cast<MetaClass const*>(d->m_classes.get(i));
            c->forceDeferredDefine(ForceDeferred::Recursive);
        }
''', '''        d->m_classes.for_each([](MetaItem *item)
        {
            auto *c = static_cast<MetaClass const*>(item);
            c->forceDeferredDefine(ForceDeferred::Recursive);
            return true;
        });
'''))
same('scoped-helper', 'C03 C05', (MC, '''    std::shared_lock<std::shared_mutex> lock{m_lock};
    if (index < m_items.size())
        return m_items[index].get();
    return nullptr;''', '''    std::shared_lock guard(m_lock);
    auto *result = static_cast<MetaItem*>(nullptr);
    if (!(m_items.size() <= index))
        result = m_items.at(index).get();
    return result;'''))
same('lock-guard', 'C03 C06', (MC, 'std::unique_lock<std::shared_mutex> lock{m_lock};\n    auto itemFound', 'std::lock_guard<std::shared_mutex> lock{m_lock};\n    auto itemFound'))
same('for-each-index', 'C03 C05', (MCP, '    for(auto &item: m_items)\n    {\n        if (!func(item.get()))\n            break;\n    }', '    auto const count = m_items.size();\n    for (std::size_t i = 0; i != count; ++i)\n        if (!func(m_items[i].get()))\n            return;'))
same('for-each-iter', 'C03 C05', (MIP, '        for (auto const &item: m_items)\n        {\n            if (!func(item->name, item->value))\n                break;\n        }', '        for (auto it = m_items.begin(); it != m_items.end(); ++it)\n        {\n            auto const &item = *it;\n            if (func(item->name, item->value))\n                continue;\n            break;\n        }'))
same('for-each-anyof', 'C03 C05', (MIP, '        for (auto const &item: m_items)\n        {\n            if (!func(item->name, item->value))\n                break;\n        }', '        (void)std::any_of(m_items.begin(), m_items.end(), [&func](auto const &item) { return !func(item->name, item->value); });'), (MIP, '#include <map>', '#include <map>\n#include <algorithm>'))

# --- C05
GETI = '    if (index < m_items.size())\n        return m_items[index].get();\n    return nullptr;'
GETN = '    if (auto it = m_names.find(name); it != std::end(m_names))\n        if (auto index = it->second; index < m_items.size())\n            return m_items[index].get();\n\n    return nullptr;'
bug('idx-le', 'C05', (MC, 'if (index < m_items.size())\n        return m_items[index].get();', 'if (index <= m_items.size())\n        return m_items[index].get();'))
bug('idx-at-throws', 'C05', (MC, GETI, '    return m_items.at(index).get();'))
bug('idx-off', 'C05', (MC, GETI, '    if (index + 1 < m_items.size())\n        return m_items[index].get();\n    return nullptr;'))
bug('idx-reverse', 'C05', (MC, GETI, '    if (index < m_items.size())\n        return m_items[m_items.size() - 1 - index].get();\n    return nullptr;'))
bug('idx-no-check', 'C05', (MI, '        if (index < m_items.size())\n            return m_items[index]->name;\n        return empty_string;', '        if (index > m_items.size())\n            return empty_string;\n        return m_items[index]->name;'))
bug('name-pos', 'C05', (MC, 'm_names.emplace(name, index);', 'm_names.emplace(name, m_items.size());'))
bug('name-pos-attr', 'C05', (MIP, 'm_names.emplace(item->name, m_items.size() - 1);', 'm_names.emplace(item->name, m_items.size());'))
bug('name-not-recorded', 'C05', (MC, '        m_names.emplace(name, index);\n', '        if (index < 4096) m_names.emplace(name, index);\n'))
bug('name-end', 'C05', (MC, GETN, '    auto it = m_names.find(name);\n    auto index = it->second;\n    if (index < m_items.size())\n        return m_items[index].get();\n    return nullptr;'))
bug('name-first', 'C05', (MC, GETN, '    if (m_names.find(name) != std::end(m_names))\n        return m_items.back().get();\n    return nullptr;'))
bug('count-other', 'C05', (MC, 'return count(mcatEnum);', 'return count(mcatProperty);'))
bug('get-other', 'C05', (MC, 'item(mcatEnum, index)', 'item(mcatProperty, index)'))
bug('lists-swapped', 'C05', (MCP, '{&m_namespaces, &m_classes, &m_properties,\n         &m_methods,', '{&m_namespaces, &m_classes, &m_methods,\n         &m_properties,'))
bug('each-ignores-stop', 'C05', (MCP, '        if (!func(item.get()))\n            break;', '        func(item.get());'))
bug('each-inverted', 'C05', (MIP, '            if (!func(item->name, item->value))\n                break;', '            if (func(item->name, item->value))\n                break;'))
bug('each-empty', 'C05', (MI, '    if (!func)\n        return;\n\n    checkDeferredDefine();', '    checkDeferredDefine();'))
bug('each-wrong-list', 'C05', (MC, 'd->m_methods.for_each([&func]', 'd->m_properties.for_each([&func]'))
bug('each-reverse', 'C05', (MCP, '    for(auto &item: m_items)\n    {\n        if (!func(item.get()))\n            break;\n    }', '    for (auto it = m_items.rbegin(); it != m_items.rend(); ++it)\n        if (!func(it->get()))\n            break;'))
bug('each-skip-first', 'C05', (MCP, '    for(auto &item: m_items)\n    {\n        if (!func(item.get()))\n            break;\n    }', '    for (std::size_t i = 1; i < m_items.size(); ++i)\n        if (!func(m_items[i].get()))\n            break;'))
bug('each-skip-some', 'C05', (MIP, '            if (!func(item->name, item->value))\n                break;', '            if (item->value.empty())\n                continue;\n            if (!func(item->name, item->value))\n                break;'))
bug('each-by-name', 'C05', (MCP, '    for(auto &item: m_items)\n    {\n        if (!func(item.get()))\n            break;\n    }', '    for(auto &item: m_names)\n    {\n        if (!func(m_items[item.second].get()))\n            break;\n    }'))
bug('attr-other', 'C05', (MI, '    return d->m_attributes.name(index);', '    return d->m_attributes.name(index + 1);'))
bug('base-derived', 'C05', (CL, '    auto typeId = d->m_derivedClasses.get(index);', '    auto typeId = d->m_baseClasses.get(index);'))
bug('size-cap', 'C05', (CLP, '            std::shared_lock lock{m_lock};\n            return m_items.size();', '            std::shared_lock lock{m_lock};\n            return m_items.empty() ? 0 : 1;'))
bug('names-size', 'C05', (MIP, '            std::shared_lock lock{m_lock};\n            return m_items.size();', '            std::shared_lock lock{m_lock};\n            return m_items.size() + 1;'))
bug('short-name', 'C05', (MC, '    if (name.empty())\n        return nullptr;\n\n    std::shared_lock', '    if (name.size() < 2)\n        return nullptr;\n\n    std::shared_lock'))
same('idx-helper', 'C05 C03', (MC, GETI, '    auto const known = (index < m_items.size());\n    return known ? m_items[index].get() : nullptr;'))
same('name-helper', 'C05 C03', (MC, GETN, '    auto const it = m_names.find(name);\n    if (it == m_names.end())\n        return nullptr;\n    return m_items.at(it->second).get();'))
same('name-at', 'C05', (MC, 'm_names.emplace(name, index);', 'm_names[name] = index;'))
same('name-insert', 'C05', (MC, 'm_names.emplace(name, index);', 'm_names.insert(std::make_pair(std::string_view{name}, index));'))
same('push', 'C05', (MC, '        m_items.emplace_back(value);\n', '        m_items.push_back(item_t{value});\n'))
same('switch-list', 'C05 C06', (MCP, '''    MetaItem* item(MetaCategory category, std::size_t index) const
    { return m_lists[category]->get(index); }''', '''    MetaItem* item(MetaCategory category, std::size_t index) const
    {
        switch (category)
        {
        case mcatNamespace: return m_namespaces.get(index);
        case mcatClass: return m_classes.get(index);
        case mcatProperty: return m_properties.get(index);
        case mcatMethod: return m_methods.get(index);
        case mcatEnum: return m_enums.get(index);
        case mcatConstructor: return m_constructors.get(index);
        default: return nullptr;
        }
    }'''))
same('count-helper', 'C05', (MC, 'return count(mcatEnum);', 'auto const result = count(mcatEnum);\n    return result;'))
same('direct', 'C05 C07', (MC, 'return static_cast<MetaEnum const*>(item(mcatEnum, index));', 'checkDeferredDefine();\n    return static_cast<MetaEnum const*>(d_func()->item(mcatEnum, index));'))
same('each-flag', 'C05', (MCP, '        if (!func(item.get()))\n            break;', '        auto const goOn = func(item.get());\n        if (goOn)\n            continue;\n        return;'))
same('each-while', 'C05 C03', (MIP, '        for (auto const &item: m_items)\n        {\n            if (!func(item->name, item->value))\n                break;\n        }', '        std::size_t i = 0;\n        while (i < m_items.size() && func(m_items[i]->name, m_items[i]->value))\n            ++i;'))

# --- C06
EN, MM, NS, PR, CT = 'src/metaenum.cpp', 'src/metamethod.cpp', 'src/metanamespace.cpp', 'src/metaproperty.cpp', 'src/metaconstructor.cpp'
ENB = '''    auto result = const_cast<MetaEnum *>(owner.getEnum(name));
    if (!result)
    {
        result = new MetaEnum{name, owner, typeId};
        if (!INVOKE_PROTECTED(owner, addItem, result))
        {
            delete result;
            result = const_cast<MetaEnum *>(owner.getEnum(name));
        }
    }
    return result;'''
bug('enum-leak', 'C06', (EN, '            delete result;\n', ''))
bug('enum-dangling', 'C06', (EN, '            delete result;\n            result = const_cast<MetaEnum *>(owner.getEnum(name));\n', '            delete result;\n'))
bug('enum-unlisted', 'C06', (EN, ENB, '''    auto result = const_cast<MetaEnum *>(owner.getEnum(name));
    if (!result)
    {
        result = new MetaEnum{name, owner, typeId};
        INVOKE_PROTECTED(owner, addItem, result);
    }
    return result;'''))
bug('enum-category', 'C06', (EN, 'return mcatEnum;', 'return mcatProperty;'))
bug('enum-inverted', 'C06', (EN, 'if (!INVOKE_PROTECTED(owner, addItem, result))', 'if (INVOKE_PROTECTED(owner, addItem, result))'))
bug('class-link-first', 'C06', (CL, '        if (INVOKE_PROTECTED(owner, addItem, result))\n            metaClass.store(result);\n        else\n', '        metaClass.store(result);\n        if (!INVOKE_PROTECTED(owner, addItem, result))\n'))
bug('class-nodup', 'C06', (CL, '''        if (metaClass)
            throw duplicate_metaclass{"Class "s + type.typeName() + " already registered as: "
                                      + metaClass.load()->qualifiedName()};
''', ''))
bug('class-noinvalid', 'C06', (CL, '        if (!type.valid())\n            throw invalid_metatype_id{"Invalid MetaType_ID: "s + std::to_string(typeId.value())};\n        auto &metaClass', '        auto &metaClass'))
bug('class-reuse', 'C06', (CL, 'if (result && result->metaTypeId() != typeId)', 'if (result && !result->metaTypeId().valid())'))
bug('class-throw-leak', 'C06', (CL, '            delete result;\n            result = const_cast<MetaClass *>(owner.getClass(name));\n', '            throw duplicate_metaclass{"Class "s + result->qualifiedName() + " exists"};\n'))
bug('class-late-check', 'C06', (CL, '''    auto result = const_cast<MetaClass *>(owner.getClass(name));
    if (!result)
    {
        auto type = MetaType{typeId};
        if (!type.valid())
            throw invalid_metatype_id{"Invalid MetaType_ID: "s + std::to_string(typeId.value())};
        auto &metaClass = type.typeInfo({})->metaClass;
        if (metaClass)
            throw duplicate_metaclass{"Class "s + type.typeName() + " already registered as: "
                                      + metaClass.load()->qualifiedName()};

        result = new MetaClass(name, owner, typeId);
        if (INVOKE_PROTECTED(owner, addItem, result))
            metaClass.store(result);
''', '''    auto result = const_cast<MetaClass *>(owner.getClass(name));
    if (!result)
    {
        auto type = MetaType{typeId};
        if (!type.valid())
            throw invalid_metatype_id{"Invalid MetaType_ID: "s + std::to_string(typeId.value())};
        auto &metaClass = type.typeInfo({})->metaClass;

        result = new MetaClass(name, owner, typeId);
        if (INVOKE_PROTECTED(owner, addItem, result))
        {
            if (metaClass)
                throw duplicate_metaclass{"Class "s + type.typeName() + " already registered as: "
                                          + metaClass.load()->qualifiedName()};
            metaClass.store(result);
        }
'''))
bug('method-bare', 'C06', (MM, 'const_cast<MetaMethod*>(owner.getMethod(signature));\n    //', 'const_cast<MetaMethod*>(owner.getMethod(name));\n    //'))
bug('enum-loses-type', 'C06', (EN, 'result = new MetaEnum{name, owner, typeId};', 'result = new MetaEnum{name, owner, MetaType_ID{}};'))
bug('double-delete', 'C06', (NS, '            delete result;\n', '            delete result;\n            delete result;\n'))
bug('force-insert', 'C06 C05', (MC, 'if (!itemFound && !nameFound)', 'if (!itemFound)'))
same('enum-early', 'C06', (EN, ENB, '''    if (auto *found = owner.getEnum(name))
        return const_cast<MetaEnum*>(found);
    auto *candidate = new MetaEnum{name, owner, typeId};
    auto const added = INVOKE_PROTECTED(owner, addItem, candidate);
    if (added)
        return candidate;
    delete candidate;
    return const_cast<MetaEnum*>(owner.getEnum(name));'''))
same('enum-no-precheck', 'C06', (EN, ENB, '''    auto *result = new MetaEnum{name, owner, typeId};
    if (!INVOKE_PROTECTED(owner, addItem, result))
    {
        delete result;
        result = const_cast<MetaEnum*>(owner.getEnum(name));
    }
    return result;'''))
same('class-exchange', 'C06', (CL, 'metaClass.store(result);', 'metaClass = result;'))
same('class-helper', 'C06', (CL, 'MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaType_ID typeId)\n{', '''static TypeInfo* usable(MetaType const &type, TypeInfo *info, MetaType_ID typeId)
{
    using namespace std::literals;
    if (!type.valid())
        throw invalid_metatype_id{"Invalid MetaType_ID: "s + std::to_string(typeId.value())};
    return info;
}

MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaType_ID typeId)
{'''), (CL, '''        if (!type.valid())
            throw invalid_metatype_id{"Invalid MetaType_ID: "s + std::to_string(typeId.value())};
        auto &metaClass = type.typeInfo({})->metaClass;
        if (metaClass)
            throw dup''', '''        auto &metaClass = usable(type, const_cast<TypeInfo*>(type.typeInfo({})), typeId)->metaClass;
        auto *known = metaClass.load();
        if (known != nullptr)
            throw dup'''))

# --- C24
CC = '        if (MetaTypeFunctionList<internal::ConvertFunctionBase>::Destroyed)\n            return nullptr;\n\n'
bug('conv-unchecked', 'C24', (MT, CC, ''))
bug('conv-unmarked', 'C24', (MT, '            m_items.clear();\n            Destroyed = true;', '            m_items.clear();'))
bug('types-unmarked', 'C24', (MT, '    m_names.clear();\n    Destroyed = true;', '    m_names.clear();'))
bug('types-marked-if', 'C24', (MT, '    m_names.clear();\n    Destroyed = true;', '    if (m_names.size()) Destroyed = true;\n    m_names.clear();'))
bug('wrong-mark', 'C24', (MT, 'if (MetaTypeFunctionList<internal::ConvertFunctionBase>::Destroyed)', 'if (CustomTypes::Destroyed)'), (MT, 'friend CustomTypes *customTypes();', 'friend CustomTypes *customTypes();\npublic:'),(MT,'    static bool Destroyed;\n    friend CustomTypes', 'public:    static bool Destroyed;\n    friend CustomTypes'))
bug('handle-unchecked', 'C24', (MT, '    if (auto *types = customTypes())\n        m_typeInfo = types->getTypeInfo(typeId);', '    m_typeInfo = reinterpret_cast<TypeInfo const*>(typeId.value());'))
bug('id-unchecked', 'C24', (MT, '    if (auto *types = customTypes())\n        return types->getTypeId(m_typeInfo);\n\n    return MetaType_ID{};', '    return MetaType_ID{reinterpret_cast<MetaType_ID::type>(m_typeInfo)};'))
bug('register-true', 'C24', (MT, '            return list->add({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);\n    return false;', '            return list->add({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);\n    return true;'))
bug('mark-reset', 'C24', (MT, 'CustomTypes::CustomTypes() {}', 'CustomTypes::CustomTypes() { Destroyed = false; }'))
bug('cached-list', 'C24', (MT, CC, '        static auto *cached = static_cast<MetaTypeFunctionList<internal::ConvertFunctionBase>*>(nullptr);\n        if (cached)\n            return cached;\n' + CC), (MT, '        static MetaTypeFunctionList<internal::ConvertFunctionBase> result;\n        return &result;', '        static MetaTypeFunctionList<internal::ConvertFunctionBase> result;\n        cached = &result;\n        return &result;'))
same('mark-atomic', 'C24 C03', (MT, '    static bool Destroyed;\n    friend CustomTypes', '    static std::atomic<bool> Destroyed;\n    friend CustomTypes'), (MT, 'bool CustomTypes::Destroyed = false;', 'std::atomic<bool> CustomTypes::Destroyed{false};'))
same('mark-early', 'C24 C03', (MT, '    std::unique_lock lock{m_lock};\n    m_items.clear();\n    m_names.clear();\n    Destroyed = true;', '    Destroyed = true;\n    std::unique_lock lock{m_lock};\n    m_names.clear();\n    m_items.clear();'))
same('inverted-flow', 'C24', (MT, '''    auto *types = customTypes();
    if (!types)
        return MetaType_ID{};

    auto result = types->addTypeInfo(name, size, decay, arity, const_mask, flags, manager);
    return types->getTypeId(result);''', '''    if (auto *types = customTypes(); types != nullptr)
    {
        auto *info = types->addTypeInfo(name, size, decay, arity, const_mask, flags, manager);
        return types->getTypeId(info);
    }
    return {};'''))
same('conv-ternary', 'C24 C03', (MT, '''            return list->find({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});
    return false;''', '''            return list->get({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}) != nullptr;
    return false;'''))

# --- C01
ADD = '        auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);\n        m_names.emplace(name, &result);\n        return &result;'
bug('type-overwrite', 'C01', (MT, 'if (auto it = m_names.find(name); it == std::end(m_names))\n    {\n        auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);\n        m_names.emplace(name, &result);', 'if (auto it = m_names.find(name); it == std::end(m_names) || it->second->size != size)\n    {\n        auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);\n        m_names[name] = &result;'))
bug('type-split-lock', 'C01', (MT, '    std::unique_lock lock{m_lock};\n    if (auto it = m_names.find(name); it == std::end(m_names))\n    {', '    {\n        std::shared_lock lock{m_lock};\n        if (auto it = m_names.find(name); it != std::end(m_names))\n            return it->second;\n    }\n    std::unique_lock lock{m_lock};\n    {'), (MT, '        return &result;\n    }\n    else\n        return it->second;', '        return &result;\n    }'))
bug('type-swap-fields', 'C01', ('src/private/metatype_p.h', ', arity{arity}\n        , const_mask{const_mask}', ', arity{const_mask}\n        , const_mask{arity}'))
bug('type-no-decay', 'C01', ('src/private/metatype_p.h', 'decay.valid() ? decay : MetaType_ID{reinterpret_cast<MetaType_ID::type>(this)}', 'decay'))
bug('type-own-decay', 'C01', ('src/private/metatype_p.h', 'decay.valid() ? decay : MetaType_ID{reinterpret_cast<MetaType_ID::type>(this)}', 'MetaType_ID{reinterpret_cast<MetaType_ID::type>(this)}'))
bug('type-empty', 'C01', (MT, '''    if (name.empty())
        return nullptr;

    std::unique_lock lock{m_lock};''', '''    std::unique_lock lock{m_lock};'''))
bug('type-unindexed', 'C01', (MT, '        m_names.emplace(name, &result);\n', '        if (decay.valid())\n            m_names.emplace(name, &result);\n'))
bug('size-by-decay', 'C01', (MT, '    return m_typeInfo ? m_typeInfo->size\n', '    return m_typeInfo ? reinterpret_cast<TypeInfo const*>(m_typeInfo->decay.value())->size\n'))
bug('lookup-prefix', 'C01', (MT, '    std::shared_lock lock{m_lock};\n    if (auto it = m_names.find(name); it', '    std::shared_lock lock{m_lock};\n    if (auto it = m_names.find(name.substr(0, 255)); it'))
bug('register-decay-name', 'C01', ('include/rtti/metatype.h', 'auto const &name = type_name<T>();', 'auto const &name = type_name<NoRef>();'))
bug('register-return-decay', 'C01', ('include/rtti/metatype.h', '        meta_id = MetaType::registerMetaType(name, size, decay,\n                                             arity, const_mask, flags,\n                                             manager, {});', '        meta_id = MetaType::registerMetaType(name, size, decay,\n                                             arity, const_mask, flags,\n                                             manager, {});\n        if constexpr(std::is_rvalue_reference_v<T>) meta_id = decay;'))
bug('type-remove', 'C01', (MT, '        m_names.emplace(name, &result);\n', '        m_names.emplace(name, &result);\n        if (m_names.size() > 4096) m_items.pop_front();\n'))
bug('typename-len', 'C01', (MT, 'return m_typeInfo ? m_typeInfo->name\n', 'return m_typeInfo && m_typeInfo->size ? m_typeInfo->name\n'))
same('type-insert', 'C01 C03', (MT, '''    if (auto it = m_names.find(name); it == std::end(m_names))
    {
        auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);
        m_names.emplace(name, &result);
        return &result;
    }
    else
        return it->second;''', '''    auto found = m_names.find(name);
    if (found != m_names.end())
        return found->second;
    m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);
    auto const *info = &m_items.front();
    m_names.insert({info->name, info});
    return info;'''))
same('type-double-check', 'C01 C03', (MT, '''    std::unique_lock lock{m_lock};
    if (auto it = m_names.find(name); it == std::end(m_names))
    {''', '''    if (auto const *known = getTypeInfo(name))
        return known;
    std::unique_lock lock{m_lock};
    if (auto it = m_names.find(name); it == std::end(m_names))
    {'''))
same('accessor-if', 'C01', (MT, '    return m_typeInfo ? m_typeInfo->size\n                      : 0;', '    if (!m_typeInfo)\n        return 0;\n    auto const &info = *m_typeInfo;\n    return info.size;'))
same('decay-helper', 'C01', ('src/private/metatype_p.h', 'decay.valid() ? decay : MetaType_ID{reinterpret_cast<MetaType_ID::type>(this)}', '!decay.valid() ? MetaType_ID{reinterpret_cast<MetaType_ID::type>(this)} : decay'))
same('names-emplace-first', 'C01', (MT, ADD, '''        auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);
        auto *pointer = &result;
        m_names[pointer->name] = pointer;
        return pointer;'''))
same('type-try', 'C01', (MT, '''    if (auto it = m_names.find(name); it == std::end(m_names))
    {
        auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);
        m_names.emplace(name, &result);
        return &result;
    }
    else
        return it->second;''', '''    auto const [it, added] = m_names.try_emplace(name, nullptr);
    if (added)
        it->second = &m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);
    return it->second;'''))

# --- C02
MTH, TR = 'include/rtti/metatype.h', 'include/rtti/misc_traits.h'
bug('arity-ref', 'C02', (MTH, 'arity = pointer_arity<NoRef>::value', 'arity = pointer_arity<U>::value + std::is_array_v<NoRef>'))
bug('arity-const', 'C02', (MTH, 'arity = pointer_arity<NoRef>::value', 'arity = pointer_arity<T>::value'))
bug('mask-shift', 'C02', (TR, '(1 << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>', '(1 << I) + const_bitset_helper_v<std::remove_pointer_t<std::remove_const_t<T>>, I>'))
bug('mask-top', 'C02', (MTH, 'const_mask = const_bitset<NoRef>::value', 'const_mask = const_bitset<std::remove_const_t<NoRef>>::value'))
bug('flag-move', 'C02', (MTH, '(std::is_move_assignable_v<base>         ?', '(std::is_move_assignable_v<no_ref>         ?'))
bug('flag-copy', 'C02', (MTH, '(std::is_copy_assignable_v<base>         ?', '(std::is_copy_constructible_v<base>         ?'))
bug('flag-eq', 'C02', (MTH, '(has_eq_v<element,element>               ?', '(has_eq_v<base,base>               ?'))
bug('flag-union', 'C02', (MTH, '(std::is_union_v<base>                   ? Flags::Union', '(std::is_union_v<base>                   ? Flags::Class'))
bug('decay-plain', 'C02', (TR, 'using full_decay_t = remove_all_cv_t<std::decay_t<T>>;', 'using full_decay_t = std::decay_t<T>;'))
bug('decay-ref', 'C02', (TR, 'using full_decay_t = remove_all_cv_t<std::decay_t<T>>;', 'using full_decay_t = remove_all_cv_t<std::remove_reference_t<T>>;'))
bug('classptr-depth', 'C02', (MTH, '''    return (pointerArity() == 1) &&
           ((flags & TypeFlags::Class) == TypeFlags::Class)''', '''    return (pointerArity() >= 1) &&
           ((flags & TypeFlags::Class) == TypeFlags::Class)'''))
bug('isref', 'C02', (MTH, 'return (isLvalueReference() || isRvalueReference());', 'return isLvalueReference();'))
bug('isarray-ptr', 'C02', (MTH, '''    return ((flags & TypeFlags::Array) == TypeFlags::Array) &&
           ((flags & TypeFlags::Pointer) == TypeFlags::None);''', '''    return ((flags & TypeFlags::Array) == TypeFlags::Array);'''))
bug('isconst-any', 'C02', (MTH, 'return ((typeFlags() & TypeFlags::Const) == TypeFlags::Const);', 'return ((typeFlags() & (TypeFlags::Const | TypeFlags::RvalueReference)) != TypeFlags::None);'))
bug('size-decay', 'C02', (MTH, 'size = size_of_v<T>', 'size = size_of_v<Decay>'))
same('pred-rewrite', 'C02', (MTH, '''    auto flags = typeFlags();
    return (pointerArity() == 1) &&
           ((flags & TypeFlags::Class) == TypeFlags::Class) &&
            ((flags & TypeFlags::Pointer) == TypeFlags::Pointer);''', '''    constexpr auto wanted = TypeFlags::Class | TypeFlags::Pointer;
    if (pointerArity() != 1)
        return false;
    return (typeFlags() & wanted) == wanted;'''))
same('flags-helper', 'C02', (MTH, '        auto constexpr flags = type_flags<T>::value;\n', '        using flags_of = type_flags<T>;\n        constexpr TypeFlags flags = flags_of::value;\n'))
same('traits-alias', 'C02 C01', (TR, 'using full_decay_t = remove_all_cv_t<std::decay_t<T>>;', 'using full_decay_t = typename remove_all_cv<typename std::decay<T>::type>::type;'))

# --- C14
bug('alloc-elem', 'C14', (MTH, '            return ::operator new(Length*sizeof(Base), std::align_val_t', '            return ::operator new(sizeof(Base), std::align_val_t'))
bug('alloc-ext', 'C14', (MTH, 'static constexpr auto Length = array_length<T[N]>::value;', 'static constexpr auto Length = std::extent_v<T[N]>;'))
bug('dealloc-plain', 'C14', (MTH, '            if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)\n                ::operator delete(ptr, std::align_val_t{alignof(T)});\n            else\n                ::operator delete(ptr);', '            ::operator delete(ptr);'))
bug('destroy-rev', 'C14', (MTH, '                for (; begin != end; ++begin)\n                    begin->~Base();', '                for (--end; begin != end; --end)\n                    end->~Base();'))
bug('copy-moves', 'C14', (MTH, 'new (where) T(*static_cast<T const*>(source));', 'new (where) T(std::move(*const_cast<T*>(static_cast<T const*>(source))));'))
bug('moc-copies', 'C14', (MTH, '        if constexpr(std::is_move_constructible_v<T>)\n            move_construct(source, where);', '        if constexpr(!std::is_copy_constructible_v<T>)\n            move_construct(source, where);'))
bug('copy-nonull', 'C14', (MTH, '            if (source && where)\n                new (where) T(*', '            if (where)\n                new (where) T(*'))
bug('eq-first', 'C14', (MTH, '            return std::equal(first1, last1, first2);', '            return *first1 == *first2;'))
bug('eq-null', 'C14', (MTH, '            if (!lhs || !rhs)\n                return false;\n            return (*', '            if (!lhs)\n                return false;\n            return (*'))
bug('unsup-silent', 'C14', (MTH, '''        else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");''', ''))
bug('array-assign', 'C14', (MTH, 'std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));', 'std::copy(it, it + Length, static_cast<Base*>(where));'))
bug('table-swap', 'C14', (MTH, '        &type_function_table_impl<T>::move_construct,\n        &type_function_table_impl<T>::move_or_copy,', '        &type_function_table_impl<T>::move_or_copy,\n        &type_function_table_impl<T>::move_construct,'))
bug('fwd-move', 'C14', (MT, 'm_typeInfo->manager->f_move_or_copy(source, where);', 'm_typeInfo->manager->f_move_construct(source, where);'))
bug('fwd-args', 'C14', (MT, 'm_typeInfo->manager->f_compare_eq(lhs, rhs)', 'm_typeInfo->manager->f_compare_eq(lhs, lhs)'))
bug('construct-leak', 'C14', (MT, '    auto result = allocate();\n    FINALLY_EX(guard) { deallocate(result); };\n', '    auto result = allocate();\n'), (MT, '    guard.dismiss();\n    return result;', '    return result;'))
bug('construct-moves', 'C14', (MT, 'else if (!movable)', 'else if (movable)'))
bug('destruct-order', 'C14', (MT, '        destroy(instance);\n        deallocate(instance);', '        deallocate(instance);\n        destroy(instance);'))
bug('memcpy-move', 'C14', (MTH, 'new (where) T(std::move(*static_cast<T*>(source)));', '{ if constexpr(sizeof(T) > 32) __builtin_memcpy(where, source, sizeof(T)); else new (where) T(std::move(*static_cast<T*>(source))); }'))
bug('nx-eq', 'C14', (MTH, 'noexcept(has_nt_eq_v<T, T>)', 'noexcept(has_eq_v<T, T>)'))
bug('nx-copy', 'C14', (MTH, 'noexcept(std::is_nothrow_copy_constructible_v<T>)\n    {\n        using namespace std::literals;\n        if constexpr(std::is_copy_constructible_v<T>)', 'noexcept(std::is_nothrow_move_constructible_v<T>)\n    {\n        using namespace std::literals;\n        if constexpr(std::is_copy_constructible_v<T>)'))
same('ops-loops', 'C14', (MTH, 'std::uninitialized_value_construct(begin, end);', 'for (std::size_t i = 0; i < Length; ++i) new (begin + i) Base();'),
     (MTH, 'return std::equal(first1, last1, first2);', 'for (; first1 != last1; ++first1, ++first2)\n                if (!(*first1 == *first2))\n                    return false;\n            return true;'),
     (MTH, 'auto *end = static_cast<Base*>(ptr) + Length;\n\n                for (; begin != end; ++begin)\n                    begin->~Base();', 'std::size_t n = Length;\n                while (n-- > 0)\n                    begin[n].~Base();'))
same('ops-std', 'C14', (MTH, 'std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));', 'std::uninitialized_copy_n(it, Length, static_cast<Base*>(where));'),
     (MTH, 'static_cast<T*>(ptr)->~T();', 'std::destroy_at(static_cast<T*>(ptr));'),
     (MTH, 'return ::operator new(sizeof(T), std::align_val_t{alignof(T)});', 'return ::operator new(sizeof(T), static_cast<std::align_val_t>(alignof(T)));'))
same('ops-early', 'C14', (MTH, '            if (source && where)\n                new (where) T(*static_cast<T const*>(source));', '            if (!source || !where)\n                return;\n            auto const &from = *static_cast<T const*>(source);\n            ::new (where) T(from);'),
     (MTH, '            if (lhs == rhs)\n                return true;\n            if (!lhs || !rhs)\n                return false;\n            return (*static_cast<T const*>(lhs) == *static_cast<T const *>(rhs));',
      '            if (lhs && rhs)\n            {\n                auto const &a = *static_cast<T const*>(lhs);\n                auto const &b = *static_cast<T const*>(rhs);\n                return lhs == rhs || a == b;\n            }\n            return lhs == rhs;'))
same('construct-switch', 'C14', (MT, '''    if (!copy)
        default_construct(result);
    else if (!movable)
        copy_construct(copy, result);
    else
        move_or_copy(copy, result);
''', '''    if (copy)
    {
        if (movable)
            move_or_copy(copy, result);
        else
            copy_construct(copy, result);
    }
    else
        default_construct(result);
'''), (MT, '''    if (instance)
    {
        destroy(instance);
        deallocate(instance);
    }''', '''    if (!instance)
        return;
    destroy(instance);
    deallocate(instance);'''), (MT, '''    return m_typeInfo ? m_typeInfo->manager->f_compare_eq(lhs, rhs)
                      : false;''', '''    if (!m_typeInfo)
        return false;
    auto const *table = m_typeInfo->manager;
    return table->f_compare_eq(lhs, rhs);'''))
same('construct-try', 'C14', (MT, '''    FINALLY_EX(guard) { deallocate(result); };

    if (!copy)
        default_construct(result);
    else if (!movable)
        copy_construct(copy, result);
    else
        move_or_copy(copy, result);

    guard.dismiss();
    return result;''', '''    try
    {
        if (!copy)
            default_construct(result);
        else if (!movable)
            copy_construct(copy, result);
        else
            move_or_copy(copy, result);
    }
    catch (...)
    {
        deallocate(result);
        throw;
    }
    return result;'''))

# --- C07
bug('count-nodefer', 'C07', (MC, '    checkDeferredDefine();\n    auto d = d_func();\n    return d->size(category);', '    auto d = d_func();\n    return d->size(category);'))
bug('attr-late', 'C07', (MI, '    checkDeferredDefine();\n    auto d = d_func();\n    return d->m_attributes.get(name);', '    auto d = d_func();\n    auto const &result = d->m_attributes.get(name);\n    if (!result)\n        checkDeferredDefine();\n    return result;'))
bug('attr-static', 'C07', (MI, '    checkDeferredDefine();\n    auto d = d_func();\n    return d->m_attributes.name(index);', '    MetaItem::checkDeferredDefine();\n    auto d = d_func();\n    return d->m_attributes.name(index);'))
bug('defer-not-moved', 'C07', (MC, '    auto callback = std::move(d->m_deferredDefine);\n    if (!callback)\n        return;\n', '    auto *callback = d->m_deferredDefine.get();\n    if (!callback)\n        return;\n'))
bug('defer-unlocked', 'C07', (MC, '    callback->invoke(*const_cast', '    lock.unlock();\n    callback->invoke(*const_cast'))
bug('defer-early-flag', 'C07', (MC, """    FINALLY{
        d->m_deferredDefine_pending.store(false, std::memory_order_release);
    };
""", """    d->m_deferredDefine_pending.store(false, std::memory_order_release);
"""))
bug('defer-relaxed', 'C07', (MC, 'm_deferredDefine_pending.load(std::memory_order_acquire)', 'm_deferredDefine_pending.load(std::memory_order_relaxed)'))
bug('defer-trylock', 'C07', (MC, '    std::unique_lock lock{d->m_deferredDefine_lock};\n    auto callback', '    std::unique_lock lock{d->m_deferredDefine_lock, std::try_to_lock};\n    if (!lock)\n        return;\n    auto callback'))
bug('defer-replace', 'C07', (MC, '    if (d->m_deferredDefine_pending)\n        throw', '    if (d->m_deferredDefine_pending && !callback)\n        throw'))
bug('defer-unmarked', 'C07', (MC, 'm_deferredDefine_pending = (d->m_deferredDefine != nullptr)', 'm_deferredDefine_pending = (callback != nullptr)'))
bug('defer-plain-mutex', 'C07', (MCP, 'mutable std::recursive_mutex m_deferredDefine_lock', 'mutable std::mutex m_deferredDefine_lock'))
bug('inherit-nodefer', 'C07', (CL, '    checkDeferredDefine();\n    auto d      = d_func();\n    auto result = false;', '    auto d      = d_func();\n    auto result = false;'))
bug('base-direct', 'C07', (CL, """    checkDeferredDefine();
    auto d = d_func();
    return d->m_derivedClasses.count();""", """    auto d = d_func();
    return d->m_derivedClasses.count();"""))
bug('holder-twice', 'C07', ('include/rtti/metadefine.h', '        m_func(meta_define<T, void>{&container, &container, &stack});', '        m_func(meta_define<T, void>{&container, &container, &stack});\n        if (stack.empty())\n            m_func(meta_define<T, void>{&container, &container, &stack});'))
same('defer-swap', 'C07', (MC, '    auto callback = std::move(d->m_deferredDefine);\n    if (!callback)\n        return;\n', '    if (!d->m_deferredDefine)\n        return;\n    std::unique_ptr<IDefinitionCallbackHolder> callback;\n    callback.swap(d->m_deferredDefine);\n'))
same('defer-exchange', 'C07', (MC, '    auto callback = std::move(d->m_deferredDefine);\n', '    auto callback = std::exchange(d->m_deferredDefine, nullptr);\n'),
     (MC, '    std::unique_lock lock{d->m_deferredDefine_lock};\n    auto callback', '    std::lock_guard<std::recursive_mutex> lock{d->m_deferredDefine_lock};\n    auto callback'))
same('defer-release', 'C07', (MC, '    auto callback = std::move(d->m_deferredDefine);\n', '    std::unique_ptr<IDefinitionCallbackHolder> callback{d->m_deferredDefine.release()};\n'))
same('defer-helper', 'C07', (MC, """    FINALLY{
        d->m_deferredDefine_pending.store(false, std::memory_order_release);
    };

    callback->invoke(*const_cast<MetaContainer*>(this));
""", """    struct Done
    {
        std::atomic_bool &flag;
        ~Done() { flag.store(false); }
    };
    Done done{d->m_deferredDefine_pending};
    auto &self = const_cast<MetaContainer&>(*this);
    callback->invoke(self);
"""), (MC, 'm_deferredDefine_pending = (d->m_deferredDefine != nullptr)', 'm_deferredDefine_pending = static_cast<bool>(d->m_deferredDefine)'))
same('count-forward', 'C07', (MC, '    checkDeferredDefine();\n    auto d = d_func();\n    return d->size(category);', '    forceDeferredDefine();\n    auto const *d = d_func();\n    auto const n = d->size(category);\n    return n;'))

# --- C08
ADDB = "    d->m_baseClasses.add(typeId, caster);\n    base->addDerivedClass(d->m_typeId);"
bug('base-oneway', 'C08', (CL, ADDB, "    d->m_baseClasses.add(typeId, caster);"))
bug('base-swapped', 'C08', (CL, ADDB, "    d->m_baseClasses.add(typeId, caster);\n    base->addDerivedClass(typeId);"))
bug('base-early', 'C08', (CL, "    auto base = type.typeInfo({})->metaClass.load();\n    if (!base)", "    d_func()->m_baseClasses.add(typeId, caster);\n    auto base = type.typeInfo({})->metaClass.load();\n    if (!base)"))
bug('base-self-derived', 'C08', (CL, "    base->addDerivedClass(d->m_typeId);", "    addDerivedClass(d->m_typeId);"))
bug('base-dup', 'C08', (CLP, "            if (!find_imp(value))\n                m_items.emplace_back(value, func);", "            m_items.emplace_back(value, func);"))
bug('derived-dup', 'C08', (CLP, "            if (search == std::end(m_items))\n                m_items.push_back(value);", "            if (search == std::end(m_items) || m_items.size() < 2)\n                m_items.push_back(value);"))
bug('base-unregistered', 'C08', (CL, "    if (!base)\n        throw unregistered_metaclass{\"Base class \"s + type.typeName() + \" not registered\"};", "    if (!base)\n        return;"))
bug('inherit-first-only', 'C08', (CL, "            result = true;\n            return false;\n        }\n        return true;", "            result = true;\n        }\n        return false;"))
bug('inherit-last', 'C08', (CL, "        if (directBase->inheritedFrom(base))\n        {\n            result = true;\n            return false;\n        }\n        return true;", "        result = directBase->inheritedFrom(base);\n        return true;"))
bug('inherit-direct', 'C08', (CL, "        if (directBase->inheritedFrom(base))\n        {\n            result = true;", "        if (directBase == base)\n        {\n            result = true;"))
bug('inherit-irreflexive', 'C08', (CL, "    if (base == this)\n        return true;\n\n", "    if (base == this)\n        return baseClassCount() == 0;\n\n"))
bug('derived-in-base', 'C08', (CL, "    d->m_derivedClasses.add(typeId);", "    d->m_baseClasses.add(typeId, nullptr);"))
bug('walk-from-one', 'C08 C09 C10', (CLP, "        for (std::size_t i = 0; i < m_items.size(); ++i)\n        {\n            auto const item", "        for (std::size_t i = m_items.size() > 2 ? 1 : 0; i < m_items.size(); ++i)\n        {\n            auto const item"))
bug('walk-backwards', 'C10', (CLP, "            auto const item = m_items[i];", "            auto const item = m_items[m_items.size() - 1 - i];"))
bug('walk-stops', 'C08 C09 C10', (CLP, "            if (!func(item))\n                return;", "            if (!func(item) || i == 7)\n                return;"))
same('inherit-loop', 'C08 C07', (CL, """    auto result = false;
    d->m_baseClasses.for_each([&result, base](auto const &item)
    {
        auto directBase = find(item.first);
        assert(directBase);
        if (directBase->inheritedFrom(base))
        {
            result = true;
            return false;
        }
        return true;
    });
    return result;""", """    bool answer = false;
    auto test = [&](internal::BaseClassList::item_t const &item) -> bool
    {
        auto const *parent = MetaClass::find(item.first);
        answer = parent->inheritedFrom(base);
        return !answer;
    };
    d->m_baseClasses.for_each(test);
    return answer;"""))
same('base-helper', 'C08', (CL, ADDB, "    auto const own = d->m_typeId;\n    d->m_baseClasses.add(typeId, caster);\n    base->addDerivedClass(own);"))
same('find-imp-loop', 'C08', (CLP, """            auto search = std::find_if(std::begin(m_items), std::end(m_items),
                                       [value](auto const &item) { return (value == item.first); });
            return (search != std::end(m_items));""", """            return std::any_of(std::begin(m_items), std::end(m_items),
                               [value](auto const &item) { return (value == item.first); });"""))

# --- C09
bug('cast-noedge', 'C09', (CL, "directBase->cast(base, item.second(result))", "directBase->cast(base, result)"))
bug('cast-twice', 'C09', (CL, "directBase->cast(base, item.second(result))", "directBase->cast(base, item.second(item.second(result)))"))
bug('cast-accum', 'C09', (CL, """        if (directBase->inheritedFrom(base))
        {
            // cast to direct base
            result = directBase->cast(base, item.second(result));""", """        result = item.second(result);
        if (directBase->inheritedFrom(base))
        {
            // cast to direct base
            result = directBase->cast(base, result);"""))
bug('cast-notfound', 'C09', (CL, "return (found ? result : nullptr);\n}\n\nvoid* MetaClass::cast", "return result;\n}\n\nvoid* MetaClass::cast"))
bug('cast-continue', 'C09', (CL, "            found  = true;\n            return false;", "            found  = true;\n            return true;"))
bug('cast-direct', 'C09', (CL, "            result = directBase->cast(base, item.second(result));", "            result = item.second(result);"))
bug('edge-reinterpret', 'C09', ('include/rtti/metadefine.h', """            static_cast<BaseType const *>(
                static_cast<DerivedType const *>(value)));""", """            static_cast<BaseType const *>(value));"""))
bug('edge-fixed', 'C09', ('include/rtti/metadefine.h', "                &internal::metacast_to_base<T, mpl::typelist_get_t<L, I>>, {})", "                &internal::metacast_to_base<T, mpl::typelist_get_t<L, 0>>, {})"))
bug('metacast-from', 'C09', ('include/rtti/metaclass.h', "    auto result = fromClass->cast(toClass, info.instance, {});", "    auto result = fromClass->cast(toClass, from, {});"))
bug('metacast-static', 'C09', ('include/rtti/metaclass.h', "    auto *fromClass = MetaClass::find(info.typeId);", "    auto *fromClass = MetaClass::find(metaTypeId<From>());"))
bug('metacast-adjust', 'C09', ('include/rtti/metaclass.h', "    auto result = fromClass->cast(toClass, info.instance, {});\n    if (!result)\n        return nullptr;", "    auto result = fromClass->cast(toClass, info.instance, {});\n    if (!result)\n        result = info.instance;"))
bug('classinfo-static', 'C09', ('include/rtti/metaclass.h', "    virtual rtti::ClassInfo classInfo() const \\\n    { \\\n        return {rtti::metaTypeId<typename std::decay<decltype(*this)>::type>(), this}; \\", "    virtual rtti::ClassInfo classInfo() const \\\n    { \\\n        return {rtti::metaTypeId<decltype(this)>(), this}; \\"))
bug('metacast-ref', 'C09', ('include/rtti/metaclass.h', "    auto ptr = meta_cast<To>(&from);\n    if (!ptr)\n        throw bad_meta_cast{\"Bad meta cast\"};\n    return *ptr;\n}\n\n} // namespace rtti", "    auto ptr = meta_cast<To>(&from);\n    if (!ptr)\n        throw bad_argument_cast{\"Bad meta cast\"};\n    return *ptr;\n}\n\n} // namespace rtti"))
same('cast-loop', 'C09 C07', (CL, """    auto result = instance;
    if (base == this)
        return result;

    checkDeferredDefine();
    auto d     = d_func();
    auto found = false;
    d->m_baseClasses.for_each([&result, base, &found](auto const &item)
    {
        auto directBase = find(item.first);
        assert(directBase);
        if (directBase->inheritedFrom(base))
        {
            // cast to direct base
            result = directBase->cast(base, item.second(result));
            found  = true;
            return false;
        }
        return true;
    });

    return (found ? result : nullptr);""", """    if (base == this)
        return instance;

    checkDeferredDefine();
    void const *result = nullptr;
    d_func()->m_baseClasses.for_each([&result, base, instance](auto const &item)
    {
        auto directBase = find(item.first);
        if (!directBase->inheritedFrom(base))
            return true;
        auto const *adjusted = item.second(instance);
        result = directBase->cast(base, adjusted);
        return false;
    });
    return result;"""))
same('edge-steps', 'C09', ('include/rtti/metadefine.h', """    return
        static_cast<void const *>(
            static_cast<BaseType const *>(
                static_cast<DerivedType const *>(value)));""", """    auto const *derived = static_cast<DerivedType const *>(value);
    BaseType const *base = derived;
    return base;"""))

# --- C10
bug('own-last', 'C10', (CL, """    auto result = MetaContainer::getMethodInternal(name);
    if (result)
        return result;
""", """    MetaMethod const *result = nullptr;
    if (baseClassCount() == 0)
        return MetaContainer::getMethodInternal(name);
"""))
bug('one-level', 'C10', (CL, "        result = directBase->getPropertyInternal(name);", "        result = directBase->MetaContainer::getPropertyInternal(name);"))
bug('last-base', 'C10', (CL, "        result = directBase->getMethodInternal(name);\n        if (result)\n        {\n            found = true;\n            return false;\n        }\n        return true;", "        if (auto item = directBase->getMethodInternal(name))\n        {\n            result = item;\n            found = true;\n        }\n        return true;"))
same('prefix-match', 'C10', (MC, "                 if (pos == name.size())\n                 {", "                 if (pos >= name.size())\n                 {"))
bug('bare-only', 'C10', (MC, "                 if (cmp == 0)\n                 {\n                     result = item;", "                 if (cmp == 0 && pos + 2 < methodName.size())\n                 {\n                     result = item;"))
bug('compare-min', 'C10', (MC, "methodName.compare(0, pos, name, 0, length)", "methodName.compare(0, length, name, 0, length)"))
bug('args-ignored', 'C10', (MC, "                 cmp = methodName.compare(pos, methodName.size() - pos,\n                                          name, pos, name.size() - pos);", "                 cmp = methodName.compare(pos, 1,\n                                          name, pos, 1);"))
bug('ctor-category', 'C10', (MC, "d_func()->findMethod(mcatConstructor, name)", "d_func()->findMethod(mcatMethod, name)"))
bug('suppress-method', 'C10', ('src/metamethod.cpp', "if (!result || result->owner() != &owner)", "if (!result)"))
bug('qualified-lookup', 'C10', (MC, "        return nullptr;\n    return getMethodInternal(name);", "        return nullptr;\n    return MetaContainer::getMethodInternal(name);"))
same('match-simple', 'C10', (MC, """            auto length = std::min(pos, name.size());
            if (auto cmp = methodName.compare(0, pos, name, 0, length);
                cmp == 0)
            {
                 if (pos == name.size())
                 {
                     result = item;
                     return false;
                 }

                 cmp = methodName.compare(pos, methodName.size() - pos,
                                          name, pos, name.size() - pos);
                 if (cmp == 0)
                 {
                     result = item;
                     return false;
                 }
            }""", """            if (methodName == name || methodName.compare(0, pos, name) == 0)
            {
                result = item;
                return false;
            }"""))
same('match-substr', 'C10', (MC, """            auto length = std::min(pos, name.size());
            if (auto cmp = methodName.compare(0, pos, name, 0, length);
                cmp == 0)
            {
                 if (pos == name.size())
                 {
                     result = item;
                     return false;
                 }

                 cmp = methodName.compare(pos, methodName.size() - pos,
                                          name, pos, name.size() - pos);
                 if (cmp == 0)
                 {
                     result = item;
                     return false;
                 }
            }""", """            std::string_view const whole{methodName};
            if (whole == name || whole.substr(0, pos) == name)
            {
                result = item;
                return false;
            }"""))
same('resolve-loop', 'C10 C07', (CL, """    auto d     = d_func();
    auto found = false;
    d->m_baseClasses.for_each([&result, &name, &found](item_t const &item)
    {
        auto directBase = find(item.first);
        assert(directBase);
        result = directBase->getMethodInternal(name);
        if (result)
        {
            found = true;
            return false;
        }
        return true;
    });
    return (found ? result : nullptr);""", """    MetaMethod const *inherited = nullptr;
    d_func()->m_baseClasses.for_each([&](item_t const &item)
    {
        inherited = find(item.first)->getMethodInternal(name);
        return inherited == nullptr;
    });
    return inherited;"""))

# --- C23
FN = '''    for (; bits != 0; bits >>= 1)
        ++index;
    return flag_names[index];'''
bug('flags-swap', 'C23', (MT, '"LvalueReference",\n                                   "RvalueReference",', '"RvalueReference",\n                                   "LvalueReference",'))
bug('flags-drop', 'C23', (MT, '    if (check_flag(value, TypeFlags::Union))\n        it = flag_name(TypeFlags::Union);\n', ''))
bug('flags-any', 'C23', (MT, 'return ((value & bit) == bit);', 'return ((value | bit) == value) || bit == TypeFlags::Trivial;'))
bug('flags-wrong-name', 'C23', (MT, 'it = flag_name(TypeFlags::MoveAssignable);', 'it = flag_name(TypeFlags::MoveConstructible);'))
bug('flags-delim', 'C23', (MT, 'prefix_ostream_iterator<std::string_view>{stream, "|"}', 'prefix_ostream_iterator<std::string_view>{stream, ", "}'))
bug('flags-table-short', 'C23', (MT, '                                   "Destructible",\n\n                                   "EQ_Comparable"};', '                                   "Destructible"};'))
bug('flags-else', 'C23', (MT, '    if (check_flag(value, TypeFlags::Polymorphic))', '    else if (check_flag(value, TypeFlags::Polymorphic))'))
bug('flags-prefix', 'C23', ('include/rtti/signature.h', '            m_stream << m_prefix << value;', '            m_stream << value << m_prefix;'))
bug('flags-first', 'C23', ('include/rtti/signature.h', '            first = false;\n', ''))
same('flags-table-loop', 'C23', (MT, FN, '''    while (bits)
    {
        bits = bits >> 1;
        index += 1;
    }
    std::string_view result{flag_names[index]};
    return result;'''))
same('flags-array', 'C23', (MT, '    if (check_flag(value, TypeFlags::LvalueReference))\n        it = flag_name(TypeFlags::LvalueReference);\n    if (check_flag(value, TypeFlags::RvalueReference))\n        it = flag_name(TypeFlags::RvalueReference);\n', '''    for (auto flag: {TypeFlags::LvalueReference, TypeFlags::RvalueReference})
        if (check_flag(value, flag))
            it = flag_name(flag);
'''))
same('flags-direct', 'C23', (MT, '''    auto it = prefix_ostream_iterator<std::string_view>{stream, "|"};
    if (value == TypeFlags::None)
    {
        it = flag_name(TypeFlags::None);
        return stream;
    }
''', '''    if (value == TypeFlags::None)
        return stream << flag_name(TypeFlags::None);
    auto it = prefix_ostream_iterator<std::string_view>{stream, "|"};
'''))
same('flags-char', 'C23', ('include/rtti/signature.h', '''        if (first)
        {
            m_stream << value;
            first = false;
        }
        else
            m_stream << m_prefix << value;
''', '''        if (!first)
            m_stream << m_prefix;
        first = false;
        m_stream << value;
'''))
_mt = open(os.path.join(os.environ.get('RTTI_REPO_BASE', '/repo'), MT), encoding='utf-8-sig').read() if os.path.exists('/repo/' + MT) else ''
_a = _mt.find('    if (check_flag(value, TypeFlags::LvalueReference))')
BODY = _mt[_a:_mt.find('    return stream;', _a)]
same('flags-loop', 'C23', (MT, BODY, '''    auto const bits = static_cast<std::uint32_t>(value);
    for (std::size_t i = 0; i < std::size(flag_names) - 1; ++i)
        if (bits & (1u << i))
            it = flag_names[i + 1];
'''))
same('flags-table', 'C23', (MT, BODY, '''    struct Entry { TypeFlags flag; };
    static constexpr Entry table[] = {
        {TypeFlags::LvalueReference}, {TypeFlags::RvalueReference}, {TypeFlags::Pointer}, {TypeFlags::MemberPointer}, {TypeFlags::Const}, {TypeFlags::Array},
        {TypeFlags::Void}, {TypeFlags::Integral}, {TypeFlags::FloatPoint}, {TypeFlags::Enum}, {TypeFlags::Function}, {TypeFlags::Union}, {TypeFlags::Class},
        {TypeFlags::StandardLayout}, {TypeFlags::Trivial}, {TypeFlags::Abstract}, {TypeFlags::Polymorphic}, {TypeFlags::DefaultConstructible},
        {TypeFlags::CopyConstructible}, {TypeFlags::CopyAssignable}, {TypeFlags::MoveConstructible}, {TypeFlags::MoveAssignable}, {TypeFlags::Destructible},
        {TypeFlags::EQ_Comparable}
    };
    for (auto const &entry: table)
        if (check_flag(value, entry.flag))
            it = flag_name(entry.flag);
'''))

# --- C04
MTP = 'src/private/metatype_p.h'
bug('key-caller-view', 'C04', (MIP, 'm_names.emplace(item->name, m_items.size() - 1);', 'm_names.emplace(name, m_items.size() - 1);'))
bug('key-local-string', 'C04', (MIP, 'm_names.emplace(item->name, m_items.size() - 1);', 'std::string key{item->name};\n            m_names.emplace(key, m_items.size() - 1);'))
bug('key-op-caller', 'C04', (MIP, 'm_names.emplace(item->name, m_items.size() - 1);', 'm_names[name] = m_items.size() - 1;'))
bug('attr-by-value', 'C04', (MIP, 'std::vector<std::unique_ptr<named_variant>> m_items;', 'std::vector<named_variant> m_items;'),
    (MIP, 'm_items.emplace_back(new named_variant{name, std::forward<T>(value)});\n            m_names.emplace(item->name,', 'm_items.emplace_back(name, std::forward<T>(value));\n            m_names.emplace(item.name,'),
    (MIP, 'item->value = std::forward<T>(value);', 'item.value = std::forward<T>(value);'), (MIP, 'func(item->name, item->value)', 'func(item.name, item.value)'),
    (MIP, '        std::string const name;\n        variant value;', '        std::string name;\n        variant value;'),
    (MI, 'return m_items[index]->value;\n        return variant::empty_variant;\n    }\n\n    variant const &NamedVariantList::get(std::string_view', 'return m_items[index].value;\n        return variant::empty_variant;\n    }\n\n    variant const &NamedVariantList::get(std::string_view'),
    (MI, '                    return m_items[index]->value;', '                    return m_items[index].value;'), (MI, 'return m_items[index]->name;', 'return m_items[index].name;'))
bug('attr-replace', 'C04', (MIP, 'item->value = std::forward<T>(value);', 'item.reset(new named_variant{name, std::forward<T>(value)});'))
bug('attr-replace2', 'C04', (MIP, 'item->value = std::forward<T>(value);', 'item = std::make_unique<named_variant>(item->name, std::forward<T>(value));'))
bug('item-evict', 'C04', (MC, '        m_names.emplace(name, index);\n', '        if (m_items.size() > 4096)\n        {\n            m_items.erase(m_items.begin());\n        }\n        m_names.emplace(name, index);\n'))
bug('attr-name-static', 'C04', (MI, '''        if (index < m_items.size())
            return m_items[index]->name;
        return empty_string;''', '''        static std::string result;
        result.clear();
        if (index < m_items.size())
            result = m_items[index]->name;
        return result;'''))
bug('typename-static-buf', 'C04', ('include/rtti/typename.h', '''    static internal::TypeName<T> const demangler;
    return demangler.signature();''', '''    internal::TypeName<T> const demangler;
    std::string const name{demangler.signature()};
    return name;'''))
bug('meta-name-copy', 'C04', (MTH, 'auto const &name = type_name<T>();', 'auto const name = std::string{type_name<T>()};'))
same('key-name-var', 'C04 C05', (MIP, 'm_names.emplace(item->name, m_items.size() - 1);', 'auto const &key = item->name;\n            m_names.emplace(key, m_items.size() - 1);'))
same('key-view-var', 'C04 C05', (MIP, 'm_names.emplace(item->name, m_items.size() - 1);', 'std::string_view const key = item->name;\n            m_names.insert({key, m_items.size() - 1});'))
same('key-created-first', 'C04 C05', (MIP, '            auto &item = m_items.emplace_back(new named_variant{name, std::forward<T>(value)});\n            m_names.emplace(item->name, m_items.size() - 1);', '''            auto created = std::make_unique<named_variant>(name, std::forward<T>(value));
            std::string_view const key = created->name;
            m_items.push_back(std::move(created));
            m_names[key] = m_items.size() - 1;'''))
same('types-list', 'C04 C01', (MT, 'std::forward_list<TypeInfo> m_items;', 'std::list<TypeInfo> m_items;'), (MT, 'auto &result = m_items.emplace_front(', 'auto &result = m_items.emplace_back('), (MT, '#include <forward_list>', '#include <list>'))
same('attr-deque', 'C04', (MIP, 'std::vector<std::unique_ptr<named_variant>> m_items;', 'std::deque<std::unique_ptr<named_variant>> m_items;'), (MIP, '#include <vector>', '#include <vector>\n#include <deque>'))

# --- C18
MD, VH, VI, MMI, AI = 'include/rtti/metadefine.h', 'include/rtti/variant.h', 'include/rtti/detail/variant_impl.h', 'include/rtti/detail/metamethod_impl.h', 'include/rtti/detail/argument_impl.h'
PACK = '''    for (auto const &item: result)
    {
        if (item->empty())
            break;
        --count;
    }

    if (count != 0)'''
bug('args-less-ok', 'C18', (MD, PACK, '''    std::size_t given = 0;
    for (auto const &item: result)
    {
        if (item->empty())
            break;
        ++given;
    }

    if (given > count)'''))
bug('args-extra-ok', 'C18', (MD, PACK, '''    for (auto const &item: result)
    {
        if (item->empty() || count == 0)
            break;
        --count;
    }

    if (count != 0)'''))
bug('args-swapped', 'C18', (MD, '        &arg0, &arg1, &arg2, &arg3, &arg4,\n        &arg5, &arg6, &arg7, &arg8, &arg9}};', '        &arg0, &arg1, &arg2, &arg3, &arg4,\n        &arg5, &arg6, &arg8, &arg7, &arg9}};'))
bug('args-invoker-order', 'C18', (MD, '''        return invoker_t::invoke(m_func, instance,
                                         arg0, arg1, arg2, arg3, arg4,
                                         arg5, arg6, arg7, arg8, arg9);
    }

    variant invoke_method(variant &instance,''', '''        return invoker_t::invoke(m_func, instance,
                                         arg0, arg1, arg2, arg3, arg4,
                                         arg5, arg7, arg6, arg8, arg9);
    }

    variant invoke_method(variant &instance,'''))
bug('args-count-late', 'C18', (MD, '''        auto const &args = pack_arguments(sizeof...(Args),
                                          arg0, arg1, arg2, arg3, arg4,
                                          arg5, arg6, arg7, arg8, arg9);
        return invoke(args, argument_indexes_t{});''', '''        argument_array_t args = {{&arg0, &arg1, &arg2, &arg3, &arg4, &arg5, &arg6, &arg7, &arg8, &arg9}};
        auto result = invoke(args, argument_indexes_t{});
        pack_arguments(sizeof...(Args), arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg7, arg8, arg9);
        return result;'''))
bug('call-twice', 'C18', (MD, '            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);\n        else\n            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +\n                                   type_name<class_ref_t>()};\n\n        return variant::empty_variant;\n    }\n\n    template<std::size_t ...I>\n    static variant invoke_imp(F func, variant &instance,', '            for (auto i: {0, 1}) { (void)i; (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...); }\n        else\n            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +\n                                   type_name<class_ref_t>()};\n\n        return variant::empty_variant;\n    }\n\n    template<std::size_t ...I>\n    static variant invoke_imp(F func, variant &instance,'))
bug('call-silent', 'C18', (MD, '''        if (type.isClass())
            (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
        else if (type.isClassPtr())
            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
        else
            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
                                   type_name<class_ref_t>()};
''', '''        if (type.isClass())
            (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
        else if (type.isClassPtr())
            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
'''))
bug('call-copy-object', 'C18', (MD, 'return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));\n        else if', '{ auto object = instance.to<C>(); return reference_get((object.*func)(args[I]->value<argument_get_t<I>>()...)); }\n        else if'))
bug('result-copied', 'C18', (MD, 'return std::ref(func(args[I]->value<argument_get_t<I>>()...));', '{ auto &&r = func(args[I]->value<argument_get_t<I>>()...); return variant{r}; }'))
bug('result-dropped', 'C18', (MD, 'return func(args[I]->value<argument_get_t<I>>()...);', '{ func(args[I]->value<argument_get_t<I>>()...); return variant::empty_variant; }'))
bug('result-forward-copy', 'C18', (MD, '            return std::ref(std::forward<R>(result));', '            return variant{static_cast<std::decay_t<R> const&>(result)};'))
bug('invoke-form', 'C18', (MMI, 'if (interface->isStatic())', 'if (!interface->isStatic())'))
bug('invoke-noform', 'C18', (VI, '''            throw runtime_error{"Method ["s + name + "] isn't found in class T = " + type.typeName()};''', '''            return variant{};'''), nth=1)
bug('invoke-base-name', 'C18', (VI, 'if (auto mt_method = mt_class->getMethod(name))', 'if (auto mt_method = mt_class->getMethod(name.substr(0, name.find("("))))'))
bug('invoke-const-instance', 'C18', (VI, 'return mt_method->invoke(*this, std::forward<Args>(args)...);', 'return mt_method->invoke(std::as_const(*this), std::forward<Args>(args)...);'))
bug('invoke-no-forward', 'C18', (VI, 'return mt_method->invoke(*this, std::forward<Args>(args)...);', 'return mt_method->invoke(*this, args...);'))
bug('ctor-no-forward', 'C18', ('include/rtti/metaconstructor.h', 'return constructor()->invoke_static(std::forward<Args>(args)...);', 'return constructor()->invoke_static(args...);'))
same('args-index', 'C18', (MD, PACK, '''    std::size_t given = 0;
    while (given < result.size() && !result[given]->empty())
        ++given;

    if (given != count)'''))
same('args-findif', 'C18', (MD, PACK, '''    for (std::size_t i = 0; i < result.size(); ++i)
    {
        if (result[i]->empty())
            break;
        --count;
    }

    if (count != 0)'''))
same('object-first', 'C18', (MD, '''        if (type.isClass())
            (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
        else if (type.isClassPtr())
            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
        else
            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
                                   type_name<class_ref_t>()};
''', '''        if (type.isClass())
        {
            auto &object = instance.ref<class_t>();
            (object.*func)(args[I]->value<argument_get_t<I>>()...);
            return variant{};
        }
        if (!type.isClassPtr())
            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
                                   type_name<class_ref_t>()};
        auto *object = instance.to<class_ptr_t>();
        (object->*func)(args[I]->value<argument_get_t<I>>()...);
'''))
same('result-var', 'C18', (MD, 'return func(args[I]->value<argument_get_t<I>>()...);', '{ variant result = func(args[I]->value<argument_get_t<I>>()...); return result; }'))
same('ctor-var', 'C18', (MD, 'return C(args[I]->value<argument_get_t<I>>()...);', '{ return variant{C(args[I]->value<argument_get_t<I>>()...)}; }'))
same('byname-early', 'C18', (VI, '''    if (type.isClass() || type.isClassPtr())
    {
        if (auto *mt_class = this->metaClass())
        {
            if (auto mt_method = mt_class->getMethod(name))
                return mt_method->invoke(*this, std::forward<Args>(args)...);

            throw runtime_error{"Method ["s + name + "] isn't found in class T = " + type.typeName()};
        }
        throw runtime_error{"Class T = "s + type.typeName() + " isn't registered"};
    }
    throw runtime_error{"Type T = "s + type.typeName() + " isn't Class or ClassPtr"};''', '''    if (!type.isClass() && !type.isClassPtr())
        throw runtime_error{"Type T = "s + type.typeName() + " isn't Class or ClassPtr"};
    auto *owner = metaClass();
    if (!owner)
        throw runtime_error{"Class T = "s + type.typeName() + " isn't registered"};
    auto const *method = owner->getMethod(name);
    if (!method)
        throw runtime_error{"Method ["s + name + "] isn't found in class T = " + type.typeName()};
    return method->invoke(*this, std::forward<Args>(args)...);'''))

# C15
VV = 'include/rtti/variant.h'
bug('cast-no-compat', 'C15', (VV, '''            if (MetaType::compatible(from, to))
            {
                if (from.decayId() == to.decayId())
                    result =''', '''            {
                if (from.decayId() == to.decayId())
                    result ='''))
bug('cast-compat-swapped', 'C15', (VV, '''            if (MetaType::compatible(from, to))
            {
                if (from.decayId() == to.decayId())
                    result =''', '''            if (MetaType::compatible(to, from))
            {
                if (from.decayId() == to.decayId())
                    result ='''))
bug('cast-no-decay', 'C15', (VV, '''                if (from.decayId() == to.decayId())
                    result = static_cast<Decay const *>(self.raw_data_ptr());
                else if (auto ptr = cast(self, from, tag_t{}))
                    result = static_cast<Decay const *>(ptr);''', '''                if (auto ptr = cast(self, from, tag_t{}))
                    result = static_cast<Decay const *>(ptr);
                else
                    result = static_cast<Decay const *>(self.raw_data_ptr());'''))
bug('is-or', 'C15', (VV, 'return MetaType::compatible(from, to) &&\n                ((from', 'return MetaType::compatible(from, to) ||\n                ((from'))
bug('is-typeid', 'C15', (VV, '(from.decayId() == to.decayId()) ||', '(from.typeId() == to.typeId()) ||'))
bug('is-reversed', 'C15', (VV, 'return fromClass->inheritedFrom(toClass);', 'return toClass->inheritedFrom(fromClass);'))
bug('is-static-class', 'C15', (VV, '''            auto fromClass = MetaClass::find(info.typeId);
            auto toClass   = MetaClass::find(metaTypeId<C>());
            if (!fromClass || !toClass)
                return false;''', '''            auto fromClass = MetaClass::find(MetaType{self.internalTypeId()}.decayId());
            auto toClass   = MetaClass::find(metaTypeId<C>());
            if (!fromClass || !toClass)
                return false;'''))
bug('cast-raw-instance', 'C15', (VV, '            return fromClass->cast(toClass, info.instance, {});', '            return fromClass->cast(toClass, self.raw_data_ptr(), {});'))
bug('cast-noadjust', 'C15', (VV, '            return fromClass->cast(toClass, info.instance, {});', '            return fromClass->inheritedFrom(toClass) ? info.instance : nullptr;'))
bug('cast-subobj-ptr', 'C15', (VV, '                    if (ptr == self.storage.ptr)\n                        return', '                    if (ptr)\n                        return'))
bug('cast-null', 'C15', (VV, '''            if (!result)
                throw bad_variant_cast{"Incompatible''', '''            if (!result && from.typeSize() != 8)
                throw bad_variant_cast{"Incompatible'''))
bug('cast-wrong-exc', 'C15', (VV, 'throw bad_variant_cast{"Incompatible types: "s', 'throw invoke_error{"Incompatible types: "s'))
bug('data-throws', 'C15', (VV, '''        try
        {
            return metafunc_cast<U>::invoke(*this, fromId, toId);
        }
        catch (...)
        {
            return nullptr;
        }''', '''        if (empty())
            return nullptr;
        return metafunc_cast<U>::invoke(*this, fromId, toId);'''))
bug('to-convert-first', 'C15', (VV, '''            if (MetaType::compatible(from, to))
            {
                if (from.decayId() == to.decayId())
                {
                    to.copy''', '''            if (MetaType::convert(self.raw_data_ptr(), from, buffer, to))
                return;

            if (MetaType::compatible(from, to))
            {
                if (from.decayId() == to.decayId())
                {
                    to.copy'''))
bug('to-moves', 'C15', (VV, '                    to.copy_construct(self.raw_data_ptr(), buffer);', '                    to.move_construct(const_cast<void*>(self.raw_data_ptr()), buffer);'))
bug('to-slices', 'C15', (VV, '''                if (auto ptr = cast_imp(self))
                {
                    to.copy_construct(ptr, buffer);''', '''                if (cast_imp(self))
                {
                    to.copy_construct(self.raw_data_ptr(), buffer);'''))
bug('to-ptr-direct', 'C15', (VV, '                    to.copy_construct(&ptr, buffer);', '                    to.copy_construct(ptr, buffer);'))
bug('to-convert-result', 'C15', (VV, '''            if (MetaType::convert(self.raw_data_ptr(), from, buffer, to))
                return;

            throw bad_variant_convert{"Incompatible types: "s + from''', '''            if (MetaType::hasConverter(from, to))
            {
                MetaType::convert(self.raw_data_ptr(), from, buffer, to);
                return;
            }

            throw bad_variant_convert{"Incompatible types: "s + from'''))
bug('is-no-empty', 'C15', (VV, """            if (self.empty())
                return false;

            auto from = MetaType{typeId};
            auto to = MetaType{metaTypeId<T>()};
""", """            auto from = MetaType{typeId};
            auto to = MetaType{metaTypeId<T>()};
"""))
bug('can-const-any', 'C15', (VV, '''        auto fromId = internalTypeId(type_attribute::LREF_CONST);
        auto toId   = metaTypeId<T>();
        if (MetaType::hasConverter(fromId, toId))''', '''        auto fromId = internalTypeId(type_attribute::LREF_CONST);
        auto toId   = metaTypeId<T>();
        if (MetaType::hasConverter(toId, fromId))'''))
bug('try-true', 'C15', (VV, '''        catch (...)
        {
            return false;
        }
    }

    template<typename ...Args>''', '''        catch (...)
        {
            return !empty();
        }
    }

    template<typename ...Args>'''))
bug('cref-other-type', 'C15', (VV, '''        using U = std::add_const_t<std::remove_reference_t<T>>;

        auto fromId = internalTypeId(type_attribute::LREF_CONST);
        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();

        auto const *result''', '''        using U = std::add_const_t<std::remove_reference_t<T>>;

        auto fromId = internalTypeId(type_attribute::LREF_CONST);
        auto toId   = metaTypeId<std::remove_const_t<U>>();

        auto const *result''', ), nth=1)
bug('is-class-ptr-class', 'C15', (VV, '            if (from.isClassPtr())\n                return cast_imp(self);\n            return false;', '            if (from.isClassPtr())\n                return true;\n            return false;'))
bug('array-decay', 'C15', (VV, 'return reinterpret_cast<T *>(*result);', 'return (T *)(result);'))

same('cast-early', 'C15', (VV, '''            Decay const *result = nullptr;

            auto from = MetaType{fromId};
            auto to   = MetaType{toId};
            if (MetaType::compatible(from, to))
            {
                if (from.decayId() == to.decayId())
                    result = static_cast<Decay const *>(self.raw_data_ptr());
                else if (auto ptr = cast(self, from, tag_t{}))
                    result = static_cast<Decay const *>(ptr);
            }

            if (!result)
                throw bad_variant_cast{"Incompatible types: "s + from.typeName() + " -> " + to.typeName()};
''', '''            auto from = MetaType{fromId};
            auto to   = MetaType{toId};
            auto const fail = [&]() { return bad_variant_cast{"Incompatible types: "s + from.typeName() + " -> " + to.typeName()}; };
            if (!MetaType::compatible(from, to))
                throw fail();

            void const *found = from.decayId() == to.decayId() ? self.raw_data_ptr() : cast(self, from, tag_t{});
            if (found == nullptr)
                throw fail();
            auto result = static_cast<Decay const *>(found);
'''))
same('is-ifs', 'C15', (VV, '''            return MetaType::compatible(from, to) &&
                ((from.decayId() == to.decayId()) || cast(self, from, tag_t{}));''', '''            if (!MetaType::compatible(from, to))
                return false;
            bool const sameType = to.decayId() == from.decayId();
            if (sameType)
                return true;
            return cast(self, from, tag_t{});'''))
same('is-cast-null', 'C15', (VV, 'return fromClass->inheritedFrom(toClass);', '{ bool result = fromClass->inheritedFrom(toClass); return result; }'))
same('to-restructured', 'C15', (VV, '''            if (MetaType::compatible(from, to))
            {
                if (from.decayId() == to.decayId())
                {
                    to.copy_construct(self.raw_data_ptr(), buffer);
                    return;
                }
                else if (cast(self, from, to, buffer, tag_t{}))
                    return;
            }

            if (MetaType::convert(self.raw_data_ptr(), from, buffer, to))
                return;

            throw bad_variant_convert{"Incompatible types: "s + from.typeName() + " -> " + to.typeName()};''', '''            bool done = false;
            if (MetaType::compatible(from, to))
            {
                bool const identical = from.decayId() == to.decayId();
                if (identical)
                    to.copy_construct(self.raw_data_ptr(), buffer);
                done = identical || cast(self, from, to, buffer, tag_t{});
            }
            if (!done)
                done = MetaType::convert(self.raw_data_ptr(), from, buffer, to);
            if (!done)
                throw bad_variant_convert{"Incompatible types: "s + from.typeName() + " -> " + to.typeName()};'''))
same('can-or', 'C15', (VV, '''        if (is<T>())
            return true;

        auto fromId = internalTypeId(type_attribute::LREF);
        auto toId   = metaTypeId<T>();
        if (MetaType::hasConverter(fromId, toId))
            return true;

        return false;''', '''        return is<T>() || MetaType::hasConverter(internalTypeId(type_attribute::LREF), metaTypeId<T>());'''))
same('try-flag', 'C15', (VV, '''        try
        {
            *this = to<T>();
            return true;
        }
        catch (...)
        {
            return false;
        }''', '''        bool ok = false;
        try
        {
            T value = to<T>();
            *this = std::move(value);
            ok = true;
        }
        catch (...)
        {
        }
        return ok;'''))
same('cref-via-ref', 'C15', (VV, '''        auto fromId = internalTypeId(type_attribute::LREF);
        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();

        auto const *result = metafunc_cast<U>::invoke(*this, fromId, toId);
        return *result;''', '''        return *metafunc_cast<U>::invoke(*this, internalTypeId(type_attribute::LREF), metaTypeId<U&>());'''))

# C16
bug('compat-noconst-lref', 'C16', (MT, 'if (!fromType.isLvalueReference() && toType.isLvalueReference() && !toType.isConst())', 'if (!fromType.isReference() && toType.isLvalueReference() && !toType.isConst())'))
bug('compat-rref', 'C16', (MT, 'if (fromType.isLvalueReference() && toType.isRvalueReference())\n', 'if (fromType.isLvalueReference() && toType.isRvalueReference() && !toType.isConst())\n'))
bug('compat-array', 'C16', (MT, '(fromType.typeSize() < toType.typeSize())', '(fromType.typeSize() > toType.typeSize())'))
bug('compat-arity-decay', 'C15', (MT, 'if (fromType.isArray() && toType.isPointer())\n        ++arity1', 'if (fromType.isArray())\n        ++arity1'))
bug('compat-arity-less', 'C16', (MT, 'if (arity1 != toType.m_typeInfo->arity)', 'if (arity1 < toType.m_typeInfo->arity)'))
bug('compat-skip-level', 'C16', (MT, '''        if (!arity1)
            return true;
        --arity1;''', '''        if (arity1 < 2)
            return true;
        --arity1;'''))
bug('compat-loop-start', 'C16', (MT, 'for (decltype(arity1) i = 0; i <= arity1; ++i)\n    {\n        auto f', 'for (decltype(arity1) i = 1; i <= arity1; ++i)\n    {\n        auto f'))
bug('compat-loop-end', 'C16', (MT, 'for (decltype(arity1) i = 0; i <= arity1; ++i)\n    {\n        auto f', 'for (decltype(arity1) i = 0; i < arity1; ++i)\n    {\n        auto f'))
bug('compat-inner-end', 'C16', (MT, 'for (decltype(arity1) j = i + 1; j <= arity1; ++j)', 'for (decltype(arity1) j = i + 1; j < arity1; ++j)'))
bug('compat-inner-start', 'C16', (MT, 'for (decltype(arity1) j = i + 1; j <= arity1; ++j)', 'for (decltype(arity1) j = i + 2; j <= arity1; ++j)'))
bug('compat-arrayref', 'C16', (MT, '        from.set(arity1);', '        to.set(arity1);'))
bug('compat-swap-ft', 'C16', (MT, '        if (f && !t)\n            return false;', '        if (!f && t && i == 0)\n            return false;'))
bug('const-is-lref', 'C16', (VV, '''        auto typeId = internalTypeId(type_attribute::LREF_CONST);
        return metafunc_is''', '''        auto typeId = internalTypeId(type_attribute::LREF);
        return metafunc_is'''))
bug('const-to-lref', 'C16', (VV, '''        auto typeId = internalTypeId(type_attribute::LREF_CONST);
        metafunc_to''', '''        auto typeId = internalTypeId(type_attribute::LREF);
        metafunc_to'''))
bug('const-data-rref', 'C16', (VV, '''        auto fromId = internalTypeId(type_attribute::LREF_CONST);
        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();
        try''', '''        auto fromId = internalTypeId(type_attribute::RREF);
        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();
        try'''))
bug('data-const-T', 'C16', (VV, '''    T const* data() const
    {
        using U = std::add_const_t<std::remove_reference_t<T>>;
''', '''    T* data() const
    {
        using U = std::remove_reference_t<T>;
'''))
bug('ref-temp-mutable', 'C16', (VV, '''    T const& ref() &&
    {
        using U = std::add_const_t<std::remove_reference_t<T>>;

        auto fromId = internalTypeId(type_attribute::NONE);''', '''    T& ref() &&
    {
        using U = std::remove_reference_t<T>;

        auto fromId = internalTypeId(type_attribute::LREF);'''), (VV, "        auto *result = metafunc_cast<U>::invoke(*this, fromId, toId);\n        return std::move(*result);\n    }\n\n    template<typename T>\n    T&& rref() &&", "        auto *result = metafunc_cast<U>::invoke(*this, fromId, toId);\n        return *result;\n    }\n\n    template<typename T>\n    T&& rref() &&"))
bug('cref-mutable', 'C16', (VV, '    T const& cref()\n', '    T& cref()\n'), (VV, '        auto const *result = metafunc_cast<U>::invoke(*this, fromId, toId);\n        return *result;\n    }\n\n    template<typename T>\n    T const& cref() const', '        auto const *result = metafunc_cast<U>::invoke(*this, fromId, toId);\n        return const_cast<T&>(*result);\n    }\n\n    template<typename T>\n    T const& cref() const'))
bug('rref-lvalue', 'C16', (VV, '    T&& rref() &&\n', '    T&& rref()\n'))
bug('get-field-mutable', 'C16', (MD, 'return std::ref(instance.ref<C const>().*property);', 'return std::ref(const_cast<C&>(instance.ref<C const>()).*property);'))
bug('get-field-constcast', 'C16', (MD, 'return std::ref(instance.ref<C const>().*property);', 'return std::cref(const_cast<variant&>(instance).ref<C>().*property);'))
bug('set-field-const', 'C16', (MD, '''                throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
                                       type_name<class_ref_t>()};
            else if (type.isClassPtr())
                instance.to<C*>()''', '''                const_cast<C&>(instance.ref<C const>()).*property = arg.value<T>();
            else if (type.isClassPtr())
                instance.to<C*>()'''))
bug('method-const-cast', 'C16', (MD, '''            else
                throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
                                       type_name<class_ref_t>()};
        }
        else if (type.isClassPtr())
            return reference_get(''', '''            else
                return reference_get((const_cast<variant&>(instance).ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
        }
        else if (type.isClassPtr())
            return reference_get('''))
bug('invoke-method-cast', 'C16', (MD, '''    {
        return invoker_t::invoke(m_func, instance,
                                         arg0,''', '''    {
        return invoker_t::invoke(m_func, const_cast<variant&>(instance),
                                         arg0,'''))
bug('variant-invoke-cast', 'C16', (VI, '''            if (auto *mt_method = mt_class->getMethod(name))
                return mt_method->invoke(*this,''', '''            if (auto *mt_method = mt_class->getMethod(name))
                return mt_method->invoke(const_cast<variant&>(*this),'''))
bug('set-property-const', 'C16', (VV, '    void set_property(std::string_view name, T &&value);', '    void set_property(std::string_view name, T &&value) const;'), (VI, 'void variant::set_property(std::string_view name, T &&value)\n', 'void variant::set_property(std::string_view name, T &&value) const\n'))

same('compat-helper', 'C16', (MT, '''    if (!fromType.isLvalueReference() && toType.isLvalueReference() && !toType.isConst())
        return false;
    if (fromType.isLvalueReference() && toType.isRvalueReference())
        return false;
''', '''    bool const lvalue = fromType.isLvalueReference();
    if (toType.isReference())
    {
        if (lvalue ? toType.isRvalueReference() : (toType.isLvalueReference() && !toType.isConst()))
            return false;
    }
'''))
same('compat-while', 'C16', (MT, '''            for (decltype(arity1) j = i + 1; j <= arity1; ++j)
                if (!to.test(j))
                    return false;
            break;''', '''            auto j = i;
            while (++j <= arity1)
            {
                if (!to[j])
                    return false;
            }
            break;'''))
same('compat-noshort', 'C16', (MT, '''    if (from == to)
        return true;

''', ''))
same('set-field-order', 'C16 C19', (MD, '''            if (type.isClass())
                instance.ref<C>().*property = arg.value<T>();
            else if (type.isClassPtr())
                instance.to<C*>()->*property = arg.value<T>();
            else
                throw bad_variant_cast''', '''            if (type.isClass())
            {
                C &object = instance.ref<C>();
                object.*property = arg.value<T>();
            }
            else if (type.isClassPtr())
            {
                auto *object = instance.to<C*>();
                object->*property = arg.value<T>();
            }
            else
                throw bad_variant_cast'''))
same('get-field-cref', 'C16 C19', (MD, 'return std::ref(instance.ref<C const>().*property);', 'return std::cref(instance.ref<C>().*property);'))

bug('compat-same-early', 'C15', (MT, """    // check array length
    if (fromType""", """    if (fromType.isConst() && toType.isConst() && !toType.isReference())
        return false;
    // check array length
    if (fromType"""))
bug('compat-rvalue-const', 'C15', (MT, 'if (!fromType.isLvalueReference() && toType.isLvalueReference() && !toType.isConst())', 'if (!fromType.isLvalueReference() && toType.isLvalueReference())'))
bug('ref-attr-const', 'C15', (VV, """        auto fromId = internalTypeId(type_attribute::LREF);
        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();

        auto *result""", """        auto fromId = internalTypeId(type_attribute::LREF_CONST);
        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();

        auto *result"""))
bug('rref-attr-lref', 'C15 C16', (VV, 'auto fromId = internalTypeId(type_attribute::RREF);', 'auto fromId = internalTypeId(type_attribute::LREF);'))

# C19
bug('prop-readonly', 'C19', (MD, '''    static bool readOnly()
    { return is_readonly_property_v<T>; }

    static variant get_static(P property)''', '''    static bool readOnly()
    { return std::is_const_v<P>; }

    static variant get_static(P property)'''))
bug('prop-readonly-field', 'C19', (MD, '''    static bool readOnly()
    { return is_readonly_property_v<T>; }

    static variant get_static(P)''', '''    static bool readOnly()
    { return !std::is_copy_assignable_v<T> && false; }

    static variant get_static(P)'''))
bug('prop-write-const', 'C19', (MD, '''        if constexpr(is_readonly_property_v<T>)
            throw invoke_error{"Write to readonly property"};
        else
            *property = arg.value<T>();''', '''        if constexpr(std::is_const_v<T>)
            const_cast<std::remove_const_t<T>&>(*property) = arg.value<T>();
        else
            *property = arg.value<T>();'''))
bug('prop-silent-const', 'C19', (MD, '''    static void set_field(P property, variant const &instance, argument const &arg)
    {
        using namespace std::literals;
        if constexpr(is_readonly_property_v<T>)
            throw invoke_error{"Write to readonly property"};''', '''    static void set_field(P property, variant const &instance, argument const &arg)
    {
        using namespace std::literals;
        if constexpr(is_readonly_property_v<T>)
            return;'''))
bug('prop-set-copy', 'C19', (MD, '''            if (type.isClass())
                instance.ref<C>().*property = arg.value<T>();''', '''            if (type.isClass())
            {
                auto object = instance.ref<C>();
                object.*property = arg.value<T>();
            }'''))
bug('prop-set-else', 'C19', (MD, '''                instance.ref<C>().*property = arg.value<T>();
            else if (type.isClassPtr())
                instance.to<C*>()->*property = arg.value<T>();
            else
                throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
                                       type_name<class_ref_t>()};''', '''                instance.ref<C>().*property = arg.value<T>();
            else if (type.isClassPtr())
                instance.to<C*>()->*property = arg.value<T>();'''))
bug('prop-set-converted', 'C19', (MD, '''            if (type.isClass())
                instance.ref<C>().*property = arg.value<T>();''', '''            if (type.isClass())
                instance.to<C>().*property = arg.value<T>();'''))
bug('prop-get-copy', 'C19', (MD, 'return std::ref(instance.to<C const *>()->*property);', 'return std::ref((new C{*instance.to<C const *>()})->*property);'))
bug('prop-set-twice', 'C19', (MD, '            *property = arg.value<T>();', '            *property = *property = arg.value<T>();'))
bug('propex-get-set', 'C19', (MD, '''    void set_field(variant &instance, argument arg) const override
    { MethodInvoker<S>{m_set}.invoke_method(instance, std::move(arg)); }''', '''    void set_field(variant &instance, argument arg) const override
    { MethodInvoker<G>{m_get}.invoke_method(instance); }'''))
bug('propex-const', 'C19', (MD, '''    void set_field(variant &instance, argument arg) const override
    { MethodInvoker<S>{m_set}.invoke_method(instance, std::move(arg)); }''', '''    void set_field(variant &instance, argument arg) const override
    { set_field(static_cast<variant const&>(instance), std::move(arg)); }'''))
bug('propex-twice', 'C19', (MD, '    { MethodInvoker<S>{m_set}.invoke_static(std::move(arg)); }', '    { MethodInvoker<S>{m_set}.invoke_static(std::move(arg)); if (get_static().empty()) MethodInvoker<G>{m_get}.invoke_static(); }'))
bug('propex-static', 'C19', (MD, '    { return is_static_v<G>; }', '    { return is_static_v<S> && std::is_function_v<G>; }'))
bug('prop-get-form', 'C19', (VV, '''        if (interface->isStatic())
            throw invoke_error{"Trying to get field property " + qualifiedName()
                               + " as static property"};
        return interface->get_field(instance);''', '''        if (interface->isStatic())
            return interface->get_static();
        return interface->get_field(instance);'''))
bug('prop-set-form', 'C19', (VV, '''        if (!interface->isStatic())
            throw invoke_error{"Trying to set static property " + qualifiedName()
                               + " as field property"};
        interface''', '''        if (!interface->isStatic() && interface->readOnly())
            throw invoke_error{"Trying to set static property " + qualifiedName()
                               + " as field property"};
        interface'''))
bug('prop-set-constinst', 'C19', (VV, '''    void set_impl(mpl::index_sequence<0, 1>, variant &instance, Arg &&arg) const
    {
        auto interface = invoker();
        if (interface->isStatic())
            throw invoke_error{"Trying to set field property " + qualifiedName()
                               + " as static property"};
        interface->set_field(instance,''', '''    void set_impl(mpl::index_sequence<0, 1>, variant &instance, Arg &&arg) const
    {
        auto interface = invoker();
        if (interface->isStatic())
            throw invoke_error{"Trying to set field property " + qualifiedName()
                               + " as static property"};
        interface->set_field(std::as_const(instance),'''))
bug('prop-set-noforward', 'C19', (VV, '        interface->set_static(std::forward<Arg>(arg));', '        interface->set_static(arg);'))
bug('prop-ro', 'C19', (VV, 'bool readOnly() const { return invoker()->readOnly(); }', 'bool readOnly() const { return invoker()->readOnly() && invoker()->isStatic(); }'))
bug('byname-set-get', 'C19', (VI, 'return mt_property->set(*this, std::forward<T>(value));', 'return mt_property->set(variant{*this}, std::forward<T>(value));'))
bug('byname-silent', 'C19', (VI, '''            if (auto *mt_property = mt_class->getProperty(name))
                return mt_property->set(*this, std::forward<T>(value));
''', '''            if (auto *mt_property = mt_class->getProperty(name))
            {
                if (!mt_property->readOnly())
                    mt_property->set(*this, std::forward<T>(value));
                return;
            }
'''))
same('prop-get-branch', 'C19', (MD, '''        if (type.isClass())
            return std::ref(instance.ref<C const>().*property);
        else if (type.isClassPtr())
            return std::ref(instance.to<C const *>()->*property);
        throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
                               type_name<class_ref_t>()};''', '''        C const *object = nullptr;
        if (type.isClass())
            object = &instance.ref<C const>();
        else if (type.isClassPtr())
            object = instance.to<C const *>();
        else
            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
                                   type_name<class_ref_t>()};
        return std::cref(object->*property);'''))
same('prop-set-value', 'C19', (MD, '            *property = arg.value<T>();', '        {\n            auto &target = *property;\n            target = arg.value<T>();\n        }'))
same('prop-check-helper', 'C19', (VV, '''    variant get_impl(mpl::index_sequence<>) const
    {
        auto interface = invoker();
        if (!interface->isStatic())
            throw invoke_error{"Trying to get static property " + qualifiedName()
                               + " as field property"};
        return interface->get_static();
    }''', '''    IPropertyInvoker const* checked(bool isStatic) const
    {
        auto *result = invoker();
        if (result->isStatic() != isStatic)
            throw invoke_error{"Wrong access to property " + qualifiedName()};
        return result;
    }

    variant get_impl(mpl::index_sequence<>) const
    {
        return checked(true)->get_static();
    }'''))
same('byname-early19', 'C19', (VI, '''    auto type = MetaType{typeId()};
    if (type.isClass() || type.isClassPtr())
    {
        if (auto *mt_class = this->metaClass())
        {
            if (auto *mt_property = mt_class->getProperty(name))
                return mt_property->set(*this, std::forward<T>(value));

            throw runtime_error{"Property ["s + name + "] isn't found in class T = " + type.typeName()};
        }
        throw runtime_error{"Class T = "s + type.typeName() + " isn't registered"};
    }
    throw runtime_error{"Type T = "s + type.typeName() + " isn't Class or ClassPtr"};''', '''    auto type = MetaType{typeId()};
    if (!type.isClass() && !type.isClassPtr())
        throw runtime_error{"Type T = "s + type.typeName() + " isn't Class or ClassPtr"};
    auto *mt_class = metaClass();
    if (!mt_class)
        throw runtime_error{"Class T = "s + type.typeName() + " isn't registered"};
    auto *mt_property = mt_class->getProperty(name);
    if (!mt_property)
        throw runtime_error{"Property ["s + name + "] isn't found in class T = " + type.typeName()};
    mt_property->set(*this, std::forward<T>(value));'''))
same('propex-var', 'C19', (MD, '    { MethodInvoker<S>{m_set}.invoke_static(std::move(arg)); }', '    {\n        auto const setter = MethodInvoker<S>{m_set};\n        setter.invoke_static(std::move(arg));\n    }'))

# --- C12
bug('type-rref', 'C12', (VI, '        case type_attribute::RREF:\n            return metaTypeId<URref>();', '        case type_attribute::RREF:\n            return metaTypeId<ULref>();', 2))
bug('type-nonconst', 'C12', (VI, 'using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;', 'using UConstLref = std::add_lvalue_reference_t<U>;', 3))
bug('type-keeps-const', 'C12', (VI, 'private:\n    using U = std::remove_cv_t<T>;', 'private:\n    using U = T;'))
bug('ref-access-holder', 'C12', (VI, '            return value.ptr;\n    }\n\n    static void copy_construct(void const *value, variant_type_storage &storage) noexcept', '            return &value.ptr;\n    }\n\n    static void copy_construct(void const *value, variant_type_storage &storage) noexcept'))
bug('ref-destroys', 'C12', (VI, '    { /* do nothing */ }', '    { if constexpr(!std::is_array_v<U>) if constexpr(std::is_class_v<U>) type_manager_t<Decay>::destroy(value.ptr); }'), (VI, 'destroy(variant_type_storage&) noexcept', 'destroy(variant_type_storage &value) noexcept'))
bug('copy-moves12', 'C12', (VI, 'type_manager_t<Decay>::copy_construct(&src.buffer, &dst.buffer);', 'type_manager_t<Decay>::move_or_copy(const_cast<void*>(static_cast<void const*>(&src.buffer)), &dst.buffer);'))
bug('copy-backwards', 'C12', (VI, 'type_manager_t<Decay>::move_or_copy(&src.buffer, &dst.buffer);', 'type_manager_t<Decay>::move_or_copy(&dst.buffer, &src.buffer);'))
bug('copy-shares', 'C12', (VI, '''        auto *ptr = type_manager_t<Decay>::allocate();
        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
        type_manager_t<Decay>::copy_construct(src.ptr, ptr);
        guard.dismiss();
        dst.ptr = ptr;''', '''        dst.ptr = src.ptr;'''))
bug('heap-noguard', 'C12', (VI, '''        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
        type_manager_t<Decay>::move_or_copy(value, ptr);
        guard.dismiss();''', '''        type_manager_t<Decay>::move_or_copy(value, ptr);'''))
bug('heap-nodismiss', 'C12', (VI, '''        type_manager_t<Decay>::copy_construct(value, ptr);
        guard.dismiss();''', '''        type_manager_t<Decay>::copy_construct(value, ptr);'''))
bug('heap-nodestroy', 'C12', (VI, '        type_manager_t<Decay>::destroy(value.ptr);\n        type_manager_t<Decay>::deallocate(value.ptr);', '        type_manager_t<Decay>::deallocate(value.ptr);'))
bug('array-leak', 'C12', (VI, '        type_manager_t<Decay>::destroy(value.ptr);\n        type_manager_t<Decay>::deallocate(value.ptr);', '        type_manager_t<Decay>::destroy(value.ptr);', 2))
bug('heap-cmp-holder', 'C12', (VI, '        return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);', '        return type_manager_t<Decay>::compare_eq(&lhs.ptr, rhs);', 2))
bug('info-static', 'C12', (VI, 'return ptr->classInfo();', 'return ptr->C::classInfo();'))
bug('info-holder', 'C12', (VI, '''                    return ClassInfo{metaTypeId<C>(), *ptr};''', '''                    return ClassInfo{metaTypeId<C>(), ptr};'''))
bug('info-null', 'C12', (VI, '''                    if (!*ptr)
                        return ClassInfo{metaTypeId<C>(), nullptr};
''', ''))
bug('info-empty-null', 'C12', (VI, 'return ClassInfo{metaTypeId<C>(), nullptr};', 'return ClassInfo{};'))
bug('slots-swapped', 'C12', (VI, '        &variant_function_table_impl<T>::copy,\n        &variant_function_table_impl<T>::move,', '        &variant_function_table_impl<T>::copy,\n        reinterpret_cast<variant_function_table::move_t>(&variant_function_table_impl<T>::copy),'))
bug('ref-nx', 'C12', (VI, 'noexcept(has_nt_eq_v<Base, Base>)', 'noexcept(has_nt_eq_v<Decay, Decay>)'))
bug('ref-addr', 'C12', (VI, 'storage.ptr = const_cast<Decay*>(std::addressof(ptr->get()));', 'storage.ptr = const_cast<Wrapper*>(ptr);', 2))
bug('void-eq', 'C12', (VI, '[] (variant_type_storage const&, void const*) noexcept -> bool { return false; },', '[] (variant_type_storage const&, void const*) noexcept -> bool { return true; },'))
same('slots-ptr12', 'C12', (VI, 'type_manager_t<Decay>::copy_construct(&src.buffer, &dst.buffer);', 'void const *from = &src.buffer;\n        auto *to = &dst.buffer;\n        type_manager_t<Decay>::copy_construct(from, to);'))
same('heap-try', 'C12', (VI, '''        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
        type_manager_t<Decay>::copy_construct(src.ptr, ptr);
        guard.dismiss();
        dst.ptr = ptr;''', '''        try
        {
            type_manager_t<Decay>::copy_construct(src.ptr, ptr);
        }
        catch (...)
        {
            type_manager_t<Decay>::deallocate(ptr);
            throw;
        }
        dst.ptr = ptr;'''))
same('heap-helper', 'C12', (VI, '''        auto *ptr = type_manager_t<Decay>::allocate();
        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
        type_manager_t<Decay>::copy_construct(src.ptr, ptr);
        guard.dismiss();
        dst.ptr = ptr;
    }
''', '''        dst.ptr = clone(src.ptr);
    }

    static void* clone(void const *source)
    {
        auto *ptr = type_manager_t<Decay>::allocate();
        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
        type_manager_t<Decay>::copy_construct(source, ptr);
        guard.dismiss();
        return ptr;
    }
'''))
same('heap-handover', 'C12', (VI, '        std::swap(src.ptr, dst.ptr);', '        dst.ptr = src.ptr;\n        src.ptr = nullptr;'))
same('heap-exchange', 'C12', (VI, '        std::swap(src.ptr, dst.ptr);', '        dst.ptr = std::exchange(src.ptr, nullptr);'))
same('move-ends', 'C12', (VI, '        type_manager_t<Decay>::move_or_copy(&src.buffer, &dst.buffer);', '        type_manager_t<Decay>::move_or_copy(&src.buffer, &dst.buffer);\n        type_manager_t<Decay>::destroy(&src.buffer);'))
same('info-early', 'C12', (VI, '''                    if (!*ptr)
                        return ClassInfo{metaTypeId<C>(), nullptr};
                    return (*ptr)->classInfo();''', '''                    C const *object = *ptr;
                    if (object != nullptr)
                        return object->classInfo();
                    return ClassInfo{metaTypeId<C>(), object};'''))
same('type-if', 'C12', (VI, '''        switch (attr) {
        case type_attribute::NONE:
            return metaTypeId<U>();
        case type_attribute::LREF:
            return metaTypeId<ULref>();
        case type_attribute::RREF:
            return metaTypeId<URref>();
        case type_attribute::LREF_CONST:
            return metaTypeId<UConstLref>();
        default:
            return metaTypeId<U>();
        }''', '''        if (attr == type_attribute::LREF)
            return metaTypeId<ULref>();
        if (attr == type_attribute::RREF)
            return metaTypeId<URref>();
        if (attr == type_attribute::LREF_CONST)
            return metaTypeId<UConstLref>();
        return metaTypeId<U>();''', 2))

# --- C13
bug('fit-size-only', 'C13', (VI, 'bool Small = sizeof(T) <= STORAGE_SIZE && alignof(T) <= STORAGE_ALIGN>', 'bool Small = sizeof(T) <= STORAGE_SIZE>'))
bug('fit-align-twice', 'C13', (VI, 'alignof(T) <= STORAGE_ALIGN>', 'alignof(T) <= STORAGE_SIZE>'))
bug('fit-larger', 'C13', (VI, 'sizeof(T) <= STORAGE_SIZE &&', 'sizeof(T) <= STORAGE_SIZE + sizeof(void*) &&'))
bug('storage-smaller', 'C13', (VV, 'std::aligned_storage_t<STORAGE_SIZE, STORAGE_ALIGN> buffer;', 'std::aligned_storage_t<STORAGE_ALIGN, STORAGE_ALIGN> buffer;'))
bug('heap-free', 'C13', (VI, '        type_manager_t<Decay>::deallocate(value.ptr);', '        ::operator delete(value.ptr);'))
bug('heap-sized', 'C13', (MTH, '            return ::operator new(sizeof(T), std::align_val_t', '            return ::operator new(sizeof(void*), std::align_val_t'))
bug('alloc-plain13', 'C13', (MTH, '        if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)\n            return', '        if constexpr(alignof(T) > 64)\n            return'))
bug('leak-fail13', 'C13', (VI, '''        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
        type_manager_t<Decay>::copy_construct(value, ptr);
        guard.dismiss();''', '''        type_manager_t<Decay>::copy_construct(value, ptr);''', 2))
bug('array-base', 'C13', (VI, '        auto *ptr = type_manager_t<Decay>::allocate();\n        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };', '        auto *ptr = type_manager_t<Base>::allocate();\n        FINALLY_EX(guard) { type_manager_t<Base>::deallocate(ptr); };', 4))
same('fit-smaller', 'C13', (VI, 'sizeof(T) <= STORAGE_SIZE &&', 'sizeof(T) <= sizeof(void*) &&'))
same('storage-larger', 'C13', (VV, 'constexpr auto STORAGE_SIZE  = sizeof(void *) * 2;', 'constexpr auto STORAGE_SIZE  = sizeof(void *) * 4;'))
same('storage-aligned', 'C13', (VV, 'constexpr auto STORAGE_ALIGN = sizeof(void *);', 'constexpr auto STORAGE_ALIGN = 2 * sizeof(void *);'))

# ---------------------------------------------------------------- C11
SW_A = "        other.manager->f_move(other.storage, storage);\n        manager = other.manager;\n"
bug('swap-keeps-source-table', 'C11', (VV.replace('include/rtti/variant.h', 'src/variant.cpp'), "        manager = internal::variant_function_table_for<void>();\n        storage = storage_t{};\n        return;", "        storage = storage_t{};\n        return;"))
bug('swap-self', 'C11', ('src/variant.cpp', "    if (this == &other)\n        return;\n\n    auto", "    auto"))
bug('swap-table-first', 'C11', ('src/variant.cpp', SW_A, "        manager = other.manager;\n        manager->f_move(storage, other.storage);\n"))
bug('swap-wrong-table', 'C11', ('src/variant.cpp', "    other.manager->f_move(other.storage, storage);\n    manager->f_move(temporary", "    manager->f_move(other.storage, storage);\n    manager->f_move(temporary"))
bug('swap-tables-early', 'C11', ('src/variant.cpp', "    manager->f_move(temporary, other.storage);\n\n    swap(manager, other.manager);", "    swap(manager, other.manager);\n    manager->f_move(temporary, other.storage);"))
bug('swap-no-tables', 'C11', ('src/variant.cpp', "\n    swap(manager, other.manager);", "    (void)0;"))
bug('swap-bytes', 'C11', ('src/variant.cpp', "    storage_t temporary;\n    manager->f_move(storage, temporary);\n    other.manager->f_move(other.storage, storage);\n    manager->f_move(temporary, other.storage);\n", "    swap(storage, other.storage);\n"))
bug('swap-copies', 'C11', ('src/variant.cpp', "        other.manager->f_move(other.storage, storage);\n        manager = other.manager;", "        other.manager->f_copy(other.storage, storage);\n        manager = other.manager;"))
bug('clear-no-destroy', 'C11', ('src/variant.cpp', "    manager->f_destroy(storage);\n", ""))
bug('clear-keeps-table', 'C11', ('src/variant.cpp', "    manager->f_destroy(storage);\n    manager = internal::variant_function_table_for<void>();\n", "    manager->f_destroy(storage);\n"))
bug('clear-table-first', 'C11', ('src/variant.cpp', "    manager->f_destroy(storage);\n    manager = internal::variant_function_table_for<void>();\n", "    manager = internal::variant_function_table_for<void>();\n    manager->f_destroy(storage);\n"))
bug('dtor-nothing', 'C11', ('src/variant.cpp', "variant::~variant() noexcept\n{\n    clear();", "variant::~variant() noexcept\n{\n"))
bug('dtor-twice', 'C11', ('src/variant.cpp', "variant::~variant() noexcept\n{\n    clear();", "variant::~variant() noexcept\n{\n    manager->f_destroy(storage);\n    clear();"))
bug('copy-moves', 'C11', ('src/variant.cpp', "    manager->f_copy(other.storage, storage);", "    manager->f_move(const_cast<variant&>(other).storage, storage);"))
bug('copy-bytes', 'C11', ('src/variant.cpp', "    manager->f_copy(other.storage, storage);", "    storage = other.storage;"))
bug('copy-assign-in-place', 'C11', ('src/variant.cpp', "    if (this != &other)\n        variant{other}.swap(*this);", "    if (this != &other)\n    {\n        other.manager->f_copy(other.storage, storage);\n        manager = other.manager;\n    }"))
bug('copy-assign-clear-first', 'C11', ('src/variant.cpp', "    if (this != &other)\n        variant{other}.swap(*this);", "    clear();\n    variant{other}.swap(*this);"))
bug('copy-assign-weak', 'C11', ('src/variant.cpp', "        variant{other}.swap(*this);", "    {\n        clear();\n        variant{other}.swap(*this);\n    }"))
bug('move-assign-swaps', 'C11', ('src/variant.cpp', "        variant{std::move(other)}.swap(*this);", "        swap(other);"))
bug('move-ctor-copies', 'C11', ('src/variant.cpp', "{\n    swap(other);\n}", "{\n    manager = other.manager;\n    manager->f_move(other.storage, storage);\n}"))
bug('value-ctor-moves-lvalue', 'C11', (VI, "constexpr auto move = !std::is_reference_v<T> && !std::is_const_v<T>;", "constexpr auto move = !std::is_lvalue_reference_v<T const&> || !std::is_const_v<NoRef>;"))
bug('value-ctor-copies', 'C11', (VI, "using selector_t = std::conditional_t<move, std::true_type, std::false_type>;", "using selector_t = std::conditional_t<move && !std::is_copy_constructible_v<Type>, std::true_type, std::false_type>;"))
bug('value-ctor-decays', 'C11', (VI, ": manager{internal::variant_function_table_for<std::remove_reference_t<T>>()}", ": manager{internal::variant_function_table_for<std::decay_t<T>>()}"))
bug('value-assign-copies-lvalue', 'C11', (VI, "    variant{std::forward<T>(value)}.swap(*this);", "    variant{std::move(value)}.swap(*this);"))
bug('value-assign-lost', 'C11', (VI, "    variant{std::forward<T>(value)}.swap(*this);", "    variant temporary{std::forward<T>(value)};\n    manager->f_move(temporary.storage, storage);\n    std::swap(manager, temporary.manager);"))
bug('empty-by-type', 'C11', ('src/variant.cpp', "return (manager == internal::variant_function_table_for<void>());", "return (manager != internal::variant_function_table_for<void>());"))
bug('bool-inverted', 'C11', (VV, "{ return !empty(); }", "{ return empty(); }"))
bug('swap-one-way', 'C11', ('src/variant.cpp', "    if (!thisEmpty && otherEmpty)\n    {\n        manager->f_move(storage, other.storage);\n        other.manager = manager;\n", "    if (!thisEmpty && otherEmpty)\n    {\n        manager->f_destroy(storage);\n"))
same('swap-branches', 'C11', ('src/variant.cpp', "    if (thisEmpty && !otherEmpty)\n    {\n        other.manager->f_move(other.storage, storage);\n        manager = other.manager;\n\n        other.manager = internal::variant_function_table_for<void>();\n        other.storage = storage_t{};\n        return;\n    }\n", "    if (thisEmpty)\n    {\n        other.swap(*this);\n        return;\n    }\n"))
same('swap-all-moves', 'C11', ('src/variant.cpp', "    swap(manager, other.manager);\n}", "    auto const *mine = manager;\n    manager = other.manager;\n    other.manager = mine;\n}"))
same('swap-uniform', 'C11', ('src/variant.cpp', """    auto thisEmpty  = this->empty();
    auto otherEmpty = other.empty();
    if (thisEmpty && otherEmpty)
        return;
""", """    auto const thisEmpty  = !manager || manager == internal::variant_function_table_for<void>();
    auto const otherEmpty = other.manager == internal::variant_function_table_for<void>();
    if (!(!thisEmpty || !otherEmpty))
        return;
"""))
same('clear-guard', 'C11', ('src/variant.cpp', "    manager->f_destroy(storage);\n    manager = internal::variant_function_table_for<void>();\n    storage = storage_t{};", "    if (empty())\n        return;\n    manager->f_destroy(storage);\n    manager = internal::variant_function_table_for<void>();"))
same('clear-by-swap', 'C11', ('src/variant.cpp', "variant::~variant() noexcept\n{\n    clear();", "variant::~variant() noexcept\n{\n    manager->f_destroy(storage);"), ('src/variant.cpp', "    manager->f_destroy(storage);\n    manager = internal::variant_function_table_for<void>();\n    storage = storage_t{};", "    variant temporary;\n    temporary.swap(*this);"))
same('move-ctor-direct', 'C11', ('src/variant.cpp', "    : manager(internal::variant_function_table_for<void>())\n{\n    swap(other);\n}", "    : manager(other.manager)\n{\n    manager->f_move(other.storage, storage);\n    other.manager = internal::variant_function_table_for<void>();\n    other.storage = storage_t{};\n}"))
same('move-assign-clear', 'C11', ('src/variant.cpp', "        variant{std::move(other)}.swap(*this);", "    {\n        clear();\n        swap(other);\n    }"))
same('copy-assign-copy-swap', 'C11', ('src/variant.cpp', "    if (this != &other)\n        variant{other}.swap(*this);\n    return *this;", "    variant copy{other};\n    swap(copy);\n    return *this;"))
same('value-assign-named', 'C11', (VI, "    variant{std::forward<T>(value)}.swap(*this);", "    auto temporary = variant{std::forward<T>(value)};\n    swap(temporary);"))
same('value-ctor-if-constexpr', 'C11', (VI, "    constructor(std::addressof(value), selector_t{});", "    if constexpr(selector_t::value)\n        manager->f_move_construct(const_cast<std::remove_const_t<NoRef>*>(std::addressof(value)), storage);\n    else\n        manager->f_copy_construct(std::addressof(value), storage);"))

# --- C21
VC = 'src/variant.cpp'
bug('eq-empty-or', 'C21', (VC, "    if (empty() && value.empty())\n        return true;", "    if (empty() || value.empty())\n        return true;"))
bug('eq-empty-never', 'C21', (VC, "    if (empty() && value.empty())\n        return true;\n    if (empty() || value.empty())\n        return false;", "    if (empty() || value.empty())\n        return false;"))
bug('eq-no-decay', 'C21', (VC, "        if (mt_right.decayId() == mt_left.decayId())\n", "        if (mt_right.pointerArity() == mt_left.pointerArity())\n"))
bug('eq-no-compat', 'C21', (VC, "    if (MetaType::compatible(mt_right, mt_left))\n    {", "    {"))
bug('eq-compat-none', 'C21', (VC, "type_attribute::LREF_CONST", "type_attribute::RREF"))
bug('eq-left-none', 'C21', (VC, "auto mt_left  = MetaType{this->internalTypeId(type_attribute::LREF_CONST)}", "auto mt_left  = MetaType{this->internalTypeId(type_attribute::LREF)}"))
bug('eq-size', 'C21', (VC, "                if (mt_right.typeSize() != mt_left.typeSize())\n                    return false;\n", ""))
bug('eq-deref-right', 'C21', (VC, "if (mt_left.isArray())\n            {", "if (mt_right.isArray())\n            {"))
bug('eq-self-data', 'C21', (VC, "auto ptr = value.raw_data_ptr();", "auto ptr = raw_data_ptr();"))
bug('eq-other-storage', 'C21', (VC, "manager->f_compare_eq(storage, ptr)", "manager->f_compare_eq(value.storage, ptr)"))
bug('eq-negated', 'C21', (VC, "return manager->f_compare_eq(storage, ptr)", "return !manager->f_compare_eq(storage, ptr)"))
bug('eq-other-table', 'C21', (VC, "return manager->f_compare_eq(storage, ptr)", "return value.manager->f_compare_eq(storage, ptr)"))
bug('eq-same-table', 'C21', (VC, "    if (MetaType::compatible(mt_right, mt_left))\n    {", "    if (manager == value.manager)\n    {"))
bug('eq-type-only', 'C21', (VC, "            return manager->f_compare_eq(storage, ptr);", "            return manager == value.manager || manager->f_compare_eq(storage, ptr);"))
bug('neq-plain', 'C21', (VH, "return !(*this == value);", "return !eq(value);"))
bug('neq-eq', 'C21', (VH, "{ return !eq(value); }", "{ return !(*this == value); }"))
bug('value-eq-self', 'C21', (VH, "return (*this == variant{std::cref(value)});", "return (*this == variant{std::cref(*this)});"))
bug('conv-no-success', 'C21', (VI, "        if (MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value))\n        {", "        MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value);\n        {"))
bug('conv-wrong-source', 'C21', (VI, "MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value)", "MetaType::convert(std::addressof(value), mt_self, &buffer, mt_value)"))
bug('conv-swapped-types', 'C21', (VI, "MetaType::convert(address, mt_value, buffer, mt_self)", "MetaType::convert(address, mt_self, buffer, mt_value)"))
bug('conv-only-one', 'C21', (VI, "    if (!mt_self.isArray() && MetaType::hasConverter(mt_value, mt_self))\n", "    if (mt_self.isPointer() && MetaType::hasConverter(mt_value, mt_self))\n"))
bug('conv-true', 'C21', (VI, "            return mt_self.compare_eq(raw_data_ptr(), buffer);", "            return true;"))
bug('conv-self-compare', 'C21', (VI, "return mt_self.compare_eq(raw_data_ptr(), buffer);", "return mt_self.compare_eq(buffer, buffer);"))
bug('conv-wrong-type', 'C21', (VI, "return mt_self.compare_eq(raw_data_ptr(), buffer);", "return mt_value.compare_eq(raw_data_ptr(), buffer);"))
bug('conv-array-address', 'C21', (VI, "            address = std::addressof(tmp);\n\n        if (MetaType::convert(address, mt_value, buffer, mt_self))", "            address = tmp;\n\n        if (MetaType::convert(address, mt_value, buffer, mt_self))"))
bug('eq-variant-value', 'C21', (VI, "    if constexpr(std::is_same_v<T, variant>)\n        return *this == value;\n\n    if (*this == variant{std::cref(value)})", "    if (*this == variant{std::cref(value)})"))
bug('eq-has-reversed', 'C21', (VI, "!mt_value.isArray() && MetaType::hasConverter(mt_self, mt_value)", "!mt_value.isArray() && MetaType::hasConverter(mt_value, mt_self)"))
same('eq-order', 'C21', (VC, "    if (empty() && value.empty())\n        return true;\n    if (empty() || value.empty())\n        return false;", "    auto const left = empty(), right = value.empty();\n    if (left != right)\n        return false;\n    if (left)\n        return true;"))
same('eq-nested', 'C21', (VC, "    if (MetaType::compatible(mt_right, mt_left))\n    {\n        if (mt_right.decayId() == mt_left.decayId())\n        {", "    if (!MetaType::compatible(mt_right, mt_left))\n        return false;\n    {\n        if (!(mt_right.decayId() != mt_left.decayId()))\n        {"))
same('eq-symmetric', 'C21', (VC, "return manager->f_compare_eq(storage, ptr);", "{\n                auto other = raw_data_ptr();\n                if (mt_left.isArray())\n                    other = *reinterpret_cast<void const *const *>(other);\n                return mt_left.isArray() ? value.manager->f_compare_eq(value.storage, other) : manager->f_compare_eq(storage, ptr);\n            }"))
same('eq-identity', 'C21', (VC, "    if (empty() && value.empty())\n        return true;\n    if", "    if (this == &value)\n        return true;\n    if (empty() && value.empty())\n        return true;\n    if"))
same('value-eq-named', 'C21', (VH, "return (*this == variant{std::cref(value)});", "auto const other = variant{std::cref(value)};\n        return other == *this;"))
same('neq-if', 'C21', (VH, "return !(*this == value);", "if (*this == value)\n            return false;\n        return true;"))
same('eq-conv-helper', 'C21', (VI, "        if (MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value))\n        {\n            FINALLY { type_manager_t<T>::destroy(&buffer); };\n            return type_manager_t<T>::compare_eq(std::addressof(value), &buffer);\n        }", "        auto const *source = raw_data_ptr();\n        auto const converted = MetaType::convert(source, mt_self, &buffer, mt_value);\n        if (converted)\n        {\n            auto const same = mt_value.compare_eq(&buffer, std::addressof(value));\n            type_manager_t<T>::destroy(&buffer);\n            return same;\n        }"))
same('eq-fallback', 'C21', (VI, "    if (*this == variant{std::cref(value)})\n        return true;", "    auto const plain = (*this == variant{std::cref(value)});\n    if (plain)\n        return plain;"))
same('eq-address', 'C21', (VI, "        void const *address = tmp;\n        if (mt_value.isArray())\n            address = std::addressof(tmp);\n", "        void const *address = mt_value.isArray() ? static_cast<void const*>(std::addressof(tmp)) : static_cast<void const*>(tmp);\n"))

# --- C20
bug('conv-find-swapped', 'C20', (MT, "return list->find({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});", "return list->find({toType.m_typeInfo->decay, fromType.m_typeInfo->decay});"))
bug('conv-add-from-twice', 'C20', (MT, "list->add({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);", "list->add({fromType.m_typeInfo->decay, fromType.m_typeInfo->decay}, &converter);"))
bug('conv-not-decayed', 'C20', (MT, "list->get({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});", "list->get({fromType.typeId(), toType.m_typeInfo->decay});"))
bug('conv-overwrite', 'C20', (MT, "            if (auto search = m_items.find(key); search != std::end(m_items))\n                return false;\n\n            m_items.emplace(key, func);\n            return true;", "            m_items[key] = func;\n            return true;"))
bug('conv-assign', 'C20', (MT, "            if (auto search = m_items.find(key); search != std::end(m_items))\n                return false;\n\n            m_items.emplace(key, func);\n            return true;", "            return m_items.insert_or_assign(key, func).second;"))
bug('conv-add-true', 'C20', (MT, "            if (auto search = m_items.find(key); search != std::end(m_items))\n                return false;\n\n            m_items.emplace(key, func);\n            return true;", "            m_items.emplace(key, func);\n            return true;"))
bug('conv-unregister-all', 'C20', (MT, "            m_items.erase(key);", "            m_items.clear();"))
bug('conv-unregister-swapped', 'C20', (MT, "list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});", "list->remove({toType.m_typeInfo->decay, fromType.m_typeInfo->decay});"))
bug('conv-unregister-any', 'C20', (MT, "search != std::end(m_items) && search->second == func)", "search != std::end(m_items))"))
bug('conv-unregister-other', 'C20', (MT, "search->second == func)", "search->second != func)"))
bug('conv-ignore-result', 'C20', (MT, "                return converter->invoke(from, to);", "            {\n                converter->invoke(from, to);\n                return true;\n            }"))
bug('conv-erases-used', 'C20', (MT, "            if (converter)\n                return converter->invoke(from, to);", "            if (converter)\n            {\n                list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});\n                return converter->invoke(from, to);\n            }"))
bug('conv-args-swapped', 'C20', (MT, "converter->invoke(from, to)", "converter->invoke(to, const_cast<void*>(from))"))
bug('conv-catch-true', 'C20', ('include/rtti/metatype.h', "        catch (...)\n        {\n            return false;\n        }\n    }\n\nprivate:\n    F const m_func;", "        catch (...)\n        {\n            return true;\n        }\n    }\n\nprivate:\n    F const m_func;"))
bug('conv-ok-ignored', 'C20', ('include/rtti/metatype.h', "        auto result = false;\n        auto *value = new (out) To(std::invoke(_this.m_func, *from, result));", "        auto result = true;\n        auto ignored = false;\n        auto *value = new (out) To(std::invoke(_this.m_func, *from, ignored));"))
bug('conv-ok-leak', 'C20', ('include/rtti/metatype.h', "        auto *value = new (out) To(std::invoke(_this.m_func, *from, result));\n        // callers treat the output as not constructed when conversion failed\n        if (!result)\n            type_manager_t<To>::destroy(value);\n", "        new (out) To(std::invoke(_this.m_func, *from, result));\n"))
bug('conv-ok-destroyed', 'C20', ('include/rtti/metatype.h', "        auto *value = new (out) To((from->*_this.m_func)(result));\n        // callers treat the output as not constructed when conversion failed\n        if (!result)\n", "        auto *value = new (out) To((from->*_this.m_func)(result));\n        if (result)\n"))
bug('conv-method-twice', 'C20', ('include/rtti/metatype.h', "            new (out) To((from->*_this.m_func)());", "            (from->*_this.m_func)();\n            new (out) To((from->*_this.m_func)());"))
bug('conv-reg-swapped', 'C20', ('include/rtti/metatype.h', "        static internal::ConvertFunctorOk<From, To, Fu> converter{std::forward<Func>(func)};\n        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);", "        static internal::ConvertFunctorOk<From, To, Fu> converter{std::forward<Func>(func)};\n        return registerConverter(metaTypeId<To>(), metaTypeId<From>(), converter);"))
bug('conv-unreg-swapped', 'C20', ('include/rtti/metatype.h', "inline void MetaType::unregisterConverter()\n{\n    unregisterConverter(metaTypeId<From>(), metaTypeId<To>());", "inline void MetaType::unregisterConverter()\n{\n    unregisterConverter(metaTypeId<To>(), metaTypeId<From>());"))
bug('conv-has-swapped', 'C20', ('include/rtti/metatype.h', "    return hasConverter(metaTypeId<From>(), metaTypeId<To>());", "    return hasConverter(metaTypeId<From>(), metaTypeId<To>()) || hasConverter(metaTypeId<To>(), metaTypeId<From>());"))
bug('to-no-destroy', 'C20', (VH, "        auto typeId = internalTypeId(type_attribute::LREF);\n        metafunc_to<T>::invoke(*this, typeId, &buffer);\n        FINALLY { type_manager_t<T>::destroy(&buffer); };", "        auto typeId = internalTypeId(type_attribute::LREF);\n        metafunc_to<T>::invoke(*this, typeId, &buffer);"))
bug('to-destroy-early', 'C20', (VH, "        metafunc_to<T>::invoke(*this, typeId, &buffer);\n        FINALLY { type_manager_t<T>::destroy(&buffer); };", "        FINALLY { type_manager_t<T>::destroy(&buffer); };\n        metafunc_to<T>::invoke(*this, typeId, &buffer);"))
bug('to-leak-on-throw', 'C20', (VH, "        FINALLY { type_manager_t<T>::destroy(&buffer); };\n        return internal::move_or_copy<T>(&buffer);", "        T result = internal::move_or_copy<T>(&buffer);\n        type_manager_t<T>::destroy(&buffer);\n        return result;"))
bug('to-ignores', 'C20', (VH, "            if (MetaType::convert(self.raw_data_ptr(), from, buffer, to))\n                return;", "            MetaType::convert(self.raw_data_ptr(), from, buffer, to);\n            return;"))
bug('to-wrong-error', 'C20', (VH, 'throw bad_variant_convert{"Incompatible types: "s', 'throw bad_variant_cast{"Incompatible types: "s'))
bug('try-true', 'C20', (VH, "            *this = to<T>();\n            return true;\n        }\n        catch (...)\n        {\n            return false;", "            *this = to<T>();\n            return true;\n        }\n        catch (...)\n        {\n            return true;"))
bug('try-clears', 'C20', (VH, "            *this = to<T>();\n            return true;\n        }\n        catch (...)\n        {\n            return false;", "            *this = to<T>();\n            return true;\n        }\n        catch (...)\n        {\n            clear();\n            return false;"))
bug('convert-noop', 'C20', (VH, "    { *this = to<T>(); }", "    { to<T>(); }"))
bug('eq-dealloc-late', 'C20', (VI, "        auto *buffer = mt_self.allocate();\n        FINALLY { mt_self.deallocate(buffer); };\n", "        auto *buffer = mt_self.allocate();\n"), (VI, "            FINALLY { mt_self.destroy(buffer); };", "            FINALLY { mt_self.destroy(buffer); mt_self.deallocate(buffer); };"))
bug('eq-destroy-always', 'C20', (VI, "        FINALLY { mt_self.deallocate(buffer); };\n", "        FINALLY { mt_self.destroy(buffer); mt_self.deallocate(buffer); };\n"), (VI, "            FINALLY { mt_self.destroy(buffer); };\n", ""))
bug('eq-buffer-leak', 'C20', (VI, "            FINALLY { type_manager_t<T>::destroy(&buffer); };\n            return type_manager_t<T>::compare_eq", "            return type_manager_t<T>::compare_eq"))
bug('eq-dealloc-type', 'C20', (VI, "FINALLY { mt_self.deallocate(buffer); };", "FINALLY { mt_value.deallocate(buffer); };"))
same('conv-emplace-second', 'C20', (MT, "            if (auto search = m_items.find(key); search != std::end(m_items))\n                return false;\n\n            m_items.emplace(key, func);\n            return true;", "            return m_items.emplace(key, func).second;"))
same('conv-count', 'C20', (MT, "return (m_items.find(key) != std::end(m_items));", "return m_items.count(key) != 0;"))
same('conv-key-helper', 'C20', (MT, "            return list->find({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});", "        {\n            auto const key = std::make_pair(fromType.decayId(), toType.decayId());\n            return list->find(key);\n        }"))
same('conv-early-return', 'C20', (MT, "    if (fromType.valid() && toType.valid())\n        if (auto list = customConverters())\n        {\n            auto converter = list->get({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});\n            if (converter)\n                return converter->invoke(from, to);\n        }\n    return false;", "    if (!fromType.valid() || !toType.valid())\n        return false;\n    auto list = customConverters();\n    if (!list)\n        return false;\n    auto converter = list->get({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});\n    return converter && converter->invoke(from, to);"))
same('conv-erase-find', 'C20', (MT, "            m_items.erase(key);", "            if (auto search = m_items.find(key); search != std::end(m_items))\n                m_items.erase(search);"))
same('conv-swapped-everywhere', 'C20', (MT, "{fromType.m_typeInfo->decay, toType.m_typeInfo->decay}", "{fromType.decayId(), toType.decayId()}"))
same('conv-functor-local', 'C20', ('include/rtti/metatype.h', "            new (out) To(std::invoke(_this.m_func, *from));\n            return true;", "            auto const &value = *from;\n            new (out) To(std::invoke(_this.m_func, value));\n            return true;"))
same('conv-ok-if', 'C20', ('include/rtti/metatype.h', "        if (!result)\n            type_manager_t<To>::destroy(value);\n        return result;\n    }\n\nprivate:\n    F const", "        if (result)\n            return true;\n        type_manager_t<To>::destroy(value);\n        return false;\n    }\n\nprivate:\n    F const"))
same('to-named', 'C20', (VH, "    T to() const\n    {\n        static_assert(!std::is_reference_v<T>, \"Type cannot be reference\");\n\n        std::aligned_storage_t<sizeof(T), alignof(T)> buffer;\n", "    T to() const\n    {\n        static_assert(!std::is_reference_v<T>, \"Type cannot be reference\");\n\n        alignas(T) unsigned char buffer[sizeof(T)];\n"))
same('try-convert', 'C20', (VH, "            *this = to<T>();\n            return true;\n        }\n        catch", "            convert<T>();\n            return true;\n        }\n        catch"))
same('eq-self-destroy', 'C20', (VI, "            FINALLY { type_manager_t<T>::destroy(&buffer); };\n            return type_manager_t<T>::compare_eq(std::addressof(value), &buffer);", "            FINALLY { mt_value.destroy(&buffer); };\n            return type_manager_t<T>::compare_eq(std::addressof(value), &buffer);"))
same('eq-alloc-order', 'C20', (VI, "        auto *buffer = mt_self.allocate();\n        FINALLY { mt_self.deallocate(buffer); };\n\n        // Array is passed as **data\n        auto tmp = std::addressof(value);\n        void const *address = tmp;\n        if (mt_value.isArray())\n            address = std::addressof(tmp);\n", "        auto tmp = std::addressof(value);\n        void const *address = tmp;\n        if (mt_value.isArray())\n            address = std::addressof(tmp);\n\n        auto *buffer = mt_self.allocate();\n        FINALLY { mt_self.deallocate(buffer); };\n"))

# --- C17 arguments -------------------------------------------------------------------------------------------------------------------
bug('arg-rvalue-flag', 'C17', (AI, "m_rvalue(!std::is_reference_v<T>)", "m_rvalue(!std::is_lvalue_reference_v<T> || std::is_const_v<std::remove_reference_t<T>>)"))
bug('arg-rvalue-decay', 'C17', (AI, "m_rvalue(!std::is_reference_v<T>)", "m_rvalue(!std::is_reference_v<std::decay_t<T>>)"))
bug('arg-keeps-copy', 'C17', (AI, "m_value{std::ref(value)}", "m_value{std::forward<T>(value)}"))
bug('arg-keeps-cref', 'C17', (AI, "m_value{std::ref(value)}", "m_value{std::cref(value)}"))
bug('arg-no-rvalue-gate', 'C17', (AI, "    if (!m_rvalue)\n        throw bad_variant_cast{\"Incompatible argument cast from LValue to RValue reference\"};\n", ""))
bug('arg-gate-after-move', 'C17', (AI, "    if (!m_rvalue)\n        throw bad_variant_cast{\"Incompatible argument cast from LValue to RValue reference\"};\n", ""), (AI, "    if (auto *data = value->data<Decay>())\n        return std::move(*data);\n\n    // value of such", "    if (auto *data = value->data<Decay>())\n        return std::move(*data);\n    if (!m_rvalue)\n        throw bad_variant_cast{\"Incompatible argument cast from LValue to RValue reference\"};\n\n    // value of such"))
bug('arg-gate-variant', 'C17', (AI, "    if (!m_rvalue)\n        throw", "    if (!m_rvalue && !isVariant())\n        throw"))
bug('arg-no-lvalue-gate', 'C17', (AI, "    if (m_rvalue)\n        throw bad_variant_cast{\"Incompatible argument cast from RValue to non cost LValue reference\"};\n", ""))
bug('arg-lref-converted', 'C17', (AI, "    return value->ref<Decay>();", "    if (auto *data = value->data<Decay>())\n        return *data;\n    m_dummy = value->to<Decay>();\n    return m_dummy.ref<Decay>();"))
bug('arg-value-moves', 'C17', (AI, "    return value->to<Decay>();", "    if constexpr (std::is_move_constructible_v<Decay>)\n        if (m_rvalue)\n            if (auto *data = const_cast<variant*>(value)->data<Decay>())\n                return std::move(*data);\n    return value->to<Decay>();"))
bug('arg-value-not-unwrapped', 'C17', (AI, "    auto const *value = &m_value;\n    if (isVariant())\n        value = &m_value.cref<variant>();\n", "    auto const *value = &m_value;\n", 2))
bug('arg-const-not-unwrapped', 'C17', (AI, "    auto const *value = &m_value;\n    if (isVariant())\n", "    auto const *value = &m_value;\n    if (isVariant() && !m_rvalue)\n", 1))
bug('arg-variant-exact', 'C17', (VH, "MetaType{m_value.typeId()}.decayId() == metaTypeId<variant>()", "m_value.typeId() == metaTypeId<variant>()"))
bug('arg-empty-value', 'C17', (AI, "    if (empty())\n        throw bad_argument_cast{\"Empty argument\"};", "    if (empty())\n    {\n        if constexpr (std::is_default_constructible_v<T> && !std::is_reference_v<T>)\n            return T();\n        throw bad_argument_cast{\"Empty argument\"};\n    }"))
bug('arg-move-flag', 'C17', (VH, "    argument(argument&&) noexcept = default;", "    argument(argument &&other) noexcept\n        : m_rvalue{true}\n        , m_value{std::move(other.m_value)}\n    {}"))
same('arg-flag-lvalue', 'C17', (AI, "m_rvalue(!std::is_reference_v<T>)", "m_rvalue(!std::is_lvalue_reference_v<T>)"))
same('arg-flag-eq', 'C17', (AI, "    if (!m_rvalue)\n        throw", "    if (m_rvalue == false)\n        throw"))
same('arg-flag-nested', 'C17', (AI, "    return value->ref<Decay>();", "    auto &result = value->ref<Decay>();\n    return result;"))
same('arg-is-variant', 'C17', (VH, "MetaType{m_value.typeId()}.decayId() == metaTypeId<variant>()", "metaTypeId<variant>() == MetaType{m_value.typeId()}.decayId()"))
same('arg-ternary', 'C17', (AI, "    auto const *value = &m_value;\n    if (isVariant())\n        value = &m_value.cref<variant>();\n", "    auto const &content = isVariant() ? m_value.cref<variant>() : m_value;\n    auto const *value = &content;\n", 1))
same('arg-ifconstexpr', 'C17', (AI, "    if (empty())\n        throw bad_argument_cast{\"Empty argument\"};\n    return value<T>(tag_t{});", "    if (!empty())\n        return value<T>(tag_t{});\n    throw bad_argument_cast{\"Empty argument\"};"))
same('arg-dummy-data', 'C17', (AI, "        m_dummy = value->to<Decay>();\n        auto *ptr = m_dummy.raw_data_ptr();\n        return *static_cast<Decay const*>(ptr);", "        m_dummy = value->to<Decay>();\n        return *static_cast<Decay const*>(m_dummy.raw_data_ptr());"))
same('arg-helper', 'C17', (VH, "    bool isVariant() const\n", "    variant const& content() const\n    { return isVariant() ? m_value.cref<variant>() : m_value; }\n    bool isVariant() const\n"), (AI, "    auto const *value = &m_value;\n    if (isVariant())\n        value = &m_value.cref<variant>();\n", "    auto const *value = &content();\n", 1))
same('arg-move-explicit', 'C17', (VH, "    argument(argument&&) noexcept = default;", "    argument(argument &&other) noexcept\n        : m_rvalue{other.m_rvalue}\n        , m_value{std::move(other.m_value)}\n        , m_dummy{std::move(other.m_dummy)}\n    {}"))

# --- C22 builder ---------------------------------------------------------------------------------------------------------------------
NSB = "        auto *container = MetaNamespace::create(name, *m_currentContainer, {});\n        m_containerStack->push(m_currentContainer);\n"
CLB = "        auto *container = MetaClass::create(\n            name, *m_currentContainer, metaTypeId<C>(), {});\n        m_containerStack->push(m_currentContainer);\n"
bug('def-ns-push-first', 'C22', (MD, NSB, "        m_containerStack->push(m_currentContainer);\n        auto *container = MetaNamespace::create(name, *m_currentContainer, {});\n"))
bug('def-class-push-first', 'C22', (MD, CLB, "        m_containerStack->push(m_currentContainer);\n        auto *container = MetaClass::create(\n            name, *m_currentContainer, metaTypeId<C>(), {});\n"))
bug('def-ns-item', 'C22', (MD, "        m_currentContainer = container;\n        m_currentItem = m_currentContainer;\n        return meta_define<void, this_t>", "        m_currentContainer = container;\n        return meta_define<void, this_t>"))
bug('def-push-new', 'C22', (MD, NSB, "        auto *container = MetaNamespace::create(name, *m_currentContainer, {});\n        m_containerStack->push(container);\n"))
bug('def-class-global', 'C22', (MD, "            name, *m_currentContainer, metaTypeId<C>(), {});", "            name, *static_cast<MetaContainer*>(const_cast<MetaNamespace*>(MetaNamespace::global())), metaTypeId<C>(), {});"))
bug('def-class-typename', 'C22', (MD, "return _class<C>(type_name<C>());", "return _class<C>(type_name<this_t>());"))
bug('def-no-move-ctor', 'C22', (MD, "        result.define_move_constructor();\n", ""))
bug('def-copy-const', 'C22', (MD, "            _constructor<T const &>();", "            _constructor<T&>();"))
bug('def-move-if-copy', 'C22', (MD, "        if constexpr(std::is_move_constructible_v<T>)\n", "        if constexpr(std::is_copy_constructible_v<T>)\n"))
bug('def-base-first', 'C22', (MD, "&internal::metacast_to_base<T, mpl::typelist_get_t<L, I>>", "&internal::metacast_to_base<T, mpl::typelist_get_t<L, 0>>"))
bug('def-base-id', 'C22', (MD, "item->addBaseClass(metaTypeId<mpl::typelist_get_t<L, I>>(),", "item->addBaseClass(metaTypeId<mpl::typelist_get_t<L, 0>>(),"))
bug('def-base-item', 'C22', (MD, "            static_cast<MetaClass*>(m_currentContainer),", "            static_cast<MetaClass*>(m_containerStack->top()),"))
bug('def-enum-item', 'C22', (MD, "m_currentItem = MetaEnum::create", "MetaEnum::create"))
bug('def-method-item', 'C22', (MD, "        MetaMethod::create(name, *m_currentContainer, internal::make_method_invoker(std::forward<F>(func)), {});\n", "        m_currentItem = MetaMethod::create(name, *m_currentContainer, internal::make_method_invoker(std::forward<F>(func)), {});\n"))
bug('def-method-outer', 'C22', (MD, "MetaMethod::create(name, *m_currentContainer", "MetaMethod::create(name, m_containerStack->empty() || !std::is_void_v<typename mpl::function_traits<std::decay_t<F>>::class_type> ? *m_currentContainer : *m_containerStack->top()"))
bug('def-ctor-name', 'C22', (MD, "MetaConstructor::create(name, *m_currentContainer", 'MetaConstructor::create("", *m_currentContainer'))
bug('def-ctor-dup', 'C22', (MD, "internal::make_constructor_invoker<T, Args...>()", "internal::make_constructor_invoker<T, std::decay_t<Args>...>()"))
bug('def-no-converter', 'C22', (MD, "        MetaType::registerConverter(&internal::default_convert<Arg, T>);", ""))
bug('def-converter-explicit', 'C22', ('include/rtti/misc_traits.h', "!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<full_decay_t<Arg> const&, T>", "!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T> && !std::is_fundamental_v<Arg>"))
bug('def-end-item', 'C22', (MD, "        m_currentContainer = m_containerStack->top();\n        m_currentItem = m_currentContainer;\n", "        m_currentContainer = m_containerStack->top();\n"))
bug('def-end-nopop', 'C22', (MD, "        m_containerStack->pop();\n", "        if (m_containerStack->size() > 1)\n            m_containerStack->pop();\n"))
bug('def-end-global', 'C22', (MD, "        m_currentContainer = m_containerStack->top();\n", "        m_currentContainer = const_cast<MetaNamespace*>(MetaNamespace::global());\n"))
bug('def-attr-container', 'C22', (MD, "            m_currentItem->setAttribute(name, std::forward<V>(value), {});", "            m_currentContainer->setAttribute(name, std::forward<V>(value), {});"))
bug('def-lazy-outer', 'C22', (MD, "        m_currentContainer->setDeferredDefine(", "        (m_containerStack->empty() ? m_currentContainer : m_containerStack->top())->setDeferredDefine("))
bug('def-lazy-nostack', 'C22', (MD, "m_func(meta_define<T, void>{&container, &container, &stack});", "m_func(meta_define<T, void>{&container, &container, nullptr});"))
bug('def-lazy-noitem', 'C22', (MD, "m_func(meta_define<T, void>{&container, &container, &stack});", "m_func(meta_define<T, void>{nullptr, &container, &stack});"))
bug('def-element-name', 'C22', (MD, "e->addElement(name, std::forward<V>(value), {});", 'e->addElement(e->name(), std::forward<V>(value), {});'))
same('def-locals', 'C22', (MD, NSB, "        auto *outer = m_currentContainer;\n        auto *container = MetaNamespace::create(name, *outer, {});\n        m_containerStack->push(outer);\n"))
same('def-open-helper', 'C22', (MD, NSB + "        m_currentContainer = container;\n        m_currentItem = m_currentContainer;\n", "        open(MetaNamespace::create(name, *m_currentContainer, {}));\n"), (MD, "    void define_default_constructor()\n", "    void open(MetaContainer *container)\n    {\n        m_containerStack->push(m_currentContainer);\n        m_currentContainer = container;\n        m_currentItem = container;\n    }\n\n    void define_default_constructor()\n"))
same('def-end-local', 'C22', (MD, "        m_currentContainer = m_containerStack->top();\n        m_currentItem = m_currentContainer;\n        m_containerStack->pop();\n", "        auto *outer = m_containerStack->top();\n        m_containerStack->pop();\n        m_currentItem = outer;\n        m_currentContainer = outer;\n"))
same('def-base-fold', 'C22', (MD, "        EXPAND(\n            item->addBaseClass(metaTypeId<mpl::typelist_get_t<L, I>>(),\n                &internal::metacast_to_base<T, mpl::typelist_get_t<L, I>>, {})\n        )", "        (item->addBaseClass(metaTypeId<mpl::typelist_get_t<L, I>>(),\n                &internal::metacast_to_base<T, mpl::typelist_get_t<L, I>>, {}), ...);"))
same('def-ctor-order', 'C22', (MD, "        result.define_default_constructor();\n        result.define_copy_constructor();\n", "        result.define_copy_constructor();\n        result.define_default_constructor();\n"))
same('def-attr-variant', 'C22', (MD, "            m_currentItem->setAttribute(name, std::forward<V>(value), {});", "        {\n            variant content{std::forward<V>(value)};\n            m_currentItem->setAttribute(name, std::move(content), {});\n        }"))
same('def-method-local', 'C22', (MD, "        MetaMethod::create(name, *m_currentContainer, internal::make_method_invoker(std::forward<F>(func)), {});\n", "        auto invoker = internal::make_method_invoker(std::forward<F>(func));\n        MetaMethod::create(name, *m_currentContainer, std::move(invoker), {});\n"))

# --- C27 exceptions ------------------------------------------------------------------------------------------------------------------
ME = 'include/rtti/metaerror.h'
MMH = 'include/rtti/detail/metamethod_impl.h'
def _cls(n, old, new):
    return (ME, "%s: public %s\n{\npublic:\n    using %s::%s;" % (n, old, old, old), "%s: public %s\n{\npublic:\n    using %s::%s;" % (n, new, new, new))
bug('err-unregistered-runtime', 'C27', _cls('unregistered_metaclass', 'definition_error', 'runtime_error'))
bug('err-convert-cast', 'C27', _cls('bad_variant_convert final', 'bad_variant_cast', 'bad_cast'))
bug('err-duplicate-unregistered', 'C27', _cls('duplicate_metaclass', 'definition_error', 'unregistered_metaclass'))
bug('err-cast-private', 'C27', (ME, "bad_meta_cast final: public bad_cast", "bad_meta_cast final: private bad_cast"))
bug('err-root-logic', 'C27', (ME, "class RTTI_API runtime_error: public std::runtime_error", "class RTTI_API runtime_error: public std::logic_error"), (ME, "using base_t = std::runtime_error;", "using base_t = std::logic_error;"))
bug('err-to-cast', 'C27', (VV, 'throw bad_variant_convert{"Variant is empty"};', 'throw bad_variant_cast{"Variant is empty"};'))
bug('err-to-incompatible', 'C27', (VV, 'throw bad_variant_convert{"Incompatible types: "s', 'throw bad_variant_cast{"Incompatible types: "s'))
bug('err-ref-runtime', 'C27', (VV, 'throw bad_variant_cast{"Incompatible types: "s + from.typeName()', 'throw runtime_error{"Incompatible types: "s + from.typeName()'))
bug('err-ref-std', 'C27', (VV, 'throw bad_variant_cast{"Variant is empty"};', 'throw std::runtime_error{"Variant is empty"};'))
bug('err-meta-std', 'C27', ('include/rtti/metaclass.h', 'throw bad_meta_cast{"Bad meta cast"};', 'throw std::bad_cast{};', 2))
bug('err-meta-variant', 'C27', ('include/rtti/metaclass.h', 'throw bad_meta_cast{"Bad meta cast"};', 'throw bad_variant_cast{"Bad meta cast"};', 1))
bug('err-count-std', 'C27', (MD, 'throw invoke_error{"Invalid number of arguments"};', 'throw std::invalid_argument{"Invalid number of arguments"};'))
bug('err-readonly-cast', 'C27', (MD, 'throw invoke_error{"Write to readonly property"};', 'throw bad_variant_cast{"Write to readonly property"};', 1))
bug('err-readonly-definition', 'C27', (MD, 'throw invoke_error{"Write to readonly property"};', 'throw definition_error{"Write to readonly property"};', 3))
bug('err-noinstance', 'C27', (MMH, 'throw invoke_error{"Trying', 'throw bad_argument_cast{"Trying'))
bug('err-instance-invoke', 'C27', (MD, 'throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +', 'throw invoke_error{"Incompatible types: const rtti::variant& -> "s +', 2))
bug('err-argument-runtime', 'C27', (AI, 'throw bad_argument_cast{"Empty argument"};', 'throw runtime_error{"Empty argument"};'))
bug('err-argument-lvalue', 'C27', (AI, 'throw bad_variant_cast{"Incompatible argument cast from LValue', 'throw invoke_error{"Incompatible argument cast from LValue'))
bug('err-create-invalid', 'C27', ('src/metaclass.cpp', 'throw duplicate_metaclass{"Class "s + type', 'throw unregistered_metaclass{"Class "s + type'))
bug('err-base-invalid', 'C27', ('src/metaclass.cpp', 'throw unregistered_metaclass{"Base', 'throw invalid_metatype_id{"Base'))
bug('err-derived-runtime', 'C27', ('src/metaclass.cpp', 'throw invalid_metatype_id{"Invalid MetaType_ID: "s', 'throw definition_error{"Invalid MetaType_ID: "s', 3))
bug('err-defer-invoke', 'C27', ('src/metacontainer.cpp', 'throw definition_error{', 'throw runtime_error{'))
bug('err-slot-logic', 'C27', ('include/rtti/metatype.h', 'throw runtime_error("Type T = "s + type_name<Base>() + "isn\'t EQ_Comparable");', 'throw std::logic_error("Type T = "s + type_name<Base>() + "isn\'t EQ_Comparable");'))
bug('err-compare-noexcept', 'C27', ('include/rtti/metatype.h', "        noexcept(has_nt_eq_v<T, T>)", "        noexcept"))
bug('err-copy-noexcept', 'C27', (VV, "    variant(variant const &other);", "    variant(variant const &other) noexcept;"), (VC, "variant::variant(variant const &other)", "variant::variant(variant const &other) noexcept"))
bug('err-slot-noexcept', 'C27', ('include/rtti/metatype.h', "noexcept(std::is_nothrow_copy_constructible_v<T>)", "noexcept(std::is_nothrow_move_constructible_v<T>)"))
bug('err-eq-noexcept', 'C27', (VV, "    bool operator==(variant const &value) const;", "    bool operator==(variant const &value) const noexcept;"), (VC, "bool variant::operator==(variant const &value) const", "bool variant::operator==(variant const &value) const noexcept"))
bug('err-data-nocatch', 'C27', (VV, "    T* data()\n    {", "    T* data() noexcept\n    {"), (VV, "        catch (...)\n        {\n            return nullptr;\n        }", "        catch (bad_argument_cast const&)\n        {\n            return nullptr;\n        }"))
same('err-helper', 'C27', ('include/rtti/metaclass.h', 'template<typename To, typename From>\nTo& meta_cast(From &from)', 'namespace internal { [[noreturn]] inline void fail_cast() { throw bad_meta_cast{"Bad meta cast"}; } }\n\ntemplate<typename To, typename From>\nTo& meta_cast(From &from)'), ('include/rtti/metaclass.h', '        throw bad_meta_cast{"Bad meta cast"};\n    return *ptr;', '        internal::fail_cast();\n    return *ptr;'))
same('err-text', 'C27', (AI, 'throw bad_argument_cast{"Empty argument"};', 'throw bad_argument_cast(std::string{"Empty"} + " argument");'))
same('err-reorder', 'C27', (ME, "class RTTI_API invoke_error: public runtime_error\n{\npublic:\n    using runtime_error::runtime_error;\n};\n\n", ""), (ME, "class RTTI_API bad_argument_cast final", "class RTTI_API invoke_error: public runtime_error\n{\npublic:\n    using runtime_error::runtime_error;\n};\n\nclass RTTI_API bad_argument_cast final"))
same('err-data-noexcept', 'C27', (VV, "    T* data()\n    {", "    T* data() noexcept\n    {"))
same('err-create-flat', 'C27', ('src/metaclass.cpp', "        auto &metaClass = type.typeInfo({})->metaClass;\n        if (metaClass)\n", "        auto &metaClass = type.typeInfo({})->metaClass;\n        auto const *known = metaClass.load();\n        if (known != nullptr)\n"))
same('err-intermediate', 'C27', (ME, "class RTTI_API bad_cast: public runtime_error\n{\npublic:\n    using runtime_error::runtime_error;\n};", "class RTTI_API access_error: public runtime_error\n{\npublic:\n    using runtime_error::runtime_error;\n};\n\nclass RTTI_API bad_cast: public access_error\n{\npublic:\n    using access_error::access_error;\n};"))

# --- C25 programs that must not compile -----------------------------------------------------------------------------------------------
DF, HI, HC, HK, HE = 'include/rtti/defines.h', 'include/rtti/metaitem.h', 'include/rtti/metacontainer.h', 'include/rtti/metaclass.h', 'include/rtti/metaenum.h'
HT = 'include/rtti/metatype.h'
bug('forge-key-default', 'C25', (DF, "      NAME() {} \\", "      NAME() = default; \\"))
bug('forge-key-public', 'C25', (DF, "      NAME() {} \\", "    public: \\\n      NAME() {} \\"))
bug('forge-key-struct', 'C25', (DF, "  class NAME  \\", "  struct NAME  \\"))
bug('forge-attr-public', 'C25', (HI, "    void setAttribute(std::string_view name, variant const &value);\n", "public:\n    void setAttribute(std::string_view name, variant const &value);\nprotected:\n"))
bug('forge-attr-key-dropped', 'C25', (HI, "variant &&value, SetAttributeKey)", "variant &&value, int)"))
bug('forge-dtor-public', 'C25', (HI, "    virtual ~MetaItem();\n", ""), (HI, "    virtual MetaCategory category() const = 0;", "    virtual ~MetaItem();\n    virtual MetaCategory category() const = 0;"))
bug('forge-dtor-class', 'C25', (HK, "    ~MetaClass() override = default;\n", ""))
bug('forge-dtor-property', 'C25', (VV, "    ~MetaProperty() override = default;\n", ""))
bug('forge-create-public', 'C25', (HE, "    static MetaEnum* create(std::string_view name, MetaContainer &owner, MetaType_ID typeId);", "public:\n    static MetaEnum* create(std::string_view name, MetaContainer &owner, MetaType_ID typeId);\nprotected:"))
bug('forge-element-public', 'C25', (HE, "    void addElement(std::string_view name, variant &&value);\nprivate:", "public:\n    void addElement(std::string_view name, variant &&value);\nprivate:"))
bug('forge-element-mutable', 'C25', (HE, "    variant const& element(std::size_t index) const;", "    variant& element(std::size_t index) const;"), ('src/metaenum.cpp', "variant const& MetaEnum::element(std::size_t index) const\n", "variant& MetaEnum::element(std::size_t index) const\n"), ('src/metaenum.cpp', "    return d->m_elements.get(index);", "    return const_cast<variant&>(d->m_elements.get(index));"))
bug('forge-class-final', 'C25', (HK, "class RTTI_API MetaClass final:", "class RTTI_API MetaClass:"))
bug('forge-variant-final', 'C25', (VV, "class RTTI_API variant final", "class RTTI_API variant"))
bug('forge-variant-swap', 'C25', (VV, "private:\n    void swap(variant &other) noexcept;", "public:\n    void swap(variant &other) noexcept;\nprivate:"))
bug('forge-cref', 'C25', (VV, "    T const& cref()\n    {\n        using U = std::add_const_t<std::remove_reference_t<T>>;", "    T& cref()\n    {\n        using U = std::remove_reference_t<T>;"), (VV, "        auto fromId = internalTypeId(type_attribute::LREF);\n        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();\n\n        auto const *result = metafunc_cast<U>::invoke(*this, fromId, toId);", "        auto fromId = internalTypeId(type_attribute::LREF);\n        auto toId   = metaTypeId<std::add_lvalue_reference_t<U>>();\n\n        auto *result = metafunc_cast<U>::invoke(*this, fromId, toId);"))
bug('forge-ref-unqualified', 'C25', (VV, "    T const& ref() const &\n", "    T& ref() const &\n"), (VV, "        auto const *result = metafunc_cast<U>::invoke(*this, fromId, toId);\n        return *result;", "        auto const *result = metafunc_cast<U>::invoke(*this, fromId, toId);\n        return const_cast<T&>(*result);"))
bug('forge-data-const', 'C25', (VV, "    T const* data() const\n", "    T* data() const\n"), (VV, "            return metafunc_cast<U>::invoke(*this, fromId, toId);", "            return const_cast<T*>(metafunc_cast<U>::invoke(*this, fromId, toId));", 2))
bug('forge-clear-const', 'C25', (VV, "    void clear() noexcept;", "    void clear() noexcept;\n    void clear() const noexcept { const_cast<variant*>(this)->clear(); }"))
bug('forge-argument-copy', 'C25', (VV, "    argument(argument const&) = delete;", "    argument(argument const&) = default;"))
bug('forge-typeinfo-public', 'C25', (HT, "    TypeInfo const *m_typeInfo = nullptr;\nprivate:", "public:\n    TypeInfo const *m_typeInfo = nullptr;\nprivate:"))
bug('forge-builder-ctor', 'C25', (MD, "protected:\n    meta_define() = default;", "public:\n    meta_define() = default;\nprotected:"))
bug('forge-handle-mutable', 'C25', (HC, "    MetaClass const* getClass(std::string_view name) const;", "    MetaClass* getClass(std::string_view name) const;"), (MC, "MetaClass const* MetaContainer::getClass(std::string_view name) const\n", "MetaClass* MetaContainer::getClass(std::string_view name) const\n"), (MC, "    return static_cast<MetaClass const*>(item(mcatClass, name));", "    return const_cast<MetaClass*>(static_cast<MetaClass const*>(item(mcatClass, name)));"))
bug('forge-additem-public', 'C25', (HC, "    RTTI_PRIVATE bool addItem(MetaItem *value);", "public:\n    RTTI_PRIVATE bool addItem(MetaItem *value);\nprotected:"))
bug('forge-metacast-const', 'C25', (HK, "To const* meta_cast(From const *from)\n", "To* meta_cast(From const *from)\n"), (HK, "    return internal::meta_cast<To, From>(from, has_class_info_t{});", "    return const_cast<To*>(internal::meta_cast<To, From>(from, has_class_info_t{}));", 2))
bug('forge-enumerate-mutable', 'C25', (HC, "std::function<bool(MetaClass const*)>", "std::function<bool(MetaClass*)>"), (MC, "static_cast<MetaClass const*>(item));\n    });", "const_cast<MetaClass*>(static_cast<MetaClass const*>(item)));\n    });"))
bug('forge-new-member', 'C25', (HI, "    std::string const& qualifiedName() const;", "    std::string const& qualifiedName() const;\n    void resetAttribute(std::string_view name) { setAttribute(name, variant_of(name)); }\n    static variant const& variant_of(std::string_view);"))
bug('forge-id-implicit', 'C25', ('include/rtti/tagged_id.h', "    explicit constexpr ID(Type val) noexcept", "    constexpr ID(Type val) noexcept"))
same('forge-key-renamed', 'C25', (HI, "DECLARE_ACCESS_KEY(SetAttributeKey)", "DECLARE_ACCESS_KEY(AttributeKey)"), (HI, "variant const &value, SetAttributeKey)", "variant const &value, AttributeKey)"), (HI, "variant &&value, SetAttributeKey)", "variant &&value, AttributeKey)"))
same('forge-key-explicit', 'C25', (DF, "      NAME() {} \\", "    private: \\\n      NAME() noexcept {} \\"))
same('forge-key-expanded', 'C25', (HI, "    DECLARE_ACCESS_KEY(SetAttributeKey)", "    class SetAttributeKey\n    {\n        SetAttributeKey() {}\n        SetAttributeKey(SetAttributeKey const&) = default;"))
same('forge-protected-private', 'C25', (HE, "    void addElement(std::string_view name, variant &&value);\nprivate:", "private:\n    void addElement(std::string_view name, variant &&value);"))
same('forge-getter', 'C25', (HI, "    std::size_t attributeCount() const;", "    std::size_t attributeCount() const;\n    bool hasAttributes() const { return attributeCount() != 0; }"))
same('forge-noattr-inline', 'C25', (HI, "    void setAttribute(std::string_view name, variant &&value, SetAttributeKey)\n    { setAttribute(name, std::move(value)); }", "    void setAttribute(std::string_view name, variant &&value, SetAttributeKey key);"), ('src/metaitem.cpp', "std::string const& MetaItem::name() const", "void MetaItem::setAttribute(std::string_view name, variant &&value, SetAttributeKey)\n{ setAttribute(name, std::move(value)); }\n\nstd::string const& MetaItem::name() const"))
same('forge-alias', 'C25', (HK, "    static MetaClass const* find(MetaType_ID typeId);", "    using handle_t = MetaClass const*;\n    static handle_t find(MetaType_ID typeId);"))
same('forge-builder-final', 'C25', (MD, "    meta_define() = default;", "    meta_define() noexcept = default;"))

# --- C26 every offered form compiles ---------------------------------------------------------------------------------------------------
FT = 'include/rtti/function_traits.h'
bug('forms-rvalue-result', 'C26', (MD, "        // rvalue is moved to result\n        if constexpr(std::is_lvalue_reference_v<Result>)", "        if constexpr(std::is_reference_v<Result>)", 1))
bug('forms-noexcept-lref', 'C26', (FT, "struct function_traits_helper<R(C::*)(Args...) const & noexcept>:", "struct function_traits_helper<R(C::*)(Args...) const volatile & noexcept>:"))
bug('forms-noexcept-free', 'C26', (FT, "struct function_traits_helper<R(*)(Args...) noexcept>:\n    function_traits_helper<R(*)(Args...)>", "struct function_traits_helper<R(*)(Args..., ...) noexcept>:\n    function_traits_helper<R(*)(Args...)>"))
bug('forms-destroy', 'C26', (MTH, "        if constexpr(std::is_destructible_v<T> && !std::is_trivially_destructible_v<T>)", "        if constexpr(!std::is_trivially_destructible_v<T>)"))
bug('forms-inherited-converter', 'C26', (MTH, "std::invoke(_this.m_func, *from)", "_this.m_func(*from)"))
bug('forms-default-convert', 'C26', (MTH, "To default_convert(std::remove_reference_t<From> const &value)", "To default_convert(From value)"))
bug('forms-converting-ctor', 'C26', (TR, "std::is_convertible_v<full_decay_t<Arg> const&, T>", "std::is_convertible_v<Arg, T>"))
bug('forms-argument-array', 'C26', (AI, "    using Decay = std::remove_cv_t<std::remove_reference_t<T>>;", "    using Decay = std::decay_t<T>;", 2))
bug('forms-argument-pinned', 'C26', (AI, "    if constexpr(!std::is_copy_constructible_v<Decay> && !std::is_move_constructible_v<Decay>)\n        return value->cref<Decay>();\n    else\n", "    if constexpr(false)\n        return value->cref<Decay>();\n    else\n"))
bug('forms-readonly-array', 'C26', (MD, "constexpr auto is_readonly_property_v = std::is_const_v<T> || !std::is_assignable_v<T&, T>\n    || !(std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>);", "constexpr auto is_readonly_property_v = std::is_const_v<T>;"))
bug('forms-ten-arguments', 'C26', (MMH, "sizeof...(Args) <= max_arguments + 1,", "sizeof...(Args) <= max_arguments,"))
bug('forms-instance-pinned', 'C26', (MMH, "    else if constexpr(internal::has_instance<Args&&...>::value)", "    else if constexpr(sizeof...(Args) > 0)"))
bug('forms-default-ctor', 'C26', (MD, "        if constexpr(std::is_default_constructible_v<T>\n                     && (std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>))", "        if constexpr(std::is_default_constructible_v<T>)"))
bug('forms-hash', 'C26', ('include/rtti/tagged_id.h', "struct hash<mpl::ID<Tag, Type, default_value>>", "struct hash<mpl::ID<Tag, Type*, default_value>>"))
bug('forms-recursive', 'C26', (MD, "        static_assert(!std::is_same_v<T, C>, \"Recursive class definition\");\n", ""))
bug('forms-namespace', 'C26', (MD, "        static_assert(std::is_void_v<T>, \"Namespace can be defined only in another namespace\");\n", ""))
bug('forms-base-self', 'C26', (MD, "is_same_v<mpl::typelist_get_t<L, I>, T>", "is_void_v<mpl::typelist_get_t<L, I>>"))
bug('forms-setter', 'C26', (MD, "    static_assert(STraits::arity::value == 1,", "    static_assert(STraits::arity::value >= 1,"))
bug('forms-setter-result', 'C26', (MD, "    static_assert(std::is_same_v<std::decay_t<T>, std::decay_t<Arg>>,", "    static_assert(std::is_convertible_v<std::decay_t<T>, std::decay_t<Arg>> || true,"))
bug('forms-maxargs1', 'C26', (MD, "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments,", "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments + 1,", 1))
bug('forms-maxargs2', 'C26', (MD, "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments,", "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments + 1,", 2))
bug('forms-maxargs3', 'C26', (MD, "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments,", "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments + 1,", 3))
bug('forms-maxargs4', 'C26', (MD, "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments,", "    static_assert(mpl::typelist_size_v<Args> <= IMethodInvoker::MaxNumberOfArguments + 1,", 4))
bug('forms-fewer-args', 'C26', ('include/rtti/metaconstructor.h', "static_assert(sizeof...(Args) <= IConstructorInvoker::MaxNumberOfArguments,", "static_assert(sizeof...(Args) < IConstructorInvoker::MaxNumberOfArguments,"))
bug('forms-to-ref', 'C26', (VV, "        static_assert(!std::is_reference_v<T>, \"Type cannot be reference\");\n", "", 3), (VV, "        static_assert(!std::is_reference_v<T>, \"Type cannot be reference\");\n", "", 3))
bug('forms-metacast', 'C26', (HK, "    static_assert(std::is_class_v<From> && std::is_class_v<To>,", "    static_assert(std::is_class_v<From> || std::is_class_v<To>,"))
same('forms-helper', 'C26', (MMH, "    constexpr auto max_arguments = IMethodInvoker::MaxNumberOfArguments;", "    constexpr std::size_t max_arguments = IMethodInvoker::MaxNumberOfArguments;"))
same('forms-message', 'C26', (MD, "\"Container stack is EMPTY\"", "\"nothing to end\""))
same('forms-disjunction', 'C26', (MD, "constexpr auto is_readonly_property_v = std::is_const_v<T> || !std::is_assignable_v<T&, T>\n    || !(std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>);", "constexpr bool is_readonly_property_v = !(std::is_assignable_v<T&, T> && (std::is_move_constructible_v<T> || std::is_copy_constructible_v<T>));"))

# --- C28 type lists and traits -----------------------------------------------------------------------------------------------------------
TL = 'include/rtti/typelist.h'
ID = 'include/rtti/tagged_id.h'
bug('meta-last', 'C28', (TL, "struct typelist_last<type_list<H, T...>>: typelist_last<type_list<T...>>", "struct typelist_last<type_list<H, T...>>: identity<H>"))
bug('meta-get', 'C28', (TL, "struct typelist_get<type_list<H, T...>, I>: typelist_get<type_list<T...>, I - 1>", "struct typelist_get<type_list<H, T...>, I>: typelist_get<type_list<T...>, (I > 2 ? I - 2 : I - 1)>"))
bug('meta-indexof', 'C28', (TL, "typelist_indexof_helper<type_list<T...>, V, index + 1>", "typelist_indexof_helper<type_list<T...>, V, (index < 2 ? index + 1 : index)>"))
bug('meta-concat', 'C28', (TL, "identity<type_list<T1..., T2...>>", "identity<type_list<T2..., T1...>>"))
bug('meta-pushfront', 'C28', (TL, "identity<type_list<V..., T...>>", "identity<type_list<T..., V...>>"))
bug('meta-popback', 'C28', (TL, "struct typelist_popback_helper<type_list<P...>, type_list<H>>: identity<type_list<P...>>", "struct typelist_popback_helper<type_list<P...>, type_list<H>>: identity<type_list<P..., H>>"))
bug('meta-remove', 'C28', (TL, "            identity<type_list<P..., T...>>,\n            typelist_remove_helper", "            identity<type_list<T..., P...>>,\n            typelist_remove_helper"))
bug('meta-unordered', 'C28', (TL, "typelist_unorderedequal<type_list<T1...>, typelist_remove_t<type_list<T2...>, H1>>", "typelist_unorderedequal<type_list<T1...>, typelist_removeall_t<type_list<T2...>, H1>>"))
bug('meta-foldr', 'C28', (TL, "F<H, typename typelist_foldr<type_list<T...>, F, I>::type>", "F<typename typelist_foldr<type_list<T...>, F, I>::type, H>"))
bug('meta-remove-all-cv', 'C28', (TR, "    using type = std::add_pointer_t<U>;", "    using type = std::conditional_t<std::is_volatile_v<T>, T, std::add_pointer_t<U>>;"))
bug('meta-cv-ref', 'C28', (TR, "    using type = std::conditional_t<lref, std::add_lvalue_reference_t<U>, std::add_rvalue_reference_t<U>>;", "    using type = std::add_lvalue_reference_t<U>;"))
bug('meta-array-length', 'C28', (TR, "N * array_length_v<T>", "N"))
bug('meta-bitset', 'C28', (TR, "std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>", "std::integral_constant<std::size_t, (1 << I)>"))
bug('meta-class-ptr', 'C28', (TR, "    std::is_class_v<std::remove_pointer_t<std::remove_reference_t<T>>>,", "    std::is_class_v<std::remove_pointer_t<std::decay_t<T>>> && !std::is_const_v<std::remove_reference_t<T>>,"))
bug('meta-traits-const', 'C28', (FT, "struct function_traits_helper<R(C::*)(Args...) const volatile>:\n    function_traits_helper<R(*)(Args...)>\n{\n    using class_type = C;\n    using is_const = std::true_type;", "struct function_traits_helper<R(C::*)(Args...) const volatile>:\n    function_traits_helper<R(*)(Args...)>\n{\n    using class_type = C;\n    using is_const = std::false_type;"))
bug('meta-traits-arity', 'C28', (FT, "    using arity = mpl::typelist_size<args>;", "    using arity = std::integral_constant<std::size_t, (sizeof...(Args) > 9 ? 9 : sizeof...(Args))>;"))
bug('meta-id-valid', 'C28', (ID, "        return m_val != Default;", "        return m_val != Type{};"))
bug('meta-id-explicit', 'C28', (ID, "    explicit constexpr operator Type() const noexcept", "    constexpr operator Type() const noexcept"))
bug('meta-empty', 'C28', (TL, "struct typelist_first<type_list<T...>>\n{\n    static_assert(sizeof...(T) != 0, \"List is empty!\");", "struct typelist_first<type_list<T...>>\n{\n    using type = void;"))
same('meta-indexof-direct', 'C28', (TL, "struct typelist_exists: std::integral_constant<bool, typelist_indexof_v<T, V> >= 0>", "struct typelist_exists: std::bool_constant<(typelist_indexof_v<T, V> != -1)>"))
same('meta-dup-first', 'C28', (TL, "struct typelist_isempty<type_list<Args...>>: std::integral_constant<bool, sizeof...(Args) == 0>", "struct typelist_isempty<type_list<Args...>>: std::bool_constant<!sizeof...(Args)>"))
same('meta-id-eq', 'C28', (ID, "        return !(*this == value);", "        return m_val != value.m_val;"))

# ---- forcing definitions
FORCE = ("""        for (std::size_t i = 0; i < d->m_classes.size(); ++i)
        {
            auto *c = static_cast<MetaClass const*>(d->m_classes.get(i));
            c->forceDeferredDefine(ForceDeferred::Recursive);
        }

        for (std::size_t i = 0; i < d->m_namespaces.size(); ++i)
        {
            auto *ns = static_cast<MetaContainer const*>(d->m_namespaces.get(i));
            ns->forceDeferredDefine(ForceDeferred::Recursive);
        }
""")
bug('force-one-list', 'C07', (MC, FORCE, FORCE.split('\n\n')[0] + '\n'))
bug('force-skips-first', 'C07', (MC, FORCE, FORCE.replace('i = 0; i < d->m_namespaces', 'i = 1; i < d->m_namespaces')))
bug('force-stops', 'C07', (MC, FORCE, FORCE.replace("""            ns->forceDeferredDefine(ForceDeferred::Recursive);
""", """            ns->forceDeferredDefine(ForceDeferred::Recursive);
            if (ns->classCount() == 0) break;
""")))
bug('force-self-last', 'C07', (MC, """        checkDeferredDefine();
        auto d = d_func();
        // definition may""", """        auto d = d_func();
        // definition may"""))
same('force-helper', 'C07', (MC, FORCE, """        auto force = [](internal::MetaItemList const &list)
        {
            std::size_t i = 0;
            while (i < list.size())
                static_cast<MetaContainer const*>(list.get(i++))->forceDeferredDefine(ForceDeferred::Recursive);
        };
        force(d->m_namespaces);
        force(d->m_classes);
"""))
same('force-switch', 'C07', (MC, """    if (type == ForceDeferred::SelfOnly)
        checkDeferredDefine();
    else if (type == ForceDeferred::Recursive)
    {
        checkDeferredDefine();
""", """    checkDeferredDefine();
    if (type != ForceDeferred::Recursive)
        return;
    {
"""))
same('force-count', 'C07', (MC, FORCE, FORCE.replace('auto *ns = static_cast<MetaContainer const*>(d->m_namespaces.get(i))', 'auto *ns = getNamespace(i)').replace('i < d->m_namespaces.size()', 'i < namespaceCount()')))

# --- C29 what items say about themselves -----------------------------------------------------------------------------------------------
SG, TN, FIN = 'include/rtti/signature.h', 'include/rtti/typename.h', 'include/rtti/finally.h'
bug('desc-qualified-name', 'C29', (MI, 'm_owner ? m_owner->qualifiedName() : ""', 'm_owner ? m_owner->name() : ""'))
bug('desc-separator', 'C29', (MI, '(m_owner ? "::" + m_name : "")', '(m_owner ? (result.empty() ? "" : "::") + m_name : "")'))
bug('desc-init-order', 'C29', (MIP, "    std::string const m_name;\n    MetaContainer const *m_owner = nullptr;\n    internal::NamedVariantList m_attributes;\n    std::string const m_qualifiedName = {};", "    MetaContainer const *m_owner = nullptr;\n    std::string const m_qualifiedName = {};\n    std::string const m_name;\n    internal::NamedVariantList m_attributes;"))
bug('desc-accessor', 'C29', (MIP, "    std::string const &qualifiedName() const\n    { return m_qualifiedName; }", "    std::string const &qualifiedName() const\n    { return m_owner ? m_qualifiedName : m_name; }"))
bug('desc-enum-owner', 'C29', ('src/metaenum.cpp', "result = new MetaEnum{name, owner, typeId};", "result = new MetaEnum{name, owner.owner() ? *owner.owner() : owner, typeId};"))
bug('desc-method-name', 'C29', ('src/metamethod.cpp', "new MetaMethod{signature, owner", "new MetaMethod{name, owner"))
bug('desc-sig-class', 'C29', (SG, "        typename mpl::function_traits<F>::uniform_signature\n    >::args>", "        typename mpl::function_traits<F>::uniform_signature\n    >::args::type>") if False else (SG, '{os, ", "}', '{os, ","}'))
bug('desc-sig-close', 'C29', (SG, "        os << ')';\n", "        if (sizeof...(Args))\n            os << ')';\n"))
bug('desc-sig-prefix', 'C29', (SG, "            m_stream << m_prefix << value;", "            m_stream << value << m_prefix;"))
bug('desc-sig-decay', 'C29', (SG, "type_name<Args>()", "type_name<std::decay_t<Args>>()"))
bug('desc-ctor-sig', 'C29', ('include/rtti/metadefine.h', "            if constexpr(std::is_rvalue_reference_v<Arg>)\n                return MOVE", "            if constexpr(std::is_reference_v<Arg>)\n                return MOVE"))
bug('desc-ctor-lookup', 'C29', (MC, "return getConstructor(MOVE_CONSTRUCTOR_SIG);", "return getConstructor(COPY_CONSTRUCTOR_SIG);"))
bug('desc-ctor-default-name', 'C29', ('src/metaconstructor.cpp', "name.empty() ? CONSTRUCTOR_SIG : name", "CONSTRUCTOR_SIG"))
bug('desc-type-bracket', 'C29', (TN, "std::strrchr(begin, ']')", "std::strchr(begin, ']')"))
bug('desc-type-start', 'C29', (TN, 'begin += sizeof("T =");', 'begin += sizeof("T =") - 1;'))
bug('desc-type-last', 'C29', (TN, 'std::strstr(prettyFunc, "T =")', 'std::strchr(prettyFunc, \'=\') - 2') if False else (TN, "static_cast<size_t>(end - begin)", "static_cast<size_t>(end - begin - 1)"))
same('desc-ok-qualified', 'C29', (MI, """    std::string result = m_owner ? m_owner->qualifiedName() : "";
    return std::move(result) + (m_owner ? "::" + m_name : "");""", """    if (!m_owner)
        return {};
    auto result = m_owner->qualifiedName();
    result += "::";
    result.append(m_name);
    return result;"""))
same('desc-ok-signature', 'C29', (SG, """        std::ostringstream os;
        auto it = prefix_ostream_iterator<std::string_view>{os, ", "};
        os << name << '(';
        (it = ... = type_name<Args>());
        os << ')';
        return os.str();""", """        std::string result{name};
        [[maybe_unused]] auto separator = "";
        result += "(";
        ((result.append(separator), result.append(type_name<Args>()), separator = ", "), ...);
        result.push_back(')');
        return result;"""))
same('desc-ok-typename', 'C29', (TN, """        auto *prettyFunc = __PRETTY_FUNCTION__;
        if (auto *begin = std::strstr(prettyFunc, "T ="))
        {
            begin += sizeof("T =");
            if (auto *end = std::strrchr(begin, ']'))
                m_signature = {begin, static_cast<size_t>(end - begin)};
        }""", """        std::string_view const text = __PRETTY_FUNCTION__;
        auto const begin = text.find("T = ") + 4;
        auto const end = text.rfind(']');
        m_signature = text.substr(begin, end - begin);"""))
same('desc-ok-create', 'C29', ('src/metaenum.cpp', "    auto result = const_cast<MetaEnum *>(owner.getEnum(name));\n    if (!result)", "    std::string const text{name};\n    auto result = const_cast<MetaEnum *>(owner.getEnum(text));\n    if (!result)"), ('src/metaenum.cpp', "new MetaEnum{name, owner", "new MetaEnum{text, owner"))

# --- C30 scope guards ------------------------------------------------------------------------------------------------------------------
bug('guard-move', 'C30', (FIN, "    { other.m_dismiss = true; }\n", "    {}\n"))
bug('guard-move-dismissed', 'C30', (FIN, "        : m_dismiss{other.m_dismiss},\n          m_function", "        : m_function"))
bug('guard-assign', 'C30', (FIN, "std::exchange(other.m_dismiss, true)", "std::exchange(other.m_dismiss, false)"))
bug('guard-throw', 'C30', (FIN, "        if (!m_dismiss)\n            m_function();\n    }\n    void", "        if (!m_dismiss && !std::uncaught_exceptions())\n            m_function();\n    }\n    void"), (FIN, "#include <utility>", "#include <utility>\n#include <exception>"))
bug('guard-dismiss-toggle', 'C30', (FIN, "    { m_dismiss = true; }\n    void*", "    { m_dismiss = !m_dismiss; }\n    void*"))
same('guard-ok-armed', 'C30', (FIN, "    bool m_dismiss = false;", "    bool m_dismiss{};"), (FIN, "    { other.m_dismiss = true; }\n", "    { other.dismiss(); }\n"))

# --- hashing -------------------------------------------------------------------------------------------------------------------------
bug('hash-deref', 'C31', (VI, "        if (type.isArray())\n            ptr = *reinterpret_cast", "        if (type.isArray() || type.isPointer())\n            ptr = *reinterpret_cast"))
bug('hash-array-address', 'C31', (VI, "        if (type.isArray())\n            ptr = *reinterpret_cast", "        if (type.isArray() && !type.isConst())\n            ptr = *reinterpret_cast"))
bug('hash-size', 'C31', (VI, "_Hash_impl::hash(ptr, type.typeSize())", "_Hash_impl::hash(ptr, type.typeSize() < sizeof(void*) ? sizeof(void*) : type.typeSize())"))
bug('hash-storage', 'C31', (VI, "        auto ptr = value.raw_data_ptr({});\n", "        auto ptr = type.isArray() ? value.raw_data_ptr({}) : static_cast<void const*>(&value);\n"))
bug('hash-self', 'C31', (VI, "_Hash_impl::hash(ptr, type.typeSize())", "_Hash_impl::hash(ptr, type.typeSize(), reinterpret_cast<std::size_t>(&value))"))
bug('hash-id-address', 'C31', (ID, "return std::hash<Type>{}(id.value());", "return std::hash<void const*>{}(&id);"))
bug('hash-key-address', 'C31', ('src/metatype.cpp', "std::_Hash_impl::hash(key.second.value())", "std::_Hash_impl::hash(reinterpret_cast<std::size_t>(&key.second))"))
bug('id-compares-low-half', 'C31', (ID, "return m_val == value.m_val;", "return static_cast<unsigned>(m_val) == static_cast<unsigned>(value.m_val);"))
same('hash-inverted', 'C31 C12 C21', (VI, "        if (!value)\n            return 0;\n\n        auto type = rtti::MetaType{value.typeId()};\n        auto ptr = value.raw_data_ptr({});\n        if (type.isArray())\n            ptr = *reinterpret_cast<void const * const *>(ptr);\n        return _Hash_impl::hash(ptr, type.typeSize());",
     "        std::size_t result = 0;\n        if (!value.empty())\n        {\n            auto const type = rtti::MetaType{value.typeId()};\n            auto const *address = value.raw_data_ptr({});\n            auto const *bytes = type.isArray() ? *static_cast<void const * const *>(address) : address;\n            result = std::_Hash_bytes(bytes, type.typeSize(), 0xc70f6907UL);\n        }\n        return result;"))
