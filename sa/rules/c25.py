"""(1) Programs that forge, copy, move, delete or modify metadata items, call the internal cast, construction or registration primitives, or
take mutable access through a const handle or const variant are type-checked against the current headers: none may compile.  Next to each of
them a control shows that nothing else is wrong with it: the same program with access control switched off, or its legitimate counterpart,
compiles.  (2) Every public member of the metadata classes, as declared in the headers, is const, or needs a key whose constructors are
all inaccessible, and no member hands out a mutable item without one."""
import re
from ..registry import *
from ..prog import Snippets, VERIF

ITEMS = ('MetaNamespace', 'MetaClass', 'MetaMethod', 'MetaProperty', 'MetaEnum', 'MetaConstructor')
CONST = {'MetaNamespace': 'cn', 'MetaClass': 'ck', 'MetaMethod': 'cm', 'MetaProperty': 'cp', 'MetaEnum': 'ce', 'MetaConstructor': 'ct'}
MUT = {'MetaNamespace': 'n', 'MetaClass': 'k', 'MetaMethod': 'm', 'MetaProperty': 'p', 'MetaEnum': 'e', 'MetaConstructor': 't'}


def programs():
    """(what, program, control): control None = the same program without access control."""
    out = []

    def a(what, code, control=None):
        out.append((what, code, control))
    R = 'rtti::'
    for K in ITEMS:
        c, m = CONST[K], MUT[K]
        a('deleting a ' + K, 'delete %s;' % c)
        a('destroying a ' + K, '%s->~%s();' % (m, K))
        a('copying a ' + K, 'rtti::%s z{*%s};' % (K, c), 'rtti::%s const &z{*%s};' % (K, c))
        a('moving a ' + K, 'rtti::%s z{std::move(*%s)};' % (K, m), 'rtti::%s &&z{std::move(*%s)};' % (K, m))
        a('assigning a ' + K, '*%s = *%s;' % (m, c), '%s = const_cast<rtti::%s*>(%s);' % (m, K, c))
        a('move-assigning a ' + K, '*%s = std::move(*%s);' % (m, m), '%s = std::move(%s);' % (m, m))
        a('default-constructing a ' + K, 'rtti::%s z{};' % K, None if K == 'MetaNamespace' else 'rtti::%s *z{};' % K)
        a('deriving from ' + K, 'struct Z: rtti::%s {};' % K, 'struct Z { rtti::%s *z; };' % K)
        a('changing attributes of a const ' + K, '%s->setAttribute("a", rtti::variant{1}, {});' % c, '%s->attribute("a");' % c)
        a('changing attributes of a ' + K, '%s->setAttribute("a", rtti::variant{1}, {});' % m)
        a('changing attributes of a %s (2)' % K, 'rtti::variant y{1}; %s->setAttribute("a", y, {});' % m)
        a('assigning an attribute of a ' + K, '%s->attribute("a") = rtti::variant{1};' % m, 'auto y = %s->attribute("a"); y = rtti::variant{1};' % m)
        a('clearing an attribute of a ' + K, '%s->attribute(0).clear();' % m, 'auto y = %s->attribute(0); y.clear();' % m)
        a('renaming a ' + K, '%s->name().clear();' % m, 'auto y = %s->name(); y.clear();' % m)
        a('renaming a %s (2)' % K, '%s->qualifiedName() = "y";' % m, 'auto y = %s->qualifiedName(); y = "y";' % m)
        a('mutable owner of a ' + K, 'rtti::MetaContainer *y = %s->owner();' % m, 'rtti::MetaContainer const *y = %s->owner();' % m)
        a('mutable attributes of a ' + K, '%s->for_each_attribute([](std::string_view, rtti::variant &) { return true; });' % m,
          '%s->for_each_attribute([](std::string_view, rtti::variant const&) { return true; });' % m)
        a('private data of a ' + K, '%s->d_func();' % m)
        a('private data of a %s (2)' % K, '%s->d_ptr;' % m)
        a('private data of a %s (3)' % K, '%s->d_func();' % c)
        a('constructing a ' + K, *{
            'MetaNamespace': ('rtti::MetaNamespace z{"a", *cc};',), 'MetaClass': ('rtti::MetaClass z{"a", *cc, rtti::metaTypeId<X>()};',),
            'MetaMethod': ('rtti::MetaMethod z{"a", *c, nullptr};',), 'MetaProperty': ('rtti::MetaProperty z{"a", *c, nullptr};',),
            'MetaEnum': ('rtti::MetaEnum z{"a", *cc, rtti::metaTypeId<X>()};',), 'MetaConstructor': ('rtti::MetaConstructor z{"a", *c, nullptr};',)}[K])
        args = {'MetaNamespace': '"a", *c', 'MetaClass': '"a", *c, rtti::metaTypeId<X>()', 'MetaEnum': '"a", *c, rtti::metaTypeId<X>()'}.get(K, '"a", *c, nullptr')
        a('creating a ' + K, 'rtti::%s::create(%s);' % (K, args))
        a('creating a %s with a made-up key' % K, 'rtti::%s::create(%s, {});' % (K, args))
    a('deleting a MetaItem', 'delete ci;')
    a('deleting a MetaContainer', 'delete cc;')
    a('constructing a MetaContainer', 'struct Z: rtti::MetaContainer { Z(): rtti::MetaContainer{*cc} {} }; ', 'struct Z { rtti::MetaContainer const &z; Z(): z{*cc} {} };')
    a('adding a base class', 'k->addBaseClass(rtti::metaTypeId<X>(), &conv, {});')
    a('adding a base class (2)', 'k->addBaseClass(rtti::metaTypeId<X>(), &conv);')
    a('adding a derived class', 'k->addDerivedClass(rtti::metaTypeId<X>());')
    a('adding an enumerator', 'e->addElement("a", rtti::variant{1}, {});')
    a('adding an enumerator (2)', 'e->addElement("a", rtti::variant{1});')
    a('changing an enumerator', 'e->element("a") = rtti::variant{1};', 'auto y = e->element("a"); y = rtti::variant{1};')
    a('changing an enumerator (2)', 'e->element(0).clear();', 'auto y = e->element(0); y.clear();')
    a('changing the name of an enumerator', 'e->elementName(0).clear();', 'auto y = e->elementName(0); y.clear();')
    a('mutable enumerators', 'ce->for_each_element([](std::string const&, rtti::variant &) { return true; });', 'ce->for_each_element([](std::string const&, rtti::variant const&) { return true; });')
    a('raw cast with a made-up key', 'ck->cast(ck, static_cast<void const*>(x), {});')
    a('raw mutable cast with a made-up key', 'k->cast(ck, static_cast<void*>(x), {});')
    a('raw cast', 'ck->cast(ck, static_cast<void const*>(x));')
    a('raw mutable cast', 'ck->cast(ck, static_cast<void*>(x));')
    a('replacing a lazy definition', 'c->setDeferredDefine(nullptr, {});')
    a('replacing a lazy definition (2)', 'c->setDeferredDefine(nullptr);')
    a('adding an item', 'c->addItem(i);')
    a('raw item access', 'cc->item(rtti::mcatClass, 0);')
    a('raw item access (2)', 'cc->item(rtti::mcatClass, "a");')
    a('internal method lookup', 'static_cast<rtti::MetaContainer const*>(cc)->getMethodInternal("a");')
    a('internal property lookup', 'static_cast<rtti::MetaContainer const*>(cc)->getPropertyInternal("a");')
    a('type record with a made-up key', 'ty.typeInfo({});')
    a('registering a type with a made-up key', 'rtti::MetaType::registerMetaType("a", 1, rtti::MetaType_ID{}, 0, 0, rtti::TypeFlags::None, nullptr, {});')
    a('registering a type', 'rtti::MetaType::registerMetaType("a", 1, rtti::MetaType_ID{}, 0, 0, rtti::TypeFlags::None, nullptr);')
    for op, args in (('allocate', ''), ('deallocate', 'x'), ('default_construct', 'x'), ('copy_construct', 'x, x'), ('move_construct', 'x, x'), ('move_or_copy', 'x, x'), ('destroy', 'x'), ('compare_eq', 'x, x')):
        a('primitive %s of a type' % op, 'ty.%s(%s);' % (op, args))
    a('raw conversion', 'rtti::MetaType::convert(x, ty, x, ty);')
    a('raw conversion (2)', 'rtti::MetaType::convert(x, ty.typeId(), x, ty.typeId());')
    a('record behind a type', 'ty.m_typeInfo;')
    a('type from a forged record', 'rtti::MetaType z{static_cast<rtti::TypeInfo const*>(nullptr)};', 'rtti::MetaType z{rtti::MetaType_ID{}};')
    a('identifier from a number', 'rtti::MetaType_ID z = 3;', 'rtti::MetaType_ID z{3};')
    a('changing an identifier', 'auto z = ty.typeId(); z.m_val = 3;')
    # handles
    for what, K, code in (('class by name', 'MetaClass', 'rtti::MetaClass::find("X")'), ('class by type', 'MetaClass', 'rtti::MetaClass::find(rtti::metaTypeId<X>())'),
                          ('class of a container', 'MetaClass', 'c->getClass("X")'), ('class of a container (2)', 'MetaClass', 'c->getClass(std::size_t{0})'),
                          ('global namespace', 'MetaNamespace', 'rtti::MetaNamespace::global()'), ('namespace of a container', 'MetaNamespace', 'n->getNamespace("X")'),
                          ('method of a container', 'MetaMethod', 'k->getMethod("X")'), ('method of a container (2)', 'MetaMethod', 'k->getMethod<int>("X")'),
                          ('property of a container', 'MetaProperty', 'k->getProperty("X")'), ('enumeration of a container', 'MetaEnum', 'k->getEnum("X")'),
                          ('constructor of a class', 'MetaConstructor', 'k->defaultConstructor()'), ('constructor of a class (2)', 'MetaConstructor', 'k->getConstructor<int>()'),
                          ('base class', 'MetaClass', 'k->baseClass(0)'), ('derived class', 'MetaClass', 'k->derivedClass(0)'), ('class of a type', 'MetaClass', 'ty.metaClass()'),
                          ('class of a variant', 'MetaClass', 'v.metaClass()')):
        a('mutable handle: ' + what, 'rtti::%s *z = %s;' % (K, code), 'rtti::%s const *z = %s;' % (K, code))
    a('mutable classes', 'c->for_each_class([](rtti::MetaClass *) { return true; });', 'c->for_each_class([](rtti::MetaClass const*) { return true; });')
    a('mutable methods', 'c->for_each_method([](rtti::MetaMethod *) { return true; });', 'c->for_each_method([](rtti::MetaMethod const*) { return true; });')
    # variants
    for what, code, control in (
            ('ref of a const variant', 'X &z = cv.ref<X>();', 'X const &z = cv.ref<X>();'), ('data of a const variant', 'X *z = cv.data<X>();', 'X const *z = cv.data<X>();'),
            ('cref of a const variant', 'X &z = cv.cref<X>();', 'X const &z = cv.cref<X>();'), ('cref of a variant', 'X &z = v.cref<X>();', 'X const &z = v.cref<X>();'),
            ('rref of a const variant', 'X &&z = std::move(cv).rref<X>();', 'X &&z = std::move(v).rref<X>();'), ('ref of a temporary', 'X &z = std::move(v).ref<X>();', 'X const &z = std::move(v).ref<X>();'),
            ('ref of an array in a const variant', 'auto *z = &cv.ref<int[2]>(); z[0][0] = 1;', 'auto *z = &v.ref<int[2]>(); z[0][0] = 1;'),
            ('ref of a pointer in a const variant', 'cv.ref<X*>() = nullptr;', 'v.ref<X*>() = nullptr;'),
            ('data of a pointer in a const variant', '*cv.data<X*>() = nullptr;', '*v.data<X*>() = nullptr;')):
        a('mutable access: ' + what, code, control)
    a('clearing a const variant', 'cv.clear();', 'v.clear();')
    a('converting a const variant', 'cv.convert<int>();', 'v.convert<int>();')
    a('converting a const variant (2)', 'cv.tryConvert<int>();', 'v.tryConvert<int>();')
    a('assigning a const variant', 'cv = rtti::variant{};', 'v = rtti::variant{};')
    a('assigning a value to a const variant', 'cv = 1;', 'v = 1;')
    a('swapping a const variant', 'swap(v, cv);', 'swap(v, v);')
    a('swapping with a made-up key', 'v.swap(v, {});')
    a('swap primitive of a variant', 'v.swap(v);')
    a('copy primitive of a variant', 'v.constructor(static_cast<void const*>(x), std::false_type{});')
    a('move primitive of a variant', 'v.constructor(static_cast<void*>(x), std::true_type{});')
    a('setting a property of a const variant', 'cv.set_property("a", 1);', 'v.set_property("a", 1);')
    a('raw data with a made-up key', 'v.raw_data_ptr({});')
    a('raw data', 'cv.raw_data_ptr();')
    a('storage of a variant', 'v.storage;')
    a('function table of a variant', 'v.manager;')
    a('type slot of a variant', 'v.internalTypeId();')
    a('class information of a variant', 'v.classInfo();')
    a('deriving from variant', 'struct Z: rtti::variant {};', 'struct Z { rtti::variant z; };')
    a('deriving from argument', 'struct Z: rtti::argument {};', 'struct Z { rtti::argument z; };')
    a('copying an argument', 'rtti::argument y{1}; rtti::argument z{y};', 'rtti::argument y{1}; rtti::argument z{std::move(y)};')
    a('assigning an argument', 'rtti::argument y{1}, z{1}; z = y;', 'rtti::argument y{1}, z{1};')
    a('assigning an argument (2)', 'rtti::argument y{1}, z{1}; z = std::move(y);', 'rtti::argument y{1}, z{1};')
    a('value of an argument', 'rtti::argument z{1}; z.m_value.clear();')
    a('mutable object from a const pointer', 'Y *z = rtti::meta_cast<Y>(cx);', 'Y const *z = rtti::meta_cast<Y>(cx);')
    a('mutable object from a const reference', 'Y &z = rtti::meta_cast<Y>(*cx);', 'Y const &z = rtti::meta_cast<Y>(*cx);')
    # invokers and builder
    a('invoker of a method', 'cm->invoker();')
    a('invoker of a property', 'cp->invoker();')
    a('invoker of a constructor', 'ct->constructor();')
    a('a builder out of nothing', 'rtti::meta_define<void> z;', 'auto z = rtti::global_define();')
    a('a builder of a class out of nothing', 'rtti::meta_define<X> z;', 'auto z = rtti::global_define()._class<X>("X");')
    a('a builder of any container', 'rtti::meta_define<void> z{c, c, nullptr};', None)
    a('a builder of any class', 'rtti::meta_define<X> z{k, k, nullptr};', None)
    a('a global builder of any container', 'rtti::meta_global z{c, c};', None)
    a('container of a builder', 'auto z = rtti::global_define(); z.m_currentContainer;')
    a('item of a builder', 'auto z = rtti::global_define(); z.m_currentItem;')
    a('registering a converter object', 'rtti::MetaType::registerConverter(ty.typeId(), ty.typeId(), *static_cast<rtti::internal::ConvertFunctionBase const*>(nullptr));')
    a('a converter object', 'rtti::internal::ConvertFunctionBase z;', 'rtti::internal::ConvertFunctionBase *z;')
    for key in ('MetaItem::SetAttributeKey', 'MetaContainer::DeferredDefineKey', 'MetaNamespace::CreateAccessKey', 'MetaClass::CreateAccessKey', 'MetaClass::CastAccessKey', 'MetaMethod::CreateAccessKey',
                'MetaProperty::CreateAccessKey', 'MetaEnum::CreateAccessKey', 'MetaConstructor::CreateAccessKey', 'MetaType::TypeInfoKey', 'MetaType::RegisterTypeKey', 'variant::RawPtrAccessKey', 'variant::SwapAccessKey'):
        a('making a ' + key, 'rtti::%s z{};' % key)
    return out


NOACC = ('-fno-access-control',)


def run(ctx):
    snippets(ctx)
    p = ctx.load('errors.cpp')
    members(ctx, p)


def snippets(ctx):
    ps = programs()
    wrap = 'void snippet() { %s }\n'
    jobs = []
    for what, code, control in ps:
        jobs.append((wrap % code, ()))
        jobs.append((wrap % (control or code), NOACC if control is None else ()))
    with Snippets(open(VERIF + '/witness/forge.h').read()) as s:
        res = s.all(jobs)
    good = 0
    for n, (what, code, control) in enumerate(ps):
        (bad, err), (ok, cerr) = res[2 * n], res[2 * n + 1]
        if bad:
            ctx.bad(what, 'include/rtti', 'a client program may contain: ' + code)
        elif not ok:
            ctx.undecided(what, 'include/rtti', 'control no longer compiles: %s: %s' % (control or code, cerr))
        else:
            good += 1
            ctx.ok(what, 'include/rtti', '%s -- %s' % (code, err))
    ctx.counts['rejected programs'] = good
    ctx.counts['programs'] = len(ps)
    if not good:
        raise Broken('no control compiles')


# --- members as declared --------------------------------------------------------------------------------------------------------------

HANDLE = re.compile(r'^(?!const )(?:class )?rtti::(Meta(?:Item|Container|Namespace|Class|Method|Property|Enum|Constructor)(?:Private)?|variant|TypeInfo) ?[*&]+$')


def members(ctx, p):
    n = 0
    for name, r in sorted(p.records.items()):
        if not (p.derives(name, 'rtti::MetaItem') or name == 'rtti::MetaType') or not (r.get('loc') or '').startswith(REPO + '/include/'):
            continue
        for x in r['fields']:
            ctx.req(x.get('acc') in ('private', 'protected'), '%s::%s' % (name, x['n']), r['loc'].replace(REPO + '/', ''), 'is an accessible data member')
        for m in r['methods']:
            if m.get('acc') not in ('public', None) or m.get('impl'):
                continue
            f = p.funcs.get(m['f'])
            d = f.d if f is not None else m
            n += 1
            judge(ctx, p, name, r, m, f)
    ctx.counts['public members'] = n
    if n < 40:
        raise Broken('only %d public members of metadata classes found' % n)


def key(p, t):
    """Is t a key: a class of the library nobody outside can make?"""
    r = p.records.get(re.sub(r'^const | ?[&]+$', '', t))
    if r is None or not r['n'].startswith('rtti::'):
        return False
    cs = [m for m in r['methods'] if (m['n'].rsplit('::', 1)[-1] == r['n'].rsplit('::', 1)[-1])]
    return bool(cs) and all(m.get('acc') in ('private', 'protected') for m in cs) and not r['fields']


def judge(ctx, p, name, r, m, f):
    if f is None:
        return
    short = m['n'].rsplit('::', 1)[-1]
    what = '%s(%s)%s' % (m['n'], ', '.join(x['t'] for x in f.params), ' const' if f.cm else '')
    what = re.sub(r'std::basic_string_view<.*?>>', 'string_view', what)
    if any(key(p, x['t']) for x in f.params):
        ctx.ok(what, f.where(), 'needs a key')
        return
    item = p.derives(name, 'rtti::MetaItem')
    bad = None
    if short.startswith('~'):
        bad = 'is an accessible destructor of a metadata class' if item else None
    elif f.d.get('ctor'):
        bad = 'is an accessible constructor of a metadata class' if item else None
        if not item and any('TypeInfo' in x['t'] for x in f.params):
            bad = 'makes a type from a record of the registry'
    elif not f.st and not f.cm and not (not item and short == 'operator='):
        bad = 'is accessible, can change the item and needs no key'
    elif HANDLE.match(f.rt or ''):
        bad = 'is accessible and hands out %s without a key' % f.rt
    else:
        for x in f.params:
            for a in re.findall(r'\((.*)\)>', x['t']):
                for b in a.split(', '):
                    if HANDLE.match(b.strip()):
                        bad = 'shows clients a mutable %s' % b.strip()
        if f.st and not bad and item and any(HANDLE.match(x['t']) for x in f.params):
            bad = 'is accessible, takes a mutable item and needs no key'
    if bad:
        ctx.bad(what, f.where(), bad)
    else:
        ctx.ok(what, f.where(), 'constant access')
