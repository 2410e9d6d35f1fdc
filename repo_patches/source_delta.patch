From 900a910a761aa35c90a7f6ac553b0757239a22ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 01/42] fix: print type flags by bit position and include
 CopyAssignable

---
 src/metatype.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 5c44784..c188894 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -477,6 +477,7 @@ static char const *flag_names[] = {"None",
                                    "Polymorphic",
                                    "DefaultConstructible",
                                    "CopyConstructible",
+                                   "CopyAssignable",
                                    "MoveConstructible",
                                    "MoveAssignable",
                                    "Destructible",
@@ -485,7 +486,12 @@ static char const *flag_names[] = {"None",
 
 inline static std::string_view flag_name(TypeFlags value)
 {
-    return flag_names[static_cast<std::underlying_type_t<TypeFlags>>(value)];
+    // each flag is a single bit, its name is stored next to the names of lower bits
+    auto bits = static_cast<std::underlying_type_t<TypeFlags>>(value);
+    auto index = std::size_t{0};
+    for (; bits != 0; bits >>= 1)
+        ++index;
+    return flag_names[index];
 }
 
 inline static constexpr bool check_flag(TypeFlags value, TypeFlags bit)
@@ -543,6 +549,8 @@ std::ostream& operator<<(std::ostream &stream, TypeFlags value)
         it = flag_name(TypeFlags::DefaultConstructible);
     if (check_flag(value, TypeFlags::CopyConstructible))
         it = flag_name(TypeFlags::CopyConstructible);
+    if (check_flag(value, TypeFlags::CopyAssignable))
+        it = flag_name(TypeFlags::CopyAssignable);
     if (check_flag(value, TypeFlags::MoveConstructible))
         it = flag_name(TypeFlags::MoveConstructible);
     if (check_flag(value, TypeFlags::MoveAssignable))
-- 
2.43.0


From d01bba1d58ef162455de5ac5eedf1d2ce3df7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 02/42] fix: call member function converters through the
 pointer to member

---
 include/rtti/metatype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e4ff728..386cad5 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -723,7 +723,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(from->*_this.m_func());
+            new (out) To((from->*_this.m_func)());
             return true;
         }
         catch (...)
@@ -756,7 +756,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        new (out) To(from->*_this.m_func(result));
+        new (out) To((from->*_this.m_func)(result));
         return result;
     }
 
-- 
2.43.0


From 6c9d4418ce133ba78bd787506d4b2685c27ba33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 03/42] fix: make std::hash of tagged identifiers usable

---
 include/rtti/tagged_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/tagged_id.h b/include/rtti/tagged_id.h
index 69e6783..28b4ea3 100644
--- a/include/rtti/tagged_id.h
+++ b/include/rtti/tagged_id.h
@@ -61,7 +61,7 @@ struct hash<mpl::ID<Tag, Type, default_value>>
 
     result_type operator()(argument_type const &id) const
     {
-        return std::hash<Type>(id.value());
+        return std::hash<Type>{}(id.value());
     }
 };
 
-- 
2.43.0


From 423e2719de30c7fb17f102680e06eeb49866ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 04/42] fix: accept static getter and setter functions as
 property accessors

---
 include/rtti/metadefine.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a9f7428..9ec51cc 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -781,7 +781,7 @@ struct PropertyInvokerEx: IPropertyInvoker
     {}
 
     bool isStatic() const override
-    { return std::is_function_v<G>; }
+    { return is_static_v<G>; }
 
     MetaType_ID typeId() const override
     { return metaTypeId<T>(); }
@@ -805,8 +805,12 @@ struct PropertyInvokerEx: IPropertyInvoker
     { MethodInvoker<S>{m_set}.invoke_method(instance, std::move(arg)); }
 
 private:
+    // accessors are decayed, so static ones are pointers to function
+    template<typename F>
+    static constexpr auto is_static_v = std::is_function_v<std::remove_pointer_t<F>>;
+
     static constexpr auto valid = conditional_v<
-     (std::is_function_v<G> && (std::is_void_v<S> || std::is_function_v<S>))
+     (is_static_v<G> && (std::is_void_v<S> || is_static_v<S>))
      ||
      (std::is_member_function_pointer_v<G> && (std::is_void_v<S> || std::is_member_function_pointer_v<S>)),
      std::true_type, std::false_type>;
-- 
2.43.0


From eaea55a4a05e5b689bab4f8a8d63da8fb12dd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 05/42] fix: allow invoking a method without arguments

---
 include/rtti/detail/metamethod_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index 0aaf9f4..b8019e2 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -11,8 +11,10 @@ variant MetaMethod::invoke(Args&&... args) const
     auto interface = invoker();
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
-    else
+    else if constexpr(sizeof...(Args) > 0)
         return interface->invoke_method(std::forward<Args>(args)...);
+    else
+        throw invoke_error{"Trying to invoke method " + qualifiedName() + " without instance"};
 }
 
 } // namespace rtti
-- 
2.43.0


From fd24472f910f8e9fff5f5780351798c0f66c079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 06/42] fix: destroy the value left behind by a converter
 reporting failure

---
 include/rtti/metatype.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 386cad5..02f1ece 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -694,7 +694,10 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        new (out) To(_this.m_func(*from, result));
+        auto *value = new (out) To(_this.m_func(*from, result));
+        // callers treat the output as not constructed when conversion failed
+        if (!result)
+            type_manager_t<To>::destroy(value);
         return result;
     }
 
@@ -756,7 +759,10 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        new (out) To((from->*_this.m_func)(result));
+        auto *value = new (out) To((from->*_this.m_func)(result));
+        // callers treat the output as not constructed when conversion failed
+        if (!result)
+            type_manager_t<To>::destroy(value);
         return result;
     }
 
-- 
2.43.0


From 87f57d3e89d3cd8170958e5212f312482fe18721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 07/42] fix: construct array elements in raw storage instead of
 assigning to them

---
 include/rtti/metatype.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 02f1ece..96fb1da 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,8 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <memory>
+
 namespace rtti {
 
 namespace internal {
@@ -353,7 +355,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base const*>(source);
-                std::copy(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't CopyConstructible");
@@ -368,7 +370,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base*>(source);
-                std::move(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_move(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");
-- 
2.43.0


From 09081262b6417c8a8a050568910a43d94d746038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 08/42] fix: respect alignment of stored values

---
 include/rtti/detail/variant_impl.h |  2 +-
 include/rtti/metatype.h            | 25 +++++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ba1779..0525e7a 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,7 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE>
+template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE && alignof(T) <= STORAGE_ALIGN>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 96fb1da..5f7d59d 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -11,6 +11,7 @@
 #include <rtti/tagged_id.h>
 
 #include <memory>
+#include <new>
 
 namespace rtti {
 
@@ -227,13 +228,21 @@ struct type_function_table_impl
 {
     static void* allocate()
     {
-        return ::operator new(sizeof(T));
+        if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            return ::operator new(sizeof(T), std::align_val_t{alignof(T)});
+        else
+            return ::operator new(sizeof(T));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+        {
+            if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+                ::operator delete(ptr, std::align_val_t{alignof(T)});
+            else
+                ::operator delete(ptr);
+        }
     }
 
     DISABLE_WARNINGS_PUSH
@@ -318,13 +327,21 @@ struct type_function_table_impl<T[N]>
 
     static void* allocate()
     {
-        return ::operator new(Length*sizeof(Base));
+        if constexpr(alignof(Base) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            return ::operator new(Length*sizeof(Base), std::align_val_t{alignof(Base)});
+        else
+            return ::operator new(Length*sizeof(Base));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+        {
+            if constexpr(alignof(Base) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+                ::operator delete(ptr, std::align_val_t{alignof(Base)});
+            else
+                ::operator delete(ptr);
+        }
     }
 
     static void default_construct([[maybe_unused]] void *where)
-- 
2.43.0


From 61d3b3509ccc536ac9e8591ef2b0785cae5262f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 09/42] fix: release allocated storage when a stored type's
 constructor throws

---
 include/rtti/detail/variant_impl.h | 42 +++++++++++++++++++++---------
 include/rtti/metatype.h            |  3 +--
 src/metatype.cpp                   |  4 +++
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 0525e7a..695bdf4 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -213,22 +213,31 @@ struct variant_function_table_impl<T, false, false>
     static void copy_construct(void const *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::copy_construct(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::move_or_copy(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
         noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::copy_construct(src.ptr, ptr);
+        guard.dismiss();
+        dst.ptr = ptr;
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
@@ -285,22 +294,31 @@ struct variant_function_table_impl<T[N], false, false>
     static void copy_construct(void const *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::copy_construct(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_move_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::move_or_copy(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
         noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::copy_construct(src.ptr, ptr);
+        guard.dismiss();
+        dst.ptr = ptr;
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 5f7d59d..b7a2bbb 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -356,8 +356,7 @@ struct type_function_table_impl<T[N]>
                     auto *begin = static_cast<Base*>(where);
                     auto *end = static_cast<Base*>(where) + Length;
 
-                    for (; begin != end; ++begin)
-                        new (begin) Base();
+                    std::uninitialized_value_construct(begin, end);
                 }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't DefaultConstructible");
diff --git a/src/metatype.cpp b/src/metatype.cpp
index c188894..014b6e1 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -2,6 +2,7 @@
 
 #include <rtti/metatype.h>
 #include <rtti/signature.h>
+#include <rtti/finally.h>
 
 #include <ostream>
 #include <shared_mutex>
@@ -292,6 +293,8 @@ bool MetaType::compare_eq(void const *lhs, void const *rhs) const
 void* MetaType::construct(void *copy, bool movable) const
 {
     auto result = allocate();
+    FINALLY_EX(guard) { deallocate(result); };
+
     if (!copy)
         default_construct(result);
     else if (!movable)
@@ -299,6 +302,7 @@ void* MetaType::construct(void *copy, bool movable) const
     else
         move_or_copy(copy, result);
 
+    guard.dismiss();
     return result;
 }
 
-- 
2.43.0


From 315cba0797a8a129e9872ce4731e727ba1eadf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 10/42] fix: do not ask a null pointer for its class
 information

---
 include/rtti/detail/variant_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 695bdf4..a0f8267 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -381,6 +381,8 @@ struct class_info_get
                 if constexpr(is_registered::value)
                 {
                     auto ptr = reinterpret_cast<C const * const *>(instance);
+                    if (!*ptr)
+                        return ClassInfo{metaTypeId<C>(), nullptr};
                     return (*ptr)->classInfo();
                 }
                 else
-- 
2.43.0


From a1b8601953b90695fc1d53995f6a6c737de99124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 11/42] fix: reject instances that are not class objects
 instead of ignoring the call

---
 include/rtti/metadefine.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 9ec51cc..d53de81 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -304,6 +304,9 @@ private:
         }
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
+                                   type_name<class_ref_t>()};
 
         return variant::empty_variant;
     }
@@ -312,11 +315,15 @@ private:
     static variant invoke_imp(F func, variant &instance,
                               argument_array_t const &args, mpl::index_sequence<I...>)
     {
+        using namespace std::literals;
         auto type = MetaType{instance.typeId()};
         if (type.isClass())
             (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
+                                   type_name<class_ref_t>()};
 
         return variant::empty_variant;
     }
@@ -418,20 +425,23 @@ private:
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
+                               type_name<class_ref_t>()};
     }
 
     template<std::size_t ...I>
     static variant invoke_imp(F func, variant &instance, argument_array_t const &args,
                               mpl::index_sequence<I...>)
     {
+        using namespace std::literals;
         auto type = MetaType{instance.typeId()};
         if (type.isClass())
             return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
+                               type_name<class_ref_t>()};
     }
 };
 
@@ -693,12 +703,14 @@ struct property_invoker<P, member_pointer>
 
     static variant get_field(P property, variant const &instance)
     {
+        using namespace std::literals;
         auto type = MetaType{instance.typeId()};
         if (type.isClass())
             return std::ref(instance.ref<C const>().*property);
         else if (type.isClassPtr())
             return std::ref(instance.to<C const *>()->*property);
-        return variant::empty_variant;
+        throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
+                               type_name<class_ref_t>()};
     }
 
     static void set_field(P property, variant const &instance, argument const &arg)
@@ -714,11 +726,15 @@ struct property_invoker<P, member_pointer>
                                        type_name<class_ref_t>()};
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
+                                       type_name<class_ref_t>()};
         }
     }
 
     static void set_field(P property, variant &instance, argument const &arg)
     {
+        using namespace std::literals;
         if constexpr(std::is_const_v<T>)
             throw invoke_error{"Write to readonly property"};
         else
@@ -728,6 +744,9 @@ struct property_invoker<P, member_pointer>
                 instance.ref<C>().*property = arg.value<T>();
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " +
+                                       type_name<class_ref_t>()};
         }
     }
 private:
-- 
2.43.0


From 75f82a1d6eb4c9bab400f2cd9b87a0df573781c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 12/42] fix: refuse to reuse a metaclass registered under the
 same name for another type

---
 src/metaclass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 29a4572..a7555fc 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -38,6 +38,9 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
             result = const_cast<MetaClass *>(owner.getClass(name));
         }
     }
+    if (result && result->metaTypeId() != typeId)
+        throw duplicate_metaclass{"Class "s + result->qualifiedName() + " already registered for: "
+                                  + MetaType{result->metaTypeId()}.typeName()};
     return result;
 }
 
-- 
2.43.0


From e55b488f9d8d6b0820d7ceaf6e65bacf1e23bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 13/42] fix: initialize value category of an empty argument

---
 include/rtti/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 1231aed..b9996c6 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -668,7 +668,7 @@ private:
     template<typename T>
     T value(std::integral_constant<int, 3>) const;
 
-    bool m_rvalue;
+    bool m_rvalue = false;
     mutable variant m_value;
     mutable variant m_dummy;
 };
-- 
2.43.0


From c706138ac5963a69eebdf01a7457c8bf129e30a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 14/42] fix: build qualified names before items are shared
 between threads

---
 src/metaitem.cpp         | 9 +--------
 src/private/metaitem_p.h | 6 ++++--
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index 79f45ed..e1e60cd 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -44,19 +44,12 @@ namespace internal {
 // MetaItemPrivate
 //--------------------------------------------------------------------------------------------------------------------------------
 
-inline std::string MetaItemPrivate::makeQualifiedName() const
+std::string MetaItemPrivate::makeQualifiedName() const
 {
     std::string result = m_owner ? m_owner->qualifiedName() : "";
     return std::move(result) + (m_owner ? "::" + m_name : "");
 }
 
-inline std::string const& MetaItemPrivate::qualifiedName() const
-{
-    if (m_qualifiedName.empty())
-        m_qualifiedName = makeQualifiedName();
-    return m_qualifiedName;
-}
-
 MetaItemPrivate::~MetaItemPrivate() = default;
 
 //--------------------------------------------------------------------------------------------------------------------------------
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 9de38ba..2964673 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -99,6 +99,7 @@ public:
     MetaItemPrivate(std::string_view name, MetaContainer const &owner)
         : m_name(name)
         , m_owner(&owner)
+        , m_qualifiedName(makeQualifiedName())
     {}
 
     virtual ~MetaItemPrivate();
@@ -108,7 +109,8 @@ protected:
     { return m_name; }
     MetaContainer const *owner() const
     { return m_owner; }
-    std::string const &qualifiedName() const;
+    std::string const &qualifiedName() const
+    { return m_qualifiedName; }
 
 private:
     std::string makeQualifiedName() const;
@@ -116,7 +118,7 @@ private:
     std::string const m_name;
     MetaContainer const *m_owner = nullptr;
     internal::NamedVariantList m_attributes;
-    mutable std::string m_qualifiedName = {};
+    std::string const m_qualifiedName = {};
 
     friend class rtti::MetaItem;
 };
-- 
2.43.0


From ff9becc7258935df3d16c762edc99dfbef725b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 15/42] fix: let a class define a member whose name is also
 used by its base

---
 src/metamethod.cpp   | 3 ++-
 src/metaproperty.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamethod.cpp b/src/metamethod.cpp
index ffa0762..1f8a89b 100644
--- a/src/metamethod.cpp
+++ b/src/metamethod.cpp
@@ -27,7 +27,8 @@ MetaMethod* MetaMethod::create(std::string_view name, MetaContainer &owner,
 
     auto signature = invoker->signature(name);
     auto result = const_cast<MetaMethod*>(owner.getMethod(signature));
-    if (!result)
+    // member inherited from base class doesn't prevent class from having its own
+    if (!result || result->owner() != &owner)
     {
         result = new MetaMethod{signature, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
diff --git a/src/metaproperty.cpp b/src/metaproperty.cpp
index 1da43c8..03818b2 100644
--- a/src/metaproperty.cpp
+++ b/src/metaproperty.cpp
@@ -19,7 +19,8 @@ MetaProperty* MetaProperty::create(std::string_view name, MetaContainer &owner,
         return nullptr;
 
     auto result = const_cast<MetaProperty*>(owner.getProperty(name));
-    if (!result)
+    // member inherited from base class doesn't prevent class from having its own
+    if (!result || result->owner() != &owner)
     {
         result = new MetaProperty{name, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
-- 
2.43.0


From 80147cb94ca3a947d5052f73e08f75e7bbf85e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 16/42] fix: make other threads wait for a running lazy
 definition

---
 src/metacontainer.cpp         | 17 +++++++++++------
 src/private/metacontainer_p.h |  4 +++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2bacc45..d4ba600 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -144,26 +144,31 @@ MetaContainer::MetaContainer(MetaContainerPrivate &value)
 void MetaContainer::setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder> callback)
 {
     auto d = d_func();
-    if (d->m_deferredDefine)
+    std::unique_lock lock{d->m_deferredDefine_lock};
+    if (d->m_deferredDefine_pending)
         throw definition_error{"Metacontainer " + qualifiedName() +
                                " already has deferred definition"};
     d->m_deferredDefine = std::move(callback);
+    d->m_deferredDefine_pending = (d->m_deferredDefine != nullptr);
 }
 
 void MetaContainer::checkDeferredDefine() const
 {
     auto d = d_func();
-    if (!d->m_deferredDefine)
+    if (!d->m_deferredDefine_pending.load(std::memory_order_acquire))
         return;
-    if (d->m_deferredDefine_lock.exchange(true, std::memory_order_acquire))
+
+    // other threads wait for the definition, its own queries get through
+    std::unique_lock lock{d->m_deferredDefine_lock};
+    auto callback = std::move(d->m_deferredDefine);
+    if (!callback)
         return;
 
     FINALLY{
-        d->m_deferredDefine = nullptr;
-        d->m_deferredDefine_lock.store(false, std::memory_order_release);
+        d->m_deferredDefine_pending.store(false, std::memory_order_release);
     };
 
-    d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
+    callback->invoke(*const_cast<MetaContainer*>(this));
 }
 
 void MetaContainer::forceDeferredDefine(ForceDeferred type) const
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 63ee7a9..4973582 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -2,6 +2,7 @@
 #define METACONTAINER_P_H
 
 #include <atomic>
+#include <mutex>
 
 #include "metaitem_p.h"
 #include <rtti/metacontainer.h>
@@ -73,7 +74,8 @@ private:
          &m_methods, &m_enums, &m_constructors}
     };
 
-    mutable std::atomic_bool m_deferredDefine_lock = false;
+    mutable std::recursive_mutex m_deferredDefine_lock;
+    mutable std::atomic_bool m_deferredDefine_pending = false;
     mutable std::unique_ptr<IDefinitionCallbackHolder> m_deferredDefine;
 
     friend class rtti::MetaContainer;
-- 
2.43.0


From ae19eb707519a2683dbc83929489af90076a65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 17/42] fix: run lazy definitions without holding registry
 locks

---
 src/metacontainer.cpp     | 15 +++++++--------
 src/private/metaclass_p.h |  8 ++++++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index d4ba600..01fe13f 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -179,19 +179,18 @@ void MetaContainer::forceDeferredDefine(ForceDeferred type) const
     {
         checkDeferredDefine();
         auto d = d_func();
-        d->m_classes.for_each([](MetaItem *item)
+        // definition may add new items, so lists shouldn't stay locked while it runs
+        for (std::size_t i = 0; i < d->m_classes.size(); ++i)
         {
-            auto *c = static_cast<MetaClass const*>(item);
+            auto *c = static_cast<MetaClass const*>(d->m_classes.get(i));
             c->forceDeferredDefine(ForceDeferred::Recursive);
-            return true;
-        });
+        }
 
-        d->m_namespaces.for_each([](MetaItem const *item)
+        for (std::size_t i = 0; i < d->m_namespaces.size(); ++i)
         {
-            auto *ns = static_cast<MetaContainer const*>(item);
+            auto *ns = static_cast<MetaContainer const*>(d->m_namespaces.get(i));
             ns->forceDeferredDefine(ForceDeferred::Recursive);
-            return true;
-        });
+        }
     }
 }
 
diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index d7f5c77..945cae4 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -97,11 +97,15 @@ namespace internal {
     template<typename F>
     inline void BaseClassList::for_each(F &&func) const
     {
+        // func may run deferred definition of base class, so list shouldn't stay locked
         std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        for (std::size_t i = 0; i < m_items.size(); ++i)
         {
+            auto const item = m_items[i];
+            lock.unlock();
             if (!func(item))
-                break;
+                return;
+            lock.lock();
         }
     }
 } // namespace internal
-- 
2.43.0


From 785ac63bf1289d746bb177c454d3979deac1bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 18/42] fix: decide comparability of arrays by their elements

---
 include/rtti/detail/variant_impl.h | 2 +-
 include/rtti/metatype.h            | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index a0f8267..879dcbe 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -333,7 +333,7 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index b7a2bbb..bec843f 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -414,10 +414,10 @@ struct type_function_table_impl<T[N]>
     }
 
     static bool compare_eq(void const *lhs, void const *rhs)
-        noexcept(has_nt_eq_v<T, T>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         using namespace std::literals;
-        if constexpr(has_eq_v<T, T>)
+        if constexpr(has_eq_v<Base, Base>)
         {
             if (lhs == rhs)
                 return true;
@@ -429,7 +429,7 @@ struct type_function_table_impl<T[N]>
             auto *first2 = static_cast<Base const*>(rhs);
             return std::equal(first1, last1, first2);
         }
-        else throw runtime_error("Type T = "s + type_name<T>() + "isn't EQ_Comparable");
+        else throw runtime_error("Type T = "s + type_name<Base>() + "isn't EQ_Comparable");
     }
 
 };
@@ -476,6 +476,7 @@ struct type_flags {
     using no_ref = std::remove_reference_t<T>;
     using no_ptr = std::remove_pointer_t<no_ref>;
     using base = base_type_t<T>;
+    using element = std::remove_all_extents_t<no_ref>;
     static Flags constexpr value =
           (std::is_const_v<no_ref>                 ? Flags::Const                  : Flags::None)
         | (std::is_pointer_v<no_ref>               ? Flags::Pointer                : Flags::None)
@@ -500,7 +501,7 @@ struct type_flags {
         | (std::is_move_constructible_v<base>      ? Flags::MoveConstructible      : Flags::None)
         | (std::is_move_assignable_v<base>         ? Flags::MoveAssignable         : Flags::None)
         | (std::is_destructible_v<base>            ? Flags::Destructible           : Flags::None)
-        | (has_eq_v<no_ref,no_ref>                 ? Flags::EQ_Comparable          : Flags::None)
+        | (has_eq_v<element,element>               ? Flags::EQ_Comparable          : Flags::None)
     ;
 };
 
-- 
2.43.0


From 143267f44287974da139b66d5477f3a6f5eb9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 19/42] fix: accept only base classes of the defined class as
 its declared bases

---
 include/rtti/metadefine.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index d53de81..07b3ee0 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -1037,6 +1037,9 @@ private:
     {
         // check that every type is class
         static_assert(mpl::is_typelist_v<mpl::typelist_map_t<L, check_is_class>>, "");
+        static_assert(((std::is_base_of_v<mpl::typelist_get_t<L, I>, T>
+                        && !std::is_same_v<mpl::typelist_get_t<L, I>, T>) && ...),
+                      "Only base classes of defined class can be declared as its bases");
 
         EXPAND(
             item->addBaseClass(metaTypeId<mpl::typelist_get_t<L, I>>(),
-- 
2.43.0


From bff494ba285f17e3548e588f57df19e0d307946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 20/42] fix: keep the address of the referred object in a
 variant even if its type overloads operator&

---
 include/rtti/detail/variant_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 879dcbe..b3b895b 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -146,13 +146,13 @@ struct variant_function_table_impl<T, true, true>
     static void copy_construct(void const *value, variant_type_storage &storage) noexcept
     {
         auto ptr = static_cast<Wrapper const*>(value);
-        storage.ptr = const_cast<Decay*>(&ptr->get());
+        storage.ptr = const_cast<Decay*>(std::addressof(ptr->get()));
     }
 
     static void move_construct(void *value, variant_type_storage &storage) noexcept
     {
         auto ptr = static_cast<Wrapper*>(value);
-        storage.ptr = const_cast<Decay*>(&ptr->get());
+        storage.ptr = const_cast<Decay*>(std::addressof(ptr->get()));
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst) noexcept
-- 
2.43.0


From cc136901d8161e95411786827dd2039a5814e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 21/42] fix: report instead of terminating when referred arrays
 without a non-throwing equality are compared

---
 include/rtti/detail/variant_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index b3b895b..14f7433 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -169,7 +169,7 @@ struct variant_function_table_impl<T, true, true>
     { /* do nothing */ }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -182,6 +182,7 @@ private:
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
 
     using Decay = std::conditional_t<std::is_array_v<U>, remove_all_cv_t<U>, full_decay_t<U>>;
+    using Base = std::remove_all_extents_t<Decay>;
 };
 
 template<typename T>
-- 
2.43.0


From 377572d463340e3d8b8e87d0159799d4ceac99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 22/42] fix: leave a variant alone when it is swapped with
 itself

---
 src/variant.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variant.cpp b/src/variant.cpp
index 14f474c..478b2ba 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -43,6 +43,9 @@ void variant::swap(variant &other) noexcept
 {
     using std::swap;
 
+    if (this == &other)
+        return;
+
     auto thisEmpty  = this->empty();
     auto otherEmpty = other.empty();
     if (thisEmpty && otherEmpty)
-- 
2.43.0


From d66f78fbdcc90968dbed3c817dd6bf3562713270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 23/42] fix: comparing with conversion treated a converted
 pointer as an array

Converters work on decayed types, so for an array the result is a pointer;
variant::eq reserved, compared and destroyed it as an array, which overflowed
the buffer of small arrays.
---
 include/rtti/detail/variant_impl.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 14f7433..d315b4a 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -485,7 +485,8 @@ bool variant::eq(T const &value) const
     auto mt_self = MetaType{internalTypeId(type_attribute::NONE)};
     auto mt_value = MetaType{metaTypeId<T>()};
 
-    if (MetaType::hasConverter(mt_self, mt_value))
+    // Converters produce decayed values, never arrays
+    if (!mt_value.isArray() && MetaType::hasConverter(mt_self, mt_value))
     {
         std::aligned_storage_t<sizeof(T), alignof(T)> buffer;
         if (MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value))
@@ -495,7 +496,7 @@ bool variant::eq(T const &value) const
         }
     }
 
-    if (MetaType::hasConverter(mt_value, mt_self))
+    if (!mt_self.isArray() && MetaType::hasConverter(mt_value, mt_self))
     {
         auto *buffer = mt_self.allocate();
         FINALLY { mt_self.deallocate(buffer); };
@@ -509,10 +510,7 @@ bool variant::eq(T const &value) const
         if (MetaType::convert(address, mt_value, buffer, mt_self))
         {
             FINALLY { mt_self.destroy(buffer); };
-            auto ptr = raw_data_ptr();
-            if (mt_self.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
-            return mt_self.compare_eq(ptr, buffer);
+            return mt_self.compare_eq(raw_data_ptr(), buffer);
         }
     }
 
-- 
2.43.0


From 8d3aaf8def67113b385297635345fbe97a3cfda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 24/42] fix: variant::eq of two variants compared the other
 variant as a value

---
 include/rtti/detail/variant_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index d315b4a..37c3471 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -479,6 +479,9 @@ variant& variant::operator=(T &&value)
 template<typename T>
 bool variant::eq(T const &value) const
 {
+    if constexpr(std::is_same_v<T, variant>)
+        return *this == value;
+
     if (*this == variant{std::cref(value)})
         return true;
 
-- 
2.43.0


From 2552890f22c87f2e858903bcd29c67583c63f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 25/42] fix: a converter whose registration failed removed the
 registered one when destroyed

---
 include/rtti/metatype.h | 18 ++++++++++++++----
 src/metatype.cpp        | 18 ++++++++++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index bec843f..b628b36 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -159,6 +159,8 @@ private:
 
     static bool registerConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
                                   internal::ConvertFunctionBase const &converter);
+    static void unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
+                                    internal::ConvertFunctionBase const &converter);
     static bool convert(void const *from, MetaType fromType, void *to, MetaType toType);
     static bool convert(void const *from, MetaType_ID fromTypeId, void *to, MetaType_ID toTypeId);
 
@@ -171,6 +173,7 @@ private:
         template<typename> friend class internal::meta_type;
     };
     friend class rtti::variant;
+    friend struct internal::ConvertFunctionBase;
 public:
     TypeInfo const* typeInfo(TypeInfoKey) const
     { return m_typeInfo; }
@@ -653,6 +656,13 @@ struct RTTI_PRIVATE ConvertFunctionBase
     {
         return m_converter(*this, in, out);
     }
+protected:
+    // Leaves a converter that was registered by someone else in place
+    template<typename From, typename To>
+    void unregister() const
+    {
+        MetaType::unregisterConverter(metaTypeId<From>(), metaTypeId<To>(), *this);
+    }
 private:
     converter_t m_converter;
 };
@@ -670,7 +680,7 @@ struct RTTI_PRIVATE ConvertFunctor: ConvertFunctionBase
     {}
     ~ConvertFunctor()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -705,7 +715,7 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
     {}
     ~ConvertFunctorOk()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -736,7 +746,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
 
     ~ConvertMethod()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -770,7 +780,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
 
     ~ConvertMethodOk()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
diff --git a/src/metatype.cpp b/src/metatype.cpp
index 014b6e1..5cb4a91 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -366,6 +366,13 @@ namespace {
             std::unique_lock lock{m_lock};
             m_items.erase(key);
         }
+
+        void remove(key_t const &key, F const *func)
+        {
+            std::unique_lock lock{m_lock};
+            if (auto search = m_items.find(key); search != std::end(m_items) && search->second == func)
+                m_items.erase(search);
+        }
     private:
         struct hash_key
         {
@@ -458,6 +465,17 @@ void MetaType::unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId)
             list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});
 }
 
+void MetaType::unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
+                                   internal::ConvertFunctionBase const &converter)
+{
+    auto fromType = MetaType{fromTypeId};
+    auto toType   = MetaType{toTypeId};
+
+    if (fromType.valid() && toType.valid())
+        if (auto list = customConverters())
+            list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);
+}
+
 static char const *flag_names[] = {"None",
 
                                    "Const",
-- 
2.43.0


From 2b2eb59b431ba2918c64b53421f2928b06652e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 26/42] fix: comparing a pointer with an array read the array
 as a pointer, arrays of different lengths compared equal by prefix

---
 src/variant.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 478b2ba..8775b84 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -106,8 +106,13 @@ bool variant::operator==(variant const &value) const
         if (mt_right.decayId() == mt_left.decayId())
         {
             auto ptr = value.raw_data_ptr();
-            if (mt_right.isArray())
+            // An array is compared element by element, a pointer only with the address of an array
+            if (mt_left.isArray())
+            {
+                if (mt_right.typeSize() != mt_left.typeSize())
+                    return false;
                 ptr = *reinterpret_cast<void const *const *>(ptr);
+            }
 
             return manager->f_compare_eq(storage, ptr);
         }
-- 
2.43.0


From b3c919f05a21f95aa2420c99c72739af17245b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 27/42] fix: classes that can be neither copied nor moved can
 be registered

---
 include/rtti/metadefine.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 07b3ee0..639fa12 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -1049,7 +1049,9 @@ private:
 
     void define_default_constructor()
     {
-        if constexpr(std::is_default_constructible_v<T>)
+        // constructed value is returned inside of variant
+        if constexpr(std::is_default_constructible_v<T>
+                     && (std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>))
             _constructor();
     }
 
-- 
2.43.0


From fe77cdac56161f959f068592d774665f9cde6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 28/42] fix: failed definition leaves the container stack of
 the builder intact

---
 include/rtti/metadefine.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 639fa12..bea1325 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -876,8 +876,10 @@ public:
         static_assert(std::is_void_v<T>, "Namespace can be defined only in another namespace");
         assert(m_currentContainer && m_currentContainer->category() == mcatNamespace && m_containerStack);
 
+        // failed creation must not leave extra container on the stack
+        auto *container = MetaNamespace::create(name, *m_currentContainer, {});
         m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaNamespace::create(name, *m_currentContainer, {});
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
         return meta_define<void, this_t>{m_currentItem, m_currentContainer, m_containerStack};
     }
@@ -891,9 +893,11 @@ public:
                       "Class can be defined in namespace or anther class");
         assert(m_currentContainer && m_containerStack);
 
-        m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaClass::create(
+        // failed creation must not leave extra container on the stack
+        auto *container = MetaClass::create(
             name, *m_currentContainer, metaTypeId<C>(), {});
+        m_containerStack->push(m_currentContainer);
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
 
         meta_define<C, this_t> result {m_currentItem, m_currentContainer, m_containerStack};
-- 
2.43.0


From b8904b96f8270290d0244825b05d1c15f930468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 29/42] fix: metadata items cannot be deleted by clients

MetaItem protects its destructor, but the implicit destructors of the
derived classes were public, so delete MetaClass::find(...) compiled and
left the registry with a dangling item.
---
 include/rtti/metaclass.h       | 1 +
 include/rtti/metaconstructor.h | 1 +
 include/rtti/metacontainer.h   | 1 +
 include/rtti/metaenum.h        | 1 +
 include/rtti/metanamespace.h   | 1 +
 include/rtti/variant.h         | 2 ++
 6 files changed, 7 insertions(+)

diff --git a/include/rtti/metaclass.h b/include/rtti/metaclass.h
index aff8c50..728c771 100644
--- a/include/rtti/metaclass.h
+++ b/include/rtti/metaclass.h
@@ -32,6 +32,7 @@ public:
     MetaClass const* derivedClass(std::size_t index) const;
     bool inheritedFrom(MetaClass const *base) const;
 protected:
+    ~MetaClass() override = default;
     RTTI_PRIVATE explicit MetaClass(std::string_view name, MetaContainer const &owner, MetaType_ID typeId);
     static MetaClass* create(std::string_view name, MetaContainer &owner, MetaType_ID typeId);
 
diff --git a/include/rtti/metaconstructor.h b/include/rtti/metaconstructor.h
index dc7ea7d..a40445d 100644
--- a/include/rtti/metaconstructor.h
+++ b/include/rtti/metaconstructor.h
@@ -25,6 +25,7 @@ public:
     }
 
 protected:
+    ~MetaConstructor() override = default;
     explicit MetaConstructor(std::string_view name, MetaContainer &owner,
                              std::unique_ptr<IConstructorInvoker> constructor);
     static MetaConstructor* create(std::string_view name, MetaContainer &owner,
diff --git a/include/rtti/metacontainer.h b/include/rtti/metacontainer.h
index ae3b321..b81869a 100644
--- a/include/rtti/metacontainer.h
+++ b/include/rtti/metacontainer.h
@@ -83,6 +83,7 @@ public:
 
     void forceDeferredDefine(ForceDeferred type = ForceDeferred::SelfOnly) const;
 protected:
+    ~MetaContainer() override = default;
     RTTI_PRIVATE explicit MetaContainer(std::string_view name, MetaContainer const &owner);
     RTTI_PRIVATE explicit MetaContainer(MetaContainerPrivate &value);
 
diff --git a/include/rtti/metaenum.h b/include/rtti/metaenum.h
index da41952..2b2f229 100644
--- a/include/rtti/metaenum.h
+++ b/include/rtti/metaenum.h
@@ -24,6 +24,7 @@ public:
     variant const& element(std::string_view name) const;
     void for_each_element(enum_element_t const &func) const;
 protected:
+    ~MetaEnum() override = default;
     explicit MetaEnum(std::string_view name, const MetaContainer &owner, MetaType_ID typeId);
     static MetaEnum* create(std::string_view name, MetaContainer &owner, MetaType_ID typeId);
 
diff --git a/include/rtti/metanamespace.h b/include/rtti/metanamespace.h
index a8de4e1..12e263e 100644
--- a/include/rtti/metanamespace.h
+++ b/include/rtti/metanamespace.h
@@ -15,6 +15,7 @@ public:
     bool isGlobal() const;
     MetaCategory category() const override;
 protected:
+    ~MetaNamespace() override = default;
     using MetaContainer::MetaContainer;
     static MetaNamespace* create(std::string_view name, MetaContainer &owner);
 private:
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index b9996c6..9f9eb8a 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -718,6 +718,7 @@ public:
     template<typename ...Args>
     variant invoke(Args&&... args) const;
 protected:
+    ~MetaMethod() override = default;
     explicit MetaMethod(std::string_view name, MetaContainer &owner,
                         std::unique_ptr<IMethodInvoker> invoker);
     static MetaMethod* create(std::string_view name, MetaContainer &owner,
@@ -777,6 +778,7 @@ public:
     bool readOnly() const { return invoker()->readOnly(); }
 
 protected:
+    ~MetaProperty() override = default;
     explicit MetaProperty(std::string_view name, MetaContainer &owner,
                           std::unique_ptr<IPropertyInvoker> invoker);
     static MetaProperty* create(std::string_view name, MetaContainer &owner,
-- 
2.43.0


From d89b7a5f7780e1a6b8fccdb20259bb216aaa9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 30/42] fix: functions returning rvalue references can be
 registered

---
 include/rtti/metadefine.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index bea1325..82028a8 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -212,7 +212,8 @@ private:
     template<std::size_t ...I>
     static variant invoke(F func, argument_array_t const &args, mpl::index_sequence<I...>)
     {
-        if constexpr(std::is_reference_v<Result>)
+        // rvalue is moved to result
+        if constexpr(std::is_lvalue_reference_v<Result>)
             return std::ref(func(args[I]->value<argument_get_t<I>>()...));
         else
             return func(args[I]->value<argument_get_t<I>>()...);
@@ -402,7 +403,8 @@ private:
     template<typename R>
     static variant reference_get(R &&result)
     {
-        if constexpr(std::is_reference_v<Result>)
+        // rvalue is moved to result
+        if constexpr(std::is_lvalue_reference_v<Result>)
             return std::ref(std::forward<R>(result));
         else
             return std::forward<R>(result);
-- 
2.43.0


From 33a4bb14ffe450e799402af6d605ceb09617284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 31/42] fix: noexcept methods with reference qualifier can be
 registered

---
 include/rtti/function_traits.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index efec932..ec87941 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -106,6 +106,22 @@ struct function_traits_helper<R(C::*)(Args...) const &>:
     using is_lrefthis = std::true_type;
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) & noexcept>:
+    function_traits_helper<R(C::*)(Args...) noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const & noexcept>:
+    function_traits_helper<R(C::*)(Args...) const noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) const &&>:
     function_traits_helper<R(C::*)(Args...) const>
-- 
2.43.0


From 5e32edb14814478a874c942c1476b0fe44d20c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 32/42] fix: pointers and references to classes with
 inaccessible destructor can be used with meta types

---
 include/rtti/metatype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index b628b36..cd590fe 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -301,7 +301,7 @@ struct type_function_table_impl
 
     static void destroy([[maybe_unused]] void *ptr) noexcept
     {
-        if constexpr(!std::is_trivially_destructible_v<T>)
+        if constexpr(std::is_destructible_v<T> && !std::is_trivially_destructible_v<T>)
             if (ptr)
                 static_cast<T*>(ptr)->~T();
     }
@@ -405,7 +405,7 @@ struct type_function_table_impl<T[N]>
 
     static void destroy([[maybe_unused]] void *ptr) noexcept
     {
-        if constexpr(!std::is_trivially_destructible_v<Base>)
+        if constexpr(std::is_destructible_v<Base> && !std::is_trivially_destructible_v<Base>)
             if (ptr)
             {
                 auto *begin = static_cast<Base*>(ptr);
-- 
2.43.0


From 999cf185a91235d04421935a346236ea4e856921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 33/42] fix: inherited methods can be registered as converters

---
 include/rtti/metatype.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index cd590fe..8302020 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,7 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <functional>
 #include <memory>
 #include <new>
 
@@ -689,7 +690,7 @@ struct RTTI_PRIVATE ConvertFunctor: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(_this.m_func(*from));
+            new (out) To(std::invoke(_this.m_func, *from));
             return true;
         }
         catch (...)
@@ -723,7 +724,7 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        auto *value = new (out) To(_this.m_func(*from, result));
+        auto *value = new (out) To(std::invoke(_this.m_func, *from, result));
         // callers treat the output as not constructed when conversion failed
         if (!result)
             type_manager_t<To>::destroy(value);
-- 
2.43.0


From 9ad88353b60c13fd57f1b71c5d82785eddae7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 34/42] fix: classes that can not be copied can be converted by
 default converter

---
 include/rtti/metatype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 8302020..d82b006 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -634,7 +634,7 @@ inline bool MetaType::isArray() const noexcept
 namespace internal {
 
 template<typename From, typename To>
-To default_convert(From value)
+To default_convert(std::remove_reference_t<From> const &value)
 {
     return value;
 }
-- 
2.43.0


From 6b0f92a749ba9768a304b803a2bfc9163f7eb912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 35/42] fix: constructors taking non const reference or move
 only value can be registered

---
 include/rtti/misc_traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index 2c6339e..aef7904 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -222,7 +222,8 @@ struct is_converting_constructor: std::false_type
 
 template<typename T, typename Arg>
 struct is_converting_constructor<T, Arg>:
-    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T>,
+    // source of conversion is always constant
+    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<full_decay_t<Arg> const&, T>,
                        std::true_type, std::false_type>
 {};
 
-- 
2.43.0


From 124a439f6a6f9021ee18fa287f861440656e0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 36/42] fix: parameters referring to abstract classes, not
 copyable classes or arrays can be registered

---
 include/rtti/detail/argument_impl.h | 30 ++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/rtti/detail/argument_impl.h b/include/rtti/detail/argument_impl.h
index 5738973..6dd2043 100644
--- a/include/rtti/detail/argument_impl.h
+++ b/include/rtti/detail/argument_impl.h
@@ -14,7 +14,7 @@ template<typename T>
 T argument::value(std::integral_constant<int, 0>) const
 {
     using namespace std::literals;
-    using Decay = std::decay_t<T>;
+    using Decay = std::remove_cv_t<std::remove_reference_t<T>>;
 
     if (!m_rvalue)
         throw bad_variant_cast{"Incompatible argument cast from LValue to RValue reference"};
@@ -31,16 +31,22 @@ T argument::value(std::integral_constant<int, 0>) const
     if (auto *data = value->data<Decay>())
         return std::move(*data);
 
-    m_dummy = value->to<Decay>();
-    auto *ptr = m_dummy.raw_data_ptr();
-    return std::move(*static_cast<Decay*>(const_cast<void*>(ptr)));
+    // value of such type cannot be created by conversion
+    if constexpr(!std::is_copy_constructible_v<Decay> && !std::is_move_constructible_v<Decay>)
+        return std::move(value->ref<Decay>());
+    else
+    {
+        m_dummy = value->to<Decay>();
+        auto *ptr = m_dummy.raw_data_ptr();
+        return std::move(*static_cast<Decay*>(const_cast<void*>(ptr)));
+    }
 }
 
 // lvalue const reference
 template<typename T>
 T argument::value(std::integral_constant<int, 1>) const
 {
-    using Decay = std::decay_t<T>;
+    using Decay = std::remove_cv_t<std::remove_reference_t<T>>;
 
     auto const *value = &m_value;
     if (isVariant())
@@ -53,9 +59,15 @@ T argument::value(std::integral_constant<int, 1>) const
     if (auto *data = value->data<Decay>())
         return *data;
 
-    m_dummy = value->to<Decay>();
-    auto *ptr = m_dummy.raw_data_ptr();
-    return *static_cast<Decay const*>(ptr);
+    // value of such type cannot be created by conversion
+    if constexpr(!std::is_copy_constructible_v<Decay> && !std::is_move_constructible_v<Decay>)
+        return value->cref<Decay>();
+    else
+    {
+        m_dummy = value->to<Decay>();
+        auto *ptr = m_dummy.raw_data_ptr();
+        return *static_cast<Decay const*>(ptr);
+    }
 }
 
 // lvalue reference
@@ -63,7 +75,7 @@ template<typename T>
 T argument::value(std::integral_constant<int, 2>) const
 {
     using namespace std::literals;
-    using Decay = std::decay_t<T>;
+    using Decay = std::remove_cv_t<std::remove_reference_t<T>>;
 
     if (m_rvalue)
         throw bad_variant_cast{"Incompatible argument cast from RValue to non cost LValue reference"};
-- 
2.43.0


From b4a47a8f158e9806d9bcee4c37e2547fb982ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 37/42] fix: variables and fields of types that can not be
 assigned can be registered as properties

---
 include/rtti/metadefine.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 82028a8..dfad396 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -626,6 +626,11 @@ struct property_type<T C::*>: mpl::identity<T>
 template<typename P>
 using property_type_t = typename property_type<P>::type;
 
+// Values of arrays and of not assignable types can't be replaced
+template<typename T>
+constexpr auto is_readonly_property_v = std::is_const_v<T> || !std::is_assignable_v<T&, T>
+    || !(std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>);
+
 template<typename P> struct property_class;
 
 template<typename C, typename T>
@@ -656,14 +661,14 @@ struct property_invoker<P, static_pointer>
     { return metaTypeId<T>(); }
 
     static bool readOnly()
-    { return std::is_const_v<T>; }
+    { return is_readonly_property_v<T>; }
 
     static variant get_static(P property)
     { return std::cref(*property); }
 
     static void set_static([[maybe_unused]] P property, argument const &arg)
     {
-        if constexpr(std::is_const_v<T>)
+        if constexpr(is_readonly_property_v<T>)
             throw invoke_error{"Write to readonly property"};
         else
             *property = arg.value<T>();
@@ -695,7 +700,7 @@ struct property_invoker<P, member_pointer>
     { return metaTypeId<T>(); }
 
     static bool readOnly()
-    { return std::is_const_v<T>; }
+    { return is_readonly_property_v<T>; }
 
     static variant get_static(P)
     { assert(false); return variant::empty_variant; }
@@ -718,7 +723,7 @@ struct property_invoker<P, member_pointer>
     static void set_field(P property, variant const &instance, argument const &arg)
     {
         using namespace std::literals;
-        if constexpr(std::is_const_v<T>)
+        if constexpr(is_readonly_property_v<T>)
             throw invoke_error{"Write to readonly property"};
         else
         {
@@ -737,7 +742,7 @@ struct property_invoker<P, member_pointer>
     static void set_field(P property, variant &instance, argument const &arg)
     {
         using namespace std::literals;
-        if constexpr(std::is_const_v<T>)
+        if constexpr(is_readonly_property_v<T>)
             throw invoke_error{"Write to readonly property"};
         else
         {
-- 
2.43.0


From 30ee63b3c08a4bff9224108de0553365a5c4e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 38/42] fix: methods with ten parameters can be invoked

---
 include/rtti/detail/metamethod_impl.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index b8019e2..5a598cf 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -6,11 +6,18 @@ namespace rtti {
 template<typename ...Args>
 variant MetaMethod::invoke(Args&&... args) const
 {
-    static_assert(sizeof...(Args) <= IMethodInvoker::MaxNumberOfArguments,
+    // instance of the non static method isn't its argument
+    constexpr auto max_arguments = IMethodInvoker::MaxNumberOfArguments;
+    static_assert(sizeof...(Args) <= max_arguments + 1,
                   "Maximum supported metamethod arguments: 10");
     auto interface = invoker();
     if (interface->isStatic())
-        return interface->invoke_static(std::forward<Args>(args)...);
+    {
+        if constexpr(sizeof...(Args) <= max_arguments)
+            return interface->invoke_static(std::forward<Args>(args)...);
+        else
+            throw invoke_error{"Invalid number of arguments"};
+    }
     else if constexpr(sizeof...(Args) > 0)
         return interface->invoke_method(std::forward<Args>(args)...);
     else
-- 
2.43.0


From 7a524928adda4dc7697ade9c4ce8262d35f46a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 39/42] fix: objects that can not be copied can be passed to
 static methods by reference

---
 include/rtti/detail/metamethod_impl.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index 5a598cf..0c7dbc5 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -3,6 +3,19 @@
 
 namespace rtti {
 
+namespace internal {
+
+// Instance is passed inside of variant
+template<typename ...Args>
+struct has_instance: std::false_type
+{};
+
+template<typename Instance, typename ...Args>
+struct has_instance<Instance, Args...>: std::is_constructible<std::decay_t<Instance>, Instance>
+{};
+
+} // namespace internal
+
 template<typename ...Args>
 variant MetaMethod::invoke(Args&&... args) const
 {
@@ -18,7 +31,7 @@ variant MetaMethod::invoke(Args&&... args) const
         else
             throw invoke_error{"Invalid number of arguments"};
     }
-    else if constexpr(sizeof...(Args) > 0)
+    else if constexpr(internal::has_instance<Args&&...>::value)
         return interface->invoke_method(std::forward<Args>(args)...);
     else
         throw invoke_error{"Trying to invoke method " + qualifiedName() + " without instance"};
-- 
2.43.0


From 491f8c3596120f6c5097ca93c3ee44037772b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 40/42] fix: typelist_foldr yields result of the composition
 function

---
 include/rtti/typelist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/typelist.h b/include/rtti/typelist.h
index 54509b3..2695154 100644
--- a/include/rtti/typelist.h
+++ b/include/rtti/typelist.h
@@ -441,7 +441,7 @@ struct typelist_foldr: check_typelist<T>
 
 template<typename H, typename ...T, template<typename, typename> class F, typename I>
 struct typelist_foldr<type_list<H, T...>, F, I>:
-        F<H, typename typelist_foldr<type_list<T...>, F, I>::type>::type
+        F<H, typename typelist_foldr<type_list<T...>, F, I>::type>
 {};
 
 template<template<typename, typename> class F, typename I>
-- 
2.43.0


From 8ace34f0bb9844344104eb92ad2d6d852de6e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 41/42] fix: a moved-from scope guard no longer runs its
 function

The defaulted move operations copied the dismissed state and left the source
armed, so that a guard handed over ran its function twice, and dismissing the
new guard had no effect.
---
 include/rtti/finally.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/rtti/finally.h b/include/rtti/finally.h
index 643beca..30e25bc 100644
--- a/include/rtti/finally.h
+++ b/include/rtti/finally.h
@@ -15,8 +15,22 @@ public:
     scope_guard() = delete;
     scope_guard(scope_guard const&) = delete;
     scope_guard& operator=(scope_guard const&) = delete;
-    scope_guard(scope_guard &&) noexcept = default;
-    scope_guard& operator=(scope_guard &&) noexcept = default;
+    scope_guard(scope_guard &&other)
+        noexcept(std::is_nothrow_move_constructible<F>::value)
+        : m_dismiss{other.m_dismiss},
+          m_function{std::move(other.m_function)}
+    { other.m_dismiss = true; }
+    scope_guard& operator=(scope_guard &&other) noexcept
+    {
+        if (this != &other)
+        {
+            if (!m_dismiss)
+                m_function();
+            m_function = std::move(other.m_function);
+            m_dismiss = std::exchange(other.m_dismiss, true);
+        }
+        return *this;
+    }
     explicit scope_guard(F const &function)
         noexcept(std::is_nothrow_copy_constructible<F>::value)
         : m_function{function}
-- 
2.43.0


From 1cf92c8e2e9acf95101395d4dfc18847a16fd430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:50 +0000
Subject: [PATCH 42/42] fix: keep values whose move may throw outside of the
 variant

Moving and swapping variants are declared not to throw, yet moved inline
values with constructors that may: an exception terminated the process.
---
 include/rtti/detail/variant_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 37c3471..7701e61 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,8 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE && alignof(T) <= STORAGE_ALIGN>
+template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE && alignof(T) <= STORAGE_ALIGN
+                     && std::is_nothrow_move_constructible_v<T>>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
-- 
2.43.0

