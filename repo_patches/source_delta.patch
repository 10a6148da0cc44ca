From e268a932fd8d0b74c717cf7eb7838d3869933dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 01/23] fix: opt::swap was never viable for options of object
 types

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..62f5b4e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2634,14 +2634,14 @@ namespace impl::option {
         and_v<
             std::is_move_constructible<T>,
             std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
-- 
2.43.0


From 2cac2a1934f4226b7bc5790bc0a9d9b676ab9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 02/23] fix: get<T> on an r-value option cast it to the wrong
 option type

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 62f5b4e..0c184aa 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3475,9 +3475,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From b8f1c5f4dba54318d3610aff742b01670a7785ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 03/23] fix: assigning an l-value option of a compatible
 reference did not compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 0c184aa..64e2fe3 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2934,7 +2934,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(other.get());
             } else {
                 reset();
             }
-- 
2.43.0


From e4849aef31fe993ee5efb2b3430d5b875aad0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 04/23] fix: max_level of a PADDING member narrower than int
 was far out of range

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 64e2fe3..bee17aa 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1500,7 +1500,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From 93c2ea5d78738d416544b0121f7e1061d4ff112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 05/23] fix: signed overflow in get_level of sentinel
 enumerations

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index bee17aa..aeb47bf 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1549,7 +1549,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1567,7 +1567,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1585,7 +1585,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From 1cad4f691c05dfb4e93f4668170631f5ed88c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 06/23] fix: sentinel_f with more than one value did not
 compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index aeb47bf..d59b961 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3977,7 +3977,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -3987,7 +3987,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From dc9cc6d373a8be3bdb6cd9cbfcaf529064f32dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 07/23] fix: emplacing a trivially assignable type with a
 destructor destroyed it twice (C++17)

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d59b961..b603ce9 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,7 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From 69ab013e90963c666a665513afdebc1d7fba755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 08/23] fix: a throwing constructor left a size-optimised
 option looking engaged

---
 include/opt/option.hpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b603ce9..1a36e26 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1885,6 +1885,36 @@ namespace impl {
     template<class T>
     inline constexpr bool is_reference_wrapper_v<std::reference_wrapper<T>> = true;
 
+#if defined(__cpp_exceptions) && __cpp_exceptions >= 199711L
+    // A constructor that throws may leave arbitrary bytes behind, so the "is empty" state has to be written again.
+    template<class Traits, class T, class... Args>
+    OPTION_CONSTEXPR_CXX20 void construct_or_set_level_impl(T* const ptr, Args&&... args) {
+        try {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        } catch (...) {
+            Traits::set_level(ptr, 0);
+            throw;
+        }
+    }
+#endif
+    template<class Traits, class T, class... Args>
+    constexpr void construct_or_set_level(T* const ptr, Args&&... args) {
+#if defined(__cpp_exceptions) && __cpp_exceptions >= 199711L
+        if constexpr (!std::is_nothrow_constructible_v<T, Args...>) {
+#if !OPTION_IS_CXX20 && (OPTION_HAS_BUILTIN(__builtin_is_constant_evaluated) || OPTION_MSVC)
+            if (__builtin_is_constant_evaluated()) {
+                impl::construct_at(ptr, static_cast<Args&&>(args)...);
+                return;
+            }
+#endif
+            impl::construct_or_set_level_impl<Traits>(ptr, static_cast<Args&&>(args)...);
+        } else
+#endif
+        {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        }
+    }
+
     // See https://github.com/microsoft/STL/pull/878#issuecomment-639696118
     struct nontrivial_dummy {
         constexpr nontrivial_dummy() noexcept {}
@@ -2043,7 +2073,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_or_set_level<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2101,7 +2131,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_or_set_level<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From fc2599539b6d1a14f9702b25292aae6019160c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 09/23] fix: option<T&> was never constructible from an option
 of a compatible reference

from_option_like_ctor of reference options selected always_non_explicit, which
has no constructor_is_explicit, so every converting constructor of a reference
option (option<T&> to option<const T&>, derived to base) was discarded.
---
 include/opt/option.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 1a36e26..4a3c8e7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2678,6 +2678,8 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
-- 
2.43.0


From 27f4dbd9e91a030de59ec32e7c75f70ace3c4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:00 +0000
Subject: [PATCH 10/23] fix: make swap of two options of the same type
 unambiguous

Now that opt::swap(option<T>&, option<U>&) participates in overload resolution,
an unqualified swap of two options of one type (as done by the swap idiom, and
by option::swap itself for nested options) has to prefer it to std::swap.
---
 include/opt/option.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 4a3c8e7..41a8a3f 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3434,6 +3434,10 @@ template<class T, class U>
 constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right) noexcept(impl::option::nothrow_swap<T, U>) {
     left.swap(right);
 }
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
 
 template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
-- 
2.43.0


From d717b4b070cb991fe3248db55e5183b5d100e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 11/23] fix: flatten of a const l-value option did not compile

The result must refer to a const value then.
---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 41a8a3f..b84d8ce 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1874,10 +1874,18 @@ namespace impl {
         using type = T&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T, const U&> {
+        using type = const T&;
+    };
+    template<class T, class U>
     struct copy_lvalue_reference<T&&, U&> {
         using type = T&&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T&&, const U&> {
+        using type = T&&;
+    };
+    template<class T, class U>
     using copy_lvalue_reference_t = typename copy_lvalue_reference<T, U>::type;
 
     template<class T>
-- 
2.43.0


From da61f0c7c6915c2de0a36ba9257d86fcd750e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:41 +0000
Subject: [PATCH 12/23] fix: flatten to an option of an r-value reference did
 not compile

---
 include/opt/option.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b84d8ce..88d4411 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3451,7 +3451,11 @@ template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
     if constexpr (!opt::is_option_v<typename impl::remove_cvref<Option>::value_type>) {
         using result_type = impl::copy_lvalue_reference_t<typename impl::remove_cvref<Option>::value_type, Option>;
-        return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
+        if constexpr (std::is_reference_v<result_type>) {
+            return opt.has_value() ? opt::option<result_type>{static_cast<result_type>(opt.get())} : opt::none;
+        } else {
+            return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
+        }
     } else {
         return opt.has_value() ? flatten(static_cast<Option&&>(opt).get()) : opt::none;
     }
-- 
2.43.0


From e10203de2932c34785c098bc10b5a87d18d2df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 13/23] fix: equal reference options hashed differently (hash
 of the address instead of the value)

---
 include/opt/option.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 88d4411..dc8b3d8 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -4128,15 +4128,25 @@ public:
 };
 
 template<class T>
-struct std::hash<opt::option<T&>> {
-    constexpr std::size_t operator()(const opt::option<T&>& val) const noexcept(noexcept(std::hash<T*>{}(val.ptr_or_null()))) {
-        return std::hash<T*>{}(val.ptr_or_null());
+struct std::hash<::opt::impl::enable_hash_helper1<
+    opt::option<T&>, ::opt::impl::enable_hash_helper2<std::remove_const_t<T>>
+>> {
+    using val_hash = std::hash<std::remove_const_t<T>>;
+public:
+    constexpr std::size_t operator()(const opt::option<T&>& val) const noexcept(noexcept(val_hash{}(*val.ptr_or_null()))) {
+        constexpr std::size_t disengaged_hash = 0;
+        return val.has_value() ? val_hash{}(*val.ptr_or_null()) : disengaged_hash;
     }
 };
 template<class T>
-struct std::hash<opt::option<T&&>> {
-    constexpr std::size_t operator()(const opt::option<T&&>& val) const noexcept(noexcept(std::hash<T*>{}(val.ptr_or_null()))) {
-        return std::hash<T*>{}(val.ptr_or_null());
+struct std::hash<::opt::impl::enable_hash_helper1<
+    opt::option<T&&>, ::opt::impl::enable_hash_helper2<std::remove_const_t<T>>
+>> {
+    using val_hash = std::hash<std::remove_const_t<T>>;
+public:
+    constexpr std::size_t operator()(const opt::option<T&&>& val) const noexcept(noexcept(val_hash{}(*val.ptr_or_null()))) {
+        constexpr std::size_t disengaged_hash = 0;
+        return val.has_value() ? val_hash{}(*val.ptr_or_null()) : disengaged_hash;
     }
 };
 
-- 
2.43.0


From 235eb4dae1c87b307d6a679a0cea9403f47e6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 14/23] fix: iterators of an empty option failed their checks
 on valid uses (comparison, zero offset, to_address)

---
 include/opt/option.hpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index dc8b3d8..d3d1c25 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2452,6 +2452,10 @@ namespace impl {
         using pointer = value_type*;
     private:
         pointer ptr{};
+
+#if OPTION_IS_CXX20
+        friend struct std::pointer_traits<option_iterator>;
+#endif
     public:
         option_iterator() = default;
         explicit constexpr option_iterator(const pointer ptr_) noexcept : ptr{ptr_} {}
@@ -2491,25 +2495,25 @@ namespace impl {
             return tmp;
         }
         constexpr option_iterator& operator+=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr += offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator+(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr + offset};
         }
         [[nodiscard]] friend constexpr option_iterator operator+(const difference_type offset, const option_iterator& it) noexcept {
-            OPTION_VERIFY(it.ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(it.ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{it.ptr + offset};
         }
         constexpr option_iterator& operator-=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr -= offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr - offset};
         }
         [[nodiscard]] constexpr difference_type operator-(const option_iterator& right) const noexcept {
@@ -2526,13 +2530,9 @@ namespace impl {
             return ptr != right.ptr;
         }
         [[nodiscard]] constexpr bool operator<(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
             return ptr < right.ptr;
         }
         [[nodiscard]] constexpr bool operator>(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
             return ptr > right.ptr;
         }
         [[nodiscard]] constexpr bool operator<=(const option_iterator& right) const noexcept {
@@ -2547,6 +2547,24 @@ namespace impl {
     #pragma clang attribute pop
 #endif
 
+}
+
+#if OPTION_IS_CXX20
+// std::to_address must be usable with the past-the-end iterators of an empty option
+template<class T>
+struct std::pointer_traits<opt::impl::option_iterator<T>> {
+    using pointer = opt::impl::option_iterator<T>;
+    using element_type = std::remove_reference_t<T>;
+    using difference_type = std::ptrdiff_t;
+
+    [[nodiscard]] static constexpr element_type* to_address(const pointer it) noexcept {
+        return it.ptr;
+    }
+};
+#endif
+
+namespace opt {
+
 class bad_access : public std::exception {
 public:
     bad_access() noexcept = default;
-- 
2.43.0


From 96f5920c6b10df9b216678c4171e30f356abc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:34 +0000
Subject: [PATCH 15/23] fix: option<std::unique_ptr<T[]>> did not compile

---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d3d1c25..7fb7f43 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1397,6 +1397,7 @@ namespace impl {
     template<class Elem>
     struct internal_option_traits<std::unique_ptr<Elem, std::default_delete<Elem>>, option_strategy::unique_ptr> {
     private:
+        using pointer = typename std::unique_ptr<Elem, std::default_delete<Elem>>::pointer;
         static constexpr std::uintptr_t sentinel_ptr = std::uintptr_t(-1) - 46508;
     public:
         static constexpr std::uintmax_t max_level = 255;
@@ -1407,7 +1408,7 @@ namespace impl {
         }
         static void set_level(std::unique_ptr<Elem, std::default_delete<Elem>>* const value, const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-            impl::construct_at(value, reinterpret_cast<Elem*>(sentinel_ptr + level));
+            impl::construct_at(value, reinterpret_cast<pointer>(sentinel_ptr + level));
         }
     };
 
-- 
2.43.0


From 894ed55723b46befc7daf56b8b6c3a6845aa5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 16/23] fix: levels of an enumeration whose underlying type is
 bool collided with each other

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7fb7f43..1e9ba8d 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1120,7 +1120,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>) {
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 520740cde01727f42a7ac7a23045c330b862d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:51 +0000
Subject: [PATCH 17/23] fix: count the levels of a wide
 SENTINEL_START/SENTINEL_END range without signed overflow

---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 1e9ba8d..6b706bd 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1582,7 +1582,8 @@ namespace impl {
         static constexpr underlying sentinel_range_start = static_cast<underlying>(T::SENTINEL_START);
         static constexpr underlying sentinel_range_end = static_cast<underlying>(T::SENTINEL_END);
     public:
-        static constexpr std::uintmax_t max_level = sentinel_range_end - sentinel_range_start + 1;
+        static constexpr std::uintmax_t max_level
+            = std::uintmax_t(sentinel_range_end) - std::uintmax_t(sentinel_range_start) + 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-- 
2.43.0


From 023f99ff2802bdc4a1fe752b9af37c2fc2512d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:28 +0000
Subject: [PATCH 18/23] fix: swapping options of two different types did not
 compile with gcc

---
 include/opt/option.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 6b706bd..f2a27ff 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3315,17 +3315,18 @@ public:
         if (!has_value() && !other.has_value()) {
             return;
         }
+        typename option<U>::base& other_base = other;
         if (has_value() && other.has_value()) {
-            swap(base::value, other.base::value);
+            swap(base::value, other_base.value);
             return;
         }
         if (has_value()) {
-            other.base::construct(static_cast<T&&>(get()));
+            other_base.construct(static_cast<T&&>(get()));
             base::reset();
             return;
         }
         base::construct(static_cast<U&&>(other.get()));
-        other.base::reset();
+        other_base.reset();
     }
 };
 
-- 
2.43.0


From 11edc6a97679682d88069d776aecd7b658505167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:57 +0000
Subject: [PATCH 19/23] fix: move-construct option<const T> from a const
 element

---
 include/opt/option.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f2a27ff..c96bead 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2161,10 +2161,12 @@ namespace impl {
             self.reset();
         }
     }
-    template<class Self, class Option>
-    constexpr void option_construct_from_option(Self& self, Option&& other) {
+    template<template<class, bool...> class Base, class T, bool... Flags, class Option>
+    constexpr void option_construct_from_option(Base<T, Flags...>& self, Option&& other) {
+        // The storage is never const, but a const contained value must not be moved from
+        using from = std::conditional_t<std::is_const_v<T>, const Option, Option>;
         if (other.has_value()) {
-            self.construct(static_cast<Option&&>(other).value);
+            self.construct(static_cast<from&&>(other).value);
         }
     }
 
-- 
2.43.0


From 1e7dbf5b2d5e28bcdcfc954449c106c9b07d76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:02 +0000
Subject: [PATCH 20/23] fix: rvalue value_or of option<const T> does not
 compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c96bead..6af7199 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3239,7 +3239,7 @@ public:
     template<class U = std::remove_cv_t<T>>
     [[nodiscard]] constexpr std::remove_cv_t<T> value_or(U&& default_value) && {
         if (has_value()) {
-            return static_cast<std::remove_cv_t<T>&&>(get());
+            return static_cast<T&&>(get());
         } else {
             return static_cast<std::remove_cv_t<T>>(static_cast<U&&>(default_value));
         }
-- 
2.43.0


From 7ac03cea8e92514ad0ae569551736d7d5a4cdea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:59 +0000
Subject: [PATCH 21/23] fix: option of option<const T> does not compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 6af7199..d744c0d 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -998,7 +998,7 @@ namespace impl {
     template<class T>
     struct dispatch_specializations<opt::option<T>> {
         static constexpr option_strategy value
-            = opt::option_traits<T>::max_level >= 1
+            = opt::option_traits<std::remove_cv_t<T>>::max_level >= 1
                 ? option_strategy::avaliable_option
                 : option_strategy::unavaliable_option;
     };
@@ -3340,7 +3340,7 @@ namespace impl {
     template<class T>
     struct internal_option_traits<opt::option<T>, option_strategy::avaliable_option> {
         using base = typename opt::option<T>::base;
-        using traits = opt::option_traits<T>;
+        using traits = opt::option_traits<std::remove_cv_t<T>>;
 
         static constexpr std::uintmax_t max_level = traits::max_level - 1;
 
-- 
2.43.0


From bc22c040aeac6362704f8c858a549c2a2f29fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:57 +0000
Subject: [PATCH 22/23] fix: option of a composite with a const component does
 not compile

---
 include/opt/option.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d744c0d..5da81be 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1063,6 +1063,10 @@ namespace impl {
         if constexpr (dispatch_st != st::other) {
             return dispatch_st;
         } else
+        // The levels of a const component of a composite type cannot be written
+        if constexpr (!std::is_same_v<T, std::remove_cv_t<T>>) {
+            return st::none;
+        } else
         if constexpr (std::is_pointer_v<T>) {
             if constexpr (sizeof(T) == 8) {
                 return st::pointer_64;
-- 
2.43.0


From 0d6c82d14da2bd7b422880ae75b81592613ef219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:53 +0000
Subject: [PATCH 23/23] fix: option of an enumeration without a fixed
 underlying type does not compile with Clang

---
 include/opt/option.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5da81be..14b530e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -843,6 +843,17 @@ namespace impl {
 #endif
 
 #if OPTION_CAN_REFLECT_ENUM
+#if OPTION_CLANG
+    // Clang rejects casts to the values outside of the range of an enumeration that has no fixed underlying type
+    template<class E, class = void>
+    inline constexpr bool is_reflectable_enum = false;
+    template<class E>
+    inline constexpr bool is_reflectable_enum<E, std::void_t<decltype(E{0})>> = true;
+#else
+    template<class E>
+    inline constexpr bool is_reflectable_enum = true;
+#endif
+
     template<auto... Enumerators>
     constexpr std::uintmax_t max_enum_value_impl2(const std::uintmax_t max) {
         const char* const name = OPTION_CURRENT_FUNCTION();
@@ -1124,7 +1135,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
+            if constexpr (is_reflectable_enum<T> && std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0

