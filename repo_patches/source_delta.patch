From f83800665bca954637e2963a7396abc75732212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 01/10] fix: make circular_buffer_adapter const_iterator
 copyable

The converting constructor from the mutable iterator suppressed the copy
constructor of const_iterator, because the declared move constructor made
the implicit one deleted. Copying, it + n, post-increment and reverse
iteration did not compile for const_iterator.
---
 include/embedded/detail/circular_buffer_adapter.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..c1d3367 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,10 +67,18 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  // conversion from mutable to const iterator; must not be the (only)
+  // candidate for a copy constructor, which would otherwise be deleted
+  template <typename Tr,
+            typename std::enable_if<
+                std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+                    !std::is_same<Tr, Traits>::value,
+                bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
+  cba_iterator(cba_iterator const&) = default;
   cba_iterator(cba_iterator&&) = default;
   cba_iterator& operator=(cba_iterator const&) = default;
   cba_iterator& operator=(cba_iterator&&) = default;
-- 
2.43.0


From 218ed98e5d2b15687d33b9ac5a8f5006495e6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 02/10] fix: make const_iterator of a mutable
 circular_buffer_adapter usable

The const_iterator kept a pointer-to-const, which could not be passed to
the adapter's inc/dec/add/sub, nor be used in raw_index, so moving a
const_iterator and raw_index(const_iterator) did not compile. Keep the
adapter's own pointer type instead; element access stays const.
---
 include/embedded/detail/circular_buffer_adapter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index c1d3367..448c792 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -191,7 +191,7 @@ class cba_iterator {
   }
 
  private:
-  cba_iterator(circular_buffer_adapter<T> const* adapter, pointer it)
+  cba_iterator(circular_buffer_adapter<T> const* adapter, T* it)
       : adapter_{adapter}
       , it_{it} {}
 
@@ -199,10 +199,10 @@ class cba_iterator {
     return it_ ? adapter_->index(it_) : adapter_->size();
   }
 
-  pointer realiter() const { return it_ ? it_ : adapter_->last_; }
+  T* realiter() const { return it_ ? it_ : adapter_->last_; }
 
   circular_buffer_adapter<T> const* adapter_{nullptr};
-  pointer it_{nullptr};
+  T* it_{nullptr};
 };
 
 template <typename T, typename Traits>
-- 
2.43.0


From 4c0d217b1f3b452b9957034805996176da24afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:46 +0000
Subject: [PATCH 03/10] fix: call function<> targets through the actual wrapper
 type

operator() cast the wrapper to function<Signature> with default capacity
and alignment, so that with an alignment above that of a pointer the
target was looked up at the wrong offset.
---
 include/embedded/function.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..94b536d 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -121,30 +121,30 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Signature, typename Function>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Return, typename... Args, typename Function>
+struct function_traits<Return(Args...), Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn = static_cast<Function*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Return, typename... Args, typename Function>
+struct function_traits<Return(Args...) const, Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn = static_cast<Function const*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -175,9 +175,11 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<
+          Signature, function<Signature, Capacity, Alignment>> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<Signature, function>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From 25c7b405657cfd05862071ba06bfb581e1bd1ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 04/10] fix: invoke the target of a function<> with const
 signature as const

The target was always called as non-const, so a target with both const
and non-const call operators had its non-const one called and could be
modified through a const wrapper.
---
 include/embedded/function.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 94b536d..d5eb883 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -62,9 +62,9 @@ class vtbl<Return(Args...)> {
 
   constexpr vtbl() noexcept {}
 
-  template <typename T>
-  explicit constexpr vtbl(wrap<T>) noexcept
-      : call{&vt_call<T>}
+  template <typename T, typename Callee>
+  explicit constexpr vtbl(wrap<T>, wrap<Callee>) noexcept
+      : call{&vt_call<Callee>}
       , proc{&vt_proc<T>} {}
 
  private:
@@ -108,13 +108,13 @@ struct empty_vtbl {
 template <typename Signature>
 constexpr vtbl<Signature> empty_vtbl<Signature>::value;
 
-template <typename Signature, typename T>
+template <typename Signature, typename T, typename Callee>
 struct typed_vtbl {
-  static vtbl<Signature> constexpr value{wrap<T>{}};
+  static vtbl<Signature> constexpr value{wrap<T>{}, wrap<Callee>{}};
 };
 
-template <typename Signature, typename T>
-constexpr vtbl<Signature> typed_vtbl<Signature, T>::value;
+template <typename Signature, typename T, typename Callee>
+constexpr vtbl<Signature> typed_vtbl<Signature, T, Callee>::value;
 
 template <typename>
 struct is_function : std::false_type {};
@@ -128,6 +128,8 @@ template <typename Return, typename... Args, typename Function>
 struct function_traits<Return(Args...), Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
+  template <typename T>
+  using callee = T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
@@ -141,6 +143,8 @@ template <typename Return, typename... Args, typename Function>
 struct function_traits<Return(Args...) const, Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
+  template <typename T>
+  using callee = T const;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
@@ -184,7 +188,8 @@ class function final
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
   template <typename T>
-  using typed_vtbl = detail::typed_vtbl<signature, T>;
+  using typed_vtbl =
+      detail::typed_vtbl<signature, T, typename traits::template callee<T>>;
 
   friend traits;
 
-- 
2.43.0


From ae0274c9a0d75fc91b306ebb9d9aaf7bf5573999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:30 +0000
Subject: [PATCH 05/10] fix: make move_wrapper's noexcept follow the move
 constructor it uses

With a nothrow default constructor and a throwing move constructor, an
exception while moving the value in terminated the program.
---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..b6796f1 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_move_constructible<T>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From b66bda8e8812c255b75a16bcc97a34d96aa48013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 06/10] fix: pair a real pole with another real pole when
 building sections

unit_circle_distance_real_less preferred complex poles and compared
a.is_real() with itself, so a real pole could share a section with one
pole of a conjugate pair, whose imaginary part was then dropped.
---
 include/embedded/signal/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/filter.h b/include/embedded/signal/detail/filter.h
index f28690b..9413eee 100644
--- a/include/embedded/signal/detail/filter.h
+++ b/include/embedded/signal/detail/filter.h
@@ -235,8 +235,8 @@ struct unit_circle_distance_real_less {
   template <typename F>
   constexpr bool operator()(cmath::complex<F> const& a,
                             cmath::complex<F> const& b) const noexcept {
-    return a.is_real() < b.is_real() ||
-           (a.is_real() == a.is_real() && unit_distance(a) < unit_distance(b));
+    return a.is_real() > b.is_real() ||
+           (a.is_real() == b.is_real() && unit_distance(a) < unit_distance(b));
   }
 };
 
-- 
2.43.0


From d1696eb4569ca1c24f94afa40a12948d89d0d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 07/10] fix: truncate long names in filter debug records

sizeof(name) referred to the constructor parameter instead of the member,
so names longer than the field did not compile.
---
 include/embedded/signal/detail/debug_filter_coefs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/signal/detail/debug_filter_coefs.h b/include/embedded/signal/detail/debug_filter_coefs.h
index 21e9488..37066cb 100644
--- a/include/embedded/signal/detail/debug_filter_coefs.h
+++ b/include/embedded/signal/detail/debug_filter_coefs.h
@@ -66,7 +66,8 @@ struct filter_debug_header {
                                 char const (&name)[S]) noexcept
       : filter_debug_header(
             length, structure, valtype, name,
-            make_index_sequence<cmath::min(sizeof(name) - 1, S)>{}) {}
+            make_index_sequence<cmath::min(
+                sizeof(filter_debug_header::name) - 1, S)>{}) {}
 
   template <size_t S, std::size_t... Ints>
   constexpr filter_debug_header(uint16_t length_,
-- 
2.43.0


From 574ae0ebf6870c58f5c34cc7e09611aba3eb690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 08/10] fix: do not treat unordered elements of cmath::vector
 as equal

operator== reported vectors holding NaN as equal to any vector.
---
 include/embedded/constexpr_math/vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 1c2da14..7503661 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -129,7 +129,9 @@ class prod_reducer {
 template <typename T, std::size_t Size, std::size_t I = 0>
 struct compare {
   constexpr int operator()(T const& a, T const& b) const noexcept {
-    return a[I] < b[I] ? -1 : a[I] > b[I] ? 1 : compare<T, Size, I + 1>()(a, b);
+    return a[I] == b[I]  ? compare<T, Size, I + 1>()(a, b)
+           : a[I] < b[I] ? -1
+                         : 1;
   }
 };
 
-- 
2.43.0


From 755e9f0bbd551e7216dfe0e865a5b5f58358fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 09/10] fix: make sos_section printable

The stream operator for sos_section used a member that no longer exists and
was declared where argument-dependent lookup does not find it.
---
 include/embedded/ostream_ops.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index da61cfa..dfd8538 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -51,14 +51,14 @@ std::ostream& operator<<(std::ostream& os, zpk_value<Zn, Pn, F> const& zpk) {
   return os;
 }
 
+} // namespace detail
+
 template <typename T>
-std::ostream&
-operator<<(std::ostream& os, embedded::signal::sos_section<T> const& s) {
-  os << "{gain=" << s.gain_ << ", b=" << s.b() << ", a=" << s.a() << "}";
+std::ostream& operator<<(std::ostream& os, sos_section<T> const& s) {
+  os << "{b=" << s.b() << ", a=" << s.a() << "}";
   return os;
 }
 
-} // namespace detail
 } // namespace signal
 
 namespace cmath {
-- 
2.43.0


From ce736166805a78084dc9e3fadfda35b44b49ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 10/10] fix: keep the target when a function<> is move-assigned
 to itself

The destructor ended the target's life before the move constructor read the
same object; with GCC's optimiser the destroyed target was moved and destroyed
once more.
---
 include/embedded/function.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index d5eb883..96659f9 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -231,8 +231,10 @@ class function final
   }
 
   function& operator=(function&& other) noexcept {
-    this->~function();
-    ::new (this) function(std::move(other));
+    if (this != std::addressof(other)) {
+      this->~function();
+      ::new (this) function(std::move(other));
+    }
     return *this;
   }
 
-- 
2.43.0

