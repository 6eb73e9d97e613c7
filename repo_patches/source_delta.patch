From d2b2b031b3b1b12770037bf2beaa3eba308d76a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:21 +0000
Subject: [PATCH 01/10] fix: release the visited slot when it throws out of an
 emission

---
 include/kl/signal.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 578d981..e1e3bd3 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -620,6 +620,11 @@ public:
             if (prev == 1)
                 cleanup_invalidated_slots_locked();
         });
+        // Don't leak a reference to the visited slot when user code throws
+        KL_DEFER({
+            if (current)
+                current->release();
+        });
 
         while (current)
         {
-- 
2.43.0


From 61d60b3bca2d272e679925898ec05ecac8589bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:17 +0000
Subject: [PATCH 02/10] fix: destroy callables of removed slots after unlocking
 the signal

---
 include/kl/signal.hpp | 60 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index e1e3bd3..bfd7cdf 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -428,8 +428,9 @@ public:
             deferred_cleanup_ = other.deferred_cleanup_;
             other.deferred_cleanup_ = false;
         }
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
-        rebind_locked();
+        rebind_locked(removed);
     }
 
     /**
@@ -615,10 +616,11 @@ public:
             if (last)
                 last->release();
 
+            removed_slots removed;
             std::lock_guard<std::mutex> lock{mutex_};
             const auto prev = active_emissions_--;
             if (prev == 1)
-                cleanup_invalidated_slots_locked();
+                cleanup_invalidated_slots_locked(removed);
         });
         // Don't leak a reference to the visited slot when user code throws
         KL_DEFER({
@@ -662,6 +664,7 @@ public:
      */
     void disconnect_all_slots() noexcept
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;)
@@ -669,7 +672,7 @@ public:
             iter->invalidate();
             if (can_remove)
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -706,6 +709,7 @@ public:
     {
         if (&left == &right)
             return;
+        removed_slots removed;
         std::scoped_lock lock{left.mutex_, right.mutex_};
         terminate_if_emitting_locked(left.emission_in_progress() ||
                                      right.emission_in_progress());
@@ -714,11 +718,41 @@ public:
         swap(left.tail_, right.tail_);
         swap(left.deferred_cleanup_, right.deferred_cleanup_);
 
-        left.rebind_locked();
-        right.rebind_locked();
+        left.rebind_locked(removed);
+        right.rebind_locked(removed);
     }
 
 private:
+    struct slot;
+
+    // Slots unlinked from the list. Has to be declared before locking the mutex
+    // so the slots (and user-provided callables they own, which are free to use
+    // this very signal) are released only after the mutex is unlocked.
+    class removed_slots
+    {
+    public:
+        removed_slots() noexcept = default;
+        ~removed_slots()
+        {
+            while (head_)
+                std::exchange(head_, head_->next)->release();
+        }
+
+        removed_slots(const removed_slots&) = delete;
+        removed_slots& operator=(const removed_slots&) = delete;
+
+        void add(slot& removed) noexcept
+        {
+            removed.next = nullptr;
+            (head_ ? tail_->next : head_) = &removed;
+            tail_ = &removed;
+        }
+
+    private:
+        slot* head_{nullptr};
+        slot* tail_{nullptr};
+    };
+
     static void terminate_if_emitting_locked(bool emission_in_progress) noexcept
     {
         if (!emission_in_progress)
@@ -730,6 +764,7 @@ private:
 
     void disconnect(std::uintptr_t id) noexcept override
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;
@@ -741,7 +776,7 @@ private:
             iter->invalidate();
             if (can_remove)
             {
-                remove_slot_locked(*iter, prev);
+                remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -752,9 +787,9 @@ private:
         }
     }
 
-    void rebind_locked() noexcept
+    void rebind_locked(removed_slots& removed) noexcept
     {
-        cleanup_invalidated_slots_locked();
+        cleanup_invalidated_slots_locked(removed);
 
         // Rebind back-pointer to new signal
         for (auto iter = slots_; iter; iter = iter->next)
@@ -763,7 +798,7 @@ private:
         }
     }
 
-    void cleanup_invalidated_slots_locked() noexcept
+    void cleanup_invalidated_slots_locked(removed_slots& removed) noexcept
     {
         if (!deferred_cleanup_)
             return;
@@ -784,7 +819,7 @@ private:
             }
             else
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
         }
         deferred_cleanup_ = false;
@@ -849,7 +884,8 @@ private:
         }
     }
 
-    slot* remove_slot_locked(slot& to_remove, slot* prev) noexcept
+    slot* remove_slot_locked(slot& to_remove, slot* prev,
+                             removed_slots& removed) noexcept
     {
         assert(!emission_in_progress());
         slot* next = to_remove.next;
@@ -859,7 +895,7 @@ private:
             slots_ = next;
         if (tail_ == &to_remove)
             tail_ = prev ? prev : slots_;
-        to_remove.release();
+        removed.add(to_remove);
         return next;
     }
 };
-- 
2.43.0


From 0acd131e2ca89f04634541ec14caa418a0a1d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:03 +0000
Subject: [PATCH 03/10] fix: report descendants of a deleted optional container
 as changed

---
 include/kl/resource_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 08ead13..8ddad6a 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -1061,7 +1061,8 @@ try
                 rollback.commit();
 
                 r.state.modifications.notify_changed(
-                    path, kl::ctti::is_reflectable_v<typename optional_traits::value_type>);
+                    path,
+                    detail::has_addressable_descendants_v<typename optional_traits::value_type>);
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0


From d1c233871ff70c49c4580b14c1edecd765d5e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:17 +0000
Subject: [PATCH 04/10] fix: keep value and change record in step when memory
 runs out in an update

---
 include/kl/resource.hpp    | 29 +++++++++++++++++++----------
 include/kl/resource_op.hpp | 20 +++++++-------------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/include/kl/resource.hpp b/include/kl/resource.hpp
index c242c27..0aa4981 100644
--- a/include/kl/resource.hpp
+++ b/include/kl/resource.hpp
@@ -28,6 +28,14 @@ public:
     generation notify_changed(path_view path, bool subtree = false)
     {
         auto gen = generation{underlying_cast(current_) + 1};
+
+        // Allocate the missing entries upfront (they do not affect any query until they are
+        // assigned) so a failure here leaves the recorded changes as they were.
+        for (std::size_t i = 0; i <= path.size(); ++i)
+            reserve(node_generation_, path.prefix(i));
+        if (subtree)
+            reserve(subtree_generation_, path.prefix(path.size()));
+
         current_ = gen;
 
         // Mark the node and all ancestors, so parent watchers observe child changes
@@ -83,18 +91,19 @@ public:
     }
 
 private:
-    template <typename Map, typename Generation = typename Map::mapped_type>
-    static void assign(Map& map, std::string_view key, Generation value)
+    template <typename Map>
+    static void reserve(Map& map, std::string_view key)
     {
-        // Assign (no key allocation) or insert (need to allocate a key as string)
-        auto it = map.find(key);
-        if (it != map.end())
-        {
-            it->second = value;
-            return;
-        }
+        // Insert (need to allocate a key as string) an entry which reads as never changed
+        if (map.find(key) == map.end())
+            map.emplace(std::string{key}, typename Map::mapped_type{});
+    }
 
-        map.emplace(std::string{key}, value);
+    template <typename Map, typename Generation = typename Map::mapped_type>
+    static void assign(Map& map, std::string_view key, Generation value) noexcept
+    {
+        // Entry was already inserted by reserve()
+        map.find(key)->second = value;
     }
 
     template <typename Map, typename Generation = typename Map::mapped_type>
diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 8ddad6a..6bcb51a 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -740,9 +740,8 @@ bool delete_direct_child(resource<Root>& r, Node node, path_view full_path,
                 rollback_value rollback{collection, copy_backup};
                 collection.erase(it);
                 validate_tree(r.value, ctx);
-                rollback.commit();
-
                 r.state.modifications.notify_changed(full_path.drop_back(), true);
+                rollback.commit();
                 out = operation_result{status_code::no_content, {}};
             }
             else
@@ -778,9 +777,8 @@ bool delete_direct_child(resource<Root>& r, Node node, path_view full_path,
                         rollback_value rollback{collection, copy_backup};
                         collection.erase(it);
                         validate_tree(r.value, ctx);
-                        rollback.commit();
-
                         r.state.modifications.notify_changed(full_path.drop_back(), true);
+                        rollback.commit();
                         out = operation_result{status_code::no_content, {}};
                     }
                     else
@@ -824,9 +822,8 @@ bool delete_direct_child(resource<Root>& r, Node node, path_view full_path,
                 rollback_value rollback{collection, copy_backup};
                 collection.erase(it);
                 validate_tree(r.value, ctx);
-                rollback.commit();
-
                 r.state.modifications.notify_changed(full_path.drop_back(), true);
+                rollback.commit();
                 out = operation_result{status_code::no_content, {}};
             }
             else
@@ -885,10 +882,9 @@ try
                 node.value(), detail::move_if_noexcept_backup};
             node.value() = std::move(candidate);
             detail::validate_tree(r.value, ctx);
-            rollback.commit();
-
             r.state.modifications.notify_changed(
                 path, detail::has_addressable_descendants_v<node_value_type>);
+            rollback.commit();
 
             return operation_result{status_code::ok, {}};
         });
@@ -937,8 +933,8 @@ try
                 node.value().push_back(std::move(candidate));
                 detail::pop_back_rollback rollback{node.value()};
                 detail::validate_tree(r.value, ctx);
-                rollback.commit();
                 r.state.modifications.notify_changed(path, true);
+                rollback.commit();
 
                 return operation_result{status_code::created, {}};
             }
@@ -991,10 +987,9 @@ try
                 node.value(), detail::move_if_noexcept_backup};
             node.value() = std::move(candidate);
             detail::validate_tree(r.value, ctx);
-            rollback.commit();
-
             r.state.modifications.notify_changed(
                 path, detail::has_addressable_descendants_v<node_value_type>);
+            rollback.commit();
 
             return operation_result{status_code::ok, {}};
         });
@@ -1058,11 +1053,10 @@ try
                     node.value(), detail::move_if_noexcept_backup};
                 node.value() = std::move(candidate);
                 detail::validate_tree(r.value, ctx);
-                rollback.commit();
-
                 r.state.modifications.notify_changed(
                     path,
                     detail::has_addressable_descendants_v<typename optional_traits::value_type>);
+                rollback.commit();
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0


From 3b54cfa937b436678c9fb3d6be69e74b9cf18e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:14 +0000
Subject: [PATCH 05/10] fix: detect a failed mapping of a file

---
 src/file_view_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_view_unix.cpp b/src/file_view_unix.cpp
index a9e84d0..fa5a5f6 100644
--- a/src/file_view_unix.cpp
+++ b/src/file_view_unix.cpp
@@ -77,7 +77,7 @@ file_view::file_view(const char* file_path)
 
     void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
                           PROT_READ, MAP_PRIVATE, fd, 0);
-    if (!mapped)
+    if (mapped == MAP_FAILED)
         throw_system_error();
 
     contents_ = gsl::span{static_cast<const std::byte*>(mapped),
-- 
2.43.0


From 61b9b5898ef83bb3343e9208dfe4bfe9f47620a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:28 +0000
Subject: [PATCH 06/10] fix: make file_view non-copyable, copies unmapped the
 same file twice

---
 include/kl/file_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/file_view.hpp b/include/kl/file_view.hpp
index 0ac80a8..cc4b795 100644
--- a/include/kl/file_view.hpp
+++ b/include/kl/file_view.hpp
@@ -12,6 +12,9 @@ public:
     explicit file_view(const char* file_path);
     ~file_view();
 
+    file_view(const file_view&) = delete;
+    file_view& operator=(const file_view&) = delete;
+
     gsl::span<const std::byte> get_bytes() const noexcept { return contents_; }
 
 private:
-- 
2.43.0


From 919140a2889a080de18481a513ac508fcef15db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:40 +0000
Subject: [PATCH 07/10] fix: don't allocate what a corrupted length prefix
 claims

---
 include/kl/binary_rw/string.hpp |  7 +++++++
 include/kl/binary_rw/vector.hpp | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 270174b..e8847ef 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -24,6 +24,13 @@ void read_binary(kl::binary_reader& r, std::string& str)
     if (!size)
         return;
 
+    // Don't trust the size before making sure the data is really there
+    if (size > r.left())
+    {
+        r.notify_error();
+        return;
+    }
+
     str.resize(size);
     r >> gsl::make_span(str);
 
diff --git a/include/kl/binary_rw/vector.hpp b/include/kl/binary_rw/vector.hpp
index 0a039c5..8d83f5d 100644
--- a/include/kl/binary_rw/vector.hpp
+++ b/include/kl/binary_rw/vector.hpp
@@ -3,6 +3,8 @@
 #include "kl/binary_rw.hpp"
 #include "kl/type_traits.hpp"
 
+#include <algorithm>
+#include <cstddef>
 #include <vector>
 
 namespace kl {
@@ -39,6 +41,13 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
 
     if (size)
     {
+        // Don't trust the size before making sure the data is really there
+        if (size > r.left() / sizeof(T))
+        {
+            r.notify_error();
+            return;
+        }
+
         vec.resize(size);
         r >> gsl::span<T>{vec};
 
@@ -57,7 +66,8 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
     const auto size = r.read<std::uint32_t>();
 
     vec.clear();
-    vec.reserve(size);
+    // Don't trust the size, it could be way bigger than what's left to read
+    vec.reserve(std::min<std::size_t>(size, r.left()));
 
     for (std::uint32_t i = 0; i < size; ++i)
     {
-- 
2.43.0


From bca4c7d52036687209134a5afd7ed0cae2cb3de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:16 +0000
Subject: [PATCH 08/10] fix: unset information from one exception_info only,
 not from its copies

---
 include/kl/exception_info.hpp | 73 ++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/include/kl/exception_info.hpp b/include/kl/exception_info.hpp
index 41813cf..86aad55 100644
--- a/include/kl/exception_info.hpp
+++ b/include/kl/exception_info.hpp
@@ -26,8 +26,14 @@ public:
     virtual const void* find(const std::type_info& tag) const noexcept = 0;
     virtual void* find(const std::type_info& tag) noexcept = 0;
     virtual void diagnostic_info(std::ostream& os) = 0;
+};
 
-    std::shared_ptr<exception_info_node_base> next_{};
+// Links are shared between the copies of exception_info and thus must never be
+// modified once they're reachable from more than one of them
+struct exception_info_link
+{
+    std::shared_ptr<exception_info_node_base> node;
+    std::shared_ptr<exception_info_link> next;
 };
 
 struct demangled_type_name
@@ -134,46 +140,40 @@ public:
     template <typename Tag>
     exception_info& set(const typename Tag::type& x)
     {
-        auto node = std::make_shared<detail::exception_info_node<Tag>>(x);
-        node->next_ = head_;
-        head_ = node;
+        push_front(std::make_shared<detail::exception_info_node<Tag>>(x));
         return *this;
     }
 
     template <typename Tag>
     exception_info& set(typename Tag::type&& x)
     {
-        auto node =
-            std::make_shared<detail::exception_info_node<Tag>>(std::move(x));
-        node->next_ = head_;
-        head_ = node;
+        push_front(
+            std::make_shared<detail::exception_info_node<Tag>>(std::move(x)));
         return *this;
     }
 
     template <typename Tag>
-    exception_info& unset() noexcept
+    exception_info& unset()
     {
-        if (!head_)
-            return *this;
-
-        std::shared_ptr<detail::exception_info_node_base>* node = &head_;
-        std::shared_ptr<detail::exception_info_node_base>* prev = nullptr;
         const auto& tag = typeid(Tag);
+        const detail::exception_info_link* found = head_.get();
+        while (found && !found->node->find(tag))
+            found = found->next.get();
+
+        if (!found)
+            return *this;
 
-        while (*node)
+        // Replace all the links preceding the one that's being removed
+        std::shared_ptr<detail::exception_info_link> new_head;
+        auto* tail = &new_head;
+        for (auto* link = head_.get(); link != found; link = link->next.get())
         {
-            if ((*node)->find(tag))
-            {
-                if (prev)
-                    (*prev)->next_ = (*node)->next_;
-                else
-                    head_ = (*node)->next_;
-                break;
-            }
-
-            prev = node;
-            node = &(*node)->next_;
+            *tail = std::make_shared<detail::exception_info_link>(
+                detail::exception_info_link{link->node, nullptr});
+            tail = &(*tail)->next;
         }
+        *tail = found->next;
+        head_ = std::move(new_head);
 
         return *this;
     }
@@ -188,11 +188,10 @@ public:
     [[nodiscard]] typename Tag::type* get() noexcept
     {
         const auto& tag = typeid(Tag);
-        for (auto* node = &head_; *node;)
+        for (auto* link = head_.get(); link; link = link->next.get())
         {
-            if (void* ptr = (*node)->find(tag); ptr)
+            if (void* ptr = link->node->find(tag); ptr)
                 return static_cast<typename Tag::type*>(ptr);
-            node = &(*node)->next_;
         }
 
         return nullptr;
@@ -208,21 +207,25 @@ public:
 
         ss << ": throw_with_info in function "
            << (function_ ? function_ : "<unknown-function>") << '\n';
-        for (auto* node = &head_; *node;)
-        {
-            (*node)->diagnostic_info(ss);
-            node = &(*node)->next_;
-        }
+        for (auto* link = head_.get(); link; link = link->next.get())
+            link->node->diagnostic_info(ss);
         return ss.str();
     }
 
+private:
+    void push_front(std::shared_ptr<detail::exception_info_node_base> node)
+    {
+        head_ = std::make_shared<detail::exception_info_link>(
+            detail::exception_info_link{std::move(node), head_});
+    }
+
 private:
     const char* file_{};
     int line_{};
     const char* function_{};
 
     // Not unique because of copyability requirement
-    std::shared_ptr<detail::exception_info_node_base> head_{};
+    std::shared_ptr<detail::exception_info_link> head_{};
 };
 
 namespace detail {
-- 
2.43.0


From 21e273919e5649bba4718be1cc064a7b2136e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:42 +0000
Subject: [PATCH 09/10] fix: let assigning a yaml::view look at another node
 instead of changing the document

---
 include/kl/yaml.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/kl/yaml.hpp b/include/kl/yaml.hpp
index 01f4401..95f23d8 100644
--- a/include/kl/yaml.hpp
+++ b/include/kl/yaml.hpp
@@ -32,6 +32,15 @@ public:
     view() = default;
     view(YAML::Node node) : node_{std::move(node)} {}
 
+    // Assigning YAML::Node would redirect the node this view looks at (and so
+    // change its document). Here we only want to look at another node.
+    view(const view&) = default;
+    view& operator=(const view& other)
+    {
+        node_.reset(other.node_);
+        return *this;
+    }
+
     const YAML::Node& value() const { return node_; }
     operator const YAML::Node&() const { return value(); }
 
-- 
2.43.0


From 192fa84b8d16b07b5a0e28163aa53ac0f9369274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:13 +0000
Subject: [PATCH 10/10] fix: accept only one spelling of a collection index

An element could be addressed through an index with leading zeros ("/list/00"),
and a change made that way was recorded under that path only, so observers of
"/list/0" missed it.
---
 include/kl/resource_op.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 6bcb51a..b370763 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -473,6 +473,11 @@ inline bool parse_index(std::string_view text, std::size_t& out)
     if (text.empty())
         return false;
 
+    // Each index has only one spelling, otherwise a change made through one of them (e.g. "00")
+    // would go unnoticed by those who observe the very same element through another ("0").
+    if (text.size() > 1 && text.front() == '0')
+        return false;
+
     std::size_t value = 0;
     const auto* first = text.data();
     const auto* last = first + text.size();
-- 
2.43.0

