From 9fa2074156dcf8384f2a472da78c25540e80220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 01/41] fix: keep all chunks but the last full when an entity
 is erased

---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 097dc75..da1e5bc 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -126,7 +126,7 @@ public:
     /// @return std::optional<entity>
     auto swap_erase(std::size_t index, chunk& other) noexcept -> std::optional<entity> {
         assert((index < _size) && "Entity index exceeds chunk size");
-        if (size() == 1 || index == _size - 1) {
+        if (this == &other && index == _size - 1) {
             pop_back();
             return std::nullopt;
         }
-- 
2.43.0


From 6e6aa0cd2ca507afce1509cac58789a9ea263d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 02/41] fix: do not leave an empty archetype entry behind when
 an archetype cannot be created

---
 include/co_ecs/archetype.hpp | 39 +++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 78a5227..801fbaa 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -304,13 +304,13 @@ public:
     /// @param components Components meta set
     /// @return archetype*
     auto ensure_archetype(const component_meta_set& components) -> archetype* {
-        auto& archetype = _archetypes[components.ids()];
+        auto* archetype = find_archetype(components.ids());
         if (!archetype) {
-            archetype = create_archetype(components);
+            archetype = store_archetype(components.ids(), create_archetype(components));
         }
         assert((archetype->components().ids() == components.ids())
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype matching the passed Components types
@@ -322,13 +322,14 @@ public:
         _search_component_set.clear();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto* archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype(component_meta_set::create<Components...>());
+            archetype = store_archetype(
+                _search_component_set, create_archetype(component_meta_set::create<Components...>()));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by adding new Components to an anchor archetype
@@ -341,13 +342,14 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto* archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype_added<Components...>(anchor_archetype);
+            archetype =
+                store_archetype(_search_component_set, create_archetype_added<Components...>(anchor_archetype));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by removing Components from an anchor archetype
@@ -360,13 +362,14 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.erase<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto* archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype_removed<Components...>(anchor_archetype);
+            archetype =
+                store_archetype(_search_component_set, create_archetype_removed<Components...>(anchor_archetype));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Returns iterator to the beginning of archetypes container
@@ -405,6 +408,18 @@ public:
     }
 
 private:
+    auto find_archetype(const component_set& components) -> archetype* {
+        auto it = _archetypes.find(components);
+        return it == _archetypes.end() ? nullptr : it->second.get();
+    }
+
+    // An archetype is stored only after its construction has succeeded
+    auto store_archetype(const component_set& components, std::unique_ptr<archetype> created) -> archetype* {
+        auto& slot = _archetypes[components];
+        slot = std::move(created);
+        return slot.get();
+    }
+
     static auto create_archetype(auto&& components) -> std::unique_ptr<archetype> {
         return std::make_unique<archetype>(std::forward<decltype(components)>(components));
     }
-- 
2.43.0


From 1047363ec94212effaef66f89223535cc69fe3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 03/41] fix: allocate an entity only once its archetype exists

---
 include/co_ecs/base_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 2a5ea7a..9942af9 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -142,8 +142,8 @@ protected:
         // compile-time check to make sure all component types in parameter pack are unique
         [[maybe_unused]] detail::unique_types<Components...> uniqueness_check;
 
-        auto entity = allocate();
         auto archetype = _archetypes.ensure_archetype<Components...>();
+        auto entity = allocate();
         auto location = archetype->template emplace<Components...>(entity, std::forward<Components>(args)...);
         set_location(entity.id(), location);
         return entity;
-- 
2.43.0


From 702b161ba2598165d1306949c08658a6d8f16fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 04/41] fix: leave the destination registry as it was when
 copying an entity fails

---
 include/co_ecs/base_registry.hpp | 12 ++++++++++--
 include/co_ecs/chunk.hpp         | 31 ++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 9942af9..50ba916 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -208,11 +208,19 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
+        ensure_alive(ent);
         return move(ent, dest, dest.allocate());
     }
 
     entity copy(entity ent, base_registry& dest) const {
-        return copy(ent, dest, dest.allocate());
+        ensure_alive(ent);
+        auto allocated = dest.allocate();
+        try {
+            return copy(ent, dest, placeholder_entity{ allocated });
+        } catch (...) {
+            dest._entity_pool.recycle(allocated);
+            throw;
+        }
     }
 
     entity move(entity ent, base_registry& dest, placeholder_entity placeholder) {
@@ -257,7 +265,7 @@ protected:
     }
 
     entity clone(entity ent) {
-        return copy(ent, *this, allocate());
+        return copy(ent, *this);
     }
 
     entity clone(entity ent, placeholder_entity placeholder) {
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index da1e5bc..d9edc01 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -173,15 +173,32 @@ public:
         assert((index < _size) && "Entity index exceeds chunk size");
         assert((!other_chunk.full()) && "Other chunk is full, cannot move entity to it");
         const std::size_t other_chunk_index = other_chunk._size;
-        for (const auto& [id, block] : *_blocks) {
-            const auto* type = block.meta.type;
-            if (!other_chunk._blocks->contains(id)) {
-                continue;
+        std::size_t copied = 0;
+        try {
+            for (const auto& [id, block] : *_blocks) {
+                const auto* type = block.meta.type;
+                if (other_chunk._blocks->contains(id)) {
+                    auto* ptr =
+                        other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
+                    if (type->copy_construct) {
+                        type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+                    }
+                }
+                copied++;
             }
-            auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
-            if (type->copy_construct) {
-                type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+        } catch (...) {
+            // a copy constructor has thrown: destroy the components copied so far
+            for (const auto& [id, block] : *_blocks) {
+                if (copied-- == 0) {
+                    break;
+                }
+                const auto* type = block.meta.type;
+                if (other_chunk._blocks->contains(id)) {
+                    type->destruct(
+                        other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size);
+                }
             }
+            throw;
         }
         other_chunk._size++;
         return other_chunk_index;
-- 
2.43.0


From 2bcb84a78eb2faf97126c4de1d610f9dc0b92cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 05/41] fix: construct a component before moving its entity to
 another archetype

---
 include/co_ecs/entity_ref.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f1b7751..8dc684e 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -148,10 +148,13 @@ public:
     /// @return C& Reference to the component C.
     template<component C>
     [[nodiscard]] constexpr auto get_or_insert(auto&&... args) -> C& {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<decltype(args)>(args)...);
+        if (_registry.get().template has<C>(_entity)) {
+            return get<C>();
         }
+        // the constructor may throw, so run it before the entity changes its archetype
+        C value(std::forward<decltype(args)>(args)...);
+        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
+        std::construct_at(ptr, std::move(value));
         return *ptr;
     }
 
@@ -175,11 +178,13 @@ public:
     /// @return entity_ref Returns this entity to allow method chaining.
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
+        // the constructor may throw, so run it before the entity changes its archetype
+        C value{ std::forward<Args>(args)... };
         auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
         if (inserted) {
-            std::construct_at(ptr, std::forward<Args>(args)...);
+            std::construct_at(ptr, std::move(value));
         } else {
-            *ptr = C{ std::forward<Args>(args)... };
+            *ptr = std::move(value);
         }
         return *this;
     }
-- 
2.43.0


From 8a76f57fb6b95ca0a3619308cf1316aaf2221994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 06/41] fix: do not hand out reserved handles again in create()
 and recycle()

---
 include/co_ecs/detail/handle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index d7d9fc5..ebdf389 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -72,6 +72,7 @@ public:
     /// @brief Creates a new handle.
     /// @return Handle
     [[nodiscard]] constexpr auto create() -> H {
+        flush(); // handles reserved so far must not be handed out again
         if (!_free_ids.empty()) {
             auto id = _free_ids.back();
             _free_ids.pop_back();
@@ -99,6 +100,7 @@ public:
         if (!alive(handle)) {
             return;
         }
+        flush(); // the free list must not contain handles that have been reserved
         _generations[handle.id()]++;
         _free_ids.push_back(handle.id());
         _free_cursor.fetch_add(1, std::memory_order::relaxed);
-- 
2.43.0


From 585b8ee4538b60e80aa6769ef7783108bb676042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:31 +0000
Subject: [PATCH 07/41] fix: align component blocks inside a chunk

---
 include/co_ecs/archetype.hpp | 11 ++++++-----
 include/co_ecs/chunk.hpp     | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 801fbaa..fa7a536 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -188,11 +188,12 @@ private:
         const std::size_t size_in_bytes = _max_size * meta.type->size;
         const std::size_t align = meta.type->align;
 
-        _blocks.emplace(meta.id, offset, meta);
+        // round up to the component's alignment
+        offset += detail::mod_2n(align - detail::mod_2n(offset, align), align);
 
-        offset += detail::mod_2n(offset, align) + size_in_bytes;
+        _blocks.emplace(meta.id, offset, meta);
 
-        return offset;
+        return offset + size_in_bytes;
     }
 
     // Calculates the maximum size of individual components this chunk buffer can hold
@@ -236,9 +237,9 @@ private:
         auto begin = chunk::alloc_alignment;
         auto end = begin;
 
-        // Add single component element size accounting for its alignment
+        // Add single component element size accounting for the largest padding that may precede its block
         auto add_elements = [&end](const component_meta& meta) {
-            end += detail::mod_2n(std::bit_cast<std::size_t>(end), meta.type->align);
+            end += meta.type->align - 1;
             end += meta.type->size;
         };
 
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index d9edc01..27c8130 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -52,7 +52,7 @@ public:
     /// @param blocks Component blocks
     /// @param max_size Maxium size of entries this chunk can hold
     chunk(const blocks_type& blocks, std::size_t max_size) :
-        _blocks(&blocks), _max_size(max_size), _buffer((new chunk_buffer)->data) {
+        _blocks(&blocks), _max_size(max_size), _buffer(allocate_buffer(blocks)) {
     }
 
     /// @brief Deleted copy constructor
@@ -94,7 +94,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        delete reinterpret_cast<chunk_buffer*>(_buffer);
+        ::operator delete(_buffer, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
@@ -287,6 +287,19 @@ private:
         }
     }
 
+    // the buffer is aligned for the most strictly aligned component
+    static auto buffer_alignment(const blocks_type& blocks) noexcept -> std::align_val_t {
+        std::size_t align = alignof(chunk_buffer);
+        for (const auto& [id, block] : blocks) {
+            align = std::max(align, block.meta.type->align);
+        }
+        return std::align_val_t{ align };
+    }
+
+    static auto allocate_buffer(const blocks_type& blocks) -> std::byte* {
+        return static_cast<std::byte*>(::operator new(sizeof(chunk_buffer), buffer_alignment(blocks)));
+    }
+
     template<component T>
     [[nodiscard]] constexpr auto ptr_unchecked(std::size_t index) -> T* {
         return ptr_unchecked_impl<T*>(*this, index);
-- 
2.43.0


From 96e27bad772d10b3ba6e5d47768f62f6fe9996ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:31 +0000
Subject: [PATCH 08/41] fix: let has(), archetype() and visit() report errors
 instead of terminating

---
 include/co_ecs/chunk.hpp      | 6 +++---
 include/co_ecs/entity_ref.hpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 27c8130..4103bc5 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -207,14 +207,14 @@ public:
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) noexcept {
+    constexpr void visit(std::size_t index, auto&& func) {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) const noexcept {
+    constexpr void visit(std::size_t index, auto&& func) const {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
@@ -272,7 +272,7 @@ public:
 private:
     friend class base_registry;
 
-    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
+    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
         constexpr auto is_const = std::is_const_v<std::remove_reference_t<decltype(self)>>;
diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 8dc684e..6d5e560 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -28,7 +28,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -52,7 +52,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
@@ -373,7 +373,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -397,7 +397,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
-- 
2.43.0


From d6590ffb84da4b36b452e58d9101f937e037c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:31 +0000
Subject: [PATCH 09/41] fix: report entity_not_found for an entity that has no
 location

---
 include/co_ecs/base_registry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 50ba916..a8b52d5 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -274,7 +274,8 @@ protected:
 
 private:
     constexpr void ensure_alive(const entity& ent) const {
-        if (!alive(ent)) {
+        // an entity that was reserved but never filled in has no location yet
+        if (!alive(ent) || !_entity_archetype_map.contains(ent.id())) {
             throw entity_not_found{ ent };
         }
     }
-- 
2.43.0


From 37b53b9bdcb0dbf5d4ab6019be463ba6ecc596c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 10/41] fix: give only const access through get<C, O...>() of a
 const entity_ref

---
 include/co_ecs/entity_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 6d5e560..ce6cfe4 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -132,7 +132,7 @@ public:
     /// @return A tuple containing the requested components.
     template<component C, component O, component... Args>
     [[nodiscard]] constexpr auto get() const -> decltype(auto) {
-        return base_registry::template get_impl<C, O, Args...>(_registry.get(), _entity);
+        return base_registry::template get_impl<C, O, Args...>(std::as_const(_registry.get()), _entity);
     }
 
     /// @brief Get reference to component C, or insert it with provided arguments if not present.
-- 
2.43.0


From 148c6d0086e1314f7ce422f2c1c4330da93f0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 11/41] fix: do not let a registry writer run next to a
 registry reader

---
 include/co_ecs/system/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index f3dc4b5..8175798 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -42,7 +42,7 @@ public:
     /// @param other The other access pattern to check against.
     /// @return True if this access pattern allows the other, false otherwise.
     [[nodiscard]] auto allows(const access_pattern_t& other) const noexcept -> bool {
-        if ((writes_all() && other.reads_all()) || (reads_all() && !other.reads_all())) {
+        if ((writes_all() && other.reads_all()) || (reads_all() && (!other.reads_all() || other.writes_all()))) {
             return false;
         }
 
-- 
2.43.0


From 4d29d24167a6ac943a12331a11cf9f3d566c3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 12/41] fix: run main thread systems once per stage and not
 next to conflicting systems

---
 include/co_ecs/system/stage.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 1a2b453..fd2962f 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -153,6 +153,11 @@ public:
         for (auto& executors : _executor_set) {
             execute_batch(executors);
         }
+
+        // main thread systems run once per stage, when no other system that may access the same data is running
+        for (auto& executor : _main_thread_executors) {
+            executor->run();
+        }
     }
 
 private:
@@ -172,11 +177,6 @@ private:
             }
         }
 
-        // in the meantime execute main thread systems
-        for (auto& executor : _main_thread_executors) {
-            executor->run();
-        }
-
         if (parent) {
             _thread_pool.wait(parent);
         }
-- 
2.43.0


From 6f99766aea1f0a9003b7aa041256d497c06fa965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 13/41] fix: keep the systems of a stage when an executor is
 created

---
 include/co_ecs/system/stage.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index fd2962f..05f72e2 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -74,12 +74,18 @@ public:
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
         std::vector<vector_of_executors_t> executors{};
 
-        while (!_systems.empty()) {
+        // the stage keeps its systems, so that it can create more than one executor
+        std::vector<system_interface*> pending;
+        for (auto& system : _systems) {
+            pending.push_back(system.get());
+        }
+
+        while (!pending.empty()) {
             access_pattern_t access_pattern;
             vector_of_executors_t& executor_set = executors.emplace_back();
 
-            for (size_t i = 0; i < _systems.size();) {
-                auto executor = _systems[i]->create_executor(registry, user_context);
+            for (size_t i = 0; i < pending.size();) {
+                auto executor = pending[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
                 if (!access_pattern.allows(system_access_pattern)) {
@@ -89,7 +95,7 @@ public:
 
                 access_pattern &= system_access_pattern;
                 executor_set.emplace_back(std::move(executor));
-                _systems.erase(_systems.begin() + i);
+                pending.erase(pending.begin() + i);
             }
         }
 
-- 
2.43.0


From 21c20a0ff7412dbf30d3e03bd351429f1b02293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 14/41] fix: keep references to stages valid when another stage
 begins

---
 include/co_ecs/system/schedule.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/system/schedule.hpp b/include/co_ecs/system/schedule.hpp
index 77f40d5..5064d94 100644
--- a/include/co_ecs/system/schedule.hpp
+++ b/include/co_ecs/system/schedule.hpp
@@ -6,6 +6,8 @@
 #include <co_ecs/system/stage.hpp>
 #include <co_ecs/system/system.hpp>
 
+#include <deque>
+
 namespace co_ecs {
 
 class schedule_executor;
@@ -58,7 +60,7 @@ public:
 
 private:
     stage _init_stage{ *this };
-    std::vector<stage> _stages;
+    std::deque<stage> _stages; // begin_stage() hands out references
 };
 
 /// @class schedule_executor
-- 
2.43.0


From 148c7517b7044c7eb9c13a18b725f1c7c5280e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 15/41] fix: store a copy of a system passed as an lvalue

---
 include/co_ecs/system/stage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 05f72e2..3bcd429 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -116,7 +116,7 @@ private:
     /// @return Unique pointer to the system interface.
     template<typename F>
     static auto into_system_interface(F&& func) -> std::unique_ptr<system_interface> {
-        return std::make_unique<system<F>>(std::forward<F>(func));
+        return std::make_unique<system<std::decay_t<F>>>(std::forward<F>(func));
     }
 
     /// @brief Converts a unique pointer to a system to a system interface.
-- 
2.43.0


From 568bfef01c1c6dd8a94d94e008dda7af4feb74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 16/41] fix: publish what a task did to the thread waiting for
 it, and finish its parent once

---
 include/co_ecs/thread_pool/task.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 18b8a7e..407fcf8 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
-        return _unfinishedTasks.load(std::memory_order::relaxed) == 0;
+        return _unfinishedTasks.load(std::memory_order::acquire) == 0;
     }
 
     /// @brief Retrieves the parent task if it exists.
@@ -42,10 +42,11 @@ public:
 
 private:
     void finish() {
-        _unfinishedTasks.fetch_sub(1, std::memory_order::relaxed);
+        auto* parent = _parent;
 
-        if (is_completed() && _parent) {
-            _parent->finish();
+        // exactly one thread sees the counter drop to zero
+        if (_unfinishedTasks.fetch_sub(1, std::memory_order::acq_rel) == 1 && parent) {
+            parent->finish();
         }
     }
 
-- 
2.43.0


From 03f8518b4ae601ea8e1934242d7f568a829fedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 17/41] fix: publish a grown array to stealing threads

---
 include/co_ecs/detail/work_stealing_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index b835ae6..1fd98d0 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -67,7 +67,7 @@ public:
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-            _array.store(array, std::memory_order_relaxed);
+            _array.store(array, std::memory_order_release);
         }
 
         array->push(bottom, std::forward<decltype(o)>(o));
-- 
2.43.0


From 02b381e04f447845a8519ee8a32dfb6ebec67d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 18/41] fix: release the staged component of a set command once
 it is executed

---
 include/co_ecs/command.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 720313a..62c11c2 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -168,8 +168,9 @@ public:
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
-                dest_registry.get_entity(dest_entity)
-                    .template set<C>(std::move(staging_registry.get_entity(staging_entity).template get<C>()));
+                C value = std::move(staging_registry.get_entity(staging_entity).template get<C>());
+                staging_registry.destroy(staging_entity);
+                dest_registry.get_entity(dest_entity).template set<C>(std::move(value));
             });
         return *this;
     }
-- 
2.43.0


From 149b37028f7012569fc417046325e50dd381e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:21 +0000
Subject: [PATCH 19/41] fix: keep the command buffer of a thread that has
 exited until it is flushed

---
 include/co_ecs/command.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 62c11c2..46cff01 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -4,6 +4,7 @@
 #include <co_ecs/registry.hpp>
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <variant>
 
@@ -18,8 +19,8 @@ public:
     /// @brief Retrieves the thread-local command buffer instance.
     /// @return Reference to the thread-local command buffer.
     static auto get() -> command_buffer& {
-        static thread_local command_buffer buf;
-        return buf;
+        static thread_local std::shared_ptr<command_buffer> buf = create();
+        return *buf;
     }
 
     /// @brief Flushes all commands in the command buffers to the given registry.
@@ -28,22 +29,29 @@ public:
         registry.sync();
 
         std::lock_guard lk{ _mutex };
-        for (auto* command_buffer : _command_buffers) {
+        for (auto& command_buffer : _command_buffers) {
             command_buffer->play_commands(registry);
         }
+
+        // forget buffers of the threads that have exited
+        std::erase_if(_command_buffers, [](const auto& buffer) { return buffer.use_count() == 1; });
     }
 
 private:
     static inline std::mutex _mutex; ///< Mutex to synchronize access to the command buffers vector.
-    static inline std::vector<command_buffer*>
+    static inline std::vector<std::shared_ptr<command_buffer>>
         _command_buffers; ///< Vector containing all thread-local command buffers.
 
     friend class command_writer;
     friend class command_entity_ref;
 
-    command_buffer() {
+    command_buffer() = default;
+
+    static auto create() -> std::shared_ptr<command_buffer> {
+        std::shared_ptr<command_buffer> buffer(new command_buffer());
         std::lock_guard lk{ _mutex };
-        _command_buffers.push_back(this);
+        _command_buffers.push_back(buffer);
+        return buffer;
     }
 
     template<typename T>
-- 
2.43.0


From 4f5297c407634525ac0424aef8ba85c8f1d9374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 20/41] fix: size the bucket info of a hash table built from a
 range like its buckets

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 45c81ba..e934813 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -326,7 +326,7 @@ public:
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(default_bucket_count), _equal(equal), _hash(hash) {
+        _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
             emplace_or_assign_impl(std::move(*first));
-- 
2.43.0


From 9303edc01e8881716292e012fbbaf6c2940e0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 21/41] fix: do not move elements out of the range a hash table
 is built from

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index e934813..de7f968 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -329,7 +329,7 @@ public:
         _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
-            emplace_or_assign_impl(std::move(*first));
+            emplace_or_assign_impl(*first);
         }
     }
 
-- 
2.43.0


From cdba37f928094b09c582614e3fd1990986129c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 22/41] fix: destroy the element left in the slot vacated by
 hash_table::erase

---
 include/co_ecs/detail/hash_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index de7f968..211656b 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -731,6 +731,9 @@ private:
             info = n_info;
         }
 
+        // the slot that is left unoccupied still holds the element that was moved from
+        allocator_traits::destroy(_buckets.allocator(), ptr);
+
         const size_type threshold = approx_40_percent(bucket_size);
         if (_size > default_bucket_count && _size < threshold) {
             const auto new_size = bucket_size >> size_type{ 1 };
-- 
2.43.0


From 1b43e8c5af9cf76fad35f48851b635ce4952c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 23/41] fix: make cbegin(), cend() and the post-increment of a
 hash table iterator compile

---
 include/co_ecs/detail/hash_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 211656b..a370141 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -221,7 +221,7 @@ private:
         /// @return iterator_impl& Iterator
         constexpr auto operator++(int) noexcept -> iterator_impl {
             iterator_impl tmp(*this);
-            *this ++;
+            ++*this;
             return tmp;
         }
 
@@ -656,14 +656,14 @@ public:
     /// @brief Get iterator to the begin of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cbegin() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cbegin() const noexcept -> const_iterator {
         return begin();
     }
 
     /// @brief Get iterator to the end of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cend() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cend() const noexcept -> const_iterator {
         return end();
     }
 
-- 
2.43.0


From d2640d3d18b498fe03b2b8e06cb0c2b85ff693d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 24/41] fix: reserve a power of two of buckets in a hash table

---
 include/co_ecs/detail/hash_table.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index a370141..bfd3fd9 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <bit>
 #include <cassert>
 #include <memory>
 #include <stdexcept>
@@ -612,7 +613,8 @@ public:
             return;
         }
 
-        hash_table h_table(new_size, _hash, _equal, _buckets.allocator());
+        // indexing relies on the bucket count being a power of two
+        hash_table h_table(std::bit_ceil(new_size), _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
             h_table._emplace_impl(std::move(value));
-- 
2.43.0


From 09923fd12e06c51f70ebcd790b26f91f966e31bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 25/41] fix: destroy the elements copied so far when copying a
 hash table fails

---
 include/co_ecs/detail/hash_table.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index bfd3fd9..bf72eea 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -384,11 +384,13 @@ public:
     ///
     /// @param rhs Right hand side
     constexpr hash_table(const hash_table& rhs) :
-        _info(rhs._info), _size(rhs._size), _hash(rhs._hash), _equal(rhs._equal),
-        _buckets(rhs._buckets.allocator(), rhs._buckets.size()) {
-        for (std::size_t idx{}; const auto& info : _info) {
+        hash_table(rhs._buckets.size(), rhs._hash, rhs._equal, rhs._buckets.allocator()) {
+        for (std::size_t idx{}; const auto& info : rhs._info) {
             if (info.occupied) {
                 std::uninitialized_copy_n(rhs._buckets.begin() + idx, 1, _buckets.begin() + idx);
+                // from here on the destructor takes care of the copy
+                _info[idx] = info;
+                _size++;
             }
             idx++;
         }
-- 
2.43.0


From 0da7703b2abf2571004f2e6d87010645f63f58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 26/41] fix: leave a sparse table empty when it is moved from

---
 include/co_ecs/detail/sparse_table.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 69ad330..c43653b 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -2,6 +2,7 @@
 
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace co_ecs::detail {
@@ -38,7 +39,12 @@ public:
     /// @brief Move constructor
     ///
     /// @param rhs Sparse container to move from
-    constexpr sparse_table(sparse_table&& rhs) noexcept = default;
+    constexpr sparse_table(sparse_table&& rhs) noexcept :
+        _dense(std::move(rhs._dense)), _sparse(std::move(rhs._sparse)), _size(std::exchange(rhs._size, 0)),
+        _sparse_capacity(std::exchange(rhs._sparse_capacity, 0)) {
+        rhs._dense.clear();
+        rhs._sparse.clear();
+    }
 
     /// @brief Copy constructor
     ///
@@ -49,7 +55,14 @@ public:
     ///
     /// @param rhs Sparse container to move from
     /// @return Container data from rhs moved to
-    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& = default;
+    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& {
+        sparse_table moved(std::move(rhs));
+        std::swap(_dense, moved._dense);
+        std::swap(_sparse, moved._sparse);
+        std::swap(_size, moved._size);
+        std::swap(_sparse_capacity, moved._sparse_capacity);
+        return *this;
+    }
 
     /// @brief Copy assignment
     ///
-- 
2.43.0


From 25e3295e34e0b0101b86017e95d5968f4c630bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 27/41] fix: count the entries of a sparse table in size_t

---
 include/co_ecs/detail/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index c43653b..b4827a4 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -319,7 +319,7 @@ private:
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
 
-    key_type _size{};
+    size_t _size{};
     size_t _sparse_capacity{};
 };
 
-- 
2.43.0


From a7c1289e6ac93ff3df828446e048696382ffc9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 28/41] fix: compare bitsets by their bits, whatever number of
 blocks they were created with

---
 include/co_ecs/detail/dynamic_bitset.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/dynamic_bitset.hpp b/include/co_ecs/detail/dynamic_bitset.hpp
index 4bcacdd..e32062b 100644
--- a/include/co_ecs/detail/dynamic_bitset.hpp
+++ b/include/co_ecs/detail/dynamic_bitset.hpp
@@ -78,7 +78,16 @@ public:
     /// @return true If bitsets are equal
     /// @return false If bitsets aren't equal
     auto operator==(const dynamic_bitset& rhs) const noexcept -> bool {
-        return std::ranges::equal(_blocks, rhs._blocks);
+        // blocks that a bitset does not have are zero
+        const auto count = std::max(_blocks.size(), rhs._blocks.size());
+        for (std::size_t i = 0; i < count; i++) {
+            const auto lhs_block = i < _blocks.size() ? _blocks[i] : block_type{};
+            const auto rhs_block = i < rhs._blocks.size() ? rhs._blocks[i] : block_type{};
+            if (lhs_block != rhs_block) {
+                return false;
+            }
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From 34fd5bf89045fd9eaffb764fc92f11e2a9c1410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 29/41] fix: do not let the remaining space of a full stack
 allocator wrap around

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index e4d604d..cb61c25 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -54,6 +54,9 @@ public:
 
         // Get the top of the stack
         char* top = _start + _offset;
+        if (remaining() < sizeof(alloc_header)) {
+            return nullptr;
+        }
         // Get the pointer to the top + 1 allocation header
         void* ptr = top + sizeof(alloc_header);
         // Calculate remaining space
-- 
2.43.0


From cf3a4540ed1d912de2ad6b18eaa59db70ebfaf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 30/41] fix: carry the offset when a stack allocator is moved

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index cb61c25..697a198 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -32,7 +32,8 @@ public:
     /// @brief Move constructor
     /// @param rhs Other allocator
     stack_allocator(stack_allocator&& rhs) noexcept :
-        _start(std::exchange(rhs._start, nullptr)), _size(std::exchange(rhs._size, 0)) {
+        _start(std::exchange(rhs._start, nullptr)), _offset(std::exchange(rhs._offset, 0)),
+        _size(std::exchange(rhs._size, 0)) {
     }
 
     /// @brief Move assignment
@@ -40,6 +41,7 @@ public:
     /// @return Allocator
     stack_allocator& operator=(stack_allocator&& rhs) noexcept {
         _start = std::exchange(rhs._start, nullptr);
+        _offset = std::exchange(rhs._offset, 0);
         _size = std::exchange(rhs._size, 0);
         return *this;
     }
-- 
2.43.0


From 0b64c0c74eaa7b79a5118a2a2ab299743fb06ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 31/41] fix: do not let a linear allocator hand out memory
 after it is moved from

---
 .../co_ecs/detail/allocator/linear_allocator.hpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/allocator/linear_allocator.hpp b/include/co_ecs/detail/allocator/linear_allocator.hpp
index a0c8d62..3a688d9 100644
--- a/include/co_ecs/detail/allocator/linear_allocator.hpp
+++ b/include/co_ecs/detail/allocator/linear_allocator.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <cassert>
 #include <cstddef>
 #include <memory>
+#include <utility>
 
 #include <co_ecs/detail/bits.hpp>
 
@@ -26,10 +28,18 @@ public:
     linear_allocator& operator=(const linear_allocator&) = delete;
 
     /// @brief Defaulted move constructor.
-    linear_allocator(linear_allocator&&) = default;
+    linear_allocator(linear_allocator&& rhs) noexcept :
+        _head(std::exchange(rhs._head, nullptr)), _ptr(std::exchange(rhs._ptr, nullptr)),
+        _size(std::exchange(rhs._size, 0)) {
+    }
 
     /// @brief Defaulted move assignment operator.
-    linear_allocator& operator=(linear_allocator&&) = default;
+    linear_allocator& operator=(linear_allocator&& rhs) noexcept {
+        _head = std::exchange(rhs._head, nullptr);
+        _ptr = std::exchange(rhs._ptr, nullptr);
+        _size = std::exchange(rhs._size, 0);
+        return *this;
+    }
 
     /// @brief Allocates memory with a specified size and alignment.
     /// @param size Size of memory to allocate in bytes.
-- 
2.43.0


From 1139c2ad060b33da603e5ae04d309041f4eb67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 32/41] fix: resolve the ambiguity between the range
 constructors of a hash table

---
 include/co_ecs/detail/hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index bf72eea..02bf448 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -346,7 +346,7 @@ public:
     constexpr hash_table(input_iterator first,
         input_iterator last,
         size_type bucket_count,
-        const Allocator& alloc = Allocator()) : hash_table(first, last, bucket_count, Hash(), key_equal(), alloc) {
+        const Allocator& alloc) : hash_table(first, last, bucket_count, Hash(), key_equal(), alloc) {
     }
 
     /// @brief Construct hash table from iterator pair
@@ -363,7 +363,7 @@ public:
         input_iterator last,
         size_type bucket_count,
         const Hash& hash,
-        const Allocator& alloc = Allocator()) : hash_table(first, last, bucket_count, hash, key_equal(), alloc) {
+        const Allocator& alloc) : hash_table(first, last, bucket_count, hash, key_equal(), alloc) {
     }
 
     /// @brief Construct hash table from initializer list
-- 
2.43.0


From 49aac88e3eadc4d6a80dc3c10f33fec21487b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:56 +0000
Subject: [PATCH 33/41] fix: check that the bucket count of a hash table is a
 power of two as documented

---
 include/co_ecs/detail/hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 02bf448..e21ec76 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -285,7 +285,7 @@ public:
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
         _buckets(alloc, bucket_count), _info(bucket_count), _hash(hash), _equal(equal) {
-        assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
+        assert((bucket_count > 0) && is_power_of_2(bucket_count) && "Bucket count must be a power of two");
     }
 
     /// @brief Construct hash table
@@ -328,7 +328,7 @@ public:
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
         _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
-        assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
+        assert((bucket_count > 0) && is_power_of_2(bucket_count) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
             emplace_or_assign_impl(*first);
         }
-- 
2.43.0


From c2db95d350b7261d5b14bf0ada3e85fb81ee9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 34/41] fix: share component IDs between binaries built with
 hidden visibility

The attribute on the member functions of type_registry had no effect, because
the hidden family type among the template arguments lowers their visibility.
---
 include/co_ecs/component.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 196e637..9fe7720 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -21,7 +21,7 @@ namespace detail {
 /// @tparam Type it is parametrized over
 /// @tparam _id_type Type used for IDs
 template<typename = void, typename _id_type = std::uint64_t>
-class type_registry {
+class CO_ECS_API type_registry {
 public:
     using id_type = _id_type;
 
@@ -29,7 +29,7 @@ public:
     ///
     /// @param type_string Name of the type
     /// @return id_type ID assigned to a type
-    CO_ECS_API static auto id(std::string_view type_string) -> id_type {
+    static auto id(std::string_view type_string) -> id_type {
         auto [iter, inserted] = get_id_map().emplace(type_string, get_next_id());
         if (inserted) {
             get_next_id()++;
@@ -41,7 +41,7 @@ public:
     /// @brief Get ID mapping
     ///
     /// @return hash_map<std::string_view, id_type>& Reference to a hash map: name -> ID
-    CO_ECS_API static auto get_id_map() -> hash_map<std::string_view, id_type>& {
+    static auto get_id_map() -> hash_map<std::string_view, id_type>& {
         static hash_map<std::string_view, id_type> id_map{};
         return id_map;
     }
@@ -49,7 +49,7 @@ public:
     /// @brief Get next free ID
     ///
     /// @return id_type& Next ID value
-    CO_ECS_API static auto get_next_id() -> id_type& {
+    static auto get_next_id() -> id_type& {
         static id_type next_id{};
         return next_id;
     }
@@ -75,8 +75,11 @@ using component_id_t = std::uint32_t;
 /// @brief Invalid component ID
 constexpr auto invalid_component_id = std::numeric_limits<component_id_t>::max();
 
+/// @brief Family of component IDs, its visibility limits the visibility of the type registry.
+struct CO_ECS_API _component_family_t;
+
 /// @brief Type for family used to generated component IDs.
-using component_id = detail::type_id<struct _component_family_t, component_id_t>;
+using component_id = detail::type_id<_component_family_t, component_id_t>;
 
 /// @brief Component concept. The component must be a struct/class that can be move constructed and move
 /// assignable
-- 
2.43.0


From 3597779c62f60f8b1b08a7d1bd64dab583e1cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 35/41] fix: a failed copy left an empty last chunk behind, the
 next removal moved an entity out of it

---
 include/co_ecs/archetype.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index fa7a536..ddd110f 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -119,7 +119,16 @@ public:
 
         assert((location.entry_index < chunk.size()) && "Entity location index exceeds chunk size");
 
-        auto entry_index = chunk.copy(location.entry_index, free_chunk);
+        std::size_t entry_index{};
+        try {
+            entry_index = chunk.copy(location.entry_index, free_chunk);
+        } catch (...) {
+            // a copy constructor has thrown: do not leave an empty last chunk behind
+            if (free_chunk.empty() && other._chunks.size() > 1) {
+                other._chunks.pop_back();
+            }
+            throw;
+        }
         auto new_location = entity_location{
             &other,
             other._chunks.size() - 1,
-- 
2.43.0


From ecf12d77a1ebcc382dd8f72a07e72386b1a9d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 36/41] fix: moving an entity consumed a handle of the
 destination when its archetype could not be created

---
 include/co_ecs/base_registry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index a8b52d5..5a86a11 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -208,7 +208,8 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
-        ensure_alive(ent);
+        // the destination archetype is ensured before a handle is allocated, since that may fail
+        dest._archetypes.ensure_archetype(get_location(ent).archetype->components());
         return move(ent, dest, dest.allocate());
     }
 
-- 
2.43.0


From b52713ddf7bf32f01157de91aea514617e30a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 37/41] fix: do not let a command writer run next to a system
 that may change the registry

---
 include/co_ecs/system/system.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/system/system.hpp b/include/co_ecs/system/system.hpp
index 431a50d..99995e7 100644
--- a/include/co_ecs/system/system.hpp
+++ b/include/co_ecs/system/system.hpp
@@ -279,7 +279,8 @@ public:
     ///
     /// @return The access pattern of the entity.
     auto access_pattern() const -> access_pattern_t {
-        return access_pattern_t{};
+        // recording a creation reserves an entity in the registry
+        return access_pattern_t(access_type::read, component_meta::of<entity>());
     }
 
 private:
-- 
2.43.0


From 439344e19b1a2a76f1eb4f68b3d6749459dcd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 38/41] fix: do not let a component writer run next to a
 registry reader that precedes it

---
 include/co_ecs/system/access.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index 8175798..6e29ab2 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -52,6 +52,13 @@ public:
             }
         }
 
+        // the other pattern may write what this one reads through its registry access
+        for (auto [component_id, access] : other._component_access) {
+            if (access == access_type::write && reads(component_id)) {
+                return false;
+            }
+        }
+
         return true;
     }
 
-- 
2.43.0


From 6651a513479ae95edfb32c22e0c05cd2cd0c0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 39/41] fix: refuse element counts of temp_allocator whose size
 in bytes wraps around

---
 include/co_ecs/detail/allocator/temp_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/detail/allocator/temp_allocator.hpp b/include/co_ecs/detail/allocator/temp_allocator.hpp
index 5cb4037..2fdf727 100644
--- a/include/co_ecs/detail/allocator/temp_allocator.hpp
+++ b/include/co_ecs/detail/allocator/temp_allocator.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <limits>
+#include <new>
+
 #include <co_ecs/detail/allocator/stack_allocator.hpp>
 
 namespace co_ecs::detail {
@@ -37,6 +40,9 @@ public:
     /// @param n Elements to allocate
     /// @return Pointer to allocated memory
     [[nodiscard]] constexpr T* allocate(std::size_t n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+            throw std::bad_array_new_length{}; // n * sizeof(T) would wrap around
+        }
         auto* ptr = static_cast<T*>(global_stack_allocator.allocate(n * sizeof(T), alignof(T)));
         if (!ptr) {
             throw std::bad_alloc{};
-- 
2.43.0


From e0d5bb082c2af340c9c7fe54bba8fd5b082dcb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:22 +0000
Subject: [PATCH 40/41] fix: an archetype that was moved left its chunks
 referring to the old one

---
 include/co_ecs/archetype.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index ddd110f..37d3db5 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -29,6 +29,26 @@ public:
         _chunks.emplace_back(_blocks, _max_size);
     }
 
+    /// @brief Deleted copy constructor
+    ///
+    /// @param rhs Another archetype
+    archetype(const archetype& rhs) = delete;
+
+    /// @brief Deleted copy assignment operator
+    ///
+    /// @param rhs Another archetype
+    auto operator=(const archetype& rhs) -> archetype& = delete;
+
+    /// @brief Deleted move constructor, chunks and entity locations refer to this object
+    ///
+    /// @param rhs Another archetype
+    archetype(archetype&& rhs) = delete;
+
+    /// @brief Deleted move assignment operator, chunks and entity locations refer to this object
+    ///
+    /// @param rhs Another archetype
+    auto operator=(archetype&& rhs) -> archetype& = delete;
+
     /// @brief Return components set
     ///
     /// @return const component_meta_set&
-- 
2.43.0


From 3c7e08f92f8357270900353ee33b1d0aa0d4cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 41/41] fix: a hash table that failed to be built from a range
 leaked its elements

---
 include/co_ecs/detail/hash_table.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index e21ec76..7a03a4a 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -326,9 +326,7 @@ public:
         size_type bucket_count = default_bucket_count,
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
-        const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
-        assert((bucket_count > 0) && is_power_of_2(bucket_count) && "Bucket count must be a power of two");
+        const Allocator& alloc = Allocator()) : hash_table(bucket_count, hash, equal, alloc) {
         for (; first != last; ++first) {
             emplace_or_assign_impl(*first);
         }
-- 
2.43.0

