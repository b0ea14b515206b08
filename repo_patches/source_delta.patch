From 7fd47a615f8db1d361f1e02c69f8039cb3da5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 001/129] fix: ExtractKey::value() returns the mapped value
 with its own type

concurrent_map::operator== compared mapped values through a reference to the
key type: it did not compile when the mapped type is not convertible to the key
type, and compared truncated temporaries through a dangling reference when it is
(concurrent_map<int,double> {1:1.2} == {1:1.9}).
---
 seq/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..18b9f44 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -414,14 +414,14 @@ namespace seq
 				return value;
 			}
 
-			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const key_type& { return value.second; }
+			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const mapped_type& { return value.second; }
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
-- 
2.43.0


From 854af921abe62ed56179fe36b4949aabdc139eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 002/129] fix: seq::erase_if(concurrent_map/set, pred) returns
 the number of erased elements

The two free functions flowed off the end of a non-void function.
---
 seq/concurrent_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 253e0ee..8ccdd34 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -424,7 +424,7 @@ namespace seq
 	template<class Key, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_set<Key, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_set<Key, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 	template<class Key, class T, class Hash = hasher<Key>, class Equal = std::equal_to<>, class Allocator = std::allocator<std::pair<Key, T>>, unsigned Shards = seq::medium_concurrency>
@@ -919,7 +919,7 @@ namespace seq
 	template<class Key, class T, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_map<Key, T, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_map<Key, T, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 }
-- 
2.43.0


From 96eb058aeea3aad3ecbc60b61968d9c7e1e1f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 003/129] fix: concurrent tables: self comparison and self
 merge do not deadlock

operator== and merge() passed the same spinlock twice to std::lock() and spun forever.
---
 seq/internal/concurrent_hash_table.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 569d6d5..d6819bb 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1975,6 +1975,9 @@ namespace seq
 
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
+				// Self merge: nothing to do, and the locks below cannot be taken twice
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -1996,6 +1999,9 @@ namespace seq
 			template<class ExecPolicy>
 			auto merge(ExecPolicy&& p, ConcurrentHashTable& other) -> size_t
 			{
+				// Self merge: nothing to do, and the locks below cannot be taken twice
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2019,6 +2025,9 @@ namespace seq
 
 			bool operator==(const ConcurrentHashTable& other) const
 			{
+				// Self comparison: the locks below cannot be taken twice
+				if (this == std::addressof(other))
+					return true;
 				// Lock internal data to avoid swap or move during comparison
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
-- 
2.43.0


From bf5ffe59591b1b3d2f2d60011dcfe1c17668ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 004/129] fix: concurrent tables: visit_all() const stops when
 the functor returns false

The wrapping lambda dropped the functor's result.
---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index d6819bb..fcf1a20 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1750,7 +1750,7 @@ namespace seq
 				if (!d)
 					return true;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					if (!d->at(i).visit_all([&fun](const Value& v) { std::forward<F>(fun)(v); }))
+					if (!d->at(i).visit_all([&fun](const Value& v) { return std::forward<F>(fun)(v); }))
 						return false;
 				return true;
 			}
-- 
2.43.0


From 9b66499d806c2f628647de5daa48a8d3c574e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 005/129] fix: concurrent tables: a visitor may throw when the
 equality functor is noexcept

FindInNode()/FindInDense() were noexcept as soon as the equality functor was,
although they also call the visitor: its exceptions ended in std::terminate().
---
 seq/internal/concurrent_hash_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index fcf1a20..0c14c81 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -494,8 +494,8 @@ namespace seq
 		/// @brief Find given value in a dense node.
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
-		auto FindInDense(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentDenseNode<Value>* n, F&& f) noexcept(noexcept(eq(std::forward<K>(key),
-																	     ExtractKey::key(std::declval<Value&>())))) -> size_t
+		auto FindInDense(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentDenseNode<Value>* n, F&& f) noexcept(
+		  noexcept(eq(std::forward<K>(key), ExtractKey::key(std::declval<Value&>()))) && noexcept(std::forward<F>(f)(std::declval<Value&>()))) -> size_t
 		{
 			do {
 				auto v = FindWithTh<ExtractKey, chain_concurrent_node_size>(th, eq, std::forward<K>(key), n->hashs, n->values());
@@ -511,7 +511,7 @@ namespace seq
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
 		SEQ_CONCURRENT_INLINE auto FindInNode(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentHashNode* node, const ConcurrentValueNode<Value>* values, F&& f) noexcept(
-		  noexcept(eq(std::forward<K>(key), ExtractKey::key(std::declval<Value&>())))) -> size_t
+		  noexcept(eq(std::forward<K>(key), ExtractKey::key(std::declval<Value&>()))) && noexcept(std::forward<F>(f)(std::declval<Value&>()))) -> size_t
 		{
 			if (auto v = FindWithTh<ExtractKey, max_concurrent_node_size>(th, eq, std::forward<K>(key), node->hashs, values->values())) {
 				std::forward<F>(f)(const_cast<Value&>(*v));
-- 
2.43.0


From e1b3ad3e28fc812683f780ecfe15ec45edd8a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 006/129] fix: concurrent tables: take shared locks in shared
 mode

ChainingHashTable::lock_shared() first tried an exclusive lock, which was then
released with unlock_shared(): the shared_spinner word was corrupted (underflow),
which let writers in together or blocked everybody forever.
---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 0c14c81..2a67e44 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -745,7 +745,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void lock_shared(node_lock& lock) const
 			{
-				if (lock.try_lock())
+				if (lock.try_lock_shared())
 					return;
 				this_type* _this = const_cast<this_type*>(this);
 				while (!lock.try_lock_shared()) {
-- 
2.43.0


From 5978422c5e7787cefd3bb79450de359b665cf2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 007/129] fix: concurrent tables: mutable visit_all() is
 exclusive on small shared tables

Until the lock array exists the values are only protected by d_rehash_lock, which
the non const visit_all() took in shared mode: with the *_shared concurrency
levels it ran together with readers and other mutable traversals.
---
 seq/internal/concurrent_hash_table.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 2a67e44..863532a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1264,8 +1264,9 @@ namespace seq
 			template<class F>
 			bool visit_all(F&& fun)
 			{
-				// Avoid rehash while calling visit_all
-				LockShared<node_lock> lock(const_cast<node_lock&>(d_rehash_lock));
+				// Avoid rehash while calling visit_all.
+				// While the lock array does not exist, this lock also protects the values.
+				LockUnique<node_lock> lock(d_rehash_lock);
 				if (d_buckets == get_static_node())
 					return true;
 
-- 
2.43.0


From 541d90a652ffad4c96675f57e3bbfbfcd59678d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 008/129] fix: concurrent tables: failed copy construction
 releases what it copied

The destructor is not run when the body of a non delegating constructor throws:
the tables and every element copied so far were leaked.
---
 seq/internal/concurrent_hash_table.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 863532a..79e6907 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1670,10 +1670,10 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(const ConcurrentHashTable& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
+				// The delegated constructor makes sure that the destructor is called on exception
+				d_data = PrivateData::make(alloc, other.hash_function(), other.key_eq());
 				this->reserve(other.size());
 				other.visit_all([&](const Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(v); });
 			}
@@ -1682,10 +1682,9 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
+				d_data = PrivateData::make(alloc, other.hash_function(), other.key_eq());
 				if (alloc == other.get_safe_allocator()) {
 					this->swap(other, false);
 				}
-- 
2.43.0


From 37d4a20f71033839ca917900480da169d358e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 009/129] fix: concurrent tables: keep buckets consistent when
 a move throws while erasing

erase_full_bucket() left the bucket pointing to the chained nodes it had just
freed, and an exception while erasing from the main bucket left shifted values
with the hashes of others.
---
 seq/internal/concurrent_hash_table.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 79e6907..58dc809 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1054,6 +1054,7 @@ namespace seq
 					free_nodes(d);
 					d = right;
 				}
+				v->right = nullptr;
 			}
 
 			void erase_from_dense(node_type* bucket, value_node_type* values, chain_node_type* n, unsigned pos)
@@ -1095,7 +1096,14 @@ namespace seq
 				// Erase position from main node and shift left remaining values
 				if (values->right) {
 					// Take last value from right node
-					values->values()[pos] = std::move(values->right->values()[values->right->count() - 1]);
+					try {
+						values->values()[pos] = std::move(values->right->values()[values->right->count() - 1]);
+					}
+					catch (...) {
+						// Same as erase_from_dense(): no ways to revert back the state
+						erase_full_bucket(bucket, values);
+						throw;
+					}
 					bucket->hashs[pos + 1] = values->right->hashs[values->right->count()];
 					// Erase last value from right node
 					erase_from_dense(bucket, values, values->right, values->right->count() - 1);
@@ -1103,7 +1111,14 @@ namespace seq
 				else {
 					// move hashs and values toward the left
 					if (unsigned move_count = (bucket->hashs[0] - pos - 1)) {
-						std::move(values->values() + pos + 1, values->values() + pos + 1 + move_count, values->values() + pos);
+						try {
+							std::move(values->values() + pos + 1, values->values() + pos + 1 + move_count, values->values() + pos);
+						}
+						catch (...) {
+							// Same as erase_from_dense(): no ways to revert back the state
+							erase_full_bucket(bucket, values);
+							throw;
+						}
 						memmove(bucket->hashs + pos + 1, bucket->hashs + pos + 2, move_count);
 					}
 					// invalidate last hash, destroy value, decrease size
-- 
2.43.0


From b6bd95a8b3a04ed9b2e2434719f49479968dee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 010/129] fix: concurrent tables: survive allocation failures
 during rehash and clear

When the first allocation of a rehash failed, the clean up dereferenced a null
bucket array and released bucket locks that were never taken. Locks allocated on
first use made noexcept code (lock iterator, destructor) terminate the program
when memory ran out: rehash now allocates the locks of the new size before it
changes anything.
---
 seq/internal/concurrent_hash_table.hpp | 88 ++++++++++++++++----------
 1 file changed, 56 insertions(+), 32 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 58dc809..8f8e5a0 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -269,8 +269,7 @@ namespace seq
 			{
 				size_t count = bit_scan_reverse_32(static_cast<unsigned>(size));
 				for (size_t i = 0; i <= count; ++i)
-					if (!arrays[i].load(std::memory_order_relaxed))
-						at(i);
+					make_array(i);
 			}
 			/// @brief Returns element at given position.
 			/// Resize array if necessary.
@@ -758,6 +757,26 @@ namespace seq
 				}
 			}
 
+			lock_array* make_locks(size_t count)
+			{
+				rebind_alloc<lock_array> al = get_allocator();
+				lock_array* locks = al.allocate(1);
+				construct_ptr(locks, get_allocator());
+				try {
+					locks->resize(count);
+				}
+				catch (...) {
+					destroy_locks(locks);
+					throw;
+				}
+				return locks;
+			}
+			void destroy_locks(lock_array* locks) noexcept
+			{
+				destroy_ptr(locks);
+				rebind_alloc<lock_array>{ get_allocator() }.deallocate(locks, 1);
+			}
+
 			void rehash_internal(size_t new_hash_mask, bool grow_only = false)
 			{
 
@@ -779,27 +798,41 @@ namespace seq
 					return;
 
 				lock_array* locks = AtomicLoad(d_locks);
+				lock_array* new_locks = nullptr;
 				node_type* buckets = nullptr;
 				value_node_type* values = nullptr;
-				size_t i = 0;
+				// Number of locked positions
+				size_t locked = 0;
 
 				// Reset chain count
 				d_chain_count = 0;
 
 				try {
 
+					if constexpr (is_concurrent) {
+						// Make sure that all locks exist before they are needed: using, traversing,
+						// clearing and destroying the table do not have to allocate them
+						if (locks)
+							locks->resize(new_hash_mask + 1u);
+						else if (new_hash_mask >= 1)
+							new_locks = make_locks(new_hash_mask + 1u);
+					}
+
 					// Alloc new buckets
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
-					size_t count = (d_buckets != get_static_node()) ? d_hash_mask + 1u : 0u;
+					// Note: the static node is a (single) empty bucket, which position might be locked as well
+					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
-					for (i = 0; i < count; ++i) {
+					for (size_t i = 0; i < count; ++i) {
 
 						// Lock position
-						if (is_concurrent && locks)
+						if (is_concurrent && locks) {
 							iter->lock();
+							++locked;
+						}
 
 						d_buckets[i].for_each(d_values + i, [&](std::uint8_t* hashs, unsigned j, Value& val) {
 							auto pos = hash_key(extract_key::key(val)) & new_hash_mask;
@@ -826,13 +859,14 @@ namespace seq
 					}
 
 					// Destroy and deallocate
-					destroy_buckets(buckets, values, new_hash_mask + 1);
-
-					if (is_concurrent && locks) {
-						// Unlock locked nodes
-						for (size_t j = 0; j <= i; ++j)
-							locks->at(j).unlock();
-					}
+					if (buckets)
+						destroy_buckets(buckets, values, new_hash_mask + 1);
+					if (new_locks)
+						destroy_locks(new_locks);
+
+					// Unlock locked nodes
+					for (size_t j = 0; j < locked; ++j)
+						locks->at(j).unlock();
 					throw;
 				}
 
@@ -847,25 +881,17 @@ namespace seq
 				d_values = values;
 				d_hash_mask = new_hash_mask;
 
-				if (is_concurrent && locks) {
-					// Unlock all nodes
-					auto iter = typename lock_array::iterator(locks);
-					size_t count = old_buckets ? old_hash_mask + 1u : 0u;
-					for (i = 0; i < count; ++i, ++iter)
-						iter->unlock();
-				}
+				// Unlock all nodes
+				auto iter = typename lock_array::iterator(locks);
+				for (size_t j = 0; j < locked; ++j, ++iter)
+					iter->unlock();
 
 				// Destroy previous buckets
 				destroy_buckets(old_buckets, old_values, old_hash_mask + 1, !std::is_nothrow_move_constructible_v<Value>);
 
-				// Create locks if needed
-				if (is_concurrent && !locks && new_hash_mask >= 1) {
-					// might throw, fine
-					rebind_alloc<lock_array> al = get_allocator();
-					locks = al.allocate(1);
-					construct_ptr(locks, get_allocator());
-					d_locks = (locks);
-				}
+				// Publish locks if just created
+				if (new_locks)
+					d_locks = (new_locks);
 
 				d_rehash_condition.notify_all();
 			}
@@ -1166,10 +1192,8 @@ namespace seq
 				// Clear tables
 				clear_no_lock();
 				// Destroy lock array
-				if (lock_array* locks = AtomicLoad(d_locks)) {
-					destroy_ptr(locks);
-					rebind_alloc<lock_array>{ get_allocator() }.deallocate(locks, 1);
-				}
+				if (lock_array* locks = AtomicLoad(d_locks))
+					destroy_locks(locks);
 			}
 
 			/// @brief Returns hash table size
-- 
2.43.0


From e0961674796db9b679615971acbc776f4fd0bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 011/129] fix: concurrent tables: insertion concurrent with
 clear() or with a failed first rehash

An inserter that found the table without buckets waited for another thread to
create them, holding the lock of bucket 0, forever if no one did; or inserted in
the static empty node when clear() ran between the wait and the lock. The first
rehash unlocked bucket 0 without having locked it.
---
 seq/internal/concurrent_hash_table.hpp | 47 ++++++++++++++++++--------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 8f8e5a0..857f7a7 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -976,20 +976,31 @@ namespace seq
 				}
 			}
 
+			SEQ_NOINLINE(void) make_first_bucket()
+			{
+				// The table was cleared by another thread since rehash_on_insert(), or its first
+				// rehash is still running or failed in another thread: make sure it happens.
+				rehash_on_next_target(0);
+				std::this_thread::yield();
+			}
+
 			template<bool WaitForBucket = true>
 			SEQ_NOINLINE(auto)
 			get_node_global_lock(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
-				if (WaitForBucket)
-					while (d_buckets == get_static_node())
-						std::this_thread::yield();
-				l = &d_rehash_lock;
-				l->lock();
-				if ((locks = AtomicLoad(d_locks))) {
+				for (;;) {
+					l = &d_rehash_lock;
+					l->lock();
+					if ((locks = AtomicLoad(d_locks))) {
+						l->unlock();
+						return this->template get_node<WaitForBucket>(locks, hash, l);
+					}
+					if (!WaitForBucket || d_buckets != get_static_node())
+						return (hash & d_hash_mask);
+					// No bucket (yet, or anymore)
 					l->unlock();
-					return this->template get_node<false>(locks, hash, l);
+					make_first_bucket();
 				}
-				return (hash & d_hash_mask);
 			}
 			template<bool WaitForBucket = true>
 			SEQ_CONCURRENT_INLINE auto get_node(lock_array* locks, size_t hash, node_lock*& l) -> size_t
@@ -997,13 +1008,19 @@ namespace seq
 				if SEQ_UNLIKELY (!locks)
 					return this->template get_node_global_lock<WaitForBucket>(locks, hash, l);
 				// Returns node locked for given hash value
-				size_t hash_mask = d_hash_mask;
-				size_t pos = hash & hash_mask;
-				l = &locks->at(pos);
-				this->lock(*l);
-				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask)
-					update_lock(locks, hash, hash_mask, pos, l);
-				return pos;
+				for (;;) {
+					size_t hash_mask = d_hash_mask;
+					size_t pos = hash & hash_mask;
+					l = &locks->at(pos);
+					this->lock(*l);
+					while (hash_mask != d_hash_mask)
+						update_lock(locks, hash, hash_mask, pos, l);
+					if SEQ_LIKELY (!WaitForBucket || d_buckets != get_static_node())
+						return pos;
+					// No bucket (yet, or anymore)
+					l->unlock();
+					make_first_bucket();
+				}
 			}
 
 			SEQ_NOINLINE(auto) get_node_shared_global_lock(lock_array* locks, size_t hash, node_lock*& l) const -> size_t
-- 
2.43.0


From a9986dfaec3141cf848d6de76bd63e64244298fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 012/129] fix: concurrent tables: publish buckets and locks to
 unlocked readers

The hash mask, the rehash threshold and the lock arrays are read without
holding a lock: make them atomic and load them with acquire semantic, and
do not read the bucket pointer without lock.
---
 seq/internal/concurrent_hash_table.hpp | 75 +++++++++++++-------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 857f7a7..b1b45e3 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -205,7 +205,7 @@ namespace seq
 			// Allocate/initialize the array for given index (between 0 and 31)
 			lock_type* make_array(size_t index)
 			{
-				lock_type* l = arrays[index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[index].load(std::memory_order_acquire);
 				if (l)
 					return l;
 				rebind_alloc<lock_type> al = *this;
@@ -233,7 +233,7 @@ namespace seq
 				}
 				auto operator*() const noexcept -> Lock&
 				{
-					lock_type* l = array->arrays[array_index].load(std::memory_order_relaxed);
+					lock_type* l = array->arrays[array_index].load(std::memory_order_acquire);
 					if SEQ_UNLIKELY (!l)
 						l = array->make_array(array_index);
 					return l[index];
@@ -278,7 +278,7 @@ namespace seq
 			{
 				unsigned ar_index = bit_scan_reverse_32(static_cast<unsigned>(i + 1u));
 				unsigned in_array = static_cast<unsigned>(i) - ((1u << ar_index) - 1u);
-				lock_type* l = arrays[ar_index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[ar_index].load(std::memory_order_acquire);
 				if SEQ_UNLIKELY (!l)
 					l = const_cast<SharedLockArray*>(this)->make_array(ar_index);
 				return l[in_array];
@@ -304,11 +304,12 @@ namespace seq
 			return v;
 		}
 
-		/// @brief Relaxed atomic load
+		/// @brief Atomic load.
+		/// Acquire semantic, as loaded pointers (and masks) give access to what other threads published.
 		template<class T>
 		static SEQ_CONCURRENT_INLINE T AtomicLoad(const std::atomic<T>& v) noexcept
 		{
-			return v.load(std::memory_order_relaxed);
+			return v.load(std::memory_order_acquire);
 		}
 
 		/// @brief Movemask function of 8 bytes word
@@ -676,8 +677,8 @@ namespace seq
 			PrivateData* d_data;	       // pointer to upper PrivateData
 			lock_array_type d_locks;       // lock array
 			size_type d_size;	       // total size
-			size_t d_next_target;	       // next size before rehash
-			size_t d_hash_mask;	       // hash mask
+			size_type d_next_target;       // next size before rehash
+			size_type d_hash_mask;	       // hash mask, always updated after the buckets (might be read without lock)
 			node_lock d_rehash_lock;       // unique lock for rehash
 			std::atomic<bool> d_in_rehash; // tells if we are in rehash
 			std::mutex d_rehash_mutex;
@@ -794,7 +795,7 @@ namespace seq
 				LockUnique<node_lock> ll(d_rehash_lock);
 
 				// Make sure we are growing
-				if (grow_only && new_hash_mask <= d_hash_mask && d_hash_mask != 0)
+				if (grow_only && new_hash_mask <= AtomicLoad(d_hash_mask) && AtomicLoad(d_hash_mask) != 0)
 					return;
 
 				lock_array* locks = AtomicLoad(d_locks);
@@ -823,7 +824,7 @@ namespace seq
 					values = make_value_nodes(new_hash_mask + 1u);
 
 					// Note: the static node is a (single) empty bucket, which position might be locked as well
-					size_t count = d_hash_mask + 1u;
+					size_t count = AtomicLoad(d_hash_mask) + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
 					for (size_t i = 0; i < count; ++i) {
@@ -855,7 +856,7 @@ namespace seq
 
 					if (std::is_nothrow_move_constructible_v<Value> && buckets && values) {
 						// Move back values from new to old buckets
-						move_back(buckets, values, new_hash_mask, d_buckets, d_values, d_hash_mask);
+						move_back(buckets, values, new_hash_mask, d_buckets, d_values, AtomicLoad(d_hash_mask));
 					}
 
 					// Destroy and deallocate
@@ -873,7 +874,7 @@ namespace seq
 				// Save old bucket
 				node_type* old_buckets = d_buckets;
 				value_node_type* old_values = d_values;
-				size_t old_hash_mask = d_hash_mask;
+				size_t old_hash_mask = AtomicLoad(d_hash_mask);
 
 				// Affect new buckets
 				d_next_target = static_cast<size_t>(static_cast<double>((new_hash_mask + 1) * node_type::size) * static_cast<double>(d_data->max_load_factor()));
@@ -938,26 +939,27 @@ namespace seq
 				new_hash_mask >>= node_type::shift;
 				if (new_hash_mask > max_hash_mask)
 					new_hash_mask = max_hash_mask;
-				if (new_hash_mask != d_hash_mask)
+				if (new_hash_mask != AtomicLoad(d_hash_mask))
 					rehash_internal(static_cast<size_t>(new_hash_mask), false);
 			}
 			void rehash_on_next_target(size_t s)
 			{
-				if (d_hash_mask < max_hash_mask && (!is_concurrent || !d_in_rehash.load(std::memory_order_relaxed)))
-					rehash_internal(s == 0 ? 0u : static_cast<size_t>((d_hash_mask + 1ull) * 2ull - 1ull), true);
+				if (AtomicLoad(d_hash_mask) < max_hash_mask && (!is_concurrent || !d_in_rehash.load(std::memory_order_relaxed)))
+					rehash_internal(s == 0 ? 0u : static_cast<size_t>((AtomicLoad(d_hash_mask) + 1ull) * 2ull - 1ull), true);
 			}
 			SEQ_CONCURRENT_INLINE void rehash_on_insert()
 			{
 				// Rehash on insert
 				size_t s = AtomicLoad(d_size);
-				if SEQ_UNLIKELY ((s >= d_next_target) && (d_buckets == get_static_node() || AtomicLoad(d_chain_count) > ((d_hash_mask + 1) >> 5)))
+				size_t target = AtomicLoad(d_next_target); // null without bucket
+				if SEQ_UNLIKELY ((s >= target) && (target == 0 || AtomicLoad(d_chain_count) > ((AtomicLoad(d_hash_mask) + 1) >> 5)))
 					// delay rehash as long as there are few chains
 					rehash_on_next_target(s);
 			}
 
 			SEQ_NOINLINE(auto) update_lock(lock_array* locks, size_t hash, size_t& hash_mask, size_t& pos, node_lock*& l)
 			{
-				hash_mask = d_hash_mask;
+				hash_mask = AtomicLoad(d_hash_mask);
 				if (((hash & hash_mask) != pos)) {
 					pos = (hash & hash_mask);
 					l->unlock();
@@ -967,7 +969,7 @@ namespace seq
 			}
 			SEQ_NOINLINE(auto) update_lock_shared(lock_array* locks, size_t hash, size_t& hash_mask, size_t& pos, node_lock*& l) const
 			{
-				hash_mask = d_hash_mask;
+				hash_mask = AtomicLoad(d_hash_mask);
 				if (((hash & hash_mask) != pos)) {
 					pos = (hash & hash_mask);
 					l->unlock_shared();
@@ -996,7 +998,7 @@ namespace seq
 						return this->template get_node<WaitForBucket>(locks, hash, l);
 					}
 					if (!WaitForBucket || d_buckets != get_static_node())
-						return (hash & d_hash_mask);
+						return (hash & AtomicLoad(d_hash_mask));
 					// No bucket (yet, or anymore)
 					l->unlock();
 					make_first_bucket();
@@ -1009,11 +1011,11 @@ namespace seq
 					return this->template get_node_global_lock<WaitForBucket>(locks, hash, l);
 				// Returns node locked for given hash value
 				for (;;) {
-					size_t hash_mask = d_hash_mask;
+					size_t hash_mask = AtomicLoad(d_hash_mask);
 					size_t pos = hash & hash_mask;
 					l = &locks->at(pos);
 					this->lock(*l);
-					while (hash_mask != d_hash_mask)
+					while (hash_mask != AtomicLoad(d_hash_mask))
 						update_lock(locks, hash, hash_mask, pos, l);
 					if SEQ_LIKELY (!WaitForBucket || d_buckets != get_static_node())
 						return pos;
@@ -1031,18 +1033,18 @@ namespace seq
 					l->unlock_shared();
 					return get_node_shared(locks, hash, l);
 				}
-				return (hash & d_hash_mask);
+				return (hash & AtomicLoad(d_hash_mask));
 			}
 			SEQ_CONCURRENT_INLINE auto get_node_shared(lock_array* locks, size_t hash, node_lock*& l) const -> size_t
 			{
 				if SEQ_UNLIKELY (!locks)
 					return get_node_shared_global_lock(locks, hash, l);
 				// Returns node locked for given hash value
-				size_t hash_mask = d_hash_mask;
+				size_t hash_mask = AtomicLoad(d_hash_mask);
 				size_t pos = hash & hash_mask;
 				l = &locks->at(pos);
 				this->lock_shared(*l);
-				while (hash_mask != d_hash_mask)
+				while (hash_mask != AtomicLoad(d_hash_mask))
 					update_lock_shared(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
@@ -1060,7 +1062,7 @@ namespace seq
 				if constexpr (is_concurrent)
 					pos = this->template get_node<true>(AtomicLoad(d_locks), hash, ll);
 				else
-					pos = (hash & d_hash_mask);
+					pos = (hash & AtomicLoad(d_hash_mask));
 				// Grad lock
 				LockUnique<node_lock> lock(ll, true);
 
@@ -1242,7 +1244,7 @@ namespace seq
 			SEQ_CONCURRENT_INLINE auto load_factor() const noexcept -> float
 			{
 				// Returns the current load factor
-				size_t bucket_count = d_buckets != get_static_node() ? d_hash_mask + 1u : 0u;
+				size_t bucket_count = AtomicLoad(d_next_target) != 0 ? AtomicLoad(d_hash_mask) + 1u : 0u;
 				return size() == 0 ? 0.f : static_cast<float>(size()) / static_cast<float>(bucket_count * node_type::size);
 			}
 			/// @brief Reserve enough space in the hash table
@@ -1265,12 +1267,12 @@ namespace seq
 			SEQ_CONCURRENT_INLINE size_t visit_hash(size_t hash, const K& key, F&& f) const
 			{
 				node_lock* lock = nullptr;
-				// size_t pos = is_concurrent ? get_node_shared(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
+				// size_t pos = is_concurrent ? get_node_shared(AtomicLoad(d_locks), hash, lock) : (hash & AtomicLoad(d_hash_mask));
 				size_t pos;
 				if constexpr (is_concurrent)
 					pos = get_node_shared(AtomicLoad(d_locks), hash, lock);
 				else
-					pos = (hash & d_hash_mask);
+					pos = (hash & AtomicLoad(d_hash_mask));
 
 				LockShared<node_lock> ll(lock, true);
 				return FindInNode<extract_key>(node_type::tiny_hash(hash), d_data->key_eq(), key, d_buckets + pos, d_values + pos, std::forward<F>(f));
@@ -1279,12 +1281,12 @@ namespace seq
 			SEQ_CONCURRENT_INLINE size_t visit_hash(size_t hash, const K& key, F&& f)
 			{
 				node_lock* lock = nullptr;
-				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
+				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & AtomicLoad(d_hash_mask));
 				size_t pos;
 				if constexpr (is_concurrent)
 					pos = this->template get_node<false>(AtomicLoad(d_locks), hash, lock);
 				else
-					pos = (hash & d_hash_mask);
+					pos = (hash & AtomicLoad(d_hash_mask));
 				LockUnique<node_lock> ll(lock, true);
 				return FindInNode<extract_key>(node_type::tiny_hash(hash), d_data->key_eq(), key, d_buckets + pos, d_values + pos, std::forward<F>(f));
 			}
@@ -1300,7 +1302,7 @@ namespace seq
 				if (d_buckets == get_static_node())
 					return true;
 
-				size_t count = d_hash_mask + 1u;
+				size_t count = AtomicLoad(d_hash_mask) + 1u;
 				lock_array* locks = AtomicLoad(d_locks);
 				auto iter = typename lock_array::iterator(locks);
 				for (size_t i = 0; i < count; ++i) {
@@ -1326,7 +1328,7 @@ namespace seq
 				if (d_buckets == get_static_node())
 					return true;
 
-				size_t count = d_hash_mask + 1u;
+				size_t count = AtomicLoad(d_hash_mask) + 1u;
 				lock_array* locks = AtomicLoad(d_locks);
 				auto iter = typename lock_array::iterator(locks);
 				for (size_t i = 0; i < count; ++i) {
@@ -1393,12 +1395,12 @@ namespace seq
 			SEQ_CONCURRENT_INLINE auto erase_key(size_t hash, F&& fun, const K& key) -> size_t
 			{
 				node_lock* lock = nullptr;
-				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
+				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & AtomicLoad(d_hash_mask));
 				size_t pos;
 				if constexpr (is_concurrent)
 					pos = this->template get_node<false>(AtomicLoad(d_locks), hash, lock);
 				else
-					pos = (hash & d_hash_mask);
+					pos = (hash & AtomicLoad(d_hash_mask));
 
 				LockUnique<node_lock> ll(lock, true);
 
@@ -1436,7 +1438,7 @@ namespace seq
 					return 0;
 
 				lock_array* locks = AtomicLoad(d_locks);
-				size_t count = d_hash_mask + 1u;
+				size_t count = AtomicLoad(d_hash_mask) + 1u;
 				size_t res = 0;
 				auto iter = typename lock_array::iterator(locks);
 
@@ -1495,7 +1497,7 @@ namespace seq
 					return;
 
 				lock_array* locks = AtomicLoad(d_locks);
-				size_t count = d_hash_mask + 1;
+				size_t count = AtomicLoad(d_hash_mask) + 1;
 
 				if (is_concurrent && locks) {
 					// lock all buckets
@@ -1508,7 +1510,8 @@ namespace seq
 				destroy_buckets(d_buckets, d_values, count);
 				d_buckets = get_static_node();
 				d_values = nullptr;
-				d_size = d_next_target = 0;
+				d_size = 0;
+				d_next_target = 0;
 				d_hash_mask = 0;
 
 				if (is_concurrent && locks) {
-- 
2.43.0


From 9370d798a0df587acf877b1229f6b11fc425961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 013/129] fix: concurrent tables: mutable visit_all() stops
 when the functor returns false

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index b1b45e3..1a577f1 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -487,7 +487,7 @@ namespace seq
 			bool for_each_until(ConcurrentValueNode<T>* n, F&& f) noexcept(noexcept(std::forward<F>(f)(std::declval<std::uint8_t*>(), 0, std::declval<T&>())))
 			{
 				return static_cast<const ConcurrentHashNode*>(this)->for_each_until(
-				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
+				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { return std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
 			}
 		};
 
-- 
2.43.0


From 5b4cf639efd8fd67ab6767f4fe151432f5ff186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 014/129] fix: concurrent tables: load_factor() is never
 infinite

The table might get its first buckets between the two reads.
---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 1a577f1..b171d01 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1245,7 +1245,7 @@ namespace seq
 			{
 				// Returns the current load factor
 				size_t bucket_count = AtomicLoad(d_next_target) != 0 ? AtomicLoad(d_hash_mask) + 1u : 0u;
-				return size() == 0 ? 0.f : static_cast<float>(size()) / static_cast<float>(bucket_count * node_type::size);
+				return bucket_count == 0 ? 0.f : static_cast<float>(size()) / static_cast<float>(bucket_count * node_type::size);
 			}
 			/// @brief Reserve enough space in the hash table
 			void reserve(size_t size)
-- 
2.43.0


From 93c91633d2065b51672c3845e68d7d15ca29a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 015/129] fix: devector::resize_front() leaked the previous
 storage

---
 seq/devector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..9c8ac5e 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -487,6 +487,9 @@ namespace seq
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From 6027045fdab221614b7cddc2917a75d308bcb395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 016/129] fix: devector::resize() and resize_front() destroy
 the new elements when moving the previous ones throws

---
 seq/devector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 9c8ac5e..18a6ec4 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -425,6 +425,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start);
 						}
 						catch (...) {
+							destroy_range(_new_start + size, _new_end);
 							deallocate(_new, _new_capacity);
 							throw;
 						}
@@ -484,6 +485,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start + (new_size - size));
 						}
 						catch (...) {
+							destroy_range(_new, _new + (new_size - size));
 							deallocate(_new, _new_capacity);
 							throw;
 						}
-- 
2.43.0


From 8f7ace468e50cc5d668f45e5e0bb22e65d12e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 017/129] fix: devector::push_back() and push_front() of one of
 its own elements when data are moved within the storage

---
 seq/devector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 18a6ec4..e6aca04 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -520,10 +520,11 @@ namespace seq
 				{
 					// Front capacity is greater than current size:
 					// move data to front
+					T tmp(std::forward<Args>(args)...); // handle aliasing and exceptions
 					copy_destroy_input(start, end, data);
 					start = data;
 					end = data + size;
-					construct_ptr(end, std::forward<Args>(args)...);
+					construct_ptr(end, std::move(tmp));
 					return;
 				}
 
@@ -574,10 +575,11 @@ namespace seq
 				if (static_cast<size_t>((capacity - size)) > size) {
 					// Back capacity is greater than current size:
 					// move data to back
+					T tmp(std::forward<Args>(args)...); // handle aliasing and exceptions
 					copy_destroy_input(start, end, data + (capacity - size));
 					start = data + (capacity - size);
 					end = data + capacity;
-					construct_ptr(start-1, std::forward<Args>(args)...);
+					construct_ptr(start-1, std::move(tmp));
 					return;
 				}
 				
-- 
2.43.0


From baf022f6d713ce71a50c96d9b0f41780dba46a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 018/129] fix: devector::emplace() on the left side of
 relocatable elements destroyed one element twice and leaked another

---
 seq/devector.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index e6aca04..4aa4fa5 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -854,13 +854,16 @@ namespace seq
 
 			if (dist < size() / 2) {
 				// insert on the left side
-				T tmp = T(std::forward<Args>(args)...); //handle aliasing
-				emplace_front();
-				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>)
+				emplace_front(std::forward<Args>(args)...);
+				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>) {
+					// relocate the new value and the ones on its left
+					alignas(T) unsigned char tmp[sizeof(T)];
+					memcpy(tmp, static_cast<void*>(begin()), sizeof(T));
 					memmove(static_cast<void*>(begin()), static_cast<void*>(begin() + 1), dist * sizeof(T));
+					memcpy(static_cast<void*>(begin() + dist), tmp, sizeof(T));
+				}
 				else
-					std::move(begin() + 1, begin() + 1 + dist, begin());
-				*(begin() + dist) = std::move(tmp);
+					std::rotate(begin(), begin() + 1, begin() + 1 + dist);
 			}
 			else {
 				// insert on the right side
-- 
2.43.0


From 9f0a78b4dbe38537b589decfa98b25bca1ceb072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 019/129] fix: devector::reserve_back() destroyed elements
 twice when a move throws

---
 seq/devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 4aa4fa5..f35cda6 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -200,6 +200,7 @@ namespace seq
 
 				if (dst < first) {
 					T* saved = dst;
+					T* saved_first = first;
 
 					try {
 						// Construct first part
@@ -220,7 +221,7 @@ namespace seq
 					}
 					catch (...) {
 						// destroy previously created values (first part only, before first)
-						while (saved != dst && saved != first) {
+						while (saved != dst && saved != saved_first) {
 							destroy_ptr(saved++);
 						}
 						throw;
-- 
2.43.0


From cb9c2ffc4c0b5245f368aa3028bc7b4f424b8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 020/129] fix: tiered_vector: a failed construction or copy
 reports its exception

---
 seq/tiered_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..1dbe84e 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2680,6 +2680,7 @@ namespace seq
 			}
 			catch (...) {
 				alloc.deallocate(res, 1);
+				throw;
 			}
 			return res;
 		}
-- 
2.43.0


From 58e0fb6d2def26cb927f8008b734d807dcb6de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 021/129] fix: tiered_vector: changing the bucket size leaves
 valid containers and leaks nothing when it throws

---
 seq/tiered_vector.hpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 1dbe84e..2395f23 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1316,6 +1316,20 @@ namespace seq
 			cbuffer_pos d_bucket_size1;	// used for fast random access, single bucket size - 1
 			cbuffer_pos d_bucket_size_bits; // used for fast random access, single bucket size log2
 
+			// Destroy the content of managers if left with an exception
+			struct DestroyGuard
+			{
+				this_type* self;
+				this_type* other;
+				~DestroyGuard() noexcept
+				{
+					if (self)
+						self->destroy_all();
+					if (other)
+						other->destroy_all();
+				}
+			};
+
 			// Update back value for all buckets
 			void update_all_back_values() noexcept
 			{
@@ -1383,6 +1397,9 @@ namespace seq
 				SEQ_ASSERT_DEBUG(start < other.size(), "invalid start position");
 				SEQ_ASSERT_DEBUG(start + full_size <= other.size(), "invalid end position");
 
+				// Destroy created buckets in case of exception
+				DestroyGuard guard{ this, nullptr };
+
 				// Get new bucket count
 				size_type bucket_count = full_size / static_cast<size_t>(new_bucket_size) + (full_size % static_cast<size_t>(new_bucket_size) ? 1 : 0);
 
@@ -1438,6 +1455,8 @@ namespace seq
 					}
 				}
 
+				guard.self = nullptr;
+
 				// Update back values if necessary
 				update_all_back_values();
 			}
@@ -1465,6 +1484,10 @@ namespace seq
 				size_type bucket_count = full_size / static_cast<size_type>(new_bucket_size) + ((full_size % static_cast<size_type>(new_bucket_size)) ? 1 : 0);
 				if (bucket_count == 0)
 					return;
+
+				// Destroy created buckets in case of exception
+				DestroyGuard guard{ this, nullptr };
+
 				if (bucket_count == 1) {
 					// Fill front buffer
 					BucketType* current = create_front_bucket();
@@ -1473,6 +1496,8 @@ namespace seq
 					for (size_type i = start; i < start + full_size; ++i, ++d_size)
 						current->emplace_back(std::move(other.at(i)));
 
+					guard.self = nullptr;
+
 					// Destroy/deallocate the content of other
 					other.destroy_all();
 
@@ -1486,6 +1511,11 @@ namespace seq
 
 				size_t bindex = other.bucket_index(start);
 				size_t front_size = static_cast<size_t>(other.d_buckets[0]->size);
+
+				// Create first bucket, may throw. From now on, other is cleared in case of exception.
+				BucketType* current = create_back_bucket();
+				guard.other = &other;
+
 				// destroy buckets before
 				if (bindex) {
 					for (size_t i = 0; i < bindex; ++i) {
@@ -1497,7 +1527,8 @@ namespace seq
 				while (pos < end_pos) {
 
 					// Create bucket, may throw
-					BucketType* current = create_back_bucket();
+					if (pos != start)
+						current = create_back_bucket();
 					T* ptr = current->buffer();
 					// Compute end
 					size_type end = pos + static_cast<size_t>(new_bucket_size);
@@ -1522,7 +1553,6 @@ namespace seq
 						for (T* p = current->buffer(); p != ptr; ++p)
 							destroy_ptr(p);
 						this->remove_back_bucket();
-						other.destroy_all();
 						throw;
 					}
 
@@ -1549,6 +1579,9 @@ namespace seq
 					}
 				}
 				other.d_buckets.clear();
+				other.d_size = 0;
+
+				guard.self = guard.other = nullptr;
 
 				// Update back values if necessary
 				update_all_back_values();
@@ -1596,6 +1629,7 @@ namespace seq
 						destroy_bucket(it->bucket);
 				}
 				d_buckets.clear();
+				d_size = 0;
 			}
 
 			// Move copy
-- 
2.43.0


From 94539620f7593ff8ec035659305723a470bd34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 022/129] fix: tiered_vector: constructors that throw release
 their storage

---
 seq/tiered_vector.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 2395f23..be54198 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2892,8 +2892,7 @@ namespace seq
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2901,8 +2900,7 @@ namespace seq
 		/// @param count new tiered_vector size
 		/// @param alloc allocator object
 		explicit tiered_vector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count);
 		}
@@ -2938,8 +2936,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(tiered_vector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_manager, other.d_manager);
@@ -2953,8 +2950,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param alloc allocator object
 		tiered_vector(const std::initializer_list<T>& lst, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -2965,8 +2961,7 @@ namespace seq
 		/// @param alloc allocator object
 		template<class Iter>
 		tiered_vector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From 18df0af3d26a5db6d0aca80d82872cba39a62989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 023/129] fix: tiered_vector: build the inserted value before
 moving elements

---
 seq/tiered_vector.hpp | 120 +++++++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 54 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index be54198..1f8c135 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -815,8 +815,18 @@ namespace seq
 					construct_ptr(&(*this)[size]);
 				// move elems after pos
 				++size;
-				// Might throw, fine since no more values are constructed/destructed
-				move_right_1(pos);
+				if constexpr (noexcept(this->move_right_1(pos)))
+					move_right_1(pos);
+				else {
+					try {
+						move_right_1(pos);
+					}
+					catch (...) {
+						// Remove the additional element
+						pop_back();
+						throw;
+					}
+				}
 				// Non optimized way:
 				// for (cbuffer_pos i = size - 1; i > pos; --i)
 				//	(*this)[i] = std::move((*this)[i - 1]);
@@ -829,18 +839,63 @@ namespace seq
 				if (--begin < 0)
 					begin = max_size1;
 				++size;
-				// Might throw, fine since no more values are constructed/destructed
-				move_left_1(pos + 1);
+				if constexpr (noexcept(this->move_left_1(pos)))
+					move_left_1(pos + 1);
+				else {
+					try {
+						move_left_1(pos + 1);
+					}
+					catch (...) {
+						// Remove the additional element
+						pop_front();
+						throw;
+					}
+				}
 				// Non optimized way:
 				// for (cbuffer_pos i = 0; i < pos -1; ++i)
 				//	(*this)[i] = std::move((*this)[i + 1]);
 			}
 
+			// New value to be stored in the middle of the buffer
+			struct NewValue
+			{
+				alignas(T) char storage[sizeof(T)];
+				bool stored = false;
+
+				template<class... Args>
+				SEQ_ALWAYS_INLINE explicit NewValue(Args&&... args)
+				{
+					construct_ptr(get(), std::forward<Args>(args)...);
+				}
+				NewValue(const NewValue&) = delete;
+				NewValue& operator=(const NewValue&) = delete;
+				SEQ_ALWAYS_INLINE ~NewValue() noexcept
+				{
+					if (!stored)
+						destroy_ptr(get());
+				}
+				SEQ_ALWAYS_INLINE auto get() noexcept -> T* { return reinterpret_cast<T*>(storage); }
+				// Store the value at given location, which must be raw memory for relocatable types.
+				SEQ_ALWAYS_INLINE void store(T* dst) noexcept(std::is_nothrow_move_assignable_v<T> || relocatable)
+				{
+					if constexpr (relocatable) {
+						memcpy(static_cast<void*>(dst), static_cast<const void*>(storage), sizeof(T));
+						stored = true;
+					}
+					else
+						*dst = std::move(*get());
+				}
+			};
+
 			// Insert value at given position. Only works if the buffer is not full.
 			template<class... Args>
 			auto emplace(cbuffer_pos pos, Args&&... args) -> T*
 			{
 				SEQ_ASSERT_DEBUG(size != max_size_, "cannot insert in a full circular buffer");
+
+				// Build the new value first: it might throw, or be built from an element of this buffer
+				NewValue value(std::forward<Args>(args)...);
+
 				if (pos > size / 2) {
 					move_right(pos);
 				}
@@ -849,23 +904,7 @@ namespace seq
 				}
 
 				T* res = &(*this)[pos];
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(res, std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos + 1; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos;
-						throw;
-					}
-				}
-				else {
-					// For non relocatable types, use move assignment to provide basic exception guarantee
-					*res = T(std::forward<Args>(args)...);
-				}
-
+				value.store(res);
 				return res;
 			}
 
@@ -878,6 +917,8 @@ namespace seq
 			auto insert_pop_back(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != max_size(), "invalid insertion position");
+				// Build the new value first: it might throw, or be built from an element of this buffer
+				NewValue value(std::forward<Args>(args)...);
 				// move elems after pos
 				T* p = &(*this)[size - 1];
 				// Might throw, fine
@@ -895,22 +936,7 @@ namespace seq
 					move_left_1(pos + 1);
 				}
 
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(&(*this)[pos], std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos + 1; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos;
-						throw;
-					}
-				}
-				else {
-					// For non relocatable types, use move assignment to provide basic exception guarantee
-					(*this)[pos] = T(std::forward<Args>(args)...);
-				}
+				value.store(&(*this)[pos]);
 
 				return res;
 			}
@@ -919,6 +945,8 @@ namespace seq
 			auto insert_pop_front(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != 0, "invalid insertion position");
+				// Build the new value first: it might throw, or be built from an element of this buffer
+				NewValue value(std::forward<Args>(args)...);
 				// move elems after pos
 				T* p = &(*this)[0];
 				// Might throw, fine
@@ -935,23 +963,7 @@ namespace seq
 					move_right_1(pos - 1);
 				}
 
-				p = &(*this)[pos - 1];
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(p, std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos - 1;
-						throw;
-					}
-				}
-				else {
-					// For non relocatable types, use move assignment to provide basic exception guarantee
-					*p = T(std::forward<Args>(args)...);
-				}
+				value.store(&(*this)[pos - 1]);
 
 				return res;
 			}
-- 
2.43.0


From 124188bbb29814cc6408283aaf167eac263b62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 024/129] fix: tiered_vector: a failed insertion leaves no
 empty bucket behind

---
 seq/tiered_vector.hpp | 45 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 1f8c135..df136f1 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1912,6 +1912,12 @@ namespace seq
 				destroy_bucket(d_buckets.front().bucket);
 				d_buckets.erase(d_buckets.begin());
 			}
+			// Remove the last bucket if left empty by a failed insertion
+			void remove_empty_back_bucket() noexcept
+			{
+				if (d_buckets.size() > 1 && d_buckets.back()->size == 0)
+					remove_back_bucket();
+			}
 			// Make sure at least one bucket is present
 			SEQ_ALWAYS_INLINE void ensure_has_bucket()
 			{
@@ -1931,7 +1937,14 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size) {
 					bucket = create_back_bucket();
 				}
-				T* ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				T* ptr = nullptr;
+				try {
+					ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					remove_empty_back_bucket();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.back().update();
 				d_size++;
@@ -1951,7 +1964,15 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size)
 					bucket = create_front_bucket();
 
-				T* res = bucket->emplace_front(std::forward<Args>(args)...);
+				T* res = nullptr;
+				try {
+					res = bucket->emplace_front(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					if (bucket->size == 0 && d_buckets.size() > 1)
+						remove_front_bucket();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.front().update();
 				d_size++;
@@ -1969,7 +1990,17 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					res = create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					T tmp = d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...);
+					if (StoreBackValues)
+						d_buckets[0].update();
+					BucketType* last = create_back_bucket();
+					try {
+						res = last->emplace_back(std::move(tmp));
+					}
+					catch (...) {
+						remove_empty_back_bucket();
+						throw;
+					}
 					if (StoreBackValues) {
 						d_buckets.back().update();
 						d_buckets[0].update();
@@ -2122,7 +2153,13 @@ namespace seq
 						if (StoreBackValues)
 							d_buckets.back().update();
 						bucket = create_back_bucket();
-						bucket->emplace_front(std::move(tmp));
+						try {
+							bucket->emplace_front(std::move(tmp));
+						}
+						catch (...) {
+							remove_empty_back_bucket();
+							throw;
+						}
 						if (StoreBackValues)
 							d_buckets.back().update();
 					}
-- 
2.43.0


From bcf683d692380eda625d5e3d8b1d4cc5061aa113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 025/129] fix: tiered_vector: erasing keeps the buckets full
 when a move throws

---
 seq/tiered_vector.hpp | 114 ++++++++++++++++++------------------------
 1 file changed, 49 insertions(+), 65 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index df136f1..50fa49b 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1040,83 +1040,65 @@ namespace seq
 				}
 			}
 
-			// Erase element at given position and push back value
+			// Erase element at given position, and move the free location to the back of the buffer (as it is full, this is also just before the front).
+			// The free location contains a moved-from element for non relocatable types and raw memory otherwise.
+			// Only works for filled array.
 			// This function might throw, but always leave the buffer in a valid state
-			void erase_push_back(cbuffer_pos pos, T&& value)
+			void erase_make_room(cbuffer_pos pos) noexcept(std::is_nothrow_move_assignable_v<T> || relocatable)
 			{
-				// for relocatable type, destroy value at pos since it will be memcpied over
-				if constexpr (relocatable)
-					destroy_ptr(&(*this)[pos]);
-
-				if (pos > size / 2) {
+				SEQ_ASSERT_DEBUG(isFull(), "circular buffer must be full");
+				struct RestoreSize
+				{
+					cbuffer_pos& size;
+					~RestoreSize() noexcept { ++size; }
+				} restore{ size };
+				--size;
+				if (pos > size / 2)
 					// move elems after pos
-					try {
-						--size;
-						move_erase_right_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
+					move_erase_right_1(pos);
+				else {
+					// move elems before pos
+					move_erase_left_1(pos);
+					begin = (begin + 1) & (max_size1);
+				}
+			}
 
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[size]);
+			// Erase element at given position and push back value. Only works for filled array.
+			// This function might throw, but always leave the buffer in a valid state
+			void erase_push_back(cbuffer_pos pos, T&& value)
+			{
+				if constexpr (relocatable) {
+					// Might throw, fine
+					NewValue val(std::move(value));
+					// destroy value at pos since it will be memcpied over
+					destroy_ptr(&(*this)[pos]);
+					erase_make_room(pos);
+					val.store(&back());
 				}
 				else {
-					// move elems after pos
-					try {
-						--size; // decrement size
-						move_erase_left_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[0]);
-					begin = (begin + 1) & (max_size1); // increment begin
+					// Might throw, fine since no more values are constructed/destructed
+					erase_make_room(pos);
+					back() = std::move(value);
 				}
-
-				construct_ptr(&at(size), std::move(value));
-				size++;
 			}
 
 			void erase_push_front(cbuffer_pos pos, T&& value)
 			{
-				// for relocatable type, destroy value at pos since it will be memcpied over
-				if constexpr (relocatable)
+				if constexpr (relocatable) {
+					// Might throw, fine
+					NewValue val(std::move(value));
+					// destroy value at pos since it will be memcpied over
 					destroy_ptr(&(*this)[pos]);
-
-				if (pos > size / 2) {
-					// move elems after pos
-					try {
-						--size;
-						move_erase_right_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[size]);
+					erase_make_room(pos);
+					begin = (begin ? begin : max_size_) - 1;
+					val.store(&front());
 				}
 				else {
-					// move elems after pos
-					try {
-						--size; // decrement size
-						move_erase_left_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[0]);
-					begin = (begin + 1) & (max_size1); // increment begin
+					// Might throw, fine since no more values are constructed/destructed
+					erase_make_room(pos);
+					begin = (begin ? begin : max_size_) - 1;
+					front() = std::move(value);
 				}
-				// Might throw, fine
-				emplace_front(std::move(value));
 			}
 
 			// Erase value at given position.
@@ -2258,9 +2240,6 @@ namespace seq
 			{
 				// shift left values
 				T tmp = std::move((d_buckets.front().bucket)->back());
-				d_buckets.front().bucket->pop_back();
-				if (StoreBackValues)
-					d_buckets.front().update();
 
 				for (size_type i = 1; i < bucket_index; ++i) {
 					// Might throw, fine
@@ -2274,9 +2253,14 @@ namespace seq
 
 				if (StoreBackValues)
 					d_buckets[bucket_index].update();
+
+				// No throw
+				d_buckets.front()->pop_back();
 				if (d_buckets.front()->size == 0 && d_buckets.size() > 1) {
 					remove_front_bucket();
 				}
+				else if (StoreBackValues)
+					d_buckets.front().update();
 			}
 			SEQ_ALWAYS_INLINE void erase_right(size_type bucket_index, int index)
 			{
-- 
2.43.0


From 110fddd0dd736405c8be34242edf4f788af1acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 026/129] fix: tiered_vector: resize_front() removes the new
 elements when one of them throws

---
 seq/tiered_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 50fa49b..15bb962 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -715,8 +715,9 @@ namespace seq
 			template<class Helper>
 			void push_front_n(cbuffer_pos n, const Helper& helper)
 			{
+				cbuffer_pos i = 0;
 				try {
-					for (cbuffer_pos i = 0; i < n; ++i) {
+					for (; i < n; ++i) {
 						if (--begin < 0)
 							begin = max_size1;
 						helper.construct(buffer() + begin);
@@ -725,6 +726,8 @@ namespace seq
 				}
 				catch (...) {
 					begin = (begin + 1) & max_size1;
+					// Make sure to destroy constructed values
+					pop_front_n(i);
 					throw;
 				}
 			}
-- 
2.43.0


From 8ba80b4bc5e225dc962020651be2082a8f46631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 027/129] fix: tiered_vector: adding 0 to an end iterator reads
 no bucket

---
 seq/tiered_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 15bb962..33b3f49 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -112,6 +112,9 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE void offset(difference_type diff) noexcept
 			{
+				// Valid for all iterators, including the ones of an empty container and the end iterators
+				if (diff == 0)
+					return;
 				auto idx = indexes.second + diff;
 				if (idx >= 0 && idx < mgr->d_buckets[static_cast<size_t>(indexes.first)].bucket->size) {
 					indexes.second = static_cast<int>(idx);
-- 
2.43.0


From a6f62630c97af42271a36db9efed5520289dd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 028/129] fix: tiered_vector: sorting keeps the container size
 when a move throws

---
 seq/tiered_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 33b3f49..337c783 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2527,9 +2527,9 @@ namespace seq
 					// If the back bucket is not full, make it start at 0
 					auto* bucket = d_buckets.back().bucket;
 					while (bucket->begin != 0) {
-						T tmp = std::move(bucket->back());
+						// Might throw, fine
+						bucket->emplace_front(std::move(bucket->back()));
 						bucket->pop_back();
-						bucket->emplace_front(std::move(tmp));
 					}
 				}
 
-- 
2.43.0


From a99cd3fca5b4fe580840fdabd7eabfdcf122d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 029/129] fix: tiered_vector: inserting one of its own elements
 when the bucket size changes

---
 seq/tiered_vector.hpp | 93 +++++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 35 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 337c783..448833e 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2770,17 +2770,60 @@ namespace seq
 		// Make the manager a pointer to keep iterator validity in case of swap
 		bucket_manager* d_manager;
 
-		// Update the bucket size if necessary, used when inserting/deleting single elements
-		SEQ_ALWAYS_INLINE void update_bucket_size()
+		// Returns true if the bucket size might need an update, used when inserting/deleting single elements
+		SEQ_ALWAYS_INLINE auto need_bucket_size_check() const noexcept -> bool
 		{
 			static constexpr size_t minb = static_cast<size_t>(min_block_size);
 			static constexpr size_t maxb = static_cast<size_t>(max_block_size);
 			static constexpr size_t mul_factor = (minb < 8U) ? 8U : minb;
 			static constexpr size_t mask = (mul_factor * mul_factor) - 1ULL;
 			// Check the bucket size every (min_block_size * min_block_size) insertions/deletions
-			if SEQ_UNLIKELY (min_block_size != maxb && (size() < 64U || (size() & mask) == 0))
+			return min_block_size != maxb && (size() < 64U || (size() & mask) == 0);
+		}
+		// Update the bucket size if necessary, used when deleting single elements
+		SEQ_ALWAYS_INLINE void update_bucket_size()
+		{
+			if SEQ_UNLIKELY (need_bucket_size_check())
 				check_bucket_size();
 		}
+		// Update the bucket size if necessary and insert a single element using fun
+		template<class Fun, class... Args>
+		SEQ_ALWAYS_INLINE auto insert_single(Fun fun, Args&&... args) -> T&
+		{
+			make_manager_if_null();
+			if SEQ_UNLIKELY (need_bucket_size_check() && findBSize(size()) != manager()->bucket_size()) {
+				// All elements are going to move, and the new one might be built from one of them
+				T tmp(std::forward<Args>(args)...);
+				set_bucket_size(findBSize(size()));
+				return fun(*manager(), std::move(tmp));
+			}
+			return fun(*manager(), std::forward<Args>(args)...);
+		}
+		struct PushBack
+		{
+			template<class... Args>
+			SEQ_ALWAYS_INLINE auto operator()(bucket_manager& m, Args&&... args) const -> T&
+			{
+				return m.emplace_back(std::forward<Args>(args)...);
+			}
+		};
+		struct PushFront
+		{
+			template<class... Args>
+			SEQ_ALWAYS_INLINE auto operator()(bucket_manager& m, Args&&... args) const -> T&
+			{
+				return m.emplace_front(std::forward<Args>(args)...);
+			}
+		};
+		struct InsertAt
+		{
+			size_type pos;
+			template<class... Args>
+			SEQ_ALWAYS_INLINE auto operator()(bucket_manager& m, Args&&... args) const -> T&
+			{
+				return m.insert(pos, std::forward<Args>(args)...);
+			}
+		};
 		// Find bucket size based on full tiered_vector size
 		auto findBSize(size_type size) const noexcept -> detail::cbuffer_pos
 		{
@@ -3192,9 +3235,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(value);
+			insert_single(PushBack{}, value);
 		}
 
 		/// @brief Appends the given element value to the end of the container using move semantic.
@@ -3202,9 +3243,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(std::move(value));
+			insert_single(PushBack{}, std::move(value));
 		}
 
 		/// @brief Appends a new element to the end of the container
@@ -3215,9 +3254,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace_back(Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->emplace_back(std::forward<Args>(args)...);
+			return insert_single(PushBack{}, std::forward<Args>(args)...);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container.
@@ -3225,9 +3262,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(value);
+			insert_single(PushFront{}, value);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container using move semantic.
@@ -3235,9 +3270,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(std::move(value));
+			insert_single(PushFront{}, std::move(value));
 		}
 
 		/// @brief Appends a new element to the beginning of the container
@@ -3248,9 +3281,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace_front(Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->emplace_front(std::forward<Args>(args)...);
+			return insert_single(PushFront{}, std::forward<Args>(args)...);
 		}
 
 		/// @brief Insert \a value before \a pos
@@ -3259,9 +3290,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, value);
+			insert_single(InsertAt{ pos }, value);
 		}
 
 		/// @brief Insert \a value before \a pos using move semantic.
@@ -3270,9 +3299,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, std::move(value));
+			insert_single(InsertAt{ pos }, std::move(value));
 		}
 
 		/// @brief Insert \a value before \a it
@@ -3304,9 +3331,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(size_type pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos, std::forward<Args>(args)...);
+			return insert_single(InsertAt{ pos }, std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts a new element into the container directly before \a pos.
@@ -3318,9 +3343,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(const_iterator pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos.absolutePos(), std::forward<Args>(args)...);
+			return insert_single(InsertAt{ pos.absolutePos() }, std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts elements from range [first, last) before pos.
@@ -3407,9 +3430,9 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE auto erase(const_iterator it) -> iterator
 		{
-			update_bucket_size();
 			size_type pos = it.absolutePos();
-			manager()->erase(it.absolutePos());
+			update_bucket_size();
+			manager()->erase(pos);
 			return iterator_at(pos);
 		}
 
-- 
2.43.0


From 9b57a69287a8431e6101d10b09c401be3181ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 030/129] fix: tiered_vector: for_each() and assign() of an
 empty range on an empty container

---
 seq/tiered_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 448833e..7cd6d89 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1653,6 +1653,8 @@ namespace seq
 			auto for_each(size_type start, size_type end, Functor fun) const -> Functor
 			{
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
@@ -1689,6 +1691,8 @@ namespace seq
 				// Construct/fill out using values from start to end
 
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
@@ -1725,6 +1729,8 @@ namespace seq
 			{
 				// Construct/fill out using values from start to end
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start, front_size);
 				size_type pos = static_cast<size_type>(bucket_pos(start, front_size));
 
-- 
2.43.0


From 5eba9eeda214ca304c8469e63913538d1a25b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 031/129] fix: tiered_vector: a failed copy does not assert
 that there is another bucket

---
 seq/tiered_vector.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 7cd6d89..7bd951a 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1436,7 +1436,6 @@ namespace seq
 							--ptr;
 							for (T* p = current->buffer(); p != ptr; ++p)
 								destroy_ptr(p);
-							this->remove_back_bucket();
 							throw;
 						}
 						size_type copied = end - pos;
@@ -1552,7 +1551,6 @@ namespace seq
 						--ptr;
 						for (T* p = current->buffer(); p != ptr; ++p)
 							destroy_ptr(p);
-						this->remove_back_bucket();
 						throw;
 					}
 
-- 
2.43.0


From 75fb10fc781da0bee47a75126293f70af001b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 032/129] fix: tiered_vector: emplace() returns the inserted
 element when its bucket was full

---
 seq/tiered_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 7bd951a..15b97c8 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1987,12 +1987,13 @@ namespace seq
 						d_buckets[0].update();
 					BucketType* last = create_back_bucket();
 					try {
-						res = last->emplace_back(std::move(tmp));
+						last->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						remove_empty_back_bucket();
 						throw;
 					}
+					res = &d_buckets[0]->at(index);
 					if (StoreBackValues) {
 						d_buckets.back().update();
 						d_buckets[0].update();
@@ -2028,7 +2029,7 @@ namespace seq
 					// Might throw, fine
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
 					try {
-						res = create_front_bucket()->emplace_back(std::move(tmp));
+						create_front_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// check if front buffer is empty
@@ -2040,6 +2041,7 @@ namespace seq
 						d_buckets[0].update();
 						d_buckets[1].update();
 					}
+					res = &at(pos);
 				}
 				else {
 					// we are going to loose value at index 0, save it
@@ -2105,7 +2107,7 @@ namespace seq
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
 					try {
-						res = create_back_bucket()->emplace_back(std::move(tmp));
+						create_back_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// Remove empty back bucket
@@ -2115,6 +2117,7 @@ namespace seq
 					}
 					if (StoreBackValues)
 						d_buckets.back().update();
+					res = &at(pos);
 				}
 				else {
 
-- 
2.43.0


From 782326442578488404ee4f1bda90aa8becb5b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 033/129] fix: inserting copies of a value: copying the value
 may throw

---
 seq/utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index 18b9f44..2880f28 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -270,7 +270,7 @@ namespace seq
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -282,7 +282,7 @@ namespace seq
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -307,13 +307,13 @@ namespace seq
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From ecbbd79260e2f846dbf2ec1018d923e062dcd2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 034/129] fix: tiered_vector: inserting keeps the bucket sizes
 consistent when the assignment of the new value throws

---
 seq/tiered_vector.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 15b97c8..38259dd 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -902,7 +902,8 @@ namespace seq
 				// Build the new value first: it might throw, or be built from an element of this buffer
 				NewValue value(std::forward<Args>(args)...);
 
-				if (pos > size / 2) {
+				const bool right = pos > size / 2;
+				if (right) {
 					move_right(pos);
 				}
 				else {
@@ -910,7 +911,21 @@ namespace seq
 				}
 
 				T* res = &(*this)[pos];
-				value.store(res);
+				if constexpr (noexcept(value.store(res)))
+					value.store(res);
+				else {
+					try {
+						value.store(res);
+					}
+					catch (...) {
+						// Remove the additional element
+						if (right)
+							pop_back();
+						else
+							pop_front();
+						throw;
+					}
+				}
 				return res;
 			}
 
-- 
2.43.0


From 7e0819b8ee8fdef66d90836d7256f0497f9ea882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 035/129] fix: flat_set/flat_map: insert() and operator= taking
 an initializer list compile

---
 seq/flat_map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..b859ac5 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -777,7 +777,7 @@ namespace seq
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
@@ -1630,7 +1630,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -2192,7 +2192,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
-- 
2.43.0


From bac9cb6b5b8b2b0b53a4ef1e9d96524b2e1335f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 036/129] fix: flat_set/flat_map: equal_range() of an absent
 key is empty

---
 seq/flat_map.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index b859ac5..2c1ba08 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -887,7 +887,7 @@ namespace seq
 				if (low == end())
 					return std::pair<iterator, iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<iterator, iterator>(low, (*this)(x, *low) ? low : low + 1);
 				iterator up = upper_bound(x);
 				return std::pair<iterator, iterator>(low, up);
 			}
@@ -896,11 +896,11 @@ namespace seq
 			{
 				const_iterator low = lower_bound(x);
 				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
+					return std::pair<const_iterator, const_iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<const_iterator, const_iterator>(low, (*this)(x, *low) ? low : low + 1);
 				const_iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				return std::pair<const_iterator, const_iterator>(low, up);
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range_pos(const K& x) const -> std::pair<size_t, size_t>
@@ -909,7 +909,7 @@ namespace seq
 				if (low == size())
 					return std::pair<size_t, size_t>(low, low);
 				if constexpr (Unique)
-					return std::pair<size_t, size_t>(low, low + 1);
+					return std::pair<size_t, size_t>(low, (*this)(x, d_deque[low]) ? low : low + 1);
 				size_t up = upper_bound_pos(x);
 				return std::pair<size_t, size_t>(low, up);
 			}
-- 
2.43.0


From f4f5fff4337d8f5d7652134db253dbb6f547067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 037/129] fix: flat_set/flat_map: assigning a range of input
 iterators compiles and reads each position once

---
 seq/flat_map.hpp | 51 ++++++++++++------------------------------------
 1 file changed, 13 insertions(+), 38 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 2c1ba08..7514fdd 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -444,54 +444,29 @@ namespace seq
 			template<class Iter, class Cat>
 			void assign_cat(Iter first, Iter last, Cat /*unused*/)
 			{
-				iterator it = d_deque.begin();
-				iterator en = d_deque.end();
 				bool sorted = true;
 				bool unique = true;
 
 				// Copy the range [first,last) to the tiered_vector using already allocated memory
-
-				Iter prev = first;
-				size_type count = 1;
-				if (d_deque.size() > 0) {
-					*it = *first;
-					++it;
-					++first;
-				}
-				else {
-					d_deque.push_back(*first);
-					++first;
-				}
-
-				while (it != en && first != last) {
-					*it = *first;
-					if (sorted) {
-						if ((*this)(*first, *prev))
+				size_type count = 0;
+				for (; first != last; ++first, ++count) {
+					if (count < d_deque.size())
+						d_deque[count] = *first;
+					else
+						d_deque.push_back(*first);
+
+					if (sorted && count) {
+						const value_type& prev = d_deque[count - 1];
+						const value_type& cur = d_deque[count];
+						if ((*this)(cur, prev))
 							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
+						else if (Unique && !(*this)(prev, cur))
 							unique = false;
 					}
-					++it;
-					prev = first;
-					++first;
-					++count;
-				}
-				while (first != last) {
-					push_back(*first);
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-						prev = first;
-					}
-
-					++first;
-					++count;
 				}
 
 				// Resize if the tiered_vector was bigger
-				resize(count);
+				d_deque.erase(count, d_deque.size());
 
 				// Sort if necessary, remove non unique values if necessary
 				if (!sorted)
-- 
2.43.0


From 3c98c536d6bf9cbf507d590507dc58de8c3725d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 038/129] fix: flat_set/flat_map: inserting a range of input
 iterators appends the values instead of writing past the end

---
 seq/flat_map.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 7514fdd..7b60e31 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -726,15 +726,11 @@ namespace seq
 					d_deque.resize(std::distance(first, last) + size_before);
 
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
 				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
 				else {
-					while (first != last) {
-						*dit = *first;
-						++first;
-						++dit;
-					}
+					for (; first != last; ++first)
+						d_deque.push_back(*first);
 				}
 
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
-- 
2.43.0


From 566e118fb7fb4cdd039a38a87e503a916dce577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 039/129] fix: flat_set/flat_map: merge() compiles for maps,
 multi containers and other comparators, and keeps lookups working

---
 seq/flat_map.hpp | 149 ++++++++++++++++++-----------------------------
 1 file changed, 57 insertions(+), 92 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 7b60e31..61a23d5 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -326,85 +326,6 @@ namespace seq
 			}
 		}
 
-		/**
-		 * \internal
-		 * Merge 2 sorted ranges into a single array (or tiered_vector).
-		 * the 2 sequences must be sorted without consecutive equal values.
-		 * This method is stable: if the 2 ranges contain equal values, only the values from the first range are inserted.
-		 *
-		 */
-		template<class Deque, class InputIt1, class InputIt2, class Less, class Deque2 = Deque>
-		void unique_merge_move(Deque& out, InputIt1 first1, InputIt1 last1, InputIt2 first2, InputIt2 last2, Less less, Deque2* remaining = NULL)
-		{
-
-			if constexpr (is_random_access_v<InputIt1> && is_random_access_v<InputIt2>) {
-				size_t len1 = std::distance(first1, last1);
-				size_t len2 = std::distance(first2, last2);
-				out.resize(len1 + len2);
-				typename Deque::iterator it_rem;
-				if (remaining) {
-					remaining->resize(len2);
-					it_rem = remaining->begin();
-				}
-				auto it = out.begin();
-				while (!(first1 == last1 && first2 == last2)) {
-
-					while (first2 != last2 && (first1 == last1 || less(*first2, *first1))) {
-						*it = std::move(*first2);
-						++it;
-						++first2;
-					}
-					if (first1 != last1) {
-						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
-							if (remaining) {
-								*it_rem = std::move(*first2);
-								++it_rem;
-							}
-							++first2;
-						}
-						*it = std::move(*first1);
-						++it;
-						first1++;
-					}
-					while (first1 != last1 && (first2 == last2 || less(*first1, *first2))) {
-						*it = std::move(*first1);
-						++it;
-						++first1;
-					}
-				}
-				if (remaining)
-					remaining->erase(it_rem, remaining->end());
-				out.erase(it, out.end());
-				return;
-			}
-			else {
-
-				while (!(first1 == last1 && first2 == last2)) {
-
-					while (first2 != last2 && (first1 == last1 || less(*first2, *first1))) {
-						out.push_back(std::move(*first2));
-						++first2;
-					}
-					if (first1 != last1) {
-						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
-							if (remaining) {
-								remaining->push_back(std::move(*first2));
-							}
-							++first2;
-						}
-						out.push_back(std::move(*first1));
-						first1++;
-					}
-					while (first1 != last1 && (first2 == last2 || less(*first1, *first2))) {
-						out.push_back(std::move(*first1));
-						++first1;
-					}
-				}
-			}
-		}
-
 		/// @brief Base class for flat_map/set
 		/// Uses a seq::tiered_vector to store the values and provide faster insertion/deletion of unique elements.
 		template<class Key, class Value = Key, class Compare = std::less<>, class Allocator = std::allocator<Value>, bool Stable = true, bool Unique = true>
@@ -885,23 +806,61 @@ namespace seq
 				return std::pair<size_t, size_t>(low, up);
 			}
 
-			template<class C2, bool Unique2>
-			void merge(flat_tree<Key, Key, C2, Allocator, Unique2>& source)
+			/// @brief Merge this tree and source, which must both be sorted according to this comparator.
+			/// For unique keys, values that already exist remain in source.
+			template<class Tree>
+			void merge_sorted(Tree& source)
 			{
-				if (Unique) {
-					container_type out;
-					typename flat_tree<Key, Key, C2, Allocator, Unique2>::container_type rem;
-					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
+				if constexpr (Unique) {
+					container_type out(get_allocator());
+					typename Tree::container_type rem(source.get_allocator());
+					auto first = begin();
+					for (auto it = source.begin(); it != source.end(); ++it) {
+						// Values from this come first
+						while (first != end() && !(*this)(*it, *first)) {
+							out.push_back(std::move(*first));
+							++first;
+						}
+						if (!out.empty() && !(*this)(out.back(), *it))
+							rem.push_back(std::move(*it));
+						else
+							out.push_back(std::move(*it));
+					}
+					for (; first != end(); ++first)
+						out.push_back(std::move(*first));
 					d_deque = std::move(out);
 					source.d_deque = std::move(rem);
 				}
 				else {
 					// add elements from source to this tiered_vector
-					size_t before_size = size();
-					d_deque.insert(d_deque.end(), source.begin(), source.end());
-					std::inplace_merge(d_deque.begin(), d_deque.begin() + before_size, d_deque.end(), base());
+					const size_t before_size = size();
+					for (auto it = source.begin(); it != source.end(); ++it)
+						d_deque.push_back(std::move(*it));
 					source.clear();
+					if (d_deque.empty())
+						return;
+					std::inplace_merge(d_deque.begin(), d_deque.begin() + static_cast<difference_type>(before_size), d_deque.end(), base());
+					d_deque.manager()->update_all_back_values();
+				}
+			}
+
+			template<class C2, bool Stable2, bool Unique2>
+			void merge(flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>& source)
+			{
+				if (static_cast<const void*>(this) == static_cast<const void*>(std::addressof(source)))
+					return;
+
+				if (!std::is_sorted(source.begin(), source.end(), base())) {
+					// The comparators differ: insert the values one by one
+					for (size_t i = 0; i < source.size();) {
+						if (emplace(std::move(source.d_deque[i])).second)
+							source.erase_pos(i);
+						else
+							++i;
+					}
+					return;
 				}
+				merge_sorted(source);
 			}
 
 			auto begin() noexcept -> iterator { return d_deque.begin(); }
@@ -1033,6 +992,9 @@ namespace seq
 	template<class Key, class Compare = std::less<>, class Allocator = std::allocator<Key>, bool Stable = false, bool Unique = true>
 	class flat_set
 	{
+		template<class, class, class, bool, bool>
+		friend class flat_set;
+
 		using flat_tree_type = detail::flat_tree<Key, Key, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
@@ -1470,8 +1432,8 @@ namespace seq
 		/// @brief Attempts to extract each element in source and insert it into this using the comparison object of this.
 		/// If there is an element in this with key equivalent to the key of an element from source, then that element is not extracted from source.
 		/// Note that elements from source are moved to this.
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator>& source)
+		template<class C2, bool Stable2, bool Unique2>
+		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator, Stable2, Unique2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
@@ -1659,6 +1621,9 @@ namespace seq
 	template<class Key, class T, class Compare = std::less<>, class Allocator = std::allocator<std::pair<Key, T>>, bool Stable = false, bool Unique = true>
 	class flat_map
 	{
+		template<class, class, class, class, bool, bool>
+		friend class flat_map;
+
 		using flat_tree_type = detail::flat_tree<Key, std::pair<Key, T>, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
@@ -2042,8 +2007,8 @@ namespace seq
 		}
 		SEQ_ALWAYS_INLINE auto equal_range_pos(const Key& x) const -> std::pair<size_t, size_t> { return d_tree.equal_range_pos(x); }
 
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator>& source)
+		template<class C2, bool Stable2, bool Unique2>
+		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator, Stable2, Unique2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
-- 
2.43.0


From 8edf80203a3a9b385bc0b4c9ac036f490fe87162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 040/129] fix: flat_set/flat_map: an assignment that throws
 does not leave unsorted values behind

---
 seq/flat_map.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 61a23d5..748ba03 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -510,8 +510,15 @@ namespace seq
 			auto operator=(const flat_tree& other) -> flat_tree&
 			{
 				if (this != std::addressof(other)) {
-					d_deque = (other.d_deque);
-					base() = other.base();
+					try {
+						d_deque = (other.d_deque);
+						base() = other.base();
+					}
+					catch (...) {
+						// Values from other, sorted with another comparator
+						d_deque.clear();
+						throw;
+					}
 				}
 				return *this;
 			}
@@ -682,7 +689,14 @@ namespace seq
 					d_deque.clear();
 					return;
 				}
-				assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
+				try {
+					assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
+				}
+				catch (...) {
+					// Unsorted or partially assigned values
+					d_deque.clear();
+					throw;
+				}
 			}
 			void erase_pos(size_type pos) { d_deque.erase(pos); }
 			auto erase(const_iterator pos) -> iterator { return d_deque.erase(pos); }
-- 
2.43.0


From b56a0c2eeb392788291b0f552d88152be7a7c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 041/129] fix: flat_set/flat_map: an exception thrown by an
 insertion, a merge or a removal does not break the order of the keys

---
 seq/flat_map.hpp | 106 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 94 insertions(+), 12 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 748ba03..5578e67 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -561,11 +561,45 @@ namespace seq
 			iterator iterator_at(size_t pos) noexcept { return d_deque.iterator_at(pos); }
 			const_iterator iterator_at(size_t pos) const noexcept { return d_deque.iterator_at(pos); }
 
+			// Restore the invariants after an exception thrown while inserting or removing values
+			void restore() noexcept
+			{
+				if (d_deque.empty())
+					return;
+				d_deque.manager()->update_all_back_values();
+				if constexpr (!std::is_nothrow_move_constructible_v<Value> || !std::is_nothrow_move_assignable_v<Value>) {
+					// Values might be in a moved-from state
+					try {
+						auto prev = d_deque.begin();
+						auto it = prev;
+						for (++it; it != d_deque.end(); prev = it, ++it)
+							if (Unique ? !(*this)(*prev, *it) : (*this)(*it, *prev))
+								break;
+						if (it == d_deque.end())
+							return;
+					}
+					catch (...) {
+					}
+					d_deque.clear();
+				}
+			}
+			template<class Fun>
+			auto guarded(Fun fun)
+			{
+				try {
+					return fun();
+				}
+				catch (...) {
+					restore();
+					throw;
+				}
+			}
+
 			template<class Policy, class K, class... Args>
 			auto emplace_pos_multi(Policy, K&& key, Args&&... args) -> std::pair<size_t, bool>
 			{
 				size_t pos = tvector_upper_bound(d_deque, key, base());
-				Policy::emplace(d_deque, pos, std::forward<K>(key), std::forward<Args>(args)...);
+				guarded([&]() { Policy::emplace(d_deque, pos, std::forward<K>(key), std::forward<Args>(args)...); });
 				return std::pair<size_t, bool>(pos, true);
 			}
 			template<class Policy, class K, class... Args>
@@ -579,7 +613,7 @@ namespace seq
 					if (l.second)
 						return { l.first, false };
 					l.second = true;
-					Policy::emplace(d_deque, l.first, std::forward<K>(key), std::forward<Args>(args)...);
+					guarded([&]() { Policy::emplace(d_deque, l.first, std::forward<K>(key), std::forward<Args>(args)...); });
 					return l;
 				}
 
@@ -587,7 +621,7 @@ namespace seq
 				res.first = tvector_lower_bound<!Unique>(d_deque, key, base()).first;
 				res.second = !(res.first != d_deque.size() && !(*this)(key, d_deque[res.first]));
 				if (res.second)
-					Policy::emplace(d_deque, res.first, std::forward<K>(key), std::forward<Args>(args)...);
+					guarded([&]() { Policy::emplace(d_deque, res.first, std::forward<K>(key), std::forward<Args>(args)...); });
 				return res;
 			}
 			template<class K, class... Args>
@@ -608,7 +642,7 @@ namespace seq
 					if (hint != end() && (*this)(key, *hint)) {
 						auto h = hint;
 						if (hint != begin() && !(*this)(key, *(--hint))) {
-							Policy::emplace(d_deque, static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...);
+							guarded([&]() { Policy::emplace(d_deque, static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...); });
 							return std::pair<size_t, bool>(static_cast<size_t>(h.pos), true);
 						}
 					}
@@ -618,7 +652,7 @@ namespace seq
 					// value is < hint, check that value before hint is smaller
 					auto h = hint;
 					if (hint == begin() || (*this)(*(--hint), key)) {
-						Policy::emplace(d_deque, static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...);
+						guarded([&]() { Policy::emplace(d_deque, static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...); });
 						return std::pair<size_t, bool>(static_cast<size_t>(h.pos), true);
 					}
 				}
@@ -636,6 +670,26 @@ namespace seq
 				return emplace_pos_hint(hint, TryFlatEmplacePolicy{}, std::forward<K>(key), std::forward<Args>(args)...);
 			}
 
+			// In case of exception, only keep the first values, or no value if they were moved
+			struct BulkGuard
+			{
+				flat_tree& tree;
+				size_t keep;
+				bool done = false;
+				~BulkGuard()
+				{
+					if (done)
+						return;
+					if (keep) {
+						while (tree.d_deque.size() > keep)
+							tree.d_deque.manager()->pop_back();
+						tree.restore();
+					}
+					else
+						tree.d_deque.clear();
+				}
+			};
+
 			template<class InputIt, class Tag>
 			void insert(InputIt first, InputIt last, Tag)
 			{
@@ -648,6 +702,7 @@ namespace seq
 				}
 
 				size_t size_before = d_deque.size();
+				BulkGuard guard{ *this, size_before };
 
 				if constexpr (is_random_access_v<InputIt>)
 					// Resize tiered_vector
@@ -661,6 +716,9 @@ namespace seq
 						d_deque.push_back(*first);
 				}
 
+				// From now on, existing values are moved as well
+				guard.keep = 0;
+
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
 					// Sort new values
 					size_before = sort_deque<Stable>(d_deque, size_before, base());
@@ -673,6 +731,7 @@ namespace seq
 					auto it = std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
 					d_deque.erase(it.absolutePos(), d_deque.size());
 				}
+				guard.done = true;
 				d_deque.manager()->update_all_back_values();
 			}
 
@@ -698,11 +757,26 @@ namespace seq
 					throw;
 				}
 			}
-			void erase_pos(size_type pos) { d_deque.erase(pos); }
-			auto erase(const_iterator pos) -> iterator { return d_deque.erase(pos); }
-			auto erase(iterator pos) -> iterator { return d_deque.erase(pos); }
-			auto erase(const_iterator first, const_iterator last) -> iterator { return d_deque.erase(first, last); }
-			void erase(size_t first, size_t last) { d_deque.erase(first, last); }
+			void erase_pos(size_type pos)
+			{
+				guarded([&]() { d_deque.erase(pos); });
+			}
+			auto erase(const_iterator pos) -> iterator
+			{
+				return guarded([&]() { return d_deque.erase(pos); });
+			}
+			auto erase(iterator pos) -> iterator
+			{
+				return guarded([&]() { return d_deque.erase(pos); });
+			}
+			auto erase(const_iterator first, const_iterator last) -> iterator
+			{
+				return guarded([&]() { return d_deque.erase(first, last); });
+			}
+			void erase(size_t first, size_t last)
+			{
+				guarded([&]() { d_deque.erase(first, last); });
+			}
 			template<class K>
 			auto erase(const K& key) -> size_type
 			{
@@ -710,7 +784,7 @@ namespace seq
 					size_t pos = tvector_binary_search<!Unique>(d_deque, key, base());
 					if (pos == d_deque.size())
 						return 0;
-					d_deque.erase(pos);
+					erase_pos(pos);
 					return 1;
 				}
 				else {
@@ -864,7 +938,13 @@ namespace seq
 				if (static_cast<const void*>(this) == static_cast<const void*>(std::addressof(source)))
 					return;
 
-				if (!std::is_sorted(source.begin(), source.end(), base())) {
+				const bool sorted = std::is_sorted(source.begin(), source.end(), base());
+
+				// Values are moved from now on
+				BulkGuard guard{ *this, 0 };
+				typename flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>::BulkGuard guard_source{ source, 0 };
+
+				if (!sorted) {
 					// The comparators differ: insert the values one by one
 					for (size_t i = 0; i < source.size();) {
 						if (emplace(std::move(source.d_deque[i])).second)
@@ -872,9 +952,11 @@ namespace seq
 						else
 							++i;
 					}
+					guard.done = guard_source.done = true;
 					return;
 				}
 				merge_sorted(source);
+				guard.done = guard_source.done = true;
 			}
 
 			auto begin() noexcept -> iterator { return d_deque.begin(); }
-- 
2.43.0


From 1cfc3df7c450bfc8d1bedb891770d426849face4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 042/129] fix: flat_multiset: insert(sorted_equivalent, ...)
 compiles

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 5578e67..3ce91ca 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1677,11 +1677,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
-- 
2.43.0


From b8761eb2d37336ca2d9880cebd950947cb3e9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 043/129] fix: flat_set/flat_map: a lookup in an emptied
 container does not compare a destroyed value

---
 seq/flat_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 3ce91ca..33f0cbd 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -224,7 +224,8 @@ namespace seq
 		SEQ_INLINE_BINARY_SEARCH auto tvector_lower_bound(const Deque& d, const U& value, const Less& le) noexcept(noexcept(le(std::declval<typename Deque::value_type&>(), value)))
 		  -> std::pair<size_t, bool>
 		{
-			if SEQ_UNLIKELY (!d.manager())
+			// An empty tiered_vector might still have an empty bucket, without a back value
+			if SEQ_UNLIKELY (d.empty())
 				return { 0, false };
 
 			using T = typename Deque::value_type;
-- 
2.43.0


From d68b8e2c292e1ee30f5b281a8c6cff05ffa6e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 044/129] fix: flat_set/flat_map: erase_if() handles an empty
 container and a predicate that throws

---
 seq/flat_map.hpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 33f0cbd..6b6b4b8 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -327,6 +327,27 @@ namespace seq
 			}
 		}
 
+		/// @brief Erase all values of a sorted tiered_vector that satisfy the predicate p
+		template<class Deque, class Pred>
+		size_t flat_erase_if(Deque& d, Pred& p)
+		{
+			if (d.empty())
+				return 0;
+			try {
+				auto it = std::remove_if(d.begin(), d.end(), std::ref(p));
+				size_t res = static_cast<size_t>(d.end() - it);
+				d.erase(it, d.end());
+				if (!d.empty())
+					d.manager()->update_all_back_values();
+				return res;
+			}
+			catch (...) {
+				// Moved-from values might remain anywhere
+				d.clear();
+				throw;
+			}
+		}
+
 		/// @brief Base class for flat_map/set
 		/// Uses a seq::tiered_vector to store the values and provide faster insertion/deletion of unique elements.
 		template<class Key, class Value = Key, class Compare = std::less<>, class Allocator = std::allocator<Value>, bool Stable = true, bool Unique = true>
@@ -2316,11 +2337,7 @@ namespace seq
 		using container_type = typename flat_set<Key, Compare, Al1, S1, U1>::container_type;
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
-		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
-		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
-		return res;
+		return detail::flat_erase_if(d, p);
 	}
 
 	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 at the same position.
@@ -2351,11 +2368,7 @@ namespace seq
 		using container_type = typename flat_map<Key, T, Compare, Al1, S1, U1>::container_type;
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
-		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
-		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
-		return res;
+		return detail::flat_erase_if(d, p);
 	}
 
 } // end namespace seq
-- 
2.43.0


From 4cb89999f20cba04f4bf0c772b0da72407aea14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:59 +0000
Subject: [PATCH 045/129] fix: flat_set/flat_map: sorting counts the buckets
 after the front bucket was filled

---
 seq/tiered_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 38259dd..6f7edc9 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2528,7 +2528,6 @@ namespace seq
 					return 0;
 
 				size_t bucket_idx = (size_t)this->indexes(start_idx).first;
-				size_t bucket_count = d_buckets.size() - bucket_idx;
 
 				size_t size_before = 0;
 				if (bucket_idx)
@@ -2545,6 +2544,8 @@ namespace seq
 					}
 					SEQ_ASSERT_DEBUG(d_buckets[0].bucket->size == d_bucket_size || d_buckets.size() == 1, "");
 				}
+				// Filling the front bucket might have removed the back one
+				size_t bucket_count = d_buckets.size() - bucket_idx;
 				if (d_buckets.back().bucket->size != d_bucket_size) {
 					// If the back bucket is not full, make it start at 0
 					auto* bucket = d_buckets.back().bucket;
-- 
2.43.0


From d0ecfdb1c061690937e86287d927c36d9b861d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:37 +0000
Subject: [PATCH 046/129] fix: flat_map: inserting a range does not replace the
 values of existing keys

---
 seq/flat_map.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 6b6b4b8..292b9e0 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -195,7 +195,18 @@ namespace seq
 					return begin;
 				}
 				else {
-					return d.manager()->sort(begin, le);
+					// The manager sorts whole buckets. Sort the end of the first bucket apart in order
+					// to keep the values before begin in front of the equivalent ones after begin.
+					const size_t front = static_cast<size_t>(d.manager()->buckets()[0]->size);
+					const size_t bucket_size = static_cast<size_t>(d.bucket_size());
+					size_t next = begin <= front ? front : front + (begin - front + bucket_size - 1) / bucket_size * bucket_size;
+					next = std::min(next, d.size());
+					net_sort(d.begin() + begin, d.begin() + next, le);
+					if (next != d.size()) {
+						d.manager()->sort(next, le);
+						std::inplace_merge(d.begin() + begin, d.begin() + next, d.end(), le);
+					}
+					return begin;
 				}
 			}
 		}
@@ -738,13 +749,13 @@ namespace seq
 						d_deque.push_back(*first);
 				}
 
-				// From now on, existing values are moved as well
-				guard.keep = 0;
-
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
 					// Sort new values
 					size_before = sort_deque<Stable>(d_deque, size_before, base());
 
+				// From now on, existing values are moved as well
+				guard.keep = 0;
+
 				// Merge
 				std::inplace_merge(d_deque.begin(), d_deque.begin() + static_cast<difference_type>(size_before), d_deque.end(), base());
 
-- 
2.43.0


From c853cd9a6911ac21c8dfb41b7debf53b46841c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 047/129] fix: net_sort: an exception thrown by a move
 propagates to the caller

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..7879d82 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -810,7 +810,7 @@ namespace seq
 		}
 
 		template<class T>
-		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept
+		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept(is_relocatable<T>::value || std::is_nothrow_swappable_v<std::remove_reference_t<T>>)
 		{
 			// Swap elements based on is_less.
 			// Uses branchless swap for relocatable types.
-- 
2.43.0


From 7a175cd7ab51348bad33ace956f8246de271b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 048/129] fix: tiered_vector: erasing a range does not keep
 moved values when adapting the bucket size fails

---
 seq/tiered_vector.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 6f7edc9..46eb78c 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -3471,10 +3471,16 @@ namespace seq
 				return;
 			size_type space_before = first;
 			size_type space_after = size() - last;
+			const size_type new_size = size() - (last - first);
+			if (new_size == 0) {
+				clear();
+				return;
+			}
 
 			if (space_before < space_after) {
 				std::move_backward(begin(), begin() + static_cast<difference_type>(first), begin() + static_cast<difference_type>(last));
-				resize_front(size() - static_cast<size_t>(last - first));
+				// Remove the moved values before allocating anything
+				manager()->resize_front(new_size);
 			}
 			else {
 				// std::move(begin() + last, end(), begin() + first);
@@ -3483,8 +3489,10 @@ namespace seq
 					*it = std::move(v);
 					++it;
 				});
-				resize(size() - static_cast<size_t>(last - first));
+				// Remove the moved values before allocating anything
+				manager()->resize(new_size);
 			}
+			check_bucket_size();
 		}
 
 		/// @brief Removes the elements in the range [first, last).
-- 
2.43.0


From 53d78e393261495485b65c672880de98a50b0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 049/129] fix: sequence: order the end iterator after every
 other one

---
 seq/sequence.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..b06a001 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -352,6 +352,9 @@ namespace seq
 			static auto distance(const sequence_const_iterator& it1, const sequence_const_iterator& it2) -> difference_type
 			{
 				if (it1.node == it2.node) {
+					// Same position, possibly in a sequence that never allocated
+					if (it1.pos == it2.pos)
+						return 0;
 					// Same node
 					if (it1.pos > it2.pos) {
 						return static_cast<difference_type>(popcnt64((it1.node->used & ((1ULL << it1.pos) - 1)) >> it2.pos));
@@ -779,7 +782,8 @@ namespace seq
 				endNode()->prev_free = endNode()->next_free = endNode();
 				endNode()->used = full;
 				endNode()->start = endNode()->end = 0;
-				endNode()->node_index = 0ULL;
+				// The end position is after any other one
+				endNode()->node_index = std::numeric_limits<std::int64_t>::max();
 			}
 
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
@@ -879,7 +883,8 @@ namespace seq
 								if (vec_chunk && node != endNode())
 									vec_chunk->push_back(node);
 								index = 0;
-								node->node_index = static_cast<std::int64_t>(chunks++);
+								if (node != endNode())
+									node->node_index = static_cast<std::int64_t>(chunks++);
 							}
 							++it;
 						}
-- 
2.43.0


From 6af5c372500fdbcc4221a3a7b5b787ba6124836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 050/129] fix: sequence: compare iterators of a sequence that
 never allocated

---
 seq/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index b06a001..545657a 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -472,12 +472,12 @@ namespace seq
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index > b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) > (b.pos)));
+			return a.node == b.node ? a.pos > b.pos : a.node->node_index > b.node->node_index;
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator<(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index < b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) < (b.pos)));
+			return a.node == b.node ? a.pos < b.pos : a.node->node_index < b.node->node_index;
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>=(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
-- 
2.43.0


From 4971d2c6f991b2f04fb1ecf5e44cda13272bc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 051/129] fix: sequence: release everything when a constructor
 throws

---
 seq/sequence.hpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 545657a..44ce856 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1361,6 +1361,14 @@ namespace seq
 			}
 		}
 
+		// Build an empty sequence without allocating. Used as target by other constructors,
+		// in order to call the destructor if they throw.
+		sequence(const Allocator& al, Data* d)
+		  : Allocator(al)
+		  , d_data(d)
+		{
+		}
+
 	public:
 		/// @brief Default constructor, initialize internal data
 		sequence() noexcept(std::is_nothrow_default_constructible_v<Allocator>)
@@ -1380,8 +1388,7 @@ namespace seq
 		/// @param value fill value
 		/// @param al allocator object
 		sequence(size_type count, const T& value, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count, value);
 		}
@@ -1389,16 +1396,14 @@ namespace seq
 		/// @param count initial size
 		/// @param al allocator object
 		explicit sequence(size_type count, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count);
 		}
 		/// @brief Copy constructor
 		/// @param other input sequence to copy
 		sequence(const sequence& other)
-		  : Allocator(copy_allocator(other.get_allocator()))
-		  , d_data(nullptr)
+		  : sequence(copy_allocator(other.get_allocator()), nullptr)
 		{
 			if (other.size())
 				import(other);
@@ -1407,8 +1412,7 @@ namespace seq
 		/// @param other input sequence to copy
 		/// @param al allocator object
 		sequence(const sequence& other, const Allocator& al)
-		  : Allocator(al)
-		  , d_data(nullptr)
+		  : sequence(al, nullptr)
 		{
 			if (other.size())
 				import(other);
@@ -1425,8 +1429,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		sequence(sequence&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_data(alloc))
+		  : sequence(alloc)
 		{
 			if (alloc == other.get_allocator())
 				std::swap(other.d_data, d_data);
@@ -1439,8 +1442,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param al allocator object
 		sequence(const std::initializer_list<T>& lst, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -1451,8 +1453,7 @@ namespace seq
 		/// @param al allocator object
 		template<class Iter>
 		sequence(Iter first, Iter last, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From f1f49958d2b403ecff393134a6bda03245d73ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 052/129] fix: sequence: do not remove too many elements when
 resizing within a chunk

---
 seq/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 44ce856..9c4b4e0 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1289,8 +1289,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - osize);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// Destroy full chunks
@@ -1813,8 +1815,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
@@ -1940,8 +1944,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (front == d_data->end.next && diff--)
+				while (diff && front == d_data->end.next) {
 					pop_front();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
-- 
2.43.0


From 052afdc5128645708aaaf59566a15bf3ef4684b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 053/129] fix: sequence: keep valid chunk lists in
 shrink_to_fit() and sort()

---
 seq/sequence.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 9c4b4e0..43bcde6 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -789,6 +789,21 @@ namespace seq
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
 			SEQ_ALWAYS_INLINE auto endNode() const noexcept -> const chunk_type* { return static_cast<const chunk_type*>(&end); }
 
+			// Rebuild the list of partially free chunks and the chunk indexes
+			void rebuild_free_list() noexcept
+			{
+				endNode()->prev_free = endNode()->next_free = endNode();
+				std::int64_t index = 0;
+				for (chunk_type* node = static_cast<chunk_type*>(endNode()->next); node != endNode(); node = static_cast<chunk_type*>(node->next)) {
+					node->node_index = index++;
+					node->prev_free = node->next_free = endNode();
+					if (node->used != full) {
+						node->next_free = endNode()->next_free;
+						node->next_free->prev_free = endNode()->next_free = node;
+					}
+				}
+			}
+
 			void shrink_to_fit(std::vector<chunk_type*>* vec_chunk = nullptr)
 			{
 				// Compact sequence by shifting left all values and remove holes produced by calls to erase()
@@ -893,6 +908,7 @@ namespace seq
 						// Update current node bounds in case of exception
 						node->start = static_cast<int>(bit_scan_forward_64(node->used));
 						node->end = static_cast<int>(bit_scan_reverse_64(node->used)) + 1;
+						rebuild_free_list();
 						throw;
 					}
 
@@ -917,6 +933,9 @@ namespace seq
 					if (node->start == node->end) {
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
+						// This chunk does not exist anymore
+						if (vec_chunk)
+							vec_chunk->pop_back();
 					}
 
 					last->next = endNode();
@@ -941,12 +960,8 @@ namespace seq
 					}
 				}
 
-				// Get last chunk. If not full, set it as the first free node.
-				chunk_type* last = static_cast<chunk_type*>(endNode()->prev);
-				if (last->used == full)
-					endNode()->prev_free = endNode()->next_free = endNode();
-				else
-					endNode()->prev_free = endNode()->next_free = last;
+				// Only the last chunk might not be full
+				rebuild_free_list();
 			}
 
 			// Returns a const_iterator at given position
-- 
2.43.0


From ceb71df33cb2adab4ac37a357f41432ca1491823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 054/129] fix: net_sort: use the given comparator in a debug
 assertion

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 7879d82..0c319d4 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -642,7 +642,7 @@ namespace seq
 			// Recurse on each range
 			merge_adaptive_n<true>(f0_0, n0_0, f0_1, n0_1, iter_next(f0_1, n0_1), r, buffer);
 			merge_adaptive_n<true>(f1_0, n1_0, f1_1, n1_1, iter_next(f1_1, n1_1), r, buffer);
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1), "");
+			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1, r), "");
 		}
 
 		template<class Iter, class Cmp>
-- 
2.43.0


From c8daa97cfe82bad3a94690c5a1da9663b8827f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 055/129] fix: sequence: destroy the elements when a copy
 assignment replaces the allocator

---
 seq/sequence.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 43bcde6..11ebf43 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1485,10 +1485,9 @@ namespace seq
 			if (this != std::addressof(other)) {
 
 				if constexpr (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
-						destroy_data(d_data);
-						d_data = nullptr;
-					}
+					if (get_allocator() != other.get_allocator())
+						// Destroy elements and release memory with the current allocator
+						clear();
 				}
 				assign_allocator(get_allocator(), other.get_allocator());
 
-- 
2.43.0


From 511f8a4c9b1d1e343df5cb3a3560ce0045a8fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 056/129] fix: sequence: reserve enough room for all chunks
 before sorting

---
 seq/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 11ebf43..ca23a23 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -812,7 +812,7 @@ namespace seq
 				if (vec_chunk) {
 					vec_chunk->clear();
 					// throw now and not later
-					vec_chunk->reserve(size / chunk_type::count);
+					vec_chunk->reserve(this->get_capacity());
 				}
 
 				// Does nothing if the sequence is alreay compact
-- 
2.43.0


From 52207ab833228c85aa584f4f9e0b307989b718de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 057/129] fix: ordered_map: stay inside the table when
 rehashing a modified sequence

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..eb18b53 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -429,7 +429,7 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
-- 
2.43.0


From 2e68bfea9f02d8d743da57ca71c88fde53be09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 058/129] fix: ordered_map: drop the table and mark it dirty
 when a rehash throws

---
 seq/ordered_map.hpp | 63 ++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index eb18b53..266fc3e 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -289,6 +289,28 @@ namespace seq
 				return find_node(hash_key(extract_key::key(*it)), it);
 			}
 
+			void drop_buckets() noexcept
+			{
+				// Release the table
+				free_buckets(d_buckets);
+				d_buckets = null_node();
+				d_next_target = d_hash_mask = d_hash_len = 0;
+			}
+
+			// Drop a partially built table and mark as dirty if the rehash did not reach its end:
+			// allocation failure, or exception thrown by the hash function or the equality comparator
+			struct RehashGuard
+			{
+				SparseFlatNodeHashTable* self;
+				~RehashGuard() noexcept
+				{
+					if (self) {
+						self->drop_buckets();
+						self->mark_dirty();
+					}
+				}
+			};
+
 			template<class Iter>
 			void rehash(size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
 			{
@@ -296,18 +318,12 @@ namespace seq
 				// The old table is dropped before creating the new one, avoiding memory peaks.
 				// Do not check for potential duplicate values.
 
-				try {
-					free_buckets(d_buckets);
-					d_buckets = null_node();
-					d_next_target = d_hash_mask = d_hash_len = 0;
-					d_max_dist = 1;
-					d_buckets = make_buckets((new_hash_mask + 1ULL));
-				}
-				catch (...) {
-					// mark as dirty
-					mark_dirty();
-					throw;
-				}
+				drop_buckets();
+				RehashGuard guard{ this };
+				d_max_dist = 1;
+				d_buckets = make_buckets((new_hash_mask + 1ULL));
+				d_hash_mask = new_hash_mask;
+				d_hash_len = new_hash_len;
 
 				size_t hash, index;
 				size_t hmask = new_hash_mask;
@@ -355,8 +371,7 @@ namespace seq
 					d_buckets[index] = node_type(node_type::small_hash(hash), index == mask_hash(hash, new_hash_mask, new_hash_len) ? 0 : node_type::max_distance, first.as_uint());
 				}
 
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
+				guard.self = nullptr;
 				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
@@ -367,17 +382,12 @@ namespace seq
 				// The old table is dropped before creating the new one, avoiding memory peaks.
 				// Check for potential duplicate values, and erase duplicates from the sequence object in a stable way.
 
-				try {
-					free_buckets(d_buckets);
-					d_buckets = null_node();
-					d_next_target = d_hash_mask = d_hash_len = 0;
-					d_max_dist = 1;
-					d_buckets = make_buckets((new_hash_mask + 1ULL));
-				}
-				catch (...) {
-					mark_dirty();
-					throw;
-				}
+				drop_buckets();
+				RehashGuard guard{ this };
+				d_max_dist = 1;
+				d_buckets = make_buckets((new_hash_mask + 1ULL));
+				d_hash_mask = new_hash_mask;
+				d_hash_len = new_hash_len;
 
 				size_t hash, index, dist;
 				size_t bsize = new_hash_mask + 1ULL;
@@ -434,8 +444,7 @@ namespace seq
 					++it;
 				}
 
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
+				guard.self = nullptr;
 				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
-- 
2.43.0


From 97c0e835009f13d8d3e56e19235d9da4a3bf02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 059/129] fix: ordered_map: handle tombstones when inserting
 and searching with linear probing

---
 seq/ordered_map.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 266fc3e..c76707e 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -651,6 +651,7 @@ namespace seq
 				const bool robin_hood = d_max_dist < (node_type::max_distance);
 				const tiny_hash h = node_type::small_hash(hash);
 				const auto* it = d_buckets + mask_hash(hash, d_hash_mask, d_hash_len);
+				const auto* start = it;
 				const auto* end = d_buckets + d_hash_mask;
 				dist_type dist = 0;
 
@@ -670,6 +671,9 @@ namespace seq
 					it = it == end ? d_buckets : it + 1;
 					if SEQ_LIKELY(robin_hood)
 						++dist;
+					else if SEQ_UNLIKELY(it == start)
+						// No empty node left because of tombstones
+						break;
 				}
 				// Failed lookup
 				return d_seq.end();
@@ -691,13 +695,22 @@ namespace seq
 				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
 				const tiny_hash h = node_type::small_hash(hash);
 
-				// Pure linear hashing
-				while (!d_buckets[index].null() && !d_buckets[index].is_tombstone()) {
-					if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
+				// Pure linear hashing: the key might be located after a tombstone.
+				// Tombstones might have consumed all empty nodes, visit each node once at most.
+				size_t free_node = bucket_size();
+				for (size_t i = 0; i < bucket_size(); ++i) {
+					if (d_buckets[index].null()) {
+						if (free_node == bucket_size())
+							free_node = index;
+						if (!d_buckets[index].is_tombstone())
+							break;
+					}
+					else if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
 						return std::pair<iterator, bool>(iterator(d_buckets[index].node(), d_buckets[index].pos()), false);
 					if SEQ_UNLIKELY(++index == bucket_size())
 						index = 0;
 				}
+				index = free_node;
 
 				iterator tmp_it = Policy::emplace(d_seq, std::forward<K>(key), std::forward<Args>(args)...);
 				d_buckets[index] = node_type(h, index == mask_hash(hash, d_hash_mask, d_hash_len) ? 0 : node_type::max_distance, tmp_it.as_uint());
-- 
2.43.0


From 7c14bb4dc8b8ff01c94fdd9f71bb34ee53cb10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 060/129] fix: ordered_map: exchange the hash and equality
 functions on swap

---
 seq/ordered_map.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index c76707e..5595c7b 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -545,7 +545,6 @@ namespace seq
 			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
 			{
 				if (this != std::addressof(other)) {
-					std::swap(static_cast<base_type&>(*this), static_cast<base_type&>(other));
 					std::swap(d_buckets, other.d_buckets);
 					std::swap(d_hash_mask, other.d_hash_mask);
 					std::swap(d_hash_len, other.d_hash_len);
-- 
2.43.0


From 49edcff603b272f68a572a2caec3b04c38f3f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 061/129] fix: ordered_map: always rebuild the hash table on
 copy assignment

---
 seq/ordered_map.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 5595c7b..ec4852e 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -875,6 +875,20 @@ namespace seq
 				return 1;
 			}
 
+			void assign(const SparseFlatNodeHashTable& other)
+			{
+				// Copy another table.
+				// Start by dropping the hash table as it refers to the previous elements.
+				drop_buckets();
+				mark_dirty();
+				d_seq = other.d_seq;
+				max_load_factor(other.max_load_factor());
+				if (!other.dirty())
+					// No need to check for duplicates
+					d_max_dist = 1;
+				rehash(0, true);
+			}
+
 			auto erase(const_iterator first, const_iterator last) -> iterator
 			{
 				// Erase range of iterators. Most of the checks are performed in sequence::erase().
@@ -1183,11 +1197,7 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::assign(other);
 			}
 			return *this;
 		}
@@ -1649,11 +1659,7 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::assign(other);
 			}
 			return *this;
 		}
-- 
2.43.0


From f315d7e21790f8cee16ebd2ec6a29bb502e40bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 062/129] fix: ordered_map: mark the table as dirty when the
 predicate of erase_if() throws

---
 seq/ordered_map.hpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index ec4852e..e16e6ec 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -2059,13 +2059,21 @@ namespace seq
 		// avoid flagging the map as dirty
 		auto& seq = const_cast<sequence_type&>(set.csequence());
 		size_t count = 0;
-		for (auto it = seq.begin(); it != seq.end();) {
-			if (p(*it)) {
-				it = seq.erase(it);
-				++count;
+		try {
+			for (auto it = seq.begin(); it != seq.end();) {
+				if (p(*it)) {
+					it = seq.erase(it);
+					++count;
+				}
+				else
+					++it;
 			}
-			else
-				++it;
+		}
+		catch (...) {
+			// The hash table still refers to the removed elements
+			if (count)
+				set.sequence();
+			throw;
 		}
 		if (count) {
 			// flag as dirty and rehash
@@ -2110,13 +2118,21 @@ namespace seq
 		// avoid flagging the map as dirty
 		auto& seq = const_cast<sequence_type&>(set.csequence());
 		size_t count = 0;
-		for (auto it = seq.begin(); it != seq.end();) {
-			if (p(*it)) {
-				it = seq.erase(it);
-				++count;
+		try {
+			for (auto it = seq.begin(); it != seq.end();) {
+				if (p(*it)) {
+					it = seq.erase(it);
+					++count;
+				}
+				else
+					++it;
 			}
-			else
-				++it;
+		}
+		catch (...) {
+			// The hash table still refers to the removed elements
+			if (count)
+				set.sequence();
+			throw;
 		}
 		if (count) {
 			// flag as dirty and rehash
-- 
2.43.0


From d4f66407fd2bc158a4daa97d1450e1b2c2269b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 063/129] fix: ordered_map: rehash(n) keeps enough room for all
 elements

---
 seq/ordered_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index e16e6ec..1729aef 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -587,8 +587,8 @@ namespace seq
 
 				const bool null_size = (size == 0);
 
-				if (null_size)
-					size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
+				// The table must be able to hold all elements
+				size = std::max(size, static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor)));
 				if (size == 0)
 					return rehash(63, 6, d_seq.end(), d_seq.end()); // Minimum size is 64
 				size_t new_hash_mask;
-- 
2.43.0


From efe74561dd19cf170548f7afc4a9595eb2eb1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 064/129] fix: ordered_map: build the hash table when copying a
 single element

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 1729aef..384f239 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -600,7 +600,7 @@ namespace seq
 				new_hash_len = bit_scan_reverse_64(new_hash_mask) + 1U;
 				if (dirty())
 					rehash_remove_duplicates(new_hash_mask, new_hash_len, d_seq.begin(), d_seq.end());
-				else if (force || new_hash_mask != d_hash_mask || d_max_dist == node_type::max_distance) {
+				else if (force || d_buckets == null_node() || new_hash_mask != d_hash_mask || d_max_dist == node_type::max_distance) {
 					if (d_max_dist == node_type::max_distance && null_size) {
 						// linear hashing behavior: make sure to increase hash table size
 						new_hash_mask = ((new_hash_mask + 1U) * 2U) - 1U;
-- 
2.43.0


From 452d8b8b47be052b6cc492c9d961aafb28340454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 065/129] fix: ordered_map: rebuild both tables when moving
 with a different allocator

---
 seq/ordered_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 384f239..0dccf22 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -533,8 +533,10 @@ namespace seq
 					other.d_max_dist = 1;
 				}
 				else {
-					// rehash
+					// Elements were moved one by one, other only holds moved values
+					other.mark_dirty();
 					d_buckets = null_node();
+					d_next_target = d_hash_mask = d_hash_len = 0;
 					rehash(0, true);
 				}
 			}
-- 
2.43.0


From bea62afb88af1dd86f20f3849121a21f66068ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 066/129] fix: ordered_map: insert(hint, P&&) returns an
 iterator

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 0dccf22..895ff85 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1777,7 +1777,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto insert(const_iterator hint, P&& value) -> iterator
 		{
 			(void)hint;
-			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value)));
+			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value))).first;
 		}
 		template<class InputIt>
 		void insert(InputIt first, InputIt last)
-- 
2.43.0


From 66a1acd7a5209d9c897625c771fb2354fb394e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 067/129] fix: ordered_map: do not keep duplicate keys after a
 failed copy assignment

---
 seq/ordered_map.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 895ff85..28ed1b6 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -883,7 +883,15 @@ namespace seq
 				// Start by dropping the hash table as it refers to the previous elements.
 				drop_buckets();
 				mark_dirty();
-				d_seq = other.d_seq;
+				try {
+					d_seq = other.d_seq;
+				}
+				catch (...) {
+					// Elements of both tables are mixed
+					d_seq.clear();
+					d_max_dist = 1;
+					throw;
+				}
 				max_load_factor(other.max_load_factor());
 				if (!other.dirty())
 					// No need to check for duplicates
-- 
2.43.0


From 5c4762e72d3bae072fcf406f298b2b81f8357e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 068/129] fix: radix_set/radix_map: equal_range() of a missing
 key is the empty range at its lower bound

---
 seq/radix_map.hpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index e4ef92c..5e10c6e 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -384,11 +384,7 @@ namespace seq
 		template<class K>
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<iterator, iterator>
 		{
-			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
-			auto start = it++;
-			return std::pair<iterator, iterator>(start, it);
+			return std::pair<iterator, iterator>(d_tree.lower_bound(key), d_tree.upper_bound(key));
 		}
 
 		SEQ_ALWAYS_INLINE void merge(radix_set& source) { d_tree.merge(source.d_tree); }
@@ -968,21 +964,13 @@ namespace seq
 		template<class K>
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) -> std::pair<iterator, iterator>
 		{
-			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
-			auto start = it++;
-			return std::pair<iterator, iterator>(start, it);
+			return std::pair<iterator, iterator>(d_tree.lower_bound(key), d_tree.upper_bound(key));
 		}
 
 		template<class K>
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<const_iterator, const_iterator>
 		{
-			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<const_iterator, const_iterator>(d_tree.end(), d_tree.end());
-			auto start = it++;
-			return std::pair<const_iterator, const_iterator>(start, it);
+			return std::pair<const_iterator, const_iterator>(d_tree.lower_bound(key), d_tree.upper_bound(key));
 		}
 
 		SEQ_ALWAYS_INLINE void merge(radix_map& source) { d_tree.merge(source.d_tree); }
-- 
2.43.0


From bf915bb771a26fe9472a0120125c7348307c0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 069/129] fix: radix trees: leaves stay valid when an element
 operation or an allocation throws

---
 seq/internal/radix_tree.hpp | 210 ++++++++++++++++++++++--------------
 1 file changed, 130 insertions(+), 80 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..d86abab 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -717,76 +717,96 @@ namespace seq
 			return lower_bound<false, T>(vals, size, key, [](const auto& l, const auto& r) { return Hasher::less(ExtractKey{}(l), ExtractKey{}(r)); }).first;
 		}
 
-		/// @brief Copy count elements from src to dst while destroying elements in src
-		/// In case of exception, destroy all elements in in src and dst.
+		/// @brief Tells if elements can be shifted within a leaf without any risk of exception
 		template<class U>
-		static inline void copy_destroy(U* dst, U* src, unsigned count)
+		struct is_nothrow_shift : std::integral_constant<bool, is_relocatable<U>::value || (std::is_nothrow_move_constructible_v<U> && std::is_nothrow_move_assignable_v<U>)>
 		{
-			if constexpr (is_relocatable<U>::value)
-				memcpy(static_cast<void*>(dst), static_cast<const void*>(src), sizeof(U) * count);
+		};
+
+		/// @brief Destroy count elements of src
+		template<class U>
+		static inline void destroy_n(U* src, unsigned count) noexcept
+		{
+			for (unsigned i = 0; i < count; ++i)
+				src[i].~U();
+		}
+
+		/// @brief Construct count elements in dst from the ones of src, without destroying the elements of src.
+		/// Relocatable elements are just copied bitwise.
+		/// Elements which move constructor might throw are copied if possible.
+		/// In case of exception, all created elements are destroyed.
+		template<class U>
+		static inline void transfer(U* dst, U* src, unsigned count)
+		{
+			if constexpr (is_relocatable<U>::value) {
+				if (count)
+					memcpy(static_cast<void*>(dst), static_cast<const void*>(src), sizeof(U) * count);
+			}
 			else {
 				unsigned i = 0;
 				try {
-					for (; i < count; ++i) {
-						new (dst + i) U(std::move(src[i]));
-						src[i].~U();
-					}
+					for (; i < count; ++i)
+						new (dst + i) U(std::move_if_noexcept(src[i]));
 				}
 				catch (...) {
-					// destroy created elements
-					for (unsigned j = 0; j < i; ++j)
-						dst[j].~U();
-					// finish destroying src
-					for (; i < count; ++i) {
-						src[i].~U();
-					}
+					destroy_n(dst, i);
 					throw;
 				}
 			}
 		}
+		/// @brief Destroy elements previously transfered to another location
+		template<class U>
+		static inline void destroy_transfered(U* src, unsigned count) noexcept
+		{
+			if constexpr (!is_relocatable<U>::value)
+				destroy_n(src, count);
+		}
+
+		/// @brief Value built by an insertion policy.
+		/// Used to create the value to insert before moving other elements,
+		/// as the creation might throw and might use these elements.
+		template<class U>
+		struct PendingValue
+		{
+			alignas(U) unsigned char storage[sizeof(U)];
+			U* value;
+
+			template<class Policy, class... Args>
+			PendingValue(Policy, Args&&... args)
+			  : value(Policy::emplace(reinterpret_cast<U*>(storage), std::forward<Args>(args)...))
+			{
+			}
+			PendingValue(const PendingValue&) = delete;
+			PendingValue& operator=(const PendingValue&) = delete;
+			~PendingValue()
+			{
+				if (value)
+					value->~U();
+			}
+		};
 
-		/// @brief Insert element at src position while moving elements to the right at dst.
-		/// Basic exception guarantee.
+		/// @brief Insert element at src position while moving count elements to the right.
+		/// Only for elements that can be shifted without exception. Strong exception guarantee.
 		template<class U, class Policy, class... Args>
-		static void SEQ_ALWAYS_INLINE insert_move_right(U* dst, U* src, unsigned count, Policy, Args&&... args)
+		static void SEQ_ALWAYS_INLINE insert_move_right(U* src, unsigned count, Policy p, Args&&... args)
 		{
-			// Move src to the right
-			// In case of exception, values are in undefined state, but no new value created (basic exception guarantee)
+			// Create the value first, might throw
+			PendingValue<U> val(p, std::forward<Args>(args)...);
 
 			if constexpr (is_relocatable<U>::value) {
-				if (count)
-					memmove(static_cast<void*>(dst), static_cast<void*>(src), count * sizeof(U));
-				try {
-					Policy::emplace(src, std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// move back to the left
-					memmove(static_cast<void*>(src), static_cast<const void*>(dst), count * sizeof(U));
-					throw;
-				}
+				memmove(static_cast<void*>(src + 1), static_cast<void*>(src), count * sizeof(U));
+				memcpy(static_cast<void*>(src), static_cast<void*>(val.value), sizeof(U));
+				val.value = nullptr;
 			}
 			else {
-				try {
-					if (count) {
-						new (dst + count - 1) U();
-						std::move_backward(src, src + count, dst + count);
-						src->~U();
-						Policy::emplace(src, std::forward<Args>(args)...);
-					}
-					else
-						Policy::emplace(src, std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// destroy created element
-					if (count)
-						(dst + count - 1)->~U();
-					throw;
-				}
+				new (src + count) U(std::move(src[count - 1]));
+				std::move_backward(src, src + count - 1, src + count);
+				*src = std::move(*val.value);
 			}
 		}
 
 		/// @brief Erase element at pos in src.
-		/// Basic exception guarantee
+		/// Only for elements that can be shifted without exception.
 		template<class U>
 		static void erase_pos(U* src, unsigned pos, unsigned count)
 		{
@@ -795,7 +815,6 @@ namespace seq
 				memmove(static_cast<void*>(src + pos), static_cast<const void*>(src + pos + 1), (count - pos - 1) * sizeof(U));
 			}
 			else {
-				// might throw, in which case the count remains the same.
 				std::move(src + pos + 1, src + count, src + pos);
 				src[count - 1].~U();
 			}
@@ -1006,23 +1025,15 @@ namespace seq
 				try {
 					// might throw
 					Policy::emplace((n->values() + pos), std::forward<Args>(args)...);
-					n->hashs()[pos] = th;
+					unsigned done = 0;
 					try {
-						if (Sorted && old_size != pos) {
-							copy_destroy(n->hashs(), this->hashs(), pos);
-							copy_destroy(n->hashs() + pos + 1, this->hashs() + pos, (old_size - pos));
-
-							// both calls might throw
-							copy_destroy(n->values(), this->values(), pos);
-							copy_destroy(n->values() + pos + 1, this->values() + pos, (old_size - pos));
-						}
-						else {
-							copy_destroy(n->hashs(), this->hashs(), old_size);
-							// both calls might throw
-							copy_destroy(n->values(), this->values(), old_size);
-						}
+						// both calls might throw
+						transfer(n->values(), this->values(), pos);
+						done = pos;
+						transfer(n->values() + pos + 1, this->values() + pos, (old_size - pos));
 					}
 					catch (...) {
+						destroy_n(n->values(), done);
 						n->values()[pos].~T();
 						throw;
 					}
@@ -1032,7 +1043,14 @@ namespace seq
 					throw;
 				}
 
-				al.deallocate(this, hash_for_size(old_size, old_size), old_size);
+				// From now on, nothing can throw
+				transfer(n->hashs(), this->hashs(), pos);
+				transfer(n->hashs() + pos + 1, this->hashs() + pos, (old_size - pos));
+				n->hashs()[pos] = th;
+
+				destroy_transfered(this->values(), old_size);
+				const unsigned old_capacity = *this->capacity();
+				al.deallocate(this, hash_for_size(old_size, old_capacity), old_capacity);
 
 				return std::pair<LeafNode*, unsigned>(n, pos);
 			}
@@ -1049,7 +1067,8 @@ namespace seq
 				else
 					pos = size;
 
-				if SEQ_UNLIKELY (*capacity() == size) {
+				if SEQ_UNLIKELY (*capacity() == size || (!is_nothrow_shift<T>::value && Sorted && pos != size)) {
+					// Reallocate a full leaf, as well as a leaf which elements cannot be shifted safely.
 					// might throw, fine
 					auto res = switch_buffer(al, size, pos, th, p, std::forward<K>(key), std::forward<Args>(args)...);
 					(*res.first->size())++;
@@ -1057,8 +1076,9 @@ namespace seq
 				}
 
 				if (Sorted && pos != size) {
-					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
-					insert_move_right(values() + pos + 1, values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					// might throw, fine
+					insert_move_right(values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					insert_move_right(hashs() + pos, (size - pos), EmplacePolicy{}, th);
 				}
 				else {
 					Policy::emplace((values() + size), std::forward<K>(key), std::forward<Args>(args)...);
@@ -1072,32 +1092,62 @@ namespace seq
 			template<class NodeAllocator>
 			LeafNode* erase(NodeAllocator& al, unsigned pos)
 			{
-				erase_pos(values(), pos, *size());
-				erase_pos(hashs(), pos, *size());
+				const unsigned old_size = *size();
+
+				if constexpr (!is_nothrow_shift<T>::value) {
+					// Shifting elements might throw: build another leaf without the element
+					if (pos + 1 != old_size) {
+						unsigned cap = capacity_for_size(old_size - 1);
+						// might throw, fine
+						LeafNode* n = al.allocate(hash_for_size(old_size - 1, cap), cap);
+						*n->size() = old_size - 1;
+						*n->capacity() = cap;
+						unsigned done = 0;
+						try {
+							transfer(n->values(), values(), pos);
+							done = pos;
+							transfer(n->values() + pos, values() + pos + 1, old_size - pos - 1);
+						}
+						catch (...) {
+							destroy_n(n->values(), done);
+							al.deallocate(n, hash_for_size(old_size - 1, cap), cap);
+							throw;
+						}
+						transfer(n->hashs(), hashs(), pos);
+						transfer(n->hashs() + pos, hashs() + pos + 1, old_size - pos - 1);
+						destroy_n(values(), old_size);
+						al.deallocate(this, hash_for_size(old_size, *capacity()), *capacity());
+						return n;
+					}
+				}
+
+				erase_pos(values(), pos, old_size);
+				erase_pos(hashs(), pos, old_size);
 				(*size())--;
 
 				if (*size() == 0) {
-					unsigned cap = capacity_for_size(1);
+					unsigned cap = *capacity();
 					al.deallocate(this, hash_for_size(1, cap), cap);
 					return nullptr;
 				}
 
 				unsigned cap = capacity_for_size(*size());
 				if (cap != *capacity()) {
-					// might throw, fine
-					LeafNode* n = al.allocate(hash_for_size(*size(), cap), cap);
-					*n->size() = *this->size();
-					*n->capacity() = cap;
-
+					LeafNode* n = nullptr;
 					try {
-						copy_destroy(n->values(), values(), *size());
-						copy_destroy(n->hashs(), this->hashs(), *size());
+						n = al.allocate(hash_for_size(*size(), cap), cap);
+						*n->size() = *this->size();
+						*n->capacity() = cap;
+						transfer(n->values(), values(), *size());
 					}
 					catch (...) {
-						al.deallocate(n, hash_for_size(*size(), cap), cap);
-						throw;
+						// The element is erased, just keep the current capacity
+						if (n)
+							al.deallocate(n, hash_for_size(*size(), cap), cap);
+						return this;
 					}
-
+					transfer(n->hashs(), this->hashs(), *size());
+					destroy_transfered(values(), *size());
 					al.deallocate(this, hash_for_size(*size() + 1, *capacity()), *capacity());
 
 					return n;
-- 
2.43.0


From 2dc180913b6dfc83c36791e2b1c99e0a8793c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 070/129] fix: radix trees: release everything when a
 constructor throws

---
 seq/internal/radix_tree.hpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index d86abab..b97100c 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1952,19 +1952,13 @@ namespace seq
 			}
 
 			RadixTree(const RadixTree& other)
-			  : Hash(other)
-			  , Allocator(copy_allocator(other.get_allocator()))
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), copy_allocator(other.get_allocator()))
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
 			}
 			RadixTree(const RadixTree& other, const Allocator& al)
-			  : Hash(other)
-			  , Allocator(al)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), al)
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
@@ -1979,22 +1973,17 @@ namespace seq
 				swap(other, false);
 			}
 			RadixTree(RadixTree&& other, const Allocator& alloc)
-			  : Hash(other)
-			  , Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), alloc)
 			{
 				if (alloc == other.get_allocator())
 					swap(other, false);
-				else if (other.size())
-					insert(make_move_iterator(other.begin()), make_move_iterator(other.end()), false);
+				else
+					move_elements(other);
 			}
 
 			template<class Iter>
 			RadixTree(Iter first, Iter last, const Allocator& alloc = Allocator())
-			  : Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(alloc)
 			{
 				insert(first, last);
 			}
-- 
2.43.0


From b0893aa4292f5004ece09dc639a688b6b944fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 071/129] fix: radix trees: transfer the hash function on swap
 and assignment, and fix merge()

---
 seq/internal/radix_tree.hpp | 45 ++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index b97100c..2d58c3f 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1993,9 +1993,27 @@ namespace seq
 
 			// Assignment operators/functions
 
-			auto operator=(RadixTree&& other) noexcept(noexcept(std::declval<RadixTree&>().swap(std::declval<RadixTree&>()))) -> RadixTree&
+			auto operator=(RadixTree&& other) noexcept(noexcept(std::declval<RadixTree&>().swap(std::declval<RadixTree&>())) &&
+								   (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value ||
+								    std::allocator_traits<Allocator>::is_always_equal::value)) -> RadixTree&
 			{
-				swap(other);
+				using traits = std::allocator_traits<Allocator>;
+				if (std::addressof(other) == this)
+					return *this;
+				if constexpr (traits::propagate_on_container_move_assignment::value) {
+					swap(other, false);
+					if constexpr (!traits::is_always_equal::value)
+						std::swap(get_allocator(), other.get_allocator());
+				}
+				else if (get_allocator() == other.get_allocator())
+					swap(other, false);
+				else {
+					// The memory of other cannot be used: move the elements one by one
+					clear();
+					if constexpr (std::is_copy_assignable_v<Hash>)
+						static_cast<Hash&>(*this) = static_cast<const Hash&>(other);
+					move_elements(other);
+				}
 				return *this;
 			}
 
@@ -2004,6 +2022,9 @@ namespace seq
 				if (std::addressof(other) != this) {
 					clear();
 					assign_allocator<Allocator>(*this, other);
+					if constexpr (std::is_copy_assignable_v<Hash>)
+						// Use the same hash function and equality comparison
+						static_cast<Hash&>(*this) = static_cast<const Hash&>(other);
 					insert(other.begin(), other.end(), false);
 				}
 				return *this;
@@ -2023,6 +2044,21 @@ namespace seq
 				insert(start, end);
 			}
 
+			/// @brief Move all elements of other, inserted in this (empty) tree
+			void move_elements(RadixTree& other)
+			{
+				try {
+					if (other.size())
+						insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
+				}
+				catch (...) {
+					// moved elements are not valid keys anymore
+					other.clear();
+					throw;
+				}
+				other.clear();
+			}
+
 			/// @brief Equivalent to std::set::merge()
 			void merge(RadixTree& other)
 			{
@@ -2030,7 +2066,7 @@ namespace seq
 
 				auto it = other.begin();
 				while (it != other.end()) {
-					if (this->insert(std::move(const_cast<value_type&>(*it))).second)
+					if (this->emplace(std::move(const_cast<value_type&>(*it))).second)
 						it = other.erase(it);
 					else
 						++it;
@@ -2070,6 +2106,9 @@ namespace seq
 			{
 				std::swap(d_data, other.d_data);
 				std::swap(d_root, other.d_root);
+				if constexpr (std::is_move_constructible_v<Hash> && std::is_move_assignable_v<Hash>)
+					// Elements were placed using these hash function and equality comparison
+					std::swap(static_cast<Hash&>(*this), static_cast<Hash&>(other));
 				if (swap_alloc)
 					swap_allocator<Allocator>(*this, other);
 			}
-- 
2.43.0


From 5c2407db23dcd1465d8da80ce7df9f1360356b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 072/129] fix: radix trees: range insertion, reserve() and
 shrink_to_fit() that throw leave a valid tree

---
 seq/internal/radix_tree.hpp | 55 ++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 2d58c3f..fdbd430 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2129,11 +2129,18 @@ namespace seq
 				other.make_data(bits);
 
 				// Move all values inside the new tree
-				for (auto it = begin(); it != end(); ++it)
-					other.emplace(std::move(*it));
+				try {
+					for (auto it = begin(); it != end(); ++it)
+						other.emplace(std::move(*it));
+				}
+				catch (...) {
+					// Only keep the elements moved so far
+					this->swap(other, false);
+					throw;
+				}
 
 				// swap
-				this->swap(other);
+				this->swap(other, false);
 				other.clear();
 			}
 
@@ -2142,8 +2149,15 @@ namespace seq
 				// Create new radix tree and reinsert all values inside
 				RadixTree other(static_cast<Hash&>(*this), get_allocator());
 				other.reserve(this->size());
-				other.insert(std::make_move_iterator(begin()), std::make_move_iterator(end()), false);
-				other.swap(*this);
+				try {
+					other.insert(std::make_move_iterator(begin()), std::make_move_iterator(end()), false);
+				}
+				catch (...) {
+					// Only keep the elements moved so far
+					other.swap(*this, false);
+					throw;
+				}
+				other.swap(*this, false);
 			}
 
 			/// @brief Sort all leaves
@@ -2154,12 +2168,19 @@ namespace seq
 				if (size() == 0)
 					return;
 
-				d_data->base.root->for_each_leaf([](directory* dir, unsigned pos) {
-					auto child = dir->child(pos);
-					if (child.tag() == directory::IsLeaf) {
-						child.to_node()->template sort<extract_key_type>(Less{});
-					}
-				});
+				try {
+					d_data->base.root->for_each_leaf([](directory* dir, unsigned pos) {
+						auto child = dir->child(pos);
+						if (child.tag() == directory::IsLeaf) {
+							child.to_node()->template sort<extract_key_type>(Less{});
+						}
+					});
+				}
+				catch (...) {
+					// A leaf that is not sorted breaks all lookups
+					clear();
+					throw;
+				}
 			}
 
 			/// @brief Hash key and return the hash value
@@ -2954,8 +2975,16 @@ namespace seq
 					return;
 
 				const_iterator it = this->end();
-				for (; start != end; ++start) {
-					it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+				try {
+					for (; start != end; ++start) {
+						it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+					}
+				}
+				catch (...) {
+					// Keep the elements inserted so far
+					if (is_sorted && _sort_leaves)
+						sort_leaves();
+					throw;
 				}
 				if (is_sorted && _sort_leaves)
 					sort_leaves();
-- 
2.43.0


From 4869fdb8bea758736f2d0b82b75d4f8e4b44cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 073/129] fix: radix trees: merging directories does not drop
 elements or link a destroyed directory when an allocation fails

---
 seq/internal/radix_tree.hpp | 335 +++++++++++-------------------------
 1 file changed, 101 insertions(+), 234 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index fdbd430..3c555a0 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2210,8 +2210,29 @@ namespace seq
 				return intermediate;
 			}
 
-			/// @brief If dir is full and only contains directories, make it grow and replace its children by its grandkids
-			directory* merge_dir(directory* dir, size_t bit_pos = minus_one_size_t)
+			/// @brief If dir is full and only contains directories, make it grow and replace its children by its grandkids.
+			/// Then do the same for the resulting directory and its parent if possible.
+			/// Returns null if no directory was merged.
+			/// Strong exception guarantee: the tree is valid and complete if a merge operation throws.
+			directory* merge_dir(directory* dir)
+			{
+				directory* res = nullptr;
+				while (directory* new_dir = merge_single_dir(dir)) {
+					res = new_dir;
+					directory* parent_dir = new_dir->parent;
+					if (new_dir->dir_count == new_dir->size())
+						// keep merging
+						dir = new_dir;
+					else if (parent_dir && parent_dir->dir_count == parent_dir->size())
+						// merge up
+						dir = parent_dir;
+					else
+						break;
+				}
+				return res;
+			}
+
+			directory* merge_single_dir(directory* dir)
 			{
 				directory* parent_dir = dir->parent;
 				unsigned parent_pos = dir->parent_pos;
@@ -2225,265 +2246,111 @@ namespace seq
 					// we are above maximum allowed size for a directory
 					return nullptr;
 
-				// Future release: use this version to soften the memory peak
-				/* directory* new_dir = nullptr;
-				{
-					//TEST
-					//Link all children of dir
-					directory* first = static_cast<directory*>(dir->children()[0].ptr());
-					directory* link = first;
-					dir->children()[0] = child_ptr();
-					for (unsigned i = 1; i != size; ++i) {
-						directory* child = static_cast<directory*>(dir->children()[i].ptr());
-						link->parent = child;
-						link = child;
-						dir->children()[i] = child_ptr();
-					}
-
-					auto prefix_len = dir->prefix_len;
-
-					// Destroy dir before allocating new directory to avoid memory peak
-					directory::destroy(d_data->base, dir, false);
-
-					try {
-						// might throw, fine
-						new_dir = directory::make(d_data->base, new_hash_len);
-						// copy prefix length
-						new_dir->prefix_len = prefix_len;
-						// set parent, used by iterator::get_bit_pos
-						new_dir->parent = parent_dir;
-					}
-					catch (...) {
-						// Reset parent for all children
-						for (unsigned i = 0; i != size; ++i) {
-							auto* next = first->parent;
-							first->parent = dir;
-							first = next;
-						}
-						throw;
-					}
-
-					unsigned i = 0;
-					try {
-						for (; i != size; ++i) {
-							directory* child = first;
-							directory* next = first->parent;
-							unsigned child_count = child->size();
-
-							if (prefix_search && child->prefix_len >= start_arity) {
-								// keep this directory and remove start_arity to the prefix.
-								size_t dir_pos = iterator::get_bit_pos(new_dir);
-								unsigned loc = hash_key(child->any_child()).n_bits(dir_pos, new_hash_len);
-
-								child->prefix_len -= start_arity;
-								new_dir->child(loc) = dir->const_child(i);
-								new_dir->child_count++;
-								new_dir->dir_count++;
-								child->parent = new_dir;
-								child->parent_pos = loc;
-								first = next;
-								continue;
-							}
-
-							if (child->hash_len != start_arity) {
-								// if child has more than start_arity bits
-								unsigned rem_bits = child->hash_len - start_arity;
-								unsigned mask = ((1U << rem_bits) - 1U);
-
-								for (unsigned j = 0; j < child_count; ++j) {
-									unsigned loc = (i << start_arity) | (j >> rem_bits); // take high bits of j
-									directory* intermediate = static_cast<directory*>(new_dir->children()[loc].ptr());
-									if (!intermediate)
-										// this part might throw which is a problem, we are in an intermediate state.
-										intermediate = make_intermediate(new_dir, rem_bits, loc);
-
-									// take low bits of j
-									if ((intermediate->children()[j & mask] = child->children()[j])) // take high bits of j
-									{
-										intermediate->child_count++;
-										if (intermediate->first_valid_child == static_cast<uint64_t>(-1))
-											intermediate->first_valid_child = j & mask;
-									}
-									if (child->children()[j].tag() == directory::IsDir) {
-										intermediate->dir_count++;
-										directory* d = child->const_child(j).to_dir();
-										d->parent = intermediate;
-										d->parent_pos = j & mask;
-									}
-									else if (child->children()[j].tag() != 0)
-										intermediate->first_valid_child = j & mask;
-
-									// set children to null in case of exception
-									child->children()[j] = child_ptr();
-								}
-							}
-							else {
-								for (unsigned j = 0; j < child_count; ++j) {
-									// compute location
-									unsigned loc = j | (i << child->hash_len);
-
-									if ((new_dir->children()[loc] = child->children()[j]))
-										++new_dir->child_count;
-
-									// update directory count
-									if SEQ_UNLIKELY (child->children()[j].tag() == directory::IsDir) {
-										new_dir->dir_count++;
-										directory* d = child->const_child(j).to_dir();
-										d->parent = new_dir;
-										d->parent_pos = loc;
-									}
-									// set children to null in case of exception
-									child->children()[j] = child_ptr();
-								}
-							}
-
-							directory::destroy(d_data->base, child, false);
-							first = next;
-						}
-					}
-					catch (...) {
-						// to keep the basic exception guarantee, the simplest solution is just to clear the tree
-						directory::destroy(d_data->base, new_dir, true);
-						for (; i != size; ++i) {
-							directory* next = first->parent;
-							directory::destroy(d_data->base, first, true);
-							first = next;
-						}
-						clear();
-
-						throw;
-					}
-
-					// reset parent
-					new_dir->parent = nullptr;
-				}*/
-
-				
-				// save internal value in order to reset it later to the new directory
-
 				// might throw, fine
 				directory* new_dir = directory::make(d_data->base, new_hash_len);
 				// copy prefix length
 				new_dir->prefix_len = dir->prefix_len;
 				// set parent, used by iterator::get_bit_pos
 				new_dir->parent = parent_dir;
+				new_dir->parent_pos = parent_pos;
 
 				try {
+					// First, create all intermediate directories for children having more than start_arity bits
 					for (unsigned i = 0; i < size; ++i) {
-						directory* child = static_cast<directory*>(dir->children()[i].ptr());
-						unsigned child_count = child->size();
-
-						if (prefix_search && child->prefix_len >= start_arity) {
-							// keep this directory and remove start_arity to the prefix.
-							size_t dir_pos = iterator::get_bit_pos(new_dir);
-							unsigned loc = hash_key(child->any_child()).n_bits(dir_pos, new_hash_len);
-
-							child->prefix_len -= start_arity;
-							new_dir->child(loc) = dir->const_child(i);
-							new_dir->child_count++;
-							new_dir->dir_count++;
-							child->parent = new_dir;
-							child->parent_pos = loc;
-							dir->children()[i] = child_ptr();
+						directory* child = dir->const_child(i).to_dir();
+						if ((prefix_search && child->prefix_len >= start_arity) || child->hash_len == start_arity)
 							continue;
+
+						unsigned rem_bits = child->hash_len - start_arity;
+						unsigned child_count = child->size();
+						for (unsigned j = 0; j < child_count; ++j) {
+							unsigned loc = (i << start_arity) | (j >> rem_bits); // take high bits of j
+							if (child->const_child(j) && !new_dir->const_child(loc))
+								make_intermediate(new_dir, rem_bits, loc);
 						}
+					}
+				}
+				catch (...) {
+					// Nothing was moved yet
+					directory::destroy(d_data->base, new_dir, true);
+					throw;
+				}
 
-						if (child->hash_len != start_arity) {
-							// if child has more than start_arity bits
-							unsigned rem_bits = child->hash_len - start_arity;
-							unsigned mask = ((1U << rem_bits) - 1U);
-
-							for (unsigned j = 0; j < child_count; ++j) {
-								unsigned loc = (i << start_arity) | (j >> rem_bits); // take high bits of j
-								directory* intermediate = static_cast<directory*>(new_dir->children()[loc].ptr());
-								if (!intermediate)
-									// this part might throw which is a problem, we are in an intermediate state.
-									intermediate = make_intermediate(new_dir, rem_bits, loc);
-
-								// take low bits of j
-								if ((intermediate->children()[j & mask] = child->children()[j])) // take high bits of j
-								{
-									intermediate->child_count++;
-									if (intermediate->first_valid_child == static_cast<uint64_t>(-1))
-										intermediate->first_valid_child = j & mask;
-								}
-								if (child->children()[j].tag() == directory::IsDir) {
-									intermediate->dir_count++;
-									directory* d = child->const_child(j).to_dir();
-									d->parent = intermediate;
-									d->parent_pos = j & mask;
-								}
-								else if (child->children()[j].tag() != 0)
-									intermediate->first_valid_child = j & mask;
+				// The remaining does not throw
 
-								// set children to null in case of exception
-								child->children()[j] = child_ptr();
+				for (unsigned i = 0; i < size; ++i) {
+					directory* child = dir->const_child(i).to_dir();
+					unsigned child_count = child->size();
+
+					if (prefix_search && child->prefix_len >= start_arity) {
+						// keep this directory and remove start_arity to the prefix.
+						size_t dir_pos = iterator::get_bit_pos(new_dir);
+						unsigned loc = hash_key(child->any_child()).n_bits(dir_pos, new_hash_len);
+
+						child->prefix_len -= start_arity;
+						new_dir->child(loc) = dir->const_child(i);
+						new_dir->child_count++;
+						new_dir->dir_count++;
+						child->parent = new_dir;
+						child->parent_pos = loc;
+						continue;
+					}
+
+					if (child->hash_len != start_arity) {
+						// if child has more than start_arity bits
+						unsigned rem_bits = child->hash_len - start_arity;
+						unsigned mask = ((1U << rem_bits) - 1U);
+
+						for (unsigned j = 0; j < child_count; ++j) {
+							if (!child->const_child(j))
+								continue;
+							unsigned loc = (i << start_arity) | (j >> rem_bits); // take high bits of j
+							directory* intermediate = new_dir->const_child(loc).to_dir();
+
+							// take low bits of j
+							intermediate->children()[j & mask] = child->children()[j];
+							intermediate->child_count++;
+							if (child->children()[j].tag() == directory::IsDir) {
+								intermediate->dir_count++;
+								directory* d = child->const_child(j).to_dir();
+								d->parent = intermediate;
+								d->parent_pos = j & mask;
+								if (intermediate->first_valid_child == directory::invalid)
+									intermediate->first_valid_child = j & mask;
 							}
+							else
+								intermediate->first_valid_child = j & mask;
 						}
-						else {
-							for (unsigned j = 0; j < child_count; ++j) {
-								// compute location
-								unsigned loc = j | (i << child->hash_len);
-
-								if ((new_dir->children()[loc] = child->children()[j]))
-									++new_dir->child_count;
-
-								// update directory count
-								if SEQ_UNLIKELY(child->children()[j].tag() == directory::IsDir) {
-									new_dir->dir_count++;
-									directory* d = child->const_child(j).to_dir(); 
-									d->parent = new_dir;
-									d->parent_pos = loc;
-								}
-								// set children to null in case of exception
-								child->children()[j] = child_ptr();
+					}
+					else {
+						for (unsigned j = 0; j < child_count; ++j) {
+							// compute location
+							unsigned loc = j | (i << child->hash_len);
+
+							if ((new_dir->children()[loc] = child->children()[j]))
+								++new_dir->child_count;
+
+							// update directory count
+							if SEQ_UNLIKELY (child->children()[j].tag() == directory::IsDir) {
+								new_dir->dir_count++;
+								directory* d = child->const_child(j).to_dir();
+								d->parent = new_dir;
+								d->parent_pos = loc;
 							}
 						}
-
-						dir->children()[i] = child_ptr();
-						directory::destroy(d_data->base, child, false);
 					}
-				}
-				catch (...) {
-					// to keep the basic exception guarantee, the simplest solution is just to clear the tree
-					directory::destroy(d_data->base, new_dir, true);
-					clear();
 
-					throw;
+					directory::destroy(d_data->base, child, false);
 				}
 
-				// reset parent
-				new_dir->parent = nullptr;
-
 				// destroy old directory
 				directory::destroy(d_data->base, dir, false);
-				
-
-				// keep merging if possible
-				while (new_dir->dir_count == new_dir->size()) {
-					if (parent_dir) {
-						parent_dir->children()[parent_pos] = child_ptr(new_dir, directory::IsDir);
-						new_dir->parent = parent_dir;
-						new_dir->parent_pos = parent_pos;
-						if (parent_dir->first_valid_child == parent_pos)
-							parent_dir->invalidate_first_valid();
-					}
-					directory* d = merge_dir(new_dir);
-					if (!d)
-						break;
-					new_dir = d;
-				}
 
+				// replace it
 				if (parent_dir) {
 					parent_dir->children()[parent_pos] = child_ptr(new_dir, directory::IsDir);
-					new_dir->parent = parent_dir;
-					new_dir->parent_pos = parent_pos;
 					if (parent_dir->first_valid_child == parent_pos)
 						parent_dir->invalidate_first_valid();
-
-					// try to merge up
-					if (parent_dir->dir_count == (1ULL << parent_dir->hash_len))
-						merge_dir(parent_dir);
 				}
 				else
 					d_root = d_data->base.root = new_dir;
@@ -2692,7 +2559,7 @@ namespace seq
 
 				// now, check if the current directory contains only directories, and merge it if possible
 				if (dir->dir_count == dir->size()) {
-					if (merge_dir(dir, prev_hash_bits)) {
+					if (merge_dir(dir)) {
 						// directory merging succeded, now insert the new value starting from the root
 						return this->insert_hash_with_tiny<EnsureSorted>(d_data->base.root, 0, hash, th, policy, std::forward<K>(key), std::forward<Args>(args)...).first;
 					}
-- 
2.43.0


From c7b32f0191ac6df5e7bce1348d4b0a724eea9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 074/129] fix: radix trees: an insertion or erasure that throws
 does not leave moved elements or a wrong size behind

---
 seq/internal/radix_tree.hpp | 122 ++++++++++++++++++++++++++++--------
 1 file changed, 96 insertions(+), 26 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c555a0..b2dd2b1 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2438,6 +2438,18 @@ namespace seq
 				return compute_common_bits(start_bits, Iter{ vals }, Iter{ vals + 2 });
 			}
 
+			// Tells if elements are moved (true) or copied (false) by std::move_if_noexcept()
+			static constexpr bool transfer_by_move = std::is_nothrow_move_constructible_v<T> || !std::is_copy_constructible_v<T>;
+
+			/// @brief Replace the (moved) element of given leaf by val
+			void move_back(node* n, unsigned pos, T&& val)
+			{
+				T* dst = n->values() + pos;
+				n->hashs()[pos] = hash_key(val).tiny_hash();
+				dst->~T();
+				new (dst) T(std::move(val));
+			}
+
 			/// @brief Move all elements within given leaf into a newly created vector, and insert given new value
 			template<class Policy, class K, class... Args>
 			const_iterator insert_in_vector(directory* dir, size_t bit_pos, node* child, unsigned pos, Policy, K&& key, Args&&... args)
@@ -2449,10 +2461,15 @@ namespace seq
 					T* vals = child->values();
 					unsigned count = child->count();
 					for (unsigned i = 0; i < count; ++i)
-						vec->emplace_no_check(std::move(vals[i]));
+						vec->emplace_no_check(std::move_if_noexcept(vals[i]));
 					position = Policy::emplace_vector_no_check(*vec, std::forward<K>(key), std::forward<Args>(args)...);
 				}
 				catch (...) {
+					if constexpr (transfer_by_move) {
+						// move elements back to the leaf
+						for (unsigned i = 0; i < vec->size(); ++i)
+							move_back(child, i, std::move(const_cast<T&>(vec->at(i))));
+					}
 					d_data->base.destroy_vector(vec);
 					throw;
 				}
@@ -2502,10 +2519,10 @@ namespace seq
 				directory* child_dir = directory::make(d_data->base, start_arity);
 
 				node* n = nullptr;
+				T* vals = child->values();
+				unsigned count = child->count();
 				try {
 					// Rehash node and insert its values inside the new directory
-					T* vals = child->values();
-					unsigned count = child->count();
 
 					if constexpr (prefix_search) {
 						// Find common prefix and increment bit position accordingly
@@ -2526,7 +2543,7 @@ namespace seq
 
 						if (!child_dir->const_child(new_pos).full()) {
 							// create node. If this throw, the new directory is destroyed (basic exception guarantee)
-							n = node::make(d_data->base, cth, EmplacePolicy{}, std::move(vals[i])).first;
+							n = node::make(d_data->base, cth, EmplacePolicy{}, std::move_if_noexcept(vals[i])).first;
 							child_dir->child(new_pos) = child_ptr(n, directory::IsLeaf);
 							child_dir->child_count++;
 							child_dir->first_valid_child = new_pos;
@@ -2536,14 +2553,21 @@ namespace seq
 							// if Sort is false, insert the value at the end of the leaf (only for sorted nodes)
 							n = static_cast<node*>(child_dir->const_child(new_pos).ptr());
 							auto p = n->template insert<extract_key_type, Less>(
-							  d_data->base, hash_bits, Sort ? static_cast<unsigned>(-1) : n->count(), cth, EmplacePolicy{}, std::move(vals[i]));
+							  d_data->base, hash_bits, Sort ? static_cast<unsigned>(-1) : n->count(), cth, EmplacePolicy{}, std::move_if_noexcept(vals[i]));
 							child_dir->child(new_pos) = child_ptr(n = p.first, directory::IsLeaf);
 						}
 					}
 				}
 				catch (...) {
-					// In case of exception, just destroyed the newly created directory.
-					// Some values might have been moved to it but, hey, this is basic exception guarantee only
+					// In case of exception, move back the values and destroy the newly created directory.
+					if constexpr (transfer_by_move) {
+						unsigned i = 0;
+						child_dir->for_each_leaf([&](directory* dir, unsigned pos) {
+							node* leaf = dir->child(pos).to_node();
+							for (unsigned j = 0; j < leaf->count(); ++j)
+								move_back(child, i++, std::move(leaf->values()[j]));
+						});
+					}
 					directory::destroy(d_data->base, child_dir);
 					throw;
 				}
@@ -2588,13 +2612,54 @@ namespace seq
 				return std::pair<const_iterator, bool>(const_iterator(d_data, dir, pos, 0, bit_pos), true);
 			}
 
+			/// @brief Destroy empty directories until root directory, and returns the first one that is not destroyed
+			directory* destroy_empty(directory* d) noexcept
+			{
+				while (d->parent && d->child_count == 0) {
+					directory* parent = d->parent;
+					unsigned parent_pos = d->parent_pos;
+
+					directory::destroy(d_data->base, d, false);
+					parent->children()[parent_pos] = child_ptr();
+					parent->child_count--;
+					parent->dir_count--;
+					if (parent->first_valid_child == parent_pos)
+						parent->invalidate_first_valid();
+					d = parent;
+				}
+				return d;
+			}
+
+			/// @brief Update the tree after a failed operation on a vector node that might have lost elements
+			void check_vector(directory* dir, unsigned pos, size_t old_size) noexcept
+			{
+				vector_type* v = dir->child(pos).to_vector();
+				d_data->base.size -= old_size - v->size();
+				if (v->size() == 0) {
+					d_data->base.destroy_vector(v);
+					dir->children()[pos] = child_ptr();
+					dir->child_count--;
+					if (dir->first_valid_child == pos)
+						dir->invalidate_first_valid();
+					destroy_empty(dir);
+				}
+			}
+
 			/// @brief Insert new value in a vector node
 			template<class Policy, class K, class... Args>
 			std::pair<const_iterator, bool> insert_in_vector_node(directory* dir, size_t bit_pos, unsigned pos, unsigned, Policy, K&& key, Args&&... args)
 			{
 				// child is a vector
 				vector_type* child = static_cast<vector_type*>(dir->children()[pos].ptr());
-				auto found = Policy::emplace_vector(*child, std::forward<K>(key), std::forward<Args>(args)...);
+				const size_t size = child->size();
+				std::pair<size_t, bool> found;
+				try {
+					found = Policy::emplace_vector(*child, std::forward<K>(key), std::forward<Args>(args)...);
+				}
+				catch (...) {
+					check_vector(dir, pos, size);
+					throw;
+				}
 				if (!found.second)
 					return std::pair<const_iterator, bool>(const_iterator(d_data, dir, pos, static_cast<unsigned>(found.first), bit_pos), false);
 				++d_data->base.size;
@@ -2675,7 +2740,7 @@ namespace seq
 			}
 
 			template<class U>
-			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) noexcept -> directory*
+			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) -> directory*
 			{
 				// Check if the value to insert follows the directory prefix.
 				// If not, create an intermediate directory with a new prefix.
@@ -2707,9 +2772,18 @@ namespace seq
 					return std::pair<const_iterator, bool>(const_iterator(d_data, dir, pos, static_cast<unsigned>(found.first - child->values()), hash_bits), false);
 
 				// check if the node is full and needs to be rehashed
-				if SEQ_UNLIKELY (child->full())
-					return std::pair<const_iterator, bool>(
-					  rehash_node_and_insert<EnsureSorted>(dir, hash_bits, hash, th, policy, std::forward<K>(key), std::forward<Args>(args)...), true);
+				if SEQ_UNLIKELY (child->full()) {
+					if constexpr (sizeof...(Args) == 0 && std::is_same_v<K, T>)
+						// single rvalue
+						return std::pair<const_iterator, bool>(rehash_node_and_insert<EnsureSorted>(dir, hash_bits, hash, th, policy, std::forward<K>(key)), true);
+					else {
+						// The arguments might belong to the elements that are going to be moved
+						PendingValue<T> val(policy, std::forward<K>(key), std::forward<Args>(args)...);
+						hash_type h = hash_key(*val.value);
+						return std::pair<const_iterator, bool>(
+						  rehash_node_and_insert<EnsureSorted>(dir, hash_bits, h, th, EmplacePolicy{}, std::move(*val.value)), true);
+					}
+				}
 
 				// add to leaf
 				auto p = child->template insert<extract_key_type, Less>(
@@ -3014,11 +3088,18 @@ namespace seq
 
 					// erase inside vector leaf
 					vector_type* v = d->child(dpos).to_vector();
-					v->erase(it.node_pos);
+					const size_t vsize = v->size();
+					try {
+						v->erase(it.node_pos);
+					}
+					catch (...) {
+						check_vector(d, dpos, vsize);
+						throw;
+					}
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
@@ -3060,18 +3141,7 @@ namespace seq
 				}
 
 				// Destroy empty directories until root directory
-				while (d->parent && d->child_count == 0) {
-					directory* parent = d->parent;
-					unsigned parent_pos = d->parent_pos;
-
-					directory::destroy(d_data->base, d, false);
-					parent->children()[parent_pos] = child_ptr();
-					parent->child_count--;
-					parent->dir_count--;
-					if (parent->first_valid_child == parent_pos)
-						parent->invalidate_first_valid();
-					d = parent;
-				}
+				d = destroy_empty(d);
 
 				// Rebalance
 				if (is_sorted && with_rebalance && d->hash_len != start_arity && d->child_count < (1ull << (d->hash_len - start_arity)))
-- 
2.43.0


From 0e9b119df11a11c514a270d3f7335a68e3cff85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 075/129] fix: radix trees: rebalancing after an erasure keeps
 the tree valid when an allocation fails

---
 seq/internal/radix_tree.hpp | 105 +++++++++++++++---------------------
 1 file changed, 42 insertions(+), 63 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index b2dd2b1..58d47d5 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2945,7 +2945,7 @@ namespace seq
 				return first;
 			}
 
-			size_t remove_directory(directory* d)
+			size_t remove_directory(directory* d, directory* new_root) noexcept
 			{
 				// Remove the directory from the tree
 				// and returns the total number fo removed elements.
@@ -2954,38 +2954,21 @@ namespace seq
 				//
 				// This leave the tree in a valid state.
 
-				if (!d->parent) {
+				if (!d->parent)
 					// Root dir
-					// Create a new root of half the size, might throw, fine
-					auto* new_root = directory::make(d_data->base, d->hash_len - start_arity);
 					d_data->base.root = d_root = new_root;
-				}
-
-				// The remaining does not throw
-
-				auto* p = d->parent;
 
-				// Detach directory
-				if (d->parent) {
-					d->parent->child(d->parent_pos) = child_ptr();
-					d->parent->child_count--;
-					d->parent->dir_count--;
-					d->parent->invalidate_first_valid();
+				else {
+					// Detach directory
+					auto* p = d->parent;
+					p->child(d->parent_pos) = child_ptr();
+					p->child_count--;
+					p->dir_count--;
+					p->invalidate_first_valid();
 					d->parent = nullptr;
 
 					// Destroy empty directories until root directory
-					while (p->parent && p->child_count == 0) {
-						directory* parent = p->parent;
-						unsigned parent_pos = p->parent_pos;
-
-						directory::destroy(d_data->base, p, false);
-						parent->children()[parent_pos] = child_ptr();
-						parent->child_count--;
-						parent->dir_count--;
-						if (parent->first_valid_child == parent_pos)
-							parent->invalidate_first_valid();
-						p = parent;
-					}
+					destroy_empty(p);
 				}
 
 				// Update container size
@@ -3004,44 +2987,41 @@ namespace seq
 
 			const_iterator rebalance(directory* d, const_iterator it)
 			{
-				const_iterator res = end();
-
-				// Move iterator value to tmp storage
-				alignas(T) char data[sizeof(T)];
-				T* value = it == end() ? nullptr : (T*)data;
-				if (value) {
-					new (value) T(std::move(*it));
-				}
-
-				// Check if 'it' is inside d.
-				// If not, remove it from the tree.
-				if (it != end()) {
-					auto dir = it.dir;
-					while (dir) {
-						if (dir == d)
-							break;
-						dir = dir->parent;
+				directory* new_root = nullptr;
+				if (!d->parent) {
+					// Root dir: create a new root of smaller size
+					try {
+						new_root = directory::make(d_data->base, d->hash_len - start_arity);
 					}
-					if (!dir) {
-						// NOT inside d
-						erase(it, false);
+					catch (...) {
+						// The tree is still valid
+						return it;
 					}
 				}
 
-				try {
-					remove_directory(d);
+				// Check if 'it' is inside d.
+				bool inside = false;
+				for (auto dir = it.dir; dir && !inside; dir = dir->parent)
+					inside = dir == d;
 
+				// Last element inserted
+				const_iterator last = end();
+
+				remove_directory(d, new_root);
+
+				try {
 					// Reinsert all values inside directory into the tree
-					d->for_each_leaf([this, &it](directory* dir, unsigned pos) {
+					d->for_each_leaf([&](directory* dir, unsigned pos) {
 						auto tag = dir->child(pos).tag();
 						if (tag == directory::IsLeaf) {
 							// Standard leaf
 							auto node = dir->child(pos).to_node();
 							for (unsigned i = 0; i < node->count(); ++i) {
-								// Insert all values except the moved one
+								// Insert all values except the one pointed by 'it'
 								if (it.dir != dir || it.child != pos || it.node_pos != i)
-									this->insert_hash_with_tiny<true>(
-									  d_data->base.root, 0, hash_key(node->values()[i]), node->hashs()[i], EmplacePolicy{}, std::move(node->values()[i]));
+									last = this->insert_hash_with_tiny<true>(
+											 d_data->base.root, 0, hash_key(node->values()[i]), node->hashs()[i], EmplacePolicy{}, std::move(node->values()[i]))
+										 .first;
 							}
 						}
 						else {
@@ -3049,27 +3029,26 @@ namespace seq
 							auto* vec = dir->child(pos).to_vector();
 							for (unsigned i = 0; i < vec->size(); ++i) {
 								if (it.dir != dir || it.child != pos || it.node_pos != i)
-									this->emplace(std::move(vec->at(i)));
+									last = this->emplace(std::move(const_cast<T&>(vec->at(i)))).first;
 							}
 						}
 					});
 
-					if (value) {
-						res = this->emplace(std::move(*value)).first;
-						value->~T();
-					}
+					if (inside)
+						// Insert it last, as other insertions might invalidate its position
+						it = this->emplace(std::move(*it)).first;
+					else if (it != end() && last != end())
+						// All inserted elements are lower than 'it', which position might have changed
+						it = ++last;
 				}
 				catch (...) {
-					// Destroy the directory and recompute ends
-					// to leave the tree in a valid state
+					// Destroy the directory to leave the tree in a valid state
 					directory::destroy(d_data->base, d);
-					if (value)
-						value->~T();
 					throw;
 				}
 
 				directory::destroy(d_data->base, d);
-				return res;
+				return it;
 			}
 
 			/// @brief Erase a single element
-- 
2.43.0


From c185ae71a4aabd70d39778e58e4f07b2a95b28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 076/129] fix: radix_hash_map: comparison does not depend on
 the order of the elements

---
 seq/radix_hash_map.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index ecf36a8..eea6d7b 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -883,9 +883,10 @@ namespace seq
 		using value_type_extract = typename radix_hash_map<Key, T, Hash, Equal, Al1, L1>::value_type_extract;
 		if (s1.size() != s2.size())
 			return false;
-		auto it1 = s1.begin();
-		for (auto it2 = s2.begin(); it2 != s2.end(); ++it2, ++it1) {
-			if (value_type_extract{}(*it1) != value_type_extract{}(*it2) || it1->second != it2->second)
+		// elements of both tables might be ordered differently
+		for (auto it1 = s1.begin(); it1 != s1.end(); ++it1) {
+			auto it2 = s2.find(value_type_extract{}(*it1));
+			if (it2 == s2.end() || !(it1->second == it2->second))
 				return false;
 		}
 		return true;
-- 
2.43.0


From a37cc92b69c9a741f372226e6b8e60bdf3018ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 077/129] fix: radix_map: try_emplace does not consume its
 arguments when the key exists in a vector node

---
 seq/internal/radix_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 58d47d5..e0e5488 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -693,6 +693,10 @@ namespace seq
 			template<class Vector, class K, class... Args>
 			static std::pair<size_t, bool> emplace_vector(Vector& v, K&& key, Args&&... args)
 			{
+				// the arguments must be left untouched if the key already exists
+				const size_t found = v.find(key);
+				if (found != v.size())
+					return std::pair<size_t, bool>(found, false);
 				return v.emplace(
 				  typename Vector::value_type(std::piecewise_construct, std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...)));
 			}
-- 
2.43.0


From be32b157cc7644fa00251c603cddfb6d81ce0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 078/129] fix: radix hash tables: do not keep moved-from
 elements in a vector node when erasing throws

---
 seq/internal/radix_tree.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index e0e5488..0cfdc25 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1802,7 +1802,17 @@ namespace seq
 				vector.emplace_back(std::forward<Args>(args)...);
 				return std::pair<size_t, bool>(vector.size() - 1, true);
 			}
-			SEQ_ALWAYS_INLINE void erase(size_t pos) { vector.erase(vector.begin() + pos); }
+			void erase(size_t pos)
+			{
+				try {
+					vector.erase(vector.begin() + pos);
+				}
+				catch (...) {
+					// some elements might be in a moved-from state
+					vector.clear();
+					throw;
+				}
+			}
 			template<class K>
 			SEQ_ALWAYS_INLINE size_t find(const K& key) const
 			{
-- 
2.43.0


From fbfbc73117b9f630fd63211a5dbd04f7273c3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 079/129] fix: flat_set/flat_map: never keep a moved-from
 element after a failed modification

---
 seq/flat_map.hpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 292b9e0..2cf5545 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -601,18 +601,7 @@ namespace seq
 					return;
 				d_deque.manager()->update_all_back_values();
 				if constexpr (!std::is_nothrow_move_constructible_v<Value> || !std::is_nothrow_move_assignable_v<Value>) {
-					// Values might be in a moved-from state
-					try {
-						auto prev = d_deque.begin();
-						auto it = prev;
-						for (++it; it != d_deque.end(); prev = it, ++it)
-							if (Unique ? !(*this)(*prev, *it) : (*this)(*it, *prev))
-								break;
-						if (it == d_deque.end())
-							return;
-					}
-					catch (...) {
-					}
+					// Values might be in a moved-from state, which checking the order does not always reveal
 					d_deque.clear();
 				}
 			}
-- 
2.43.0


From 7dcc7a163037de131d6784489c54d05bd9666206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 080/129] fix: tiered_vector: an insertion whose bucket
 allocation fails does not lose an element

---
 seq/tiered_vector.hpp | 55 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 46eb78c..cb39ea0 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1919,6 +1919,46 @@ namespace seq
 				destroy_bucket(d_buckets.front().bucket);
 				d_buckets.erase(d_buckets.begin());
 			}
+			// Bucket allocated before moving values around, so that an allocation failure has no side effect
+			struct SpareBucket
+			{
+				BucketManager* manager;
+				BucketType* bucket;
+				SpareBucket(BucketManager* m, bool front, bool required)
+				  : manager(m)
+				  , bucket(nullptr)
+				{
+					if (required) {
+						if (!front && m->d_buckets.back_capacity() == 0)
+							m->d_buckets.reserve_back(m->d_buckets.size() + 1);
+						if (front && m->d_buckets.front_capacity() == 0)
+							m->d_buckets.reserve_front(m->d_buckets.size() + 1);
+						bucket = m->make_bucket(m->d_bucket_size);
+					}
+				}
+				SpareBucket(const SpareBucket&) = delete;
+				SpareBucket& operator=(const SpareBucket&) = delete;
+				~SpareBucket()
+				{
+					if (bucket)
+						manager->destroy_bucket(bucket);
+				}
+				auto link_back() -> BucketType*
+				{
+					BucketType* res = bucket;
+					manager->d_buckets.push_back(res);
+					bucket = nullptr;
+					return res;
+				}
+				auto link_front() -> BucketType*
+				{
+					BucketType* res = bucket;
+					res->init_front();
+					manager->d_buckets.insert(manager->d_buckets.begin(), res);
+					bucket = nullptr;
+					return res;
+				}
+			};
 			// Remove the last bucket if left empty by a failed insertion
 			void remove_empty_back_bucket() noexcept
 			{
@@ -1997,10 +2037,11 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
+					SpareBucket spare(this, false, true);
 					T tmp = d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...);
 					if (StoreBackValues)
 						d_buckets[0].update();
-					BucketType* last = create_back_bucket();
+					BucketType* last = spare.link_back();
 					try {
 						last->emplace_back(std::move(tmp));
 					}
@@ -2042,9 +2083,10 @@ namespace seq
 				else if SEQ_UNLIKELY (bucket_index == 0) {
 					// insert into full first bucket
 					// Might throw, fine
+					SpareBucket spare(this, true, true);
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
 					try {
-						create_front_bucket()->emplace_back(std::move(tmp));
+						spare.link_front()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// check if front buffer is empty
@@ -2065,6 +2107,7 @@ namespace seq
 					// bucket(bucket_index)->insert<false>(index, value);
 
 					// Might throw, fine
+					SpareBucket spare(this, true, d_buckets.front()->isFull());
 					T tmp = bucket(bucket_index)->insert_pop_front(index, std::forward<Args>(args)...);
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
@@ -2088,7 +2131,7 @@ namespace seq
 						bucket->push_back_pop_front(tmp); // No discard
 						if (StoreBackValues)
 							d_buckets[0].update();
-						bucket = create_front_bucket();
+						bucket = spare.link_front();
 						try {
 							bucket->emplace_back(std::move(tmp));
 						}
@@ -2118,11 +2161,12 @@ namespace seq
 				else if SEQ_UNLIKELY (bucket_index == d_buckets.size() - 1) {
 					// Inserting into last (full) bucket
 					// Might throw, fine
+					SpareBucket spare(this, false, true);
 					T tmp = bucket(bucket_index)->insert_pop_back(index, std::forward<Args>(args)...);
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
 					try {
-						create_back_bucket()->emplace_back(std::move(tmp));
+						spare.link_back()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// Remove empty back bucket
@@ -2138,6 +2182,7 @@ namespace seq
 
 					size_type bindex = bucket_index;
 					// Might throw, fine
+					SpareBucket spare(this, false, d_buckets.back()->isFull());
 					T tmp = bucket(bindex)->insert_pop_back(index, std::forward<Args>(args)...);
 					if (StoreBackValues)
 						d_buckets[bindex].update();
@@ -2162,7 +2207,7 @@ namespace seq
 						bucket->push_front_pop_back(tmp);
 						if (StoreBackValues)
 							d_buckets.back().update();
-						bucket = create_back_bucket();
+						bucket = spare.link_back();
 						try {
 							bucket->emplace_front(std::move(tmp));
 						}
-- 
2.43.0


From 356bf12bc2c91e6198f51ac53c2b46a29b42ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 081/129] fix: radix trees: no moved-from element in a leaf
 that could not be turned into a vector

---
 seq/internal/radix_tree.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 0cfdc25..c8c5cdc 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2479,12 +2479,15 @@ namespace seq
 					position = Policy::emplace_vector_no_check(*vec, std::forward<K>(key), std::forward<Args>(args)...);
 				}
 				catch (...) {
-					if constexpr (transfer_by_move) {
-						// move elements back to the leaf
-						for (unsigned i = 0; i < vec->size(); ++i)
-							move_back(child, i, std::move(const_cast<T&>(vec->at(i))));
+					if constexpr (!transfer_by_move)
+						d_data->base.destroy_vector(vec);
+					else {
+						// a failed insertion in the vector might drop elements: keep the ones that were moved
+						const unsigned count = child->count();
+						node::destroy(d_data->base, child);
+						dir->children()[pos] = child_ptr(vec, directory::IsVector);
+						check_vector(dir, pos, count);
 					}
-					d_data->base.destroy_vector(vec);
 					throw;
 				}
 
-- 
2.43.0


From b8a436d7069dda0864ac5579ec4761b450242bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 082/129] fix: tiny_string: find_last_of/find_last_not_of(s,
 pos) and reverse lookups of views compile

---
 seq/tiny_string.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index b380671..ede1d1c 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1991,7 +1991,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class Al, size_t S>
@@ -2016,7 +2016,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0)
@@ -2364,7 +2364,7 @@ namespace seq
 		auto rfind(const std::basic_string_view<Char, Traits>& str, size_t pos = npos) const noexcept -> size_t { return rfind(str.data(), pos, str.size()); }
 
 		auto rfind(const Char* s, size_t pos = npos) const noexcept -> size_t { return rfind(s, pos, Traits::length(s)); }
-		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind(data(), pos, size(), s, n, npos); }
+		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind<Traits>(data(), pos, size(), s, n, npos); }
 		auto rfind(Char c, size_t pos = npos) const noexcept -> size_t { return std::basic_string_view<Char, Traits>(data(), size()).rfind(c, pos); }
 
 		auto find_first_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_of<Traits>(data(), pos, size(), s, n, npos); }
@@ -2382,7 +2382,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class A, size_t S>
@@ -2409,7 +2409,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0) {
-- 
2.43.0


From 99b1b186597d0cac105156b4501324ae61035de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 083/129] fix: tiny_string: find from any position, of an empty
 string too

---
 seq/tiny_string.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index ede1d1c..c6497cb 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -363,10 +363,10 @@ namespace seq
 		template<class Traits, class Char>
 		inline auto traits_string_find(const Char* data, size_t pos, size_t size, const Char* s, size_t n, size_t npos) noexcept -> size_t
 		{
-			if (n > size || pos + n > size)
+			if (pos > size || n > size - pos)
 				return npos;
 			if (n == 0)
-				return 0;
+				return pos;
 
 			const Char* in = data + pos;
 			const Char* end = in + (size - pos - n) + 1;
@@ -1955,6 +1955,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == NULL ? npos : p - begin();
 		}
@@ -2003,6 +2005,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p)
 				if (*p != c)
@@ -2346,6 +2350,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == nullptr ? npos : static_cast<size_t>(p - begin());
 		}
@@ -2394,6 +2400,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p) {
 				if (*p != c) {
-- 
2.43.0


From 670ae0f480b0bb60370b3c8c431afe6c03fc040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 084/129] fix: tiny_string: lengths near npos do not overflow
 the end check of sub-parts

---
 seq/tiny_string.hpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index c6497cb..85d00ab 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1151,7 +1151,7 @@ namespace seq
 		tiny_string(const tiny_string& other, size_t pos, size_t len, const Allocator& al = Allocator())
 		  : d_data(al)
 		{
-			if (len == npos || pos + len > other.size())
+			if (len > other.size() - pos)
 				len = other.size() - pos;
 			memcpy(initialize(len), other.data() + pos, len * sizeof(Char));
 		}
@@ -1276,7 +1276,7 @@ namespace seq
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			internal_resize(sublen, false, true);
 			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
@@ -1544,7 +1544,7 @@ namespace seq
 		template<size_t Ss, class Al>
 		auto append(const tiny_string<Char, Traits, Al, Ss>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1552,7 +1552,7 @@ namespace seq
 		template<class Al>
 		auto append(const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1560,7 +1560,7 @@ namespace seq
 		/// @brief Append the sub-part of str to this string
 		auto append(const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1642,7 +1642,7 @@ namespace seq
 		/// @brief Inserts a sub-part of str at position pos
 		auto insert(size_t pos, const tiny_string& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			insert(begin() + pos, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1690,7 +1690,7 @@ namespace seq
 		/// @brief Removes up to sublen character starting from subpos
 		auto erase(size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > size())
+			if (sublen > size() - subpos)
 				sublen = size() - subpos;
 			erase_internal(subpos, subpos + sublen);
 			return *this;
@@ -1714,7 +1714,7 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1723,7 +1723,7 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1748,7 +1748,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1765,9 +1765,9 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1776,9 +1776,9 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1787,9 +1787,9 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by a sub-part of str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1922,7 +1922,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::copy out of range");
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			memcpy(s, data() + pos, len * sizeof(Char));
 			return len;
@@ -1933,7 +1933,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::substr out of range");
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return tiny_string<Char, Traits, view_allocator<Char>, 0>(begin() + pos, len);
 		}
@@ -2065,7 +2065,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return compare(pos, len, str.data() + subpos, sublen);
 		}
@@ -2315,7 +2315,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::copy out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len > size() - pos) {
 				len = size() - pos;
 			}
 			memcpy(s, data() + pos, len * sizeof(Char));
@@ -2327,7 +2327,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::substr out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len > size() - pos) {
 				len = size() - pos;
 			}
 			return { begin() + pos, len };
@@ -2461,7 +2461,7 @@ namespace seq
 		template<class A, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, A, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size()) {
+			if (sublen > str.size() - subpos) {
 				sublen = str.size() - subpos;
 			}
 			return compare(pos, len, str.data() + subpos, sublen);
-- 
2.43.0


From 19e5d0208bf4ef1993f1b5f54434de738f5d2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 085/129] fix: tiny_string: replace clamps both the replaced
 and the replacing part

---
 seq/tiny_string.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 85d00ab..15a0d92 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1768,7 +1768,7 @@ namespace seq
 			if (len > size() - pos)
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1779,7 +1779,7 @@ namespace seq
 			if (len > size() - pos)
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1790,7 +1790,7 @@ namespace seq
 			if (len > size() - pos)
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1799,6 +1799,8 @@ namespace seq
 		auto replace(size_t pos, size_t len, const Char* s) -> tiny_string&
 		{
 			size_t l = Traits::length(s);
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, s, s + l);
 			return *this;
 		}
@@ -1812,6 +1814,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by buffer s of size n
 		auto replace(size_t pos, size_t len, const Char* s, size_t n) -> tiny_string&
 		{
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, s, s + n);
 			return *this;
 		}
@@ -1825,6 +1829,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by n copies of c
 		auto replace(size_t pos, size_t len, size_t n, Char c) -> tiny_string&
 		{
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, cvalue_iterator<Char>(0, c), cvalue_iterator<Char>(n));
 			return *this;
 		}
-- 
2.43.0


From b94e26c1f833939613a0be1acd272bb554b89eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 086/129] fix: tiny_string: compare(pos, len, ...) stops at the
 end of the string

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 15a0d92..be5edc8 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2079,7 +2079,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* s) const noexcept -> int { return compare(pos, len, s, Traits::length(s)); }
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
@@ -2477,7 +2477,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
 
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
-- 
2.43.0


From cf66a64bb82335ac20c96fdbf4e38b35268d356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 087/129] fix: tiny_string: shrink_to_fit of a short string on
 the heap releases its block

---
 seq/tiny_string.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index be5edc8..83dca5b 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -870,9 +870,10 @@ namespace seq
 
 				// from non sso to sso
 				Char* ptr = d_data.d_union.non_sso.data;
+				const size_t heap_size = capacity_internal() + char_offset;
 				if (keep_old)
 					memcpy(d_data.d_union.sso.data, ptr + char_offset, len * sizeof(Char));
-				d_data.deallocate(ptr, capacity_internal() + char_offset);
+				d_data.deallocate(ptr, heap_size);
 			}
 			// non sso new len, might throw
 			else {
@@ -1397,8 +1398,10 @@ namespace seq
 			if (!is_sso() && capacity_internal() != s + 1) {
 				Char* p = d_data.d_union.non_sso.data;
 				if (is_sso(s)) {
+					// read the capacity first: the copy overwrites the pointer to the heap block
+					const size_t heap_size = capacity_internal() + char_offset;
 					memcpy(d_data.d_union.sso.data, p + char_offset, (s + 1) * sizeof(Char));
-					d_data.deallocate(p, capacity_internal() + char_offset);
+					d_data.deallocate(p, heap_size);
 				}
 				else {
 					Char* _new = d_data.allocate(s + char_offset + 1);
-- 
2.43.0


From f49e9a165538f65388d82c6341e8d0e94e4c2d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 088/129] fix: tiny_string: an empty, cleared or moved-from
 string is null terminated

---
 seq/tiny_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 83dca5b..ec8d6c3 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -550,7 +550,8 @@ namespace seq
 
 			SEQ_STR_INLINE_STRONG void reset() noexcept
 			{
-				// Initialize with SSO string of size 0
+				// Initialize with SSO string of size 0, null terminated
+				d_union.sso.data[0] = 0;
 				last_sso_char() = static_cast<unsigned_char>(sso_mask);
 			}
 		};
-- 
2.43.0


From c2dc9a673ad2ce4e79a40ba1d03b13e5a4e9181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 089/129] fix: tiny_string: arguments that are part of the
 string, failing iterators and stateful allocators

---
 seq/tiny_string.hpp | 180 +++++++++++++++++++++++++++-----------------
 1 file changed, 113 insertions(+), 67 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index ec8d6c3..60a89d9 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -897,21 +897,66 @@ namespace seq
 			d_data.setSize(len);
 		}
 
+		SEQ_STR_INLINE bool is_own_data(const Char* s) const noexcept
+		{
+			// returns true if s points to the characters of this string
+			const Char* d = data();
+			return !std::less<const Char*>()(s, d) && !std::less<const Char*>()(d + size(), s);
+		}
+
+		template<class Iter>
+		bool needs_copy(const Iter& first) const noexcept
+		{
+			// Returns true if a random access range must be copied before modifying this string:
+			// reading it might throw, or it might belong to this string.
+			if constexpr (std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>)
+				return is_own_data(first);
+			else
+				return !std::is_same_v<Iter, cvalue_iterator<Char>>;
+		}
+
+		template<class Iter>
+		auto copy_range(Iter first, Iter last) const -> tiny_string
+		{
+			// copy range to a temporary string using the same allocator
+			tiny_string tmp(get_allocator());
+			if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<Iter>::iterator_category>)
+				tmp.reserve(static_cast<size_t>(last - first));
+			for (; first != last; ++first)
+				tmp.push_back(*first);
+			return tmp;
+		}
+
+		void assign_raw(const Char* s, size_t n)
+		{
+			// assign buffer, which might be a part of this string
+			if SEQ_UNLIKELY (is_own_data(s)) {
+				Char* d = data();
+				memmove(d, s, n * sizeof(Char));
+				d_data.setSizeKeepSSOFlag(n);
+				d[n] = 0;
+				return;
+			}
+			internal_resize(n, false, true);
+			memcpy(data(), s, n * sizeof(Char));
+		}
+
 		template<class Iter, class Cat>
 		void assign_cat(Iter first, Iter last, Cat /*unused*/)
 		{
 			// assign range for non random access iterators
-			tiny_string tmp;
-			while (first != last) {
-				tmp.push_back(*first);
-				++first;
-			}
-			*this = std::move(tmp);
+			tiny_string tmp = copy_range(first, last);
+			swap(tmp);
 		}
 		template<class Iter>
 		void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
 			// assign range for random access iterators
+			if (needs_copy(first)) {
+				tiny_string tmp = copy_range(first, last);
+				swap(tmp);
+				return;
+			}
 			internal_resize(static_cast<size_t>(last - first), false, true);
 			std::copy(first, last, data());
 		}
@@ -924,21 +969,25 @@ namespace seq
 			if (first == last)
 				return;
 
-			// push back, might throw
-			size_type prev_size = size();
-			for (; first != last; ++first)
-				push_back(*first);
 			// Might throw, fine
-			std::rotate(begin() + pos, begin() + prev_size, end());
+			const tiny_string tmp = copy_range(first, last);
+			insert_cat(pos, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
 		}
 
 		template<class Iter>
-		void insert_cat(size_t pos, Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
+		void insert_cat(size_t pos, Iter first, Iter last, std::random_access_iterator_tag tag)
 		{
 			// insert range for random access iterators
 			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
 			if (first == last)
 				return;
+			if constexpr (!std::is_same_v<Iter, cvalue_iterator<Char>>) {
+				if (needs_copy(first)) {
+					// Might throw, fine
+					const tiny_string tmp = copy_range(first, last);
+					return insert_cat(pos, tmp.begin(), tmp.end(), tag);
+				}
+			}
 
 			if (pos < size() / 2) {
 				size_type to_insert = static_cast<size_t>(last - first);
@@ -985,8 +1034,15 @@ namespace seq
 		}
 
 		template<class Iter>
-		void replace_cat(size_t pos, size_t len, Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
+		void replace_cat(size_t pos, size_t len, Iter first, Iter last, std::random_access_iterator_tag tag)
 		{
+			if constexpr (!std::is_same_v<Iter, cvalue_iterator<Char>>) {
+				if (needs_copy(first)) {
+					// Might throw, fine
+					const tiny_string tmp = copy_range(first, last);
+					return replace_cat(pos, len, tmp.begin(), tmp.end(), tag);
+				}
+			}
 			size_t input_size = (last - first);
 			size_t new_size = size() - len + input_size;
 			if (new_size <= capacity()) {
@@ -1003,7 +1059,7 @@ namespace seq
 			}
 
 			// otherwise, create a new string and fill it (might throw)
-			tiny_string other(new_size, 0);
+			tiny_string other(new_size, 0, get_allocator());
 			Char* op = other.data();
 			// first part
 			memcpy(op, data(), pos * sizeof(Char));
@@ -1018,7 +1074,7 @@ namespace seq
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, Cat c)
 		{
 			// otherwise, create a new string and fill it
-			tiny_string other;
+			tiny_string other(get_allocator());
 			// first part
 			other.append(data(), pos);
 			// middle part
@@ -1188,7 +1244,7 @@ namespace seq
 		/// @brief Construct by copying the range [first,last)
 		template<class Iter>
 		tiny_string(Iter first, Iter last, const Allocator& al = Allocator())
-		  : d_data(al)
+		  : tiny_string(al)
 		{
 			assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
 		}
@@ -1237,42 +1293,42 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const tiny_string& other) -> tiny_string&
 		{
-			if (is_sso() && other.is_sso())
-				memcpy(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
-			else {
-				if constexpr (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
-						clear();
-					}
+			if constexpr (assign_alloc<Allocator>::value) {
+				if (get_allocator() != other.get_allocator()) {
+					// copy with the new allocator first, might throw
+					tiny_string tmp(other, other.get_allocator());
+					clear();
+					assign_allocator(get_allocator(), other.get_allocator());
+					memcpy(&d_data.d_union, &tmp.d_data.d_union, sizeof(d_data.d_union));
+					tmp.d_data.reset();
+					return *this;
 				}
-				assign_allocator(get_allocator(), other.get_allocator());
-
-				internal_resize(other.size(), false, true);
-				memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
 			}
+			assign_allocator(get_allocator(), other.get_allocator());
+			if (is_sso() && other.is_sso())
+				memmove(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
+			else
+				assign_raw(other.data(), other.size());
 			return *this;
 		}
 		/// @brief Assign the content of other to this string
 		template<class OtherAlloc, size_t OtherMaxStaticSize>
 		auto assign(const tiny_string<Char, Traits, OtherAlloc, OtherMaxStaticSize>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
+			assign_raw(other.data(), other.size());
 			return *this;
 		}
 		/// @brief Assign the content of other to this string
 		template<class Al>
 		auto assign(const std::basic_string<Char, Traits, Al>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
+			assign_raw(other.data(), other.size());
 			return *this;
 		}
 		/// @brief Assign the content of other to this string
 		auto assign(const std::basic_string_view<Char, Traits>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.data(), other.size() * sizeof(Char));
+			assign_raw(other.data(), other.size());
 			return *this;
 		}
 		/// @brief Assign a sub-part of other to this string
@@ -1280,23 +1336,19 @@ namespace seq
 		{
 			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
-			internal_resize(sublen, false, true);
-			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
+			assign_raw(str.data() + subpos, sublen);
 			return *this;
 		}
 		/// @brief Assign a null-terminated buffer to this string
 		auto assign(const Char* s) -> tiny_string&
 		{
-			size_t len = Traits::length(s);
-			internal_resize(len, false, true);
-			memcpy(this->data(), s, len * sizeof(Char));
+			assign_raw(s, Traits::length(s));
 			return *this;
 		}
 		/// @brief Assign a buffer to this string
 		auto assign(const Char* s, size_t n) -> tiny_string&
 		{
-			internal_resize(n, false, true);
-			memcpy(this->data(), s, n * sizeof(Char));
+			assign_raw(s, n);
 			return *this;
 		}
 		/// @brief Reset the string by n copies of c
@@ -1367,7 +1419,7 @@ namespace seq
 				return;
 			}
 
-			tiny_string other(n, 0);
+			tiny_string other(n, 0, get_allocator());
 			if (n > old_size) {
 				std::fill_n(other.data(), n - old_size, c);
 				memcpy(other.data() + n - old_size, data(), old_size * sizeof(Char));
@@ -1579,8 +1631,10 @@ namespace seq
 				return *this;
 			size_t old_size = size();
 			size_t new_size = old_size + n;
+			const bool own = is_own_data(s);
+			const size_t offset = own ? static_cast<size_t>(s - data()) : 0;
 			Char* d = resize_grow(new_size);
-			memcpy(d + old_size, s, n * sizeof(Char));
+			memcpy(d + old_size, own ? d + offset : s, n * sizeof(Char));
 			d[new_size] = 0;
 			return *this;
 		}
@@ -1602,21 +1656,13 @@ namespace seq
 		{
 			if (first == last)
 				return *this;
-			if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
-				size_t n = std::distance(first, last);
-				size_t old_size = size();
-				size_t new_size = old_size + n;
-				Char* d = resize_grow(new_size);
-				std::copy(first, last, d + old_size);
-				d[new_size] = 0;
-			}
+			if constexpr (std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>)
+				return append(static_cast<const Char*>(first), static_cast<size_t>(last - first));
 			else {
-				while (first != last) {
-					push_back(*first);
-					++first;
-				}
+				// Reading the range might throw, or it might belong to this string
+				const tiny_string tmp = copy_range(first, last);
+				return append(tmp.data(), tmp.size());
 			}
-			return *this;
 		}
 		/// @brief Append the content of the range [il.begin(),il.end()) to this string
 		auto append(std::initializer_list<Char> il) -> tiny_string& { return append(il.begin(), il.end()); }
@@ -1625,21 +1671,21 @@ namespace seq
 		template<size_t S, class AL>
 		auto insert(size_t pos, const tiny_string<Char, Traits, AL, S>& str) -> tiny_string&
 		{
-			insert(begin() + pos, str.begin(), str.end());
+			insert(begin() + pos, str.data(), str.data() + str.size());
 			return *this;
 		}
 		/// @brief Inserts a sub-part of str at position pos
 		template<class Al>
 		auto insert(size_t pos, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
-			insert(begin() + pos, str.begin(), str.end());
+			insert(begin() + pos, str.data(), str.data() + str.size());
 			return *this;
 		}
 
 		/// @brief Inserts a sub-part of str at position pos
 		auto insert(size_t pos, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
-			insert(begin() + pos, str.begin(), str.end());
+			insert(begin() + pos, str.data(), str.data() + str.size());
 			return *this;
 		}
 
@@ -1720,7 +1766,7 @@ namespace seq
 		{
 			if (len > size() - pos)
 				len = size() - pos;
-			replace_internal(pos, len, str.begin(), str.end());
+			replace_internal(pos, len, str.data(), str.data() + str.size());
 			return *this;
 		}
 
@@ -1729,7 +1775,7 @@ namespace seq
 		{
 			if (len > size() - pos)
 				len = size() - pos;
-			replace_internal(pos, len, str.begin(), str.end());
+			replace_internal(pos, len, str.data(), str.data() + str.size());
 			return *this;
 		}
 
@@ -1737,14 +1783,14 @@ namespace seq
 		template<class Al>
 		auto replace(const_iterator i1, const_iterator i2, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
-			replace_internal(i1 - cbegin(), i2 - i1, str.begin(), str.end());
+			replace_internal(i1 - cbegin(), i2 - i1, str.data(), str.data() + str.size());
 			return *this;
 		}
 
 		/// @brief Replace characters in the range [i1,i2) by str
 		auto replace(const_iterator i1, const_iterator i2, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
-			replace_internal(i1 - cbegin(), i2 - i1, str.begin(), str.end());
+			replace_internal(i1 - cbegin(), i2 - i1, str.data(), str.data() + str.size());
 			return *this;
 		}
 
@@ -1754,14 +1800,14 @@ namespace seq
 		{
 			if (len > size() - pos)
 				len = size() - pos;
-			replace_internal(pos, len, str.begin(), str.end());
+			replace_internal(pos, len, str.data(), str.data() + str.size());
 			return *this;
 		}
 		/// @brief Replace characters in the range [i1,i2) by str
 		template<class Al, size_t S>
 		auto replace(const_iterator i1, const_iterator i2, const tiny_string<Char, Traits, Al, S>& str) -> tiny_string&
 		{
-			replace_internal(i1 - cbegin(), i2 - i1, str.begin(), str.end());
+			replace_internal(i1 - cbegin(), i2 - i1, str.data(), str.data() + str.size());
 			return *this;
 		}
 
@@ -1773,7 +1819,7 @@ namespace seq
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
-			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
+			replace_internal(pos, len, str.data() + subpos, str.data() + subpos + sublen);
 			return *this;
 		}
 		/// @brief Replace up to len character starting from pos by a sub-part of str
@@ -1784,7 +1830,7 @@ namespace seq
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
-			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
+			replace_internal(pos, len, str.data() + subpos, str.data() + subpos + sublen);
 			return *this;
 		}
 
@@ -1795,7 +1841,7 @@ namespace seq
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
-			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
+			replace_internal(pos, len, str.data() + subpos, str.data() + subpos + sublen);
 			return *this;
 		}
 
-- 
2.43.0


From 37692678f5002d0d9a3cab150319c9cf5becec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 090/129] fix: tiny_string: stream operators report an
 exception of the stream buffer as std::string does

---
 seq/tiny_string.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 60a89d9..2f6958f 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -3114,6 +3114,20 @@ namespace seq
 	 * Reading/writing from/to streams
 	 * ********************************/
 
+	namespace detail
+	{
+		template<class Stream>
+		inline void string_stream_failure(Stream& str)
+		{
+			// Set badbit without throwing std::ios_base::failure
+			try {
+				str.setstate(std::ios_base::badbit);
+			}
+			catch (const std::ios_base::failure&) {
+			}
+		}
+	}
+
 	template<class Elem, class Traits, size_t Size, class Alloc>
 	inline auto operator>>(std::basic_istream<Elem, Traits>& iss, tiny_string<Elem, Traits, Alloc, Size>& str) ->
 	  typename std::enable_if<!std::is_same_v<Alloc, view_allocator<Elem>>, std::basic_istream<Elem, Traits>>::type&
@@ -3148,7 +3162,9 @@ namespace seq
 					}
 			}
 			catch (...) {
-				iss.setstate(std::ios_base::badbit);
+				detail::string_stream_failure(iss);
+				if (iss.exceptions() & std::ios_base::badbit)
+					throw;
 			}
 		}
 
@@ -3195,8 +3211,9 @@ namespace seq
 				oss.width(0);
 			}
 			catch (...) {
-				oss.setstate(std::ios_base::badbit);
-				throw;
+				detail::string_stream_failure(oss);
+				if (oss.exceptions() & std::ios_base::badbit)
+					throw;
 			}
 		}
 
-- 
2.43.0


From 8933b22b40b1242e3856b827955048d7db262c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 091/129] fix: tiny_string: move assignment does not take
 memory of an unequal allocator

---
 seq/tiny_string.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 2f6958f..17ea9a5 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1361,10 +1361,17 @@ namespace seq
 		/// @brief Assign to this string the initializer list il
 		auto assign(std::initializer_list<Char> il) -> tiny_string& { return assign(il.begin(), il.end()); }
 		/// @brief Move the content of other to this string. Equivalent to tiny_string::operator=.
-		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(noexcept(std::declval<internal_data&>().swap(std::declval<internal_data&>()))) -> tiny_string&
+		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || is_always_equal<Allocator>::value) -> tiny_string&
 		{
-			if constexpr (sizeof(tiny_string) <= 16 || !noexcept(move_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
-				// Use internal_data.swap() for small static size or if moving allocator is NOT noexcept
+			if constexpr (!std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value && !is_always_equal<Allocator>::value) {
+				// The storage of other cannot be stolen, might throw
+				if (get_allocator() != other.get_allocator()) {
+					assign_raw(other.data(), other.size());
+					return *this;
+				}
+			}
+			if constexpr (sizeof(tiny_string) <= 16)
+				// Use internal_data.swap() for small static size (stateless allocator)
 				d_data.swap(other.d_data);
 			else if SEQ_LIKELY (this != std::addressof(other)) {
 				if (!is_sso())
-- 
2.43.0


From c4167790efc95ba8c1ba253ea1c55fb1d323294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 092/129] fix: tiny_string: replace moves the whole tail of a
 wide string

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 17ea9a5..213b113 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1048,7 +1048,7 @@ namespace seq
 			if (new_size <= capacity()) {
 				// do everything inplace
 				if (input_size != len)
-					memmove(data() + pos + input_size, data() + pos + len, size() - (pos + len));
+					memmove(data() + pos + input_size, data() + pos + len, (size() - (pos + len)) * sizeof(Char));
 
 				// copy input
 				std::copy(first, last, data() + pos);
-- 
2.43.0


From 8cf283f8f6ad92a19cb28e53950d20b7201aed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 093/129] fix: hold_any: objects in a separate storage are
 copied and freed as such, whatever their size

---
 seq/any.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ed1d39c..61a2cc4 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1564,6 +1564,8 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto complex_copy() const noexcept -> bool { return (this->d_type_info.full() & detail::complex_copy) != 0; }
 		SEQ_ALWAYS_INLINE auto big_size() const noexcept -> bool { return (this->d_type_info.full() & detail::big_size) != 0; }
 		SEQ_ALWAYS_INLINE auto non_relocatable() const noexcept -> bool { return (this->d_type_info.full() & detail::non_relocatable) != 0; }
+		// Size available in the small buffer for an object of the held type, 0 if this type uses a separate storage
+		SEQ_ALWAYS_INLINE auto inline_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
 
 		template<class T>
 		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
@@ -1608,7 +1610,7 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && sizeof(type) > static_size)
+					if (d && (this->d_type_info.tag() & detail::big_size))
 						SEQ_ANY_FREE(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
@@ -1673,7 +1675,7 @@ namespace seq
 			}
 			else {
 				// copy data, might throw
-				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, static_size);
+				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, other.inline_size());
 			}
 			// copy type info
 			this->d_type_info = other.d_type_info;
@@ -1699,7 +1701,7 @@ namespace seq
 				}
 				else {
 					// move data, might throw
-					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, (static_size));
+					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.inline_size());
 					// copy tag and info pointer on success
 					this->d_type_info = other.d_type_info;
 				}
@@ -1756,7 +1758,7 @@ namespace seq
 			}
 			else {
 				// copy any type, might throw
-				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, other.inline_size());
 			}
 			this->d_type_info = other.d_type_info;
 
@@ -1790,14 +1792,14 @@ namespace seq
 					}
 					else {
 						// move, might throw
-						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.inline_size());
 					}
 				}
 				else {
 					// different type, clear this object
 					reset();
 					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, static_size);
+					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, other.inline_size());
 					// copy type info with tags
 					this->d_type_info = other.d_type_info;
 				}
-- 
2.43.0


From d57a0111db51a9b5eb9eea5f2a9f10d427c1caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 094/129] fix: hold_any: honour the alignment of the held type

---
 seq/any.hpp | 66 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 61a2cc4..ec6bd7e 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -38,6 +38,7 @@ The <i>any</i> module provides the seq::hold_any class and related functions to
 #include "hash.hpp"
 
 #include <atomic>
+#include <new>
 
 #ifndef SEQ_ANY_MALLOC
 #define SEQ_ANY_MALLOC operator new // allocation function used within seq::hold_any
@@ -192,6 +193,29 @@ namespace seq
 			return res;
 		}
 
+		/// @brief Allocate memory for an object of type T
+		template<class T>
+		SEQ_ALWAYS_INLINE auto any_alloc() -> void*
+		{
+			if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				return ::operator new(sizeof(T), std::align_val_t(alignof(T)));
+			else {
+				void* p = SEQ_ANY_MALLOC(sizeof(T));
+				if SEQ_UNLIKELY (p == nullptr)
+					throw std::bad_alloc();
+				return p;
+			}
+		}
+		/// @brief Free memory allocated with any_alloc<T>()
+		template<class T>
+		SEQ_ALWAYS_INLINE void any_free(void* p) noexcept
+		{
+			if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				::operator delete(p, std::align_val_t(alignof(T)));
+			else
+				SEQ_ANY_FREE(p);
+		}
+
 		enum AnyTag
 		{
 			// tags used to describe a type and used by hold_any
@@ -575,9 +599,7 @@ namespace seq
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
-					dst = SEQ_ANY_MALLOC(sizeof(T));
-					if (!dst)
-						throw std::bad_alloc();
+					dst = any_alloc<T>();
 					memcpy(out_storage, &dst, sizeof(void*));
 				}
 				try {
@@ -585,7 +607,7 @@ namespace seq
 				}
 				catch (...) {
 					if (sizeof(T) > out_storage_size)
-						SEQ_ANY_FREE(dst);
+						any_free<T>(dst);
 					throw;
 				}
 			}
@@ -606,9 +628,7 @@ namespace seq
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
-					dst = SEQ_ANY_MALLOC(sizeof(T));
-					if SEQ_UNLIKELY (!dst)
-						throw std::bad_alloc();
+					dst = any_alloc<T>();
 					memcpy(out_storage, &dst, sizeof(void*));
 				}
 				try {
@@ -616,7 +636,7 @@ namespace seq
 				}
 				catch (...) {
 					if (sizeof(T) > out_storage_size)
-						SEQ_ANY_FREE(dst);
+						any_free<T>(dst);
 					throw;
 				}
 			}
@@ -643,6 +663,8 @@ namespace seq
 		virtual auto sizeof_type() const noexcept -> size_t = 0;
 		/// @brief Destroy object
 		virtual void destroy_any(void* in) const noexcept = 0;
+		/// @brief Free the separate storage of an object
+		virtual void free_any(void* in) const noexcept { SEQ_ANY_FREE(in); }
 		/// @brief Compare 2 objects of same type for equality
 		virtual auto equal_any(const void* a, const void* o) const -> bool = 0;
 		/// @brief Compare 2 objects of same type for less than
@@ -665,6 +687,7 @@ namespace seq
 	{
 		auto sizeof_type() const noexcept -> size_t override { return sizeof(T); }
 		void destroy_any(void* in) const noexcept override { static_cast<T*>(in)->~T(); }
+		void free_any(void* in) const noexcept override { detail::any_free<T>(in); }
 		auto equal_any(const void* a, const void* b) const -> bool override { return detail::compare_equal_any<T>(a, b); }
 		auto less_any(const void* a, const void* b) const -> bool override { return detail::compare_less_any<T>(a, b); }
 		auto hash_any(const void* in) const -> size_t override { return detail::hash_any<T, SupportHash>(in); }
@@ -767,15 +790,15 @@ namespace seq
 		}
 
 		/// @brief Check if given type required a separated (heap allocated) storage
-		template<class T, size_t SizeofStorage, bool ForceRelocatable>
+		template<class T, class Storage, bool ForceRelocatable>
 		struct need_separate_storage
 		{
-			static constexpr bool value = sizeof(T) > SizeofStorage;
+			static constexpr bool value = (sizeof(T) > sizeof(Storage)) || (alignof(T) > alignof(Storage));
 		};
-		template<class T, size_t SizeofStorage>
-		struct need_separate_storage<T, SizeofStorage, true>
+		template<class T, class Storage>
+		struct need_separate_storage<T, Storage, true>
 		{
-			static constexpr bool value = (sizeof(T) > SizeofStorage) || (!seq::is_relocatable<T>::value);
+			static constexpr bool value = (sizeof(T) > sizeof(Storage)) || (alignof(T) > alignof(Storage)) || (!seq::is_relocatable<T>::value);
 		};
 	}
 
@@ -810,17 +833,14 @@ namespace seq
 		template<class T>
 		auto alloc() -> void*
 		{
-			static constexpr size_t size_T = sizeof(T);
 			// compile time tags
 			static constexpr size_t tag = (std::is_trivially_destructible_v<T> ? 0 : 1) | (std::is_trivially_copyable_v<T> ? 0 : 2) | (is_relocatable<T>::value ? 0 : 4) |
-						      (detail::need_separate_storage<T, sizeof(storage_type), ForceRelocatable>::value ? 8 : 0) | (std::is_pointer_v<T> ? 16 : 0);
+						      (detail::need_separate_storage<T, storage_type, ForceRelocatable>::value ? 8 : 0) | (std::is_pointer_v<T> ? 16 : 0);
 
-			// create object storage with allocation if sizeof(T) > StaticSize
+			// create object storage with allocation if T does not fit in the small buffer
 			void* d = &d_storage;
 			if (tag & detail::big_size) {
-				d = SEQ_ANY_MALLOC(size_T);
-				if SEQ_UNLIKELY (d == nullptr)
-					throw std::bad_alloc();
+				d = detail::any_alloc<T>();
 				memcpy(&d_storage, &d, sizeof(void*));
 			}
 			// set the type tags
@@ -835,7 +855,7 @@ namespace seq
 			if (d_type_info.full() & detail::big_size) {
 				void* d;
 				memcpy(&d, &d_storage, sizeof(void*));
-				SEQ_ANY_FREE(d);
+				type()->free_any(d);
 			}
 			// clear any_type_info pointer
 			d_type_info.set_full(0);
@@ -1611,7 +1631,7 @@ namespace seq
 				catch (...) {
 					// free memory chunk if needed
 					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
+						detail::any_free<type>(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
@@ -1730,7 +1750,7 @@ namespace seq
 			catch (...) {
 				// free memory if needed
 				if (d && (this->d_type_info.tag() & detail::big_size))
-					SEQ_ANY_FREE(d);
+					detail::any_free<type>(d);
 				// reset type info
 				this->d_type_info.set_full(0);
 				throw;
@@ -1835,7 +1855,7 @@ namespace seq
 				catch (...) {
 					// free memory chunk if needed
 					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
+						detail::any_free<type>(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
-- 
2.43.0


From 6d70907140ba5ba2041408dd8dbe8cc25fc39c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 095/129] fix: hold_any: any_cast to a pointer works for every
 hold_any type, and with a null pointer

---
 seq/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ec6bd7e..e1100ae 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2302,7 +2302,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(const hold_any<Interface, S, A, R>* operand) noexcept -> const T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<const T*>(operand->data());
 		return nullptr;
 	}
@@ -2310,7 +2310,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(hold_any<Interface, S, A, R>* operand) noexcept -> T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<T*>(operand->data());
 		return nullptr;
 	}
-- 
2.43.0


From b5e8fd621f2664d883f602bb590eb016916ab284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 096/129] fix: hold_any: an empty object is not greater than a
 value

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index e1100ae..45a200e 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1999,7 +1999,7 @@ namespace seq
 			using type = typename std::decay<T>::type;
 
 			if (this->empty())
-				return true;
+				return false;
 
 			const type_info_type* otype = get_type<type>();
 
-- 
2.43.0


From 44e6e05eadb2ba060a11b152e0657e4ce124c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 097/129] fix: hold_any: assigning a part of the held object

---
 seq/any.hpp | 170 ++++++++++++++++++++++------------------------------
 1 file changed, 73 insertions(+), 97 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 45a200e..5460d8f 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1587,19 +1587,53 @@ namespace seq
 		// Size available in the small buffer for an object of the held type, 0 if this type uses a separate storage
 		SEQ_ALWAYS_INLINE auto inline_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
 
-		template<class T>
-		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
+		template<class type, class... Args>
+		void construct(Args&&... args)
 		{
-			// Returns pointer to T*, never reached (just here to avoid compile warning)
-#ifdef __clang__
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-#endif
-			static T t;
-#ifdef __clang__
-#pragma clang diagnostic pop
-#endif
-			return &t;
+			// Construct object inside an empty hold_any
+
+			// set the type info pointer
+			this->d_type_info = get_type<type>();
+
+			SEQ_ASSERT_DEBUG(this->d_type_info != nullptr, "nullptr type info");
+
+			void* d = nullptr;
+			try {
+				// returns (and potentially allocate) memory storage, might throw
+				d = this->template alloc<type>();
+				// construct, might throw
+				new (d) type(std::forward<Args>(args)...);
+			}
+			catch (...) {
+				// free memory if needed
+				if constexpr (detail::need_separate_storage<type, typename base_type::storage_type, Relocatable>::value) {
+					if (d)
+						detail::any_free<type>(d);
+				}
+				// reset type info
+				this->d_type_info.set_full(0);
+				throw;
+			}
+		}
+
+		void take(hold_any& other) noexcept(Relocatable)
+		{
+			// Replace content by the one of other, which is not part of this object
+
+			// clear this object
+			reset();
+			if (Relocatable || other.big_size() || !other.non_relocatable()) {
+				// for big types or relocatable types, simple memcpy and reset other tags
+				memcpy(&this->d_storage, &other.d_storage, static_size);
+				this->d_type_info = other.d_type_info;
+				other.d_type_info.set_full(0);
+			}
+			else {
+				// move data, might throw
+				other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.inline_size());
+				// copy tag and info pointer on success
+				this->d_type_info = other.d_type_info;
+			}
 		}
 
 		template<class ValueType, class... Args>
@@ -1617,27 +1651,12 @@ namespace seq
 				*out = type(std::forward<Args>(args)...);
 			}
 			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					out = new (d) type(std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						detail::any_free<type>(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
-					// just to remove cppcheck warning
-					out = get_null_out<type>();
-				}
+				// different types: arguments might be part of the held object,
+				// create the new object before destroying the old one
+				hold_any tmp;
+				tmp.template construct<type>(std::forward<Args>(args)...);
+				take(tmp);
+				out = static_cast<type*>(this->data());
 			}
 
 			return *out;
@@ -1735,26 +1754,7 @@ namespace seq
 		{
 			// remove const ref to T
 			using type = typename std::decay<T>::type;
-			// set the type info pointer
-			this->d_type_info = get_type<type>();
-
-			SEQ_ASSERT_DEBUG(this->d_type_info != nullptr, "nullptr type info");
-
-			void* d = nullptr;
-			try {
-				// returns (and potentially allocate) memory storage, might throw
-				d = this->template alloc<type>();
-				// construct, might throw
-				new (d) type(std::forward<T>(value));
-			}
-			catch (...) {
-				// free memory if needed
-				if (d && (this->d_type_info.tag() & detail::big_size))
-					detail::any_free<type>(d);
-				// reset type info
-				this->d_type_info.set_full(0);
-				throw;
-			}
+			this->template construct<type>(std::forward<T>(value));
 		}
 
 		/// @brief Destructor
@@ -1767,12 +1767,12 @@ namespace seq
 			const auto* o_t = other.type();
 
 			if (i_t != o_t) {
-				// reset this object content if its type is different than other's type
-				reset();
-				i_t = nullptr;
+				// different types: other might be part of the held object,
+				// copy it before destroying the old one
+				hold_any tmp(other);
+				take(tmp);
 			}
-
-			if (!other.big_size() && !other.complex_copy()) {
+			else if (!other.big_size() && !other.complex_copy()) {
 				// copy small POD type
 				memcpy(&this->d_storage, &other.d_storage, static_size);
 			}
@@ -1780,7 +1780,6 @@ namespace seq
 				// copy any type, might throw
 				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, other.inline_size());
 			}
-			this->d_type_info = other.d_type_info;
 
 			return *this;
 		}
@@ -1789,9 +1788,10 @@ namespace seq
 		auto operator=(hold_any&& other) noexcept(Relocatable) -> hold_any&
 		{
 			if constexpr (Relocatable) {
-				// Move assignment is much more simple with relocatable hold_any
-				std::swap(this->d_storage, other.d_storage);
-				std::swap(this->d_type_info, other.d_type_info);
+				// Move assignment is much more simple with relocatable hold_any.
+				// Note that other might be part of the held object.
+				hold_any tmp(std::move(other));
+				take(tmp);
 				return *this;
 			}
 			else {
@@ -1804,24 +1804,15 @@ namespace seq
 				const auto* i_t = this->type();
 				const auto* o_t = other.type();
 
-				if (i_t == o_t) {
-					// same non null type
-					if (!other.non_relocatable()) {
-						// relocatable: just swap storage
-						std::swap(this->d_storage, other.d_storage);
-					}
-					else {
-						// move, might throw
-						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.inline_size());
-					}
+				if (i_t == o_t && other.non_relocatable()) {
+					// same non null type: move, might throw
+					o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.inline_size());
 				}
 				else {
-					// different type, clear this object
-					reset();
-					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, other.inline_size());
-					// copy type info with tags
-					this->d_type_info = other.d_type_info;
+					// other might be part of the held object,
+					// move it before destroying the old one
+					hold_any tmp(std::move(other));
+					take(tmp);
 				}
 
 				return *this;
@@ -1841,25 +1832,10 @@ namespace seq
 				*static_cast<type*>(this->data()) = std::forward<T>(value);
 			}
 			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					new (d) type(std::forward<T>(value));
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						detail::any_free<type>(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
-				}
+				// different types: value might be part of the held object,
+				// copy it before destroying the old one
+				hold_any tmp(std::forward<T>(value));
+				take(tmp);
 			}
 
 			return *this;
-- 
2.43.0


From ccd94335763e459408c78eb009fbc26df7dc6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 098/129] fix: hold_any: copy and move assignment of types that
 have no assignment

---
 seq/any.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 5460d8f..5320b1b 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -586,7 +586,7 @@ namespace seq
 		{
 			// Copy object to destination buffer, allocating buffer if dst size is not big enough
 
-			if (!std::is_copy_assignable_v<T> && !std::is_copy_constructible_v<T>)
+			if (!std::is_copy_constructible_v<T> && !(in_p == out_p && std::is_copy_assignable_v<T>))
 				throw seq::bad_any_function_call("data type is not copyable");
 
 			if (in_p == out_p && std::is_copy_assignable_v<T>) {
@@ -665,6 +665,10 @@ namespace seq
 		virtual void destroy_any(void* in) const noexcept = 0;
 		/// @brief Free the separate storage of an object
 		virtual void free_any(void* in) const noexcept { SEQ_ANY_FREE(in); }
+		/// @brief Tells if objects can be copy assigned
+		virtual auto copy_assignable_any() const noexcept -> bool { return true; }
+		/// @brief Tells if objects can be move assigned
+		virtual auto move_assignable_any() const noexcept -> bool { return true; }
 		/// @brief Compare 2 objects of same type for equality
 		virtual auto equal_any(const void* a, const void* o) const -> bool = 0;
 		/// @brief Compare 2 objects of same type for less than
@@ -688,6 +692,8 @@ namespace seq
 		auto sizeof_type() const noexcept -> size_t override { return sizeof(T); }
 		void destroy_any(void* in) const noexcept override { static_cast<T*>(in)->~T(); }
 		void free_any(void* in) const noexcept override { detail::any_free<T>(in); }
+		auto copy_assignable_any() const noexcept -> bool override { return std::is_copy_assignable_v<T>; }
+		auto move_assignable_any() const noexcept -> bool override { return std::is_move_assignable_v<T>; }
 		auto equal_any(const void* a, const void* b) const -> bool override { return detail::compare_equal_any<T>(a, b); }
 		auto less_any(const void* a, const void* b) const -> bool override { return detail::compare_less_any<T>(a, b); }
 		auto hash_any(const void* in) const -> size_t override { return detail::hash_any<T, SupportHash>(in); }
@@ -1766,8 +1772,8 @@ namespace seq
 			const auto* i_t = this->type();
 			const auto* o_t = other.type();
 
-			if (i_t != o_t) {
-				// different types: other might be part of the held object,
+			if (i_t != o_t || (o_t && !o_t->copy_assignable_any())) {
+				// different types (or type without assignment): other might be part of the held object,
 				// copy it before destroying the old one
 				hold_any tmp(other);
 				take(tmp);
@@ -1804,7 +1810,7 @@ namespace seq
 				const auto* i_t = this->type();
 				const auto* o_t = other.type();
 
-				if (i_t == o_t && other.non_relocatable()) {
+				if (i_t == o_t && other.non_relocatable() && o_t->move_assignable_any()) {
 					// same non null type: move, might throw
 					o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.inline_size());
 				}
-- 
2.43.0


From dd2f5a98e8dec3e63c5cb8d979674a1ac6b3c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 099/129] fix: reading a decimal integer no longer accepts a
 sign without digits

---
 seq/charconv.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ef2c0d3..61cd7cf 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -515,12 +515,12 @@ namespace seq
 				sign = -1;
 				first = (int)str.getc();
 			}
-			else if SEQ_UNLIKELY (!is_digit(first))
+
+			// read first digit
+			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
-			else {
-				x = static_cast<T>(first - '0');
-				first = (int)str.getc();
-			}
+			x = static_cast<T>(first - '0');
+			first = (int)str.getc();
 
 			while (is_digit(first)) {
 				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
-- 
2.43.0


From a28e9a1650dab3a2d27cb828cfaf8e2c734c724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 100/129] fix: reading an integer in another base accepts a
 single digit at the end of the stream

---
 seq/charconv.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 61cd7cf..f1b83f4 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -606,8 +606,10 @@ namespace seq
 					val = to_digit_hex(first);
 
 				if SEQ_UNLIKELY (val >= base) {
-					// invalid char
-					str.back();
+					// invalid char or end of stream
+					if (first != EOF)
+						str.back();
+					str.reset();
 					return sign_value(x, sign); // sign == -1 ? -x : x;
 				}
 				x = (x * static_cast<T>(base)) + static_cast<T>(val);
-- 
2.43.0


From 6d1e8b3a613e8a0f3b2abe287c9b66b2328c7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 101/129] fix: the end of a char16_t text is not taken for a
 character

---
 seq/charconv.hpp | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index f1b83f4..9bcb02d 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1869,12 +1869,6 @@ namespace seq
 			const Char* d_end;
 			std::errc d_state;
 
-			auto set_eof() noexcept -> Char
-			{
-				d_state = std::errc::invalid_argument;
-				return EOF;
-			}
-
 		public:
 			using char_type = Char;
 
@@ -1921,13 +1915,13 @@ namespace seq
 			SEQ_ALWAYS_INLINE void seek(const Char* pos) noexcept { d_start = pos; }
 			/// @brief Extract a single character from the stream and put the read position to the next character
 			/// @return extracted character or EOF
-			SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+			SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 			{
 				if SEQ_LIKELY (d_start != d_end) {
-					return *d_start++;
+					return static_cast<int>(*d_start++);
 				}
 				d_state = std::errc::invalid_argument;
-				return (Char)EOF;
+				return EOF;
 			}
 		};
 
@@ -1952,10 +1946,10 @@ namespace seq
 		streamsize d_pos;
 		StreamState d_state;
 
-		auto set_eof() noexcept -> Char
+		auto set_eof() noexcept -> int
 		{
 			d_state = EndOfFile;
-			return (Char)EOF;
+			return EOF;
 		}
 
 	public:
@@ -2025,13 +2019,12 @@ namespace seq
 		}
 		/// @brief Extract a single character from the stream and put the read position to the next character
 		/// @return extracted character or EOF
-		SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+		SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 		{
 			if SEQ_LIKELY (d_pos != d_len) {
-				return d_buff[d_pos++];
+				return static_cast<int>(d_buff[d_pos++]);
 			}
 			return set_eof();
-			// return d_pos != d_len ? d_buff[d_pos++] : set_eof();
 		}
 		/// @brief Read several characters at once
 		/// @return The number of read characters
@@ -2073,13 +2066,13 @@ namespace seq
 		Char* d_buff_end;
 		State d_state;
 
-		auto set_eof() noexcept -> Char
+		auto set_eof() noexcept -> int
 		{
 			set_state(EndOfFile);
-			return (Char)EOF;
+			return EOF;
 		}
 
-		auto fillbuff() -> Char
+		auto fillbuff() -> int
 		{
 			d_file->read(d_buff, buff_size);
 			size_t read = d_file->gcount();
@@ -2089,7 +2082,7 @@ namespace seq
 			d_buff_end = d_buff + read;
 			if SEQ_LIKELY (read > 0) {
 				++d_pos;
-				return *d_buff_pos++;
+				return static_cast<int>(*d_buff_pos++);
 			}
 			return set_eof();
 		}
@@ -2187,13 +2180,13 @@ namespace seq
 			return d_pos;
 		}
 		/// @brief Returns the next character from the stream and update the get position
-		SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+		SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 		{
 			// We need this one to be very fast
 			if SEQ_UNLIKELY (d_buff_pos == d_buff_end)
 				return fillbuff();
 			++d_pos;
-			return *d_buff_pos++;
+			return static_cast<int>(*d_buff_pos++);
 		}
 		/// @brief Read several bytes from the stream, and return the number of read bytes.
 		auto read(Char* dst, size_t size) noexcept -> size_t
-- 
2.43.0


From 9e04bf0096caeb860a3929a8c2b429ef24f540c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 102/129] fix: buffer_input_stream::read copies whole wide
 characters

---
 seq/charconv.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 9bcb02d..71ce503 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2032,7 +2032,8 @@ namespace seq
 		{
 			streamsize rem = d_len - d_pos;
 			streamsize to_read = std::min(size, rem);
-			memcpy(dst, d_buff + d_pos, to_read);
+			if (to_read)
+				memcpy(dst, d_buff + d_pos, to_read * sizeof(Char));
 			if (size > rem) {
 				set_eof();
 			}
-- 
2.43.0


From eb532980821a79b568f81d274010136159e9c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 103/129] fix: reading a real number accepts a dot without
 decimals, as announced, and consumes nothing after it

---
 seq/charconv.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 71ce503..7261093 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -948,15 +948,14 @@ namespace seq
 						// too big: switch to the default slower version
 						goto slow_path;
 					}
-					if (fmt == scientific) {
-						// exponent is mandatory
-						return return_bad_format<T>(saved, str);
-					}
 					// we accept a dot with nothing after
-					return sign_value(res, sign);
+					str.reset();
+					str.seek(new_check_point);
+				}
+				else {
+					int dist = static_cast<int>(str.tell() - new_check_point);
+					res += static_cast<T>(decimal) * get_pow<T>(-dist);
 				}
-				int dist = static_cast<int>(str.tell() - new_check_point);
-				res += static_cast<T>(decimal) * get_pow<T>(-dist);
 				c = (int)str.getc();
 			}
 			if (c == 'e' || c == 'E') {
-- 
2.43.0


From 7af853c577b976a7642fd6dcc92b300db13b79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 104/129] fix: letters beyond Latin-1 are not taken for
 hexadecimal digits

---
 seq/charconv.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 7261093..b6a06a7 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -406,10 +406,10 @@ namespace seq
 		{
 			return c == '\n' || c == '\r';
 		}
-		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> char
+		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> int
 		{
 			static constexpr char offset = 'a' - 'A';
-			return static_cast<char>(c >= 'a' ? c - offset : c);
+			return c >= 'a' ? c - offset : c;
 		}
 		static SEQ_ALWAYS_INLINE auto to_digit_hex(int c) -> unsigned
 		{
@@ -701,8 +701,8 @@ namespace seq
 		read_nan(Integral saved_pos, Stream& str) -> T
 		{
 			// read 'nan'
-			char a = to_upper((int)str.getc());
-			char n = to_upper((int)str.getc());
+			int a = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
 			if (a == 'A' && n == 'N') {
 				return std::numeric_limits<T>::quiet_NaN();
 			}
@@ -715,8 +715,8 @@ namespace seq
 		read_inf(Integral saved_pos, int sign, Stream& str) -> T
 		{
 			// read 'inf'
-			char n = to_upper((int)str.getc());
-			char f = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
+			int f = to_upper((int)str.getc());
 			if (n == 'N' && f == 'F') {
 				return sign_value(std::numeric_limits<T>::infinity(), sign);
 			}
-- 
2.43.0


From 01e949cbb5651c31d025abe41f26e92ad853d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 105/129] fix: constructing a file_input_stream from a FILE no
 longer rewinds it

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index b6a06a7..18628c8 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2280,7 +2280,7 @@ namespace seq
 		/// @brief Construct from a FILE object.
 		/// If 'own' is true, closing the stream will also close the FILE object.
 		explicit file_input_stream(FILE* file, bool own) noexcept
-		  : d_file(file)
+		  : d_file(NULL)
 		  , d_pos(0)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
-- 
2.43.0


From dd151f1bc4e456ccebb9bca4e94107f8bac0a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 106/129] fix: going back after a read() larger than the buffer
 of a stream adapter gives the right characters

---
 seq/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 18628c8..3ae8c27 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2201,6 +2201,7 @@ namespace seq
 			}
 			if (size > from_buffer) {
 				size -= from_buffer;
+				d_buff_pos = d_buff_end = NULL; // the buffer does not hold the last read characters anymore
 				d_file->read(dst, size);
 				read_vals += d_file->gcount();
 				if (d_file->eof())
@@ -2403,6 +2404,7 @@ namespace seq
 			}
 			if (size > from_buffer) {
 				size -= from_buffer;
+				d_buff_pos = d_buff_end = NULL; // the buffer does not hold the last read characters anymore
 				streamsize _fread = fread(dst, 1, size, d_file);
 				read_vals += _fread;
 				if (_fread != size)
-- 
2.43.0


From dd878fbab432931e55ee894dfc5dbb0239351f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 107/129] fix: a stream adapter that is not open is at its end
 instead of using a null source

---
 seq/charconv.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 3ae8c27..d8e97ec 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2074,6 +2074,8 @@ namespace seq
 
 		auto fillbuff() -> int
 		{
+			if SEQ_UNLIKELY (!d_file)
+				return set_eof();
 			d_file->read(d_buff, buff_size);
 			size_t read = d_file->gcount();
 			d_file->clear();
@@ -2151,6 +2153,8 @@ namespace seq
 		/// @brief Seek to given position and returns the new get position
 		SEQ_NOINLINE(auto) seek(size_t pos) noexcept -> size_t
 		{
+			if SEQ_UNLIKELY (!d_file)
+				return d_pos;
 			if (pos < d_pos) {
 				size_t start = d_buff_pos ? static_cast<size_t>(d_buff_pos - d_buff) : 0;
 				if (pos + start >= d_pos) {
@@ -2200,6 +2204,10 @@ namespace seq
 				dst += from_buffer;
 			}
 			if (size > from_buffer) {
+				if SEQ_UNLIKELY (!d_file) {
+					set_eof();
+					return 0;
+				}
 				size -= from_buffer;
 				d_buff_pos = d_buff_end = NULL; // the buffer does not hold the last read characters anymore
 				d_file->read(dst, size);
@@ -2246,6 +2254,8 @@ namespace seq
 
 		auto fillbuff() noexcept -> int
 		{
+			if SEQ_UNLIKELY (!d_file)
+				return set_eof();
 			streamsize read = fread(d_buff, 1, buff_size, d_file);
 			d_buff_pos = d_buff;
 			d_buff_end = d_buff + read;
@@ -2353,6 +2363,8 @@ namespace seq
 		/// @brief Seek to given location, and return the new get position
 		SEQ_NOINLINE(auto) seek(streamsize pos) noexcept -> streamsize
 		{
+			if SEQ_UNLIKELY (!d_file)
+				return d_pos;
 			if (pos < d_pos) {
 				int start = d_buff_pos ? static_cast<int>(d_buff_pos - d_buff) : 0;
 				if (pos + start >= d_pos) {
@@ -2403,6 +2415,10 @@ namespace seq
 				dst += from_buffer;
 			}
 			if (size > from_buffer) {
+				if SEQ_UNLIKELY (!d_file) {
+					set_eof();
+					return 0;
+				}
 				size -= from_buffer;
 				d_buff_pos = d_buff_end = NULL; // the buffer does not hold the last read characters anymore
 				streamsize _fread = fread(dst, 1, size, d_file);
-- 
2.43.0


From cec01bdeb3141a697b605d21e90cdd1d3cc01dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 108/129] fix: a stream adapter that cannot seek stays where it
 is instead of skipping what it has buffered

---
 seq/charconv.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index d8e97ec..a293a5f 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2147,7 +2147,7 @@ namespace seq
 				--d_buff_pos;
 				--d_pos;
 			}
-			else
+			else if (d_pos > 0)
 				seek(d_pos - 1);
 		}
 		/// @brief Seek to given position and returns the new get position
@@ -2162,9 +2162,12 @@ namespace seq
 					d_pos = pos;
 				}
 				else {
+					if (!d_file->seekg(pos, std::ios::beg)) {
+						// stay at the current position
+						d_file->clear();
+						return d_pos;
+					}
 					d_buff_pos = d_buff_end = nullptr;
-					if (!d_file->seekg(pos, std::ios::beg))
-						return d_pos = d_file->tellg();
 					d_pos = pos;
 				}
 			}
@@ -2175,9 +2178,12 @@ namespace seq
 					d_pos = pos;
 				}
 				else {
+					if (!d_file->seekg(pos, std::ios::beg)) {
+						// stay at the current position
+						d_file->clear();
+						return d_pos;
+					}
 					d_buff_pos = d_buff_end = nullptr;
-					if (!d_file->seekg(pos, std::ios::beg))
-						return d_pos = d_file->tellg();
 					d_pos = pos;
 				}
 			}
@@ -2357,7 +2363,7 @@ namespace seq
 				--d_buff_pos;
 				--d_pos;
 			}
-			else
+			else if (d_pos > 0)
 				seek(d_pos - 1);
 		}
 		/// @brief Seek to given location, and return the new get position
@@ -2373,9 +2379,9 @@ namespace seq
 				}
 				else {
 
-					d_buff_pos = d_buff_end = NULL;
 					if (fseek(d_file, pos, SEEK_SET) != 0)
-						return d_pos = ftell(d_file);
+						return d_pos; // stay at the current position
+					d_buff_pos = d_buff_end = NULL;
 					d_pos = pos;
 				}
 			}
@@ -2386,9 +2392,9 @@ namespace seq
 					d_pos = pos;
 				}
 				else {
-					d_buff_pos = d_buff_end = NULL;
 					if (fseek(d_file, pos, SEEK_SET) != 0)
-						return d_pos = ftell(d_file);
+						return d_pos; // stay at the current position
+					d_buff_pos = d_buff_end = NULL;
 					d_pos = pos;
 				}
 			}
-- 
2.43.0


From 336eb4544decb1f0fd2f22b04c48bc8e29017fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 109/129] fix: a std_input_stream on a stream that throws sees
 an end of input instead of terminating the program

---
 seq/charconv.hpp | 74 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index a293a5f..cb5161d 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2072,13 +2072,49 @@ namespace seq
 			return EOF;
 		}
 
-		auto fillbuff() -> int
+		// Set the get position of the underlying stream, which might be configured to throw
+		auto seek_file(size_t pos) noexcept -> bool
+		{
+			bool ok = false;
+			try {
+				ok = !d_file->seekg(pos, std::ios::beg).fail();
+			}
+			catch (...) {
+			}
+			if (!ok)
+				clear_file();
+			return ok;
+		}
+		void clear_file() noexcept
+		{
+			try {
+				d_file->clear();
+			}
+			catch (...) {
+			}
+		}
+		// Read up to count characters from the underlying stream, located at given position
+		auto read_file(Char* dst, size_t count, size_t pos) noexcept -> size_t
+		{
+			try {
+				d_file->read(dst, count);
+			}
+			catch (...) {
+			}
+			size_t read = static_cast<size_t>(d_file->gcount());
+			bool failure = d_file->bad();
+			clear_file();
+			if SEQ_UNLIKELY (failure)
+				// an exception hides the characters extracted before it
+				seek_file(pos + read);
+			return read;
+		}
+
+		auto fillbuff() noexcept -> int
 		{
 			if SEQ_UNLIKELY (!d_file)
 				return set_eof();
-			d_file->read(d_buff, buff_size);
-			size_t read = d_file->gcount();
-			d_file->clear();
+			size_t read = read_file(d_buff, buff_size, d_pos);
 
 			d_buff_pos = d_buff;
 			d_buff_end = d_buff + read;
@@ -2118,8 +2154,13 @@ namespace seq
 		/// @brief Close the stream and update the underlying std::istream get position
 		void close() noexcept
 		{
-			if (d_file)
-				d_file->seekg(d_pos);
+			if (d_file) {
+				try {
+					d_file->seekg(d_pos);
+				}
+				catch (...) {
+				}
+			}
 			d_file = NULL;
 			d_pos = 0;
 			d_buff_pos = d_buff_end = NULL;
@@ -2162,11 +2203,8 @@ namespace seq
 					d_pos = pos;
 				}
 				else {
-					if (!d_file->seekg(pos, std::ios::beg)) {
-						// stay at the current position
-						d_file->clear();
-						return d_pos;
-					}
+					if (!seek_file(pos))
+						return d_pos; // stay at the current position
 					d_buff_pos = d_buff_end = nullptr;
 					d_pos = pos;
 				}
@@ -2178,11 +2216,8 @@ namespace seq
 					d_pos = pos;
 				}
 				else {
-					if (!d_file->seekg(pos, std::ios::beg)) {
-						// stay at the current position
-						d_file->clear();
-						return d_pos;
-					}
+					if (!seek_file(pos))
+						return d_pos; // stay at the current position
 					d_buff_pos = d_buff_end = nullptr;
 					d_pos = pos;
 				}
@@ -2216,11 +2251,10 @@ namespace seq
 				}
 				size -= from_buffer;
 				d_buff_pos = d_buff_end = NULL; // the buffer does not hold the last read characters anymore
-				d_file->read(dst, size);
-				read_vals += d_file->gcount();
-				if (d_file->eof())
+				size_t read = read_file(dst, size, d_pos + from_buffer);
+				read_vals += read;
+				if (read != size)
 					set_eof();
-				d_file->clear();
 			}
 			d_pos += read_vals;
 			return read_vals;
-- 
2.43.0


From b84d6bacc1ddcc397d2e12e8b30f1b30cc39af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 110/129] fix: stream adapters on a source that cannot seek no
 longer lose characters when they go back over their buffer

---
 seq/charconv.hpp | 128 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 99 insertions(+), 29 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index cb5161d..065718a 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2059,12 +2059,17 @@ namespace seq
 		using streamsize = std::uint64_t;
 
 	private:
+		// Number of already read characters kept in front of the buffer: a source that cannot seek is still able to go back a little
+		static constexpr size_t back_size = 32;
+
 		std::basic_istream<Char>* d_file;
 		size_t d_pos;
-		Char d_buff[buff_size];
+		Char d_buff[back_size + buff_size];
+		Char* d_buff_start; // first valid character of d_buff
 		Char* d_buff_pos;
 		Char* d_buff_end;
 		State d_state;
+		bool d_seekable;
 
 		auto set_eof() noexcept -> int
 		{
@@ -2104,20 +2109,38 @@ namespace seq
 			size_t read = static_cast<size_t>(d_file->gcount());
 			bool failure = d_file->bad();
 			clear_file();
-			if SEQ_UNLIKELY (failure)
+			if SEQ_UNLIKELY (failure && d_seekable)
 				// an exception hides the characters extracted before it
 				seek_file(pos + read);
 			return read;
 		}
 
+		// Keep at the beginning of the buffer the last read characters: the end of the buffer followed by [data, data + count)
+		auto keep_back(const Char* data, size_t count) noexcept -> size_t
+		{
+			if (count > back_size) {
+				data += count - back_size;
+				count = back_size;
+			}
+			size_t prev = std::min(static_cast<size_t>(d_buff_end - d_buff_start), back_size - count);
+			if (prev)
+				memmove(d_buff, d_buff_end - prev, prev * sizeof(Char));
+			if (count)
+				memcpy(d_buff + prev, data, count * sizeof(Char));
+			d_buff_start = d_buff;
+			d_buff_pos = d_buff_end = d_buff + prev + count;
+			return prev + count;
+		}
+
 		auto fillbuff() noexcept -> int
 		{
 			if SEQ_UNLIKELY (!d_file)
 				return set_eof();
-			size_t read = read_file(d_buff, buff_size, d_pos);
+			Char* start = d_buff + keep_back(nullptr, 0);
+			size_t read = read_file(start, buff_size, d_pos);
 
-			d_buff_pos = d_buff;
-			d_buff_end = d_buff + read;
+			d_buff_pos = start;
+			d_buff_end = start + read;
 			if SEQ_LIKELY (read > 0) {
 				++d_pos;
 				return static_cast<int>(*d_buff_pos++);
@@ -2130,18 +2153,22 @@ namespace seq
 		std_input_stream() noexcept
 		  : d_file(NULL)
 		  , d_pos(0)
+		  , d_buff_start(NULL)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
 		  , d_state(Ok)
+		  , d_seekable(true)
 		{
 		}
 		/// @brief Construct from a std::istream object
 		explicit std_input_stream(std::basic_istream<Char>& iss)
 		  : d_file(NULL)
 		  , d_pos(0)
+		  , d_buff_start(NULL)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
 		  , d_state(Ok)
+		  , d_seekable(true)
 		{
 			open(iss);
 		}
@@ -2154,7 +2181,7 @@ namespace seq
 		/// @brief Close the stream and update the underlying std::istream get position
 		void close() noexcept
 		{
-			if (d_file) {
+			if (d_file && d_seekable) {
 				try {
 					d_file->seekg(d_pos);
 				}
@@ -2163,7 +2190,7 @@ namespace seq
 			}
 			d_file = NULL;
 			d_pos = 0;
-			d_buff_pos = d_buff_end = NULL;
+			d_buff_start = d_buff_pos = d_buff_end = NULL;
 			d_state = Ok;
 		}
 		/// @brief Open based on a std::istream object
@@ -2172,7 +2199,17 @@ namespace seq
 			close();
 			if (iss) {
 				d_file = &iss;
-				d_pos = iss.tellg();
+				std::streamoff pos = -1;
+				try {
+					pos = iss.tellg();
+				}
+				catch (...) {
+				}
+				d_seekable = pos >= 0;
+				if (d_seekable)
+					d_pos = static_cast<size_t>(pos);
+				else
+					clear_file();
 				return true;
 			}
 			return false;
@@ -2184,7 +2221,7 @@ namespace seq
 		/// @brief Go back to previous character if possible
 		void back() noexcept
 		{
-			if SEQ_LIKELY (d_buff_pos && d_buff_pos != d_buff) {
+			if SEQ_LIKELY (d_buff_pos != d_buff_start) {
 				--d_buff_pos;
 				--d_pos;
 			}
@@ -2197,15 +2234,15 @@ namespace seq
 			if SEQ_UNLIKELY (!d_file)
 				return d_pos;
 			if (pos < d_pos) {
-				size_t start = d_buff_pos ? static_cast<size_t>(d_buff_pos - d_buff) : 0;
+				size_t start = static_cast<size_t>(d_buff_pos - d_buff_start);
 				if (pos + start >= d_pos) {
 					d_buff_pos -= d_pos - pos;
 					d_pos = pos;
 				}
 				else {
-					if (!seek_file(pos))
+					if (!d_seekable || !seek_file(pos))
 						return d_pos; // stay at the current position
-					d_buff_pos = d_buff_end = nullptr;
+					d_buff_start = d_buff_pos = d_buff_end = nullptr;
 					d_pos = pos;
 				}
 			}
@@ -2216,9 +2253,9 @@ namespace seq
 					d_pos = pos;
 				}
 				else {
-					if (!seek_file(pos))
+					if (!d_seekable || !seek_file(pos))
 						return d_pos; // stay at the current position
-					d_buff_pos = d_buff_end = nullptr;
+					d_buff_start = d_buff_pos = d_buff_end = nullptr;
 					d_pos = pos;
 				}
 			}
@@ -2250,9 +2287,9 @@ namespace seq
 					return 0;
 				}
 				size -= from_buffer;
-				d_buff_pos = d_buff_end = NULL; // the buffer does not hold the last read characters anymore
 				size_t read = read_file(dst, size, d_pos + from_buffer);
 				read_vals += read;
+				keep_back(dst, read);
 				if (read != size)
 					set_eof();
 			}
@@ -2278,13 +2315,18 @@ namespace seq
 		using streamsize = std::uint64_t;
 
 	private:
+		// Number of already read characters kept in front of the buffer: a source that cannot seek is still able to go back a little
+		static constexpr size_t back_size = 32;
+
 		FILE* d_file;
 		streamsize d_pos;
-		char d_buff[buff_size];
+		char d_buff[back_size + buff_size];
+		char* d_buff_start; // first valid character of d_buff
 		char* d_buff_pos;
 		char* d_buff_end;
 		State d_state;
 		int d_flag;
+		bool d_seekable;
 
 		auto set_eof() noexcept -> char
 		{
@@ -2292,13 +2334,31 @@ namespace seq
 			return EOF;
 		}
 
+		// Keep at the beginning of the buffer the last read characters: the end of the buffer followed by [data, data + count)
+		auto keep_back(const char* data, size_t count) noexcept -> size_t
+		{
+			if (count > back_size) {
+				data += count - back_size;
+				count = back_size;
+			}
+			size_t prev = std::min(static_cast<size_t>(d_buff_end - d_buff_start), back_size - count);
+			if (prev)
+				memmove(d_buff, d_buff_end - prev, prev);
+			if (count)
+				memcpy(d_buff + prev, data, count);
+			d_buff_start = d_buff;
+			d_buff_pos = d_buff_end = d_buff + prev + count;
+			return prev + count;
+		}
+
 		auto fillbuff() noexcept -> int
 		{
 			if SEQ_UNLIKELY (!d_file)
 				return set_eof();
-			streamsize read = fread(d_buff, 1, buff_size, d_file);
-			d_buff_pos = d_buff;
-			d_buff_end = d_buff + read;
+			char* start = d_buff + keep_back(nullptr, 0);
+			streamsize read = fread(start, 1, buff_size, d_file);
+			d_buff_pos = start;
+			d_buff_end = start + read;
 			if SEQ_LIKELY (read) {
 				++d_pos;
 				return *d_buff_pos++;
@@ -2311,20 +2371,24 @@ namespace seq
 		file_input_stream() noexcept
 		  : d_file(NULL)
 		  , d_pos(0)
+		  , d_buff_start(NULL)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
 		  , d_state(Ok)
 		  , d_flag(0)
+		  , d_seekable(true)
 		{
 		}
 		/// @brief Construct from a filename
 		explicit file_input_stream(const char* filename, const char* format) noexcept
 		  : d_file(NULL)
 		  , d_pos(0)
+		  , d_buff_start(NULL)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
 		  , d_state(Ok)
 		  , d_flag(0)
+		  , d_seekable(true)
 		{
 			open(filename, format);
 		}
@@ -2333,10 +2397,12 @@ namespace seq
 		explicit file_input_stream(FILE* file, bool own) noexcept
 		  : d_file(NULL)
 		  , d_pos(0)
+		  , d_buff_start(NULL)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
 		  , d_state(Ok)
 		  , d_flag(0)
+		  , d_seekable(true)
 		{
 			open(file, own);
 		}
@@ -2353,12 +2419,12 @@ namespace seq
 			if (d_file) {
 				if (d_flag)
 					fclose(d_file);
-				else
+				else if (d_seekable)
 					fseek(d_file, d_pos, SEEK_SET);
 			}
 			d_file = NULL;
 			d_pos = d_flag = 0;
-			d_buff_pos = d_buff_end = NULL;
+			d_buff_start = d_buff_pos = d_buff_end = NULL;
 			d_state = Ok;
 		}
 		/// @brief Open given file
@@ -2369,6 +2435,7 @@ namespace seq
 			d_file = fopen(filename, format);
 			if (d_file) {
 				d_flag = 1;
+				d_seekable = ftell(d_file) >= 0;
 				return true;
 			}
 			return false;
@@ -2381,7 +2448,10 @@ namespace seq
 			d_file = file;
 			if (d_file) {
 				d_flag = own;
-				d_pos = ftell(d_file);
+				long pos = ftell(d_file);
+				d_seekable = pos >= 0;
+				if (d_seekable)
+					d_pos = static_cast<streamsize>(pos);
 				return true;
 			}
 			return false;
@@ -2393,7 +2463,7 @@ namespace seq
 		/// @brief Go back to previous character (if possible)
 		void back() noexcept
 		{
-			if SEQ_LIKELY (d_buff_pos && d_buff_pos != d_buff) {
+			if SEQ_LIKELY (d_buff_pos != d_buff_start) {
 				--d_buff_pos;
 				--d_pos;
 			}
@@ -2406,16 +2476,16 @@ namespace seq
 			if SEQ_UNLIKELY (!d_file)
 				return d_pos;
 			if (pos < d_pos) {
-				int start = d_buff_pos ? static_cast<int>(d_buff_pos - d_buff) : 0;
+				int start = static_cast<int>(d_buff_pos - d_buff_start);
 				if (pos + start >= d_pos) {
 					d_buff_pos -= d_pos - pos;
 					d_pos = pos;
 				}
 				else {
 
-					if (fseek(d_file, pos, SEEK_SET) != 0)
+					if (!d_seekable || fseek(d_file, pos, SEEK_SET) != 0)
 						return d_pos; // stay at the current position
-					d_buff_pos = d_buff_end = NULL;
+					d_buff_start = d_buff_pos = d_buff_end = NULL;
 					d_pos = pos;
 				}
 			}
@@ -2426,9 +2496,9 @@ namespace seq
 					d_pos = pos;
 				}
 				else {
-					if (fseek(d_file, pos, SEEK_SET) != 0)
+					if (!d_seekable || fseek(d_file, pos, SEEK_SET) != 0)
 						return d_pos; // stay at the current position
-					d_buff_pos = d_buff_end = NULL;
+					d_buff_start = d_buff_pos = d_buff_end = NULL;
 					d_pos = pos;
 				}
 			}
@@ -2460,9 +2530,9 @@ namespace seq
 					return 0;
 				}
 				size -= from_buffer;
-				d_buff_pos = d_buff_end = NULL; // the buffer does not hold the last read characters anymore
 				streamsize _fread = fread(dst, 1, size, d_file);
 				read_vals += _fread;
+				keep_back(dst, _fread);
 				if (_fread != size)
 					set_eof();
 			}
-- 
2.43.0


From f08538eed4420b4dadd7dcb7e55cbe64c2754d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 111/129] fix: net_sort is stable: its sorting network
 exchanges adjacent elements only

---
 seq/algorithm.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 0c319d4..20499fa 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -831,25 +831,32 @@ namespace seq
 #define CHECK_2_NO_OVERLAPP(a, b, c, d)                                                                                                                                                                \
 	CHECK_2(a, b);                                                                                                                                                                                 \
 	CHECK_2(c, d)
-#define CHECK_4_NO_OVERLAPP(a, b, c, d, e, f, g, h)                                                                                                                                                    \
-	CHECK_2_NO_OVERLAPP(a, b, c, d);                                                                                                                                                               \
-	CHECK_2_NO_OVERLAPP(e, f, g, h)
+#define CHECK_EVEN                                                                                                                                                                                     \
+	CHECK_2_NO_OVERLAPP(0, 1, 2, 3);                                                                                                                                                               \
+	CHECK_2_NO_OVERLAPP(4, 5, 6, 7)
+#define CHECK_ODD                                                                                                                                                                                      \
+	CHECK_2_NO_OVERLAPP(1, 2, 3, 4);                                                                                                                                                               \
+	CHECK_2(5, 6)
 
 		template<class T, class Cmp>
 		SEQ_ALWAYS_INLINE void network_sort_8(T&& a0, T&& a1, T&& a2, T&& a3, T&& a4, T&& a5, T&& a6, T&& a7, Cmp cmp)
 		{
-			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
-			CHECK_4_NO_OVERLAPP(0, 2, 1, 3, 4, 6, 5, 7);
-			CHECK_4_NO_OVERLAPP(0, 4, 1, 5, 2, 6, 3, 7);
-			CHECK_2_NO_OVERLAPP(2, 4, 3, 5);
-			CHECK_2_NO_OVERLAPP(1, 4, 3, 6);
-			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
-			CHECK_2(5, 6);
+			// Odd-even transposition network: only adjacent elements are
+			// exchanged, as any other exchange makes the sort unstable.
+			CHECK_EVEN;
+			CHECK_ODD;
+			CHECK_EVEN;
+			CHECK_ODD;
+			CHECK_EVEN;
+			CHECK_ODD;
+			CHECK_EVEN;
+			CHECK_ODD;
 		}
 
 #undef CHECK_2
 #undef CHECK_2_NO_OVERLAPP
-#undef CHECK_4_NO_OVERLAPP
+#undef CHECK_EVEN
+#undef CHECK_ODD
 
 		template<unsigned N, class Iter, class Cmp>
 		Iter atom_sort_8(Iter vals, unsigned count, Cmp cmp) noexcept(NothrowSortIter<Iter, Cmp>::value)
-- 
2.43.0


From 44b09351cb1acd7f2913f76596b87dd67d51a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 112/129] fix: unique looks up the kept elements, not the
 places they were moved from

---
 seq/algorithm.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 20499fa..5f66e87 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1426,10 +1426,11 @@ namespace seq
 
 		auto loc = first++;
 		for (; first != last; ++first) {
-			if (!set.emplace(std::addressof(*first))) {
-				continue;
-			}
-			*loc++ = std::move(*first);
+			// Move the element before adding its address, as the
+			// table only stores the addresses of the kept elements.
+			*loc = std::move(*first);
+			if (set.emplace(std::addressof(*loc)))
+				++loc;
 		}
 		return loc;
 	}
-- 
2.43.0


From 8700f656b427fb51c7b788ccd5450bad4d757a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 113/129] fix: unique lets the exceptions of the equality
 function out

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 5f66e87..a591ae7 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1376,7 +1376,7 @@ namespace seq
 			  : Equal(eq)
 			{
 			}
-			size_t operator()(const Key* l, const Key* r) const noexcept { return Equal::operator()(*l, *r); }
+			size_t operator()(const Key* l, const Key* r) const noexcept(noexcept(std::declval<const Equal&>()(*l, *r))) { return Equal::operator()(*l, *r); }
 		};
 	}
 
-- 
2.43.0


From e64fb0ffe3b3fac8269f26169907bd17f8338a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 114/129] fix: null_buffer makes the algorithms work without
 allocating memory

---
 seq/algorithm.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index a591ae7..37a7817 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1139,7 +1139,9 @@ namespace seq
 				return (count / 8u);
 			if (buf.size == std::numeric_limits<size_t>::max() - 2)
 				return (count / 32u);
-			return (count / 128u);
+			if (buf.size == std::numeric_limits<size_t>::max() - 3)
+				return (count / 128u);
+			return 0;
 		}
 
 	} // end algo_detail
@@ -1165,7 +1167,7 @@ namespace seq
 	static constexpr buffer<void*> tiny_buffer{ nullptr, std::numeric_limits<size_t>::max() - 3u };
 
 	/// @brief Null buffer, uses (slow) bufferless merge sort
-	static constexpr buffer<void*> null_buffer{ nullptr, 0 };
+	static constexpr buffer<void*> null_buffer{ nullptr, std::numeric_limits<size_t>::max() - 4u };
 
 	/// @brief Stable merge algorithm similar to std::merge.
 	///
@@ -1317,7 +1319,7 @@ namespace seq
 		if constexpr (std::is_same_v<buffer<void*>, Buffer>) {
 			// Compute buffer size
 			size_t buf_size = sort_buffer_size(buf, size / 2);
-			if (buf_size < 16)
+			if (buf_size < 16 && buf.size != null_buffer.size)
 				buf_size = 16;
 			std::vector<Key> buf_(buf_size);
 			return merge_sort_internal(wrap_iter(begin, 0), size, cmp, seq::buffer<Key*>{ buf_.data(), buf_.size() });
-- 
2.43.0


From b46aa4ff9626c55321e61606bfdbdb23c33c722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 115/129] fix: constructing an empty ordered_set or ordered_map
 allocates, so it may throw

---
 seq/ordered_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 28ed1b6..d2aebbf 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1101,7 +1101,7 @@ namespace seq
 		/// @param hash hash function to use
 		/// @param equal comparison function to use for all key comparisons of this container
 		/// @param alloc allocator to use for all memory allocations of this container
-		ordered_set(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator()) noexcept
+		ordered_set(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator())
 		  : base_type(hash, equal, alloc)
 		{
 		}
@@ -1605,7 +1605,7 @@ namespace seq
 		using pointer = typename std::allocator_traits<Allocator>::pointer;
 		using const_pointer = typename std::allocator_traits<Allocator>::const_pointer;
 
-		ordered_map(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator()) noexcept
+		ordered_map(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator())
 		  : base_type(hash, equal, alloc)
 		{
 		}
-- 
2.43.0


From 2390facf59093303ffe06fa34fda7dbe2509800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 116/129] fix: concurrent const lookups in a radix tree race on
 the cached first child

---
 seq/internal/radix_tree.hpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index c8c5cdc..d9e102b 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -32,6 +32,8 @@
 #include "../type_traits.hpp"
 #include "simd.hpp"
 
+#include <atomic>
+
 namespace seq
 {
 	struct default_key
@@ -1227,6 +1229,25 @@ namespace seq
 			SEQ_ALWAYS_INLINE const typename Node::value_type& front() const { return this->tag() == Dir::IsLeaf ? *to_node()->values() : to_vector()->front(); }
 		};
 
+		/// @brief Position that may be cached by several concurrent readers.
+		/// All concurrent writers store the same value, a relaxed order is therefore sufficient.
+		class CachedPosition
+		{
+			std::atomic<uint64_t> d_pos;
+
+		public:
+			CachedPosition(uint64_t pos) noexcept
+			  : d_pos(pos)
+			{
+			}
+			SEQ_ALWAYS_INLINE operator uint64_t() const noexcept { return d_pos.load(std::memory_order_relaxed); }
+			SEQ_ALWAYS_INLINE CachedPosition& operator=(uint64_t pos) noexcept
+			{
+				d_pos.store(pos, std::memory_order_relaxed);
+				return *this;
+			}
+		};
+
 		/// @brief Directory within a radix tree.
 		/// A directory stores a power of 2 number of children that could be either directories, leaves or vectors.
 		template<class T, class Node, class Vector, class Hasher>
@@ -1250,7 +1271,7 @@ namespace seq
 			unsigned dir_count = 0;		      // number of directories inside
 			unsigned child_count = 0;	      // total number of children
 			unsigned parent_pos = 0;	      // position within parent directory
-			uint64_t first_valid_child = invalid; // position of the first valid child, if possible a leaf node.
+			CachedPosition first_valid_child{ invalid }; // position of the first valid child, if possible a leaf node.
 			uint64_t prefix_len = 0;	      // prefix len in bits.
 			Directory* parent = nullptr;	      // parent directory (null for root leaf)
 
@@ -1273,18 +1294,20 @@ namespace seq
 					return ch.to_node()->back();
 				return ch.to_vector()->back();
 			}
-			/// @brief Recompute the first valid position within the directory, and if possible a leaf node
+			/// @brief Recompute the first valid position within the directory, and if possible a leaf node.
+			/// Might be called concurrently by const members: only store the final position.
 			void compute_first_valid() noexcept
 			{
-				first_valid_child = invalid;
+				uint64_t first = invalid;
 				for (unsigned i = 0; i < size(); ++i) {
 					if (const_child(i).tag() == IsLeaf) {
-						first_valid_child = i;
+						first = i;
 						break;
 					}
-					else if (const_child(i).tag() && first_valid_child == invalid)
-						first_valid_child = i;
+					else if (const_child(i).tag() && first == invalid)
+						first = i;
 				}
+				first_valid_child = first;
 			}
 			SEQ_ALWAYS_INLINE void invalidate_first_valid() noexcept { first_valid_child = invalid; }
 
-- 
2.43.0


From 83b00b8441239bf3d6df18fc78327d7858bd2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 117/129] fix: giving a formatted value of a custom type to a
 slot stores a dangling pointer

---
 seq/format.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 42583de..79ff55f 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1225,7 +1225,11 @@ namespace seq
 		template<class U, bool S>
 		auto operator()(const ostream_format<U, S>& other) -> Derived&
 		{
-			_value.set_value(static_cast<T>(other.value()));
+			if constexpr (std::is_same_v<T, U>)
+				// No conversion: do not make a temporary copy, as set_value() might store its address
+				_value.set_value(other.value());
+			else
+				_value.set_value(static_cast<T>(other.value()));
 			// Do NOT set the width/numeric parameters
 			// set_numeric_format(other.numeric_fmt());
 			// set_width_format(other.width_fmt());
-- 
2.43.0


From 4021a9e3686ff7d8305b18fb0bfaab47f1f95c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 118/129] fix: writing a formatted value to a std::ostream
 ignores the stream state and output errors

---
 seq/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 79ff55f..efd09ed 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1679,7 +1679,7 @@ namespace seq
 				s = tmp.size();
 			}
 		}
-		oss.rdbuf()->sputn(tmp.data(), static_cast<std::streamsize>(s));
+		oss.write(tmp.data(), static_cast<std::streamsize>(s));
 		return oss;
 	}
 
@@ -2952,7 +2952,7 @@ namespace seq
 		auto& tmp = detail::multi_ostream_buffer<Elem>();
 		tmp.clear();
 		val.append(tmp);
-		oss.rdbuf()->sputn(tmp.data(), static_cast<std::streamsize>(tmp.size()));
+		oss.write(tmp.data(), static_cast<std::streamsize>(tmp.size()));
 		return oss;
 	}
 
-- 
2.43.0


From a72b9aacba1d184854a359039b53e63204efaf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 119/129] fix: a value that formats others while being
 formatted corrupts the enclosing output

---
 seq/format.hpp | 55 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index efd09ed..3d90882 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -752,6 +752,33 @@ namespace seq
 			return tmp;
 		}
 
+		/// @brief Gives exclusive access to one of the above thread_local buffers.
+		/// The memory of the buffer is taken on construction and given back on destruction. This way,
+		/// a value that uses the format module while being formatted does not overwrite the enclosing output.
+		template<class Char>
+		class BorrowedBuffer
+		{
+			std::basic_string<Char>& d_source;
+			std::basic_string<Char> d_buffer;
+
+		public:
+			explicit BorrowedBuffer(std::basic_string<Char>& source) noexcept
+			  : d_source(source)
+			  , d_buffer(std::move(source))
+			{
+				d_source.clear();
+				d_buffer.clear();
+			}
+			BorrowedBuffer(const BorrowedBuffer&) = delete;
+			BorrowedBuffer& operator=(const BorrowedBuffer&) = delete;
+			~BorrowedBuffer()
+			{
+				if (d_buffer.capacity() > d_source.capacity())
+					d_source.swap(d_buffer);
+			}
+			auto get() noexcept -> std::basic_string<Char>& { return d_buffer; }
+		};
+
 		// Helper function, append a ostream_format to a string
 		template<class String, class Ostream>
 		static auto append_to_string(String& out, const Ostream& d) -> String&
@@ -1284,8 +1311,8 @@ namespace seq
 		auto to_chars(Char* dst) -> Char*
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::BorrowedBuffer<Char> tmp_buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = tmp_buffer.get();
 			this->append(tmp);
 			detail::memcpy_char(dst, tmp.data(), tmp.size());
 			return dst + tmp.size();
@@ -1297,8 +1324,8 @@ namespace seq
 		auto to_chars(Char* dst, size_t max) -> std::pair<Char*, size_t>
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::BorrowedBuffer<Char> tmp_buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = tmp_buffer.get();
 			this->append(tmp);
 			if (tmp.size() > max) {
 				detail::memcpy_char(dst, tmp.data(), max);
@@ -1314,8 +1341,8 @@ namespace seq
 		{
 			using Char = typename std::iterator_traits<Iter>::value_type;
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::BorrowedBuffer<Char> tmp_buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = tmp_buffer.get();
 			this->append(tmp);
 			return std::copy(tmp.begin(), tmp.end(), dst);
 		}
@@ -1669,8 +1696,8 @@ namespace seq
 	{
 		using valid_char_type = typename ostream_format<T, S>::valid_char_type;
 		static_assert(std::is_same_v<valid_char_type, Elem>, "output to stream: cannot mix different character types");
-		auto& tmp = detail::ostream_buffer<Elem>();
-		tmp.clear();
+		detail::BorrowedBuffer<Elem> tmp_buffer(detail::ostream_buffer<Elem>());
+		auto& tmp = tmp_buffer.get();
 		size_t s = val.to_string(tmp);
 		if (!ostream_format<T, S>::auto_width_format) {
 			// non default ostream_format, the width formatting must be applied
@@ -2264,8 +2291,8 @@ namespace seq
 			template<class C>
 			auto to_chars(C* dst, size_t max) -> std::pair<C*, size_t>
 			{
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				BorrowedBuffer<C> tmp_buffer(detail::to_chars_buffer<C>());
+				auto& tmp = tmp_buffer.get();
 				reserve_string(tmp);
 				this->append(tmp);
 				if (tmp.size() > max) {
@@ -2280,8 +2307,8 @@ namespace seq
 			auto to_iter(Iter dst) -> Iter
 			{
 				using C = typename std::iterator_traits<Iter>::value_type;
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				BorrowedBuffer<C> tmp_buffer(detail::to_chars_buffer<C>());
+				auto& tmp = tmp_buffer.get();
 				reserve_string(tmp);
 				this->append(tmp);
 				return std::copy(tmp.begin(), tmp.end(), dst);
@@ -2949,8 +2976,8 @@ namespace seq
 	inline auto operator<<(std::basic_ostream<Elem, Traits>& oss, const detail::mutli_ostream_format<T, C, HS, P, S>& val) -> std::basic_ostream<Elem, Traits>&
 	{
 		static_assert(std::is_void_v<C> || std::is_same_v<Elem, C>, "cannot mix different character types");
-		auto& tmp = detail::multi_ostream_buffer<Elem>();
-		tmp.clear();
+		detail::BorrowedBuffer<Elem> tmp_buffer(detail::multi_ostream_buffer<Elem>());
+		auto& tmp = tmp_buffer.get();
 		val.append(tmp);
 		oss.write(tmp.data(), static_cast<std::streamsize>(tmp.size()));
 		return oss;
-- 
2.43.0


From f5acdfa837298d3219566dde01df55af448a3862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 120/129] fix: replace() drops leading and consecutive matches
 instead of replacing them

---
 seq/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 3d90882..40c2863 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -3261,7 +3261,7 @@ namespace seq
 	template<class Out, class Str1, class Str2, class Str3>
 	inline auto replace(const Str1& src, const Str2& match, const Str3& _new)
 	{
-		auto r = split(src, by_string(match), skip_empty{});
+		auto r = split(src, by_string(match), no_skip{});
 		return Out(join(_new, r));
 	}
 
-- 
2.43.0


From f83390ff8e7b1e099545e94a74f96cca018cafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 121/129] fix: formatting a streamable type silently truncates
 the text when memory is missing

---
 seq/format.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/format.hpp b/seq/format.hpp
index 40c2863..b0b75cc 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1376,6 +1376,8 @@ namespace seq
 				// Default implementation: use ostringstream
 				using Char = typename String::value_type;
 				std::basic_ostringstream<Char> oss;
+				// Report errors (like allocation failures) instead of silently truncating the output
+				oss.exceptions(std::ios_base::badbit);
 #if defined(__clang__) && defined(_MSC_VER)
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Wmicrosoft-cast"
-- 
2.43.0


From cbfef580fff10b3064d91b3eaf40cd768ae39af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 122/129] fix: radix trees construct elements at misaligned
 addresses

---
 seq/internal/radix_tree.hpp | 40 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index d9e102b..234c702 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -945,8 +945,12 @@ namespace seq
 			// maximum capacity (and size), lower for sorted elements
 			static constexpr unsigned max_capacity = Sorted ? 64 : 96;
 
-			// returns size of header and tiny hash values
-			static unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept { return header_size + capacity; }
+			// returns size of header and tiny hash values, rounded up to keep the values aligned
+			static constexpr unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept
+			{
+				constexpr unsigned align = static_cast<unsigned>(alignof(T));
+				return (header_size + capacity + align - 1u) & ~(align - 1u);
+			}
 			// returns the capacity for a given size
 			static unsigned capacity_for_size(unsigned size) noexcept
 			{
@@ -973,8 +977,8 @@ namespace seq
 			SEQ_ALWAYS_INLINE const std::uint8_t* hashs() const noexcept { return reinterpret_cast<const std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE std::uint8_t* hashs() noexcept { return reinterpret_cast<std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE unsigned count() const noexcept { return *size(); }
-			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(hashs() + *capacity()); }
-			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(hashs() + *capacity()); }
+			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(reinterpret_cast<char*>(this) + hash_for_size(0, *capacity())); }
+			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(reinterpret_cast<const char*>(this) + hash_for_size(0, *capacity())); }
 			SEQ_ALWAYS_INLINE const T& back() const noexcept { return values()[count() - 1]; }
 			SEQ_ALWAYS_INLINE std::uint8_t get_tiny_hash(unsigned pos) const { return hashs()[pos]; }
 
@@ -1380,6 +1384,14 @@ namespace seq
 			// Allocate by quantum of 8 bytes
 			static constexpr size_t alloc_size = sizeof(std::uint64_t);
 
+			// Leaf nodes need the alignment of their values
+			struct alignas(alignof(T)) over_aligned_block
+			{
+				unsigned char data[alignof(T)];
+			};
+			using leaf_block = std::conditional_t<(alignof(T) > alignof(std::uint64_t)), over_aligned_block, std::uint64_t>;
+			static constexpr size_t leaf_alloc_size = sizeof(leaf_block);
+
 		public:
 			using allocator_type = Allocator;
 			using vector_type = typename directory::vector_type;
@@ -1425,15 +1437,15 @@ namespace seq
 			node* allocate(unsigned hash_size, unsigned capacity)
 			{
 
-				RebindAlloc<Allocator, std::uint64_t> al = get_allocator();
+				RebindAlloc<Allocator, leaf_block> al = get_allocator();
 				size_t bytes = hash_size + sizeof(T) * capacity;
-				size_t to_alloc = bytes / alloc_size + (bytes % alloc_size ? 1 : 0);
+				size_t to_alloc = bytes / leaf_alloc_size + (bytes % leaf_alloc_size ? 1 : 0);
 
 #ifndef SEQ_DEBUG
 				return reinterpret_cast<node*>(al.allocate(to_alloc));
 #else
-				std::uint64_t* tmp = al.allocate(to_alloc + 1);
-				*tmp = to_alloc;
+				leaf_block* tmp = al.allocate(to_alloc + 1);
+				*reinterpret_cast<std::uint64_t*>(tmp) = to_alloc;
 				return reinterpret_cast<node*>(tmp + 1);
 #endif
 			}
@@ -1441,16 +1453,16 @@ namespace seq
 			void deallocate(node* node, unsigned hash_size, unsigned capacity)
 			{
 
-				RebindAlloc<Allocator, std::uint64_t> al = get_allocator();
+				RebindAlloc<Allocator, leaf_block> al = get_allocator();
 				size_t bytes = hash_size + sizeof(T) * capacity;
-				size_t to_dealloc = bytes / alloc_size + (bytes % alloc_size ? 1 : 0);
+				size_t to_dealloc = bytes / leaf_alloc_size + (bytes % leaf_alloc_size ? 1 : 0);
 
 #ifndef SEQ_DEBUG
-				al.deallocate(reinterpret_cast<std::uint64_t*>(node), to_dealloc);
+				al.deallocate(reinterpret_cast<leaf_block*>(node), to_dealloc);
 #else
-				std::uint64_t* tmp = reinterpret_cast<std::uint64_t*>(node) - 1;
-				SEQ_ASSERT_DEBUG(*tmp == to_dealloc, "mismatch between allocation and deallocation size");
-				if (*tmp != to_dealloc)
+				leaf_block* tmp = reinterpret_cast<leaf_block*>(node) - 1;
+				SEQ_ASSERT_DEBUG(*reinterpret_cast<std::uint64_t*>(tmp) == to_dealloc, "mismatch between allocation and deallocation size");
+				if (*reinterpret_cast<std::uint64_t*>(tmp) != to_dealloc)
 					throw std::runtime_error("");
 				al.deallocate(tmp, to_dealloc + 1);
 #endif
-- 
2.43.0


From ebdd7bd1686d870d44c0a58f8b62b61a5546bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 123/129] fix: radix trees misplace arrays of 64 bits values
 that share their first ones

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 234c702..a9ff688 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -401,7 +401,7 @@ namespace seq
 					else {
 						// no byte swap here, just plain old bits manipulation
 						up[0] = to_uint(p[0]);
-						if (shift > 32 && (char_offset + 1) < size) {
+						if (byte_offset && (char_offset + 1) < size) {
 							auto hash2 = to_uint(data[char_offset + 1]);
 							hash = (hash << (byte_offset << 3u)) | (hash2 >> (64u - (byte_offset << 3u)));
 							return static_cast<unsigned>((hash << bit_offset) >> (64u - count));
-- 
2.43.0


From 81096153faa734dad59d306eeb28affc3a730846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 124/129] fix: radix trees order arrays of signed values
 wrongly when one is a prefix of the other

---
 seq/internal/radix_tree.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index a9ff688..744e35c 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -386,21 +386,24 @@ namespace seq
 					type* p = reinterpret_cast<type*>(&hash);
 					unsigned_type* up = reinterpret_cast<unsigned_type*>(&hash);
 					static_assert(!std::is_const_v<T>, " const type!");
+					// Missing characters must remain 0: a prefix is lower than the strings starting with it,
+					// whereas to_uint(0) is greater than to_uint(-1).
+					const size_t remaining = char_offset < size ? size - char_offset : 0;
 					if constexpr (sizeof(type) == 2) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
-						up[2] = swap_b(to_uint(p[2]));
-						up[3] = swap_b(to_uint(p[3]));
+						up[0] = remaining > 0 ? swap_b(to_uint(p[0])) : 0;
+						up[1] = remaining > 1 ? swap_b(to_uint(p[1])) : 0;
+						up[2] = remaining > 2 ? swap_b(to_uint(p[2])) : 0;
+						up[3] = remaining > 3 ? swap_b(to_uint(p[3])) : 0;
 						hash = swap_b(hash);
 					}
 					else if constexpr (sizeof(type) == 4) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
+						up[0] = remaining > 0 ? swap_b(to_uint(p[0])) : 0;
+						up[1] = remaining > 1 ? swap_b(to_uint(p[1])) : 0;
 						hash = swap_b(hash);
 					}
 					else {
 						// no byte swap here, just plain old bits manipulation
-						up[0] = to_uint(p[0]);
+						up[0] = remaining > 0 ? to_uint(p[0]) : 0;
 						if (byte_offset && (char_offset + 1) < size) {
 							auto hash2 = to_uint(data[char_offset + 1]);
 							hash = (hash << (byte_offset << 3u)) | (hash2 >> (64u - (byte_offset << 3u)));
-- 
2.43.0


From 420d8eb71b2c2f391e3dc1a596a5ea5b4ee70ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 125/129] fix: radix trees mix two orders of wide characters

---
 seq/internal/radix_tree.hpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 744e35c..cfaa4b7 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -154,15 +154,6 @@ namespace seq
 			// Convert pointer to uintptr_t
 			return reinterpret_cast<std::uintptr_t>(p);
 		}
-		static SEQ_ALWAYS_INLINE auto to_uint(wchar_t k) noexcept
-		{
-			// Convert wchar_t to its unsigned representation.
-			// That's because wchar_t string comparison works
-			// on the unsigned character.
-			// Other character types (char8_t, char16_t, char32_t)
-			// are already unsigned.
-			return static_cast<std::make_unsigned<wchar_t>::type>(k);
-		}
 		static SEQ_ALWAYS_INLINE bool to_uint(bool k) noexcept
 		{
 			return k;
-- 
2.43.0


From b98e9cd9bae99fc50be32ef2c42841441896fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 126/129] fix: radix trees do not find floating point keys
 equal to 0 by the other zero

---
 seq/internal/radix_tree.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index cfaa4b7..633a883 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -164,7 +164,7 @@ namespace seq
 			{
 				float d;
 				std::uint32_t u;
-			} u = { k };
+			} u = { k == 0 ? 0.f : k }; // -0 and +0 are the same key
 			// Flip all except top if top bit is set.
 			u.u ^= ((static_cast<unsigned>((static_cast<int>(u.u)) >> 31)) >> 1);
 			// Flip top bit.
@@ -177,7 +177,7 @@ namespace seq
 			{
 				double d;
 				std::uint64_t u;
-			} u = { k };
+			} u = { k == 0 ? 0. : k }; // -0 and +0 are the same key
 			// Flip all except top if top bit is set.
 			u.u ^= ((static_cast<std::uint64_t>((static_cast<std::int64_t>(u.u)) >> 63ll)) >> 1ll);
 			// Flip top bit.
@@ -405,7 +405,18 @@ namespace seq
 				}
 			}
 
-			SEQ_ALWAYS_INLINE std::uint8_t tiny_hash() const noexcept { return static_cast<std::uint8_t>(hash_bytes_komihash(data, size * sizeof(type))); }
+			SEQ_ALWAYS_INLINE std::uint8_t tiny_hash() const noexcept
+			{
+				if constexpr (std::is_floating_point_v<type>) {
+					// equal values might have different representations
+					std::uint64_t h = 0;
+					for (size_t i = 0; i < size; ++i)
+						h = hash_finalize(static_cast<size_t>(h ^ to_uint(data[i])));
+					return static_cast<std::uint8_t>(h);
+				}
+				else
+					return static_cast<std::uint8_t>(hash_bytes_komihash(data, size * sizeof(type)));
+			}
 
 			SEQ_ALWAYS_INLINE auto hash(const type* p) const noexcept { return RadixHasher<T>{ p, std::char_traits<type>::length(p) }; }
 			template<class U>
-- 
2.43.0


From 8fc5b6dc8883dd2c949428a7cb106ef0ebcfb019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 127/129] fix: sequence and ordered containers crash with
 over-aligned elements

---
 seq/sequence.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index ca23a23..9384316 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -127,6 +127,9 @@ namespace seq
 			template<class U>
 			using rebind_alloc = typename std::allocator_traits<Allocator>::template rebind_alloc<U>;
 
+			// the (power of 2) alignment must at least be the one of the chunk
+			static constexpr size_t chunk_align = alignof(list_chunk<T>) > list_chunk<T>::count ? alignof(list_chunk<T>) : static_cast<size_t>(list_chunk<T>::count);
+
 			size_t chunks = 0;
 			std_alloc(const Allocator& alloc) noexcept(std::is_nothrow_copy_constructible_v<Allocator>)
 			  : Allocator(alloc)
@@ -147,7 +150,7 @@ namespace seq
 				rebind_alloc<list_chunk<T>> _al = get_allocator();
 				list_chunk<T>* res;
 				if (Align64) {
-					aligned_allocator<list_chunk<T>, rebind_alloc<list_chunk<T>>, list_chunk<T>::count> al = _al;
+					aligned_allocator<list_chunk<T>, rebind_alloc<list_chunk<T>>, chunk_align> al = _al;
 					res = al.allocate(1);
 				}
 				else
@@ -159,7 +162,7 @@ namespace seq
 			{
 				rebind_alloc<list_chunk<T>> _al = get_allocator();
 				if (Align64) {
-					aligned_allocator<list_chunk<T>, rebind_alloc<list_chunk<T>>, list_chunk<T>::count> al = _al;
+					aligned_allocator<list_chunk<T>, rebind_alloc<list_chunk<T>>, chunk_align> al = _al;
 					al.deallocate(ptr, 1);
 				}
 				else
@@ -771,7 +774,8 @@ namespace seq
 		{
 			using difference_type = typename std::allocator_traits<Allocator>::difference_type;
 			using chunk_type = detail::list_chunk<T>;
-			detail::base_list_chunk<T> end; // end chunk
+			// end chunk, accessed through chunk_type pointers: needs the same alignment
+			alignas(chunk_type) detail::base_list_chunk<T> end;
 			std::size_t size;		// full size
 
 			Data(const Allocator& al) noexcept(std::is_nothrow_copy_constructible_v<Allocator>)
-- 
2.43.0


From cd0de2c8b46302b3f6d186453088785ef9b1ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 128/129] fix: sequence and ordered containers dereference a
 null pointer when memory is missing

---
 seq/utils.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index 2880f28..396cf5d 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -28,6 +28,7 @@
 /** @file */
 
 #include <memory>
+#include <new>
 
 #include "bits.hpp"
 #include "type_traits.hpp"
@@ -141,8 +142,8 @@ namespace seq
 			size_t overhead = align + sizeof(void*);
 
 			// Avoid integer overflow
-			if (size > (SIZE_MAX - overhead))
-				return nullptr;
+			if (n > SIZE_MAX / sizeof(T) || size > (SIZE_MAX - overhead))
+				throw std::bad_alloc();
 
 			std::uint8_t* mem = al.allocate(size + overhead);
 
@@ -229,7 +230,13 @@ namespace seq
 		auto address(reference x) const noexcept -> pointer { return static_cast<std::allocator<T>*>(this)->address(x); }
 		auto address(const_reference x) const noexcept -> const_pointer { return static_cast<std::allocator<T>*>(this)->address(x); }
 		auto allocate(size_t n, const void* /*unused*/) -> T* { return allocate(n); }
-		auto allocate(size_t n) -> T* { return static_cast<T*>(aligned_malloc(n * sizeof(T), alignment)); }
+		auto allocate(size_t n) -> T*
+		{
+			void* p = n > SIZE_MAX / sizeof(T) ? nullptr : aligned_malloc(n * sizeof(T), alignment);
+			if (!p)
+				throw std::bad_alloc();
+			return static_cast<T*>(p);
+		}
 		void deallocate(T* p, size_t /*unused*/) { aligned_free(p); }
 		template<class... Args>
 		void construct(T* p, Args&&... args)
-- 
2.43.0


From 67b0a041c06725fd8810e4e018b48677c5a1f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 129/129] fix: reserve() and rehash() of tiny sizes count the
 leading zeros of 0

---
 seq/internal/radix_tree.hpp | 2 +-
 seq/ordered_map.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 633a883..c25a8a1 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2178,7 +2178,7 @@ namespace seq
 
 				// Update its root size
 				capacity = (capacity / (node::max_capacity));
-				unsigned bits = bit_scan_reverse_64(capacity) + 1;
+				unsigned bits = capacity ? bit_scan_reverse_64(capacity) + 1 : 0;
 				bits = std::min(bits, 26U); // maximum 26 bits for a directory
 				other.make_data(bits);
 
diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index d2aebbf..feddde6 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -599,7 +599,7 @@ namespace seq
 					new_hash_mask = size - 1ULL;
 				else
 					new_hash_mask = (1ULL << (1ULL + (bit_scan_reverse_64(size)))) - 1ULL;
-				new_hash_len = bit_scan_reverse_64(new_hash_mask) + 1U;
+				new_hash_len = new_hash_mask ? bit_scan_reverse_64(new_hash_mask) + 1U : 0;
 				if (dirty())
 					rehash_remove_duplicates(new_hash_mask, new_hash_len, d_seq.begin(), d_seq.end());
 				else if (force || d_buckets == null_node() || new_hash_mask != d_hash_mask || d_max_dist == node_type::max_distance) {
-- 
2.43.0

