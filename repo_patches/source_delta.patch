From 9297058d8733d056a511a1ed41847bc7ed469ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:30 +0000
Subject: [PATCH 001/147] fix: report an error raised by key equality instead
 of treating the keys as different

The probe loops of the hash table turned a failing equality into "not equal",
so a lookup missed an existing key and an insertion added a duplicate.
---
 hashbrown/src/raw/mod.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..de66d08 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,24 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            let mut error = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    // A failing `eq` ends the probe; the error is returned below.
+                    eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                        error = Some(err);
+                        true
+                    })
+                });
+            if let Some(err) = error {
+                return Err(err);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1100,17 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            let mut error = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                // A failing `eq` ends the probe; the error is returned below.
+                eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                    error = Some(err);
+                    true
+                })
             });
+            if let Some(err) = error {
+                return Err(err);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
-- 
2.43.0


From c8593034c38e4e339fba444967f61349cde6f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:30 +0000
Subject: [PATCH 002/147] fix: return an equality error from
 HashSet::get_or_insert_with

The error was turned into a panic saying that the new value is not equivalent.
---
 hashbrown/src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From 05e9e36ac60169351e0fcdc939ba14b03eff5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:30 +0000
Subject: [PATCH 003/147] fix: refuse a hash table reservation whose size
 overflows

Without overflow checks the sum wrapped around and the reservation was
silently dropped.
---
 hashbrown/src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index de66d08..d7fcd0d 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2451,7 +2451,10 @@ impl RawTableInner {
         drop: Option<unsafe fn(*mut u8)>,
     ) {
         // Avoid `Option::ok_or_else` because it bloats LLVM IR.
-        let new_items = self.items + additional;
+        let new_items = match self.items.checked_add(additional) {
+            Some(new_items) => new_items,
+            None => panic!("Hash table capacity overflow"),
+        };
         let full_capacity = bucket_mask_to_capacity(self.bucket_mask);
         if new_items <= full_capacity / 2 {
             // Rehash in-place without re-allocating if we have plenty of spare
-- 
2.43.0


From 14a448cc844bcf03be09cfef8069d6f315132490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:30 +0000
Subject: [PATCH 004/147] fix: look the key up by hash when removing from a map
 of one pair

The shortcut for a single pair only asked for equality, so a key could be
removed that every lookup reported as absent.
---
 rubymap/src/map.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..4da965c 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -984,14 +984,7 @@ where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
         match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
+            [] => Ok(None),
             _ => {
                 let hash = self.hash(key, e, g)?;
                 self.core.swap_remove_full(hash, key, e, g)
@@ -1117,14 +1110,7 @@ where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
         match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
+            [] => Ok(None),
             _ => {
                 let hash = self.hash(key, e, g)?;
                 self.core.shift_remove_full(hash, key, e, g)
-- 
2.43.0


From c7ce30a2d9df57f463b49bbc8540e300aaeb3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:49 +0000
Subject: [PATCH 005/147] fix: ask for key equality only when the recorded hash
 matches

The indexed representation compared keys whose hashes merely shared a few
bits, so its answer could differ from that of a small map.
---
 rubymap/src/map/core.rs       | 31 ++++++++++++++++++-------------
 rubymap/src/map/core/entry.rs |  2 +-
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/rubymap/src/map/core.rs b/rubymap/src/map/core.rs
index 242642b..0d6b14f 100644
--- a/rubymap/src/map/core.rs
+++ b/rubymap/src/map/core.rs
@@ -76,18 +76,20 @@ fn get_hash<K, V>(entries: &[Bucket<K, V>]) -> impl Fn(&usize) -> u64 + '_ {
 
 #[inline]
 fn equivalent<'a, K, V, E, G, R, Q: ?Sized + Equivalent<K, E, G, R>>(
+    hash: HashValue,
     key: &'a Q,
     entries: &'a [Bucket<K, V>],
 ) -> impl Fn(&usize, &mut E, &mut G) -> Result<bool, R> + 'a {
-    move |&i, e, g| Q::equivalent(key, &entries[i].key, e, g)
+    move |&i, e, g| Ok(entries[i].hash == hash && Q::equivalent(key, &entries[i].key, e, g)?)
 }
 
 #[inline]
 fn sym_equivalent<'a, K, V, Q: ?Sized + SymEquivalent<K>>(
+    hash: HashValue,
     key: &'a Q,
     entries: &'a [Bucket<K, V>],
 ) -> impl Fn(&usize) -> bool + 'a {
-    move |&i| Q::equivalent(key, &entries[i].key)
+    move |&i| entries[i].hash == hash && Q::equivalent(key, &entries[i].key)
 }
 
 #[inline]
@@ -396,7 +398,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         if self.linear {
             return self.linear_find(hash, key, e, g);
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(self.indices.find(hash.get(), eq, e, g)?.copied())
     }
 
@@ -434,7 +436,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             // Crossing AR_MAX: build the table once, then fall through.
             self.ensure_indexed();
         }
-        let eq = equivalent(&key, &self.entries);
+        let eq = equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry(hash.get(), eq, hasher, e, g)? {
             hash_table::Entry::Occupied(entry) => {
@@ -474,7 +476,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             }
             self.ensure_indexed();
         }
-        let eq = sym_equivalent(&key, &self.entries);
+        let eq = sym_equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry_sym(hash.get(), eq, hasher) {
             hash_table::Entry::Occupied(entry) => {
@@ -519,7 +521,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             self.ensure_indexed();
         }
         let entries = &self.entries;
-        let eq = |&i: &usize| entries[i].key == key;
+        let eq = |&i: &usize| entries[i].hash == hash && entries[i].key == key;
         let hasher = get_hash(&self.entries);
         match self.indices.entry_sym(hash.get(), eq, hasher) {
             hash_table::Entry::Occupied(entry) => {
@@ -559,7 +561,9 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             return Ok(None);
         }
         let entries = &self.entries;
-        let eq = |&i: &usize, _: &mut E, _: &mut G| Ok(entries[i].key == *key);
+        let eq = |&i: &usize, _: &mut E, _: &mut G| {
+            Ok(entries[i].hash == hash && entries[i].key == *key)
+        };
         Ok(self.indices.find(hash.get(), eq, e, g)?.copied())
     }
 
@@ -592,7 +596,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             self.ensure_indexed();
         }
         let entries = &self.entries;
-        let eq = |&i: &usize| eq(&entries[i].key);
+        let eq = |&i: &usize| entries[i].hash == hash && eq(&entries[i].key);
         let hasher = get_hash(&self.entries);
         match self.indices.entry_sym(hash.get(), eq, hasher) {
             hash_table::Entry::Occupied(entry) => {
@@ -631,7 +635,8 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             return Ok(None);
         }
         let entries = &self.entries;
-        let eq = |&i: &usize, _: &mut E, _: &mut G| Ok(eq(&entries[i].key));
+        let eq =
+            |&i: &usize, _: &mut E, _: &mut G| Ok(entries[i].hash == hash && eq(&entries[i].key));
         Ok(self.indices.find(hash.get(), eq, e, g)?.copied())
     }
 
@@ -648,7 +653,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         K: RubyEql<E, G, R>,
     {
         self.ensure_indexed();
-        let eq = equivalent(&key, &self.entries);
+        let eq = equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry(hash.get(), eq, hasher, e, g)? {
             hash_table::Entry::Occupied(entry) => {
@@ -701,7 +706,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         Q: ?Sized + Equivalent<K, E, G, R>,
     {
         self.ensure_indexed();
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
@@ -789,7 +794,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
                 None => None,
             });
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
@@ -862,7 +867,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
                 None => None,
             });
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
diff --git a/rubymap/src/map/core/entry.rs b/rubymap/src/map/core/entry.rs
index c90c76a..4ff48bf 100644
--- a/rubymap/src/map/core/entry.rs
+++ b/rubymap/src/map/core/entry.rs
@@ -19,7 +19,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         // flavour about both modes.
         self.ensure_indexed();
         let entries = &mut self.entries;
-        let eq = equivalent(&key, entries);
+        let eq = equivalent(hash, &key, entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(index) => Entry::Occupied(OccupiedEntry { entries, index }),
             Err(absent) => Entry::Vacant(VacantEntry {
-- 
2.43.0


From 448ce75af94f1d79202b625d3db8dd1e2f2564e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:41 +0000
Subject: [PATCH 006/147] fix: forget unplaced elements without destructors
 when a rehash panics

---
 hashbrown/src/raw/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index d7fcd0d..ec26ee8 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2676,13 +2676,13 @@ impl RawTableInner {
         self.prepare_rehash_in_place();
 
         let mut guard = guard(self, move |self_| {
-            if let Some(drop) = drop {
-                for i in 0..self_.buckets() {
-                    if *self_.ctrl(i) == Tag::DELETED {
-                        self_.set_ctrl(i, Tag::EMPTY);
+            for i in 0..self_.buckets() {
+                if *self_.ctrl(i) == Tag::DELETED {
+                    self_.set_ctrl(i, Tag::EMPTY);
+                    if let Some(drop) = drop {
                         drop(self_.bucket_ptr(i, size_of));
-                        self_.items -= 1;
                     }
+                    self_.items -= 1;
                 }
             }
             self_.growth_left = bucket_mask_to_capacity(self_.bucket_mask) - self_.items;
-- 
2.43.0


From 7689842ed22015496ba7eabeb3c5b20d15f7fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:17 +0000
Subject: [PATCH 007/147] fix: count the objects of salvaged pages as freed

An empty page is taken out of service before the sweep, so its objects never
reach the free list and total_freed_objects left them out. Derive the number
from the objects allocated and the slots in use.
---
 monoruby/src/alloc.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index 4deaeb1..6ac1e66 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1894,11 +1894,12 @@ impl<T: GCBox> Allocator<T> {
         debug_assert!(demoted <= self.old_count);
         self.old_count = self.old_count.saturating_sub(demoted);
         self.free = anchor.next();
-        // Cells that were already on the free list are swept again (the
-        // sweep is idempotent), so they appear in both counts: what this
-        // collection actually reclaimed is the growth of the list.
-        self.total_freed_objects += c.saturating_sub(self.free_list_count);
         self.free_list_count = c;
+        // Every object ever allocated is now either in use or freed. Counting
+        // this way includes the objects on the pages salvaged before this
+        // sweep, which never reach the free list.
+        self.total_freed_objects =
+            self.total_allocated_objects - (self.available_slots() - self.allocatable_slots());
         if let Some(log) = log {
             let gc = self.total_gc_counter as u32;
             let kind = self.current_kind;
-- 
2.43.0


From c87c85b83732d7f43e55fb3c1f12e68dd9657f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:17 +0000
Subject: [PATCH 008/147] fix: count a salvaged page put back into service as
 allocated

Each salvage counts the page as freed, but putting it back did not count, so
total_freed_pages could exceed total_allocated_pages.
---
 monoruby/src/alloc.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index 6ac1e66..ceafe05 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1169,12 +1169,10 @@ impl<T: GCBox> Allocator<T> {
             // Allocate new page.
             self.used_in_current = 1;
             self.pages.push(self.current_page);
+            self.total_allocated_pages += 1;
             self.current_page = match self.free_pages.pop_front() {
                 Some(page) => page,
-                None => {
-                    self.total_allocated_pages += 1;
-                    self.new_page()
-                }
+                None => self.new_page(),
             };
             // A page entering service must start with a zeroed
             // old-generation bitmap: fresh arena pages are uninitialised,
-- 
2.43.0


From d1dffdb35770074b7129a3688f10b10023973e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:17 +0000
Subject: [PATCH 009/147] fix: include old objects in the live count after a
 minor collection

A minor collection seeds the mark bits of the old objects without marking them
one by one, so live_count left them out.
---
 monoruby/src/alloc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index ceafe05..39d5ac3 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1698,7 +1698,7 @@ impl<T: GCBox> Allocator<T> {
                 .iter_mut()
                 .for_each(|heap| heap.as_mut().seed_mark_from_old());
         }
-        self.mark_counter = 0;
+        self.mark_counter = self.old_count;
     }
 
     ///
-- 
2.43.0


From 91a4daa28f8040526b69cd6d08dc3c4b018d0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:17 +0000
Subject: [PATCH 010/147] fix: let no star match in front of a leading period

A leading period has to be matched by a literal period at the start of the
pattern, but "*.rb" matched ".rb" because the star may match nothing.
---
 monoruby/src/builtins/fnmatch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index 4379a1a..c95c3e1 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -135,6 +135,11 @@ fn match_segment_chars(pat: &[char], s: &[char], flags: u32, guard_start: bool)
         if pi < pat.len() {
             match pat[pi] {
                 '*' => {
+                    // Not even a star that matches nothing may stand before
+                    // a guarded period.
+                    if guarded(si) {
+                        return false;
+                    }
                     // Collapse consecutive stars.
                     while pi + 1 < pat.len() && pat[pi + 1] == '*' {
                         pi += 1;
-- 
2.43.0


From 395d3a788e2bed830ce49b4ee4f2394995f68eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:17 +0000
Subject: [PATCH 011/147] fix: expand brace groups after a stray closing brace

The scan for the first group stopped at a closing brace that closes nothing,
so "}{a,b}" was not expanded at all.
---
 monoruby/src/builtins/fnmatch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index c95c3e1..cb62931 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -280,8 +280,8 @@ pub(crate) fn expand_braces(pattern: &str, noescape: bool) -> Vec<String> {
                 }
                 depth += 1;
             }
-            '}' => {
-                depth = depth.saturating_sub(1);
+            '}' if depth > 0 => {
+                depth -= 1;
                 if depth == 0 {
                     if let Some(start) = open {
                         let prefix: String = chars[..start].iter().collect();
-- 
2.43.0


From e2025633a52dd37326559a185fd0ec81f240f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:43 +0000
Subject: [PATCH 012/147] fix: clone a vector without a buffer

Cloning a MonoVec of capacity 0 asked for a buffer of no bytes and panicked.
---
 monoruby/src/value/rvalue/ivar_table.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/value/rvalue/ivar_table.rs b/monoruby/src/value/rvalue/ivar_table.rs
index 4186c98..c74afbf 100644
--- a/monoruby/src/value/rvalue/ivar_table.rs
+++ b/monoruby/src/value/rvalue/ivar_table.rs
@@ -130,11 +130,9 @@ struct RawVec<T> {
 
 impl<T> Clone for RawVec<T> {
     fn clone(&self) -> Self {
-        unsafe {
-            let ptr = alloc(self.cap);
-            ptr::copy_nonoverlapping(self.ptr.as_ptr(), ptr.as_ptr(), self.cap);
-            Self { ptr, cap: self.cap }
-        }
+        let new = Self::with_capacity(self.cap);
+        unsafe { ptr::copy_nonoverlapping(self.ptr.as_ptr(), new.ptr.as_ptr(), self.cap) };
+        new
     }
 }
 
-- 
2.43.0


From c6739d6b992312c46d6660cd61b6d0fbf0676d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:39 +0000
Subject: [PATCH 013/147] fix: digest a Hash without regard to the order of its
 pairs

---
 monoruby/src/value/rvalue/hash.rs | 43 ++++++++++++-------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index a3fd368..70bb452 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1118,35 +1118,24 @@ impl RubyHash<Executor, Globals, MonorubyErr> for HashRef<'_> {
         e: &mut Executor,
         g: &mut Globals,
     ) -> Result<()> {
-        match self.content() {
-            ContentRef::Inline(pairs) => {
-                if self.is_ident_inline() {
-                    // digest keys by id, matching `IdentKey::ruby_hash`
-                    // so inline and boxed identity hashes digest alike
-                    for (key, val) in pairs {
-                        key.id().hash(state);
-                        val.ruby_hash(state, e, g)?;
-                    }
-                } else {
-                    for (key, val) in pairs {
-                        key.ruby_hash(state, e, g)?;
-                        val.ruby_hash(state, e, g)?;
-                    }
-                }
-            }
-            ContentRef::Map(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
-            }
-            ContentRef::Ident(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
+        use std::hash::Hasher;
+        // `eql?` ignores the order of the pairs, so the digest must as
+        // well: every live pair is digested on its own and the digests
+        // are summed.
+        let ident = self.is_compare_by_identity();
+        let mut sum = 0u64;
+        for (key, val) in self.iter() {
+            let mut pair = crate::value::seeded_hasher();
+            if ident {
+                key.id().hash(&mut pair);
+            } else {
+                key.ruby_hash(&mut pair, e, g)?;
             }
+            val.ruby_hash(&mut pair, e, g)?;
+            sum = sum.wrapping_add(pair.finish());
         }
+        self.len().hash(state);
+        sum.hash(state);
         Ok(())
     }
 }
-- 
2.43.0


From aa5bd779c065b85f8c4759ce2a908b149abe1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:39 +0000
Subject: [PATCH 014/147] fix: refuse to replace a Hash while it is being
 iterated

---
 monoruby/src/builtins/hash.rs     |  2 +-
 monoruby/src/value/rvalue/hash.rs | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index dba023e..2fde549 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1685,7 +1685,7 @@ fn clear(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut self_ = lfp.self_val().as_hash_mut(&globals.store)?;
     let arg = lfp.arg(0).coerce_to_hash(vm, globals)?;
-    self_.replace_inner(arg.inner().clone_inner());
+    self_.replace_inner(arg.inner().clone_inner())?;
 
     Ok(lfp.self_val())
 }
diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index 70bb452..6c69e4e 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -2019,14 +2019,21 @@ impl Hashmap {
     /// representation, identity-mode, and r2k bits replace the
     /// receiver's (`Hash#replace` transfers the compare_by_identity
     /// flag in both directions). Bulk barrier: the new content may
-    /// reference young objects.
-    pub fn replace_inner(&mut self, inner: HashmapInner) {
+    /// reference young objects. Refused while a traversal is in progress,
+    /// whose depth would be lost with the old content.
+    pub fn replace_inner(&mut self, inner: HashmapInner) -> Result<()> {
+        if self.check_iter().is_err() {
+            return Err(MonorubyErr::runtimeerr(
+                "can't replace hash during iteration",
+            ));
+        }
         let (flags, body) = inner.into_parts();
         let mut m = self.0.as_hashmap_inner_mut();
         m.install(flags & REP_MASK, body);
         let f = m.flags();
         m.set_flags((f & !(IDENT_BIT | R2K_BIT)) | (flags & (IDENT_BIT | R2K_BIT)));
         self.0.write_barrier_bulk();
+        Ok(())
     }
 
     /// Set / clear the ruby2_keywords flag (a plain bit — no GC edge,
-- 
2.43.0


From 3b70ca5a7cbeac987ca7d34be0d7cdea433fb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 015/147] fix: take stray lead bytes of EUC-JP and Shift_JIS as
 single characters

---
 monoruby/src/value/rvalue/string.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index e8242a4..ca3c8a6 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -92,20 +92,12 @@ impl<'a> Iterator for CharByteIter<'a> {
             //   0x8F + 2 bytes -> JIS X 0212            (3)
             //   0xA1..=0xFE    -> JIS X 0208 lead       (2)
             //   otherwise (incl. 7-bit & malformed)     (1)
-            Encoding::EucJp => match self.bytes[self.pos] {
-                0x8e => 2,
-                0x8f => 3,
-                0xa1..=0xfe => 2,
-                _ => 1,
-            },
+            Encoding::EucJp => eucjp_char_width(&self.bytes[self.pos..]).unwrap_or(1),
             // Shift_JIS / CP932 (stateless): a double-byte character
             // is led by 0x81..=0x9F or 0xE0..=0xFC; single-byte
             // otherwise (ASCII, 0xA1..=0xDF half-width kana, and the
             // 0x80/0xA0/0xFD..=0xFF singletons).
-            Encoding::Sjis(_) => match self.bytes[self.pos] {
-                0x81..=0x9f | 0xe0..=0xfc => 2,
-                _ => 1,
-            },
+            Encoding::Sjis(_) => sjis_char_width(&self.bytes[self.pos..]).unwrap_or(1),
             Encoding::Utf16Le | Encoding::Utf16Be => 2,
             Encoding::Utf32Le | Encoding::Utf32Be => 4,
             Encoding::Utf8 => {
-- 
2.43.0


From 807125287ea409c29b8f5c6c3203e6e1b11cfa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 016/147] fix: classify a reversed broken string again

---
 monoruby/src/value/rvalue/string.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index ca3c8a6..1df0ee0 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1510,6 +1510,12 @@ impl RStringInner {
             }
             debug_assert_eq!(write, 0);
         }
+        // Stray bytes that come to stand next to each other can form
+        // characters, so a broken string has to be looked at again.
+        let cr = match cr {
+            CodeRange::Broken => CodeRange::Unknown,
+            cr => cr,
+        };
         RStringInner::from(buf, enc, cr)
     }
 
-- 
2.43.0


From 250b8db4519cbd7c723f78883ca7bc4b2805082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 017/147] fix: give ASCII-only substrings of non-ASCII strings
 the right code range

---
 monoruby/src/value/rvalue/string.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 1df0ee0..5b6c66f 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1837,7 +1837,7 @@ impl RStringInner {
         RStringInner::from(
             SmallVec::from_slice(&parent.as_bytes()[start..end]),
             parent.encoding(),
-            Self::propagated_cr(parent, start, end),
+            Self::substring_cr(parent, start, end),
         )
     }
 
@@ -1919,6 +1919,21 @@ impl RStringInner {
         }
     }
 
+    /// The code range of a `start..end` byte-range view of `parent`:
+    /// what the parent's implies, except that a piece without any
+    /// non-ASCII byte of a string that has some is itself ASCII-only.
+    fn substring_cr(parent: &RStringInner, start: usize, end: usize) -> CodeRange {
+        match Self::propagated_cr(parent, start, end) {
+            CodeRange::Valid
+                if parent.encoding().is_ascii_compatible()
+                    && parent.as_bytes()[start..end].is_ascii() =>
+            {
+                CodeRange::SevenBit
+            }
+            cr => cr,
+        }
+    }
+
     /// Whether byte index `i` is a UTF-8 character boundary. `0` and
     /// `content.len()` are always boundaries; otherwise the byte at
     /// `i` must not be a continuation byte (top two bits != `10`).
@@ -2438,7 +2453,7 @@ pub(crate) fn string_substring(mut parent: Value, start: usize, end: usize) -> V
     debug_assert!(start <= end && end <= inner.len());
     let len = end - start;
     let ty = inner.encoding();
-    let cr = RStringInner::propagated_cr(inner, start, end);
+    let cr = RStringInner::substring_cr(inner, start, end);
     // Share only when the copy would have to heap-allocate anyway
     // (an inline copy is at most STRING_INLINE_CAP bytes and cheaper
     // than a root allocation + GC edge).
-- 
2.43.0


From 2f9056b27372855656937d85fb2b5b8ce1469d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 018/147] fix: forget the code range of a string handed out for
 writing

---
 monoruby/src/value/rvalue/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 5b6c66f..437765b 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1990,7 +1990,10 @@ impl RStringInner {
         // SAFETY: capacity > len after the reserve above, so the byte at
         // offset `len` is owned spare capacity that we can write to.
         unsafe { buf.as_mut_ptr().add(len).write(0) };
-        buf.as_mut_ptr()
+        let ptr = buf.as_mut_ptr();
+        // What the callee writes is not known.
+        self.cr.set(CodeRange::Unknown);
+        ptr
     }
 
     pub fn set_byte(&mut self, index: usize, byte: u8) {
-- 
2.43.0


From 2c2c2ae61a945bc1d54e50f2545a0aa616ca8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 019/147] fix: avoid overflow in character ranges of UTF-16 and
 UTF-32 strings

---
 monoruby/src/value/rvalue/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 437765b..c208e26 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2103,8 +2103,8 @@ impl RStringInner {
         };
         if let Some(u) = unit {
             let total = self.len();
-            let start_byte = (index * u).min(total);
-            let end_byte = ((index + len) * u).min(total);
+            let start_byte = index.saturating_mul(u).min(total);
+            let end_byte = index.saturating_add(len).saturating_mul(u).min(total);
             return start_byte..end_byte;
         }
         // UTF-8 path: walk per scalar (or per broken byte) so
-- 
2.43.0


From 2714b0d44d29e9375cf4a65fd17af7c5dc5acb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 020/147] fix: cache no false code range when bytes are
 appended

---
 monoruby/src/value/rvalue/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index c208e26..107b6cb 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2194,9 +2194,9 @@ impl RStringInner {
         // repeated callers (e.g. String#<< with single-char Integer args
         // or per-codepoint encode loops) don't degenerate to O(N²) when
         // self.code_range() is later queried.
-        let slice_cr = if slice.iter().all(|&b| b < 0x80) {
+        let slice_cr = if self.ty.is_ascii_compatible() && slice.iter().all(|&b| b < 0x80) {
             CodeRange::SevenBit
-        } else if self.ty.is_utf8_compatible() {
+        } else if matches!(self.ty, Encoding::Utf8) {
             CodeRange::Valid
         } else {
             CodeRange::Unknown
-- 
2.43.0


From f4ece49c95947fe01dd8ec7b000f5f876ff62e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 021/147] fix: classify a repeated broken string again

---
 monoruby/src/value/rvalue/string.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 107b6cb..8bed574 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2258,12 +2258,14 @@ impl RStringInner {
     pub fn repeat(&self, len: usize) -> RStringInner {
         // Repetition of a classified buffer trivially preserves cr:
         // SevenBit/Valid stay so under concatenation of identical
-        // valid runs, and Broken stays Broken. The empty case
+        // valid runs. The empty case
         // (`len == 0`) collapses to SevenBit, matching `classify(b"")`.
-        let cr = if len == 0 {
-            CodeRange::SevenBit
-        } else {
-            self.cr.get()
+        // Two stray halves of a character can make a whole one, so only
+        // a broken string has to be looked at again.
+        let cr = match self.cr.get() {
+            _ if len == 0 => CodeRange::SevenBit,
+            CodeRange::Broken => CodeRange::Unknown,
+            cr => cr,
         };
         RStringInner::from(SmallVec::from_vec(self.as_bytes().repeat(len)), self.ty, cr)
     }
-- 
2.43.0


From 036bdcbbacbf0d380ee7fc043db63b4fe63721a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:31 +0000
Subject: [PATCH 022/147] fix: notice when a splice removes the last non-ASCII
 bytes of a string

---
 monoruby/src/value/rvalue/string.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 8bed574..264173a 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2398,7 +2398,16 @@ impl RStringInner {
         // UTF-8 (or pure ASCII) and the splice respects character
         // boundaries — the result is well-formed UTF-8 too.
         if utf8_boundaries_ok && matches!(repl_cr, CodeRange::SevenBit | CodeRange::Valid) {
-            self.cr.set(CodeRange::Valid);
+            // The replaced part may have held the only non-ASCII bytes.
+            let cr = if matches!(repl_cr, CodeRange::SevenBit)
+                && self.ty.is_ascii_compatible()
+                && self.as_bytes().is_ascii()
+            {
+                CodeRange::SevenBit
+            } else {
+                CodeRange::Valid
+            };
+            self.cr.set(cr);
             return Ok(());
         }
         // Slow path: re-classify the whole buffer. Caching the
-- 
2.43.0


From 628393cf25e2d4bee5d202cbb64f0289ebd5137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:43 +0000
Subject: [PATCH 023/147] fix: keep a changed encoding in the snapshot of a
 String

---
 monoruby/src/value/rvalue/string.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 264173a..70f64e5 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2507,18 +2507,22 @@ pub(crate) fn string_snapshot(mut receiver: Value) -> Value {
     };
     if shareable {
         let (root, base) = ensure_shared_root(&mut receiver);
-        let view_len = receiver.as_rstring_inner().len();
+        let inner = receiver.as_rstring_inner();
+        let view_len = inner.len();
         let root_inner = root.as_rstring_inner();
-        if base == root_inner.as_ptr() && view_len == root_inner.len() {
+        if base == root_inner.as_ptr()
+            && view_len == root_inner.len()
+            && inner.encoding() == root_inner.encoding()
+        {
             root
         } else {
             // The receiver is a sharer viewing a sub-range of the
             // root's buffer (e.g. a CoW substring handed out by a
-            // MatchData accessor). The snapshot must present exactly
-            // that window — returning the bare root would hand callers
+            // MatchData accessor), or its encoding was changed since.
+            // The snapshot must present exactly that window in that
+            // encoding — returning the bare root would hand callers
             // the whole original buffer.
-            let start = base as usize - root_inner.as_ptr() as usize;
-            let mut snap = string_substring(root, start, start + view_len);
+            let mut snap = string_substring(receiver, 0, view_len);
             snap.set_frozen();
             snap
         }
-- 
2.43.0


From 70217eac3a9692a133043c8ca9d4f09bfbba624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:46 +0000
Subject: [PATCH 024/147] fix: escape interpolation marks when inspecting
 strings that are not UTF-8

---
 monoruby/src/value/rvalue/string.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 70f64e5..265dace 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -920,11 +920,7 @@ impl RStringInner {
             let bytes = self.as_bytes();
             for (i, c) in bytes.iter().enumerate() {
                 let next = bytes.get(i + 1).copied().unwrap_or(0);
-                if *c == b'#' && matches!(next, b'$' | b'@' | b'{') {
-                    res.push_str("\\#");
-                } else {
-                    ascii_escape(&mut res, *c);
-                }
+                ascii_escape_with_next(&mut res, *c, next);
             }
             res
         }
@@ -957,9 +953,11 @@ impl RStringInner {
             // `\x{A4A2}`).
             Encoding::EucJp | Encoding::Sjis(_) => {
                 let mut res = String::with_capacity(self.len());
-                for cb in self.iter_char_bytes() {
+                let mut chars = self.iter_char_bytes().peekable();
+                while let Some(cb) = chars.next() {
                     if cb.len() == 1 && cb[0] < 0x80 {
-                        ascii_escape(&mut res, cb[0]);
+                        let next = chars.peek().map_or(0, |cb| cb[0]);
+                        ascii_escape_with_next(&mut res, cb[0], next);
                     } else {
                         res.push_str("\\x{");
                         for b in cb {
@@ -984,8 +982,10 @@ impl RStringInner {
             // ASCII rules for < 0x80, `\xHH` otherwise.
             _ => {
                 let mut res = String::with_capacity(self.len());
-                for c in self.as_bytes() {
-                    ascii_escape(&mut res, *c);
+                let bytes = self.as_bytes();
+                for (i, c) in bytes.iter().enumerate() {
+                    let next = bytes.get(i + 1).copied().unwrap_or(0);
+                    ascii_escape_with_next(&mut res, *c, next);
                 }
                 res
             }
@@ -1203,6 +1203,16 @@ fn ascii_escape(s: &mut String, ch: u8) {
     s.push_str(str);
 }
 
+/// Like `ascii_escape`, but escapes `#` as `\#` when the following byte
+/// would make it an interpolation (`$`, `@`, `{`).
+fn ascii_escape_with_next(s: &mut String, ch: u8, next: u8) {
+    if ch == b'#' && matches!(next, b'$' | b'@' | b'{') {
+        s.push_str("\\#");
+    } else {
+        ascii_escape(s, ch);
+    }
+}
+
 /// `String#dump` with one-character lookahead so `#` can be escaped
 /// to `\#` when the next char is `$` / `@` / `{` (CRuby keeps the
 /// dumped form parseable as a Ruby literal — those trigrams would
-- 
2.43.0


From e360b7c485f05082c0d0a5fa6cf528715c23db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:05 +0000
Subject: [PATCH 025/147] fix: recognise CP949 as an encoding of its own

---
 monoruby/src/value/rvalue/string.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 265dace..a265b65 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -555,9 +555,8 @@ impl Encoding {
             }
             "GB18030" => Ok(Encoding::NamedByte(named_byte_index("GB18030").unwrap())),
             "GB12345" => Ok(Encoding::NamedByte(named_byte_index("GB12345").unwrap())),
-            "EUC_KR" | "EUCKR" | "CP949" => {
-                Ok(Encoding::NamedByte(named_byte_index("EUC_KR").unwrap()))
-            }
+            "EUC_KR" | "EUCKR" => Ok(Encoding::NamedByte(named_byte_index("EUC_KR").unwrap())),
+            "CP949" => Ok(Encoding::NamedByte(named_byte_index("CP949").unwrap())),
             "EUC_TW" | "EUCTW" => Ok(Encoding::NamedByte(named_byte_index("EUC_TW").unwrap())),
             "TIS_620" | "TIS620" => Ok(Encoding::NamedByte(named_byte_index("TIS_620").unwrap())),
             "KOI8_R" => Ok(Encoding::NamedByte(named_byte_index("KOI8_R").unwrap())),
-- 
2.43.0


From 72d974f7173938c0a7cb3cf53eca455ed65e6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 026/147] fix: let unpack1 go on to the first directive that
 gives a value

---
 monoruby/src/value/rvalue/string/pack.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 2310928..cdc74f0 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -120,11 +120,7 @@ pub(crate) fn unpack(
     once: bool,
     base_offset: usize,
 ) -> Result<Value> {
-    let mut template = parse_template(template, true)?;
-    if once {
-        template.truncate(1);
-    }
-
+    let template = parse_template(template, true)?;
     let mut b = ByteIter::new(packed);
     let mut ary = Vec::new();
 
@@ -162,6 +158,9 @@ pub(crate) fn unpack(
     }
 
     for template in template {
+        if once && !ary.is_empty() {
+            break;
+        }
         let repeat = template.repeat;
         let endian = matches!(template.endian, Endianness::Big);
         match template.template {
-- 
2.43.0


From bcb1fbcbeda3c5011558870e8b987fd8d2347f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 027/147] fix: continue after the terminator when unpacking Z*

---
 monoruby/src/value/rvalue/string/pack.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index cdc74f0..652e4ab 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -334,11 +334,11 @@ pub(crate) fn unpack(
                     let end = bytes.iter().position(|&x| x == 0).unwrap_or(bytes.len());
                     ary.push(Value::bytes(bytes[..end].to_vec()));
                 } else {
-                    // Z* — read to end, strip after first null
+                    // Z* — read through the first null, strip it
                     let bytes = b.remaining();
                     let end = bytes.iter().position(|&x| x == 0).unwrap_or(bytes.len());
                     let result = bytes[..end].to_vec();
-                    b.advance(bytes.len());
+                    b.advance(end + 1);
                     ary.push(Value::bytes(result));
                 }
             }
-- 
2.43.0


From ef2af239d2e5c9503ccf7f75bea003b7c6d61266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 028/147] fix: unpack BER integers of any size

---
 monoruby/src/value/rvalue/string/pack.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 652e4ab..3f7d79a 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1961,11 +1961,24 @@ fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
 
 fn ber_decode(b: &mut ByteIter) -> Result<Value> {
     let mut val: u64 = 0;
+    // What has grown beyond 56 bits continues as a Bignum.
+    let mut big: Option<num::BigInt> = None;
     loop {
         if let Some(byte) = b.next() {
-            val = (val << 7) | (byte & 0x7F) as u64;
+            let low = (byte & 0x7F) as u64;
+            if let Some(big) = &mut big {
+                *big = (&*big << 7u32) + num::BigInt::from(low);
+            } else {
+                val = (val << 7) | low;
+                if val >> 56 != 0 {
+                    big = Some(num::BigInt::from(val));
+                }
+            }
             if byte & 0x80 == 0 {
-                return Ok(Value::integer(val as i64));
+                return Ok(match big {
+                    Some(big) => Value::bigint(big),
+                    None => Value::integer(val as i64),
+                });
             }
         } else {
             return Err(MonorubyErr::argumenterr("malformed BER compressed integer"));
-- 
2.43.0


From 2ed5d1351bfc36d4663d80f8db5d6ed1029ae821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 029/147] fix: decode unpadded and concatenated Base64, and
 refuse what is invalid in strict mode

---
 monoruby/src/value/rvalue/string/pack.rs | 80 +++++++++++++++---------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 3f7d79a..c0873bd 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -346,7 +346,12 @@ pub(crate) fn unpack(
                 // 'm' — Base64 decode
                 let data = b.remaining().to_vec();
                 b.advance(data.len());
-                let decoded = base64_decode(&data);
+                let decoded = if repeat == Some(0) {
+                    base64_decode_strict(&data)
+                        .ok_or_else(|| MonorubyErr::argumenterr("invalid base64"))?
+                } else {
+                    base64_decode(&data)
+                };
                 ary.push(Value::bytes(decoded));
             }
             Template::QuotedPrintable => {
@@ -1477,44 +1482,61 @@ fn base64_decode_char(c: u8) -> Option<u8> {
 
 fn base64_decode(data: &[u8]) -> Vec<u8> {
     let mut result = Vec::new();
-    let mut buf = [0u8; 4];
-    let mut buf_len = 0;
-    let mut pad_count = 0;
+    let mut bits: u32 = 0;
+    let mut len = 0;
 
     for &byte in data {
-        if byte == b'=' {
-            buf[buf_len] = 0;
-            buf_len += 1;
-            pad_count += 1;
-        } else if let Some(val) = base64_decode_char(byte) {
-            buf[buf_len] = val;
-            buf_len += 1;
-            pad_count = 0;
-        } else {
+        if byte == b'=' && len >= 2 {
+            // padding ends the data
+            break;
+        }
+        let Some(val) = base64_decode_char(byte) else {
             // skip whitespace and other chars
             continue;
-        }
-
-        if buf_len == 4 {
-            let triple = (buf[0] as u32) << 18
-                | (buf[1] as u32) << 12
-                | (buf[2] as u32) << 6
-                | buf[3] as u32;
-            result.push((triple >> 16) as u8);
-            if pad_count < 2 {
-                result.push((triple >> 8) as u8);
-            }
-            if pad_count < 1 {
-                result.push(triple as u8);
-            }
-            buf_len = 0;
-            pad_count = 0;
+        };
+        bits = bits << 6 | val as u32;
+        len += 1;
+        if len == 4 {
+            result.extend_from_slice(&bits.to_be_bytes()[1..]);
+            bits = 0;
+            len = 0;
         }
     }
 
+    // an incomplete group gives the bytes it has in full
+    match len {
+        2 => result.push((bits >> 4) as u8),
+        3 => result.extend_from_slice(&((bits >> 2) as u16).to_be_bytes()),
+        _ => {}
+    }
     result
 }
 
+/// Base64 as RFC 4648 has it (`m0`): no other characters, padded, and
+/// with no bits set beyond the data.
+fn base64_decode_strict(data: &[u8]) -> Option<Vec<u8>> {
+    if data.len() % 4 != 0 {
+        return None;
+    }
+    let digits = data
+        .strip_suffix(b"==")
+        .or_else(|| data.strip_suffix(b"="))
+        .unwrap_or(data);
+    if !digits.iter().all(|&c| base64_decode_char(c).is_some()) {
+        return None;
+    }
+    let last = digits.last().and_then(|&c| base64_decode_char(c));
+    let unused = match digits.len() % 4 {
+        2 => 0x0F,
+        3 => 0x03,
+        _ => 0,
+    };
+    if last.unwrap_or(0) & unused != 0 {
+        return None;
+    }
+    Some(base64_decode(digits))
+}
+
 // --- MIME Quoted-Printable encoding/decoding ---
 
 fn qp_encode(data: &[u8], line_len: usize) -> String {
-- 
2.43.0


From 47a4ae6af16f1982d66cd0f5a6bd6d5ba29b9ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 030/147] fix: round the line length of Base64 down to whole
 groups

---
 monoruby/src/value/rvalue/string/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index c0873bd..8df6c00 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1431,7 +1431,7 @@ fn base64_encode(data: &[u8], line_len: usize) -> String {
     let chars_per_line = if line_len == 0 {
         0
     } else {
-        (line_len / 3) * 4 + if line_len % 3 != 0 { 4 } else { 0 }
+        (line_len / 3) * 4
     };
 
     for chunk in data.chunks(3) {
-- 
2.43.0


From 1c46076c3e2ffbad06919d81ef9fa9f1af749a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 031/147] fix: allow lines of up to 63 bytes in uuencoded
 strings

---
 monoruby/src/value/rvalue/string/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 8df6c00..3b428d4 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1648,7 +1648,7 @@ fn uu_encode(data: &[u8], line_len: usize) -> String {
     let bytes_per_line = if line_len == 0 {
         45
     } else {
-        (line_len.min(45) / 3) * 3
+        (line_len.min(63) / 3) * 3
     };
 
     for chunk in data.chunks(bytes_per_line) {
-- 
2.43.0


From 28ce42ae28b9ad481d8e4a6084099cf7a39f3624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 032/147] fix: check continuation bytes and read long forms
 when unpacking U

---
 monoruby/src/value/rvalue/string/pack.rs | 51 ++++++++++--------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 3b428d4..7eb6c0a 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1948,37 +1948,28 @@ fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
         .next()
         .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
     if first & 0x80 == 0 {
-        Ok(first as u32)
-    } else if first & 0xE0 == 0xC0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x1F) << 6) | (b1 as u32 & 0x3F))
-    } else if first & 0xF0 == 0xE0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b2 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x0F) << 12) | ((b1 as u32 & 0x3F) << 6) | (b2 as u32 & 0x3F))
-    } else if first & 0xF8 == 0xF0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b2 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b3 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x07) << 18)
-            | ((b1 as u32 & 0x3F) << 12)
-            | ((b2 as u32 & 0x3F) << 6)
-            | (b3 as u32 & 0x3F))
-    } else {
-        Err(MonorubyErr::argumenterr("malformed UTF-8 character"))
+        return Ok(first as u32);
+    }
+    // How many bytes follow, and the least codepoint that needs as many.
+    let (follow, least) = match first {
+        0xC0..=0xDF => (1, 0x80),
+        0xE0..=0xEF => (2, 0x800),
+        0xF0..=0xF7 => (3, 0x1_0000),
+        0xF8..=0xFB => (4, 0x20_0000),
+        0xFC..=0xFD => (5, 0x400_0000),
+        _ => return Err(MonorubyErr::argumenterr("malformed UTF-8 character")),
+    };
+    let mut cp = first as u32 & (0x3F >> follow);
+    for _ in 0..follow {
+        match b.next() {
+            Some(byte) if byte & 0xC0 == 0x80 => cp = cp << 6 | (byte as u32 & 0x3F),
+            _ => return Err(MonorubyErr::argumenterr("malformed UTF-8 character")),
+        }
+    }
+    if cp < least {
+        return Err(MonorubyErr::argumenterr("redundant UTF-8 sequence"));
     }
+    Ok(cp)
 }
 
 fn ber_decode(b: &mut ByteIter) -> Result<Value> {
-- 
2.43.0


From 4fcb918f76c89f48022a80e77e376950d751a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 033/147] fix: refuse to pack codepoints that need more than 31
 bits

---
 monoruby/src/value/rvalue/string/pack.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 7eb6c0a..759db5c 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -993,14 +993,14 @@ pub(crate) fn pack(
             Template::Utf8 => {
                 // 'U' — UTF-8 characters from codepoints (UTF-8 output).
                 // CRuby raises `RangeError` for negative input or for
-                // values that don't fit in an unsigned 32-bit integer
-                // — both as RangeError, not ArgumentError.
+                // values of more than 31 bits — both as RangeError, not
+                // ArgumentError.
                 let mut emit = |val: Value| -> Result<()> {
                     let i = val.coerce_to_int_i64(vm, globals)?;
                     if i < 0 {
                         return Err(MonorubyErr::rangeerr("pack(U): value out of range"));
                     }
-                    if i > u32::MAX as i64 {
+                    if i > i32::MAX as i64 {
                         return Err(MonorubyErr::rangeerr("pack(U): value out of range"));
                     }
                     utf8_encode_one(&mut packed, i as u32);
@@ -1910,9 +1910,9 @@ fn utf8_encode_one(buf: &mut Vec<u8>, cp: u32) {
     // CRuby's `pack("U")` extends past the strict Unicode range:
     // codepoints up to 0x1FFFFF produce 4-byte sequences (above
     // U+10FFFF, technically invalid Unicode but valid 4-byte UTF-8
-    // bit-patterns), and 5- / 6-byte forms cover up to 2^31 - 1
-    // and 2^32 - 1 respectively. Caller is responsible for the
-    // negative-value / >2^32 RangeError checks.
+    // bit-patterns), and 5- / 6-byte forms cover up to 2^26 - 1
+    // and 2^31 - 1 respectively. Caller is responsible for the
+    // negative-value / >= 2^31 RangeError checks.
     if cp <= 0x7F {
         buf.push(cp as u8);
     } else if cp <= 0x7FF {
-- 
2.43.0


From 75547f28a88acbc21579976b3122676d6135913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:22 +0000
Subject: [PATCH 034/147] fix: take @ without a count as position 0 when
 unpacking

---
 monoruby/src/value/rvalue/string/pack.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 759db5c..3d39c94 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -286,7 +286,13 @@ pub(crate) fn unpack(
             }
             Template::AtPos => {
                 // '@' — move to absolute position
-                if let Some(pos) = repeat {
+                let pos = if template.explicit_count {
+                    repeat
+                } else {
+                    // without a count it is the start, unlike in `pack`
+                    Some(0)
+                };
+                if let Some(pos) = pos {
                     if pos > b.slice.len() {
                         return Err(MonorubyErr::argumenterr("@ outside of string"));
                     }
-- 
2.43.0


From 32b8a7e81b8be03de8bd67c31bcdcd017089ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:30 +0000
Subject: [PATCH 035/147] fix: ignore the zero flag of an integer directive
 that has a precision

---
 monoruby/src/executor/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 318f72d..f4ed47b 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1313,6 +1313,12 @@ impl Executor {
                 v
             };
             i += 1; // consume the specifier character
+            // A precision already says how many digits an integer has:
+            // the `0` flag only counts without one (`"%05.3d" % 7` is
+            // `"  007"`).
+            let zero_flag = zero_flag
+                && !(precision.is_some()
+                    && matches!(ch, 'd' | 'i' | 'u' | 'b' | 'B' | 'o' | 'x' | 'X'));
             // Specifier
             let format = match ch {
                 'c' => {
-- 
2.43.0


From a1f4a13563beeec80f840e0a420946bdb6c373e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:53 +0000
Subject: [PATCH 036/147] fix: format 2.0**63 as an integer without losing one

---
 monoruby/src/value/coerce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/coerce.rs b/monoruby/src/value/coerce.rs
index f70d903..831e550 100644
--- a/monoruby/src/value/coerce.rs
+++ b/monoruby/src/value/coerce.rs
@@ -208,7 +208,7 @@ impl Value {
             RV::BigInt(b) => return Ok(IntegerBase::BigInt(b.clone())),
             RV::Float(f) => {
                 let t = f.trunc();
-                return if i64::MIN as f64 <= t && t <= i64::MAX as f64 {
+                return if i64::MIN as f64 <= t && t < i64::MAX as f64 {
                     Ok(IntegerBase::Fixnum(t as i64))
                 } else {
                     Ok(IntegerBase::BigInt(
-- 
2.43.0


From 8d94de78306680c84c80c096bb33f8a4ed053d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:53 +0000
Subject: [PATCH 037/147] fix: raise RangeError for NaN and Infinity under an
 integer directive

---
 monoruby/src/value/coerce.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/value/coerce.rs b/monoruby/src/value/coerce.rs
index 831e550..b3d4653 100644
--- a/monoruby/src/value/coerce.rs
+++ b/monoruby/src/value/coerce.rs
@@ -211,9 +211,9 @@ impl Value {
                 return if i64::MIN as f64 <= t && t < i64::MAX as f64 {
                     Ok(IntegerBase::Fixnum(t as i64))
                 } else {
-                    Ok(IntegerBase::BigInt(
-                        BigInt::from_f64(t).expect("float is not NaN or infinite"),
-                    ))
+                    BigInt::from_f64(t)
+                        .map(IntegerBase::BigInt)
+                        .ok_or_else(|| MonorubyErr::float_out_of_range_of_integer(f))
                 };
             }
             RV::String(s) => {
-- 
2.43.0


From c59773846f03e31d26c5f9601d1ec66c7399bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:53 +0000
Subject: [PATCH 038/147] fix: count characters when a directive is padded to
 its width

---
 monoruby/src/executor/format.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index f4ed47b..50302d9 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -285,10 +285,11 @@ fn apply_int_precision(s: &str, precision: Option<usize>) -> String {
 
 /// Apply width padding to a string, with left or right alignment.
 fn apply_width(s: &str, width: usize, left_align: bool, pad: char) -> String {
-    if s.len() >= width {
+    let len = s.chars().count();
+    if len >= width {
         return s.to_string();
     }
-    let padding: String = std::iter::repeat(pad).take(width - s.len()).collect();
+    let padding: String = std::iter::repeat(pad).take(width - len).collect();
     if left_align {
         format!("{}{}", s, padding)
     } else {
-- 
2.43.0


From c4f76c954d86d366df613b5c990181eb53f9516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:15 +0000
Subject: [PATCH 039/147] fix: write Integers exactly under %f

---
 monoruby/src/executor/format.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 50302d9..687cda4 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1560,6 +1560,22 @@ impl Executor {
                         )
                     }
                 }
+                // An Integer is written exactly, not by way of a Float.
+                // CRuby quirk: `%#f` does NOT force a point for it
+                // (unlike `%#e`/`%#g`/`%#a`).
+                'f' if val.is_integer() => {
+                    let mut s = match val.coerce_to_integer(self, globals)? {
+                        IntegerBase::Fixnum(v) => format!("{}", v),
+                        IntegerBase::BigInt(v) => format!("{}", v),
+                    };
+                    let prec = precision.unwrap_or(6);
+                    if prec > 0 {
+                        s = format!("{}.{:0<p$}", s, "", p = prec);
+                    }
+                    format_integer_with_flags(
+                        &s, width, zero_flag, minus_flag, plus_flag, space_flag,
+                    )
+                }
                 'f' => {
                     let f = val.coerce_to_float(self, globals)?;
                     let prec = precision.unwrap_or(6);
@@ -1570,9 +1586,7 @@ impl Executor {
                     } else {
                         format!("{:.p$}", f.abs(), p = prec)
                     };
-                    // CRuby quirk: `%#f` does NOT force a point for an
-                    // Integer argument (unlike `%#e`/`%#g`/`%#a`).
-                    let s = if hash_flag && f.is_finite() && !val.is_integer() {
+                    let s = if hash_flag && f.is_finite() {
                         force_decimal_point(&s)
                     } else {
                         s
-- 
2.43.0


From a7f01848c2bfbd07b730f428d3d51a6c70e4d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:31 +0000
Subject: [PATCH 040/147] fix: leave out the octal prefix of a negative number
 padded with zeros

---
 monoruby/src/executor/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 687cda4..cc28080 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1469,7 +1469,11 @@ impl Executor {
                     if is_neg {
                         if plus_flag || space_flag {
                             let digits = apply_int_precision(&abs_digits, precision);
-                            let prefix = if hash_flag { "0" } else { "" };
+                            let prefix = if hash_flag && !digits.starts_with('0') {
+                                "0"
+                            } else {
+                                ""
+                            };
                             format_int_with_prefix(
                                 true, &digits, prefix, width, zero_flag, minus_flag,
                                 plus_flag, space_flag,
-- 
2.43.0


From ad9b23c562f95e435669b2974721a57272e08017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:31 +0000
Subject: [PATCH 041/147] fix: write no prefix before a zero padded to a
 precision

---
 monoruby/src/executor/format.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index cc28080..dd7e696 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1437,10 +1437,9 @@ impl Executor {
                         }
                     } else {
                         let digits = apply_int_precision(&pos_digits.unwrap(), precision);
-                        // `apply_int_precision("0", Some(0))` is "" — so an
-                        // empty result is also "zero", and the `#` prefix is
-                        // suppressed (`"%#.0b" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        // Whatever the precision makes of it, zero has no
+                        // prefix (`"%#.0b" % 0 == ""`, `"%#.3b" % 0 == "000"`).
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if ch == 'B' { "0B" } else { "0b" }
                         } else {
@@ -1549,10 +1548,8 @@ impl Executor {
                         }
                     } else {
                         let digits = apply_int_precision(&pos_digits.unwrap(), precision);
-                        // See the `%b` branch: precision 0 with value 0 gives
-                        // "", which is still "zero" and suppresses the prefix
-                        // (`"%#.0x" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        // See the `%b` branch.
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if upper { "0X" } else { "0x" }
                         } else {
-- 
2.43.0


From 69a03352f347c668d6b6108164bb4d4ad1463b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:08 +0000
Subject: [PATCH 042/147] fix: choose the style of %g after rounding

---
 monoruby/src/executor/format.rs | 34 ++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index dd7e696..fa1182d 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -531,29 +531,29 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     if f.is_nan() {
         return "NaN".to_string();
     }
-    let exp = f.log10().floor() as i32;
+    // The style is chosen by the exponent of the rounded number, so
+    // round to the significant digits asked for first.
+    let sci_prec = precision - 1;
+    let sci = if uppercase {
+        format!("{:.p$E}", f, p = sci_prec)
+    } else {
+        format!("{:.p$e}", f, p = sci_prec)
+    };
+    let exp: i32 = sci
+        .rsplit(['e', 'E'])
+        .next()
+        .and_then(|e| e.parse().ok())
+        .unwrap_or(0);
     if exp < -4 || exp >= precision as i32 {
-        // Use scientific notation with (precision - 1) digits after decimal
-        let sci_prec = if precision > 1 { precision - 1 } else { 0 };
-        let s = if uppercase {
-            format!("{:.p$E}", f, p = sci_prec)
-        } else {
-            format!("{:.p$e}", f, p = sci_prec)
-        };
         // Strip trailing zeros in the mantissa part (before 'e'/'E')
         if strip {
-            strip_trailing_zeros_scientific(&s)
+            strip_trailing_zeros_scientific(&sci)
         } else {
-            s
+            sci
         }
     } else {
-        // Use fixed notation
-        // precision means total significant digits
-        let fixed_prec = if precision as i32 > exp + 1 {
-            (precision as i32 - exp - 1) as usize
-        } else {
-            0
-        };
+        // Use fixed notation: precision means total significant digits
+        let fixed_prec = (precision as i32 - exp - 1) as usize;
         let s = format!("{:.p$}", f, p = fixed_prec);
         if strip {
             strip_trailing_zeros_fixed(&s)
-- 
2.43.0


From 45aa1a2fcdba47892fff472fe81b30838bea35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:08 +0000
Subject: [PATCH 043/147] fix: keep the trailing zeros of a zero under %#g

---
 monoruby/src/executor/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index fa1182d..d838eb6 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -518,7 +518,7 @@ fn force_decimal_point(s: &str) -> String {
 }
 
 fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
-    if f == 0.0 {
+    if f == 0.0 && strip {
         return "0".to_string();
     }
     if f.is_infinite() {
-- 
2.43.0


From 3e130dcc36fef1b1d0e9f26eab46b7676a598309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:36 +0000
Subject: [PATCH 044/147] fix: carry into the leading digit when rounding under
 %a

---
 monoruby/src/executor/format.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index d838eb6..471a877 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -432,7 +432,9 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
                     prefix, leading, padded, p_char, exp_sign, exp_abs
                 )
             } else {
-                let rounded = round_hex_mantissa(&full_hex, prec, uppercase);
+                let (carry, rounded) = round_hex_mantissa(&full_hex, prec, uppercase);
+                // Like precision 0 above: the exponent stays.
+                let leading = if carry { '2' } else { leading };
                 format!(
                     "{}{}.{}{}{}{}",
                     prefix, leading, rounded, p_char, exp_sign, exp_abs
@@ -453,19 +455,20 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     }
 }
 
-/// Round a hex mantissa string to the given number of hex digits.
-fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
+/// Round a hex mantissa string to the given number of hex digits, and
+/// say whether that carries into the digit before the point.
+fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> (bool, String) {
     let hex_bytes: Vec<u8> = hex.bytes().collect();
     if prec >= hex_bytes.len() {
-        return hex.to_string();
+        return (false, hex.to_string());
     }
     let round_digit = hex_digit_val(hex_bytes[prec]);
     let mut digits: Vec<u8> = hex_bytes[..prec]
         .iter()
         .map(|&b| hex_digit_val(b))
         .collect();
-    if round_digit >= 8 {
-        let mut carry = true;
+    let mut carry = round_digit >= 8;
+    if carry {
         for d in digits.iter_mut().rev() {
             if carry {
                 *d += 1;
@@ -477,7 +480,7 @@ fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
             }
         }
     }
-    digits
+    let digits = digits
         .iter()
         .map(|&d| {
             if d < 10 {
@@ -488,7 +491,8 @@ fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
                 (b'a' + d - 10) as char
             }
         })
-        .collect()
+        .collect();
+    (carry, digits)
 }
 
 fn hex_digit_val(b: u8) -> u8 {
-- 
2.43.0


From bb05dcb457550360b6be2c6c9aa653979198951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:36 +0000
Subject: [PATCH 045/147] fix: pad Infinity and NaN with spaces under %a

---
 monoruby/src/executor/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 471a877..df43f80 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1662,7 +1662,11 @@ impl Executor {
                     } else {
                         ("", s.as_str())
                     };
-                    if zero_flag && !minus_flag && width > sign.len() + s.len() {
+                    if zero_flag
+                        && !minus_flag
+                        && f.is_finite()
+                        && width > sign.len() + s.len()
+                    {
                         let pad = width - sign.len() - pfx.len();
                         format!("{}{}{:0>w$}", sign, pfx, rest, w = pad)
                     } else {
-- 
2.43.0


From 567ec510b05a7a5691049da53d035efa1f9f2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:31 +0000
Subject: [PATCH 046/147] fix: format widths and precisions beyond 65535
 without panicking

---
 monoruby/src/executor/format.rs | 58 +++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index df43f80..33d31aa 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -323,7 +323,7 @@ fn format_integer_with_flags(
     let body = format!("{}{}", sign, digits);
     if zero_flag && width > body.len() {
         let pad = width - sign.len();
-        format!("{}{:0>w$}", sign, digits, w = pad)
+        format!("{}{}", sign, apply_width(digits, pad, false, '0'))
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -354,7 +354,7 @@ fn format_float_with_flags(
     // the `0` flag — CRuby pads them with spaces.
     if zero_flag && f.is_finite() && width > body.len() {
         let pad = width - sign.len();
-        format!("{}{:0>w$}", sign, s, w = pad)
+        format!("{}{}", sign, apply_width(s, pad, false, '0'))
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -376,7 +376,7 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     if f == 0.0 {
         return match precision {
             Some(0) => format!("{}0{}+0", prefix, p_char),
-            Some(prec) => format!("{}0.{:0>w$}{}+0", prefix, "", p_char, w = prec),
+            Some(prec) => format!("{}0.{}{}+0", prefix, "0".repeat(prec), p_char),
             None => format!("{}0{}+0", prefix, p_char),
         };
     }
@@ -426,7 +426,7 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
         }
         Some(prec) => {
             if prec >= 13 {
-                let padded = format!("{:0<w$}", full_hex, w = prec);
+                let padded = apply_width(&full_hex, prec, true, '0');
                 format!(
                     "{}{}.{}{}{}{}",
                     prefix, leading, padded, p_char, exp_sign, exp_abs
@@ -521,6 +521,31 @@ fn force_decimal_point(s: &str) -> String {
     }
 }
 
+/// No `f64` has more digits than this behind the point, in either
+/// notation. `format!` refuses precisions and widths beyond `u16::MAX`.
+const MAX_FLOAT_DIGITS: usize = 1100;
+
+/// Fixed notation with `prec` digits behind the point.
+fn format_fixed(f: f64, prec: usize) -> String {
+    let digits = prec.min(MAX_FLOAT_DIGITS);
+    let s = format!("{:.p$}", f, p = digits);
+    s + &"0".repeat(prec - digits)
+}
+
+/// Scientific notation with `prec` digits behind the point.
+fn format_sci(f: f64, prec: usize, uppercase: bool) -> String {
+    let digits = prec.min(MAX_FLOAT_DIGITS);
+    let mut s = if uppercase {
+        format!("{:.p$E}", f, p = digits)
+    } else {
+        format!("{:.p$e}", f, p = digits)
+    };
+    if let Some(pos) = s.find(['e', 'E']) {
+        s.insert_str(pos, &"0".repeat(prec - digits));
+    }
+    s
+}
+
 fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     if f == 0.0 && strip {
         return "0".to_string();
@@ -538,11 +563,7 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     // The style is chosen by the exponent of the rounded number, so
     // round to the significant digits asked for first.
     let sci_prec = precision - 1;
-    let sci = if uppercase {
-        format!("{:.p$E}", f, p = sci_prec)
-    } else {
-        format!("{:.p$e}", f, p = sci_prec)
-    };
+    let sci = format_sci(f, sci_prec, uppercase);
     let exp: i32 = sci
         .rsplit(['e', 'E'])
         .next()
@@ -558,7 +579,7 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     } else {
         // Use fixed notation: precision means total significant digits
         let fixed_prec = (precision as i32 - exp - 1) as usize;
-        let s = format!("{:.p$}", f, p = fixed_prec);
+        let s = format_fixed(f, fixed_prec);
         if strip {
             strip_trailing_zeros_fixed(&s)
         } else {
@@ -716,7 +737,12 @@ fn format_int_with_prefix(
     let body = format!("{}{}{}", sign, prefix, digits);
     if zero_flag && width > body.len() {
         let pad = width - sign.len() - prefix.len();
-        format!("{}{}{:0>w$}", sign, prefix, digits, w = pad)
+        format!(
+            "{}{}{}",
+            sign,
+            prefix,
+            apply_width(digits, pad, false, '0')
+        )
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -1575,7 +1601,7 @@ impl Executor {
                     };
                     let prec = precision.unwrap_or(6);
                     if prec > 0 {
-                        s = format!("{}.{:0<p$}", s, "", p = prec);
+                        s = format!("{}.{}", s, "0".repeat(prec));
                     }
                     format_integer_with_flags(
                         &s, width, zero_flag, minus_flag, plus_flag, space_flag,
@@ -1589,7 +1615,7 @@ impl Executor {
                     } else if f.is_nan() {
                         "NaN".to_string()
                     } else {
-                        format!("{:.p$}", f.abs(), p = prec)
+                        format_fixed(f.abs(), prec)
                     };
                     let s = if hash_flag && f.is_finite() {
                         force_decimal_point(&s)
@@ -1607,10 +1633,8 @@ impl Executor {
                         "Inf".to_string()
                     } else if f.is_nan() {
                         "NaN".to_string()
-                    } else if ch == 'E' {
-                        normalize_sci_exponent(&format!("{:.p$E}", f.abs(), p = prec))
                     } else {
-                        normalize_sci_exponent(&format!("{:.p$e}", f.abs(), p = prec))
+                        normalize_sci_exponent(&format_sci(f.abs(), prec, ch == 'E'))
                     };
                     let s = if hash_flag && f.is_finite() {
                         force_decimal_point(&s)
@@ -1668,7 +1692,7 @@ impl Executor {
                         && width > sign.len() + s.len()
                     {
                         let pad = width - sign.len() - pfx.len();
-                        format!("{}{}{:0>w$}", sign, pfx, rest, w = pad)
+                        format!("{}{}{}", sign, pfx, apply_width(rest, pad, false, '0'))
                     } else {
                         apply_width(
                             &format!("{}{}", sign, s),
-- 
2.43.0


From bd4536b19d89717a918d04a60d8441e81ae16dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:35 +0000
Subject: [PATCH 047/147] fix: do not skip blanks between the sign or prefix of
 a number and its digits

"- 1".to_i and "0x 1".to_i(16) are 0.
---
 monoruby/src/builtins/string.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index a4c9115..356d9b9 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -5497,8 +5497,7 @@ fn parse_i64(s: &str, radix: u32) -> Option<(i64, bool)> {
     let mut i = 0i64;
     let mut sign = None;
     let mut allow_underscore = false;
-    let iter = s.chars().skip_while(|c| c.is_ascii_whitespace());
-    for c in iter {
+    for c in s.chars() {
         if allow_underscore && c == '_' {
             allow_underscore = false;
             continue;
@@ -5535,8 +5534,7 @@ fn parse_bigint(s: &str, radix: u32) -> BigInt {
     let mut i = BigInt::zero();
     let mut sign = None;
     let mut allow_underscore = false;
-    let iter = s.chars().skip_while(|c| c.is_ascii_whitespace());
-    for c in iter {
+    for c in s.chars() {
         if allow_underscore && c == '_' {
             allow_underscore = false;
             continue;
-- 
2.43.0


From 35b2149211ce8c78e5d3eb00a2cfb1c74c19957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:35 +0000
Subject: [PATCH 048/147] fix: skip only ASCII whitespace before the digits in
 String#to_i, hex and oct

An ideographic space is not blank to a number: "\u3000 12".to_i is 0.
---
 monoruby/src/builtins/string.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 356d9b9..e8a5379 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -5337,7 +5337,7 @@ fn to_i(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     } else {
         10
     };
-    let (s, sign) = strip_sign(s.trim_start());
+    let (s, sign) = strip_sign(s.trim_start_matches(is_space));
     // A leading sign is permitted exactly once and must come before any
     // base prefix. `++2`, `+-2`, `0b-1`, etc. are invalid and CRuby
     // returns 0 for them.
@@ -5353,6 +5353,11 @@ fn to_i(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
 
 /// Strip a leading `+` or `-` sign. Returns the remaining string and
 /// `true` if it was a `-`.
+/// What may stand before a number.
+fn is_space(c: char) -> bool {
+    matches!(c, ' ' | '\t'..='\r')
+}
+
 fn strip_sign(s: &str) -> (&str, bool) {
     if let Some(rest) = s.strip_prefix('-') {
         (rest, true)
@@ -5410,7 +5415,7 @@ fn hex(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     // receivers from panicking (the replacement char stops the parse
     // exactly where CRuby's first non-digit byte would).
     let lossy = String::from_utf8_lossy(self_.as_rstring_inner().as_bytes());
-    let s = lossy.trim_start();
+    let s = lossy.trim_start_matches(is_space);
     // Handle optional sign before 0x/0X prefix
     let (s, negative) = if let Some(rest) = s.strip_prefix('-') {
         (rest, true)
@@ -5443,7 +5448,7 @@ fn oct(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     // See `hex`: lossy view so non-UTF-8 receivers parse their ASCII
     // prefix instead of panicking.
     let lossy = String::from_utf8_lossy(self_.as_rstring_inner().as_bytes());
-    let s = lossy.trim_start();
+    let s = lossy.trim_start_matches(is_space);
     // Handle optional sign before prefix
     let (s, negative) = if let Some(rest) = s.strip_prefix('-') {
         (rest, true)
-- 
2.43.0


From 4c080b572fcdf010bff7e53b499a9571325cdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:35 +0000
Subject: [PATCH 049/147] fix: take only ASCII whitespace around the text of
 Integer() and Float()

---
 monoruby/src/builtins/kernel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 6e7b091..d78d536 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -2078,7 +2078,7 @@ pub(crate) fn parse_kernel_integer(s: &str, given_base: u32) -> Result<Value> {
     let raw = s;
     let invalid = || MonorubyErr::argumenterr(format!("invalid value for Integer(): \"{}\"", raw));
     // CRuby trims leading/trailing whitespace.
-    let trimmed = s.trim();
+    let trimmed = s.trim_matches(|c| matches!(c, ' ' | '\t'..='\r'));
     if trimmed.is_empty() {
         return Err(invalid());
     }
@@ -2195,7 +2195,7 @@ fn is_digit_for_base(b: u8, base: u32) -> bool {
 pub(crate) fn parse_kernel_float(s: &str) -> Result<Value> {
     let raw = s;
     let invalid = || MonorubyErr::argumenterr(format!("invalid value for Float(): \"{}\"", raw));
-    let trimmed = s.trim();
+    let trimmed = s.trim_matches(|c| matches!(c, ' ' | '\t'..='\r'));
     if trimmed.is_empty() {
         return Err(invalid());
     }
-- 
2.43.0


From 15f8883b47a92f97418ab1826e6518138c373e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:35 +0000
Subject: [PATCH 050/147] fix: skip a vertical tab before the digits in
 String#to_f

---
 monoruby/src/builtins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins.rs b/monoruby/src/builtins.rs
index d6014ab..faca563 100644
--- a/monoruby/src/builtins.rs
+++ b/monoruby/src/builtins.rs
@@ -159,7 +159,7 @@ pub(crate) fn init_builtins(globals: &mut Globals) {
 /// and hand the result to Rust's `f64::from_str` so the final
 /// conversion uses the same correctly-rounded path Ruby relies on.
 fn parse_f64(s: &str) -> (f64, bool) {
-    let trimmed = s.trim_start_matches(|c: char| c.is_ascii_whitespace());
+    let trimmed = s.trim_start_matches(|c| matches!(c, ' ' | '\t'..='\r'));
     let mut iter = trimmed.chars().peekable();
     let mut buf = String::with_capacity(trimmed.len());
 
-- 
2.43.0


From 33e814a6ee6825bc8fa5370efaa8f37e0961f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:35 +0000
Subject: [PATCH 051/147] fix: read a zero followed by an underscore as octal
 when the base is detected

"0_17".to_i(0) and Integer("0_17") are 15.
---
 monoruby/src/builtins/kernel.rs | 8 ++++++--
 monoruby/src/builtins/string.rs | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index d78d536..14d44e0 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -2161,8 +2161,12 @@ fn detect_base(
     match (given_base, prefix_base) {
         (0, Some((b, off))) => Ok((b, off)),
         // Leading `0` followed by digit(s) → octal under autodetect.
-        (0, None) if bytes.len() >= 2 && bytes[0] == b'0' && bytes[1].is_ascii_digit() => {
-            Ok((8, 1))
+        (0, None)
+            if bytes.len() >= 2
+                && bytes[0] == b'0'
+                && (bytes[1].is_ascii_digit() || bytes[1] == b'_') =>
+        {
+            Ok((8, 0))
         }
         (0, None) => Ok((10, 0)),
         (b, Some((pb, off))) if b == pb => Ok((b, off)),
diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index e8a5379..31096e3 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -5392,7 +5392,11 @@ fn strip_int_prefix(s: &str, radix: u32) -> (&str, u32) {
     } else if let Some(rest) = try_strip("0o", "0O", 8) {
         (rest, 8)
     } else if radix == 0 {
-        if s.starts_with('0') && s.as_bytes().get(1).is_some_and(|c| c.is_ascii_digit()) {
+        if s.starts_with('0')
+            && s.as_bytes()
+                .get(1)
+                .is_some_and(|c| c.is_ascii_digit() || *c == b'_')
+        {
             (s, 8)
         } else {
             (s, 10)
-- 
2.43.0


From 3ba0bc8b6b65bbd165f7610e817af4462037bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:55 +0000
Subject: [PATCH 052/147] fix: read the letter of a foreign prefix as a digit
 in Integer() with a base

Integer("0b1", 16) is 177; a letter that is no digit of the base is
still refused.
---
 monoruby/src/builtins/kernel.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 14d44e0..4a14415 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -2101,8 +2101,8 @@ pub(crate) fn parse_kernel_integer(s: &str, given_base: u32) -> Result<Value> {
     }
     // Prefix detection. When `given_base == 0`, infer from the prefix
     // (or a leading `0` ⇒ octal). When `given_base != 0`, accept a
-    // matching prefix and reject a conflicting one.
-    let (effective_base, mut digits_start) = detect_base(&bytes[i..], given_base, &invalid)?;
+    // matching prefix and leave any other to be read as digits.
+    let (effective_base, mut digits_start) = detect_base(&bytes[i..], given_base);
     digits_start += i;
     let digits = &bytes[digits_start..];
     if digits.is_empty() {
@@ -2141,11 +2141,7 @@ pub(crate) fn parse_kernel_integer(s: &str, given_base: u32) -> Result<Value> {
     Ok(Value::bigint(signed))
 }
 
-fn detect_base(
-    bytes: &[u8],
-    given_base: u32,
-    invalid: &dyn Fn() -> MonorubyErr,
-) -> Result<(u32, usize)> {
+fn detect_base(bytes: &[u8], given_base: u32) -> (u32, usize) {
     // Look at the leading two bytes for `0X`-style prefixes.
     let prefix_base = if bytes.len() >= 2 && bytes[0] == b'0' {
         match bytes[1] {
@@ -2159,19 +2155,18 @@ fn detect_base(
         None
     };
     match (given_base, prefix_base) {
-        (0, Some((b, off))) => Ok((b, off)),
+        (0, Some((b, off))) => (b, off),
         // Leading `0` followed by digit(s) → octal under autodetect.
         (0, None)
             if bytes.len() >= 2
                 && bytes[0] == b'0'
                 && (bytes[1].is_ascii_digit() || bytes[1] == b'_') =>
         {
-            Ok((8, 0))
+            (8, 0)
         }
-        (0, None) => Ok((10, 0)),
-        (b, Some((pb, off))) if b == pb => Ok((b, off)),
-        (_, Some(_)) => Err(invalid()),
-        (b, None) => Ok((b, 0)),
+        (0, None) => (10, 0),
+        (b, Some((pb, off))) if b == pb => (b, off),
+        (b, _) => (b, 0),
     }
 }
 
-- 
2.43.0


From 853651910c354ed107a1c61eb843abf3cf8cce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:30 +0000
Subject: [PATCH 053/147] fix: convert 2.0**63 exactly in Integer()

---
 monoruby/src/builtins/kernel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 4a14415..e1cce01 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -2015,7 +2015,7 @@ fn kernel_integer_inner(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> R
                 ));
             }
             let t = num.trunc();
-            if t >= i64::MIN as f64 && t <= i64::MAX as f64 {
+            if t >= i64::MIN as f64 && t < i64::MAX as f64 {
                 return Ok(Value::integer(t as i64));
             }
             // Out of Fixnum range: exact conversion through BigInt.
-- 
2.43.0


From f63721d3ffc40b54c49a08cc0d36be521339226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:30 +0000
Subject: [PATCH 054/147] fix: scale the hexadecimal floats of Float() without
 losing small and large ones

Float("0x1p-1074") was 0.0, because the scale itself underflowed.
---
 monoruby/src/builtins/kernel.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index e1cce01..9db283c 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -2317,19 +2317,30 @@ fn parse_hex_float(bytes: &[u8]) -> Option<f64> {
     }
     if let Some(e) = exp_part {
         let (esign, edigits) = match e.as_bytes().first() {
-            Some(&b'+') => (1.0, &e[1..]),
-            Some(&b'-') => (-1.0, &e[1..]),
-            _ => (1.0, e),
+            Some(&b'+') => (1, &e[1..]),
+            Some(&b'-') => (-1, &e[1..]),
+            _ => (1, e),
         };
         if edigits.is_empty() || !edigits.bytes().all(|b| b.is_ascii_digit()) {
             return None;
         }
-        let exp: i32 = edigits.parse().ok()?;
-        value *= 2f64.powi(exp * esign as i32);
+        let exp: i64 = edigits.parse().unwrap_or(i64::MAX);
+        value = scale(value, exp.min(1 << 20) as i32 * esign);
     }
     Some(value)
 }
 
+/// `value * 2**exp`, rounded once.
+fn scale(value: f64, exp: i32) -> f64 {
+    if value == 0.0 || !value.is_normal() {
+        return value;
+    }
+    let own = ((value.to_bits() >> 52) & 0x7ff) as i32 - 1023;
+    let exp = (exp + own).clamp(-2200, 2200);
+    let half = exp / 2;
+    value / 2f64.powi(own) * 2f64.powi(half) * 2f64.powi(exp - half)
+}
+
 fn hex_digit_value(b: u8) -> Option<u32> {
     match b {
         b'0'..=b'9' => Some((b - b'0') as u32),
-- 
2.43.0


From 0a728453dc1124273c63726505b880f1d57db82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:02 +0000
Subject: [PATCH 055/147] fix: read the number before an invalid byte in
 String#to_i and to_f

---
 monoruby/src/builtins/string.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 31096e3..bcdd7fa 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -5188,10 +5188,11 @@ fn empty(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
 ///
 /// [https://docs.ruby-lang.org/ja/latest/method/String/i/to_f.html]
 #[monoruby_builtin]
-fn to_f(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+fn to_f(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_ = lfp.self_val();
-    let s = self_.expect_str(globals)?;
-    let f = parse_f64(s).0;
+    // See `hex`: an invalid byte ends the number like any other non-digit.
+    let s = String::from_utf8_lossy(self_.as_rstring_inner().as_bytes());
+    let f = parse_f64(&s).0;
     Ok(Value::float(f))
 }
 
@@ -5325,7 +5326,9 @@ fn parse_f64_simple(s: &str) -> f64 {
 #[monoruby_builtin]
 fn to_i(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_ = lfp.self_val();
-    let s = self_.expect_str(globals)?;
+    // See `hex`: an invalid byte ends the number like any other non-digit.
+    let lossy = String::from_utf8_lossy(self_.as_rstring_inner().as_bytes());
+    let s = lossy.as_ref();
     let radix = if let Some(arg0) = lfp.try_arg(0) {
         match arg0.coerce_to_int_i64(vm, globals)? {
             0 => 0,
-- 
2.43.0


From 347926a2707cb637a84db7b0964c150475452427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:35:41 +0000
Subject: [PATCH 056/147] fix: give translated strings their encoding

An ASCII string translated with a replacement of 8-bit bytes got the UTF-8
form of those bytes, one in US-ASCII kept that encoding with characters of
UTF-8 in it, and tr! and tr_s! made their receiver UTF-8.
---
 monoruby/src/builtins/string.rs | 53 ++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index bcdd7fa..28c6ac7 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -6466,6 +6466,21 @@ fn transform_result(res: &str, self_val: Value, mapped: bool) -> Value {
     }
 }
 
+/// The result of a `tr` built by way of characters: an ASCII receiver
+/// takes on the encoding of a replacement that is not ASCII.
+fn tr_result(res: &str, recv: &RStringInner, from: Value, to: Value) -> RStringInner {
+    let wider = to
+        .is_rstring_inner()
+        .filter(|to| recv.is_ascii_only() && !to.is_ascii_only() && !res.is_ascii());
+    let enc = wider.map_or(recv.encoding(), |to| to.encoding());
+    let mapped = |v: Value| v.is_rstring_inner().is_some_and(|s| s.needs_byte_mapping());
+    if recv.needs_byte_mapping() || mapped(from) || mapped(to) {
+        RStringInner::from_mapped_utf8(res, enc)
+    } else {
+        RStringInner::from_encoding_scanned(res.as_bytes(), enc)
+    }
+}
+
 ///
 /// ### String#tr
 ///
@@ -6490,10 +6505,14 @@ fn tr(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
             RStringInner::from_encoding_scanned(&b, inner.encoding()),
         ));
     }
-    let mapped = inner.needs_byte_mapping();
     let rec = inner.regex_view()?;
     let (res, _) = tr_translate(&rec, &from, &to, false)?;
-    Ok(transform_result(&res, self_, mapped))
+    Ok(Value::string_from_inner(tr_result(
+        &res,
+        inner,
+        lfp.arg(0),
+        lfp.arg(1),
+    )))
 }
 
 ///
@@ -6527,18 +6546,13 @@ fn tr_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         return Ok(self_);
     }
     let inner = self_.as_rstring_inner();
-    let mapped = inner.needs_byte_mapping();
-    let enc = inner.encoding();
-    let rec = inner.regex_view()?.into_owned();
+    let rec = inner.regex_view()?;
     let (res, changed) = tr_translate(&rec, &from, &to, false)?;
     if !changed {
         return Ok(Value::nil());
     }
-    if mapped {
-        self_.replace_with_inner(RStringInner::from_mapped_utf8(&res, enc));
-    } else {
-        self_.replace_str(&res);
-    }
+    let result = tr_result(&res, inner, lfp.arg(0), lfp.arg(1));
+    self_.replace_with_inner(result);
     Ok(self_)
 }
 
@@ -6570,10 +6584,14 @@ fn tr_s(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             RStringInner::from_encoding_scanned(&b, inner.encoding()),
         ));
     }
-    let mapped = inner.needs_byte_mapping();
     let rec = inner.regex_view()?;
     let (res, _) = tr_translate(&rec, &from, &to, true)?;
-    Ok(transform_result(&res, self_, mapped))
+    Ok(Value::string_from_inner(tr_result(
+        &res,
+        inner,
+        lfp.arg(0),
+        lfp.arg(1),
+    )))
 }
 
 ///
@@ -6607,18 +6625,13 @@ fn tr_s_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         return Ok(self_);
     }
     let inner = self_.as_rstring_inner();
-    let mapped = inner.needs_byte_mapping();
-    let enc = inner.encoding();
-    let rec = inner.regex_view()?.into_owned();
+    let rec = inner.regex_view()?;
     let (res, changed) = tr_translate(&rec, &from, &to, true)?;
     if !changed {
         return Ok(Value::nil());
     }
-    if mapped {
-        self_.replace_with_inner(RStringInner::from_mapped_utf8(&res, enc));
-    } else {
-        self_.replace_str(&res);
-    }
+    let result = tr_result(&res, inner, lfp.arg(0), lfp.arg(1));
+    self_.replace_with_inner(result);
     Ok(self_)
 }
 
-- 
2.43.0


From 75c96d474c9489795fda98b3388cbb5fdb33e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:03 +0000
Subject: [PATCH 057/147] fix: take a leading ^ in the replacement of tr
 literally

---
 monoruby/src/builtins/string.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 28c6ac7..15b5aa6 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -6685,7 +6685,7 @@ fn ascii_tr_translate(
         return Ok(Some((out, changed)));
     }
 
-    let (to_chars, _) = expand_tr_spec(to)?;
+    let to_chars = expand_tr_chars(to)?;
     if !to_chars.iter().all(|c| c.is_ascii()) {
         return Ok(None);
     }
@@ -6763,14 +6763,16 @@ fn ascii_tr_translate(
 /// `^` is *not* part of the returned chars; instead `negated` is set.
 /// `\\` escapes the next char (so `\-` is a literal `-`).
 fn expand_tr_spec(spec: &str) -> Result<(Vec<char>, bool)> {
+    match spec.strip_prefix('^') {
+        Some(rest) if !rest.is_empty() => Ok((expand_tr_chars(rest)?, true)),
+        _ => Ok((expand_tr_chars(spec)?, false)),
+    }
+}
+
+/// Expand a `tr`-style spec in which `^` has no meaning: a replacement.
+fn expand_tr_chars(spec: &str) -> Result<Vec<char>> {
     let mut chars: Vec<char> = Vec::new();
     let mut iter = spec.chars().peekable();
-    let negated = if iter.peek() == Some(&'^') && spec.chars().count() > 1 {
-        iter.next();
-        true
-    } else {
-        false
-    };
     while let Some(c) = iter.next() {
         let ch = if c == '\\' {
             iter.next().unwrap_or('\\')
@@ -6808,7 +6810,7 @@ fn expand_tr_spec(spec: &str) -> Result<(Vec<char>, bool)> {
         }
         chars.push(ch);
     }
-    Ok((chars, negated))
+    Ok(chars)
 }
 
 /// Build the `from`-character → replacement-character mapping for tr.
@@ -6824,7 +6826,7 @@ fn tr_build_map(from: &str, to: &str) -> Result<TrMap> {
             negated,
         });
     }
-    let (to_chars, _) = expand_tr_spec(to)?;
+    let to_chars = expand_tr_chars(to)?;
     let last_to = *to_chars.last().unwrap();
     if negated {
         return Ok(TrMap::Negated {
-- 
2.43.0


From 9ded8a0ede2c3cac681886700d2ed1b6ef584709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:13 +0000
Subject: [PATCH 058/147] fix: String#strip and relatives trim whole characters
 in UTF-16 and UTF-32

---
 monoruby/src/builtins/string.rs | 67 +++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 15b5aa6..358b974 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -2644,24 +2644,51 @@ fn chomp_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 }
 
 /// The `strip` whitespace set — all ASCII, so trimming works on raw
-/// bytes and is exact for every encoding (byte-oriented 8-bit
-/// strings included; CRuby strips these without validating UTF-8).
+/// bytes in every ASCII-compatible encoding (byte-oriented 8-bit
+/// strings included; CRuby strips these without validating UTF-8)
+/// and on whole code units in UTF-16/32.
 const STRIP_BYTES: &[u8] = b" \n\t\x0d\x0c\x0b\x00";
 
-/// Byte offset one past the last non-strip byte.
-fn strip_end(bytes: &[u8]) -> usize {
+/// Number of bytes in a code unit of `enc`.
+fn code_unit_width(enc: Encoding) -> usize {
+    match enc {
+        Encoding::Utf16Le | Encoding::Utf16Be => 2,
+        Encoding::Utf32Le | Encoding::Utf32Be => 4,
+        _ => 1,
+    }
+}
+
+/// The ASCII character that the code unit `unit` of `enc` stands for.
+fn ascii_code_unit(enc: Encoding, unit: &[u8]) -> Option<u8> {
+    let (c, rest) = match enc {
+        Encoding::Utf16Be | Encoding::Utf32Be => unit.split_last()?,
+        _ => unit.split_first()?,
+    };
+    (c.is_ascii() && rest.iter().all(|b| *b == 0)).then_some(*c)
+}
+
+fn is_strip_unit(enc: Encoding, unit: &[u8]) -> bool {
+    ascii_code_unit(enc, unit).is_some_and(|c| STRIP_BYTES.contains(&c))
+}
+
+/// Byte offset one past the last non-strip character.
+fn strip_end(inner: &RStringInner) -> usize {
+    let (enc, bytes) = (inner.encoding(), inner.as_bytes());
+    let width = code_unit_width(enc);
     let mut end = bytes.len();
-    while end > 0 && STRIP_BYTES.contains(&bytes[end - 1]) {
-        end -= 1;
+    while end >= width && is_strip_unit(enc, &bytes[end - width..end]) {
+        end -= width;
     }
     end
 }
 
-/// Byte offset of the first non-strip byte at or before `end`.
-fn strip_start(bytes: &[u8], end: usize) -> usize {
+/// Byte offset of the first non-strip character at or before `end`.
+fn strip_start(inner: &RStringInner, end: usize) -> usize {
+    let (enc, bytes) = (inner.encoding(), inner.as_bytes());
+    let width = code_unit_width(enc);
     let mut start = 0;
-    while start < end && STRIP_BYTES.contains(&bytes[start]) {
-        start += 1;
+    while start + width <= end && is_strip_unit(enc, &bytes[start..start + width]) {
+        start += width;
     }
     start
 }
@@ -2707,10 +2734,10 @@ fn strip(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let self_val = lfp.self_val();
     let inner = self_val.as_rstring_inner();
     let bytes = inner.as_bytes();
-    lstrip_invalid_check(&inner, strip_start(bytes, bytes.len()))?;
+    lstrip_invalid_check(&inner, strip_start(inner, bytes.len()))?;
     rstrip_broken_check(&globals.store, &inner)?;
-    let new_end = strip_end(bytes);
-    let new_start = strip_start(bytes, new_end);
+    let new_end = strip_end(inner);
+    let new_start = strip_start(inner, new_end);
     // Zero-copy shared substring (CoW) for long enough results.
     Ok(string_substring(self_val, new_start, new_end))
 }
@@ -2727,10 +2754,10 @@ fn strip_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let self_val = lfp.self_val();
     let inner = self_val.as_rstring_inner();
     let bytes = inner.as_bytes();
-    lstrip_invalid_check(&inner, strip_start(bytes, bytes.len()))?;
+    lstrip_invalid_check(&inner, strip_start(inner, bytes.len()))?;
     rstrip_broken_check(&globals.store, &inner)?;
-    let new_end = strip_end(bytes);
-    let new_start = strip_start(bytes, new_end);
+    let new_end = strip_end(inner);
+    let new_start = strip_start(inner, new_end);
     if new_end - new_start == bytes.len() {
         return Ok(Value::nil());
     }
@@ -2749,7 +2776,7 @@ fn strip_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn rstrip(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_val = lfp.self_val();
     rstrip_broken_check(&globals.store, &self_val.as_rstring_inner())?;
-    let new_end = strip_end(self_val.as_rstring_inner().as_bytes());
+    let new_end = strip_end(self_val.as_rstring_inner());
     // Zero-copy shared substring (CoW) for long enough results.
     Ok(string_substring(self_val, 0, new_end))
 }
@@ -2766,7 +2793,7 @@ fn rstrip_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     let self_val = lfp.self_val();
     let inner = self_val.as_rstring_inner();
     rstrip_broken_check(&globals.store, &inner)?;
-    let new_end = strip_end(inner.as_bytes());
+    let new_end = strip_end(inner);
     if new_end == inner.len() {
         return Ok(Value::nil());
     }
@@ -2786,7 +2813,7 @@ fn lstrip(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let self_val = lfp.self_val();
     let inner = self_val.as_rstring_inner();
     let bytes = inner.as_bytes();
-    let new_start = strip_start(bytes, bytes.len());
+    let new_start = strip_start(inner, bytes.len());
     lstrip_invalid_check(&inner, new_start)?;
     let s_len = bytes.len();
     // Zero-copy shared substring (CoW) for long enough results.
@@ -2804,7 +2831,7 @@ fn lstrip_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     lfp.self_val().ensure_string_mutable(vm, globals)?;
     let self_val = lfp.self_val();
     let inner = self_val.as_rstring_inner();
-    let new_start = strip_start(inner.as_bytes(), inner.len());
+    let new_start = strip_start(inner, inner.len());
     lstrip_invalid_check(&inner, new_start)?;
     if new_start == 0 {
         return Ok(Value::nil());
-- 
2.43.0


From 7ea8ef96dbccc488bd3c5ea6780a387de4fa5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:47 +0000
Subject: [PATCH 059/147] fix: String#chomp removes one separator, and only
 whole characters

---
 monoruby/src/builtins/string.rs | 53 ++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 358b974..1cc8447 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -2522,42 +2522,35 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 /// bytes so that strings with invalid encoding (e.g.
 /// `"\xa0\xa1\n"` — invalid UTF-8 but with a literal trailing
 /// `\n`) still get their separator stripped, matching CRuby.
-fn chomp_byte_end(bytes: &[u8], rs: &[u8]) -> usize {
+fn chomp_byte_end(inner: &RStringInner, rs: &[u8]) -> usize {
+    let (enc, bytes) = (inner.encoding(), inner.as_bytes());
+    let width = code_unit_width(enc);
+    let ends_with = |end: usize, c: u8| {
+        end >= width && ascii_code_unit(enc, &bytes[end - width..end]) == Some(c)
+    };
+    let mut end = bytes.len();
     if rs.is_empty() {
         // Paragraph mode: iteratively strip trailing `\r\n` / `\n`.
-        let mut end = bytes.len();
-        loop {
-            let prev = end;
-            while end >= 2 && &bytes[end - 2..end] == b"\r\n" {
-                end -= 2;
-            }
-            if end >= 1 && bytes[end - 1] == b'\n' {
-                end -= 1;
-            }
-            if end == prev {
-                break;
+        while ends_with(end, b'\n') {
+            end -= width;
+            if ends_with(end, b'\r') {
+                end -= width;
             }
         }
-        end
-    } else if rs == b"\n" {
+    } else if rs == b"\n" || (rs.len() == width && ascii_code_unit(enc, rs) == Some(b'\n')) {
         // Default: remove ONE trailing `\r\n` / `\n` / `\r`.
-        let end = bytes.len();
-        if end >= 2 && &bytes[end - 2..end] == b"\r\n" {
-            end - 2
-        } else if end >= 1 && (bytes[end - 1] == b'\n' || bytes[end - 1] == b'\r') {
-            end - 1
-        } else {
-            end
+        if ends_with(end, b'\n') {
+            end -= width;
         }
-    } else {
-        // Explicit separator: strip iteratively. Matches the
-        // pre-existing behaviour of `&str::trim_end_matches(rs)`.
-        let mut end = bytes.len();
-        while end >= rs.len() && &bytes[end - rs.len()..end] == rs {
-            end -= rs.len();
+        if ends_with(end, b'\r') {
+            end -= width;
         }
-        end
+    } else if bytes.ends_with(rs) && enc_char_boundary(enc, bytes, end - rs.len()) {
+        // Explicit separator: removed once, and not from within a
+        // character.
+        end -= rs.len();
     }
+    end
 }
 
 ///
@@ -2595,7 +2588,7 @@ fn chomp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     // Operate on bytes so that strings whose declared encoding
     // doesn't actually parse (e.g. `"\xa0\xa1\n".chomp`) can still
     // have their trailing newline stripped.
-    let new_end = chomp_byte_end(self_.as_rstring_inner().as_bytes(), rs_bytes);
+    let new_end = chomp_byte_end(self_.as_rstring_inner(), rs_bytes);
     // Zero-copy shared substring (CoW) for long enough results.
     Ok(string_substring(self_, 0, new_end))
 }
@@ -2633,7 +2626,7 @@ fn chomp_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let self_ = lfp.self_val();
     let inner = self_.as_rstring_inner();
     let self_len = inner.as_bytes().len();
-    let new_end = chomp_byte_end(inner.as_bytes(), rs_bytes);
+    let new_end = chomp_byte_end(inner, rs_bytes);
     if new_end == self_len {
         Ok(Value::nil())
     } else {
-- 
2.43.0


From f0e1c22f8485410bd31fbb4b75730585e4b428cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:47 +0000
Subject: [PATCH 060/147] fix: prefixes and suffixes of EUC-JP and Shift_JIS
 strings end at characters

---
 monoruby/src/builtins/string.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 1cc8447..1a5ad69 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1942,8 +1942,8 @@ fn is_utf8_char_boundary(bytes: &[u8], pos: usize) -> bool {
 /// Used so `start_with?` / `end_with?` only accept a prefix/suffix
 /// that aligns to a character (CRuby: a match must start at a char
 /// head). UTF-16 is surrogate-aware — a low surrogate (the 2nd half
-/// of an astral character) is not a head. Encodings other than
-/// UTF-8/16/32 keep the previous "no boundary constraint" behaviour.
+/// of an astral character) is not a head. In EUC-JP and Shift_JIS
+/// heads are only known by walking the characters from the start.
 fn enc_char_boundary(enc: crate::value::Encoding, bytes: &[u8], pos: usize) -> bool {
     use crate::value::Encoding as E;
     if pos == 0 || pos >= bytes.len() {
@@ -1963,6 +1963,17 @@ fn enc_char_boundary(enc: crate::value::Encoding, bytes: &[u8], pos: usize) -> b
             !(0xDC00..=0xDFFF).contains(&u)
         }
         E::Utf32Le | E::Utf32Be => pos % 4 == 0,
+        E::EucJp | E::Sjis(_) => {
+            let mut at = 0;
+            while at < pos {
+                at += match enc {
+                    E::EucJp => crate::value::rvalue::eucjp_char_width(&bytes[at..]),
+                    _ => crate::value::rvalue::sjis_char_width(&bytes[at..]),
+                }
+                .unwrap_or(1);
+            }
+            at == pos
+        }
         _ => true,
     }
 }
-- 
2.43.0


From 4de46e5644be7ca13ce9b1ceb54bb8bca0b6642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:40 +0000
Subject: [PATCH 061/147] fix: an ASCII string padded with other characters
 takes their encoding

---
 monoruby/src/builtins/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 1a5ad69..9f51135 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -4314,7 +4314,12 @@ fn pad_string_inner(
         return RStringInner::from_ascii_bytes(out, self_inner.encoding());
     }
     // Mixed content: defer classification to first use (cr = Unknown).
-    RStringInner::from_encoding(&out, self_inner.encoding())
+    // An ASCII-only receiver takes the encoding of its padding.
+    let enc = self_inner
+        .compatible_encoding(pad_inner)
+        .filter(|_| !pad_inner.is_ascii_only())
+        .unwrap_or(self_inner.encoding());
+    RStringInner::from_encoding(&out, enc)
 }
 
 /// Common entry point shared by `ljust` / `rjust` / `center`. Handles
-- 
2.43.0


From a96c3be2e075cbecd701f938400a4332926b576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:40 +0000
Subject: [PATCH 062/147] fix: String#delete_prefix works in every encoding and
 keeps it

---
 monoruby/src/builtins/string.rs | 41 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 9f51135..10ab4ff 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1896,13 +1896,31 @@ fn delete_prefix_(
 ) -> Result<Value> {
     lfp.self_val().ensure_string_mutable(vm, globals)?;
     let self_ = lfp.self_val();
-    let string = self_.expect_str(globals)?;
-    let arg = lfp.arg(0).coerce_to_str(vm, globals)?;
-    if let Some(stripped) = string.strip_prefix(arg.as_str()) {
-        lfp.self_val().replace_str(stripped);
-        Ok(lfp.self_val())
+    let arg = coerce_to_rstring_inner(&lfp.arg(0), vm, globals)?;
+    let inner = self_.as_rstring_inner();
+    match deleted_prefix_len(inner, &arg, globals)? {
+        0 => Ok(Value::nil()),
+        len => {
+            let rest = RStringInner::from_substring(inner, len, inner.len());
+            lfp.self_val().replace_with_inner(rest);
+            Ok(lfp.self_val())
+        }
+    }
+}
+
+/// Number of bytes at the start of `inner` that make up `prefix`.
+fn deleted_prefix_len(
+    inner: &RStringInner,
+    prefix: &RStringInner,
+    globals: &Globals,
+) -> Result<usize> {
+    let (enc, bytes) = (inner.encoding(), inner.as_bytes());
+    check_encoding_compat(enc, bytes, prefix, globals)?;
+    let len = prefix.len();
+    if bytes.starts_with(prefix.as_bytes()) && enc_char_boundary(enc, bytes, len) {
+        Ok(len)
     } else {
-        Ok(Value::nil())
+        Ok(0)
     }
 }
 
@@ -1920,13 +1938,10 @@ fn delete_prefix(
     _: BytecodePtr,
 ) -> Result<Value> {
     let self_ = lfp.self_val();
-    let string = self_.expect_str(globals)?;
-    let arg = lfp.arg(0).coerce_to_str(vm, globals)?;
-    if let Some(stripped) = string.strip_prefix(arg.as_str()) {
-        Ok(Value::string_from_str(stripped))
-    } else {
-        Ok(Value::string_from_str(string))
-    }
+    let arg = coerce_to_rstring_inner(&lfp.arg(0), vm, globals)?;
+    let inner = self_.as_rstring_inner();
+    let len = deleted_prefix_len(inner, &arg, globals)?;
+    Ok(string_substring(self_, len, inner.len()))
 }
 
 /// Check if a byte position in a UTF-8 byte slice is at a character boundary.
-- 
2.43.0


From 5b818f0c7c5d349a520e60eceb3fa49238a5fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:34 +0000
Subject: [PATCH 063/147] fix: case mapping of empty UTF-16 strings and of
 ISO-8859-1 with :ascii

---
 monoruby/src/builtins/string.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 10ab4ff..a517c14 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -5686,7 +5686,7 @@ fn to_sym(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
 /// vectoriser can turn into wide SIMD, so the bang variants compute
 /// changed-vs-unchanged with a single `memcmp` afterward instead.
 fn ascii_case_fast_path(inner: &RStringInner, op: CaseOp, mode: CaseMode) -> Option<RStringInner> {
-    if matches!(mode, CaseMode::Turkic) {
+    if matches!(mode, CaseMode::Turkic) || !inner.encoding().is_ascii_compatible() {
         return None;
     }
     if !inner.is_ascii_only() {
@@ -5710,7 +5710,8 @@ fn ascii_case_fast_path(inner: &RStringInner, op: CaseOp, mode: CaseMode) -> Opt
             // 0xC0..=0xDE (minus `×` 0xD7) ↔ lower 0xE0..=0xFE
             // (minus `÷` 0xF7). `ÿ` (0xFF) has no upper in Latin-1
             // and `µ`/`ß` have no single-byte mapping — unchanged.
-            let latin1 = matches!(enc, crate::value::Encoding::Iso8859(1));
+            let latin1 = matches!(enc, crate::value::Encoding::Iso8859(1))
+                && !matches!(mode, CaseMode::Ascii);
             let up = |b: u8| -> u8 {
                 if b.is_ascii() {
                     b.to_ascii_uppercase()
-- 
2.43.0


From 70aaaad8973e7574b0938a77a53ec26117af32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:34 +0000
Subject: [PATCH 064/147] fix: String#casecmp leaves the second bytes of
 Shift_JIS characters alone

---
 monoruby/src/builtins/string.rs | 34 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index a517c14..005d1f8 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -638,13 +638,26 @@ fn casecmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     if lhs_inner.compatible_encoding(rhs_inner_ref).is_none() {
         return Ok(Value::nil());
     }
-    let ord = lhs_inner
-        .iter()
-        .map(|b| b.to_ascii_lowercase())
-        .cmp(rhs_inner_ref.iter().map(|b| b.to_ascii_lowercase()));
+    let ord = ascii_folded(lhs_inner).cmp(&ascii_folded(rhs_inner_ref));
     Ok(Value::from_ord(ord))
 }
 
+/// The bytes of `inner` with its ASCII letters in lower case. The
+/// second byte of a Shift_JIS character is none.
+fn ascii_folded(inner: &RStringInner) -> Vec<u8> {
+    if !matches!(inner.encoding(), Encoding::Sjis(_)) {
+        return inner.as_bytes().to_ascii_lowercase();
+    }
+    let mut out = Vec::with_capacity(inner.len());
+    for ch in inner.iter_char_bytes() {
+        match ch {
+            [b] => out.push(b.to_ascii_lowercase()),
+            _ => out.extend_from_slice(ch),
+        }
+    }
+    out
+}
+
 ///
 /// ### String#casecmp?
 ///
@@ -655,10 +668,10 @@ fn casecmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
 fn casecmp_p(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let lhs = lfp.self_val();
     let rhs = lfp.arg(0);
-    let (rhs_bytes, rhs_enc) = if let Some(inner) = rhs.is_rstring_inner() {
-        (inner.as_bytes().to_vec(), inner.encoding())
+    let (rhs_bytes, rhs_folded, rhs_enc) = if let Some(inner) = rhs.is_rstring_inner() {
+        (inner.as_bytes().to_vec(), ascii_folded(inner), inner.encoding())
     } else if let Ok(s) = rhs.coerce_to_rstring(vm, globals) {
-        (s.as_bytes().to_vec(), s.encoding())
+        (s.as_bytes().to_vec(), ascii_folded(&s), s.encoding())
     } else {
         return Ok(Value::nil());
     };
@@ -683,12 +696,7 @@ fn casecmp_p(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         Ok(Value::bool(lhs_lower == rhs_lower))
     } else {
         // Binary: ASCII-only case-insensitive byte comparison.
-        let eq = lhs_inner.len() == rhs_bytes.len()
-            && lhs_inner
-                .iter()
-                .zip(rhs_bytes.iter())
-                .all(|(a, b)| a.to_ascii_lowercase() == b.to_ascii_lowercase());
-        Ok(Value::bool(eq))
+        Ok(Value::bool(ascii_folded(lhs_inner) == rhs_folded))
     }
 }
 
-- 
2.43.0


From 86a817444c0765760e72951ca69398c6b66d3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:34 +0000
Subject: [PATCH 065/147] fix: String#next! keeps the encoding

---
 monoruby/src/builtins/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 005d1f8..8e8ed9f 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -7682,7 +7682,7 @@ fn next_mut(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     if mapped {
         self_.replace_with_inner(RStringInner::from_mapped_utf8(&new_str, enc));
     } else {
-        self_.replace_string(new_str);
+        self_.replace_with_inner(RStringInner::from_encoding_scanned(new_str.as_bytes(), enc));
     }
     Ok(self_)
 }
-- 
2.43.0


From aebe36bddd6fe0fbea4f5d4c60e4dde32641ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:34 +0000
Subject: [PATCH 066/147] fix: String#sum with no bits or more bits than a word
 gives the whole sum

---
 monoruby/src/builtins/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 8e8ed9f..7077aa6 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -7403,7 +7403,10 @@ fn sum(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     for b in bytes.as_bytes() {
         sum += *b as u64;
     }
-    Ok(Value::integer((sum & ((1 << bits) - 1)) as i64))
+    if (1..64).contains(&bits) {
+        sum &= (1 << bits) - 1;
+    }
+    Ok(Value::integer(sum as i64))
 }
 
 ///
-- 
2.43.0


From a08b7624ddd76c75cad33946d2d450c484d80309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:35 +0000
Subject: [PATCH 067/147] fix: String#undump keeps the encoding unless it met a
 Unicode escape

---
 monoruby/src/builtins/string.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 7077aa6..be31f3b 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -7780,14 +7780,19 @@ fn dump(_: &mut Executor, _: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<V
 fn undump(_: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_ = lfp.self_val();
     let s = self_.expect_str(globals)?;
-    let bytes = parse_undump(s)?;
+    let (bytes, unicode) = parse_undump(s)?;
     // The dumped form is always ASCII-compatible and we tag the
-    // result as UTF-8. `from_encoding_scanned` classifies the
+    // result like it, or as UTF-8 after `\u`. `from_encoding_scanned` classifies the
     // bytes once at construction so subsequent cr queries are
     // O(1); skipping the eager scan would force every later
     // operation to re-walk the buffer through `Encoding::classify`.
+    let enc = if unicode {
+        Encoding::Utf8
+    } else {
+        self_.as_rstring_inner().encoding()
+    };
     Ok(Value::string_from_inner(
-        RStringInner::from_encoding_scanned(&bytes, Encoding::Utf8),
+        RStringInner::from_encoding_scanned(&bytes, enc),
     ))
 }
 
@@ -8000,7 +8005,8 @@ fn scrub_inner_with_block(
 /// Parser for the dump-quoted format. Errors are returned as
 /// `RuntimeError` with messages that match CRuby's variants, so the
 /// spec's `raise_error(RuntimeError, /.../)` matches the right kind.
-fn parse_undump(s: &str) -> Result<Vec<u8>> {
+/// Also returns whether there was a `\u` escape.
+fn parse_undump(s: &str) -> Result<(Vec<u8>, bool)> {
     let bytes = s.as_bytes();
     let invalid = || MonorubyErr::runtimeerr("invalid dumped string");
     let unterminated = || MonorubyErr::runtimeerr("unterminated dumped string");
@@ -8016,6 +8022,7 @@ fn parse_undump(s: &str) -> Result<Vec<u8>> {
     }
     let inner = &bytes[1..bytes.len() - 1];
     let mut out: Vec<u8> = Vec::with_capacity(inner.len());
+    let mut unicode = false;
     let mut i = 0usize;
     while i < inner.len() {
         let b = inner[i];
@@ -8068,6 +8075,7 @@ fn parse_undump(s: &str) -> Result<Vec<u8>> {
                 i += 2;
             }
             b'u' => {
+                unicode = true;
                 if i < inner.len() && inner[i] == b'{' {
                     // `\u{XXXX}` form, possibly multiple codepoints.
                     i += 1;
@@ -8101,7 +8109,7 @@ fn parse_undump(s: &str) -> Result<Vec<u8>> {
             _ => return Err(invalid()),
         }
     }
-    Ok(out)
+    Ok((out, unicode))
 }
 
 fn hex_digit(b: u8) -> Option<u32> {
-- 
2.43.0


From fd20ce73b58aba95400d93f3fed9fffb4ca39c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:56:33 +0000
Subject: [PATCH 068/147] fix: String#succ of binary strings counts only ASCII
 letters and digits

---
 monoruby/src/builtins/string.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index be31f3b..491c05b 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -7643,6 +7643,17 @@ fn next(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 /// returning `None` for everything else (and for empty strings).
 fn byte_succ_no_alnum(inner: &RStringInner) -> Option<Vec<u8>> {
     let bytes = inner.as_bytes();
+    if matches!(inner.encoding(), Encoding::Ascii8)
+        && bytes.iter().any(|b| b.is_ascii_alphanumeric())
+    {
+        // Bytes beyond ASCII are no letters: private-use characters
+        // stand in for them.
+        let mapped: String = bytes
+            .iter()
+            .filter_map(|b| char::from_u32(if b.is_ascii() { 0 } else { 0xF700 } + *b as u32))
+            .collect();
+        return Some(str_next(&mapped).chars().map(|c| c as u8).collect());
+    }
     if bytes.is_empty()
         || bytes.iter().any(|b| b.is_ascii_alphanumeric())
         || !(inner.needs_byte_mapping() || inner.check_utf8().is_err())
-- 
2.43.0


From 15e96c792171ba4ee1035aa8e797e32205fc2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:56:33 +0000
Subject: [PATCH 069/147] fix: String#succ does not carry over from digits to
 letters before a suffix

---
 monoruby/src/builtins/string.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 491c05b..b067641 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1694,13 +1694,12 @@ pub fn str_next(self_: &str) -> String {
                 continue;
             }
             pad_flag = false;
-        } else {
-            if c.is_alpha() {
-                state = Type::Alpha
-            } else if c.is_digit() {
-                state = Type::Digit
-            };
         }
+        if c.is_alpha() {
+            state = Type::Alpha
+        } else if c.is_digit() {
+            state = Type::Digit
+        };
         let (next, is_carry) = c.succ_char();
         if is_carry {
             last_alnum = buf.len();
-- 
2.43.0


From 966c6c42f19d92c1e4d23a0825f07a8a83538b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:56:33 +0000
Subject: [PATCH 070/147] fix: String#ord of EUC-JP and Shift_JIS strings takes
 a whole character

---
 monoruby/src/value/rvalue/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index a265b65..23ae7a9 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2454,7 +2454,12 @@ impl RStringInner {
             // Binary / non-UTF-8 encodings report the leading byte;
             // matches CRuby for ASCII-8BIT and is the conservative
             // answer for dummy encodings we don't decode.
-            self.as_bytes()[0] as u32
+            match (self.ty, self.iter_char_bytes().next()) {
+                (Encoding::EucJp | Encoding::Sjis(_), Some(ch)) => {
+                    ch.iter().fold(0, |n, b| n << 8 | *b as u32)
+                }
+                _ => self.as_bytes()[0] as u32,
+            }
         };
         Ok(ord)
     }
-- 
2.43.0


From 8ec7829e6beac5f748d3b21e0d348688b85a47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:18 +0000
Subject: [PATCH 071/147] fix: String#byteindex and byterindex find whole
 characters only

---
 monoruby/src/builtins/string.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index b067641..e75551d 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -3586,7 +3586,7 @@ fn byteindex(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
                 "offset {byte_offset} does not land on character boundary"
             )));
         }
-        return Ok(match byte_search_fwd(haystack, needle.as_bytes(), byte_offset) {
+        return Ok(match byte_search_fwd(&given, needle.as_bytes(), byte_offset) {
             Some(p) => Value::integer(p as i64),
             None => Value::nil(),
         });
@@ -3664,7 +3664,7 @@ fn byterindex(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
                 "offset {byte_offset} does not land on character boundary"
             )));
         }
-        return Ok(match byte_search_rev(haystack, needle.as_bytes(), byte_offset) {
+        return Ok(match byte_search_rev(&given, needle.as_bytes(), byte_offset) {
             Some(p) => Value::integer(p as i64),
             None => Value::nil(),
         });
@@ -3740,24 +3740,27 @@ fn is_enc_char_boundary(inner: &RStringInner, pos: usize) -> bool {
 }
 
 /// First byte index `>= from` where `needle` occurs in `haystack`
-/// (plain byte search — CRuby's `rb_memsearch`; no boundary
-/// constraint). Empty needles match at `from`.
-fn byte_search_fwd(haystack: &[u8], needle: &[u8], from: usize) -> Option<usize> {
+/// and a character starts. Empty needles match at `from`.
+fn byte_search_fwd(inner: &RStringInner, needle: &[u8], from: usize) -> Option<usize> {
+    let haystack = inner.as_bytes();
     if needle.is_empty() {
         return (from <= haystack.len()).then_some(from);
     }
     let last = haystack.len().checked_sub(needle.len())?;
-    (from..=last).find(|&i| haystack[i..].starts_with(needle))
+    (from..=last).find(|&i| haystack[i..].starts_with(needle) && is_enc_char_boundary(inner, i))
 }
 
-/// Last byte index `<= upto` where `needle` occurs in `haystack`.
-/// Empty needles match at `upto` (clamped to the length).
-fn byte_search_rev(haystack: &[u8], needle: &[u8], upto: usize) -> Option<usize> {
+/// Last byte index `<= upto` where `needle` occurs in `haystack` and a
+/// character starts. Empty needles match at `upto` (clamped to the length).
+fn byte_search_rev(inner: &RStringInner, needle: &[u8], upto: usize) -> Option<usize> {
+    let haystack = inner.as_bytes();
     if needle.is_empty() {
         return Some(upto.min(haystack.len()));
     }
     let last = haystack.len().checked_sub(needle.len())?;
-    (0..=last.min(upto)).rev().find(|&i| haystack[i..].starts_with(needle))
+    (0..=last.min(upto))
+        .rev()
+        .find(|&i| haystack[i..].starts_with(needle) && is_enc_char_boundary(inner, i))
 }
 
 /// Coerce a value to a `Regexp` for `byteindex`/`byterindex`. Accepts
-- 
2.43.0


From 38d9c7e0444bcf4eff66c009248aa5395648ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:18 +0000
Subject: [PATCH 072/147] fix: String#include? finds whole characters only

---
 monoruby/src/builtins/string.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index e75551d..1e79aca 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1873,6 +1873,10 @@ fn include_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let self_inner = self_.as_rstring_inner();
     if let Some(arg_inner) = lfp.arg(0).is_rstring_inner() {
         check_string_encoding_compat(self_inner, &arg_inner, globals)?;
+        if matches!(self_inner.encoding(), Encoding::EucJp | Encoding::Sjis(_)) {
+            let hit = substring_char_index(self_inner, arg_inner.as_bytes(), 0, false);
+            return Ok(Value::bool(hit.is_some()));
+        }
     }
     let string = self_inner.regex_view()?;
     // View the needle in the same (surrogate or direct) space as the
-- 
2.43.0


From 83ad70b629e0b7eb7aa82c6edf4314997d362e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:18 +0000
Subject: [PATCH 073/147] fix: String#rindex finds occurrences that overlap
 later ones

---
 monoruby/src/builtins/string.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 1e79aca..bb9a283 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -4070,13 +4070,13 @@ fn string_rindex_string(
             .unwrap_or(haystack_str.len())
     };
 
-    // Reverse two-way scan. `rmatch_indices` yields matches in
-    // right-to-left order, so the first hit at or before
-    // `max_byte_start` is the answer.
-    let byte_pos = haystack_str
-        .rmatch_indices(needle_str)
-        .find(|(i, _)| *i <= max_byte_start)
-        .map(|(i, _)| i);
+    // Reverse two-way scan of everything a match starting at or before
+    // `max_byte_start` can lie in.
+    let mut end = (max_byte_start + needle_str.len()).min(haystack_str.len());
+    while !haystack_str.is_char_boundary(end) {
+        end -= 1;
+    }
+    let byte_pos = haystack_str[..end].rfind(needle_str);
 
     let Some(p) = byte_pos else {
         return Ok(Value::nil());
-- 
2.43.0


From 2d1e9822d1f3a0f9a1a8452f55fb5e87a8c880a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:18 +0000
Subject: [PATCH 074/147] fix: String#split into the characters of other
 encodings ends with an empty field too

---
 monoruby/src/builtins/string.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index bb9a283..6b50c0a 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -2057,10 +2057,9 @@ fn split(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         } else {
             chars.into_iter().map(Value::string_from_inner).collect()
         };
-        // Trailing empty field: only when limit is negative (CRuby
-        // keeps it; default/positive limit drops trailing empties,
-        // and an all-character split has none anyway).
-        if lim < 0 {
+        // Trailing empty field: when limit is negative or beyond the
+        // number of characters (the default drops it).
+        if n > 0 && (lim < 0 || lim > n as i64) {
             v.push(Value::string_from_inner(RStringInner::from_encoding(
                 b"", enc,
             )));
-- 
2.43.0


From feca0ae4ad019733068c24119a47764788d1a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:18 +0000
Subject: [PATCH 075/147] fix: String#split and lines cut EUC-JP and Shift_JIS
 strings between characters

---
 monoruby/src/builtins/string.rs | 55 ++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 6b50c0a..1cccaa3 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -2276,6 +2276,7 @@ fn split(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             }
         }
         SepKind::Str(seps) => {
+            let char_starts = view_char_starts(self_.as_rstring_inner());
             let mut substr_start = 0usize;
             let mut from = 0usize;
             loop {
@@ -2286,6 +2287,10 @@ fn split(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                     None => break,
                     Some(rel) => {
                         let pos = from + rel;
+                        if !view_char_start(&char_starts, pos) {
+                            from = pos + clen(pos);
+                            continue;
+                        }
                         let s = &string[substr_start..pos];
                         push(&mut out, &mut ec, s);
                         from = pos + seps.len();
@@ -5082,7 +5087,7 @@ fn line_ranges(
         }
         Sep::Default => split_with_default_newline_ranges(s, chomp),
         Sep::Paragraph => split_paragraph_ranges(s, chomp),
-        Sep::Str(sep) => split_with_separator_ranges(s, &sep, chomp),
+        Sep::Str(sep) => split_with_separator_ranges(s, &sep, chomp, &view_char_starts(inner)),
     };
     if !mapped {
         return Ok(ranges);
@@ -5160,20 +5165,54 @@ fn split_with_default_newline_ranges(s: &str, chomp: bool) -> Vec<std::ops::Rang
     out
 }
 
-fn split_with_separator_ranges(s: &str, sep: &str, chomp: bool) -> Vec<std::ops::Range<usize>> {
+fn split_with_separator_ranges(
+    s: &str,
+    sep: &str,
+    chomp: bool,
+    char_starts: &Option<Vec<usize>>,
+) -> Vec<std::ops::Range<usize>> {
     let mut out = Vec::new();
     let mut start = 0usize;
-    for piece in s.split_inclusive(sep) {
-        let mut end = start + piece.len();
-        if chomp && piece.ends_with(sep) {
-            end -= sep.len();
+    let mut from = 0usize;
+    while let Some(rel) = s[from..].find(sep) {
+        let pos = from + rel;
+        if !view_char_start(char_starts, pos) {
+            from = pos + s[pos..].chars().next().map_or(1, |c| c.len_utf8());
+            continue;
         }
-        out.push(start..end);
-        start += piece.len();
+        from = pos + sep.len();
+        out.push(start..if chomp { pos } else { from });
+        start = from;
+    }
+    if start < s.len() {
+        out.push(start..s.len());
     }
     out
 }
 
+/// Where the characters of an EUC-JP or Shift_JIS string start in its
+/// `regex_view`. In other views every `char` is one.
+fn view_char_starts(inner: &RStringInner) -> Option<Vec<usize>> {
+    if !inner.needs_byte_mapping()
+        || !matches!(inner.encoding(), Encoding::EucJp | Encoding::Sjis(_))
+    {
+        return None;
+    }
+    let mut at = 0;
+    let mut starts = vec![];
+    for ch in inner.iter_char_bytes() {
+        starts.push(at);
+        at += ch.len() + ch.iter().filter(|b| !b.is_ascii()).count();
+    }
+    Some(starts)
+}
+
+fn view_char_start(char_starts: &Option<Vec<usize>>, pos: usize) -> bool {
+    char_starts
+        .as_ref()
+        .is_none_or(|starts| starts.binary_search(&pos).is_ok())
+}
+
 fn split_paragraph_ranges(s: &str, chomp: bool) -> Vec<std::ops::Range<usize>> {
     // Paragraph mode (empty record separator): split on a run of two or
     // more `\n`. Each paragraph keeps exactly the first two newlines of
-- 
2.43.0


From 03170d36bd17b371a36e8c43b87d06fd5a896340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:18 +0000
Subject: [PATCH 076/147] fix: String#lines takes separators of every encoding,
 and "\n" as the default

---
 monoruby/src/builtins/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 1cccaa3..ab9fa61 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -5065,9 +5065,14 @@ fn line_ranges(
                 }
                 _ => {}
             }
-            let sep = arg.coerce_to_str(vm, globals)?.to_string();
+            let sep = match arg.is_rstring_inner() {
+                Some(inner) if inner.needs_byte_mapping() => inner.regex_view()?.into_owned(),
+                _ => arg.coerce_to_str(vm, globals)?.to_string(),
+            };
             if sep.is_empty() {
                 Sep::Paragraph
+            } else if sep == "\n" {
+                Sep::Default
             } else {
                 Sep::Str(sep)
             }
-- 
2.43.0


From d51535970ac82973689b81a423b110e5fd73c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:23 +0000
Subject: [PATCH 077/147] fix: String#[]= and slice! keep encodings, bytes and
 exclusive ranges

---
 monoruby/src/builtins/string.rs | 460 ++++++++------------------------
 1 file changed, 118 insertions(+), 342 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index ab9fa61..7988595 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1007,13 +1007,6 @@ fn conv_index(i: i64, len: usize) -> Option<usize> {
     }
 }
 
-fn get_range(s: &str, index: usize, len: usize) -> std::ops::Range<usize> {
-    let mut iter = s.char_indices().skip(index).peekable();
-    let start = iter.peek().map(|(i, _)| *i).unwrap_or(s.len());
-    let end = iter.nth(len).map(|(i, _)| i).unwrap_or(s.len());
-    start..end
-}
-
 ///
 /// ### String#[]
 ///
@@ -1303,217 +1296,108 @@ fn index_assign(
         lfp.arg(1)
     };
 
-    if let Some(re) = arg0_val.is_regex() {
-        // s[/regex/] = val  /  s[/regex/, nth] = val.
-        // CRuby checks the match (and the optional capture index) *before*
-        // calling `to_str` on the replacement; spec exercises this with a
-        // mock that should not receive `to_str` when the match fails.
-        let (start, end) = locate_regex_match(vm, &re, &lfp.self_val(), arg1_opt, globals)?;
-        let subst = arg_val.coerce_to_string(vm, globals)?;
-        replace_byte_range(globals, lfp.self_val(), start, end, &subst)?;
-        return Ok(arg_val);
-    }
-
-    if arg0_val.is_str().is_some() {
+    // CRuby checks a Regexp's match (and the optional capture index) *before*
+    // calling `to_str` on the replacement; spec exercises this with a
+    // mock that should not receive `to_str` when the match fails.
+    let matched = match arg0_val.is_regex() {
+        Some(re) => Some(locate_regex_match(
+            vm,
+            &re,
+            &lfp.self_val(),
+            arg1_opt,
+            globals,
+        )?),
+        None => None,
+    };
+    // A copy, for the replacement may be the receiver itself.
+    let subst = (*arg_val.coerce_to_rstring(vm, globals)?).clone();
+    let self_ = lfp.self_val();
+    let (start, end) = if let Some(range) = matched {
+        range
+    } else if let Some(needle) = arg0_val.is_rstring_inner() {
         // s["needle"] = val
         if arg1_opt.is_some() {
             return Err(MonorubyErr::argumenterr(
                 "wrong number of arguments (given 3, expected 2)",
             ));
         }
-        let needle = arg0_val.is_str().unwrap().to_string();
-        let subst = arg_val.coerce_to_string(vm, globals)?;
-        let self_ = lfp.self_val();
-        let lhs = self_.expect_str(globals)?;
-        let pos = match lhs.find(needle.as_str()) {
-            Some(p) => p,
+        match byte_search_fwd(self_.as_rstring_inner(), needle.as_bytes(), 0) {
+            Some(p) => (p, p + needle.len()),
             None => return Err(MonorubyErr::indexerr("string not matched")),
-        };
-        replace_byte_range(globals, lfp.self_val(), pos, pos + needle.len(), &subst)?;
-        return Ok(arg_val);
-    }
-
-    let subst = arg_val.coerce_to_string(vm, globals)?;
-    let self_ = lfp.self_val();
-    // Non-UTF-8 receiver: resolve the character index/range and splice
-    // bytes via the encoding-aware `get_range` (the `&str` path below
-    // would error on EUC-JP / Shift_JIS multibyte content). `subst`
-    // is ASCII or same-encoding (compat checked above).
-    if !self_.as_rstring_inner().encoding().is_utf8_compatible() {
-        let inner = self_.as_rstring_inner();
-        let char_len = inner.char_length();
-        if let Some(idx) = arg0_val.try_fixnum().or_else(|| {
-            if arg0_val.is_range().is_none() && arg0_val.is_regex().is_none() {
-                arg0_val.coerce_to_int_i64(vm, globals).ok()
-            } else {
-                None
-            }
-        }) {
-            let start = if idx == char_len as i64 {
-                char_len
-            } else {
-                match conv_index(idx, char_len) {
-                    Some(i) => i,
-                    None => return Err(MonorubyErr::indexerr("index out of range")),
-                }
-            };
-            let len = if let Some(a1) = arg1_opt {
-                match a1.coerce_to_int_i64(vm, globals)? {
-                    i if i < 0 => return Err(MonorubyErr::indexerr("negative length")),
-                    i => i as usize,
-                }
-            } else if start == char_len {
-                0
-            } else {
-                1
-            };
-            let r = inner.get_range(start, len);
-            replace_byte_range(globals, self_, r.start, r.end, &subst)?;
-            return Ok(arg_val);
-        }
-        if let Some(info) = arg0_val.is_range() {
-            let start_raw = info.start().coerce_to_int_i64(vm, globals)?;
-            let end_raw = info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64;
-            if start_raw > char_len as i64 {
-                return Err(MonorubyErr::rangeerr(format!(
-                    "{start_raw}..{end_raw} out of range"
-                )));
-            }
-            let start_char = match conv_index(start_raw, char_len) {
-                Some(i) => i,
-                None => {
-                    return Err(MonorubyErr::rangeerr(format!(
-                        "{start_raw}..{end_raw} out of range"
-                    )));
-                }
-            };
-            let end_char = if end_raw < 0 {
-                let e = char_len as i64 + end_raw;
-                if e < start_char as i64 {
-                    start_char.saturating_sub(1)
-                } else {
-                    e as usize
-                }
-            } else {
-                end_raw as usize
-            };
-            let count = if end_char >= start_char {
-                end_char - start_char + 1
-            } else {
-                0
-            };
-            let r = inner.get_range(start_char, count);
-            replace_byte_range(globals, self_, r.start, r.end, &subst)?;
-            return Ok(arg_val);
-        }
-    }
-    let mut lhs = self_.expect_string(globals)?;
-    let len = lhs.chars().count();
-    if let Some(arg0) = arg0_val.try_fixnum() {
-        index_assign_by_int(&mut lhs, arg0, arg1_opt, vm, globals, &subst, len)?;
-        *lfp.self_val().as_rstring_inner_mut() = RStringInner::from_string(lhs);
-        Ok(arg_val)
-    } else if let Some(info) = arg0_val.is_range() {
-        let char_len = len;
-        let start_raw = info.start().coerce_to_int_i64(vm, globals)?;
-        let end_raw = info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64;
-        // CRuby: a positive Range begin past `length` raises, but
-        // begin == length is allowed (appends).
-        if start_raw > char_len as i64 {
-            return Err(MonorubyErr::rangeerr(format!(
-                "{}..{} out of range",
-                start_raw, end_raw
-            )));
         }
-        let start_char = match conv_index(start_raw, char_len) {
-            Some(i) => i,
-            None => {
-                return Err(MonorubyErr::rangeerr(format!(
-                    "{}..{} out of range",
-                    start_raw, end_raw
-                )));
-            }
+    } else {
+        let len = match arg1_opt {
+            Some(a1) => match a1.coerce_to_int_i64(vm, globals)? {
+                i if i < 0 => return Err(MonorubyErr::indexerr("negative length")),
+                i => Some(i),
+            },
+            None => None,
         };
-        // For Ranges, a negative end out-of-range with a positive
-        // begin acts as a zero-count delete (no-op append at start).
-        let end_char = if end_raw < 0 {
-            let e = char_len as i64 + end_raw;
-            if e < start_char as i64 {
-                start_char.saturating_sub(1)
-            } else {
-                e as usize
+        match char_part(vm, globals, self_, arg0_val, len)? {
+            Some(r) => (r.start, r.end),
+            None if arg0_val.is_range().is_some() => {
+                return Err(MonorubyErr::rangeerr("range out of range"));
             }
-        } else {
-            end_raw as usize
-        };
-        let byte_start = lhs
-            .char_indices()
-            .nth(start_char)
-            .map(|(i, _)| i)
-            .unwrap_or(lhs.len());
-        let byte_end = if end_char >= start_char {
-            lhs.char_indices()
-                .nth(end_char + 1)
-                .map(|(i, _)| i)
-                .unwrap_or(lhs.len())
-        } else {
-            byte_start
-        };
-        lhs.replace_range(byte_start..byte_end, &subst);
-        *lfp.self_val().as_rstring_inner_mut() = RStringInner::from_string(lhs);
-        Ok(arg_val)
-    } else {
-        let idx = arg0_val.coerce_to_int_i64(vm, globals)?;
-        index_assign_by_int(&mut lhs, idx, arg1_opt, vm, globals, &subst, len)?;
-        *lfp.self_val().as_rstring_inner_mut() = RStringInner::from_string(lhs);
-        Ok(arg_val)
-    }
+            None => return Err(MonorubyErr::indexerr("index out of range")),
+        }
+    };
+    replace_byte_range(globals, self_, start, end, &subst)?;
+    Ok(arg_val)
 }
 
-/// Integer-index assignment (`s[idx] = val` / `s[idx, len] = val`).
-/// Allows the special case `""[0] = "..."` and `s[length] = "..."`
-/// (append) per CRuby.
-fn index_assign_by_int(
-    lhs: &mut String,
-    idx: i64,
-    len_arg: Option<Value>,
+/// The bytes of `recv` that a Range, or an index with an optional
+/// length, stands for in `[]=` and `slice!`, or `None` when they are
+/// out of range. An index by itself stands for one character, or for
+/// none at the very end.
+fn char_part(
     vm: &mut Executor,
     globals: &mut Globals,
-    subst: &str,
-    char_len: usize,
-) -> Result<()> {
-    let start = if idx == char_len as i64 {
-        // Append at end.
-        char_len
+    recv: Value,
+    arg0: Value,
+    len: Option<i64>,
+) -> Result<Option<std::ops::Range<usize>>> {
+    let (start, end) = if let Some(info) = arg0.is_range() {
+        let start = if info.start().is_nil() {
+            0
+        } else {
+            info.start().coerce_to_int_i64(vm, globals)?
+        };
+        let end = if info.end().is_nil() {
+            None
+        } else {
+            Some((
+                info.end().coerce_to_int_i64(vm, globals)?,
+                info.exclude_end(),
+            ))
+        };
+        (start, end)
     } else {
-        match conv_index(idx, char_len) {
-            Some(i) => i,
-            None => return Err(MonorubyErr::indexerr("index out of range")),
-        }
+        (arg0.coerce_to_int_i64(vm, globals)?, None)
     };
-    let byte_start = lhs
-        .char_indices()
-        .nth(start)
-        .map(|(i, _)| i)
-        .unwrap_or(lhs.len());
-    let len = if let Some(arg1) = len_arg {
-        match arg1.coerce_to_int_i64(vm, globals)? {
-            i if i < 0 => return Err(MonorubyErr::indexerr("negative length")),
-            i => i as usize,
-        }
-    } else if len_arg.is_none() && start == char_len {
-        // Single-arg form with index == length: append (length 0).
-        0
+    let inner = recv.as_rstring_inner();
+    let char_len = inner.char_length();
+    let Some(start) = conv_index(start, char_len) else {
+        return Ok(None);
+    };
+    let count = if arg0.is_range().is_some() {
+        // Negative ends count from the length *before* an exclusive end
+        // is taken into account.
+        let end = match end {
+            None => char_len as i64,
+            Some((end, exclude_end)) => {
+                let end = if end < 0 { end + char_len as i64 } else { end };
+                if exclude_end { end } else { end + 1 }
+            }
+        };
+        (end - start as i64).max(0) as usize
     } else {
-        1
+        match len {
+            None => 1,
+            Some(len) if len < 0 => return Ok(None),
+            Some(len) => len as usize,
+        }
     };
-    let byte_end = lhs
-        .char_indices()
-        .nth(start + len)
-        .map(|(i, _)| i)
-        .unwrap_or(lhs.len());
-    lhs.replace_range(byte_start..byte_end, subst);
-    Ok(())
+    Ok(Some(inner.get_range(start, count.min(char_len - start))))
 }
 
 /// Locate the byte range to replace for `s[/regex/] = val` /
@@ -1568,11 +1452,10 @@ fn replace_byte_range(
     mut self_val: Value,
     start: usize,
     end: usize,
-    subst: &str,
+    subst: &RStringInner,
 ) -> Result<()> {
-    let repl = RStringInner::from_str_scanned(subst);
     let inner = self_val.as_rstring_inner_mut();
-    inner.bytesplice_with(start, end - start, &repl, &globals.store)
+    inner.bytesplice_with(start, end - start, subst, &globals.store)
 }
 
 ///
@@ -2391,121 +2274,17 @@ fn split(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 #[monoruby_builtin]
 fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     lfp.self_val().ensure_string_mutable(vm, globals)?;
-    fn slice_sub(lfp: Lfp, mut lhs: String, r: std::ops::Range<usize>) -> Value {
-        let res = Value::string_from_str(&lhs[r.clone()]);
-        lhs.replace_range(r, "");
-        *lfp.self_val().as_rstring_inner_mut() = RStringInner::from_string(lhs);
-        res
-    }
     let self_ = lfp.self_val();
-    // Non-UTF-8 receiver: resolve the character index/range with the
-    // encoding-aware `get_range`, return the removed substring (tagged
-    // with the receiver's encoding) and splice it out byte-wise. Only
-    // the Integer / Integer+len / Range forms (Regexp / String-needle
-    // on non-UTF-8 remain documented follow-ups).
     let arg0 = lfp.arg(0);
-    if !self_.as_rstring_inner().encoding().is_utf8_compatible()
-        && (arg0.try_fixnum().is_some() || arg0.is_range().is_some())
-    {
-        let enc = self_.as_rstring_inner().encoding();
-        let char_len = self_.as_rstring_inner().char_length();
-        let (start, count): (usize, usize) = if let Some(i) = arg0.try_fixnum() {
-            let idx = match conv_index(i, char_len) {
-                Some(i) => i,
-                None => return Ok(Value::nil()),
-            };
-            if let Some(a1) = lfp.try_arg(1) {
-                match a1.coerce_to_int_i64(vm, globals)? {
-                    l if l < 0 => return Ok(Value::nil()),
-                    l => (idx, l as usize),
-                }
-            } else if idx < char_len {
-                (idx, 1)
-            } else {
-                return Ok(Value::nil());
-            }
-        } else {
-            let info = arg0.is_range().unwrap();
-            let s_raw = info.start().coerce_to_int_i64(vm, globals)?;
-            let e_raw = info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64;
-            let start = match conv_index(s_raw, char_len) {
-                Some(i) => i,
-                None => return Ok(Value::nil()),
-            };
-            let end = if e_raw >= 0 {
-                e_raw as usize
-            } else if char_len as i64 + e_raw >= 0 {
-                (char_len as i64 + e_raw) as usize
-            } else {
-                return Ok(Value::nil());
-            };
-            let count = if end >= start { end - start + 1 } else { 0 };
-            (start, count)
-        };
-        let r = self_.as_rstring_inner().get_range(start, count);
-        if r.is_empty() && lfp.try_arg(1).is_none() && arg0.try_fixnum().is_some() {
-            return Ok(Value::nil());
-        }
-        let removed = RStringInner::from_encoding(&self_.as_rstring_inner()[r.clone()], enc);
-        replace_byte_range(globals, self_, r.start, r.end, "")?;
-        return Ok(Value::string_from_inner(removed));
-    }
-    let lhs = self_.expect_string(globals)?;
-    if let Some(i) = lfp.arg(0).try_fixnum() {
-        let index = match conv_index(i, lhs.chars().count()) {
-            Some(i) => i,
-            None => return Ok(Value::nil()),
-        };
-        if let Some(arg1) = lfp.try_arg(1) {
-            let len = match arg1.coerce_to_int_i64(vm, globals)? {
-                i if i < 0 => return Ok(Value::nil()),
-                i => i as usize,
-            };
-            let r = get_range(&lhs, index, len);
-            Ok(slice_sub(lfp, lhs, r))
-        } else {
-            let r = get_range(&lhs, index, 1);
-            if !r.is_empty() {
-                Ok(slice_sub(lfp, lhs, r))
-            } else {
-                Ok(Value::nil())
-            }
-        }
-    } else if let Some(info) = lfp.arg(0).is_range() {
-        let len = lhs.chars().count();
-        let (start, end) = (
-            info.start().coerce_to_int_i64(vm, globals)?,
-            info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64,
-        );
-        let (start, len) = match (
-            conv_index(start, len),
-            if end >= 0 {
-                Some(end as usize)
-            } else if len as i64 + end >= 0 {
-                Some((len as i64 + end) as usize)
-            } else {
-                None
-            },
-        ) {
-            (Some(start), Some(end)) => {
-                if start > end {
-                    (start, 0)
-                } else {
-                    (start, end - start + 1)
-                }
-            }
-            _ => return Ok(Value::nil()),
-        };
-        let r = get_range(&lhs, start, len);
-        Ok(slice_sub(lfp, lhs, r))
-    } else if let Some(info) = lfp.arg(0).is_regex() {
+    let r = if let Some(info) = arg0.is_regex() {
+        let lhs = self_.expect_string(globals)?;
         let nth = if let Some(arg1) = lfp.try_arg(1) {
             arg1.coerce_to_int_i64(vm, globals)?
         } else {
             0
         };
         match info.captures(&lhs, vm)? {
-            None => Ok(Value::nil()),
+            None => return Ok(Value::nil()),
             Some(captures) => {
                 let len = captures.len() as i64;
                 let nth = if nth >= 0 {
@@ -2517,46 +2296,43 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                     }
                 };
                 match captures.get(nth) {
-                    Some(m) => {
-                        let r = m.range();
-                        Ok(slice_sub(lfp, lhs, r))
-                    }
-                    None => Ok(Value::nil()),
+                    Some(m) => m.range(),
+                    None => return Ok(Value::nil()),
                 }
             }
         }
-    } else if let Some(s) = lfp.arg(0).is_str() {
-        // String argument: return the string if it's a substring
-        if let Some(pos) = lhs.find(s) {
-            let end = pos + s.len();
-            Ok(slice_sub(lfp, lhs, pos..end))
-        } else {
-            Ok(Value::nil())
+    } else if let Some(needle) = arg0.is_rstring_inner() {
+        // String argument: cut out its first occurrence.
+        check_pattern_encoding_compat(self_.as_rstring_inner(), arg0, globals)?;
+        match byte_search_fwd(self_.as_rstring_inner(), needle.as_bytes(), 0) {
+            Some(p) => p..p + needle.len(),
+            None => return Ok(Value::nil()),
         }
     } else {
-        // Try to_int coercion
-        let arg0 = lfp.arg(0);
-        let i = arg0.coerce_to_int_i64(vm, globals)?;
-        let index = match conv_index(i, lhs.chars().count()) {
-            Some(i) => i,
-            None => return Ok(Value::nil()),
+        let len = match lfp.try_arg(1) {
+            Some(arg1) => Some(arg1.coerce_to_int_i64(vm, globals)?),
+            None => None,
         };
-        if let Some(arg1) = lfp.try_arg(1) {
-            let len = match arg1.coerce_to_int_i64(vm, globals)? {
-                i if i < 0 => return Ok(Value::nil()),
-                i => i as usize,
-            };
-            let r = get_range(&lhs, index, len);
-            Ok(slice_sub(lfp, lhs, r))
-        } else {
-            let r = get_range(&lhs, index, 1);
-            if !r.is_empty() {
-                Ok(slice_sub(lfp, lhs, r))
-            } else {
-                Ok(Value::nil())
+        match char_part(vm, globals, self_, arg0, len)? {
+            // There is no character at the very end.
+            Some(r) if r.is_empty() && len.is_none() && arg0.is_range().is_none() => {
+                return Ok(Value::nil());
             }
+            Some(r) => r,
+            None => return Ok(Value::nil()),
         }
-    }
+    };
+    let inner = self_.as_rstring_inner();
+    let enc = inner.encoding();
+    let removed = RStringInner::from_encoding_scanned(&inner[r.clone()], enc);
+    replace_byte_range(
+        globals,
+        self_,
+        r.start,
+        r.end,
+        &RStringInner::from_encoding_scanned(b"", enc),
+    )?;
+    Ok(Value::string_from_inner(removed))
 }
 
 /// Compute the new byte-end after `chomp(rs)`. Operates on raw
-- 
2.43.0


From 72dac8e0e1c452a05e9d27bfb3868f522030ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:23 +0000
Subject: [PATCH 078/147] fix: String#[] of no characters keeps the encoding,
 and finds whole characters only

---
 monoruby/src/builtins/string.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 7988595..9208d29 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1030,7 +1030,6 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         };
         if let Some(arg1) = lfp.try_arg(1) {
             let len = match arg1.coerce_to_int_i64(vm, globals)? {
-                0 => return Ok(Value::string_from_str("")),
                 i if i < 0 => return Ok(Value::nil()),
                 i => i as usize,
             };
@@ -1119,11 +1118,8 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         // String argument: return a copy of the matched substring
         // tagged with the *argument's* encoding, matching CRuby
         // (`"abc".force_encoding("US-ASCII")["bc".force_encoding("BINARY")]`
-        // returns a BINARY string). Byte search suffices — the views
-        // keep 8-bit needles byte-aligned with 8-bit haystacks.
-        let given = lhs.regex_view()?;
-        let needle_view = needle.regex_view()?;
-        if given.contains(&*needle_view) {
+        // returns a BINARY string).
+        if byte_search_fwd(lhs, needle.as_bytes(), 0).is_some() {
             Ok(Value::string_from_inner(RStringInner::from_encoding(
                 needle.as_bytes(),
                 needle.encoding(),
-- 
2.43.0


From 9cab5733e54c5e8c7114d956ea7db8a878593fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:23 +0000
Subject: [PATCH 079/147] fix: String#byteslice of a range that ends before the
 start is empty

---
 monoruby/src/builtins/string.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 9208d29..3361513 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -4419,15 +4419,8 @@ fn byteslice(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
             e.min(byte_len)
         } else {
             let idx = byte_len as i64 + end;
-            if idx < 0 {
-                return Ok(Value::nil());
-            }
-            let e = if range.exclude_end() {
-                idx as usize
-            } else {
-                (idx as usize).saturating_add(1)
-            };
-            e.min(byte_len)
+            let e = if range.exclude_end() { idx } else { idx + 1 };
+            (e.max(0) as usize).min(byte_len)
         };
         if start > end {
             return Ok(Value::string_from_inner(RStringInner::from_encoding(
-- 
2.43.0


From a3aee6f2c543b6fd46bd862b991b9019fcc98bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:12 +0000
Subject: [PATCH 080/147] fix: String#bytesplice keeps characters whole in
 every encoding and takes open ranges

---
 monoruby/src/builtins/string.rs | 144 +++++++++-----------------------
 1 file changed, 38 insertions(+), 106 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 3361513..d7bf7ba 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -4503,32 +4503,7 @@ fn bytesplice(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
 
     // Parse target range (index, length) from the first args
     let (start, splice_len) = if let Some(range) = lfp.arg(0).is_range() {
-        let rstart = range.start().coerce_to_int_i64(vm, globals)?;
-        let rend = range.end().coerce_to_int_i64(vm, globals)?;
-        let start = conv_byte_index_for_splice(rstart, byte_len)?;
-        let end = if rend >= 0 {
-            let e = if range.exclude_end() {
-                rend as usize
-            } else {
-                (rend as usize).saturating_add(1)
-            };
-            e.min(byte_len)
-        } else {
-            let idx = byte_len as i64 + rend;
-            if idx < 0 {
-                // Negative end that resolves below 0 means length=0 (insert, no replace)
-                0
-            } else {
-                let e = if range.exclude_end() {
-                    idx as usize
-                } else {
-                    (idx as usize).saturating_add(1)
-                };
-                e.min(byte_len)
-            }
-        };
-        let len = if end > start { end - start } else { 0 };
-        (start, len)
+        byte_range_for_splice(vm, globals, &range, byte_len)?
     } else {
         // index, length form
         if arg_count < 3 {
@@ -4560,41 +4535,14 @@ fn bytesplice(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     let str_bytes = str_inner.as_bytes();
     let str_byte_len = str_bytes.len();
 
-    let replacement = if has_src_range {
+    let (src_start, src_len) = if has_src_range {
         if lfp.arg(0).is_range().is_some() {
             // bytesplice(range, str, str_range)
             let src_range = lfp.arg(str_arg_idx + 1);
             let src_range = src_range.is_range().ok_or_else(|| {
                 MonorubyErr::typeerr("wrong argument type Integer (expected Range)")
             })?;
-            let src_start = src_range.start().coerce_to_int_i64(vm, globals)?;
-            let src_end = src_range.end().coerce_to_int_i64(vm, globals)?;
-            let src_start = conv_byte_index_for_splice(src_start, str_byte_len)?;
-            let src_end_val = if src_end >= 0 {
-                let e = if src_range.exclude_end() {
-                    src_end as usize
-                } else {
-                    (src_end as usize).saturating_add(1)
-                };
-                e.min(str_byte_len)
-            } else {
-                let idx = str_byte_len as i64 + src_end;
-                if idx < 0 {
-                    0
-                } else {
-                    let e = if src_range.exclude_end() {
-                        idx as usize
-                    } else {
-                        (idx as usize).saturating_add(1)
-                    };
-                    e.min(str_byte_len)
-                }
-            };
-            if src_start > src_end_val {
-                &[]
-            } else {
-                &str_bytes[src_start..src_end_val]
-            }
+            byte_range_for_splice(vm, globals, &src_range, str_byte_len)?
         } else {
             // bytesplice(idx, len, str, str_idx, str_len)
             let src_idx = lfp.arg(str_arg_idx + 1).coerce_to_int_i64(vm, globals)?;
@@ -4606,56 +4554,25 @@ fn bytesplice(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
                 )));
             }
             let src_start = conv_byte_index_for_splice(src_idx, str_byte_len)?;
-            let src_splice_len = (src_len as usize).min(str_byte_len - src_start);
-            &str_bytes[src_start..src_start + src_splice_len]
+            (src_start, (src_len as usize).min(str_byte_len - src_start))
         }
     } else {
-        str_bytes
+        (0, str_byte_len)
     };
+    let replacement = &str_bytes[src_start..src_start + src_len];
 
-    // Check character boundary for UTF-8 strings
+    // Both parts start and end between characters.
     let self_enc = self_.as_rstring_inner().encoding();
-    if self_enc.is_utf8_compatible() {
-        let self_bytes = self_.as_rstring_inner().as_bytes();
-        if !is_char_boundary(self_bytes, start) {
-            return Err(MonorubyErr::indexerr(format!(
-                "offset {} does not land on character boundary",
-                start
-            )));
-        }
-        let end = start + splice_len;
-        if !is_char_boundary(self_bytes, end) {
-            return Err(MonorubyErr::indexerr(format!(
-                "offset {} does not land on character boundary",
-                end
-            )));
-        }
-    }
-
-    // Check character boundary for UTF-8 source string
     let str_enc = str_inner.encoding();
-    if str_enc.is_utf8_compatible() && has_src_range {
-        // replacement slice was already extracted from str_bytes,
-        // but we need to verify the offsets used were on char boundaries.
-        // The offsets are relative to str_bytes, so we check using the
-        // replacement pointer offset from str_bytes start.
-        let rep_start = if replacement.is_empty() {
-            0
-        } else {
-            // SAFETY: replacement is a subslice of str_bytes
-            unsafe { replacement.as_ptr().offset_from(str_bytes.as_ptr()) as usize }
-        };
-        let rep_end = rep_start + replacement.len();
-        if !is_char_boundary(str_bytes, rep_start) {
-            return Err(MonorubyErr::indexerr(format!(
-                "offset {} does not land on character boundary",
-                rep_start
-            )));
-        }
-        if !is_char_boundary(str_bytes, rep_end) {
+    for (inner, offset) in [
+        (self_.as_rstring_inner(), start),
+        (self_.as_rstring_inner(), start + splice_len),
+        (str_inner, src_start),
+        (str_inner, src_start + src_len),
+    ] {
+        if !is_enc_char_boundary(inner, offset) {
             return Err(MonorubyErr::indexerr(format!(
-                "offset {} does not land on character boundary",
-                rep_end
+                "offset {offset} does not land on character boundary"
             )));
         }
     }
@@ -4713,14 +4630,29 @@ fn conv_byte_index_for_splice(idx: i64, byte_len: usize) -> Result<usize> {
     }
 }
 
-/// Check if the given byte offset is on a UTF-8 character boundary.
-/// Returns true for offset == bytes.len() (end of string).
-fn is_char_boundary(bytes: &[u8], offset: usize) -> bool {
-    if offset == 0 || offset >= bytes.len() {
-        return true;
-    }
-    // A byte is a char boundary if it's not a UTF-8 continuation byte (0x80..0xBF)
-    !matches!(bytes[offset], 0x80..=0xBF)
+/// The start and length in bytes that `range` stands for in a string of
+/// `byte_len` bytes, raising IndexError if it starts out of bounds.
+fn byte_range_for_splice(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    range: &RangeInner,
+    byte_len: usize,
+) -> Result<(usize, usize)> {
+    let start = if range.start().is_nil() {
+        0
+    } else {
+        range.start().coerce_to_int_i64(vm, globals)?
+    };
+    let end = if range.end().is_nil() {
+        byte_len as i64
+    } else {
+        let end = range.end().coerce_to_int_i64(vm, globals)?;
+        let end = if end < 0 { end + byte_len as i64 } else { end };
+        if range.exclude_end() { end } else { end + 1 }
+    };
+    let start = conv_byte_index_for_splice(start, byte_len)?;
+    let end = (end.max(0) as usize).min(byte_len);
+    Ok((start, end.saturating_sub(start)))
 }
 
 ///
-- 
2.43.0


From 6e6cd579040bad89affaa208aa2233e4b14f3514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:02 +0000
Subject: [PATCH 081/147] fix: Keep every bit when Integer#[] takes a length or
 range past 62 bits

Masks of 63 and 64 bits overflowed, so a negative receiver came back
negative or the subtraction overflowed. Ranges that start below zero or
past bit 63 lost bits of a small receiver, and a huge positive index into
a negative integer answered 0 instead of its sign bit.
---
 monoruby/src/builtins/numeric/integer.rs | 12 +++++++++---
 monoruby/src/executor/op.rs              | 22 ++++++++++------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index e5cb076..6a73b9d 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1368,7 +1368,7 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 if nth < 0 {
                     // Negative nth: shift left by |nth|, then mask
                     let shifted = BigInt::from(base) << (-nth) as usize;
-                    let mask = if len >= 64 {
+                    let mask = if len >= 63 {
                         (BigInt::from(1) << len as usize) - 1
                     } else {
                         BigInt::from((1i64 << len) - 1)
@@ -1380,8 +1380,14 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 } else {
                     base >> nth
                 };
-                let mask = if len >= 64 { -1i64 } else { (1i64 << len) - 1 };
-                Ok(Value::integer(shifted & mask))
+                if len >= 63 && shifted >= 0 {
+                    return Ok(Value::integer(shifted));
+                }
+                if len >= 63 {
+                    let mask = (BigInt::from(1) << len as usize) - 1;
+                    return Ok(Value::bigint(BigInt::from(shifted) & mask));
+                }
+                Ok(Value::integer(shifted & ((1i64 << len) - 1)))
             }
             RV::BigInt(base) => {
                 let shifted = if nth >= 0 {
diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 7d6233f..2d7dc53 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -1050,7 +1050,7 @@ pub(crate) fn integer_index1(
                 RV::Fixnum(b) => {
                     if end <= 0 {
                         0i64
-                    } else if end >= 64 {
+                    } else if end >= 63 {
                         b
                     } else {
                         b & ((1i64 << end) - 1)
@@ -1136,18 +1136,12 @@ pub(crate) fn integer_index1(
                 _ => unreachable!(),
             };
         }
-        // Use BigInt path when width >= 64 since mask won't fit in i64
+        // Use BigInt path when width >= 63 since mask won't fit in i64
         let base_bigint = match base.unpack() {
             RV::Fixnum(base) => {
-                if width < 64 {
+                if width < 63 && start >= 0 {
                     let mask = (1i64 << width) - 1;
-                    return Ok(Value::integer(
-                        (if start >= 0 {
-                            base >> start
-                        } else {
-                            base << -start
-                        }) & mask,
-                    ));
+                    return Ok(Value::integer((base >> start.min(63)) & mask));
                 }
                 BigInt::from(base)
             }
@@ -1175,7 +1169,9 @@ pub(crate) fn integer_index1(
             };
             Ok(Value::integer(val))
         }
-        (RV::Fixnum(_), RV::BigInt(_)) => Ok(Value::integer(0)),
+        (RV::Fixnum(base), RV::BigInt(index)) => Ok(Value::integer(
+            (base.is_negative() && *index > BigInt::ZERO).into(),
+        )),
         (RV::Fixnum(_), _) => Err(MonorubyErr::no_implicit_conversion(
             globals,
             index,
@@ -1189,7 +1185,9 @@ pub(crate) fn integer_index1(
                 Ok(Value::bigint(i))
             }
         }
-        (RV::BigInt(_), RV::BigInt(_)) => Ok(Value::integer(0)),
+        (RV::BigInt(base), RV::BigInt(index)) => Ok(Value::integer(
+            (*base < BigInt::ZERO && *index > BigInt::ZERO).into(),
+        )),
         (RV::BigInt(_), _) => Err(MonorubyErr::no_implicit_conversion(
             globals,
             index,
-- 
2.43.0


From 2771933d10128d316618fc4be9fba97d7629abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:02 +0000
Subject: [PATCH 082/147] fix: Accept big exponents and moduli in Integer#pow

Integer#pow(exp, mod) refused any exponent or modulus that is not a small
integer, and answered 1 instead of 0 for an exponent of 0 and a modulus
of 1 or -1.
---
 monoruby/src/builtins/numeric/integer.rs | 32 +++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index 6a73b9d..12d4bf3 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1548,28 +1548,32 @@ fn pow(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
                 "Integer#pow() 2nd argument not allowed unless all arguments are integers",
             ));
         }
-        let exp_i = exp.coerce_to_int_i64(vm, globals)?;
-        if exp_i < 0 {
+        let to_big = |v: Value| match v.unpack() {
+            RV::Fixnum(i) => BigInt::from(i),
+            RV::BigInt(b) => b.clone(),
+            _ => unreachable!(),
+        };
+        let mut e = to_big(exp);
+        if e < BigInt::ZERO {
             return Err(MonorubyErr::rangeerr(
                 "Integer#pow() 1st argument cannot be negative when 2nd argument specified",
             ));
         }
-        let mod_i = mod_val.coerce_to_int_i64(vm, globals)?;
-        if mod_i == 0 {
+        let modulus = to_big(mod_val);
+        if modulus == BigInt::ZERO {
             return Err(MonorubyErr::divide_by_zero());
         }
         // Modular exponentiation: self**exp % mod
-        let base_big = match lfp.self_val().unpack() {
-            RV::Fixnum(i) => BigInt::from(i),
-            RV::BigInt(b) => b.clone(),
-            _ => unreachable!(),
+        let base_big = to_big(lfp.self_val());
+        let mod_big = if modulus < BigInt::ZERO {
+            -&modulus
+        } else {
+            modulus.clone()
         };
-        let mod_big = BigInt::from(mod_i.abs());
         let mut base = base_big % &mod_big;
-        let mut result = BigInt::from(1);
-        let mut e = exp_i as u64;
-        while e > 0 {
-            if e & 1 == 1 {
+        let mut result = BigInt::from(1) % &mod_big;
+        while e > BigInt::ZERO {
+            if e.bit(0) {
                 result = result * &base % &mod_big;
             }
             base = &base * &base % &mod_big;
@@ -1580,7 +1584,7 @@ fn pow(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         if result < BigInt::ZERO {
             result += &mod_big;
         }
-        if mod_i < 0 && result > BigInt::ZERO {
+        if modulus < BigInt::ZERO && result > BigInt::ZERO {
             result -= &mod_big;
         }
         Ok(Value::bigint(result))
-- 
2.43.0


From 4f13a762a6ccff2177cbb2ddfafb6e7d397fece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:34 +0000
Subject: [PATCH 083/147] fix: Raise 0, 1 and -1 to any integer power

Integer#** refused exponents that do not fit 32 bits even for the bases
whose powers need no room, and cut a large negative exponent of a big
base down to 32 bits, answering a wrong Rational.
---
 monoruby/src/executor/op/binary_ops.rs | 31 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/executor/op/binary_ops.rs b/monoruby/src/executor/op/binary_ops.rs
index fbfed47..d2a44dc 100644
--- a/monoruby/src/executor/op/binary_ops.rs
+++ b/monoruby/src/executor/op/binary_ops.rs
@@ -432,20 +432,21 @@ fn check_pow_limit(base_bits: u64, exp: u64) -> bool {
 }
 
 pub(crate) extern "C" fn pow_ii(lhs: i64, rhs: i64, vm: &mut Executor) -> Option<Value> {
+    // The powers of 0, 1 and -1 need no room, whatever the exponent.
+    match lhs {
+        0 if rhs < 0 => {
+            vm.set_error(MonorubyErr::divide_by_zero());
+            return None;
+        }
+        0 => return Some(Value::integer((rhs == 0).into())),
+        1 => return Some(Value::integer(1)),
+        -1 => return Some(Value::integer(if rhs & 1 == 1 { -1 } else { 1 })),
+        _ => {}
+    }
     if let Ok(rhs) = i32::try_from(rhs) {
         if rhs < 0 {
-            if lhs == 0 {
-                vm.set_error(MonorubyErr::divide_by_zero());
-                return None;
-            }
-            if lhs == 1 {
-                return Some(Value::integer(1));
-            }
-            if lhs == -1 {
-                return Some(Value::integer(if (-rhs) & 1 == 1 { -1 } else { 1 }));
-            }
             // a ** -n = Rational(1, a**n) for |a| > 1
-            let neg_rhs = (-rhs) as u32;
+            let neg_rhs = rhs.unsigned_abs();
             let denom = BigInt::from(lhs).pow(neg_rhs);
             return Some(Value::rational(1, denom));
         }
@@ -530,8 +531,12 @@ pub(crate) extern "C" fn pow_values_raw(
                 } else if *lhs == BigInt::from(-1) {
                     Value::integer(if (-rhs) & 1 == 1 { -1 } else { 1 })
                 } else {
-                    let neg_rhs = (-rhs) as u32;
-                    let denom = lhs.pow(neg_rhs);
+                    let neg_rhs = rhs.unsigned_abs();
+                    if !check_pow_limit(lhs.bits(), neg_rhs) || neg_rhs > u32::MAX as u64 {
+                        vm.set_error(MonorubyErr::exponent_is_too_large());
+                        return None;
+                    }
+                    let denom = lhs.pow(neg_rhs as u32);
                     Value::rational(1, denom)
                 }
             } else {
-- 
2.43.0


From 557a7518adafcc2c015c22e010de1211c51fc8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:39 +0000
Subject: [PATCH 084/147] fix: Compare small integers with floats exactly

Integers beyond 53 bits were converted to a float before comparing, so
(2**61 - 2) == 2.0**61 was true although the same comparison of a larger
integer is exact already.
---
 monoruby/src/builtins/numeric/float.rs   |  4 +-
 monoruby/src/builtins/numeric/integer.rs |  6 ++-
 monoruby/src/executor/op.rs              | 54 +++++++++++++++++++-----
 3 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 4a29117..c46027d 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -489,7 +489,9 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     let rhs = lfp.arg(0);
     let ord = match (lhs.try_float(), rhs.unpack()) {
         (None, _) => unreachable!(),
-        (Some(lhs), RV::Fixnum(rhs)) => lhs.partial_cmp(&(rhs as f64)),
+        (Some(lhs), RV::Fixnum(rhs)) => {
+            super::super::op::fixnum_cmp_float(rhs, lhs).map(|ord| ord.reverse())
+        }
         (Some(lhs), RV::BigInt(rhs)) => {
             super::super::op::bigint_cmp_float(rhs, lhs).map(|ord| ord.reverse())
         }
diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index 12d4bf3..9ab8c36 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -580,7 +580,9 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
     let b = match (lhs.unpack(), rhs.unpack()) {
         (RV::Fixnum(l), RV::Fixnum(r)) => l == r,
         (RV::Fixnum(l), RV::BigInt(r)) => BigInt::from(l) == *r,
-        (RV::Fixnum(l), RV::Float(r)) => (l as f64) == r,
+        (RV::Fixnum(l), RV::Float(r)) => {
+            super::super::op::fixnum_cmp_float(l, r) == Some(std::cmp::Ordering::Equal)
+        }
         (RV::BigInt(l), RV::Fixnum(r)) => *l == BigInt::from(r),
         (RV::BigInt(l), RV::BigInt(r)) => l == r,
         (RV::BigInt(l), RV::Float(r)) => {
@@ -620,7 +622,7 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     let ord = match (lhs.unpack(), rhs.unpack()) {
         (RV::Fixnum(lhs), RV::Fixnum(rhs)) => lhs.cmp(&rhs),
         (RV::Fixnum(lhs), RV::BigInt(rhs)) => BigInt::from(lhs).cmp(rhs),
-        (RV::Fixnum(lhs), RV::Float(rhs)) => match (lhs as f64).partial_cmp(&rhs) {
+        (RV::Fixnum(lhs), RV::Float(rhs)) => match super::super::op::fixnum_cmp_float(lhs, rhs) {
             Some(ord) => ord,
             None => {
                 return Ok(Value::nil());
diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 2d7dc53..6914f3a 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -46,6 +46,16 @@ pub(crate) fn bigint_cmp_float(bigint: &BigInt, f: f64) -> Option<std::cmp::Orde
     }
 }
 
+/// Compare a fixnum with f64 precisely: beyond 53 bits an i64 has no exact
+/// f64 counterpart. Returns None if the float is NaN.
+pub(crate) fn fixnum_cmp_float(i: i64, f: f64) -> Option<std::cmp::Ordering> {
+    if i.unsigned_abs() <= 1 << f64::MANTISSA_DIGITS {
+        (i as f64).partial_cmp(&f)
+    } else {
+        bigint_cmp_float(&BigInt::from(i), f)
+    }
+}
+
 //
 // Generic operations.
 //
@@ -93,7 +103,12 @@ macro_rules! cmp_values {
                 let b = match (lhs.unpack(), rhs.unpack()) {
                     (RV::Fixnum(lhs), RV::Fixnum(rhs)) => lhs.$op(&rhs),
                     (RV::Fixnum(lhs), RV::BigInt(rhs)) => BigInt::from(lhs).$op(&rhs),
-                    (RV::Fixnum(lhs), RV::Float(rhs)) => (lhs as f64).$op(&rhs),
+                    (RV::Fixnum(lhs), RV::Float(rhs)) => {
+                        match fixnum_cmp_float(lhs, rhs) {
+                            Some(ord) => ord.$op(&std::cmp::Ordering::Equal),
+                            None => false, // NaN comparisons are always false
+                        }
+                    }
                     (RV::BigInt(lhs), RV::Fixnum(rhs)) => lhs.$op(&BigInt::from(rhs)),
                     (RV::BigInt(lhs), RV::BigInt(rhs)) => lhs.$op(&rhs),
                     (RV::BigInt(lhs), RV::Float(rhs)) => {
@@ -129,7 +144,12 @@ macro_rules! cmp_values {
                         return None;
                     }
 
-                    (RV::Float(lhs), RV::Fixnum(rhs)) => lhs.$op(&(rhs as f64)),
+                    (RV::Float(lhs), RV::Fixnum(rhs)) => {
+                        match fixnum_cmp_float(rhs, lhs) {
+                            Some(ord) => ord.reverse().$op(&std::cmp::Ordering::Equal),
+                            None => false, // NaN comparisons are always false
+                        }
+                    }
                     (RV::Float(lhs), RV::BigInt(rhs)) => {
                         match bigint_cmp_float(&rhs, lhs) {
                             Some(ord) => ord.reverse().$op(&std::cmp::Ordering::Equal),
@@ -247,7 +267,9 @@ impl Executor {
             (RV::Nil, _) => false,
             (RV::Fixnum(lhs), RV::Fixnum(rhs)) => lhs.eq(&rhs),
             (RV::Fixnum(lhs), RV::BigInt(rhs)) => BigInt::from(lhs).eq(rhs),
-            (RV::Fixnum(lhs), RV::Float(rhs)) => (lhs as f64).eq(&rhs),
+            (RV::Fixnum(lhs), RV::Float(rhs)) => {
+                fixnum_cmp_float(lhs, rhs) == Some(std::cmp::Ordering::Equal)
+            }
             (RV::Fixnum(_), _) => {
                 // Reverse dispatch: try rhs == lhs (boolean-coerced, like
                 // CRuby's num_equal -> rb_equal)
@@ -262,7 +284,9 @@ impl Executor {
                 // Reverse dispatch: try rhs == lhs (boolean-coerced)
                 return Ok(Value::bool(self.invoke_eq(globals, rhs, lhs)?));
             }
-            (RV::Float(lhs), RV::Fixnum(rhs)) => lhs.eq(&(rhs as f64)),
+            (RV::Float(lhs), RV::Fixnum(rhs)) => {
+                fixnum_cmp_float(rhs, lhs) == Some(std::cmp::Ordering::Equal)
+            }
             (RV::Float(lhs), RV::BigInt(rhs)) => {
                 bigint_cmp_float(rhs, lhs) == Some(std::cmp::Ordering::Equal)
             }
@@ -509,7 +533,9 @@ fn cmp_teq_values_impl(
         (RV::Bool(_), _) => false,
         (RV::Fixnum(lhs), RV::Fixnum(rhs)) => lhs.eq(&rhs),
         (RV::Fixnum(lhs), RV::BigInt(rhs)) => BigInt::from(lhs).eq(rhs),
-        (RV::Fixnum(lhs), RV::Float(rhs)) => (lhs as f64).eq(&rhs),
+        (RV::Fixnum(lhs), RV::Float(rhs)) => {
+            fixnum_cmp_float(lhs, rhs) == Some(std::cmp::Ordering::Equal)
+        }
         (RV::Fixnum(_), _) => {
             // Reverse dispatch for Integer === non-numeric
             return vm.invoke_method_simple(globals, IdentId::_EQ, rhs, &[lhs]);
@@ -523,7 +549,9 @@ fn cmp_teq_values_impl(
             // Reverse dispatch for Integer === non-numeric
             return vm.invoke_method_simple(globals, IdentId::_EQ, rhs, &[lhs]);
         }
-        (RV::Float(lhs), RV::Fixnum(rhs)) => lhs.eq(&(rhs as f64)),
+        (RV::Float(lhs), RV::Fixnum(rhs)) => {
+            fixnum_cmp_float(rhs, lhs) == Some(std::cmp::Ordering::Equal)
+        }
         (RV::Float(lhs), RV::BigInt(rhs)) => {
             bigint_cmp_float(rhs, lhs) == Some(std::cmp::Ordering::Equal)
         }
@@ -554,7 +582,9 @@ pub(crate) fn cmp_teq_values_bool(
         (RV::Bool(_), _) => false,
         (RV::Fixnum(lhs), RV::Fixnum(rhs)) => lhs.eq(&rhs),
         (RV::Fixnum(lhs), RV::BigInt(rhs)) => BigInt::from(lhs).eq(rhs),
-        (RV::Fixnum(lhs), RV::Float(rhs)) => (lhs as f64).eq(&rhs),
+        (RV::Fixnum(lhs), RV::Float(rhs)) => {
+            fixnum_cmp_float(lhs, rhs) == Some(std::cmp::Ordering::Equal)
+        }
         (RV::Fixnum(_), _) => {
             // Reverse dispatch: try rhs == lhs
             return vm.invoke_eq(globals, rhs, lhs);
@@ -568,7 +598,9 @@ pub(crate) fn cmp_teq_values_bool(
             // Reverse dispatch: try rhs == lhs
             return vm.invoke_eq(globals, rhs, lhs);
         }
-        (RV::Float(lhs), RV::Fixnum(rhs)) => lhs.eq(&(rhs as f64)),
+        (RV::Float(lhs), RV::Fixnum(rhs)) => {
+            fixnum_cmp_float(rhs, lhs) == Some(std::cmp::Ordering::Equal)
+        }
         (RV::Float(lhs), RV::BigInt(rhs)) => {
             bigint_cmp_float(rhs, lhs) == Some(std::cmp::Ordering::Equal)
         }
@@ -803,13 +835,15 @@ impl Executor {
             (RV::Bool(_), _) => None,
             (RV::Fixnum(lhs), RV::Fixnum(rhs)) => Some(lhs.cmp(&rhs)),
             (RV::Fixnum(lhs), RV::BigInt(rhs)) => Some(BigInt::from(lhs).cmp(rhs)),
-            (RV::Fixnum(lhs), RV::Float(rhs)) => (lhs as f64).partial_cmp(&rhs),
+            (RV::Fixnum(lhs), RV::Float(rhs)) => fixnum_cmp_float(lhs, rhs),
             (RV::Fixnum(_), _) => None,
             (RV::BigInt(lhs), RV::Fixnum(rhs)) => lhs.partial_cmp(&BigInt::from(rhs)),
             (RV::BigInt(lhs), RV::BigInt(rhs)) => Some(lhs.cmp(rhs)),
             (RV::BigInt(lhs), RV::Float(rhs)) => bigint_cmp_float(lhs, rhs),
             (RV::BigInt(_), _) => None,
-            (RV::Float(lhs), RV::Fixnum(rhs)) => lhs.partial_cmp(&(rhs as f64)),
+            (RV::Float(lhs), RV::Fixnum(rhs)) => {
+                fixnum_cmp_float(rhs, lhs).map(|ord| ord.reverse())
+            }
             (RV::Float(lhs), RV::BigInt(rhs)) => {
                 bigint_cmp_float(rhs, lhs).map(|ord| ord.reverse())
             }
-- 
2.43.0


From 69e2b8eb0f2c35242486c97cdb54d086aead545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:39 +0000
Subject: [PATCH 085/147] fix: Keep 2**-255 apart from 0.0

The float with the bits 0x3000000000000000 packs into the very word that
stands for 0.0, so the number turned into zero. It is kept on the heap now.
---
 monoruby/src/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index 6b38de0..fdd8237 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -3420,7 +3420,8 @@ impl Immediate {
         }
         let unum = f64::to_bits(num);
         let exp = ((unum >> 60) & 0b111) + 1;
-        if (exp & 0b0110) == 0b0100 {
+        // 2**-255 would be packed into the word that stands for 0.0.
+        if (exp & 0b0110) == 0b0100 && unum != 0x3000_0000_0000_0000 {
             Some(unsafe { Self::from_u64_unchecked(((unum.rotate_left(3)) & !1) | 2) })
         } else {
             None
-- 
2.43.0


From 352dbc95646886cb9038fba92ef93d448b6a041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:39 +0000
Subject: [PATCH 086/147] fix: Write floats of 16 whole digits without an
 exponent

Float#to_s switched to scientific notation one digit early: 1e15 was
written as 1.0e+15 instead of 1000000000000000.0.
---
 monoruby/src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index fdd8237..e1ad99c 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -38,7 +38,7 @@ pub const FLOAT_ZERO: u64 = (0b1000 << 60) | 0b10;
 /// and then reformats to match CRuby's conventions:
 /// - Special values: "NaN", "Infinity", "-Infinity"
 /// - Preserves `-0.0`
-/// - Scientific notation when decimal exponent >= 15 or <= -5
+/// - Scientific notation when decimal exponent >= 16 or <= -5
 /// - Scientific exponent always includes sign and at least two digits (`e+02`, `e-05`)
 pub fn ruby_float_to_s(f: f64) -> String {
     if f.is_nan() {
@@ -98,7 +98,7 @@ pub fn ruby_float_to_s(f: f64) -> String {
 
     let ndigits = digits.len() as i32;
 
-    if decpt > 0 && decpt <= 15 {
+    if decpt > 0 && decpt <= 16 {
         // Fixed notation: decimal point is within range
         if decpt >= ndigits {
             // All significant digits before decimal point, pad with zeros
-- 
2.43.0


From c5daabac9763d89d7ed5464e0a930a254a3dc2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:21 +0000
Subject: [PATCH 087/147] fix: Let the quotient of Float#divmod fit its
 remainder

The quotient was the rounded division cut to a whole number, so
1.0.divmod(0.1) gave [10, 0.0999...] and large quotients stuck at the
limits of a 64 bit integer. An infinite divisor of the other sign gave 0
instead of -1.
---
 monoruby/src/value/numeric.rs | 38 ++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/monoruby/src/value/numeric.rs b/monoruby/src/value/numeric.rs
index 67d9af4..6fbfaf3 100644
--- a/monoruby/src/value/numeric.rs
+++ b/monoruby/src/value/numeric.rs
@@ -312,8 +312,8 @@ impl RubyDivMod for RealKind {
                 (RealKind::BigInt(d), RealKind::BigInt(m))
             }
             (RealKind::Integer(a), RealKind::Float(b)) => {
-                let (d, m) = (((*a as f64) / b).floor() as i64, (*a as f64).ruby_mod(b));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = (*a as f64).ruby_div_mod(b);
+                (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::BigInt(a), RealKind::Integer(b)) => {
                 let (d, m) = a.ruby_div_mod(&BigInt::from(*b));
@@ -324,26 +324,20 @@ impl RubyDivMod for RealKind {
                 (RealKind::BigInt(d), RealKind::BigInt(m))
             }
             (RealKind::BigInt(a), RealKind::Float(b)) => {
-                let (d, m) = (
-                    (a.to_f64().unwrap() / b).floor(),
-                    a.to_f64().unwrap().ruby_mod(b),
-                );
+                let (d, m) = a.to_f64().unwrap().ruby_div_mod(b);
                 (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::Integer(b)) => {
-                let (d, m) = ((a / (*b as f64)).floor() as i64, a.ruby_mod(&(*b as f64)));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = a.ruby_div_mod(&(*b as f64));
+                (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::BigInt(b)) => {
-                let (d, m) = (
-                    (a / b.to_f64().unwrap()).floor(),
-                    a.ruby_mod(&b.to_f64().unwrap()),
-                );
+                let (d, m) = a.ruby_div_mod(&b.to_f64().unwrap());
                 (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::Float(b)) => {
-                let (d, m) = ((a / b).floor() as i64, a.ruby_mod(b));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = a.ruby_div_mod(b);
+                (RealKind::Float(d), RealKind::Float(m))
             }
         }
     }
@@ -575,11 +569,19 @@ impl RubyDivMod for f64 {
     type Output = (f64, f64);
     #[inline]
     fn ruby_div_mod(&self, rhs: &f64) -> Self::Output {
-        let div = (self / rhs).floor();
-        let modulo = if *self > 0.0 && *rhs < 0.0 || *self < 0.0 && *rhs > 0.0 {
-            *self % *rhs + *rhs
+        // The quotient follows from the remainder: self / rhs alone may be
+        // rounded up to the next whole number.
+        let rem = *self % *rhs;
+        let modulo = self.ruby_mod(rhs);
+        let div = if rhs.is_infinite() {
+            0.0
         } else {
-            *self % *rhs
+            ((self - rem) / rhs).round()
+        };
+        let div = if rem == 0.0 || (rem < 0.0) == (*rhs < 0.0) {
+            div
+        } else {
+            div - 1.0
         };
         (div, modulo)
     }
-- 
2.43.0


From 7c6840ce15b07a0db0170a0dd60f3d93be825b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:21 +0000
Subject: [PATCH 088/147] fix: Keep digits that a float has when flooring and
 ceiling to decimals

Scaling by a power of ten may step past a whole number, so 0.017.ceil(5)
gave 0.01701, and it may overflow, so 1e300.floor(20) gave Infinity.
---
 monoruby/src/builtins/numeric/float.rs | 47 +++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index c46027d..540f599 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -617,9 +617,7 @@ fn floor(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     }
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
-            let mul = 10f64.powi(ndigits as i32);
-            let f = (f * mul).floor() / mul;
-            Ok(Value::float(f))
+            Ok(Value::float(floor_to_digits(f, ndigits)))
         } else {
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
         }
@@ -679,9 +677,7 @@ fn ceil(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     }
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
-            let mul = 10f64.powi(ndigits as i32);
-            let f = (f * mul).ceil() / mul;
-            Ok(Value::float(f))
+            Ok(Value::float(ceil_to_digits(f, ndigits)))
         } else {
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
         }
@@ -741,8 +737,11 @@ fn truncate(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     }
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
-            let mul = 10f64.powi(ndigits as i32);
-            let f = (f * mul).trunc() / mul;
+            let f = if f < 0.0 {
+                ceil_to_digits(f, ndigits)
+            } else {
+                floor_to_digits(f, ndigits)
+            };
             Ok(Value::float(f))
         } else {
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
@@ -890,6 +889,38 @@ fn round(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     }
 }
 
+/// The scaled value of `f` with `ndigits` digits moved in front of the decimal
+/// point and the scale, or None if `f` has no digits beyond them.
+fn scale_digits(f: f64, ndigits: u32) -> Option<(f64, f64)> {
+    let mul = 10f64.powi(ndigits.min(400) as i32);
+    let scaled = f * mul;
+    if scaled.abs() < (1u64 << f64::MANTISSA_DIGITS) as f64 {
+        Some((scaled, mul))
+    } else {
+        None
+    }
+}
+
+/// The largest decimal of `ndigits` digits that is not above `f`.
+fn floor_to_digits(f: f64, ndigits: u32) -> f64 {
+    let Some((scaled, mul)) = scale_digits(f, ndigits) else {
+        return f;
+    };
+    // The multiplication may have rounded down past a whole number.
+    let next = (scaled.floor() + 1.0) / mul;
+    if next > f { scaled.floor() / mul } else { next }
+}
+
+/// The smallest decimal of `ndigits` digits that is not below `f`.
+fn ceil_to_digits(f: f64, ndigits: u32) -> f64 {
+    let Some((scaled, mul)) = scale_digits(f, ndigits) else {
+        return f;
+    };
+    // The multiplication may have rounded up past a whole number.
+    let prev = (scaled.ceil() - 1.0) / mul;
+    if prev < f { scaled.ceil() / mul } else { prev }
+}
+
 /// Parse the `half:` keyword argument for rounding mode.
 pub(super) fn parse_half_mode(v: Value) -> Result<Option<RoundHalf>> {
     if v.is_nil() {
-- 
2.43.0


From 88b5eda6e73e25b18405c58e6d2e7f3e77299339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:21 +0000
Subject: [PATCH 089/147] fix: Truncate floats to tens, hundreds, ... exactly

Float#truncate with negative digits went through float division and
multiplication, unlike floor, ceil and round, and lost digits of large
floats.
---
 monoruby/src/builtins/numeric/float.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 540f599..343ec18 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -748,15 +748,16 @@ fn truncate(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         }
     } else {
         if let Ok(neg_ndigits) = u32::try_from(-ndigits) {
-            let mul = 10f64.powi(neg_ndigits as i32);
-            let f = (f / mul).trunc() * mul;
-            if let Some(v) = Value::integer_from_f64(f) {
-                return Ok(v);
-            } else {
-                return Err(MonorubyErr::rangeerr(format!(
-                    "[unreachable] invalid f64: {f}"
-                )));
+            if neg_ndigits > 308 {
+                return Ok(Value::integer(0));
             }
+            // Use BigInt to avoid precision loss from float division.
+            let int_val = match BigInt::from_f64(f.trunc()) {
+                Some(v) => v,
+                None => return Ok(Value::integer(0)),
+            };
+            let mul_big = BigInt::from(10u64).pow(neg_ndigits);
+            return Ok(Value::bigint(int_val / &mul_big * mul_big));
         }
         Err(MonorubyErr::rangeerr("too small to convert to u32"))
     }
-- 
2.43.0


From 39569a8c52f8ff7cc3c6b255188e0eba8adfe05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:21 +0000
Subject: [PATCH 090/147] fix: Round floats up from the middle as it reads in
 decimal

5.015.round(2) gave 5.01 because 5.015 * 100 is slightly below 501.5,
although 5.015 is the float nearest to the middle. Rounding to more digits
than a float has could also change its last bit.
---
 monoruby/src/builtins/numeric/float.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 343ec18..ccdacb9 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -813,8 +813,9 @@ fn round(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             return Ok(Value::float(f));
         }
         let scaled = f * mul;
-        if scaled.is_infinite() || scaled.is_nan() {
-            // f * 10^ndigits overflows — rounding is a no-op
+        if !(scaled.abs() < (1u64 << f64::MANTISSA_DIGITS) as f64) {
+            // f * 10^ndigits overflows or f has no digits beyond them —
+            // rounding is a no-op
             return Ok(Value::float(f));
         }
         // Check if the scaled value appears to be exactly at a halfway point.
@@ -833,8 +834,16 @@ fn round(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         } else {
             half
         };
-        let f = round_half(scaled, effective_half) / mul;
-        Ok(Value::float(f))
+        let mut rounded = round_half(scaled, effective_half);
+        // The multiplication may have rounded a middle to below it.
+        if scaled.abs() != scaled.abs().floor() + 0.5 {
+            if f > 0.0 && (rounded + 0.5) / mul <= f {
+                rounded += 1.0;
+            } else if f < 0.0 && (rounded - 0.5) / mul >= f {
+                rounded -= 1.0;
+            }
+        }
+        Ok(Value::float(rounded / mul))
     } else {
         let neg_ndigits = (-ndigits) as u32;
         if neg_ndigits > 308 {
@@ -963,8 +972,7 @@ fn round_half(f: f64, half: Option<RoundHalf>) -> f64 {
         }
         Some(RoundHalf::Even) => {
             // :even - round to nearest even
-            let f_floor = floor as i64;
-            if f_floor % 2 == 0 { floor } else { ceil }
+            if floor % 2.0 == 0.0 { floor } else { ceil }
         }
         _ => {
             // :up (default) - round away from zero
-- 
2.43.0


From 4ec1fc9c68936a898698e70658d0c58232f09a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:21 +0000
Subject: [PATCH 091/147] fix: Finish Float#rationalize for floats beyond 2**54

The width of the error margin turned negative and was then taken as a
huge unsigned number of bits.
---
 monoruby/src/builtins/numeric/float.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index ccdacb9..60efef6 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -308,7 +308,12 @@ fn float_rationalize(
             }
         };
         // eps = 1 / 2^(MANTISSA_DIGITS - exp + 1)
-        let shift = (f64::MANTISSA_DIGITS as i32 - exp + 1) as u32;
+        let shift = f64::MANTISSA_DIGITS as i32 - exp + 1;
+        if shift <= 1 {
+            // Every float this large is a whole number.
+            return Ok(Value::rational_from_inner(exact));
+        }
+        let shift = shift as u32;
         let eps = RationalInner::new(1, BigInt::from(1u64) << shift);
         Ok(Value::rational_from_inner(RationalInner::find_simplest(
             &exact, &eps,
-- 
2.43.0


From e9b776d432e07dfc57d697b9173d38070a778e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:25 +0000
Subject: [PATCH 092/147] fix: Let Rational#!= agree with == for big integers

Rational(10**20) != 10**20 was true.
---
 monoruby/src/builtins/numeric/rational.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/numeric/rational.rs b/monoruby/src/builtins/numeric/rational.rs
index f8d34db..d028b0b 100644
--- a/monoruby/src/builtins/numeric/rational.rs
+++ b/monoruby/src/builtins/numeric/rational.rs
@@ -153,6 +153,9 @@ fn ne(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         RV::Fixnum(i) => Ok(Value::bool(
             !(lhs.den() == &BigInt::from(1) && lhs.num() == &BigInt::from(i)),
         )),
+        RV::BigInt(b) => Ok(Value::bool(
+            !(lhs.den() == &BigInt::from(1) && lhs.num() == b),
+        )),
         RV::Float(f) => Ok(Value::bool(lhs.to_f() != f)),
         _ => Ok(Value::bool(true)),
     }
-- 
2.43.0


From e98a6a305ba01eb937088b690053a890a95fca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:25 +0000
Subject: [PATCH 093/147] fix: Refuse exponents of rationals beyond 32 bits

Only the low 32 bits of the exponent were used, so Rational(2) ** 2**32
was 1.
---
 monoruby/src/builtins/numeric/rational.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/numeric/rational.rs b/monoruby/src/builtins/numeric/rational.rs
index d028b0b..ead0c89 100644
--- a/monoruby/src/builtins/numeric/rational.rs
+++ b/monoruby/src/builtins/numeric/rational.rs
@@ -445,20 +445,18 @@ fn pow_by_integer(lhs: &RationalInner, exp: &BigInt) -> Result<Value> {
         let result = if is_even { 1 } else { -1 };
         return Ok(Value::rational(result, 1));
     }
-    // Exponent must fit in i64 for finite computation.
-    let exp_i64 = match exp.to_i64() {
+    // Exponent must fit in u32 for finite computation.
+    let e = match exp.magnitude().to_u32() {
         Some(n) => n,
         None => {
             return Err(MonorubyErr::argumenterr("exponent is too large"));
         }
     };
-    if exp_i64 >= 0 {
-        let e = exp_i64 as u32;
+    if exp.sign() == Sign::Plus {
         let n = lhs.num().pow(e);
         let d = lhs.den().pow(e);
         Ok(Value::rational(n, d))
     } else {
-        let e = (-exp_i64) as u32;
         let n = lhs.den().pow(e);
         let d = lhs.num().pow(e);
         Ok(Value::rational(n, d))
-- 
2.43.0


From e4318599a71da20dab3196c0df7c2f3e7281a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:25 +0000
Subject: [PATCH 094/147] fix: Round negative rationals to the nearest integer

Rational(-3, 4).round was 0: past the middle a negative number was rounded
towards zero.
---
 monoruby/src/value/rvalue/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 0d8698c..f1d4447 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -273,7 +273,7 @@ impl RationalInner {
             let abs_doubled = doubled.abs();
             let abs_den = self.den.abs();
             let result = if abs_doubled > abs_den {
-                if self.num >= BigInt::ZERO { q + 1 } else { q }
+                if self.num >= BigInt::ZERO { q + 1 } else { q - 1 }
             } else if abs_doubled < abs_den {
                 if self.num >= BigInt::ZERO { q } else { q }
             } else {
-- 
2.43.0


From 1f426ddf1840fd85dd0fd1370f8e3d8c57dbd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:25 +0000
Subject: [PATCH 095/147] fix: Look at the fraction when rounding rationals to
 tens, hundreds, ...

Rational#floor, ceil and round with negative digits dropped the fraction
first: Rational(1, 2).ceil(-1) was 0 and Rational(-1, 2).floor(-1) was 0.
---
 monoruby/src/value/rvalue/rational.rs | 51 ++++++---------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index f1d4447..cc7bb95 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -206,8 +206,8 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(floored, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            RationalFloorResult::Integer(num::integer::Integer::div_floor(&i, &d) * &d)
+            let den = &self.den * &d;
+            RationalFloorResult::Integer(num::integer::Integer::div_floor(&self.num, &den) * &d)
         }
     }
 
@@ -230,10 +230,10 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(ceiled, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // ceil = -floor(-i, d)
-            let neg_i = -&i;
-            let floored = num::integer::Integer::div_floor(&neg_i, &d);
+            let den = &self.den * &d;
+            // ceil = -floor(-self, d)
+            let neg_num = -self.num.clone();
+            let floored = num::integer::Integer::div_floor(&neg_num, &den);
             RationalFloorResult::Integer(-floored * &d)
         }
     }
@@ -313,41 +313,12 @@ impl RationalInner {
             }
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // Round the integer at the given digit position
-            let (q, r) = num::integer::Integer::div_rem(&i, &d);
-            let doubled = &r * BigInt::from(2);
-            let abs_doubled = doubled.abs();
-            let result = if abs_doubled > d.abs() {
-                if i >= BigInt::ZERO {
-                    (q + 1) * &d
-                } else {
-                    (q - 1) * &d
-                }
-            } else if abs_doubled < d.abs() {
-                q * &d
+            let scaled = Self::new(self.num.clone(), &self.den * &d);
+            if let RationalFloorResult::Integer(rounded) = scaled.rational_round(0, half) {
+                RationalFloorResult::Integer(rounded * &d)
             } else {
-                match half {
-                    Some(crate::value::RoundHalf::Down) => q * &d,
-                    Some(crate::value::RoundHalf::Even) => {
-                        if (&q % 2u32).is_zero() {
-                            q * &d
-                        } else if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                    _ => {
-                        if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                }
-            };
-            RationalFloorResult::Integer(result)
+                unreachable!()
+            }
         }
     }
 
-- 
2.43.0


From 01a546aa049f3e78c20e1b023ce843646f77c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:22:37 +0000
Subject: [PATCH 096/147] fix: refuse array indices and sizes too large for
 memory instead of panicking

---
 monoruby/src/builtins/array.rs     | 26 ++++++++++++++++++--------
 monoruby/src/value/rvalue/array.rs | 14 ++++++++++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 81804db..90f0dc4 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -752,9 +752,7 @@ fn mul(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         if v < 0 {
             return Err(MonorubyErr::negative_argument());
         }
-        let rhs = v as usize;
-        let vec = lhs.repeat(rhs);
-        Ok(Value::array_from_vec(vec))
+        repeat_elements(lhs, v as usize)
     } else if let Some(inner) = arg.is_rstring_inner() {
         let sep_bytes = inner.as_bytes().to_vec();
         let sep_enc = inner.encoding();
@@ -809,9 +807,16 @@ fn mul(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         if v < 0 {
             return Err(MonorubyErr::negative_argument());
         }
-        let rhs = v as usize;
-        let vec = lhs.repeat(rhs);
-        Ok(Value::array_from_vec(vec))
+        repeat_elements(lhs, v as usize)
+    }
+}
+
+fn repeat_elements(ary: Array, times: usize) -> Result<Value> {
+    match ary.len().checked_mul(times) {
+        Some(len) if len <= crate::value::ARRAY_MAX_LEN => {
+            Ok(Value::array_from_vec(ary.repeat(times)))
+        }
+        _ => Err(MonorubyErr::argumenterr("argument too big")),
     }
 }
 
@@ -1348,7 +1353,11 @@ fn index_assign(
             } else {
                 let e = range.end().coerce_to_int_i64(vm, globals)?;
                 let e = if e < 0 { e + ary.len() as i64 } else { e };
-                let e = if range.exclude_end() { e } else { e + 1 };
+                let e = if range.exclude_end() {
+                    e
+                } else {
+                    e.saturating_add(1)
+                };
                 usize::try_from(e - start as i64).ok()
             };
             if let Some(len) = len {
@@ -1750,7 +1759,7 @@ fn fill_range_indices(
         if range.exclude_end() {
             end_val
         } else {
-            end_val + 1
+            end_val.saturating_add(1)
         }
     };
     if end_idx < start {
@@ -4773,6 +4782,7 @@ fn insert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     } else {
         nth as usize
     };
+    crate::value::check_array_index(nth, val.len())?;
     if nth >= ary.len() {
         ary.resize(nth, Value::nil());
     }
diff --git a/monoruby/src/value/rvalue/array.rs b/monoruby/src/value/rvalue/array.rs
index c5f8dea..bdf88cc 100644
--- a/monoruby/src/value/rvalue/array.rs
+++ b/monoruby/src/value/rvalue/array.rs
@@ -318,6 +318,17 @@ impl ArrayInner {
     }
 }
 
+/// The number of elements no array can exceed.
+pub(crate) const ARRAY_MAX_LEN: usize = isize::MAX as usize / std::mem::size_of::<Value>();
+
+/// `IndexError` unless `added` elements can be stored from `index` on.
+pub(crate) fn check_array_index(index: usize, added: usize) -> Result<()> {
+    match index.checked_add(added) {
+        Some(len) if len <= ARRAY_MAX_LEN => Ok(()),
+        _ => Err(MonorubyErr::indexerr(format!("index {index} too big"))),
+    }
+}
+
 impl ArrayInner {
     pub(crate) fn set_index(&mut self, idx: i64, src: Value) -> Result<Value> {
         if idx >= 0 {
@@ -325,6 +336,7 @@ impl ArrayInner {
                 Some(v) => *v = src,
                 None => {
                     let idx = idx as usize;
+                    check_array_index(idx, 1)?;
                     self.resize(idx, Value::nil());
                     self.push(src);
                 }
@@ -354,6 +366,7 @@ impl ArrayInner {
                     &ary[..]
                 };
                 let ary_len = ary_slice.len();
+                check_array_index(index, ary_len)?;
                 if index >= len || index + length > len {
                     self.resize(index + ary_len, Value::nil());
                 } else if ary_len > length {
@@ -367,6 +380,7 @@ impl ArrayInner {
             }
             None => {
                 if index >= len {
+                    check_array_index(index, 1)?;
                     self.resize(index + 1, Value::nil());
                 } else if length == 0 {
                     self.push(Value::nil());
-- 
2.43.0


From 2d1c097a4bb9bf5a2470587be5de4d2fc604b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:22:57 +0000
Subject: [PATCH 097/147] fix: give nil for Array#slice! with a range that
 starts beyond the end

---
 monoruby/src/builtins/array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 90f0dc4..164317f 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3987,6 +3987,9 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 None => return Ok(Value::nil()),
             }
         };
+        if start > ary.len() {
+            return Ok(Value::nil());
+        }
         // nil end means array length (endless range)
         let end = if range.end().is_nil() {
             ary.len().saturating_sub(1)
-- 
2.43.0


From 440928b6b52863796ffe8ed1f883fee45c231f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:10 +0000
Subject: [PATCH 098/147] fix: keep the length of an assigned array range from
 overflowing

---
 monoruby/src/builtins/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 164317f..dff6b44 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1358,7 +1358,7 @@ fn index_assign(
                 } else {
                     e.saturating_add(1)
                 };
-                usize::try_from(e - start as i64).ok()
+                usize::try_from(e.saturating_sub(start as i64)).ok()
             };
             if let Some(len) = len {
                 ary.set_index2(start, len, val)
-- 
2.43.0


From bb8f4fae277173f7dfadd908f27db946d426fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:39 +0000
Subject: [PATCH 099/147] fix: refuse to transpose rows of different length
 when the first is empty

---
 monoruby/src/builtins/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index dff6b44..a049ae9 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3555,13 +3555,13 @@ fn transpose(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         .map(|v| coerce_to_array_for_transpose(vm, globals, *v))
         .collect::<Result<_>>()?;
     let len = rows[0].len();
+    if rows.iter().any(|row| row.len() != len) {
+        return Err(MonorubyErr::indexerr("Element size differs."));
+    }
     let mut trans = Array::new_empty();
     for i in 0..len {
         let mut temp = Array::new_empty();
         for row in &rows {
-            if row.len() != len {
-                return Err(MonorubyErr::indexerr("Element size differs."));
-            }
             temp.push(row[i]);
         }
         trans.push(temp.into());
-- 
2.43.0


From 4eb0ab9ce737d176c06398ad4168c88d88b4ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:19 +0000
Subject: [PATCH 100/147] fix: order values by whatever number <=> gives, and
 numbers with other kinds of numbers

---
 monoruby/src/executor/op.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 6914f3a..a0ef603 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -836,11 +836,9 @@ impl Executor {
             (RV::Fixnum(lhs), RV::Fixnum(rhs)) => Some(lhs.cmp(&rhs)),
             (RV::Fixnum(lhs), RV::BigInt(rhs)) => Some(BigInt::from(lhs).cmp(rhs)),
             (RV::Fixnum(lhs), RV::Float(rhs)) => fixnum_cmp_float(lhs, rhs),
-            (RV::Fixnum(_), _) => None,
             (RV::BigInt(lhs), RV::Fixnum(rhs)) => lhs.partial_cmp(&BigInt::from(rhs)),
             (RV::BigInt(lhs), RV::BigInt(rhs)) => Some(lhs.cmp(rhs)),
             (RV::BigInt(lhs), RV::Float(rhs)) => bigint_cmp_float(lhs, rhs),
-            (RV::BigInt(_), _) => None,
             (RV::Float(lhs), RV::Fixnum(rhs)) => {
                 fixnum_cmp_float(rhs, lhs).map(|ord| ord.reverse())
             }
@@ -848,20 +846,13 @@ impl Executor {
                 bigint_cmp_float(rhs, lhs).map(|ord| ord.reverse())
             }
             (RV::Float(lhs), RV::Float(rhs)) => lhs.partial_cmp(&rhs),
-            (RV::Float(_), _) => None,
             _ => {
-                if let Some(i) = self
-                    .invoke_method_inner(globals, IdentId::_CMP, lhs, &[rhs], None, None)?
-                    .try_fixnum()
-                {
-                    match i {
-                        -1 => Some(std::cmp::Ordering::Less),
-                        0 => Some(std::cmp::Ordering::Equal),
-                        1 => Some(std::cmp::Ordering::Greater),
-                        _ => None,
-                    }
-                } else {
+                let res =
+                    self.invoke_method_inner(globals, IdentId::_CMP, lhs, &[rhs], None, None)?;
+                if res.is_nil() {
                     None
+                } else {
+                    Some(self.cmpint(globals, res, lhs, rhs)?)
                 }
             }
         };
-- 
2.43.0


From acca14155441405045134c02e01076fc9e9fbf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:07 +0000
Subject: [PATCH 101/147] fix: compare and hash arrays whose elements change
 them meanwhile

---
 monoruby/src/builtins/array.rs | 28 ++++++++++++++++++----------
 monoruby/src/value.rs          | 31 +++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index a049ae9..e91b203 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1113,12 +1113,15 @@ fn eql(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         self_val.id(),
         arg.id(),
         || {
-            for i in 0..lhs.len() {
-                if !lhs[i].eql(&rhs[i], vm, globals)? {
+            // `eql?` may be Ruby code that changes either array.
+            let mut i = 0;
+            while let (Some(l), Some(r)) = (lhs.get(i).copied(), rhs.get(i).copied()) {
+                if !l.eql(&r, vm, globals)? {
                     return Ok(Value::bool(false));
                 }
+                i += 1;
             }
-            Ok(Value::bool(true))
+            Ok(Value::bool(lhs.len() == rhs.len()))
         },
         Value::bool(true),
     )
@@ -1162,17 +1165,20 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
         self_val.id(),
         arg.id(),
         || {
-            for i in 0..lhs.len() {
+            // `==` may be Ruby code that changes either array.
+            let mut i = 0;
+            while let (Some(l), Some(r)) = (lhs.get(i).copied(), rhs.get(i).copied()) {
+                i += 1;
                 // CRuby first checks #equal? (identity), which makes
                 // [NaN] == [NaN] true since NaN.equal?(NaN) is true.
-                if lhs[i].id() == rhs[i].id() {
+                if l.id() == r.id() {
                     continue;
                 }
-                if vm.ne_values_bool(globals, lhs[i], rhs[i])? {
+                if vm.ne_values_bool(globals, l, r)? {
                     return Ok(Value::bool(false));
                 }
             }
-            Ok(Value::bool(true))
+            Ok(Value::bool(lhs.len() == rhs.len()))
         },
         Value::bool(true),
     )
@@ -1205,21 +1211,23 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         self_val.id(),
         arg.id(),
         || {
-            for (i, lhs) in lhs.iter().enumerate() {
-                if let Some(rhs) = rhs.get(i) {
+            let mut i = 0;
+            while let Some(l) = lhs.get(i).copied() {
+                if let Some(r) = rhs.get(i).copied() {
                     // Compare each pair with the element's own `<=>` and
                     // return the *raw* result of the first pair that isn't
                     // exactly the Fixnum `0` — CRuby returns whatever the
                     // element comparison produced (`nil`, `±1`, or even a
                     // non-Integer like a String), not a normalized value.
                     let res =
-                        vm.invoke_method_inner(globals, IdentId::_CMP, *lhs, &[*rhs], None, None)?;
+                        vm.invoke_method_inner(globals, IdentId::_CMP, l, &[r], None, None)?;
                     if res.try_fixnum() != Some(0) {
                         return Ok(res);
                     }
                 } else {
                     return Ok(Value::integer(Ordering::Greater as i64));
                 }
+                i += 1;
             }
             if rhs.len() > lhs.len() {
                 return Ok(Value::integer(Ordering::Less as i64));
diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index e1ad99c..7984e17 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -426,7 +426,20 @@ impl RubyHash<Executor, Globals, MonorubyErr> for Value {
                             return Ok(());
                         }
                         let result = match lhs.ty() {
-                            ObjTy::ARRAY => lhs.as_array().ruby_hash(state, e, g),
+                            ObjTy::ARRAY => {
+                                // `hash` may be Ruby code that changes the array.
+                                let ary = self.as_array();
+                                let mut i = 0;
+                                loop {
+                                    let Some(v) = ary.get(i).copied() else {
+                                        break Ok(());
+                                    };
+                                    if let Err(err) = v.ruby_hash(state, e, g) {
+                                        break Err(err);
+                                    }
+                                    i += 1;
+                                }
+                            }
                             _ => lhs.as_hashmap().ruby_hash(state, e, g),
                         };
                         HASH_RECURSION_GUARD.with(|guard| guard.borrow_mut().remove(&id));
@@ -491,8 +504,8 @@ impl RubyEql<Executor, Globals, MonorubyErr> for Value {
                         }
                         (ObjTy::STRING, ObjTy::STRING) => lhs.as_rstring() == rhs.as_rstring(),
                         (ObjTy::ARRAY, ObjTy::ARRAY) => {
-                            let lhs_ary = lhs.as_array();
-                            let rhs_ary = rhs.as_array();
+                            let lhs_ary = self.as_array();
+                            let rhs_ary = other.as_array();
                             if lhs_ary.len() != rhs_ary.len() {
                                 return Ok(false);
                             }
@@ -502,12 +515,18 @@ impl RubyEql<Executor, Globals, MonorubyErr> for Value {
                                 l,
                                 r,
                                 || {
-                                    for (a1, a2) in lhs_ary.iter().zip(rhs_ary.iter()) {
-                                        if !a1.eql(a2, vm, globals)? {
+                                    // `eql?` may be Ruby code that changes
+                                    // either array.
+                                    let mut i = 0;
+                                    while let (Some(a1), Some(a2)) =
+                                        (lhs_ary.get(i).copied(), rhs_ary.get(i).copied())
+                                    {
+                                        if !a1.eql(&a2, vm, globals)? {
                                             return Ok(Value::bool(false));
                                         }
+                                        i += 1;
                                     }
-                                    Ok(Value::bool(true))
+                                    Ok(Value::bool(lhs_ary.len() == rhs_ary.len()))
                                 },
                                 Value::bool(true),
                             )
-- 
2.43.0


From fd578df735ca32473316009c49e859d121c27b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:07 +0000
Subject: [PATCH 102/147] fix: keep set operations of arrays from reading freed
 memory when an element changes them

---
 monoruby/src/builtins/array.rs | 50 +++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index e91b203..f66ef70 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -724,14 +724,19 @@ fn sub(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         vm.temp_push(rhs.into());
         // O(n + m): hash rhs once, then membership-check each lhs element.
         let mut rhs_set = RubySet::default();
-        for v in rhs.iter() {
-            rhs_set.insert(*v, vm, globals)?;
+        // `hash` and `eql?` may be Ruby code that changes either array.
+        let mut i = 0;
+        while let Some(v) = rhs.get(i).copied() {
+            rhs_set.insert(v, vm, globals)?;
+            i += 1;
         }
         let mut v = vec![];
-        for lhs in lhs_v.as_array().iter() {
-            if !rhs_set.contains(lhs, vm, globals)? {
-                v.push(*lhs);
+        let mut i = 0;
+        while let Some(lhs) = lhs_v.as_array().get(i).copied() {
+            if !rhs_set.contains(&lhs, vm, globals)? {
+                v.push(lhs);
             }
+            i += 1;
         }
         Ok(Value::array_from_vec(v))
     })
@@ -836,8 +841,10 @@ fn and(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         lhs.uniq(vm, globals)?;
         // O(n + m): hash rhs once, then membership-check each lhs element.
         let mut rhs_set = RubySet::default();
-        for v in rhs.iter() {
-            rhs_set.insert(*v, vm, globals)?;
+        let mut i = 0;
+        while let Some(v) = rhs.get(i).copied() {
+            rhs_set.insert(v, vm, globals)?;
+            i += 1;
         }
         lhs.retain(|v| rhs_set.contains(v, vm, globals))?;
         Ok(lhs.as_val())
@@ -3781,15 +3788,20 @@ fn difference(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
             })
             .collect::<Result<Vec<_>>>()?;
         let mut v = vec![];
-        'outer: for lhs in lhs_v.as_array().iter() {
+        let mut i = 0;
+        // `eql?` may be Ruby code that changes any of the arrays.
+        'outer: while let Some(lhs) = lhs_v.as_array().get(i).copied() {
+            i += 1;
             for other in &others {
-                for rhs in other.iter() {
-                    if lhs.eql(rhs, vm, globals)? {
+                let mut j = 0;
+                while let Some(rhs) = other.get(j).copied() {
+                    if lhs.eql(&rhs, vm, globals)? {
                         continue 'outer;
                     }
+                    j += 1;
                 }
             }
-            v.push(*lhs);
+            v.push(lhs);
         }
         Ok(Value::array_from_vec(v))
     })
@@ -3821,8 +3833,10 @@ fn intersection(
             let other = arg.coerce_to_array(vm, globals)?;
             vm.temp_push(other.into());
             let mut set = RubySet::default();
-            for elem in other.iter() {
-                set.insert(*elem, vm, globals)?;
+            let mut i = 0;
+            while let Some(elem) = other.get(i).copied() {
+                set.insert(elem, vm, globals)?;
+                i += 1;
             }
             other_sets.push(set);
         }
@@ -3852,12 +3866,16 @@ fn intersect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     // root it across the `eql?` dispatches below.
     vm.with_temp_scope(|vm| {
         vm.temp_push(rhs_ary.into());
-        for rhs in rhs_ary.iter().cloned() {
-            for lhs in lhs.iter().cloned() {
-                if lhs.eql(&rhs, vm, globals)? {
+        let mut i = 0;
+        while let Some(r) = rhs_ary.get(i).copied() {
+            let mut j = 0;
+            while let Some(l) = lhs.get(j).copied() {
+                if l.eql(&r, vm, globals)? {
                     return Ok(Value::bool(true));
                 }
+                j += 1;
             }
+            i += 1;
         }
         Ok(Value::bool(false))
     })
-- 
2.43.0


From eb416fc7a01dc57ed88e72a85817a911350b1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:07 +0000
Subject: [PATCH 103/147] fix: remove elements from arrays that shrink while
 they are looked through

---
 monoruby/src/builtins/array.rs | 83 +++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index f66ef70..ff62cb7 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -2913,9 +2913,9 @@ fn retain_with_block(
                     res.as_bool()
                 };
                 if keep {
-                    if del > 0 {
-                        // Re-read ary in case the block mutated it.
-                        let mut ary = self_val.as_array();
+                    // Re-read ary in case the block mutated it.
+                    let mut ary = self_val.as_array();
+                    if del > 0 && i < ary.len() {
                         let val = ary[i];
                         ary[i - del] = val;
                     }
@@ -2926,27 +2926,25 @@ fn retain_with_block(
             }
             Err(e) => {
                 // On error: compact elements processed so far, then re-raise.
-                if del > 0 {
-                    let mut ary = self_val.as_array();
-                    let len = ary.len();
-                    // Shift remaining unprocessed elements left by `del`.
-                    for j in i..len {
-                        let v = ary[j];
-                        ary[j - del] = v;
-                    }
-                    ary.truncate(len - del);
-                }
+                close_gap(self_val.as_array(), i - del, i);
                 return Err(e);
             }
         }
     }
-    if del > 0 {
-        let mut ary = self_val.as_array();
-        let new_len = ary.len() - del;
-        ary.truncate(new_len);
-        Ok(true)
-    } else {
-        Ok(false)
+    close_gap(self_val.as_array(), i - del, i);
+    Ok(del > 0)
+}
+
+/// Moves the elements from `next` on to directly after the first `kept`
+/// elements. The array may have become shorter than either.
+fn close_gap(mut ary: Array, kept: usize, next: usize) {
+    let len = ary.len();
+    if kept < next && kept < len {
+        for j in next..len {
+            let v = ary[j];
+            ary[j - next + kept] = v;
+        }
+        ary.truncate(kept + len.saturating_sub(next));
     }
 }
 
@@ -3937,8 +3935,18 @@ fn uniq_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let deleted = match lfp.block() {
         None => {
+            // `hash` and `eql?` may be Ruby code that changes the receiver:
+            // look for duplicates in a copy.
             let mut ary = lfp.self_val().as_array();
-            ary.uniq(vm, globals)?
+            let mut copy = Array::new_from_vec(ary.to_vec());
+            vm.with_temp_scope(|vm| -> Result<bool> {
+                vm.temp_push(copy.into());
+                let deleted = copy.uniq(vm, globals)?;
+                if deleted {
+                    ary.replace(copy.to_vec());
+                }
+                Ok(deleted)
+            })?
         }
         Some(bh) => vm.with_temp_scope(|vm| -> Result<bool> {
             let data = vm.get_block_data(globals, bh)?;
@@ -3957,8 +3965,8 @@ fn uniq_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 // future iteration dereferences them via .eql?.
                 vm.temp_push(key);
                 if h.insert(key, vm, globals)? {
-                    if del > 0 {
-                        let mut ary = lfp.self_val().as_array();
+                    let mut ary = lfp.self_val().as_array();
+                    if del > 0 && i < ary.len() {
                         ary[i - del] = elem;
                     }
                 } else {
@@ -3966,11 +3974,7 @@ fn uniq_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 }
                 i += 1;
             }
-            if del > 0 {
-                let mut ary = lfp.self_val().as_array();
-                let new_len = ary.len() - del;
-                ary.truncate(new_len);
-            }
+            close_gap(lfp.self_val().as_array(), i - del, i);
             Ok(del > 0)
         })?,
     };
@@ -4688,11 +4692,13 @@ fn delete(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let mut ary = recv.as_array();
     let arg0 = lfp.arg(0);
     let mut has_match = false;
-    for i in 0..ary.len() {
-        if vm.eq_values_bool(globals, ary[i], arg0)? {
+    let mut i = 0;
+    while let Some(v) = ary.get(i).copied() {
+        if vm.eq_values_bool(globals, v, arg0)? {
             has_match = true;
             break;
         }
+        i += 1;
     }
     if !has_match {
         return if let Some(bh) = lfp.block() {
@@ -4702,8 +4708,21 @@ fn delete(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         };
     }
     recv.ensure_not_frozen(&globals.store)?;
-    let f = |v: &Value| Ok(!vm.eq_values_bool(globals, *v, arg0)?);
-    Ok(ary.retain(f)?.unwrap_or(Value::nil()))
+    // `==` may be Ruby code that changes the receiver.
+    let mut removed = Value::nil();
+    let mut i = 0;
+    let mut del = 0;
+    while let Some(v) = ary.get(i).copied() {
+        if vm.eq_values_bool(globals, v, arg0)? {
+            removed = v;
+            del += 1;
+        } else if del > 0 && i < ary.len() {
+            ary.swap(i - del, i);
+        }
+        i += 1;
+    }
+    close_gap(ary, i - del, i);
+    Ok(removed)
 }
 
 ///
-- 
2.43.0


From 1512f2c580a9dfa0b63e5220abc7f980c5be6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:59 +0000
Subject: [PATCH 104/147] fix: read arrays afresh after every call of a block
 or conversion

---
 monoruby/src/builtins/array.rs | 52 +++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index ff62cb7..a03b9f0 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1651,6 +1651,10 @@ fn fill(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         }
         for i in start..end_idx {
             let val = vm.invoke_block(globals, &data, &[Value::integer(i as i64)])?;
+            // The block may have shortened the array.
+            if i >= ary.len() {
+                break;
+            }
             ary[i] = val;
         }
     } else {
@@ -1861,14 +1865,16 @@ fn zip(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         // not need its own temp protection.
         if let Some(bh) = lfp.block() {
             let data = vm.get_block_data(globals, bh)?;
-            for (i, val) in self_ary.iter().enumerate() {
+            let mut i = 0;
+            while let Some(val) = self_ary.get(i).copied() {
                 let mut row = Array::new_empty();
-                row.push(*val);
+                row.push(val);
                 for j in 0..n_args {
                     let arg = vm.temp_at(base + j).as_array();
                     row.push(if i < arg.len() { arg[i] } else { Value::nil() });
                 }
                 vm.invoke_block(globals, &data, &[row.as_val()])?;
+                i += 1;
             }
             Ok(Value::nil())
         } else {
@@ -1977,8 +1983,10 @@ fn inject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         res = Value::integer(acc);
         start = i;
     }
-    for v in self_[start..].iter() {
-        res = vm.invoke_method_inner(globals, sym, res, &[*v], None, None)?;
+    let mut i = start;
+    while let Some(v) = self_.get(i).copied() {
+        res = vm.invoke_method_inner(globals, sym, res, &[v], None, None)?;
+        i += 1;
     }
     Ok(res)
 }
@@ -2168,7 +2176,11 @@ fn array_join(
     out: &mut Vec<u8>,
     state: &mut Option<(Encoding, CodeRange)>,
 ) -> Result<()> {
-    for (i, v) in ary.iter().enumerate() {
+    // Conversions may be Ruby code that changes the array.
+    for i in 0.. {
+        let Some(v) = ary.get(i).copied() else {
+            break;
+        };
         if i > 0 {
             // Inline-append the separator: no temporary string,
             // just merge `(sep_enc, sep_cr)` into the running
@@ -2197,8 +2209,8 @@ fn array_join(
             continue;
         }
         // Conversion order: to_str -> to_ary -> to_s
-        if let Some(fid) = globals.check_method(*v, IdentId::TO_STR) {
-            let ret = vm.invoke_func_inner(globals, fid, *v, &[], None, None)?;
+        if let Some(fid) = globals.check_method(v, IdentId::TO_STR) {
+            let ret = vm.invoke_func_inner(globals, fid, v, &[], None, None)?;
             if let Some(inner) = ret.is_rstring_inner() {
                 append_string(out, state, inner, &globals.store)?;
                 continue;
@@ -2209,8 +2221,8 @@ fn array_join(
                 continue;
             }
         }
-        if let Some(fid) = globals.check_method(*v, IdentId::TO_ARY) {
-            let ret = vm.invoke_func_inner(globals, fid, *v, &[], None, None)?;
+        if let Some(fid) = globals.check_method(v, IdentId::TO_ARY) {
+            let ret = vm.invoke_func_inner(globals, fid, v, &[], None, None)?;
             if let Some(inner_ary) = ret.try_array_ty() {
                 if !visited.insert(inner_ary.id()) {
                     return Err(MonorubyErr::argumenterr("recursive array join"));
@@ -2227,8 +2239,8 @@ fn array_join(
                 continue;
             }
         }
-        if let Some(fid) = globals.check_method(*v, IdentId::TO_S) {
-            let ret = vm.invoke_func_inner(globals, fid, *v, &[], None, None)?;
+        if let Some(fid) = globals.check_method(v, IdentId::TO_S) {
+            let ret = vm.invoke_func_inner(globals, fid, v, &[], None, None)?;
             if let Some(inner) = ret.is_rstring_inner() {
                 append_string(out, state, inner, &globals.store)?;
                 continue;
@@ -2249,7 +2261,7 @@ fn array_join(
         return Err(MonorubyErr::method_not_found(
             &globals.store,
             IdentId::TO_S,
-            *v,
+            v,
         ));
     }
     Ok(())
@@ -3693,10 +3705,13 @@ fn product(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     vm.with_temp_scope(|vm| {
         let mut lists = vec![];
         for rhs in lfp.arg(0).as_array().into_iter() {
-            let list = rhs.coerce_to_array(vm, globals)?;
+            // The block may change the array itself: keep a copy.
+            let list = Array::new_from_vec(rhs.coerce_to_array(vm, globals)?.to_vec());
             vm.temp_push(list.into());
             lists.push(list);
         }
+        let lhs = Array::new_from_vec(lhs.to_vec());
+        vm.temp_push(lhs.into());
         // Check total product size to avoid memory exhaustion.
         let mut total: usize = lhs.len();
         for l in &lists {
@@ -4221,13 +4236,16 @@ fn flatten_inner(
         return Err(MonorubyErr::argumenterr("tried to flatten recursive array"));
     }
     seen.push(id);
-    for v in ary.iter() {
+    // `to_ary` may be Ruby code that changes the array.
+    let mut i = 0;
+    while let Some(v) = ary.get(i).copied() {
+        i += 1;
         // At level 0, no flattening occurs — do not call to_ary.
         if let Some(0) = lv {
-            res.push(*v);
+            res.push(v);
             continue;
         }
-        if let Some(inner) = try_convert_to_array(v, vm, globals)? {
+        if let Some(inner) = try_convert_to_array(&v, vm, globals)? {
             *changed = true;
             if let Some(lv) = lv {
                 flatten_inner(vm, globals, &inner, res, Some(lv - 1), changed, seen)?;
@@ -4235,7 +4253,7 @@ fn flatten_inner(
                 flatten_inner(vm, globals, &inner, res, None, changed, seen)?;
             }
         } else {
-            res.push(*v);
+            res.push(v);
         }
     }
     seen.pop();
-- 
2.43.0


From a04fad8fbffffd59ad343890eb84357d840bd6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:59 +0000
Subject: [PATCH 105/147] fix: order arrays that change while their elements
 are compared

---
 monoruby/src/builtins/array.rs | 84 +++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index a03b9f0..2e1cd13 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -2494,19 +2494,23 @@ pub(crate) fn min(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
     if let Some(bh) = lfp.block() {
         let data = vm.get_block_data(globals, bh)?;
         let mut min = ary[0];
-        for v in &ary[1..] {
-            let block_res = vm.invoke_block(globals, &data, &[*v, min])?;
-            if vm.cmpint(globals, block_res, *v, min)? == std::cmp::Ordering::Less {
-                min = *v;
+        let mut i = 1;
+        while let Some(v) = ary.get(i).copied() {
+            let block_res = vm.invoke_block(globals, &data, &[v, min])?;
+            if vm.cmpint(globals, block_res, v, min)? == std::cmp::Ordering::Less {
+                min = v;
             }
+            i += 1;
         }
         Ok(min)
     } else {
         let mut min = ary[0];
-        for v in &ary[1..] {
-            if vm.compare_values(globals, min, *v)? == std::cmp::Ordering::Greater {
-                min = *v;
+        let mut i = 1;
+        while let Some(v) = ary.get(i).copied() {
+            if vm.compare_values(globals, min, v)? == std::cmp::Ordering::Greater {
+                min = v;
             }
+            i += 1;
         }
         Ok(min)
     }
@@ -2530,19 +2534,23 @@ pub(crate) fn max(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
     if let Some(bh) = lfp.block() {
         let data = vm.get_block_data(globals, bh)?;
         let mut max = ary[0];
-        for v in &ary[1..] {
-            let block_res = vm.invoke_block(globals, &data, &[*v, max])?;
-            if vm.cmpint(globals, block_res, *v, max)? == std::cmp::Ordering::Greater {
-                max = *v;
+        let mut i = 1;
+        while let Some(v) = ary.get(i).copied() {
+            let block_res = vm.invoke_block(globals, &data, &[v, max])?;
+            if vm.cmpint(globals, block_res, v, max)? == std::cmp::Ordering::Greater {
+                max = v;
             }
+            i += 1;
         }
         Ok(max)
     } else {
         let mut max = ary[0];
-        for v in &ary[1..] {
-            if vm.compare_values(globals, max, *v)? == std::cmp::Ordering::Less {
-                max = *v;
+        let mut i = 1;
+        while let Some(v) = ary.get(i).copied() {
+            if vm.compare_values(globals, max, v)? == std::cmp::Ordering::Less {
+                max = v;
             }
+            i += 1;
         }
         Ok(max)
     }
@@ -2565,15 +2573,17 @@ fn minmax(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let mut max = ary[0];
     if let Some(bh) = lfp.block() {
         let data = vm.get_block_data(globals, bh)?;
-        for v in &ary[1..] {
-            let r_min = vm.invoke_block(globals, &data, &[*v, min])?;
-            if vm.cmpint(globals, r_min, *v, min)? == std::cmp::Ordering::Less {
-                min = *v;
+        let mut i = 1;
+        while let Some(v) = ary.get(i).copied() {
+            let r_min = vm.invoke_block(globals, &data, &[v, min])?;
+            if vm.cmpint(globals, r_min, v, min)? == std::cmp::Ordering::Less {
+                min = v;
             }
-            let r_max = vm.invoke_block(globals, &data, &[*v, max])?;
-            if vm.cmpint(globals, r_max, *v, max)? == std::cmp::Ordering::Greater {
-                max = *v;
+            let r_max = vm.invoke_block(globals, &data, &[v, max])?;
+            if vm.cmpint(globals, r_max, v, max)? == std::cmp::Ordering::Greater {
+                max = v;
             }
+            i += 1;
         }
     } else if let Some(first_i) = ary[0].try_fixnum()
         && ary.iter().all(|v| v.try_fixnum().is_some())
@@ -2592,13 +2602,15 @@ fn minmax(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         }
         return Ok(Value::array2(Value::integer(min_i), Value::integer(max_i)));
     } else {
-        for v in &ary[1..] {
-            if vm.compare_values(globals, min, *v)? == std::cmp::Ordering::Greater {
-                min = *v;
+        let mut i = 1;
+        while let Some(v) = ary.get(i).copied() {
+            if vm.compare_values(globals, min, v)? == std::cmp::Ordering::Greater {
+                min = v;
             }
-            if vm.compare_values(globals, max, *v)? == std::cmp::Ordering::Less {
-                max = *v;
+            if vm.compare_values(globals, max, v)? == std::cmp::Ordering::Less {
+                max = v;
             }
+            i += 1;
         }
     }
     Ok(Value::array2(min, max))
@@ -2691,8 +2703,16 @@ fn sort_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     // receiver's slots before the corresponding buffer entries are
     // consumed, so during that window the buffer is their only reference.
     // `sort_inner` therefore roots the buffer itself.
-    let ary = lfp.self_val().as_array();
-    sort_inner(vm, globals, lfp, ary)
+    //
+    // The comparison may be Ruby code that changes the receiver: sort a copy.
+    let mut ary = lfp.self_val().as_array();
+    let copy = Array::new_from_vec(ary.to_vec());
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(copy.into());
+        sort_inner(vm, globals, lfp, copy)?;
+        ary.replace(copy.to_vec());
+        Ok(ary.into())
+    })
 }
 
 ///
@@ -3225,7 +3245,7 @@ fn map_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
 #[monoruby_builtin]
 fn flat_map(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let bh = lfp.expect_block()?;
-    let elems: Vec<Value> = lfp.self_val().as_array().iter().copied().collect();
+    let elems = lfp.self_val().as_array();
     let data = vm.get_block_data(globals, bh)?;
     // The accumulator has to be a *rooted* Ruby Array, not a Rust `Vec`:
     // every `invoke_block` below is a safepoint, and values held only by
@@ -3242,9 +3262,11 @@ fn flat_map_inner(
     vm: &mut Executor,
     globals: &mut Globals,
     data: &ProcData,
-    elems: Vec<Value>,
+    elems: Array,
 ) -> Result<()> {
-    for x in elems {
+    let mut i = 0;
+    while let Some(x) = elems.get(i).copied() {
+        i += 1;
         let r = vm.invoke_block(globals, data, &[x])?;
         if let Some(a) = r.try_array_ty() {
             vm.temp_array_extend_from_slice(&a);
-- 
2.43.0


From 6fa497f9c449694356985933c10c75851b1c641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:29 +0000
Subject: [PATCH 106/147] fix: keep the running total of Array#sum alive while
 its block runs

---
 monoruby/src/builtins/array.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 2e1cd13..da74ab1 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -2445,7 +2445,12 @@ fn sum(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         };
         i += 1;
         let v = match &block_data {
-            Some(data) => vm.invoke_block(globals, data, &[v])?,
+            // The running sum is reachable only from here, and the block
+            // may trigger a GC.
+            Some(data) => vm.with_temp_scope(|vm| {
+                vm.temp_push(sum);
+                vm.invoke_block(globals, data, &[v])
+            })?,
             None => v,
         };
         if let (Some(f), Some(x)) = (sum.try_float(), v.try_float()) {
-- 
2.43.0


From 7981d084c4af743f6c1e29b9dfa83f1681e0e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:05:29 +0000
Subject: [PATCH 107/147] fix: keep the converted argument of Array#<=> alive
 while elements are compared

---
 monoruby/src/builtins/array.rs | 59 ++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index da74ab1..8f7d451 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1214,35 +1214,40 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     } else {
         return Ok(Value::nil());
     };
-    crate::value::exec_recursive_paired(
-        self_val.id(),
-        arg.id(),
-        || {
-            let mut i = 0;
-            while let Some(l) = lhs.get(i).copied() {
-                if let Some(r) = rhs.get(i).copied() {
-                    // Compare each pair with the element's own `<=>` and
-                    // return the *raw* result of the first pair that isn't
-                    // exactly the Fixnum `0` — CRuby returns whatever the
-                    // element comparison produced (`nil`, `±1`, or even a
-                    // non-Integer like a String), not a normalized value.
-                    let res =
-                        vm.invoke_method_inner(globals, IdentId::_CMP, l, &[r], None, None)?;
-                    if res.try_fixnum() != Some(0) {
-                        return Ok(res);
+    // A fresh `#to_ary` result is referenced only by this Rust local;
+    // root it across the `<=>` dispatches below.
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(rhs.into());
+        crate::value::exec_recursive_paired(
+            self_val.id(),
+            arg.id(),
+            || {
+                let mut i = 0;
+                while let Some(l) = lhs.get(i).copied() {
+                    if let Some(r) = rhs.get(i).copied() {
+                        // Compare each pair with the element's own `<=>` and
+                        // return the *raw* result of the first pair that isn't
+                        // exactly the Fixnum `0` — CRuby returns whatever the
+                        // element comparison produced (`nil`, `±1`, or even a
+                        // non-Integer like a String), not a normalized value.
+                        let res =
+                            vm.invoke_method_inner(globals, IdentId::_CMP, l, &[r], None, None)?;
+                        if res.try_fixnum() != Some(0) {
+                            return Ok(res);
+                        }
+                    } else {
+                        return Ok(Value::integer(Ordering::Greater as i64));
                     }
-                } else {
-                    return Ok(Value::integer(Ordering::Greater as i64));
+                    i += 1;
                 }
-                i += 1;
-            }
-            if rhs.len() > lhs.len() {
-                return Ok(Value::integer(Ordering::Less as i64));
-            }
-            Ok(Value::integer(Ordering::Equal as i64))
-        },
-        Value::integer(Ordering::Equal as i64),
-    )
+                if rhs.len() > lhs.len() {
+                    return Ok(Value::integer(Ordering::Less as i64));
+                }
+                Ok(Value::integer(Ordering::Equal as i64))
+            },
+            Value::integer(Ordering::Equal as i64),
+        )
+    })
 }
 
 ///
-- 
2.43.0


From 2af073ee4ffc922bdce8bc36bd00dfde033f9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:06 +0000
Subject: [PATCH 108/147] fix: draw from ranges with Random#rand as Kernel#rand
 does, however wide

---
 monoruby/src/builtins/kernel.rs |  8 +++----
 monoruby/src/builtins/random.rs | 20 +++++++++++-------
 monoruby/src/globals/prng.rs    | 37 +++++++++++++++++++++++++--------
 3 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 9db283c..49cd41b 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -1754,11 +1754,11 @@ fn rand(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         let excl = range.exclude_end();
         // Both endpoints Integer: an Integer in the range (nil when empty).
         if let (Some(s), Some(e)) = (start.try_fixnum(), end.try_fixnum()) {
-            let span = e - s + if excl { 0 } else { 1 };
-            if span <= 0 {
+            let last = if excl { e - 1 } else { e };
+            if last < s {
                 return Ok(Value::nil());
             }
-            let r = globals.random_ulong_limited(span as u64 - 1) as i64;
+            let r = globals.random_ulong_limited((last - s) as u64) as i64;
             return Ok(Value::integer(s + r));
         }
         // Any Float endpoint makes the result a Float in [s, e).
@@ -1777,7 +1777,7 @@ fn rand(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             } else {
                 globals.random_float_inclusive()
             };
-            return Ok(Value::float(s + f * (e - s)));
+            return Ok(Value::float(crate::globals::prng::in_float_range(f, s, e)));
         }
         // Generic endpoints (Time, custom numeric-ish objects): the
         // span comes from `end - start`; a Float span picks a real
diff --git a/monoruby/src/builtins/random.rs b/monoruby/src/builtins/random.rs
index c4bea53..d65bad7 100644
--- a/monoruby/src/builtins/random.rs
+++ b/monoruby/src/builtins/random.rs
@@ -1,5 +1,7 @@
 use super::*;
-use crate::globals::prng::{Mt, build_mt, next_real, rand_int, ulong_limited};
+use crate::globals::prng::{
+    Mt, build_mt, in_float_range, next_real, next_real_inclusive, rand_int, ulong_limited,
+};
 use num::{Signed, Zero};
 
 //
@@ -337,20 +339,24 @@ fn inst_rand_op(
         if !any_float
             && let (Some(s), Some(e)) = (start.try_fixnum(), end.try_fixnum())
         {
-            let span = e - s + if excl { 0 } else { 1 };
-            if span <= 0 {
+            let span: num::BigInt = num::BigInt::from(e) - s + i64::from(!excl);
+            if !span.is_positive() {
                 return Ok(Value::nil());
             }
-            let v = rand_int(mt, c, &num::BigInt::from(span));
-            return Ok(Value::integer(s + v.try_fixnum().unwrap_or(0)));
+            let v = rand_int(mt, c, &span);
+            return Ok(Value::bigint(to_bigint(v) + s));
         }
         // If either end point is a Float, both are treated as Floats.
         let to_f = |v: Value| -> Option<f64> {
             v.try_float().or_else(|| v.try_fixnum().map(|i| i as f64))
         };
         if let (Some(s), Some(e)) = (to_f(start), to_f(end)) {
-            let f = next_real(mt, c);
-            return Ok(Value::float(s + f * (e - s)));
+            let f = if excl {
+                next_real(mt, c)
+            } else {
+                next_real_inclusive(mt, c)
+            };
+            return Ok(Value::float(in_float_range(f, s, e)));
         }
         return Err(MonorubyErr::argumenterr("bad value for range"));
     }
diff --git a/monoruby/src/globals/prng.rs b/monoruby/src/globals/prng.rs
index 3d69b69..79429d7 100644
--- a/monoruby/src/globals/prng.rs
+++ b/monoruby/src/globals/prng.rs
@@ -149,6 +149,31 @@ pub(crate) fn next_real(mt: &mut Mt, cnt: &mut u64) -> f64 {
     (a * 67108864.0 + b) * (1.0 / 9007199254740992.0)
 }
 
+/// CRuby `int_pair_to_real_inclusive`: uniform Float in `[0, 1]`
+/// (both ends included), two draws — the mapping an *inclusive*
+/// float-range `rand` uses.
+pub(crate) fn next_real_inclusive(mt: &mut Mt, cnt: &mut u64) -> f64 {
+    let a = mt.next_u32() as u128;
+    let b = mt.next_u32() as u128;
+    *cnt += 2;
+    let x = (a << 32) | b;
+    let m = (1u128 << 53) | 1;
+    let r = ((x * m) >> 64) as u64;
+    (r as f64) * (1.0 / 9007199254740992.0)
+}
+
+/// Where in `s..e` a draw from `[0, 1]` falls. A range wider than any
+/// Float is drawn at half its size (CRuby `rand_range`).
+pub(crate) fn in_float_range(f: f64, s: f64, e: f64) -> f64 {
+    let span = e - s;
+    if span.is_finite() {
+        s + f * span
+    } else {
+        let (s, e) = (s / 2.0, e / 2.0);
+        (f - 0.5) * (e - s) * 2.0 + (e + s)
+    }
+}
+
 fn make_mask(mut x: u32) -> u32 {
     x |= x >> 1;
     x |= x >> 2;
@@ -302,16 +327,10 @@ impl Prng {
         next_real(&mut self.mt, &mut cnt)
     }
 
-    /// CRuby `int_pair_to_real_inclusive`: uniform Float in `[0, 1]`
-    /// (both ends included), two draws — the mapping an *inclusive*
-    /// float-range `rand` uses.
+    /// CRuby `int_pair_to_real_inclusive`: uniform Float in `[0, 1]`.
     pub(crate) fn next_real_inclusive(&mut self) -> f64 {
-        let a = self.mt.next_u32() as u128;
-        let b = self.mt.next_u32() as u128;
-        let x = (a << 32) | b;
-        let m = (1u128 << 53) | 1;
-        let r = ((x * m) >> 64) as u64;
-        (r as f64) * (1.0 / 9007199254740992.0)
+        let mut cnt = 0;
+        next_real_inclusive(&mut self.mt, &mut cnt)
     }
 
     /// CRuby `rb_random_ulong_limited`: uniform integer in `[0, max]`.
-- 
2.43.0


From d72ba85753f725cd99d64c6eb1c150bff2007394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:31 +0000
Subject: [PATCH 109/147] fix: take bignum bounds in Random.rand

---
 monoruby/src/builtins/random.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/builtins/random.rs b/monoruby/src/builtins/random.rs
index d65bad7..6f8af30 100644
--- a/monoruby/src/builtins/random.rs
+++ b/monoruby/src/builtins/random.rs
@@ -419,6 +419,14 @@ fn rand_with_arg(globals: &mut Globals, arg: Option<Value>) -> Result<Value> {
         } else {
             Ok(Value::float(f * max))
         }
+    } else if let RV::BigInt(max) = arg.unpack() {
+        if max.is_negative() {
+            return Err(MonorubyErr::argumenterr(format!(
+                "invalid argument - {}",
+                max
+            )));
+        }
+        Ok(globals.random_rand_int(max))
     } else if arg.is_range().is_some() {
         Err(MonorubyErr::runtimeerr(
             "Range argument is not supported in Random#rand",
-- 
2.43.0


From 785520143819f48a73e58bf45b53e084609618f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:31 +0000
Subject: [PATCH 110/147] fix: cut off the fraction of a size given to
 Random.bytes

---
 monoruby/src/builtins/random.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/monoruby/src/builtins/random.rs b/monoruby/src/builtins/random.rs
index 6f8af30..cebd9a5 100644
--- a/monoruby/src/builtins/random.rs
+++ b/monoruby/src/builtins/random.rs
@@ -528,8 +528,6 @@ fn urandom(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
 fn random_bytes_inner(vm: &mut Executor, globals: &mut Globals, size_arg: Value) -> Result<Value> {
     let size = if let Some(size) = size_arg.try_fixnum() {
         size
-    } else if let Some(size) = size_arg.try_float() {
-        size.round() as i64
     } else {
         size_arg.coerce_to_int_i64(vm, globals)?
     };
-- 
2.43.0


From 6f721b2036ffab27f280c7d9364b77490bf9be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:47:24 +0000
Subject: [PATCH 111/147] fix: do not read past the end when the array shrinks
 during Array#sample

---
 monoruby/src/builtins/array.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 8f7d451..38ac4d0 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -4619,17 +4619,19 @@ fn sample_inner(
         return Ok(Value::array_empty());
     }
     n = n.min(len);
+    // Lifting an index over those taken can still carry it past the new end.
+    let at = |i: usize| ary.get(i).copied().unwrap_or_default();
 
     match n {
         0 => return Ok(Value::array_empty()),
-        1 => return Ok(Value::array1(ary[rnds[0]])),
+        1 => return Ok(Value::array1(at(rnds[0]))),
         2 => {
             let i = rnds[0];
             let mut j = rnds[1];
             if j >= i {
                 j += 1;
             }
-            return Ok(Value::array2(ary[i], ary[j]));
+            return Ok(Value::array2(at(i), at(j)));
         }
         3 => {
             let i = rnds[0];
@@ -4650,7 +4652,7 @@ fn sample_inner(
                     k += 1;
                 }
             }
-            return Ok(Array::new_from_vec(vec![ary[i], ary[j], ary[k]]).into());
+            return Ok(Array::new_from_vec(vec![at(i), at(j), at(k)]).into());
         }
         _ => {}
     }
@@ -4687,7 +4689,7 @@ fn sample_inner(
             sorted[j] = k;
             idx[i] = k;
         }
-        Ok(Value::array_from_iter(idx[..n].iter().map(|&i| ary[i])))
+        Ok(Value::array_from_iter(idx[..n].iter().map(|&i| at(i))))
     } else if n <= memo_threshold / 2 {
         // Still a small slice of a big receiver: run the same partial
         // Fisher-Yates, but over a sparse map of the swaps instead of a
-- 
2.43.0


From 82586f979221b8c267cd6d4edb0467acf8a3e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:32 +0000
Subject: [PATCH 112/147] fix: keep the elements Array#sample is choosing from
 alive

---
 monoruby/src/builtins/array.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 38ac4d0..9dfbd3c 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -4721,13 +4721,16 @@ fn sample_inner(
     } else {
         // n is a large enough fraction of len that a copy is the cheaper
         // way: partial Fisher-Yates over a dup, truncated to n.
-        let mut result = ary.to_vec();
-        for i in 0..n {
-            let j = rng.rand_upto(vm, globals, len - i)? + i;
-            result.swap(i, j);
-        }
-        result.truncate(n);
-        Ok(Array::new_from_vec(result).into())
+        let mut result = Array::new_from_vec(ary.to_vec());
+        vm.with_temp_scope(|vm| {
+            vm.temp_push(result.into());
+            for i in 0..n {
+                let j = rng.rand_upto(vm, globals, len - i)? + i;
+                result.swap(i, j);
+            }
+            result.truncate(n);
+            Ok(result.into())
+        })
     }
 }
 
-- 
2.43.0


From 9b351167d5fe6bd34130ca5b86e59e9c4590d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:34 +0000
Subject: [PATCH 113/147] fix: read and write JSON integers of any size

---
 monoruby/src/builtins/json.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index aeb80df..074ab3f 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -261,9 +261,8 @@ impl<'a> Parser<'a> {
             match num_str.parse::<i64>() {
                 Ok(i) => Some(Value::integer(i)),
                 Err(_) => {
-                    // BigInt fallback
-                    let f: f64 = num_str.parse().ok()?;
-                    Some(Value::float(f))
+                    let big: num::BigInt = num_str.parse().ok()?;
+                    Some(Value::bigint(big))
                 }
             }
         }
@@ -358,6 +357,8 @@ fn generate(buf: &mut String, val: Value, store: &Store) {
         buf.push_str("false");
     } else if let Some(i) = val.try_fixnum() {
         buf.push_str(&i.to_string());
+    } else if let RV::BigInt(i) = val.unpack() {
+        buf.push_str(&i.to_string());
     } else if let Some(f) = val.try_float() {
         if f.is_nan() {
             buf.push_str("NaN");
-- 
2.43.0


From d6928ab463c07fbb0e1080a78fb07ab7ba809b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:34 +0000
Subject: [PATCH 114/147] fix: refuse JSON text that goes on after its value

---
 monoruby/src/builtins/json.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index 074ab3f..14c2224 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -12,6 +12,7 @@ fn json_parse(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     let mut parser = Parser::new(src.as_bytes());
     parser
         .parse_value(vm, globals)
+        .filter(|_| parser.at_end())
         .ok_or_else(|| MonorubyErr::runtimeerr(parser.error_message()))
 }
 
@@ -76,6 +77,18 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Whether nothing but whitespace is left.
+    fn at_end(&mut self) -> bool {
+        self.skip_ws();
+        if let Some(ch) = self.peek() {
+            self.set_error(format!(
+                "unexpected character '{}' at position {}",
+                ch as char, self.pos
+            ));
+        }
+        self.err.is_none()
+    }
+
     fn expect(&mut self, ch: u8) -> bool {
         self.skip_ws();
         if self.peek() == Some(ch) {
-- 
2.43.0


From 5e1349f3a2c744302b99c5076ae79cbe087c0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:58:00 +0000
Subject: [PATCH 115/147] fix: refuse JSON nested too deeply instead of running
 out of stack

---
 monoruby/src/builtins/json.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index 14c2224..128a65c 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -25,10 +25,13 @@ fn json_generate(
     _: BytecodePtr,
 ) -> Result<Value> {
     let mut buf = String::new();
-    generate(&mut buf, lfp.arg(0), &globals.store);
+    generate(&mut buf, lfp.arg(0), &globals.store, 0)?;
     Ok(Value::string(buf))
 }
 
+/// How deep arrays and objects may nest, in text or in memory.
+const MAX_NESTING: usize = 1000;
+
 // ---------------------------------------------------------------------------
 // JSON Parser
 // ---------------------------------------------------------------------------
@@ -36,6 +39,7 @@ fn json_generate(
 struct Parser<'a> {
     src: &'a [u8],
     pos: usize,
+    depth: usize,
     err: Option<String>,
 }
 
@@ -44,6 +48,7 @@ impl<'a> Parser<'a> {
         Self {
             src,
             pos: 0,
+            depth: 0,
             err: None,
         }
     }
@@ -107,8 +112,20 @@ impl<'a> Parser<'a> {
         self.skip_ws();
         match self.peek()? {
             b'"' => self.parse_string(),
-            b'{' => self.parse_object(vm, globals),
-            b'[' => self.parse_array(vm, globals),
+            ch @ (b'{' | b'[') => {
+                self.depth += 1;
+                if self.depth > MAX_NESTING {
+                    self.set_error(format!("nesting of {} is too deep", self.depth));
+                    return None;
+                }
+                let res = if ch == b'{' {
+                    self.parse_object(vm, globals)
+                } else {
+                    self.parse_array(vm, globals)
+                };
+                self.depth -= 1;
+                res
+            }
             b't' => self.parse_literal(b"true", Value::bool(true)),
             b'f' => self.parse_literal(b"false", Value::bool(false)),
             b'n' => self.parse_literal(b"null", Value::nil()),
@@ -361,7 +378,12 @@ impl<'a> Parser<'a> {
 // JSON Generator
 // ---------------------------------------------------------------------------
 
-fn generate(buf: &mut String, val: Value, store: &Store) {
+fn generate(buf: &mut String, val: Value, store: &Store, depth: usize) -> Result<()> {
+    if depth > MAX_NESTING {
+        return Err(MonorubyErr::runtimeerr(format!(
+            "nesting of {depth} is too deep"
+        )));
+    }
     if val.is_nil() {
         buf.push_str("null");
     } else if val == Value::bool(true) {
@@ -393,7 +415,7 @@ fn generate(buf: &mut String, val: Value, store: &Store) {
             if i > 0 {
                 buf.push(',');
             }
-            generate(buf, *v, store);
+            generate(buf, *v, store, depth + 1)?;
         }
         buf.push(']');
     } else if let Some(hash) = val.try_hash_ty() {
@@ -405,12 +427,13 @@ fn generate(buf: &mut String, val: Value, store: &Store) {
             }
             generate_string(buf, &k.to_s(store));
             buf.push(':');
-            generate(buf, *v, store);
+            generate(buf, *v, store, depth + 1)?;
         }
         buf.push('}');
     } else {
         generate_string(buf, &val.to_s(store));
     }
+    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 47ae1c913a8eaeefa2a986e64da73f2e124c93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:02 +0000
Subject: [PATCH 116/147] fix: walk hashes by position while comparing,
 searching and digesting them

---
 monoruby/src/builtins/hash.rs | 127 ++++++++++++++++++++--------------
 1 file changed, 74 insertions(+), 53 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 2fde549..3b3027b 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -322,6 +322,33 @@ fn hash_to_sized_enum(
     vm.generate_enumerator_with_size(method, lfp.self_val(), lfp.iter().collect(), pc, Some(size))
 }
 
+/// Calls `f` with position, key and value of each entry of `hash` until it
+/// answers false. The walk goes by position, so `f` may run code that removes
+/// entries or changes the representation; adding a key raises meanwhile. The
+/// entry at hand is rooted, in case that code removes it.
+fn for_each_entry(
+    vm: &mut Executor,
+    hash: Hashmap,
+    mut f: impl FnMut(&mut Executor, usize, Value, Value) -> Result<bool>,
+) -> Result<()> {
+    let _iter_guard = hash.iter_guard();
+    let mut i = 0;
+    while i < hash.entry_count() {
+        if let Some((k, v)) = hash.entry_at(i) {
+            let go_on = vm.with_temp_scope(|vm| {
+                vm.temp_push(k);
+                vm.temp_push(v);
+                f(vm, i, k, v)
+            })?;
+            if !go_on {
+                break;
+            }
+        }
+        i += 1;
+    }
+    Ok(())
+}
+
 ///
 /// ### Hash.[]
 ///
@@ -689,16 +716,7 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
         return Ok(Value::bool(false));
     }
     crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || {
-        for (k, lhs_value) in lhs.iter() {
-            if let Some(rhs_value) = rhs.get(k, vm, globals)?
-                && vm.eq_values_bool(globals, lhs_value, rhs_value)?
-            {
-                continue;
-            } else {
-                return Ok(Value::bool(false));
-            }
-        }
-        Ok(Value::bool(true))
+        Ok(Value::bool(hash_subset(lhs, rhs, vm, globals)?))
     }, Value::bool(true))
 }
 
@@ -731,23 +749,17 @@ fn eql(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     }
     let eql_id = IdentId::EQL_;
     crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || {
-        for (k, lhs_value) in lhs.iter() {
-            let Some(rhs_value) = rhs.get(k, vm, globals)? else {
-                return Ok(Value::bool(false));
+        let mut equal = true;
+        for_each_entry(vm, lhs, |vm, _, k, lhs_value| {
+            equal = match rhs.get(k, vm, globals)? {
+                Some(rhs_value) => vm
+                    .invoke_method_inner(globals, eql_id, lhs_value, &[rhs_value], None, None)?
+                    .as_bool(),
+                None => false,
             };
-            let result = vm.invoke_method_inner(
-                globals,
-                eql_id,
-                lhs_value,
-                &[rhs_value],
-                None,
-                None,
-            )?;
-            if !result.as_bool() {
-                return Ok(Value::bool(false));
-            }
-        }
-        Ok(Value::bool(true))
+            Ok(equal)
+        })?;
+        Ok(Value::bool(equal))
     }, Value::bool(true))
 }
 
@@ -782,7 +794,7 @@ fn hash(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             const KEY_OFFSET: i64 = 0x9e3779b97f4a7c15u64 as i64;
             let mut acc: i64 = (h.len() as i64).wrapping_mul(0x9ddfea08eb382d69u64 as i64);
             let hash_id = IdentId::HASH;
-            for (k, v) in h.iter() {
+            for_each_entry(vm, h, |vm, _, k, v| {
                 let kh = vm
                     .invoke_method_inner(globals, hash_id, k, &[], None, None)?
                     .try_fixnum()
@@ -794,7 +806,8 @@ fn hash(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
                 let kpart = kh.wrapping_add(KEY_OFFSET).wrapping_mul(KEY_MIX);
                 let vpart = vh.wrapping_mul(VAL_MIX).rotate_left(13);
                 acc = acc.wrapping_add(kpart ^ vpart);
-            }
+                Ok(true)
+            })?;
             // Fold into Fixnum range: a Bignum digest would degrade to 0
             // when this hash is itself an element of an outer Hash.
             Ok(Value::from_hash_digest(acc as u64))
@@ -810,16 +823,15 @@ fn hash_subset(
     vm: &mut Executor,
     globals: &mut Globals,
 ) -> Result<bool> {
-    for (k, sub_value) in sub.iter() {
-        if let Some(sup_value) = sup.get(k, vm, globals)?
-            && vm.eq_values_bool(globals, sub_value, sup_value)?
-        {
-            continue;
-        } else {
-            return Ok(false);
-        }
-    }
-    Ok(true)
+    let mut subset = true;
+    for_each_entry(vm, sub, |vm, _, k, sub_value| {
+        subset = match sup.get(k, vm, globals)? {
+            Some(sup_value) => vm.eq_values_bool(globals, sub_value, sup_value)?,
+            None => false,
+        };
+        Ok(subset)
+    })?;
+    Ok(subset)
 }
 
 ///
@@ -2182,12 +2194,15 @@ fn sort(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
 fn assoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let key = lfp.arg(0);
     let hash = lfp.self_val().as_hash();
-    for (k, v) in hash.iter() {
-        if vm.eq_values_bool(globals, key, k)? {
-            return Ok(Value::array_from_vec(vec![k, v]));
+    let mut found = Value::nil();
+    for_each_entry(vm, hash, |vm, _, k, v| {
+        let found_here = vm.eq_values_bool(globals, key, k)?;
+        if found_here {
+            found = Value::array_from_vec(vec![k, v]);
         }
-    }
-    Ok(Value::nil())
+        Ok(!found_here)
+    })?;
+    Ok(found)
 }
 
 ///
@@ -2200,12 +2215,15 @@ fn assoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn rassoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let value = lfp.arg(0);
     let hash = lfp.self_val().as_hash();
-    for (k, v) in hash.iter() {
-        if vm.eq_values_bool(globals, value, v)? {
-            return Ok(Value::array_from_vec(vec![k, v]));
+    let mut found = Value::nil();
+    for_each_entry(vm, hash, |vm, _, k, v| {
+        let found_here = vm.eq_values_bool(globals, value, v)?;
+        if found_here {
+            found = Value::array_from_vec(vec![k, v]);
         }
-    }
-    Ok(Value::nil())
+        Ok(!found_here)
+    })?;
+    Ok(found)
 }
 
 ///
@@ -3206,12 +3224,15 @@ fn shift(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn key(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let hash = lfp.self_val().as_hash();
     let target = lfp.arg(0);
-    for (k, v) in hash.iter() {
-        if vm.eq_values_bool(globals, v, target)? {
-            return Ok(k);
+    let mut found = Value::nil();
+    for_each_entry(vm, hash, |vm, _, k, v| {
+        let found_here = vm.eq_values_bool(globals, v, target)?;
+        if found_here {
+            found = k;
         }
-    }
-    Ok(Value::nil())
+        Ok(!found_here)
+    })?;
+    Ok(found)
 }
 
 ///
-- 
2.43.0


From 6c30ad8ba5ae87a1db20e04c87e852072e89b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:02 +0000
Subject: [PATCH 117/147] fix: remove pairs as the block decides in
 Hash#delete_if, #reject!, #keep_if and #select!

---
 monoruby/src/builtins/hash.rs | 96 +++++++++++++----------------------
 1 file changed, 36 insertions(+), 60 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 3b3027b..02de9da 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1855,23 +1855,17 @@ fn select_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if !vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
+    let mut hash = lfp.self_val().as_hash();
+    let len = hash.len();
+    for_each_entry(vm, hash, |vm, i, k, v| {
+        if !vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+            && let Some((k, _)) = hash.entry_at(i)
+        {
+            hash.remove(k, vm, globals)?;
         }
-    }
-    let changed = !remove.is_empty();
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
-    Ok(if changed {
+        Ok(true)
+    })?;
+    Ok(if hash.len() != len {
         lfp.self_val()
     } else {
         Value::nil()
@@ -2048,21 +2042,15 @@ fn delete_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
+    let mut hash = lfp.self_val().as_hash();
+    for_each_entry(vm, hash, |vm, i, k, v| {
+        if vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+            && let Some((k, _)) = hash.entry_at(i)
+        {
+            hash.remove(k, vm, globals)?;
         }
-    }
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
+        Ok(true)
+    })?;
     Ok(lfp.self_val())
 }
 
@@ -2084,23 +2072,17 @@ fn reject_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
+    let mut hash = lfp.self_val().as_hash();
+    let len = hash.len();
+    for_each_entry(vm, hash, |vm, i, k, v| {
+        if vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+            && let Some((k, _)) = hash.entry_at(i)
+        {
+            hash.remove(k, vm, globals)?;
         }
-    }
-    let changed = !remove.is_empty();
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
-    Ok(if changed {
+        Ok(true)
+    })?;
+    Ok(if hash.len() != len {
         lfp.self_val()
     } else {
         Value::nil()
@@ -3253,21 +3235,15 @@ fn keep_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if !vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
+    let mut hash = lfp.self_val().as_hash();
+    for_each_entry(vm, hash, |vm, i, k, v| {
+        if !vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+            && let Some((k, _)) = hash.entry_at(i)
+        {
+            hash.remove(k, vm, globals)?;
         }
-    }
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
+        Ok(true)
+    })?;
     Ok(lfp.self_val())
 }
 
-- 
2.43.0


From eb606f5d1dda3ad0ca9c7cdcf80b846af01f8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:02 +0000
Subject: [PATCH 118/147] fix: walk a copy of the receiver in Hash#select and
 #reject

---
 monoruby/src/builtins/hash.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 02de9da..eda68d6 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1822,17 +1822,21 @@ fn select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
         Some(block) => block,
     };
     let data = vm.get_block_data(globals, bh)?;
-    let src = lfp.self_val().as_hash();
+    // Walk a copy, rooted here: the block may change the receiver.
+    let src = Value::hash_from_inner(lfp.self_val().as_hashmap_inner().clone_inner());
     let mut inner = HashmapInner::default();
-    if src.is_compare_by_identity() {
+    if src.as_hash().is_compare_by_identity() {
         inner.compare_by_identity(vm, globals)?;
     }
-    for (k, v) in src.iter() {
-        if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-            inner.insert(k, v, vm, globals)?;
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(src);
+        for (k, v) in src.as_hash().iter() {
+            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
+                inner.insert(k, v, vm, globals)?;
+            }
         }
-    }
-    Ok(Value::hash_from_inner(inner))
+        Ok(Value::hash_from_inner(inner))
+    })
 }
 
 ///
@@ -2016,12 +2020,17 @@ fn reject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
         inner.compare_by_identity(vm, globals)?;
     }
     let p = vm.get_block_data(globals, bh)?;
-    for (k, v) in lfp.self_val().as_hash().iter() {
-        if !vm.invoke_block(globals, &p, &[k, v])?.as_bool() {
-            inner.insert(k, v, vm, globals)?;
+    // Walk a copy, rooted here: the block may change the receiver.
+    let src = Value::hash_from_inner(lfp.self_val().as_hashmap_inner().clone_inner());
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(src);
+        for (k, v) in src.as_hash().iter() {
+            if !vm.invoke_block(globals, &p, &[k, v])?.as_bool() {
+                inner.insert(k, v, vm, globals)?;
+            }
         }
-    }
-    Ok(Value::hash_from_inner(inner))
+        Ok(Value::hash_from_inner(inner))
+    })
 }
 
 ///
-- 
2.43.0


From 3c9fc63c0ca25d223b4154f4e38942efdc9f3bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:03 +0000
Subject: [PATCH 119/147] fix: walk the argument by position and root what is
 stored in Hash#merge and #merge!

---
 monoruby/src/builtins/hash.rs | 58 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index eda68d6..deda730 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -2234,6 +2234,32 @@ fn invert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     Ok(Value::hash(map))
 }
 
+/// Stores the entries of `other` in `h`; for a key already there the block,
+/// if any, decides on the value. `other` and the block's answer are rooted
+/// here, as the block and the keys' `hash`/`eql?` may run any code.
+fn merge_entries(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    mut h: Hashmap,
+    other: Hashmap,
+    data: Option<&ProcData>,
+) -> Result<()> {
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(other.into());
+        for_each_entry(vm, other, |vm, _, k, other_v| {
+            let mut v = other_v;
+            if let Some(data) = data
+                && let Some(self_v) = h.get(k, vm, globals)?
+            {
+                v = vm.invoke_block(globals, data, &[k, self_v, other_v])?;
+                vm.temp_push(v);
+            }
+            h.insert(k, v, vm, globals)?;
+            Ok(true)
+        })
+    })
+}
+
 ///
 /// ### Hash#merge
 ///
@@ -2243,7 +2269,7 @@ fn invert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 /// [https://docs.ruby-lang.org/ja/latest/method/Hash/i/merge.html]
 #[monoruby_builtin]
 fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let mut h = lfp.self_val().dup().as_hash();
+    let h = lfp.self_val().dup().as_hash();
     // The dup is a fresh Hash referenced only by this Rust local; root it
     // across `#to_hash`, the block calls, and the Ruby `hash`/`eql?`
     // dispatches inside get/insert (contrast `merge!`, where `h` is the
@@ -2254,21 +2280,12 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         let data = vm.get_block_data(globals, block)?;
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            for (k, other_v) in other_val.iter() {
-                if let Some(self_v) = h.get(k, vm, globals)? {
-                    let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
-                    h.insert(k, v, vm, globals)?;
-                } else {
-                    h.insert(k, other_v, vm, globals)?;
-                }
-            }
+            merge_entries(vm, globals, h, other_val, Some(&data))?;
         }
     } else {
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            for (k, v) in other_val.iter() {
-                h.insert(k, v, vm, globals)?;
-            }
+            merge_entries(vm, globals, h, other_val, None)?;
         }
     }
 
@@ -2287,28 +2304,17 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 /// [https://docs.ruby-lang.org/ja/latest/method/Hash/i/merge=21.html]
 #[monoruby_builtin]
 fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let mut h = lfp.self_val().as_hash_mut(&globals.store)?;
+    let h = lfp.self_val().as_hash_mut(&globals.store)?;
     if let Some(block) = lfp.block() {
         let data = vm.get_block_data(globals, block)?;
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            let other = other_val;
-            for (k, other_v) in other.iter() {
-                if let Some(self_v) = h.get(k, vm, globals)? {
-                    let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
-                    h.insert(k, v, vm, globals)?;
-                } else {
-                    h.insert(k, other_v, vm, globals)?;
-                }
-            }
+            merge_entries(vm, globals, h, other_val, Some(&data))?;
         }
     } else {
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            let other = other_val;
-            for (k, v) in other.iter() {
-                h.insert(k, v, vm, globals)?;
-            }
+            merge_entries(vm, globals, h, other_val, None)?;
         }
     }
     Ok(lfp.self_val())
-- 
2.43.0


From b1984a487cca8ea569e88be9086e9fa5709cb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:03 +0000
Subject: [PATCH 120/147] fix: keep the values found by Hash#values_at while
 default procs run

---
 monoruby/src/builtins/hash.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index deda730..53a2da5 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -2358,12 +2358,16 @@ fn compare_by_identity_(
 fn values_at(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let hash = lfp.self_val().as_hash();
     let keys = lfp.arg(0).as_array();
-    let mut res = vec![];
-    for k in keys.iter() {
-        let v = hash.index(vm, globals, *k)?;
-        res.push(v);
-    }
-    Ok(Value::array_from_vec(res))
+    vm.with_temp_scope(|vm| {
+        // Values found stay rooted while a default proc runs for the others.
+        let base = vm.temp_len();
+        for k in keys.iter() {
+            let v = hash.index(vm, globals, *k)?;
+            vm.temp_push(v);
+        }
+        let res = (base..vm.temp_len()).map(|i| vm.temp_at(i)).collect();
+        Ok(Value::array_from_vec(res))
+    })
 }
 
 /// ### Hash#dig
-- 
2.43.0


From 2904866af5051f3d7125285171736a48573e9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:03 +0000
Subject: [PATCH 121/147] fix: copy and freeze string keys in Hash[] and
 Hash#invert

---
 monoruby/src/builtins/hash.rs | 41 +++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 53a2da5..0a44f43 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -413,11 +413,15 @@ fn hash_bracket(
                     "odd number of arguments for Hash".to_string(),
                 ));
             }
-            let mut map = RubyMap::default();
-            for i in (0..len).step_by(2) {
-                map.insert(args[i], args[i + 1], vm, globals)?;
-            }
-            Value::hash(map)
+            let mut hash = Value::hash(RubyMap::default()).as_hash();
+            // Root the copied keys across the `hash`/`eql?` of the others.
+            vm.with_temp_scope(|vm| {
+                vm.temp_push(hash.into());
+                for i in (0..len).step_by(2) {
+                    hash.insert(args[i].frozen_hash_key(), args[i + 1], vm, globals)?;
+                }
+                Ok(hash.into())
+            })?
         }
     };
     // Tag the result with the calling class so `MyHash[...]` returns a
@@ -437,7 +441,10 @@ fn hash_from_array_pairs(
     vm: &mut Executor,
     globals: &mut Globals,
 ) -> Result<Value> {
-    let mut map = RubyMap::default();
+    let mut hash = Value::hash(RubyMap::default()).as_hash();
+    // Root the copied keys across the `hash`/`eql?` of the others.
+    vm.with_temp_scope(|vm| {
+    vm.temp_push(hash.into());
     for (idx, elem) in iter.enumerate() {
         let Some(pair) = elem.try_array_ty() else {
             // CRuby formats `nil`/`true`/`false` literally and uses class
@@ -458,10 +465,10 @@ fn hash_from_array_pairs(
         };
         match pair.len() {
             1 => {
-                map.insert(pair[0], Value::nil(), vm, globals)?;
+                hash.insert(pair[0].frozen_hash_key(), Value::nil(), vm, globals)?;
             }
             2 => {
-                map.insert(pair[0], pair[1], vm, globals)?;
+                hash.insert(pair[0].frozen_hash_key(), pair[1], vm, globals)?;
             }
             n => {
                 return Err(MonorubyErr::argumenterr(format!(
@@ -471,7 +478,8 @@ fn hash_from_array_pairs(
             }
         }
     }
-    Ok(Value::hash(map))
+    Ok(hash.into())
+    })
 }
 
 ///
@@ -2227,11 +2235,16 @@ fn rassoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn invert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     lfp.expect_no_block()?;
     let hash = lfp.self_val().as_hash();
-    let mut map = RubyMap::default();
-    for (k, v) in hash.iter() {
-        map.insert(v, k, vm, globals)?;
-    }
-    Ok(Value::hash(map))
+    let mut inverted = Value::hash(RubyMap::default()).as_hash();
+    // Root the copied keys across the `hash`/`eql?` of the others.
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(inverted.into());
+        for_each_entry(vm, hash, |vm, _, k, v| {
+            inverted.insert(v.frozen_hash_key(), k, vm, globals)?;
+            Ok(true)
+        })?;
+        Ok(inverted.into())
+    })
 }
 
 /// Stores the entries of `other` in `h`; for a key already there the block,
-- 
2.43.0


From a19b689a2aeabe9d6caa8c31ac00829fc3f0ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:03 +0000
Subject: [PATCH 122/147] fix: split paths without resolving .. in File.split

---
 monoruby/src/builtins/file.rs | 46 ++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/monoruby/src/builtins/file.rs b/monoruby/src/builtins/file.rs
index a1106f2..196dfdd 100644
--- a/monoruby/src/builtins/file.rs
+++ b/monoruby/src/builtins/file.rs
@@ -1704,25 +1704,37 @@ fn absolute_path_(
 fn file_split(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let rs = to_path_rstring(vm, globals, lfp.arg(0))?;
     let enc = rs.encoding();
-    let filename = normalize_pathbuf(rs.as_bytes());
-    let dir: Vec<u8> = match filename.parent() {
-        Some(p) if !pathbuf_bytes(p).is_empty() => pathbuf_bytes(p).to_vec(),
-        _ => b".".to_vec(),
-    };
-    let base: Vec<u8> = match filename.file_name() {
-        Some(ostr) => {
-            use std::os::unix::ffi::OsStrExt;
-            ostr.as_bytes().to_vec()
-        }
-        None => {
-            if filename.as_os_str() == "/" {
-                b"/".to_vec()
-            } else {
-                Vec::new()
-            }
+    let (dir, base) = split_path_bytes(rs.as_bytes());
+    Ok(Value::array2(path_value(dir, enc), path_value(base, enc)))
+}
+
+/// Split `path` before its last component, lexically: `.`, `..` and interior
+/// slash runs stay as written, only the leading slash run is squeezed.
+fn split_path_bytes(path: &[u8]) -> (&[u8], &[u8]) {
+    fn trim(mut path: &[u8]) -> &[u8] {
+        while let [rest @ .., b'/'] = path {
+            path = rest;
         }
+        path
+    }
+    let trimmed = trim(path);
+    if trimmed.is_empty() {
+        return if path.is_empty() {
+            (b".", b"")
+        } else {
+            (b"/", b"/")
+        };
+    }
+    let Some(pos) = trimmed.iter().rposition(|&b| b == b'/') else {
+        return (b".", trimmed);
     };
-    Ok(Value::array2(path_value(&dir, enc), path_value(&base, enc)))
+    let mut dir = trim(&trimmed[..pos]);
+    while let [b'/', rest @ ..] = dir
+        && rest.first() == Some(&b'/')
+    {
+        dir = rest;
+    }
+    (if dir.is_empty() { b"/" } else { dir }, &trimmed[pos + 1..])
 }
 
 // Utils
-- 
2.43.0


From 5cf3e99454c3c23ca2449b862e0e94a8d17014a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:03 +0000
Subject: [PATCH 123/147] fix: resolve . and .. in File.absolute_path

---
 monoruby/src/builtins/file.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/builtins/file.rs b/monoruby/src/builtins/file.rs
index 196dfdd..2dd641b 100644
--- a/monoruby/src/builtins/file.rs
+++ b/monoruby/src/builtins/file.rs
@@ -1661,22 +1661,31 @@ fn absolute_path(
 ) -> Result<Value> {
     let rs = to_path_rstring(vm, globals, lfp.arg(0))?;
     let enc = rs.encoding();
-    if rs.as_bytes().first() == Some(&b'/') {
-        return Ok(path_value(rs.as_bytes(), enc));
-    }
-    let base = if let Some(arg1) = lfp.try_arg(1)
+    // Like `expand_path`, but a leading `~` is an ordinary component.
+    let mut path = rs.as_bytes().to_vec();
+    if path.first() != Some(&b'/')
+        && let Some(arg1) = lfp.try_arg(1)
         && !arg1.is_nil()
     {
-        bytes_to_pathbuf(to_path_rstring(vm, globals, arg1)?.as_bytes())
-    } else {
-        match std::env::current_dir() {
-            Ok(dir) => dir,
+        let mut base = to_path_rstring(vm, globals, arg1)?.as_bytes().to_vec();
+        if base.last().is_some_and(|&b| b != b'/') {
+            base.push(b'/');
+        }
+        base.extend_from_slice(&path);
+        path = base;
+    }
+    if path.first() != Some(&b'/') {
+        let mut base = match std::env::current_dir() {
+            Ok(dir) => pathbuf_bytes(&dir).to_vec(),
             Err(err) => return Err(MonorubyErr::errno_with_msg(&globals.store, &err, ".")),
+        };
+        if base.last() != Some(&b'/') {
+            base.push(b'/');
         }
-    };
-    let mut result = base;
-    result.push(bytes_to_pathbuf(rs.as_bytes()));
-    Ok(path_value(pathbuf_bytes(&result), enc))
+        base.extend_from_slice(&path);
+        path = base;
+    }
+    Ok(path_value(&normalize_abs_bytes(&path), enc))
 }
 
 ///
-- 
2.43.0


From 8e0e2685f63ee72b115d18f59c09b651bbc2b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:03 +0000
Subject: [PATCH 124/147] fix: keep leading dots and whole names in
 File.basename with a suffix

---
 monoruby/src/builtins/file.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/file.rs b/monoruby/src/builtins/file.rs
index 2dd641b..0a3298c 100644
--- a/monoruby/src/builtins/file.rs
+++ b/monoruby/src/builtins/file.rs
@@ -710,14 +710,14 @@ fn file_basename(
     if let Some(suffix) = suffix {
         if suffix == b".*" {
             // CRuby treats the ".*" suffix specially: strip the last
-            // extension (a '.' that is not the leading char, so
+            // extension (a '.' that is not among the leading ones, so
             // dotfiles like ".bashrc" are preserved).
             if let Some(pos) = basename.iter().rposition(|&b| b == b'.') {
-                if pos > 0 {
+                if basename[..pos].iter().any(|&b| b != b'.') {
                     return Ok(path_value(&basename[..pos], enc));
                 }
             }
-        } else if basename.ends_with(&suffix) {
+        } else if basename.len() > suffix.len() && basename.ends_with(&suffix) {
             return Ok(path_value(&basename[..basename.len() - suffix.len()], enc));
         }
     }
-- 
2.43.0


From 57a45d05350ead72efc0d01705576df7bff9db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:16 +0000
Subject: [PATCH 125/147] fix: ignore trailing slashes in File.extname

---
 monoruby/src/builtins/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/file.rs b/monoruby/src/builtins/file.rs
index 0a3298c..1e8b0dc 100644
--- a/monoruby/src/builtins/file.rs
+++ b/monoruby/src/builtins/file.rs
@@ -803,7 +803,7 @@ fn file_extname(
     let base: &[u8] = filename
         .as_bytes()
         .rsplit(|&b| b == b'/')
-        .next()
+        .find(|s| !s.is_empty())
         .unwrap_or(b"");
     let extname: &[u8] = match base.iter().rposition(|&b| b == b'.') {
         // No extension when nothing but dots precedes the last dot:
-- 
2.43.0


From e1a1feb31c52b9e4a95a93187407364d95055fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:41 +0000
Subject: [PATCH 126/147] fix: match suffixes of whole characters in
 File.basename

---
 monoruby/src/builtins/file.rs   | 5 ++++-
 monoruby/src/builtins/string.rs | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/file.rs b/monoruby/src/builtins/file.rs
index 1e8b0dc..c6ef48a 100644
--- a/monoruby/src/builtins/file.rs
+++ b/monoruby/src/builtins/file.rs
@@ -717,7 +717,10 @@ fn file_basename(
                     return Ok(path_value(&basename[..pos], enc));
                 }
             }
-        } else if basename.len() > suffix.len() && basename.ends_with(&suffix) {
+        } else if basename.len() > suffix.len()
+            && basename.ends_with(&suffix)
+            && super::string::enc_char_boundary(enc, basename, basename.len() - suffix.len())
+        {
             return Ok(path_value(&basename[..basename.len() - suffix.len()], enc));
         }
     }
diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index d7bf7ba..14dab10 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1849,7 +1849,11 @@ fn is_utf8_char_boundary(bytes: &[u8], pos: usize) -> bool {
 /// head). UTF-16 is surrogate-aware — a low surrogate (the 2nd half
 /// of an astral character) is not a head. In EUC-JP and Shift_JIS
 /// heads are only known by walking the characters from the start.
-fn enc_char_boundary(enc: crate::value::Encoding, bytes: &[u8], pos: usize) -> bool {
+pub(super) fn enc_char_boundary(
+    enc: crate::value::Encoding,
+    bytes: &[u8],
+    pos: usize,
+) -> bool {
     use crate::value::Encoding as E;
     if pos == 0 || pos >= bytes.len() {
         return true;
-- 
2.43.0


From 63cce82599d527cb48f5f7bf248000e608fb9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:31:36 +0000
Subject: [PATCH 127/147] fix: keep every element in the copy of a Set that
 compares by identity

---
 monoruby/src/builtins/set.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index b9bd3c5..dfb53fc 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -408,10 +408,11 @@ fn set_inspect(
 #[monoruby_builtin]
 fn dup(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let keys = set_keys(lfp.self_val());
-    let new_set = set_from_iter(keys.into_iter(), vm, globals)?;
     // `compare_by_identity` persists across #dup / #clone.
-    if lfp.self_val().as_hash().is_compare_by_identity() {
-        new_set.as_hash().compare_by_identity(vm, globals)?;
+    let new_set = new_empty_set_like(lfp.self_val())?;
+    for k in keys {
+        new_set
+            .as_hash().insert(k, Value::bool(true), vm, globals)?;
     }
     Ok(new_set)
 }
-- 
2.43.0


From 611a79056cefc815e24f37f9454be42e8b087576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:37:40 +0000
Subject: [PATCH 128/147] fix: walk sets by position while comparing them

---
 monoruby/src/builtins/hash.rs |  2 +-
 monoruby/src/builtins/set.rs  | 88 +++++++++++++++--------------------
 2 files changed, 39 insertions(+), 51 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 0a44f43..040232d 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -326,7 +326,7 @@ fn hash_to_sized_enum(
 /// answers false. The walk goes by position, so `f` may run code that removes
 /// entries or changes the representation; adding a key raises meanwhile. The
 /// entry at hand is rooted, in case that code removes it.
-fn for_each_entry(
+pub(super) fn for_each_entry(
     vm: &mut Executor,
     hash: Hashmap,
     mut f: impl FnMut(&mut Executor, usize, Value, Value) -> Result<bool>,
diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index dfb53fc..7e6101a 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -134,6 +134,24 @@ fn set_keys(val: Value) -> Vec<Value> {
     val.as_hashmap_inner().keys()
 }
 
+/// Whether any element of `from` is (`member`) or is not (`!member`) in `set`.
+/// `from` is walked by position, as `hash` and `eql?` of the elements may run
+/// code that changes it.
+fn find_member(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    from: Value,
+    set: Value,
+    member: bool,
+) -> Result<bool> {
+    let mut found = false;
+    super::hash::for_each_entry(vm, from.as_hash(), |vm, _, k, _| {
+        found = set.as_hashmap_inner().contains_key(k, vm, globals)? == member;
+        Ok(!found)
+    })?;
+    Ok(found)
+}
+
 /// Check if a value is a Set.
 fn is_set(val: Value, store: &Store) -> bool {
     val.is_kind_of(store, SET_CLASS)
@@ -645,10 +663,8 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
         return Ok(Value::bool(false));
     }
     crate::value::exec_recursive_paired(self_val.id(), other.id(), || {
-        for (k, _) in self_inner.iter() {
-            if !other_inner.contains_key(k, vm, globals)? {
-                return Ok(Value::bool(false));
-            }
+        if find_member(vm, globals, self_val, other, false)? {
+            return Ok(Value::bool(false));
         }
         Ok(Value::bool(true))
     }, Value::bool(true))
@@ -673,10 +689,8 @@ fn subset_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     if self_inner.len() > other_inner.len() {
         return Ok(Value::bool(false));
     }
-    for (k, _) in self_inner.iter() {
-        if !other_inner.contains_key(k, vm, globals)? {
-            return Ok(Value::bool(false));
-        }
+    if find_member(vm, globals, self_val, other, false)? {
+        return Ok(Value::bool(false));
     }
     Ok(Value::bool(true))
 }
@@ -700,10 +714,8 @@ fn superset_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     if self_inner.len() < other_inner.len() {
         return Ok(Value::bool(false));
     }
-    for (k, _) in other_inner.iter() {
-        if !self_inner.contains_key(k, vm, globals)? {
-            return Ok(Value::bool(false));
-        }
+    if find_member(vm, globals, other, self_val, false)? {
+        return Ok(Value::bool(false));
     }
     Ok(Value::bool(true))
 }
@@ -732,10 +744,8 @@ fn proper_subset_(
     if self_inner.len() >= other_inner.len() {
         return Ok(Value::bool(false));
     }
-    for (k, _) in self_inner.iter() {
-        if !other_inner.contains_key(k, vm, globals)? {
-            return Ok(Value::bool(false));
-        }
+    if find_member(vm, globals, self_val, other, false)? {
+        return Ok(Value::bool(false));
     }
     Ok(Value::bool(true))
 }
@@ -764,10 +774,8 @@ fn proper_superset_(
     if self_inner.len() <= other_inner.len() {
         return Ok(Value::bool(false));
     }
-    for (k, _) in other_inner.iter() {
-        if !self_inner.contains_key(k, vm, globals)? {
-            return Ok(Value::bool(false));
-        }
+    if find_member(vm, globals, other, self_val, false)? {
+        return Ok(Value::bool(false));
     }
     Ok(Value::bool(true))
 }
@@ -788,21 +796,9 @@ fn spaceship(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let self_inner = self_val.as_hashmap_inner();
     let other_inner = other.as_hashmap_inner();
 
-    let mut self_sub_other = true;
-    for (k, _) in self_inner.iter() {
-        if !other_inner.contains_key(k, vm, globals)? {
-            self_sub_other = false;
-            break;
-        }
-    }
+    let self_sub_other = !find_member(vm, globals, self_val, other, false)?;
 
-    let mut other_sub_self = true;
-    for (k, _) in other_inner.iter() {
-        if !self_inner.contains_key(k, vm, globals)? {
-            other_sub_self = false;
-            break;
-        }
-    }
+    let other_sub_self = !find_member(vm, globals, other, self_val, false)?;
 
     if self_sub_other && other_sub_self {
         Ok(Value::integer(0))
@@ -830,16 +826,12 @@ fn disjoint_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     if is_set(other, &globals.store) {
         let other_inner = other.as_hashmap_inner();
         if self_inner.len() <= other_inner.len() {
-            for (k, _) in self_inner.iter() {
-                if other_inner.contains_key(k, vm, globals)? {
-                    return Ok(Value::bool(false));
-                }
+            if find_member(vm, globals, self_val, other, true)? {
+                return Ok(Value::bool(false));
             }
         } else {
-            for (k, _) in other_inner.iter() {
-                if self_inner.contains_key(k, vm, globals)? {
-                    return Ok(Value::bool(false));
-                }
+            if find_member(vm, globals, other, self_val, true)? {
+                return Ok(Value::bool(false));
             }
         }
     } else {
@@ -872,16 +864,12 @@ fn intersect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     if is_set(other, &globals.store) {
         let other_inner = other.as_hashmap_inner();
         if self_inner.len() <= other_inner.len() {
-            for (k, _) in self_inner.iter() {
-                if other_inner.contains_key(k, vm, globals)? {
-                    return Ok(Value::bool(true));
-                }
+            if find_member(vm, globals, self_val, other, true)? {
+                return Ok(Value::bool(true));
             }
         } else {
-            for (k, _) in other_inner.iter() {
-                if self_inner.contains_key(k, vm, globals)? {
-                    return Ok(Value::bool(true));
-                }
+            if find_member(vm, globals, other, self_val, true)? {
+                return Ok(Value::bool(true));
             }
         }
     } else {
-- 
2.43.0


From 0e82660f091e120b0895a0579e7fd88ae59668fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:37:59 +0000
Subject: [PATCH 129/147] fix: root new sets and elements while Set methods ask
 for hash and eql?

---
 monoruby/src/builtins/set.rs | 164 ++++++++++++++++++-----------------
 1 file changed, 85 insertions(+), 79 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index 7e6101a..aaf660f 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -122,13 +122,67 @@ fn set_from_iter(
     globals: &mut Globals,
 ) -> Result<Value> {
     let set = new_empty_set();
-    let mut h = set.as_hash();
-    for v in iter {
-        h.insert(v, Value::bool(true), vm, globals)?;
-    }
+    insert_all(vm, globals, set, iter.collect())?;
     Ok(set)
 }
 
+/// Insert `elems` into `set`. Both are rooted meanwhile, as `hash` and `eql?`
+/// of the elements may run code.
+fn insert_all(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    set: Value,
+    elems: Vec<Value>,
+) -> Result<()> {
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(set);
+        vm.temp_push(Value::array_from_vec(elems.clone()));
+        for elem in elems {
+            set.as_hash().insert(elem, Value::bool(true), vm, globals)?;
+        }
+        Ok(())
+    })
+}
+
+/// Insert the elements of `from` that are (`member`) or are not (`!member`) in
+/// `set` into `result`, with everything rooted as in `insert_all`.
+fn insert_members(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    from: Value,
+    set: Value,
+    member: bool,
+    result: Value,
+) -> Result<()> {
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(from);
+        vm.temp_push(set);
+        vm.temp_push(result);
+        super::hash::for_each_entry(vm, from.as_hash(), |vm, _, k, _| {
+            if set.as_hashmap_inner().contains_key(k, vm, globals)? == member {
+                result.as_hash().insert(k, Value::bool(true), vm, globals)?;
+            }
+            Ok(true)
+        })
+    })
+}
+
+/// Remove `elems` from `set`, with the elements rooted as in `insert_all`.
+fn remove_all(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    set: Value,
+    elems: Vec<Value>,
+) -> Result<()> {
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(Value::array_from_vec(elems.clone()));
+        for elem in elems {
+            set.as_hash().remove(elem, vm, globals)?;
+        }
+        Ok(())
+    })
+}
+
 /// Get the keys of a Set's internal hash as a Vec.
 fn set_keys(val: Value) -> Vec<Value> {
     val.as_hashmap_inner().keys()
@@ -428,10 +482,7 @@ fn dup(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     let keys = set_keys(lfp.self_val());
     // `compare_by_identity` persists across #dup / #clone.
     let new_set = new_empty_set_like(lfp.self_val())?;
-    for k in keys {
-        new_set
-            .as_hash().insert(k, Value::bool(true), vm, globals)?;
-    }
+    insert_all(vm, globals, new_set, keys)?;
     Ok(new_set)
 }
 
@@ -448,10 +499,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let args = lfp.arg(0).as_array();
     for arg in args.iter().copied() {
         let elems = enum_to_vec(vm, globals, arg)?;
-        for elem in elems {
-            self_val
-                .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-        }
+        insert_all(vm, globals, self_val, elems)?;
     }
     Ok(self_val)
 }
@@ -467,9 +515,7 @@ fn subtract(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let self_val = lfp.self_val();
     self_val.ensure_not_frozen(&globals.store)?;
     let elems = enum_to_vec(vm, globals, lfp.arg(0))?;
-    for elem in elems {
-        self_val.as_hash().remove(elem, vm, globals)?;
-    }
+    remove_all(vm, globals, self_val, elems)?;
     Ok(self_val)
 }
 
@@ -497,10 +543,7 @@ fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     if let Some(ident) = ident {
         self_val.as_hash().set_compare_by_identity_empty(ident)?;
     }
-    for elem in elems {
-        self_val
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-    }
+    insert_all(vm, globals, self_val, elems)?;
     Ok(self_val)
 }
 
@@ -519,26 +562,16 @@ fn intersection(
     _: BytecodePtr,
 ) -> Result<Value> {
     let self_val = lfp.self_val();
-    let self_inner = self_val.as_hashmap_inner();
     let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
     // Build a temp hash for the other side. It compares like `self` does, so
     // the membership tests below follow `self`'s rule — CRuby probes the
     // enum's elements against `self`'s own hash.
     let other = new_empty_set_like(self_val)?;
-    for elem in other_elems {
-        other
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-    }
-    let other_inner = other.as_hashmap_inner();
+    insert_all(vm, globals, other, other_elems)?;
     // `&` alone builds a *plain* result: CRuby allocates a fresh Set here
     // rather than duplicating `self` (see `new_empty_set_like` at `-` / `^`).
     let result = new_empty_set();
-    for (k, _) in self_inner.iter() {
-        if other_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
-        }
-    }
+    insert_members(vm, globals, self_val, other, true, result)?;
     Ok(result)
 }
 
@@ -552,19 +585,13 @@ fn intersection(
 /// [https://docs.ruby-lang.org/ja/latest/method/Set/i/=7c.html]
 #[monoruby_builtin]
 fn union_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let self_keys = set_keys(lfp.self_val());
     let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
+    let mut elems = set_keys(lfp.self_val());
+    elems.extend(other_elems);
     // CRuby builds `|` by duplicating `self` and merging the enum into it, so
     // the result keeps `self`'s comparison mode (and the merge follows it).
     let result = new_empty_set_like(lfp.self_val())?;
-    for k in self_keys {
-        result
-            .as_hash().insert(k, Value::bool(true), vm, globals)?;
-    }
-    for k in other_elems {
-        result
-            .as_hash().insert(k, Value::bool(true), vm, globals)?;
-    }
+    insert_all(vm, globals, result, elems)?;
     Ok(result)
 }
 
@@ -578,24 +605,14 @@ fn union_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 #[monoruby_builtin]
 fn difference(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_val = lfp.self_val();
-    let self_inner = self_val.as_hashmap_inner();
     let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
     // CRuby builds `-` by duplicating `self` and deleting the enum's elements
     // from it: the result keeps `self`'s comparison mode, and so do the
     // deletions (hence the `_like` temp probed below).
     let other = new_empty_set_like(self_val)?;
-    for elem in other_elems {
-        other
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-    }
-    let other_inner = other.as_hashmap_inner();
+    insert_all(vm, globals, other, other_elems)?;
     let result = new_empty_set_like(self_val)?;
-    for (k, _) in self_inner.iter() {
-        if !other_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
-        }
-    }
+    insert_members(vm, globals, self_val, other, false, result)?;
     Ok(result)
 }
 
@@ -613,29 +630,14 @@ fn symmetric_difference(
     _: BytecodePtr,
 ) -> Result<Value> {
     let self_val = lfp.self_val();
-    let self_inner = self_val.as_hashmap_inner();
     let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
     // Both halves of the symmetric difference are probed with `self`'s
     // comparison mode, and the result keeps it (as CRuby's `^` does).
     let other = new_empty_set_like(self_val)?;
-    for elem in other_elems {
-        other
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-    }
-    let other_inner = other.as_hashmap_inner();
+    insert_all(vm, globals, other, other_elems)?;
     let result = new_empty_set_like(self_val)?;
-    for (k, _) in self_inner.iter() {
-        if !other_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
-        }
-    }
-    for (k, _) in other_inner.iter() {
-        if !self_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
-        }
-    }
+    insert_members(vm, globals, self_val, other, false, result)?;
+    insert_members(vm, globals, other, self_val, false, result)?;
     Ok(result)
 }
 
@@ -1085,7 +1087,10 @@ fn flatten(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     let mut result = new_empty_set();
     let mut seen = std::collections::HashSet::new();
     seen.insert(self_val.id());
-    flatten_set_into(&mut result, self_val, vm, globals, &mut seen)?;
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(result);
+        flatten_set_into(&mut result, self_val, vm, globals, &mut seen)
+    })?;
     Ok(result)
 }
 
@@ -1097,6 +1102,7 @@ fn flatten_set_into(
     seen: &mut std::collections::HashSet<u64>,
 ) -> Result<()> {
     let keys = set_keys(set);
+    vm.temp_push(Value::array_from_vec(keys.clone()));
     for val in keys {
         if is_set(val, &globals.store) {
             if !seen.insert(val.id()) {
@@ -1132,7 +1138,10 @@ fn flatten_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let mut result = new_empty_set();
     let mut seen = std::collections::HashSet::new();
     seen.insert(self_val.id());
-    flatten_set_into(&mut result, self_val, vm, globals, &mut seen)?;
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(result);
+        flatten_set_into(&mut result, self_val, vm, globals, &mut seen)
+    })?;
     // Replace self's contents. As with `map!`, CRuby swaps in the freshly
     // built (plain) Set, so the flag is dropped — but only on this path: an
     // already-flat Set returned early above and keeps its flag.
@@ -1140,10 +1149,7 @@ fn flatten_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     self_val.as_hash().clear()?;
     self_val.as_hash().set_compare_by_identity_empty(false)?;
     let new_keys = set_keys(result);
-    for k in new_keys {
-        self_val
-            .as_hash().insert(k, Value::bool(true), vm, globals)?;
-    }
+    insert_all(vm, globals, self_val, new_keys)?;
     Ok(self_val)
 }
 
@@ -1422,15 +1428,15 @@ fn set_hash(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     // The per-process seeded hasher keeps element digests consistent
     // within a process while randomizing them across processes
     // (CVE-2011-4815).
-    let keys = set_keys(lfp.self_val());
     // Constant mixed in to distinguish an empty Set from other empty
     // aggregates that XOR-combine to 0.
     let mut combined: u64 = 0x5e7_5e7_5e7_5e7;
-    for k in keys {
+    super::hash::for_each_entry(vm, lfp.self_val().as_hash(), |vm, _, k, _| {
         let mut hasher = crate::value::seeded_hasher();
         k.ruby_hash(&mut hasher, vm, globals)?;
         combined ^= hasher.finish();
-    }
+        Ok(true)
+    })?;
     Ok(Value::from_hash_digest(combined))
 }
 
-- 
2.43.0


From b3def18c0fefeb7bc1a554e256389ab036489c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:38:04 +0000
Subject: [PATCH 130/147] fix: root elements while the blocks of Set methods
 run

---
 monoruby/src/builtins/set.rs | 83 ++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index aaf660f..8ffa1fa 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -425,13 +425,11 @@ fn each(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) ->
         Some(block) => block,
     };
     let self_val = lfp.self_val();
-    let inner = self_val.as_hashmap_inner();
-    let keys = inner.keys();
     let data = vm.get_block_data(globals, bh)?;
-    let _iter_guard = inner.iter_guard();
-    for val in keys {
+    super::hash::for_each_entry(vm, self_val.as_hash(), |vm, _, val, _| {
         vm.invoke_block(globals, &data, &[val])?;
-    }
+        Ok(true)
+    })?;
     Ok(lfp.self_val())
 }
 
@@ -909,16 +907,18 @@ fn delete_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr
     let keys = set_keys(lfp.self_val());
     let data = vm.get_block_data(globals, bh)?;
     let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(Value::array_from_vec(keys.clone()));
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
+        Ok(())
+    })?;
     let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
+    remove_all(vm, globals, self_val, to_delete)?;
     Ok(self_val)
 }
 
@@ -942,16 +942,18 @@ fn keep_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     let keys = set_keys(lfp.self_val());
     let data = vm.get_block_data(globals, bh)?;
     let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if !result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(Value::array_from_vec(keys.clone()));
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if !result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
+        Ok(())
+    })?;
     let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
+    remove_all(vm, globals, self_val, to_delete)?;
     Ok(self_val)
 }
 
@@ -977,19 +979,21 @@ fn select_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     let keys = set_keys(lfp.self_val());
     let data = vm.get_block_data(globals, bh)?;
     let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if !result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(Value::array_from_vec(keys.clone()));
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if !result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
+        Ok(())
+    })?;
     if to_delete.is_empty() {
         return Ok(Value::nil());
     }
     let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
+    remove_all(vm, globals, self_val, to_delete)?;
     Ok(self_val)
 }
 
@@ -1013,19 +1017,21 @@ fn reject_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     let keys = set_keys(lfp.self_val());
     let data = vm.get_block_data(globals, bh)?;
     let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(Value::array_from_vec(keys.clone()));
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
+        Ok(())
+    })?;
     if to_delete.is_empty() {
         return Ok(Value::nil());
     }
     let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
+    remove_all(vm, globals, self_val, to_delete)?;
     Ok(self_val)
 }
 
@@ -1054,6 +1060,8 @@ fn collect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
         // Block return values are freshly allocated; stash them in a GC-rooted
         // Array on the temp_stack so they survive both the collection loop
         // and the subsequent insert loop (which calls Ruby-level .hash/.eql?).
+        // The elements are rooted too, as the block may remove them.
+        vm.temp_push(Value::array_from_vec(keys.clone()));
         vm.temp_array_new(Some(keys.len()));
         for val in keys {
             let mapped = vm.invoke_block(globals, &data, &[val])?;
@@ -1214,6 +1222,7 @@ fn classify(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     // `RValue::ty()` unwrap-on-`None` panic (a swept, dead RVALUE).
     vm.with_temp_scope(|vm| {
         vm.temp_push(result_hash);
+        vm.temp_push(Value::array_from_vec(keys.clone()));
         for k in keys {
             let classification = vm.invoke_block(globals, &data, &[k])?;
             let depth = vm.temp_len();
-- 
2.43.0


From cca6c4669a1f340ae86396b16bb91eba7b29ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:46 +0000
Subject: [PATCH 131/147] fix: refuse negative offsets and counts in IO::Buffer
 value access

---
 monoruby/src/builtins/io_buffer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index 72a568b..c04ce61 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -214,6 +214,12 @@ fn encode_value(
     Ok(out)
 }
 
+/// An offset or a count, with CRuby's message for a negative one.
+fn non_negative(vm: &mut Executor, globals: &mut Globals, v: Value, what: &str) -> Result<usize> {
+    usize::try_from(v.coerce_to_int_i64(vm, globals)?)
+        .map_err(|_| MonorubyErr::argumenterr(format!("{what} can't be negative!")))
+}
+
 ///
 /// ### IO::Buffer#get_value
 ///
@@ -223,7 +229,7 @@ fn encode_value(
 fn get_value(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_ = lfp.self_val();
     let (width, kind, big) = value_type_arg(lfp.arg(0))?;
-    let offset = lfp.arg(1).coerce_to_int_i64(vm, globals)?.max(0) as usize;
+    let offset = non_negative(vm, globals, lfp.arg(1), "Offset")?;
     let buf = self_.as_io_buffer_inner();
     if offset + width > buf.size {
         return Err(MonorubyErr::argumenterr(format!(
@@ -245,7 +251,7 @@ fn set_value(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let mut self_ = lfp.self_val();
     check_writable(globals, self_.as_io_buffer_inner())?;
     let (width, kind, big) = value_type_arg(lfp.arg(0))?;
-    let offset = lfp.arg(1).coerce_to_int_i64(vm, globals)?.max(0) as usize;
+    let offset = non_negative(vm, globals, lfp.arg(1), "Offset")?;
     if offset + width > self_.as_io_buffer_inner().size {
         return Err(MonorubyErr::argumenterr(format!(
             "Type extends beyond end of buffer! (offset={} > size={})",
@@ -272,11 +278,11 @@ fn each_values(
     let (width, kind, big) = value_type_arg(lfp.arg(0))?;
     let buf = self_.as_io_buffer_inner();
     let mut offset = match lfp.try_arg(1) {
-        Some(v) if !v.is_nil() => v.coerce_to_int_i64(vm, globals)?.max(0) as usize,
+        Some(v) if !v.is_nil() => non_negative(vm, globals, v, "Offset")?,
         _ => 0,
     };
     let count = match lfp.try_arg(2) {
-        Some(v) if !v.is_nil() => Some(v.coerce_to_int_i64(vm, globals)?.max(0) as usize),
+        Some(v) if !v.is_nil() => Some(non_negative(vm, globals, v, "Count")?),
         _ => None,
     };
     let bytes = buf.read_bytes()?;
@@ -352,11 +358,11 @@ fn each_byte(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr
         return vm.generate_enumerator(IdentId::get_id("each_byte"), self_, args, pc);
     };
     let offset = match lfp.try_arg(0) {
-        Some(v) if !v.is_nil() => v.coerce_to_int_i64(vm, globals)?.max(0) as usize,
+        Some(v) if !v.is_nil() => non_negative(vm, globals, v, "Offset")?,
         _ => 0,
     };
     let count = match lfp.try_arg(1) {
-        Some(v) if !v.is_nil() => Some(v.coerce_to_int_i64(vm, globals)?.max(0) as usize),
+        Some(v) if !v.is_nil() => Some(non_negative(vm, globals, v, "Count")?),
         _ => None,
     };
     let bytes = self_.as_io_buffer_inner().read_bytes()?;
-- 
2.43.0


From 8597957adbc3b0877181d38d4aebb8eaea24a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:46 +0000
Subject: [PATCH 132/147] fix: check that writes through an IO::Buffer view
 stay inside its source

---
 monoruby/src/value/rvalue/io_buffer.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/value/rvalue/io_buffer.rs b/monoruby/src/value/rvalue/io_buffer.rs
index 1e06776..be3e7ef 100644
--- a/monoruby/src/value/rvalue/io_buffer.rs
+++ b/monoruby/src/value/rvalue/io_buffer.rs
@@ -174,11 +174,16 @@ impl IoBufferInner {
         }
     }
 
-    /// Write `data` into the buffer at `offset` (already bounds-checked
-    /// by the caller against `self.size`). String-backed buffers mutate
+    /// Write `data` into the buffer at `offset`. String-backed buffers mutate
     /// the String's bytes in place, so the change is visible through the
-    /// original String; slices write through to their parent.
+    /// original String; slices write through to their parent. Fails when the
+    /// span no longer fits the buffer or what it is a view of.
     pub fn write_at(&mut self, offset: usize, data: &[u8]) -> Result<()> {
+        if offset + data.len() > self.size {
+            return Err(MonorubyErr::argumenterr(
+                "Specified offset+length is bigger than the buffer size!",
+            ));
+        }
         match &mut self.storage {
             BufStorage::Null => Ok(()),
             BufStorage::Owned(v) => {
@@ -201,7 +206,7 @@ impl IoBufferInner {
                 let base = *base;
                 let mut sv = *s;
                 let inner = sv.as_rstring_inner_mut();
-                if base + offset + data.len() > inner.len() {
+                if base + self.size > inner.len() {
                     return Err(MonorubyErr::argumenterr(
                         "Specified offset+length is bigger than the buffer size!",
                     ));
@@ -217,6 +222,11 @@ impl IoBufferInner {
             } => {
                 let base = *base;
                 let mut pv = *parent;
+                if base + self.size > pv.as_io_buffer_inner().size {
+                    return Err(MonorubyErr::argumenterr(
+                        "Specified offset+length is bigger than the buffer size!",
+                    ));
+                }
                 pv.as_io_buffer_inner_mut().write_at(base + offset, data)
             }
         }
-- 
2.43.0


From f3b7e42e8262f86658f5b636ce8f38939069e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:46 +0000
Subject: [PATCH 133/147] fix: store unsigned 64-bit values with
 IO::Buffer#set_value

---
 monoruby/src/builtins/io_buffer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index c04ce61..ef904e9 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -203,6 +203,14 @@ fn encode_value(
                 f.to_bits()
             }
         }
+        ValKind::Unsigned if width == 8 => {
+            let v = v.coerce_to_int(vm, globals)?;
+            match v.unpack() {
+                RV::BigInt(b) => u64::try_from(b)
+                    .map_err(|_| MonorubyErr::rangeerr("bignum out of range of unsigned 64-bit"))?,
+                _ => v.coerce_to_int_i64(vm, globals)? as u64,
+            }
+        }
         _ => (v.coerce_to_int_i64(vm, globals)? as u64) & mask(width),
     };
     let mut out = [0u8; 8];
-- 
2.43.0


From 486224e3281ebc1bcec7c0b8ec30b0d1878b7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:46 +0000
Subject: [PATCH 134/147] fix: raise when an IO::Buffer cannot be allocated

---
 monoruby/src/builtins/io_buffer.rs | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index ef904e9..c56b6bc 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -434,6 +434,28 @@ fn check_writable(globals: &mut Globals, buf: &IoBufferInner) -> Result<()> {
     Ok(())
 }
 
+/// `size` zero bytes, or AllocationError when there is no memory for them.
+fn zeroed(globals: &mut Globals, size: usize) -> Result<Vec<u8>> {
+    if size == 0 {
+        return Ok(vec![]);
+    }
+    if let Ok(layout) = std::alloc::Layout::array::<u8>(size) {
+        // SAFETY: the layout is not empty, and the vector takes over exactly
+        // what was allocated with it.
+        unsafe {
+            let ptr = std::alloc::alloc_zeroed(layout);
+            if !ptr.is_null() {
+                return Ok(Vec::from_raw_parts(ptr, size, size));
+            }
+        }
+    }
+    Err(buffer_err(
+        globals,
+        "AllocationError",
+        "Could not allocate buffer!",
+    ))
+}
+
 ///
 /// ### IO::Buffer#initialize
 ///
@@ -490,7 +512,7 @@ fn initialize(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
                 f
             }
         };
-        IoBufferInner::owned(vec![0u8; size], flags)
+        IoBufferInner::owned(zeroed(globals, size)?, flags)
     };
     *lfp.self_val().as_io_buffer_inner_mut() = inner;
     Ok(lfp.self_val())
@@ -564,7 +586,7 @@ fn buffer_string(
     let bh = lfp
         .block()
         .ok_or_else(|| MonorubyErr::localjumperr("no block given"))?;
-    let mut string = Value::bytes(vec![0u8; len as usize]);
+    let mut string = Value::bytes(zeroed(globals, len as usize)?);
     let inner = IoBufferInner::string_backed(string, len as usize, BUF_EXTERNAL);
     let buf_val = Value::new_io_buffer(inner);
     vm.with_temp_scope(|vm| {
@@ -840,8 +862,10 @@ fn resize(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         }
         _ => {}
     }
-    let mut bytes = buf.read_bytes()?;
-    bytes.resize(new_size, 0);
+    let old = buf.read_bytes()?;
+    let mut bytes = zeroed(globals, new_size)?;
+    let kept = old.len().min(new_size);
+    bytes[..kept].copy_from_slice(&old[..kept]);
     let flags = if buf.is_null() {
         if new_size < page_size() { BUF_INTERNAL } else { BUF_MAPPED }
     } else {
-- 
2.43.0


From fec473b905c86b70db5a9b02c8a83362a279d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:46 +0000
Subject: [PATCH 135/147] fix: compare IO::Buffers by size before contents

---
 monoruby/src/builtins/io_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index c56b6bc..b876d3c 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -1059,7 +1059,7 @@ fn cmp(_: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
     }
     let a = self_.as_io_buffer_inner().read_bytes()?;
     let b = other.as_io_buffer_inner().read_bytes()?;
-    let ord = a.cmp(&b);
+    let ord = a.len().cmp(&b.len()).then_with(|| a.cmp(&b));
     Ok(Value::integer(match ord {
         std::cmp::Ordering::Less => -1,
         std::cmp::Ordering::Equal => 0,
-- 
2.43.0


From 5c5a5b99c8fe4afca9d15d2eceb643f616a3b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:46 +0000
Subject: [PATCH 136/147] fix: keep the values that IO::Buffer#each hands out

---
 monoruby/src/builtins/io_buffer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index b876d3c..e01e509 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -328,10 +328,14 @@ fn each(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) ->
     };
     let pairs = each_values(vm, globals, lfp)?;
     let p = vm.get_block_data(globals, bh)?;
-    for (off, v) in pairs {
-        vm.invoke_block(globals, &p, &[Value::integer(off as i64), v])?;
-    }
-    Ok(lfp.self_val())
+    vm.with_temp_scope(|vm| {
+        // Floats and big integers are objects of their own.
+        vm.temp_push(Value::array_from_vec(pairs.iter().map(|(_, v)| *v).collect()));
+        for (off, v) in pairs {
+            vm.invoke_block(globals, &p, &[Value::integer(off as i64), v])?;
+        }
+        Ok(lfp.self_val())
+    })
 }
 
 ///
-- 
2.43.0


From 4ec6b4ccee3ab0729b4800049fd725357e15ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:46 +0000
Subject: [PATCH 137/147] fix: take the bytes of IO::Buffer#set_string and
 #get_string after converting the arguments

---
 monoruby/src/builtins/io_buffer.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index e01e509..6286d65 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -738,9 +738,14 @@ fn get_string(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     let buf = self_.as_io_buffer_inner();
     ensure_view_valid(globals, buf)?;
     let (offset, length) = offset_length(vm, globals, lfp, buf.size, 0, 1)?;
-    let bytes = {
-        let all = buf.read_bytes()?;
-        all[offset..offset + length].to_vec()
+    // Converting the arguments may have changed the buffer.
+    let bytes = match buf.read_bytes()?.get(offset..offset + length) {
+        Some(bytes) => bytes.to_vec(),
+        None => {
+            return Err(MonorubyErr::argumenterr(
+                "Specified offset+length is bigger than the buffer size!",
+            ));
+        }
     };
     let mut s = Value::bytes(bytes);
     let enc = match lfp.try_arg(2) {
@@ -766,7 +771,6 @@ fn set_string(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
         ensure_view_valid(globals, buf)?;
     }
     let src = lfp.arg(0).coerce_to_rstring(vm, globals)?;
-    let src_bytes = src.as_bytes();
     let offset = match lfp.try_arg(1) {
         Some(v) if !v.is_nil() => {
             let o = v.coerce_to_int_i64(vm, globals)?;
@@ -782,10 +786,15 @@ fn set_string(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
         _ => 0,
     };
     let src_len = match lfp.try_arg(3) {
-        Some(v) if !v.is_nil() => (v.coerce_to_int_i64(vm, globals)?).max(0) as usize,
-        _ => src_bytes.len().saturating_sub(src_offset),
+        Some(v) if !v.is_nil() => Some((v.coerce_to_int_i64(vm, globals)?).max(0) as usize),
+        _ => None,
     };
-    let data = &src_bytes[src_offset.min(src_bytes.len())..(src_offset + src_len).min(src_bytes.len())];
+    // A copy, as the string may be the one the buffer is a view of.
+    let src_bytes = src.as_bytes();
+    let src_len = src_len.unwrap_or(src_bytes.len().saturating_sub(src_offset));
+    let data = &src_bytes
+        [src_offset.min(src_bytes.len())..(src_offset + src_len).min(src_bytes.len())]
+        .to_vec();
     let buf_size = self_.as_io_buffer_inner().size;
     if offset > buf_size {
         return Err(MonorubyErr::argumenterr(
-- 
2.43.0


From f36b9b46b061f69da05b51cc5a9ded7f4f1700b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:19:40 +0000
Subject: [PATCH 138/147] fix: refuse lengths in Marshal data that the data
 cannot hold

---
 monoruby/src/builtins/marshal.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 28e51a3..7a87967 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -185,7 +185,8 @@ impl<'a> MarshalReader<'a> {
     }
 
     fn read_bytes(&mut self, n: usize) -> Result<&'a [u8]> {
-        if self.pos + n > self.data.len() {
+        // A negative length arrives here as a huge one.
+        if n > self.data.len() - self.pos {
             return Err(MonorubyErr::argumenterr("marshal data too short"));
         }
         let slice = &self.data[self.pos..self.pos + n];
@@ -427,7 +428,7 @@ impl<'a> MarshalReader<'a> {
     fn read_bignum(&mut self) -> Result<Value> {
         let sign_byte = self.read_byte()?;
         let word_count = self.read_fixnum()? as usize;
-        let byte_count = word_count * 2;
+        let byte_count = word_count.saturating_mul(2);
         let bytes = self.read_bytes(byte_count)?;
         let sign = if sign_byte == b'-' {
             num::bigint::Sign::Minus
@@ -600,7 +601,7 @@ impl<'a> MarshalReader<'a> {
         // Create the array up-front and register it so a self-reference
         // encountered while reading the elements links back to this very
         // object (CRuby resolves cyclic arrays this way).
-        let arr = Value::array_from_vec(Vec::with_capacity(len));
+        let arr = Value::array_from_vec(Vec::with_capacity(len.min(self.data.len())));
         self.objects.push(arr);
         self.building.insert(arr.id());
         let mut array = arr.as_array();
@@ -682,7 +683,8 @@ impl<'a> MarshalReader<'a> {
         // instance rather than nil.
         self.objects[obj_idx] = obj;
         // Read instance variables.
-        let mut ivars: Vec<(IdentId, Value)> = Vec::with_capacity(ivar_count);
+        let mut ivars: Vec<(IdentId, Value)> =
+            Vec::with_capacity(ivar_count.min(self.data.len()));
         for _ in 0..ivar_count {
             let ivar_sym = self.read_symbol(vm, globals)?;
             let val = self.read_value(vm, globals)?;
-- 
2.43.0


From 701b37f9d1873e53d27f699ff4d9873cbb67bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:19:40 +0000
Subject: [PATCH 139/147] fix: count big integers among the linked objects of
 Marshal.dump

---
 monoruby/src/builtins/marshal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 7a87967..3ac734f 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -1781,7 +1781,11 @@ fn marshal_dump_value(
                 buf.push(b'i');
                 marshal_write_fixnum(buf, n as i32);
             } else {
-                // i64 values outside 30-bit range → treat as bignum
+                // i64 values outside 30-bit range → treat as bignum, which
+                // takes a slot in the reader's link table.
+                if marshal_emit_link(buf, obj, objects) {
+                    return Ok(());
+                }
                 let big = BigInt::from(n);
                 marshal_write_bignum(buf, &big);
             }
-- 
2.43.0


From 7680b3c0f420511d65008676ffdb1b545d910196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:19:40 +0000
Subject: [PATCH 140/147] fix: count regexps among the linked objects of
 Marshal.load

---
 monoruby/src/builtins/marshal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 3ac734f..947bbbd 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -994,7 +994,9 @@ impl<'a> MarshalReader<'a> {
             None,
             None,
         )?;
-        Ok(Value::regexp(inner))
+        let val = Value::regexp(inner);
+        self.objects.push(val);
+        Ok(val)
     }
 
     /// Read an extended-object wrapper ('e' tag).
-- 
2.43.0


From 25b0ef26f7e7475d7d7d0e23c8f9cb61441b3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:19:41 +0000
Subject: [PATCH 141/147] fix: register a loaded string before its instance
 variables

---
 monoruby/src/builtins/marshal.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 947bbbd..4cb7334 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -501,9 +501,13 @@ impl<'a> MarshalReader<'a> {
                 // user ivars).
                 let len = self.read_fixnum()? as usize;
                 let bytes = self.read_bytes(len)?.to_vec();
-                let (encoding, user_ivars) = self.read_encoding_ivars(vm, globals)?;
-                let val = Value::string_from_inner(RStringInner::from_encoding(&bytes, encoding));
+                // The string takes its link slot before the objects in its
+                // instance variables, as on the dump side.
+                let mut val =
+                    Value::string_from_inner(RStringInner::from_encoding(&bytes, Encoding::Ascii8));
                 self.objects.push(val);
+                let (encoding, user_ivars) = self.read_encoding_ivars(vm, globals)?;
+                val.as_rstring_inner_mut().set_encoding(encoding);
                 for (sym, ivar_val) in user_ivars {
                     globals.set_ivar(val, sym, ivar_val)?;
                 }
-- 
2.43.0


From 07f9abe45c297ad04cf7db2c16d2a07f4fc7fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:19:41 +0000
Subject: [PATCH 142/147] fix: keep the encoding of String subclasses and
 extended strings in Marshal.load

---
 monoruby/src/builtins/marshal.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 4cb7334..63d5251 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -580,17 +580,29 @@ impl<'a> MarshalReader<'a> {
                 // outer `read_value` freezes the whole thing (under
                 // `freeze: true`).
                 self.pos -= 1;
-                let val = self.read_value_inner(vm, globals)?;
+                let mut val = self.read_value_inner(vm, globals)?;
                 let ivar_count = self.read_fixnum()? as usize;
                 for _ in 0..ivar_count {
                     let sym = self.read_symbol(vm, globals)?;
                     let ivar_val = self.read_value(vm, globals)?;
-                    // `:E` / `:encoding` describe the payload's encoding
-                    // (already applied when the value was built); every
-                    // other symbol is a real user instance variable.
+                    // `:E` / `:encoding` describe the payload's encoding,
+                    // which a String inside 'C' / 'e' wrappers still lacks;
+                    // every other symbol is a real user instance variable.
                     let name = sym.get_name();
                     if name != "E" && name != "encoding" {
                         globals.set_ivar(val, sym, ivar_val)?;
+                    } else if val.is_rstring_inner().is_some() {
+                        let encoding = if let Some(s) = ivar_val.is_rstring_inner() {
+                            std::str::from_utf8(s.as_bytes())
+                                .ok()
+                                .and_then(|name| Encoding::try_from_str(name).ok())
+                                .unwrap_or(Encoding::Ascii8)
+                        } else if ivar_val.as_bool() {
+                            Encoding::Utf8
+                        } else {
+                            Encoding::UsAscii
+                        };
+                        val.as_rstring_inner_mut().set_encoding(encoding);
                     }
                 }
                 Ok(val)
-- 
2.43.0


From 9c9fdd7b5a34c630732b5076cbfd1a17f4fd4be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:21:07 +0000
Subject: [PATCH 143/147] fix: leave objects that Marshal.load is still
 building unfrozen

---
 monoruby/src/builtins/marshal.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 63d5251..e17ac4c 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -294,12 +294,19 @@ impl<'a> MarshalReader<'a> {
         // A symbol back-reference (';') is not re-visited by the load
         // proc — CRuby only fires the proc when a symbol is first defined.
         let is_symlink = self.data.get(self.pos) == Some(&b';');
+        // A linked object is frozen where it is built, which may not be
+        // finished yet.
+        let is_link = self.data.get(self.pos) == Some(&b'@');
         let mut value = self.read_value_inner(vm, globals)?;
         // `freeze: true` deep-freezes every reconstructed object except
         // classes and modules (which CRuby leaves mutable). Immediates
         // are already frozen, so skip packed values. Because this runs on
         // every recursive `read_value`, sub-objects are frozen too.
-        if self.freeze && !value.is_packed_value() && value.is_class_or_module().is_none() {
+        if self.freeze
+            && !is_link
+            && !value.is_packed_value()
+            && value.is_class_or_module().is_none()
+        {
             value.set_frozen();
         }
         if is_symlink {
-- 
2.43.0


From a3f68cf798e1778cee0b2225ece10dd6c5e5f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:24:01 +0000
Subject: [PATCH 144/147] fix: keep what the proc of Marshal.load returns until
 it is stored

---
 monoruby/src/builtins/marshal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index e17ac4c..6929ffa 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -329,7 +329,10 @@ impl<'a> MarshalReader<'a> {
     ) -> Result<Value> {
         if let Some(proc) = self.proc {
             if !self.building.contains(&value.id()) {
-                return vm.invoke_proc(globals, &proc, &[value]);
+                let value = vm.invoke_proc(globals, &proc, &[value])?;
+                // The replacement is not in the rooted link table.
+                vm.temp_push(value);
+                return Ok(value);
             }
         }
         Ok(value)
-- 
2.43.0


From 21b4539f247ef5b6c37ea883a6536b1a2c78e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:24:01 +0000
Subject: [PATCH 145/147] fix: keep what user methods return to Marshal.dump
 until the dump ends

---
 monoruby/src/builtins/marshal.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 6929ffa..8b0ca66 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -62,7 +62,11 @@ fn dump(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     // Object link table: every non-immediate object written takes a slot
     // in dump order; a repeated reference is emitted as a back-reference.
     let mut objects: Vec<u64> = Vec::new();
-    marshal_dump_value(&mut buf, obj, vm, globals, &mut symbols, &mut objects)?;
+    // Values made on the way stay rooted: the link table knows objects by
+    // their address, which must not be given to another object.
+    vm.with_temp_scope(|vm| {
+        marshal_dump_value(&mut buf, obj, vm, globals, &mut symbols, &mut objects)
+    })?;
     match port {
         None => Ok(Value::bytes(buf)),
         Some(port) => {
@@ -1669,6 +1673,7 @@ fn marshal_try_user_protocol(
         // its #marshal_dump payload is serialized.
         objects.push(obj_id);
         let payload = vm.invoke_method_inner(globals, marshal_dump_id, obj, &[], None, None)?;
+        vm.temp_push(payload);
         buf.push(b'U');
         marshal_write_symbol(buf, class_name_id, symbols);
         marshal_dump_value(buf, payload, vm, globals, symbols, objects)?;
@@ -2190,6 +2195,7 @@ fn marshal_dump_value(
                             None,
                             None,
                         )?;
+                        vm.temp_push(bt);
                         buf.push(b'o');
                         marshal_write_symbol(buf, class_name_id, symbols);
                         marshal_write_fixnum(buf, (2 + user_ivars.len()) as i32);
@@ -2202,6 +2208,7 @@ fn marshal_dump_value(
                             buf.push(b'0'); // nil
                         } else {
                             let msg_val = Value::string_from_str(&msg);
+                            vm.temp_push(msg_val);
                             marshal_dump_value(buf, msg_val, vm, globals, symbols, objects)?;
                         }
                         // :bt
-- 
2.43.0


From 1dbbc52d28a6d89ba5bd4760b678dc8e0c656be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:24:01 +0000
Subject: [PATCH 146/147] fix: load compare_by_identity hashes without merging
 equal keys

---
 monoruby/src/builtins/marshal.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 8b0ca66..7a22af7 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -647,12 +647,12 @@ impl<'a> MarshalReader<'a> {
     /// Format: marshal_int(length) + (key + value) pairs, and — for the
     /// `'}'` (default-value) tag — a trailing default value.
     fn read_hash(&mut self, vm: &mut Executor, globals: &mut Globals) -> Result<Value> {
-        self.read_hash_inner(vm, globals, false)
+        self.read_hash_inner(vm, globals, false, false)
     }
 
     /// Read a Hash carrying a default value (`'}'` tag).
     fn read_hash_default(&mut self, vm: &mut Executor, globals: &mut Globals) -> Result<Value> {
-        self.read_hash_inner(vm, globals, true)
+        self.read_hash_inner(vm, globals, true, false)
     }
 
     fn read_hash_inner(
@@ -660,6 +660,7 @@ impl<'a> MarshalReader<'a> {
         vm: &mut Executor,
         globals: &mut Globals,
         has_default: bool,
+        by_identity: bool,
     ) -> Result<Value> {
         let len = self.read_fixnum()? as usize;
         // Create the hash up-front and register it so a self-reference in
@@ -668,6 +669,9 @@ impl<'a> MarshalReader<'a> {
         self.objects.push(hash);
         self.building.insert(hash.id());
         let mut map = hash.as_hash();
+        if by_identity {
+            map.compare_by_identity(vm, globals)?;
+        }
         for _ in 0..len {
             let key = self.read_value(vm, globals)?;
             let val = self.read_value(vm, globals)?;
@@ -963,6 +967,14 @@ impl<'a> MarshalReader<'a> {
     /// the inner natively and then swap its class to the named subclass.
     fn read_user_class(&mut self, vm: &mut Executor, globals: &mut Globals) -> Result<Value> {
         let class_sym = self.read_symbol(vm, globals)?;
+        // A `C :Hash` wrapper around a Hash marks compare_by_identity, which
+        // must be in force before the keys are inserted.
+        if class_sym.get_name() == "Hash"
+            && matches!(self.data.get(self.pos), Some(b'{' | b'}'))
+        {
+            let has_default = self.read_byte()? == b'}';
+            return self.read_hash_inner(vm, globals, has_default, true);
+        }
         // Read the base value without freezing it (under `freeze: true`)
         // so its class can still be swapped; the outer `read_value`
         // freezes the final wrapped result.
-- 
2.43.0


From bbb3ed8be4996bc43c9ff1e80652cd5680247593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:24:01 +0000
Subject: [PATCH 147/147] fix: refuse user classes in Marshal data that do not
 fit the value

---
 monoruby/src/builtins/marshal.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 7a22af7..f1eb3dc 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -996,6 +996,15 @@ impl<'a> MarshalReader<'a> {
             inner.as_hash().compare_by_identity(vm, globals)?;
             return Ok(inner);
         }
+        // The class must descend from the one the value already has.
+        let base = (!inner.is_packed_value()).then(|| inner.real_class(&globals.store).id());
+        let mut ancestor = Some(module);
+        while ancestor.is_some_and(|c| Some(c.id()) != base) {
+            ancestor = ancestor.and_then(|c| c.superclass());
+        }
+        if ancestor.is_none() {
+            return Err(MonorubyErr::argumenterr("dump format error (user class)"));
+        }
         // CRuby's 'C' wraps a built-in (whose RValue layout is fixed),
         // so it is safe to swap the class on the already-allocated
         // inner — the storage type does not change, only the
-- 
2.43.0

