From dd811140fcf23d3f4b486557b9002e73d9f1cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:07 +0000
Subject: [PATCH 1/5] fix: release the slot of an abandoned placeholder

remove_placeholder only removed the map entry, so every abandoned guard
leaked its slab slot and key for as long as the cache lived.
---
 src/shard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..9bed957 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -181,7 +181,9 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             let (entry, _) = self.entries.get(idx).unwrap();
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
-            entry.remove();
+            let (idx, _) = entry.remove();
+            // also release the slot, otherwise it'd be leaked along with the key
+            self.entries.remove(idx);
         }
     }
 
-- 
2.43.0


From e0ee0f4745585617167af1b02052a48b86509d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:07 +0000
Subject: [PATCH 2/5] fix: remove the placeholder when an unsync loader fails

get_or_insert_with and get_mut_or_insert_with returned early with the loader's
error leaving the placeholder, and its key, behind.
---
 src/unsync.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..747ace6 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -252,7 +252,13 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
+                let v = match with() {
+                    Ok(v) => v,
+                    Err(e) => {
+                        self.shard.remove_placeholder(&plh);
+                        return Err(e);
+                    }
+                };
                 let mut lcs = self.shard.lifecycle.begin_request();
                 let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
                 self.shard.lifecycle.end_request(lcs);
@@ -278,7 +284,13 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
+                let v = match with() {
+                    Ok(v) => v,
+                    Err(e) => {
+                        self.shard.remove_placeholder(&plh);
+                        return Err(e);
+                    }
+                };
                 let mut lcs = self.shard.lifecycle.begin_request();
                 let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
                 debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-- 
2.43.0


From 62750a9e1e58420f3ab97d6420106bc109d44bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:07 +0000
Subject: [PATCH 3/5] fix: park for the remaining time in get_value_or_guard

The waiter parked for the time already elapsed, so a wait could last up to
about twice the requested timeout.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..8a291d3 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -238,7 +238,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0


From f260d573529d50834d0a603fd17d3935082acaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:07 +0000
Subject: [PATCH 4/5] fix: never let the hot target exceed the weight capacity

For capacities above 2^53 the conversion to f64 may round up, admitting items
heavier than the whole capacity.
---
 src/shard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9bed957..6236da1 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -226,7 +226,9 @@ impl<
         hash_builder: B,
         lifecycle: L,
     ) -> Self {
-        let weight_target_hot = (weight_capacity as f64 * hot_allocation) as u64;
+        // the conversion to f64 may round up
+        let weight_target_hot =
+            ((weight_capacity as f64 * hot_allocation) as u64).min(weight_capacity);
         let capacity_non_resident = (estimated_items_capacity as f64 * ghost_allocation) as usize;
         Self {
             hash_builder,
-- 
2.43.0


From 4a5f4072331105067c53989574e554f109546cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:44 +0000
Subject: [PATCH 5/5] fix: unsync get_or_insert_with and get_mut_or_insert_with
 leave no placeholder behind when the loader panics

---
 src/unsync.rs | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 747ace6..075d81f 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -252,18 +252,15 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = match with() {
-                    Ok(v) => v,
-                    Err(e) => {
-                        self.shard.remove_placeholder(&plh);
-                        return Err(e);
-                    }
+                let idx = plh.idx;
+                // Removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder: plh,
+                    inserted: false,
                 };
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                self.shard.lifecycle.end_request(lcs);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                plh.idx
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token(idx))
@@ -284,18 +281,15 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = match with() {
-                    Ok(v) => v,
-                    Err(e) => {
-                        self.shard.remove_placeholder(&plh);
-                        return Err(e);
-                    }
+                let idx = plh.idx;
+                // Removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder: plh,
+                    inserted: false,
                 };
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                self.shard.lifecycle.end_request(lcs);
-                plh.idx
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token_mut(idx).map(RefMut))
-- 
2.43.0

