From ab726ac2f7bdc271ac7a93ca74de9b7fcef770b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 01/15] fix: SparseSet::remove indexes out of bounds for the
 first id beyond the sparse array

---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From c9bc0762f255c0a667d693c7ec8659fde7f72433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 02/15] fix: ids never allocated panic and the first freed id
 still counts as existing

---
 src/entity.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..3325e10 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -266,6 +266,9 @@ impl EntityManager {
     // Do nothing if entity_id not exist
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
         let entity_id_ = entity_id.get();
+        if !self.has(entity_id) {
+            return;
+        }
         if let EntityFlag::Unavailable(index) = self.entity_flags[entity_id_] {
             // unwrap safe: in this branch, we must have one entity at least
             let the_last_one_id = self.entities.last().unwrap();
@@ -279,8 +282,9 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
-            true
+        if let Some(EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id.get()) {
+            // The last id of the chain of destroyed ids is Unavailable, too
+            self.entities.get(*index) == Some(&entity_id)
         } else {
             false
         }
-- 
2.43.0


From 07b1fc5c1205cdbdd6ce93823e36a97f6d61fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 03/15] fix: remove_entity leaves a removed entity in groups
 which share a component with another group

---
 src/world.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..7dc1cea 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -111,7 +111,9 @@ impl World {
                 groups.push(group.write());
             };
         }
-        // remove entity in group and its storages
+        // remove entity in groups
+        // Its components are kept in storages until all groups dropped this entity,
+        // because groups which share a component need them to find this entity
         for mut group in groups {
             match &mut *group{
                 Group::FullOwning(data) => {
@@ -119,15 +121,12 @@ impl World {
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let mut comp_b = self.raw_storage_write(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let comp_b = self.raw_storage_read(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -137,7 +136,7 @@ impl World {
                 },
             }
         }
-        // remove entity in other storages
+        // remove entity in storages
         let mut storages = vec![];
         for storage in self.components.values() {
             let need_remove = {
-- 
2.43.0


From baf2d796c83ac0c0cdb017fac4dad397c13a474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 04/15] fix: non-owning groups keep indices which go stale when
 a storage is reordered

---
 src/group/non_owning/mod.rs   |  19 +++---
 src/group/non_owning/query.rs | 116 +++++++++++++++-------------------
 2 files changed, 60 insertions(+), 75 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..5865dff 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,7 +13,9 @@ pub use query::{
 
 
 pub struct NonOwningData {
-    sparse_set : SparseSet<EntityId,(usize,usize)>,
+    // Only ids are recorded here,
+    // because items in storages can be moved by anyone
+    sparse_set : SparseSet<EntityId,()>,
     type_a : TypeId,
     type_b : TypeId
 }
@@ -67,12 +69,7 @@ impl NonOwningData {
             return;
         }
 
-        // get index in component storage
-        // This unwrap never fails because the in_components() ensures that it's already in components.
-        let index_a = comp_a.index(id).unwrap();
-        let index_b = comp_b.index(id).unwrap();
-
-        self.sparse_set.add(id,(index_a,index_b));
+        self.sparse_set.add(id,());
     }
 
     pub(in crate) fn remove(&mut self,
@@ -101,8 +98,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_a.id(index_a).unwrap();
-                if let Some(index_b) = comp_b.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_b.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         } else {
@@ -110,8 +107,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_b.id(index_b).unwrap();
-                if let Some(index_a) = comp_a.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_a.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..a4d709b 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -5,7 +5,7 @@ use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -80,12 +80,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -111,14 +111,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -138,9 +138,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -148,12 +145,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -170,7 +167,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
 
 pub struct IterRefMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -235,8 +232,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -245,12 +242,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -276,14 +273,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -303,9 +300,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -313,12 +307,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -335,7 +329,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
 
 pub struct IterMutRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -400,8 +394,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -410,12 +404,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -441,14 +435,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -468,9 +462,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -478,12 +469,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -501,7 +492,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
 
 pub struct IterMutMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -566,8 +557,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -576,12 +567,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -607,14 +598,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -634,9 +625,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -644,12 +632,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because ids in group are in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
-- 
2.43.0


From d2ac99236229a59a76049569b081e2d9b8d2d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 05/15] fix: batch attachment does not add entities to groups

---
 src/entity.rs | 52 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 3325e10..d8da3cd 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -165,21 +165,57 @@ impl<'a> Entities<'a> {
         let count = self.ids.end.get() - self.ids.start.get();
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
+        let world = self.world;
+        assert!(world.has_registered::<T>(),
+                "Entities:Cannot attach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
-            .expect("Entities:Cannot attach component because components has not been registered.");
-        // Safety:
-        // sparse_set is SparseSet<EntityId,T>
-        let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
-        };
+        // Lock groups before storage is changed,
+        // so nobody finds groups which disagree with storage
+        let groups = world.groups(type_id);
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
             // Safety:
             // Safe here id cannot be zero 
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
-        sparse_set.add_batch(&ids,components);
+        {
+            // Unwrap never fails because assert ensures this
+            let mut storage = world.raw_storage_write(type_id).unwrap();
+            // Safety:
+            // storage is SparseSet<EntityId,T>
+            let sparse_set = unsafe {
+                storage.downcast_mut::<SparseSet<EntityId,T>>()
+            };
+            sparse_set.add_batch(&ids,components);
+        }
+        for mut group in groups {
+            match &mut *group {
+                Group::FullOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&mut comp_b);
+                    }
+                },
+                Group::PartialOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&comp_b);
+                    }
+                },
+                Group::NonOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let comp_a = world.raw_storage_read(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&comp_a,&comp_b);
+                    }
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From 4f48e8da3d701c3db9d5bded6f559d25097ed648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 06/15] fix: batch attachment duplicates a component which an
 entity already has

---
 src/sparse_set.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..2a24c28 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -47,6 +47,13 @@ impl<E,T> SparseSet<E,T>
 
     pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
+        // overwrite the data of entities which are already in sparse set
+        if entities.iter().any(|entity|self.exist(*entity)) {
+            for (entity,data) in entities.iter().zip(data) {
+                self.add(*entity,data);
+            }
+            return;
+        }
         let start_index = self.entities.len();
         // copy data to dense
         self.entities.extend_from_slice(entities);
-- 
2.43.0


From e05b3801015bc56e4c199e2b7ab92fcd9013b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 07/15] fix: make_group with an unregistered component leaves a
 broken group behind

---
 src/world.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index 7dc1cea..d9dd51a 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -256,10 +256,14 @@ impl World {
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
+    /// * Panic if component is not registered.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
         let group = group.into();
+        let (type_a,type_b) = group.types();
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because components has not been registered");
         assert!(
             {
                 let mut ok = true;
-- 
2.43.0


From 05be5bc82926547d0853a33bbd896c71b2b5a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 08/15] fix: make_group hangs on an owning group of one
 component twice

---
 src/world.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index d9dd51a..106c298 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -257,6 +257,7 @@ impl World {
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
     /// * Panic if component is not registered.
+    /// * Panic if ```group``` owns the same component twice.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -264,6 +265,8 @@ impl World {
         let (type_a,type_b) = group.types();
         assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                 "World: Cannot make group because components has not been registered");
+        assert!(type_a != type_b || !group.owned(type_a),
+                "World: Cannot make group because it owns the same component twice");
         assert!(
             {
                 let mut ok = true;
-- 
2.43.0


From 1e0bcaafc8eca7aefc64e2d632b75f35ae295a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 09/15] fix: attach and detach let other threads see groups
 which disagree with storages

---
 src/entity.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index d8da3cd..ab7483a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -40,6 +40,9 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "Entity:Cannot attach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
+        // Lock groups before storage is changed,
+        // so nobody finds groups which disagree with storage
+        let groups = world.groups(type_id);
         {
             // Unwrap never fails because assert ensures this
             let mut storage = world.raw_storage_write(type_id).unwrap();
@@ -50,7 +53,7 @@ impl<'a> Entity<'a>{
             };
             sparse_set.add(self.id,component);
         }
-        for mut group in world.groups(type_id) {
+        for mut group in groups {
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -83,8 +86,11 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "World:Cannot detach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        for mut group in world.groups(type_id) {
-            match &mut *group{
+        // Keep groups locked until storage is changed,
+        // so nobody finds groups which disagree with storage
+        let mut groups = world.groups(type_id);
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
-- 
2.43.0


From 2372f09c99f0c164a4bf7f4719f17901649181ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 10/15] fix: group queries lock storages before the group and
 deadlock with attach and detach

---
 src/group/full_owning/query.rs    | 20 ++++++++++++--------
 src/group/non_owning/query.rs     | 20 ++++++++++++--------
 src/group/partial_owning/query.rs | 20 ++++++++++++--------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 21d03e6..0e6b6a4 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef{
             index: 0,
@@ -157,6 +158,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -171,8 +175,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut{
             index: 0,
@@ -291,6 +293,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -305,8 +310,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef{
             index: 0,
@@ -424,6 +427,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -438,8 +444,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut{
             index: 0,
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index a4d709b..0985643 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -186,6 +187,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -200,8 +204,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -348,6 +350,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -362,8 +367,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -511,6 +514,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -525,8 +531,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d0dfbd6..ce63cce 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef {
             index: 0,
@@ -165,6 +166,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -179,8 +183,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut {
             index: 0,
@@ -308,6 +310,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -322,8 +327,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef {
             index: 0,
@@ -449,6 +452,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock group before storages, just like attaching and detaching
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -463,8 +469,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut {
             index: 0,
-- 
2.43.0


From 020bfbd60ef29e7f6ee38cb6d36985f28d36d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 11/15] fix: a new entity can be removed before create_entity
 borrows it

---
 src/world.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 106c298..6cb4b9d 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -74,22 +74,21 @@ impl World {
     /// Create an entity without any component in World,
     ///  return an [Entity](crate::entity::Entity).
     pub fn create_entity(&self) -> Entity<'_> {
-        let id = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate()
-        };
-        self.entity(id).unwrap()
+        let mut entity_manager = self.entity_manager.write();
+        let id = entity_manager.allocate();
+        // Downgrade, otherwise the entity could be removed before it's borrowed
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
+        Entity::new(self,entity_manager,id)
     }
 
     /// Create count of entities
     /// # Details
     /// This funtionn ensures tbe entity id is continuous.
     pub fn create_entities(&self,count: usize) -> Entities<'_> {
-        let ids = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate_n(count)
-        };
-        let entity_manager = self.entity_manager.read();
+        let mut entity_manager = self.entity_manager.write();
+        let ids = entity_manager.allocate_n(count);
+        // Downgrade, otherwise entities could be removed before they're borrowed
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
         Entities::new(self,ids,entity_manager)
     }
 
-- 
2.43.0


From e1c950339be481427cd7f40a394ee9d51c788164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 12/15] fix: remove_entity deadlocks with queries and races
 with other removals and attachments

---
 src/entity.rs | 25 +++++++++++++++++++++----
 src/world.rs  | 33 +++++++++++++++------------------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index ab7483a..a9ed408 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -307,9 +307,18 @@ impl EntityManager {
     // remove entity id
     // Do nothing if entity_id not exist
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
+        if self.retire(entity_id) {
+            self.recycle(entity_id);
+        }
+    }
+
+    /// Let ```entity_id``` not exist any more, but don't reuse it
+    /// until [recycle](Self::recycle) is called.
+    /// Return false if it doesn't exist.
+    pub(in crate) fn retire(&mut self,entity_id : EntityId) -> bool {
         let entity_id_ = entity_id.get();
         if !self.has(entity_id) {
-            return;
+            return false;
         }
         if let EntityFlag::Unavailable(index) = self.entity_flags[entity_id_] {
             // unwrap safe: in this branch, we must have one entity at least
@@ -317,10 +326,18 @@ impl EntityManager {
             // move this entity to the end of entities
             self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
             self.entities.swap_remove(index);
-            // keep these destroyed ids being a chain
-            self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(entity_id);
+            // no index in entities any more
+            self.entity_flags[entity_id_] = EntityFlag::Unavailable(usize::MAX);
         }
+        true
+    }
+
+    /// Make a retired id reusable
+    pub(in crate) fn recycle(&mut self,entity_id : EntityId) {
+        let entity_id_ = entity_id.get();
+        // keep these destroyed ids being a chain
+        self.entity_flags[entity_id_] = self.entity_flags[0];
+        self.entity_flags[0] = EntityFlag::Available(entity_id);
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
diff --git a/src/world.rs b/src/world.rs
index 6cb4b9d..5ef82e0 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -94,10 +94,15 @@ impl World {
 
     /// Remove entity and its components.
     pub fn remove_entity(&self, entity_id: EntityId) {
-        assert!(self.exist(entity_id),
+        // Retire the id first. From now on, nobody can get a handle of this entity,
+        // so it's impossible to attach anything to it,
+        // and the id will not be reused until all of its components were removed.
+        let retired = self.entity_manager.write().retire(entity_id);
+        assert!(retired,
                 "World:Cannot remove a non-exists entity");
-        // find all groups need remove 
-        let mut groups = vec![];
+        // remove entity in groups
+        // Its components are kept in storages until all groups dropped this entity,
+        // because groups which share a component need them to find this entity
         for group in &self.groups {
             let need_remove = {
                 let group = group.read();
@@ -106,15 +111,10 @@ impl World {
                 let comp_b = self.raw_storage_read(type_b).unwrap();
                 group.in_group(entity_id, &comp_a, &comp_b)
             };
-            if need_remove {
-                groups.push(group.write());
-            };
-        }
-        // remove entity in groups
-        // Its components are kept in storages until all groups dropped this entity,
-        // because groups which share a component need them to find this entity
-        for mut group in groups {
-            match &mut *group{
+            if !need_remove {
+                continue;
+            }
+            match &mut *group.write() {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
@@ -136,23 +136,20 @@ impl World {
             }
         }
         // remove entity in storages
-        let mut storages = vec![];
+        // Lock them one by one, because there isn't an order of them
         for storage in self.components.values() {
             let need_remove = {
                 let storage = storage.read();
                 storage.has(entity_id)
             };
             if need_remove {
-                storages.push(storage.write());
+                storage.write().remove(entity_id);
             }
         }
-        for mut storage in storages {
-            storage.remove(entity_id);
-        }
         // remove entity from manager
         {
             let mut entity_manager = self.entity_manager.write();
-            entity_manager.remove(entity_id);
+            entity_manager.recycle(entity_id);
         }
     }
 
-- 
2.43.0


From 2e2514ce4c24cc98c9fcb08dd516d3fe53402177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 13/15] fix: removing an entity through its handle can remove
 another entity which reuses the id

---
 src/entity.rs | 17 +++++++++++++++--
 src/world.rs  | 17 +++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index a9ed408..5f3d203 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -134,8 +134,10 @@ impl<'a> Entity<'a>{
 
     /// remove this entity from the world
     pub fn manaully_drop(self) {
+        let generation = self.borrow_entity_manager.generation(self.id);
         drop(self.borrow_entity_manager);
-        self.world.remove_entity(self.id);
+        // Others could have removed this entity and reused its ID by now
+        self.world.remove_entity_of(self.id,generation);
     }
 }
 
@@ -250,16 +252,24 @@ pub(in crate) struct EntityManager {
     //     Available(EntityID) -> the EntityID
     entity_flags : Vec<EntityFlag>,
     entities : Vec<EntityId>,
+    // How often an ID was removed, indexed by ID
+    generations : Vec<usize>
 }
 
 impl EntityManager {
     pub(in crate) fn new() -> EntityManager {
         EntityManager {
             entity_flags: vec![EntityFlag::Unavailable(0)],
-            entities: vec![]
+            entities: vec![],
+            generations: vec![0]
         }
     }
 
+    /// Get how often ```entity_id``` was removed
+    pub(in crate) fn generation(&self,entity_id : EntityId) -> usize {
+        self.generations[entity_id.get()]
+    }
+
     pub(in crate) fn allocate(&mut self) -> EntityId {
         //safe here:
         // the entity_flags[0] cannot be removed
@@ -278,6 +288,7 @@ impl EntityManager {
             let id = unsafe { EntityId::new_unchecked(id) };
             self.entities.push(id);
             self.entity_flags.push(EntityFlag::Unavailable(self.entities.len() - 1));
+            self.generations.push(0);
             //safe here because this id can't be 0
             id
         }
@@ -295,6 +306,7 @@ impl EntityManager {
         // record indecies to self.entity_flags
         for i in start_index..end_index {
             self.entity_flags.push(EntityFlag::Unavailable(i));
+            self.generations.push(0);
         }
         for id in start_id..end_id {
             let id = unsafe { EntityId::new_unchecked(id) };
@@ -328,6 +340,7 @@ impl EntityManager {
             self.entities.swap_remove(index);
             // no index in entities any more
             self.entity_flags[entity_id_] = EntityFlag::Unavailable(usize::MAX);
+            self.generations[entity_id_] += 1;
         }
         true
     }
diff --git a/src/world.rs b/src/world.rs
index 5ef82e0..99aef88 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -100,6 +100,23 @@ impl World {
         let retired = self.entity_manager.write().retire(entity_id);
         assert!(retired,
                 "World:Cannot remove a non-exists entity");
+        self.remove_retired(entity_id);
+    }
+
+    /// Remove entity and its components,
+    /// do nothing if it was removed since ```generation``` was got.
+    pub(in crate) fn remove_entity_of(&self, entity_id: EntityId, generation: usize) {
+        let retired = {
+            let mut entity_manager = self.entity_manager.write();
+            entity_manager.generation(entity_id) == generation && entity_manager.retire(entity_id)
+        };
+        if retired {
+            self.remove_retired(entity_id);
+        }
+    }
+
+    /// Remove all components of a retired id and recycle it
+    fn remove_retired(&self, entity_id: EntityId) {
         // remove entity in groups
         // Its components are kept in storages until all groups dropped this entity,
         // because groups which share a component need them to find this entity
-- 
2.43.0


From 741636a8c5ee84ad4a568d934f98245c94ba16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 14/15] fix: mutable iterators invalidate the references which
 they already yielded

---
 src/group/full_owning/query.rs    | 16 ++++++++--------
 src/group/partial_owning/query.rs |  8 ++++----
 src/query/mod.rs                  |  4 ++--
 src/sparse_set.rs                 | 15 +++++++++++++--
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 0e6b6a4..e1d4870 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -205,7 +205,7 @@ impl<'a,A : Component,B : Component> Iterator for IterRefMut<'a,A,B> {
                 sparse_set_a.data().get_unchecked(self.index)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(self.index)
+                sparse_set_b.get_unchecked_mut_by_index(self.index)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -257,7 +257,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
                 sparse_set_a.data().get_unchecked(self.index)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(self.index)
+                sparse_set_b.get_unchecked_mut_by_index(self.index)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -337,7 +337,7 @@ impl<'a,A : Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             // Safety:
             // Safe here, because we checked before.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             let data_b = unsafe {
                 sparse_set_b.data().get_unchecked(self.index)
@@ -389,7 +389,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
                     .get_unchecked(self.index)
             };
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             let data_b = unsafe {
                 sparse_set_b.data().get_unchecked(self.index)
@@ -471,10 +471,10 @@ impl<'a,A : Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             // Safety:
             // Safe here, because we checked before.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(self.index)
+                sparse_set_b.get_unchecked_mut_by_index(self.index)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -523,10 +523,10 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
                     .get_unchecked(self.index)
             };
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(self.index)
+                sparse_set_b.get_unchecked_mut_by_index(self.index)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index ce63cce..9fdb6c5 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -358,7 +358,7 @@ impl<'a,A : Component,B : Component> Iterator for IterMutRef<'a,A,B> {
                     .get_unchecked(self.index)
             };
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             // Unwrap here
             // This panics while group is destroyed.
@@ -411,7 +411,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
                     .get_unchecked(self.index)
             };
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             // Unwrap here
             // This panics while group is destroyed.
@@ -500,7 +500,7 @@ impl<'a,A : Component,B : Component> Iterator for IterMutMut<'a,A,B> {
                     .get_unchecked(self.index)
             };
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             // Unwrap here
             // This panics while group is destroyed.
@@ -553,7 +553,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
                     .get_unchecked(self.index)
             };
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(self.index)
+                sparse_set_a.get_unchecked_mut_by_index(self.index)
             };
             // Unwrap here
             // This panics while group is destroyed.
diff --git a/src/query/mod.rs b/src/query/mod.rs
index 61a6826..10d26fc 100644
--- a/src/query/mod.rs
+++ b/src/query/mod.rs
@@ -238,7 +238,7 @@ impl<'a,T : Component> Iterator for IterMut<'a,T> {
             // Safety:
             // Safe here, because we checked before.
             let data = unsafe {
-                sparse_set.data_mut().get_unchecked_mut(self.index)
+                sparse_set.get_unchecked_mut_by_index(self.index)
             };
             self.index += 1;
             Some(data)
@@ -280,7 +280,7 @@ impl<'a,T : Component> QueryIterator for IterMut<'a,T> {
             // Safety:
             // Safe here, because we have already checked.
             let data = unsafe {
-                sparse_set.data_mut().get_unchecked_mut(self.index)
+                sparse_set.get_unchecked_mut_by_index(self.index)
             };
             self.index += 1;
             Some((id,data))
diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 2a24c28..78e98fc 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -155,7 +155,9 @@ impl<E,T> SparseSet<E,T>
         if entity < self.indices.len() {
             if let Some(index) = self.indices[entity] {
                 let index = index.get() - 1;
-                return Some(&mut self.data[index])
+                // Safety:
+                // Safe here, because indices only hold valid index.
+                return Some(unsafe { self.get_unchecked_mut_by_index(index) })
             }
         }
         None
@@ -164,7 +166,16 @@ impl<E,T> SparseSet<E,T>
     pub unsafe fn get_unchecked_mut(&mut self,entity : E) -> &mut T {
         let entity : usize = entity.into();
         let index = self.indices.get_unchecked(entity).unwrap().get();
-        self.data.get_unchecked_mut(index - 1)
+        self.get_unchecked_mut_by_index(index - 1)
+    }
+
+    /// Get the data from its index
+    /// # Details
+    /// Unlike ```data_mut().get_unchecked_mut(index)```,it never borrows the other data.
+    /// So the references to other data which iterators have already yielded keep valid.
+    pub unsafe fn get_unchecked_mut_by_index(&mut self,index : usize) -> &mut T {
+        debug_assert!(index < self.data.len());
+        &mut *self.data.as_mut_ptr().add(index)
     }
 
     pub fn get_index(&self,entity : E) -> Option<usize> {
-- 
2.43.0


From ea99db85130ead03807713ea1f84d2022f6db883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:42 +0000
Subject: [PATCH 15/15] fix: a group of one component with itself lets plain
 calls block each other for ever

Its storage was read-locked twice; a writer waiting in between blocked the
second lock.
---
 src/entity.rs                 |  9 +++------
 src/group/non_owning/query.rs |  3 +--
 src/world.rs                  | 23 +++++++++++++++++++----
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 5f3d203..8f58f33 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -69,8 +69,7 @@ impl<'a> Entity<'a>{
                 },
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = world.raw_storage_read(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = world.raw_storages_read(type_a,type_b).unwrap();
                     data.add(self.id,&comp_a,&comp_b);
                 }
             }
@@ -105,8 +104,7 @@ impl<'a> Entity<'a>{
                 },
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = world.raw_storage_read(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = world.raw_storages_read(type_a,type_b).unwrap();
                     data.remove(self.id,&comp_a,&comp_b);
                 }
             }
@@ -216,8 +214,7 @@ impl<'a> Entities<'a> {
                 },
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = world.raw_storage_read(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = world.raw_storages_read(type_a,type_b).unwrap();
                     for id in &ids {
                         data.add(*id,&comp_a,&comp_b);
                     }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 0985643..fb8b37f 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -29,8 +29,7 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = world.raw_storages_read(type_id_a,type_id_b).unwrap();
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/world.rs b/src/world.rs
index 99aef88..6e26097 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -124,8 +124,7 @@ impl World {
             let need_remove = {
                 let group = group.read();
                 let (type_a,type_b) = group.types();
-                let comp_a = self.raw_storage_read(type_a).unwrap();
-                let comp_b = self.raw_storage_read(type_b).unwrap();
+                let (comp_a,comp_b) = self.raw_storages_read(type_a,type_b).unwrap();
                 group.in_group(entity_id, &comp_a, &comp_b)
             };
             if !need_remove {
@@ -146,8 +145,7 @@ impl World {
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = self.raw_storage_read(type_a).unwrap();
-                    let comp_b = self.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = self.raw_storages_read(type_a,type_b).unwrap();
                     data.remove(entity_id,&comp_a,&comp_b);
                 },
             }
@@ -188,6 +186,23 @@ impl World {
             .map(|rwlock|rwlock.write())
     }
 
+    /// Get read lock guards of two raw component storages,
+    /// return None if one of them is not registered.
+    /// # Details
+    /// If both are the same, never wait for the second guard,
+    /// because someone could be waiting to write since the first one was got.
+    pub(in crate) fn raw_storages_read(&self,id_a : TypeId,id_b : TypeId)
+        -> Option<(RwLockReadGuard<'_,Box<dyn ComponentStorage>>,
+                   RwLockReadGuard<'_,Box<dyn ComponentStorage>>)> {
+        let storage_a = self.raw_storage_read(id_a)?;
+        let storage_b = if id_a == id_b {
+            self.components.get(&id_b)?.read_recursive()
+        } else {
+            self.raw_storage_read(id_b)?
+        };
+        Some((storage_a,storage_b))
+    }
+
     /// Attach a component to an entity.  
     /// # Panics
     /// * Panic if ```T``` is not registered.
-- 
2.43.0

