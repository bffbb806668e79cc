From 30eba645787494a8cd01820313c993af18407022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 01/14] fix: asking about an id that was never issued must not
 panic

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..5e8bfd1 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -279,7 +279,7 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
+        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
         } else {
             false
-- 
2.43.0


From b5ec87c22da2ad271904686da9b4b28fa8b0c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 02/14] fix: the last id of the free chain must not look like
 an existing entity

---
 src/entity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 5e8bfd1..58b9913 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -194,8 +194,8 @@ impl<'a> Entities<'a> {
 
 #[derive(Debug,Copy,Clone)]
 enum EntityFlag{
-    /// store the next available EntityID
-    Available(EntityId),
+    /// store the next available EntityID, None ends the chain
+    Available(Option<EntityId>),
     /// store the index of EntityID in entities array
     Unavailable(usize)
 }
@@ -204,8 +204,8 @@ enum EntityFlag{
 pub(in crate) struct EntityManager {
     // entity_flags[0] : Because the ID 0 is not a valid ID,
     //     so the first one can be used to store the last removed ID
-    //     Unavailable(_)      -> there is no entityID for reuse
-    //     Available(EntityID) -> the EntityID
+    //     Available(None)           -> there is no entityID for reuse
+    //     Available(Some(EntityID)) -> the EntityID
     entity_flags : Vec<EntityFlag>,
     entities : Vec<EntityId>,
 }
@@ -213,7 +213,7 @@ pub(in crate) struct EntityManager {
 impl EntityManager {
     pub(in crate) fn new() -> EntityManager {
         EntityManager {
-            entity_flags: vec![EntityFlag::Unavailable(0)],
+            entity_flags: vec![EntityFlag::Available(None)],
             entities: vec![]
         }
     }
@@ -221,7 +221,7 @@ impl EntityManager {
     pub(in crate) fn allocate(&mut self) -> EntityId {
         //safe here:
         // the entity_flags[0] cannot be removed
-        if let EntityFlag::Available(last_id) = self.entity_flags.first().unwrap() {
+        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
             let last_id = *last_id;
             //we got an id can be reused
             let new_id = self.entity_flags[last_id.get()];
@@ -274,7 +274,7 @@ impl EntityManager {
             self.entities.swap_remove(index);
             // keep these destroyed ids being a chain
             self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(entity_id);
+            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
         }
     }
 
-- 
2.43.0


From 3394c8d703a91787e440311fb2f2ce3ea066b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 03/14] fix: removing an absent component must not index out of
 bounds

---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From 04215d0b98e904e45aea62cad393985a1ce87fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 04/14] fix: attaching a batch twice must overwrite, not
 duplicate

---
 src/sparse_set.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..dae0a34 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -47,6 +47,14 @@ impl<E,T> SparseSet<E,T>
 
     pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
+        if entities.iter().any(|entity|self.exist(*entity)) {
+            //some of them already exist
+            //overwrite
+            for (entity,data) in entities.iter().zip(data) {
+                self.add(*entity,data);
+            }
+            return;
+        }
         let start_index = self.entities.len();
         // copy data to dense
         self.entities.extend_from_slice(entities);
-- 
2.43.0


From be39cb1db5bdd85b591575c84b2abf224bc0dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 05/14] fix: attaching to a batch of entities must update the
 groups

---
 src/entity.rs | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 58b9913..5472d21 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -166,20 +166,50 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
-            .expect("Entities:Cannot attach component because components has not been registered.");
-        // Safety:
-        // sparse_set is SparseSet<EntityId,T>
-        let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
-        };
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
             // Safety:
             // Safe here id cannot be zero 
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
-        sparse_set.add_batch(&ids,components);
+        {
+            let mut sparse_set = self.world.raw_storage_write(type_id)
+                .expect("Entities:Cannot attach component because components has not been registered.");
+            // Safety:
+            // sparse_set is SparseSet<EntityId,T>
+            let sparse_set = unsafe {
+                sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
+            };
+            sparse_set.add_batch(&ids,components);
+        }
+        for mut group in self.world.groups(type_id) {
+            match &mut *group {
+                Group::FullOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                    let mut comp_b = self.world.raw_storage_write(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&mut comp_b);
+                    }
+                },
+                Group::PartialOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                    let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&comp_b);
+                    }
+                },
+                Group::NonOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let comp_a = self.world.raw_storage_read(type_a).unwrap();
+                    let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&comp_a,&comp_b);
+                    }
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From c3bc815f815143aa8fd5f49a133904b5cd879e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 06/14] fix: a non-owning group must not remember positions
 other groups may change

---
 src/group/non_owning/mod.rs   |  17 ++---
 src/group/non_owning/query.rs | 116 +++++++++++++++-------------------
 2 files changed, 58 insertions(+), 75 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..411f6ab 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,7 +13,7 @@ pub use query::{
 
 
 pub struct NonOwningData {
-    sparse_set : SparseSet<EntityId,(usize,usize)>,
+    sparse_set : SparseSet<EntityId,()>,
     type_a : TypeId,
     type_b : TypeId
 }
@@ -67,12 +67,7 @@ impl NonOwningData {
             return;
         }
 
-        // get index in component storage
-        // This unwrap never fails because the in_components() ensures that it's already in components.
-        let index_a = comp_a.index(id).unwrap();
-        let index_b = comp_b.index(id).unwrap();
-
-        self.sparse_set.add(id,(index_a,index_b));
+        self.sparse_set.add(id,());
     }
 
     pub(in crate) fn remove(&mut self,
@@ -101,8 +96,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_a.id(index_a).unwrap();
-                if let Some(index_b) = comp_b.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_b.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         } else {
@@ -110,8 +105,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_b.id(index_b).unwrap();
-                if let Some(index_a) = comp_a.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_a.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..8c36d0e 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -5,7 +5,7 @@ use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -80,12 +80,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -111,14 +111,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -138,9 +138,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -148,12 +145,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -170,7 +167,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
 
 pub struct IterRefMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -235,8 +232,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -245,12 +242,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -276,14 +273,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -303,9 +300,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -313,12 +307,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -335,7 +329,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
 
 pub struct IterMutRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -400,8 +394,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -410,12 +404,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -441,14 +435,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -468,9 +462,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -478,12 +469,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -501,7 +492,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
 
 pub struct IterMutMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -566,8 +557,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -576,12 +567,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -607,14 +598,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -634,9 +625,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -644,12 +632,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because an id in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
-- 
2.43.0


From ff189f803aa72e48d5b1ebed4f776d24348b7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 07/14] fix: a group of unregistered components must be refused
 before it is stored

---
 src/world.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..44c8c48 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -257,6 +257,7 @@ impl World {
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
+    /// * Panic if one of the components is not registered.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -277,6 +278,9 @@ impl World {
             },
             "World: Cannot make group because component was owned by another group"
         );
+        let (type_a,type_b) = group.types();
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because component was not registered");
 
         self.groups.push(RwLock::new(group));
         let group = self.groups.last().unwrap();
-- 
2.43.0


From a92202bd06644f1b982b76c5388f8139bb0f3a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 08/14] fix: a group of a component with itself must be
 refused, not deadlock

---
 src/world.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index 44c8c48..206c122 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -258,6 +258,7 @@ impl World {
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
     /// * Panic if one of the components is not registered.
+    /// * Panic if both components are the same.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -281,6 +282,8 @@ impl World {
         let (type_a,type_b) = group.types();
         assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                 "World: Cannot make group because component was not registered");
+        assert!(type_a != type_b,
+                "World: Cannot make group of a component with itself");
 
         self.groups.push(RwLock::new(group));
         let group = self.groups.last().unwrap();
-- 
2.43.0


From e989127b4126c80841d6f977deb2a7fd22284316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 09/14] fix: a group query must lock its group before the
 storages

---
 src/group/full_owning/query.rs    | 20 ++++++++++++--------
 src/group/non_owning/query.rs     | 20 ++++++++++++--------
 src/group/partial_owning/query.rs | 20 ++++++++++++--------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 21d03e6..8eb3176 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef{
             index: 0,
@@ -157,6 +158,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -171,8 +175,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut{
             index: 0,
@@ -291,6 +293,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -305,8 +310,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef{
             index: 0,
@@ -424,6 +427,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -438,8 +444,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut{
             index: 0,
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 8c36d0e..9714d45 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -186,6 +187,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -200,8 +204,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -348,6 +350,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -362,8 +367,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -511,6 +514,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -525,8 +531,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d0dfbd6..806cc00 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef {
             index: 0,
@@ -165,6 +166,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -179,8 +183,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut {
             index: 0,
@@ -308,6 +310,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -322,8 +327,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef {
             index: 0,
@@ -449,6 +452,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Lock the group before the storages, as attaching and detaching do
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -463,8 +469,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut {
             index: 0,
-- 
2.43.0


From 7d2d7eef6f194e1fce47910a67764ab5bb520a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 10/14] fix: removing an entity must leave the groups before
 the storages, one component at a time

---
 src/world.rs | 81 ++++++++++++++++++++--------------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 206c122..001f29b 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -97,60 +97,41 @@ impl World {
     pub fn remove_entity(&self, entity_id: EntityId) {
         assert!(self.exist(entity_id),
                 "World:Cannot remove a non-exists entity");
-        // find all groups need remove 
-        let mut groups = vec![];
-        for group in &self.groups {
-            let need_remove = {
-                let group = group.read();
-                let (type_a,type_b) = group.types();
-                let comp_a = self.raw_storage_read(type_a).unwrap();
-                let comp_b = self.raw_storage_read(type_b).unwrap();
-                group.in_group(entity_id, &comp_a, &comp_b)
-            };
-            if need_remove {
-                groups.push(group.write());
-            };
-        }
-        // remove entity in group and its storages
-        for mut group in groups {
-            match &mut *group{
-                Group::FullOwning(data) => {
-                    let (type_a,type_b) = data.types();
-                    let mut comp_a = self.raw_storage_write(type_a).unwrap();
-                    let mut comp_b = self.raw_storage_write(type_b).unwrap();
-                    data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
-                },
-                Group::PartialOwning(data) => {
-                    let (type_a,type_b) = data.types();
-                    let mut comp_a = self.raw_storage_write(type_a).unwrap();
-                    let comp_b = self.raw_storage_read(type_b).unwrap();
-                    data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
+        for (type_id,storage) in &self.components {
+            if !storage.read().has(entity_id) {
+                continue;
+            }
+            // The component must leave its groups before it leaves its storage,
+            // and the groups stay locked until it has left both
+            let mut groups = self.groups(*type_id);
+            for group in &mut groups {
+                match &mut **group {
+                    Group::FullOwning(data) => {
+                        let (type_a,type_b) = data.types();
+                        let mut comp_a = self.raw_storage_write(type_a).unwrap();
+                        let mut comp_b = self.raw_storage_write(type_b).unwrap();
+                        data.remove(entity_id,&mut comp_a,&mut comp_b);
+                    },
+                    Group::PartialOwning(data) => {
+                        let (type_a,type_b) = data.types();
+                        let mut comp_a = self.raw_storage_write(type_a).unwrap();
+                        let comp_b = self.raw_storage_read(type_b).unwrap();
+                        data.remove(entity_id,&mut comp_a,&comp_b);
+                    }
+                    Group::NonOwning(data) => {
+                        let (type_a,type_b) = data.types();
+                        let comp_a = self.raw_storage_read(type_a).unwrap();
+                        let comp_b = self.raw_storage_read(type_b).unwrap();
+                        data.remove(entity_id,&comp_a,&comp_b);
+                    },
                 }
-                Group::NonOwning(data) => {
-                    let (type_a,type_b) = data.types();
-                    let comp_a = self.raw_storage_read(type_a).unwrap();
-                    let comp_b = self.raw_storage_read(type_b).unwrap();
-                    data.remove(entity_id,&comp_a,&comp_b);
-                },
             }
-        }
-        // remove entity in other storages
-        let mut storages = vec![];
-        for storage in self.components.values() {
-            let need_remove = {
-                let storage = storage.read();
-                storage.has(entity_id)
-            };
-            if need_remove {
-                storages.push(storage.write());
+            let mut storage = storage.write();
+            // it may have been detached meanwhile
+            if storage.has(entity_id) {
+                storage.remove(entity_id);
             }
         }
-        for mut storage in storages {
-            storage.remove(entity_id);
-        }
         // remove entity from manager
         {
             let mut entity_manager = self.entity_manager.write();
-- 
2.43.0


From fc7314c6202a44574d7be457bdd58f3fba2b86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 11/14] fix: removing an entity must exclude attaching to it
 and reusing its id until it is done

---
 src/world.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 001f29b..b09cb40 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -95,7 +95,10 @@ impl World {
 
     /// Remove entity and its components.
     pub fn remove_entity(&self, entity_id: EntityId) {
-        assert!(self.exist(entity_id),
+        // Held until the end: nobody may attach to this entity, or reuse its id,
+        // while its components are being removed
+        let mut entity_manager = self.entity_manager.write();
+        assert!(entity_manager.has(entity_id),
                 "World:Cannot remove a non-exists entity");
         for (type_id,storage) in &self.components {
             if !storage.read().has(entity_id) {
@@ -126,17 +129,10 @@ impl World {
                     },
                 }
             }
-            let mut storage = storage.write();
-            // it may have been detached meanwhile
-            if storage.has(entity_id) {
-                storage.remove(entity_id);
-            }
+            storage.write().remove(entity_id);
         }
         // remove entity from manager
-        {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.remove(entity_id);
-        }
+        entity_manager.remove(entity_id);
     }
 
     /// Get lock guard of raw component storage,
-- 
2.43.0


From 6f60d08f4bc911d347805fe6614081d97318ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 12/14] fix: a new entity must not be removable before its
 handle exists

---
 src/world.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index b09cb40..290c646 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -74,23 +74,20 @@ impl World {
     /// Create an entity without any component in World,
     ///  return an [Entity](crate::entity::Entity).
     pub fn create_entity(&self) -> Entity<'_> {
-        let id = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate()
-        };
-        self.entity(id).unwrap()
+        let mut entity_manager = self.entity_manager.write();
+        let id = entity_manager.allocate();
+        // Nobody may remove the new entity before its handle holds the lock
+        Entity::new(self,RwLockWriteGuard::downgrade(entity_manager),id)
     }
 
     /// Create count of entities
     /// # Details
     /// This funtionn ensures tbe entity id is continuous.
     pub fn create_entities(&self,count: usize) -> Entities<'_> {
-        let ids = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate_n(count)
-        };
-        let entity_manager = self.entity_manager.read();
-        Entities::new(self,ids,entity_manager)
+        let mut entity_manager = self.entity_manager.write();
+        let ids = entity_manager.allocate_n(count);
+        // Nobody may remove the new entities before their handle holds the lock
+        Entities::new(self,ids,RwLockWriteGuard::downgrade(entity_manager))
     }
 
     /// Remove entity and its components.
-- 
2.43.0


From 278f861300fc0fbc0cee6299cab5c832f2f083ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 13/14] fix: attaching and detaching must change the storage
 and its groups as one step

---
 src/entity.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 5472d21..5b62ac6 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -40,6 +40,8 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "Entity:Cannot attach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
+        // Nobody may see the storage changed and the groups not
+        let mut groups = world.groups(type_id);
         {
             // Unwrap never fails because assert ensures this
             let mut storage = world.raw_storage_write(type_id).unwrap();
@@ -50,8 +52,8 @@ impl<'a> Entity<'a>{
             };
             sparse_set.add(self.id,component);
         }
-        for mut group in world.groups(type_id) {
-            match &mut *group {
+        for group in &mut groups {
+            match &mut **group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -83,8 +85,10 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "World:Cannot detach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        for mut group in world.groups(type_id) {
-            match &mut *group{
+        // Nobody may see the groups changed and the storage not
+        let mut groups = world.groups(type_id);
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -172,6 +176,8 @@ impl<'a> Entities<'a> {
             // Safe here id cannot be zero 
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
+        // Nobody may see the storage changed and the groups not
+        let mut groups = self.world.groups(type_id);
         {
             let mut sparse_set = self.world.raw_storage_write(type_id)
                 .expect("Entities:Cannot attach component because components has not been registered.");
@@ -182,8 +188,8 @@ impl<'a> Entities<'a> {
             };
             sparse_set.add_batch(&ids,components);
         }
-        for mut group in self.world.groups(type_id) {
-            match &mut *group {
+        for group in &mut groups {
+            match &mut **group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
-- 
2.43.0


From b07e84339807a0a5b9970205452eb05f968f3574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 14/14] fix: a destructor panicking while a batch is
 overwritten must not leave it half attached

---
 src/entity.rs     |  9 ++++++---
 src/sparse_set.rs | 13 ++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 5b62ac6..21cd6e2 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -178,7 +178,7 @@ impl<'a> Entities<'a> {
             .collect::<Vec<_>>();
         // Nobody may see the storage changed and the groups not
         let mut groups = self.world.groups(type_id);
-        {
+        let replaced = {
             let mut sparse_set = self.world.raw_storage_write(type_id)
                 .expect("Entities:Cannot attach component because components has not been registered.");
             // Safety:
@@ -186,8 +186,8 @@ impl<'a> Entities<'a> {
             let sparse_set = unsafe {
                 sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
             };
-            sparse_set.add_batch(&ids,components);
-        }
+            sparse_set.add_batch(&ids,components)
+        };
         for group in &mut groups {
             match &mut **group {
                 Group::FullOwning(data) => {
@@ -216,6 +216,9 @@ impl<'a> Entities<'a> {
                 }
             }
         }
+        // Every group is up to date
+        drop(groups);
+        drop(replaced);
         self
     }
 
diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index dae0a34..dc0821a 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -45,15 +45,21 @@ impl<E,T> SparseSet<E,T>
         }
     }
 
-    pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
+    /// Return the replaced data, to be dropped when nothing is half done:
+    /// dropping it may panic
+    pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) -> Vec<T> {
         assert_eq!(entities.len(),data.len());
+        let mut replaced = vec![];
         if entities.iter().any(|entity|self.exist(*entity)) {
             //some of them already exist
             //overwrite
             for (entity,data) in entities.iter().zip(data) {
-                self.add(*entity,data);
+                match self.get_mut(*entity) {
+                    Some(old) => replaced.push(std::mem::replace(old,data)),
+                    None => self.add(*entity,data)
+                }
             }
-            return;
+            return replaced;
         }
         let start_index = self.entities.len();
         // copy data to dense
@@ -71,6 +77,7 @@ impl<E,T> SparseSet<E,T>
                 NonZeroUsize::new_unchecked(start_index + index + 1)
             });
         }
+        replaced
     }
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
-- 
2.43.0

