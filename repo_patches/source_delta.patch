From 8f6826b28bfa26c06bd2c924f6f5178abee7373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 01/23] fix: do not load neighbor list offsets from unaligned
 memory

---
 src/slice_vector/offsets.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..8ed8b8c 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -145,8 +145,9 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
-#[repr(C)]
-#[derive(Clone)]
+// packed, since chunks are loaded directly from byte buffers, where they can be at any position
+#[repr(C, packed)]
+#[derive(Clone, Copy)]
 pub struct Chunk {
     initial: usize,
     deltas: [DeltaType; OFFSETS_PER_CHUNK],
@@ -163,7 +164,8 @@ impl Chunk {
     }
 
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        let deltas = self.deltas;
+        deltas.iter().take_while(|&&x| x != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-- 
2.43.0


From c18318ca6fbb0cd0f7e67a46e289c5f5823b256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 02/23] fix: do not lose links when a node is connected while
 being initialized

---
 src/index/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..e415eb8 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -882,16 +880,21 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         neighbors
     }
 
-    /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
+    /// Sets neighbors for `node`, if it does not have any neighbors yet. Returns whether it did.
+    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
         // Write Lock!
         let mut node = node.write();
 
+        // some other thread might already have connected this node
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From d19b5adccc9b8534bef74db2cf4f46f2f6635e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 03/23] fix: do not divide by zero when quantizing a zero
 vector

---
 src/elements/angular_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index 5adef75..9a999f5 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -30,6 +30,7 @@ impl Vector<'static> {
             .iter()
             .map(|s| NotNan::new(s.abs()).unwrap())
             .max()
+            .filter(|max_value| **max_value > 0.0)
             .unwrap_or_else(|| NotNan::new(MAX_QVALUE).unwrap());
 
         let mut v = Vec::with_capacity(s.len());
-- 
2.43.0


From 2f4c87c6346188e702880faf8d1a32d900af2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 04/23] fix: halve the neighbors of upper layers also when more
 elements than expected were added

---
 src/index/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index e415eb8..ea8f00e 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -644,9 +644,9 @@ fn compute_num_elements_in_layer(total_num_elements: usize, layer_multiplier: f3
 
 impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
     fn index_elements_in_last_layer(self: &mut Self, max_num_elements: usize) {
-        let total_num_elements = self.config.expected_num_elements.unwrap_or(self.elements.len());
+        let total_num_elements = cmp::max(self.config.expected_num_elements.unwrap_or(0), self.elements.len());
         let ideal_num_elements_in_layer = compute_num_elements_in_layer(
-            cmp::max(total_num_elements, self.elements.len()),
+            total_num_elements,
             self.config.layer_multiplier,
             self.layers.len() - 1,
         );
-- 
2.43.0


From 9f450522950d7315bb249f775375cf3e90dc4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 05/23] fix: do not reacquire the write lock while inserting a
 batch that spans layers

---
 src/index/rw/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..7e5dcfb 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -100,14 +100,20 @@ where
         self.insert_batch(vec![element]).pop()
     }
 
-    pub fn insert_batch(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
+    pub fn insert_batch(self: &Self, elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
+        // signal that writes will happen (only once per batch: reacquiring the lock while `write` is
+        // waiting for it would deadlock)
+        let _guard = self.write_lock.read();
+
+        self.insert_batch_guarded(elements_to_insert)
+    }
+
+    /// Inserts a batch. Requires that the caller holds `write_lock`.
+    fn insert_batch_guarded(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
         if self.elements.read().len() >= self.max_elements {
             return vec![];
         }
 
-        // signal that writes will happen
-        let _guard = self.write_lock.read();
-
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
@@ -174,7 +180,7 @@ where
         };
 
         if !remaining.is_empty() {
-            let ids = self.insert_batch(remaining);
+            let ids = self.insert_batch_guarded(remaining);
             inserted.extend(ids.into_iter());
         }
 
-- 
2.43.0


From cff969713197fc720b8ea3238e51d0db0fbff03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 06/23] fix: do not add a layer to a concurrent builder that
 has just been filled

---
 src/index/rw/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 7e5dcfb..a419847 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -117,6 +117,12 @@ where
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
+
+            // another thread might have inserted the last elements in the meantime
+            if elements.len() >= self.max_elements {
+                return vec![];
+            }
+
             let mut layers = self.layers.write();
             let (ref mut current_layer, ref mut prev_layers) = *layers;
 
-- 
2.43.0


From e4893c2a03e4b35368c4558a40665201152dd10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 07/23] fix: search a concurrent builder also while it has only
 one layer

---
 src/index/rw/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index a419847..f04a9c3 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -207,15 +207,18 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
-                .into_iter()
-                .take(num_neighbors)
-                .map(|(i, d)| (i, d.into_inner()))
-                .collect()
-        } else {
-            vec![]
+        if elements.len() == 0 {
+            return vec![];
         }
+
+        // while there is only one layer, there is no layer to search for an entrypoint
+        let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+
+        super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
+            .into_iter()
+            .take(num_neighbors)
+            .map(|(i, d)| (i, d.into_inner()))
+            .collect()
     }
 
     pub fn get_elements(self: &Self) -> parking_lot::RwLockReadGuard<Elements> {
-- 
2.43.0


From c303fd97d5c9543536ccda87fa78a1a91c3bb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 08/23] fix: report errors of the last buffered write when
 saving

The last part of an index or elements file was only written when the
BufWriter was dropped, where errors are ignored. A concurrent builder
could also leave a complete index file next to an incomplete elements
file after a crash.
---
 src/index/io.rs     | 3 ++-
 src/index/rw/mod.rs | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..5d00af1 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -66,7 +66,8 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
 
     buffer.write_all(metadata.as_slice())?;
 
-    Ok(())
+    // errors are ignored if the buffer is flushed when dropped
+    buffer.flush()
 }
 
 pub(super) fn load_layers(buffer: &'_ [u8]) -> Layers<'_> {
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index f04a9c3..1a78d14 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -77,6 +77,10 @@ where
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
 
+        // errors are ignored if the buffer is flushed when dropped, and the index must not be
+        // complete before the elements are
+        elements_file.flush()?;
+
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
         let last_layer: &[NeighborId] = unsafe { current_layer.as_owner() };
-- 
2.43.0


From a368856f017bf06eb06f8f49f028bc461a1c37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 09/23] fix: count the header in the number of bytes written by
 slice vectors

---
 src/slice_vector/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..ccbc51d 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -462,7 +462,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
 
         buffer.write_all(&width.to_le_bytes())?;
 
-        io::write_as_bytes(&data[..], buffer)
+        Ok(U64_LEN + io::write_as_bytes(&data[..], buffer)?)
     }
 }
 
@@ -579,12 +579,14 @@ where
         for &offset in &offsets[begin..=end] {
             let offset = usize::try_from(offset).unwrap();
             let offset = Offset::try_from(offset - offset_begin).unwrap();
-            io::write_as_bytes(&[offset], buffer)?;
+            bytes_written += io::write_as_bytes(&[offset], buffer)?;
         }
 
         let data_begin = usize::try_from(offsets[begin]).unwrap();
         let data_end = usize::try_from(offsets[end]).unwrap();
-        io::write_as_bytes(&data[data_begin..data_end], buffer)
+        bytes_written += io::write_as_bytes(&data[data_begin..data_end], buffer)?;
+
+        Ok(bytes_written)
     }
 
     pub fn get(self: &Self, idx: usize) -> &[T] {
-- 
2.43.0


From 20caaa373a5b6a1951742c74074c3564a6976a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 10/23] fix: load element files that were saved from an empty
 collection

---
 src/slice_vector/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index ccbc51d..8bc78c7 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -115,7 +115,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // try to fail early
         let (data, width) = slice_vec.load();
 
-        assert!(width > 0 && data.len() % width == 0);
+        // the width is only unspecified (0) if there is no data
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Ok(slice_vec)
     }
@@ -123,7 +124,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
         let (data, width) = Self::load_mmap(buffer);
 
-        assert!(width > 0 && data.len() % width == 0);
+        // the width is only unspecified (0) if there is no data
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Self::Memory(Cow::Borrowed(data), width)
     }
-- 
2.43.0


From 52e350bbb20fc2eca35658376bc4065e308e240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 11/23] fix: do not read vectors from unaligned memory

---
 src/io.rs               | 15 +++++++++++++++
 src/slice_vector/mod.rs | 23 ++++++++++++++++-------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 49ecdee..fe245ed 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -8,6 +8,21 @@ pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     elements
 }
 
+/// Copies a (possibly unaligned) slice of bytes into a vector of type T
+pub unsafe fn copy_bytes_as<T>(bytes: &[u8]) -> Vec<T> {
+    let len = bytes.len() / ::std::mem::size_of::<T>();
+
+    let mut elements: Vec<T> = Vec::with_capacity(len);
+    ::std::ptr::copy_nonoverlapping(
+        bytes.as_ptr(),
+        elements.as_mut_ptr() as *mut u8,
+        len * ::std::mem::size_of::<T>(),
+    );
+    elements.set_len(len);
+
+    elements
+}
+
 pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usize> {
     let size = elements.len() * ::std::mem::size_of::<T>();
     let data = unsafe { ::std::slice::from_raw_parts(elements.as_ptr() as *const u8, size) };
diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 8bc78c7..211b75f 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -122,12 +122,19 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (data, width) = Self::load_mmap(buffer);
+        let (data, width) = if (buffer.as_ptr() as usize + U64_LEN) % ::std::mem::align_of::<T>() == 0 {
+            let (data, width) = Self::load_mmap(buffer);
+            (Cow::Borrowed(data), width)
+        } else {
+            // the data cannot be borrowed if it is not aligned
+            let width = Self::load_width(buffer);
+            (Cow::Owned(unsafe { io::copy_bytes_as(&buffer[U64_LEN..]) }), width)
+        };
 
         // the width is only unspecified (0) if there is no data
         assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
-        Self::Memory(Cow::Borrowed(data), width)
+        Self::Memory(data, width)
     }
 
     /// Returns an iterator over all slices in `self`.
@@ -213,15 +220,17 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     fn load_mmap(buffer: &[u8]) -> (&[T], usize) {
-        let width = {
-            let mut buf = [0x0; U64_LEN];
-            buf.copy_from_slice(&buffer[..U64_LEN]);
-            u64::from_le_bytes(buf) as usize
-        };
+        let width = Self::load_width(buffer);
 
         (unsafe { crate::io::load_bytes_as(&buffer[U64_LEN..]) }, width)
     }
 
+    fn load_width(buffer: &[u8]) -> usize {
+        let mut buf = [0x0; U64_LEN];
+        buf.copy_from_slice(&buffer[..U64_LEN]);
+        u64::from_le_bytes(buf) as usize
+    }
+
     pub fn read<I: Read>(mut reader: I) -> Result<Self> {
         let width = {
             let mut buf = [0x0; U64_LEN];
-- 
2.43.0


From 2efe2b9672c8725c711282ec8f2fa0de0c2f3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 12/23] fix: reorder indexes with no or only one layer

---
 src/index/reorder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..ea7b8ad 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -125,8 +125,12 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        if self.num_layers() == 0 {
+            return Vec::new();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
-        let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
+        let mut order_inv = vec![0; self.layer_len(self.num_layers().saturating_sub(2))];
 
         let start_time = time::Instant::now();
         let progress_bar = if show_progress {
-- 
2.43.0


From 53535a4cb4d892f4be9747d8adf365eb19c5bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 13/23] fix: reorder indexes that cover only some of the
 elements

---
 src/index/reorder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index ea7b8ad..c8cd204 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -72,7 +72,7 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
             println!("Reordering elements...");
         }
 
-        self.elements.permute(&order);
+        self.permute_elements(&order);
 
         if show_progress {
             println!("Reordered index and elements in {} s", start_time.elapsed().as_secs());
@@ -115,7 +115,7 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
             println!("Reordering elements...");
         }
 
-        self.elements.permute(&order);
+        self.permute_elements(&order);
 
         if show_progress {
             println!("Total time: {} s", start_time.elapsed().as_secs());
@@ -124,6 +124,14 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
         order
     }
 
+    /// Permutes the indexed elements. Any elements that are not part of the index stay in place.
+    fn permute_elements(self: &mut Self, order: &[usize]) {
+        let mut permutation = order.to_vec();
+        permutation.extend(order.len()..self.elements.len());
+
+        self.elements.permute(&permutation);
+    }
+
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
         if self.num_layers() == 0 {
             return Vec::new();
-- 
2.43.0


From 1550eb39ca550782e0d6b5b2ead50cb3aea1485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 14/23] fix: parse all members of gzip-compressed parts

A gzip file can consist of several members; everything after the first one
was silently ignored.
---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..c44b72c 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -177,7 +177,7 @@ pub fn parse_elements_in_directory_or_file(
             let query_file = File::open(&part).expect(&format!("Input file: {:?} not found", &part));
 
             let elements = if part.to_str().unwrap().ends_with(".gz") {
-                let query_file = flate2::read::GzDecoder::new(query_file);
+                let query_file = flate2::read::MultiGzDecoder::new(query_file);
                 parse_file(query_file, &word_ids)
             } else {
                 parse_file(query_file, &word_ids)
-- 
2.43.0


From 84188423917f4ffaf4a892fdddf0660511891657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 15/23] fix: do not panic when there are shards left after the
 last element

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index c44b72c..978c399 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -76,7 +76,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From 4858b2d9f4f5a9809c35900766477a29edb233c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 16/23] fix: report errors of the last buffered write when
 preparing data

---
 src/elements/embeddings/parsing.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 978c399..07ff83f 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -13,7 +13,7 @@ use serde_json;
 use std::cmp;
 use std::collections::HashMap;
 use std::fs::{read_dir, File};
-use std::io::{BufRead, BufReader, BufWriter, Read};
+use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
 
 pub fn parse_words(words_path: &Path) -> HashMap<String, usize> {
@@ -43,6 +43,8 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    // errors are ignored if the buffer is flushed when dropped
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +96,8 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        // errors are ignored if the buffer is flushed when dropped
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +153,9 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    // errors are ignored if the buffer is flushed when dropped
+    file.flush().unwrap();
 }
 
 pub fn parse_elements_in_directory_or_file(
-- 
2.43.0


From 6b680ba838739f0b936fb4b395c3c3d1eb8303a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:42 +0000
Subject: [PATCH 17/23] fix: name the arguments of
 compute_embeddings_and_save_to_disk in their order

---
 py/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/src/lib.rs b/py/src/lib.rs
index 3696988..765cb53 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -46,8 +46,8 @@ py_module_initializer!(granne, initgranne, PyInit_granne, |py, m| {
         py_fn!(
             py,
             py_compute_embeddings_and_save_to_disk(
-                embeddings_path: String,
                 elements_path: String,
+                embeddings_path: String,
                 output_path: String,
                 show_progress: bool = true
             )
-- 
2.43.0


From 8b9179fdad11528d63b8cf4c9fd4e352ee2c7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:42 +0000
Subject: [PATCH 18/23] fix: document the default number of neighbors in the
 Python bindings

---
 py/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/src/lib.rs b/py/src/lib.rs
index 765cb53..17f1925 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -370,7 +370,7 @@ py_class!(class GranneBuilder |py| {
     /// expected_num_elements: int
     ///     Needs to be used when building before all elements have been inserted into the builder.
     /// num_neighbors: int
-    ///     The maximum number of neighbors per node and layer (Default: 20).
+    ///     The maximum number of neighbors per node and layer (Default: 30).
     /// max_search: int
     ///     The `max_search` parameter used during build time (Default: 200).
     /// reinsert_elements: bool
-- 
2.43.0


From 4af0fe38fbd30bebef468f8206c677fb38d5a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:23 +0000
Subject: [PATCH 19/23] fix: do not deadlock when inserting from a worker of a
 rayon pool

With more than one thread, the pool was entered while holding the locks. A worker of another
pool takes up other tasks while it waits, and any of them that inserts or saves then waits for
locks held further up its own stack.
---
 src/index/rw/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 1a78d14..e648444 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -172,7 +172,9 @@ where
                 &*elements,
             );
 
-            if self.pool.current_num_threads() > 1 {
+            // not from a worker of another pool: it would take up other tasks while it waits here, and
+            // any that uses this builder needs the locks that are held here
+            if self.pool.current_num_threads() > 1 && rayon::current_thread_index().is_none() {
                 self.pool.install(|| {
                     ids.par_iter().for_each(|id| {
                         GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
-- 
2.43.0


From f14a5e51c789d5785451e2c59b904c0c7b24c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:48 +0000
Subject: [PATCH 20/23] fix: do not leave an earlier index without its elements
 when saving over it is cut short

save_index_and_elements_to_disk emptied the elements file before it emptied the index file. If the process dies in
between, or the index file cannot be opened, the index of the earlier save is left behind complete, and loads, but
its elements are gone.
---
 src/index/rw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index e648444..f4c1635 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -61,8 +61,9 @@ where
     }
 
     pub fn save_index_and_elements_to_disk(self: &Self, index_path: &str, elements_path: &str) -> std::io::Result<()> {
-        let mut elements_file = File::create(elements_path)?;
+        // an index that was saved here before must not be left without its elements
         let mut index_file = File::create(index_path)?;
+        let mut elements_file = File::create(elements_path)?;
 
         self.write(&mut index_file, &mut elements_file)
     }
-- 
2.43.0


From 67e778c83fcfe0c5282f69f8d26ece96f9dbb0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:48 +0000
Subject: [PATCH 21/23] fix: do not empty files that another thread is still
 saving to

save_index_and_elements_to_disk opened (and so emptied) the files before it waited for its turn. Two threads that save
to the same place at the same time: the second one empties the files while the first one is writing them, which then
goes on behind a hole of zeros. If the process dies before the second save is through, an index is left behind that
loads but is not the one that was saved.
---
 src/index/rw/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index f4c1635..d1a7a07 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -61,17 +61,25 @@ where
     }
 
     pub fn save_index_and_elements_to_disk(self: &Self, index_path: &str, elements_path: &str) -> std::io::Result<()> {
+        // another thread might still be writing to the same files
+        let _guard = self.write_lock.write();
+
         // an index that was saved here before must not be left without its elements
         let mut index_file = File::create(index_path)?;
         let mut elements_file = File::create(elements_path)?;
 
-        self.write(&mut index_file, &mut elements_file)
+        self.write_guarded(&mut index_file, &mut elements_file)
     }
 
     pub fn write(self: &Self, index_file: impl Write + Seek, elements_file: impl Write) -> std::io::Result<()> {
         // prevent any writes from happening while saving to disk
         let _guard = self.write_lock.write();
 
+        self.write_guarded(index_file, elements_file)
+    }
+
+    /// Writes index and elements. Requires that the caller holds `write_lock` exclusively.
+    fn write_guarded(self: &Self, index_file: impl Write + Seek, elements_file: impl Write) -> std::io::Result<()> {
         let elements = self.elements.read();
         let (ref current_layer, ref layers) = *self.layers.read();
 
-- 
2.43.0


From 632d89528acdbb9dc57e4860ebd4ede5de7d5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:48 +0000
Subject: [PATCH 22/23] fix: do not open a new layer for an empty batch

insert_batch with no elements at the moment the current layer is full opened the next layer. An index that was saved
before the next insert then had two layers of the same size (e.g. [2, 2] instead of [2]).
---
 src/index/rw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index d1a7a07..a0ce202 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -123,7 +123,7 @@ where
 
     /// Inserts a batch. Requires that the caller holds `write_lock`.
     fn insert_batch_guarded(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
-        if self.elements.read().len() >= self.max_elements {
+        if elements_to_insert.is_empty() || self.elements.read().len() >= self.max_elements {
             return vec![];
         }
 
-- 
2.43.0


From da98c692669f1a9a3b9342a7c88bb8f0c2c4ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:02 +0000
Subject: [PATCH 23/23] fix: extend a collection with an empty one of
 unspecified width

---
 src/slice_vector/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 211b75f..0671a2c 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -183,7 +183,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
 
     /// Extend this FixedWidthSliceVector with the slices from `other`.
     ///
-    /// The widths of `self` and `other` must be equal.
+    /// The widths of `self` and `other` must be equal, unless `other` is empty.
     pub fn extend_from_slice_vector(self: &mut Self, other: &FixedWidthSliceVector<T>) {
         let (data, width) = self.load_mut();
         let (other_data, other_width) = other.load();
@@ -192,7 +192,8 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
             *width = other_width;
         }
 
-        assert_eq!(*width, other_width);
+        // the width may be unspecified (0) if there is no data
+        assert!(other_data.is_empty() || *width == other_width);
 
         data.extend_from_slice(other_data);
     }
-- 
2.43.0

