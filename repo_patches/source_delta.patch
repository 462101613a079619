From a667db092eb52dd724acdfb0e33fda8f3fd43bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 01/20] fix: accept lengths up to the maximum length in
 Vector::create

The comparison was inverted: a vector or list shorter than its maximum
(so every list with a maximum) was refused, a longer one accepted.
---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From fc3198d1478713539be38094a293d738e454941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 02/20] fix: check packed vector bounds by element instead of
 by host value

Elements past the length but inside the last host value could be read and
written, and a packed vector accepted more elements than its maximum
length as long as they fitted in its last host value.
---
 src/packed.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..4089ace 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -82,13 +90,32 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
-		let index = self.len;
-		let (covering_base, covering_ranges) = coverings::<H, V>(index);
+		if let Some(max_len) = self.max_len {
+			if self.len as u64 >= max_len {
+				return Err(Error::AccessOverflowed)
+			}
+		}
 
-		while self.tuple.len() < covering_base + covering_ranges.len() {
-			self.tuple.push(db, Default::default())?;
+		let value: GenericArray<u8, V> = value.into();
+		let (covering_base, covering_ranges) = coverings::<H, V>(self.len);
+
+		let mut value_offset = 0;
+		for (i, range) in covering_ranges.into_iter().enumerate() {
+			let host_index = covering_base + i;
+			let next_offset = value_offset + range.end - range.start;
+
+			if host_index < self.tuple.len() {
+				let mut host_value = self.tuple.get(db, host_index)?;
+				host_value.as_mut()[range].copy_from_slice(&value[value_offset..next_offset]);
+				self.tuple.set(db, host_index, host_value)?;
+			} else {
+				let mut host_value = C::Value::default();
+				host_value.as_mut()[range].copy_from_slice(&value[value_offset..next_offset]);
+				self.tuple.push(db, host_value)?;
+			}
+			value_offset = next_offset;
 		}
-		self.set(db, index, value)?;
+
 		self.len += 1;
 		Ok(())
 	}
@@ -195,6 +222,12 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		if let Some(value_max_len) = value_max_len {
+			if value_len as u64 > value_max_len {
+				return Err(Error::InvalidParameter)
+			}
+		}
+
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
-- 
2.43.0


From 58a813db1db37ddc67df4757bb518095c58809bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 03/20] fix: keep neighbouring values when popping from a
 packed vector

Popping rebuilt the last host value from the last remaining value only,
zeroing all other values packed in the same host value.
---
 src/packed.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 4089ace..62f3420 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -129,22 +129,20 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let index = self.len - 1;
 		let ret = self.get(db, index)?;
 
-		if self.len == 1 {
-			while self.tuple.len() > 0 {
-				self.tuple.pop(db)?;
-			}
-		} else {
-			let last_index = index - 1;
+		let host_len = host_len::<H, V>(index);
+		while self.tuple.len() > host_len {
+			self.tuple.pop(db)?;
+		}
 
-			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
-			while self.tuple.len() > covering_base + covering_ranges.len() {
-				self.tuple.pop(db)?;
+		// Clear what the popped value occupied in a host value it shares
+		// with previous values.
+		let (covering_base, covering_ranges) = coverings::<H, V>(index);
+		if covering_base < host_len {
+			let mut host_value = self.tuple.get(db, covering_base)?;
+			for byte in &mut host_value.as_mut()[covering_ranges[0].clone()] {
+				*byte = 0;
 			}
-
-			let last_value = self.get(db, last_index)?;
-			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
+			self.tuple.set(db, covering_base, host_value)?;
 		}
 
 		self.len -= 1;
-- 
2.43.0


From 357eb8e21913f5da1f15bf9c876109580c221cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 04/20] fix: update a vector's root once per push and pop

Growing and shrinking went through intermediate roots. For the dangling
vector inside a list nothing ever released those, so they (and everything
below them) stayed in the backend forever; and when the backend failed
half way, the vector was left with a phantom or a blanked element.
---
 src/vector.rs | 60 +++++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 2db43f9..d03fdd6 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -4,7 +4,6 @@ use crate::index::Index;
 
 const ROOT_INDEX: Index = Index::root();
 const EXTEND_INDEX: Index = Index::root().left();
-const EMPTY_INDEX: Index = Index::root().right();
 
 /// `Vector` with owned root.
 pub type OwnedVector<C> = Vector<Owned, C>;
@@ -24,29 +23,38 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		Index::from_depth(i, self.depth())
 	}
 
+	/// Add a level to the tree, with the given value being the first one
+	/// in its right half. The root is only updated once, at the end.
 	fn extend<DB: WriteBackend<Construct=C> + ?Sized>(
 		&mut self,
-		db: &mut DB
+		db: &mut DB,
+		value: C::Value
 	) -> Result<(), Error<DB::Error>> {
-		let root = self.root();
-		let mut new_raw = Raw::default();
-		let empty = C::empty_at(db, self.depth())?;
-		new_raw.set(db, EXTEND_INDEX, root)?;
-		new_raw.set(db, EMPTY_INDEX, empty)?;
-		self.raw.set(db, ROOT_INDEX, Default::default())?;
-		self.raw = new_raw;
-		Ok(())
+		let mut right = value;
+		for depth_to_bottom in 0..self.depth() {
+			let empty = C::empty_at(db, depth_to_bottom)?;
+			let key = C::intermediate_of(&right, &empty);
+			db.insert(key.clone(), (right, empty))?;
+			right = key;
+		}
+
+		let left = self.root();
+		let key = C::intermediate_of(&left, &right);
+		db.insert(key.clone(), (left, right))?;
+		self.raw.set(db, ROOT_INDEX, key)
 	}
 
+	/// Remove a level from the tree, keeping its left half.
 	fn shrink<DB: WriteBackend<Construct=C> + ?Sized>(
 		&mut self,
 		db: &mut DB
 	) -> Result<(), Error<DB::Error>> {
-		match self.raw.get(db, EXTEND_INDEX)? {
-			Some(extended_value) => { self.raw.set(db, ROOT_INDEX, extended_value)?; },
-			None => { self.raw.set(db, ROOT_INDEX, Default::default())?; },
-		}
-		Ok(())
+		let left = if self.depth() == 0 {
+			Default::default()
+		} else {
+			self.raw.get(db, EXTEND_INDEX)?.unwrap_or_default()
+		};
+		self.raw.set(db, ROOT_INDEX, left)
 	}
 
 	/// Current maximum length of the vector.
@@ -117,15 +125,14 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 			if self.max_len.is_some() {
 				return Err(Error::AccessOverflowed)
 			} else {
-				self.extend(db)?;
+				self.extend(db, value)?;
 			}
+		} else {
+			let raw_index = self.raw_index(old_len);
+			self.raw.set(db, raw_index, value)?;
 		}
-		let len = old_len + 1;
-		let index = old_len;
-		self.len = len;
 
-		let raw_index = self.raw_index(index);
-		self.raw.set(db, raw_index, value)?;
+		self.len = old_len + 1;
 		Ok(())
 	}
 
@@ -144,6 +151,12 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let raw_index = self.raw_index(index);
 		let value = self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)?;
 
+		if self.max_len.is_none() && (len as u64) <= self.current_max_len() / 2 {
+			self.shrink(db)?;
+			self.len = len;
+			return Ok(Some(value))
+		}
+
 		let mut empty_depth_to_bottom = 0;
 		let mut replace_index = raw_index;
 		loop {
@@ -161,11 +174,6 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let empty = C::empty_at(db, empty_depth_to_bottom)?;
 		self.raw.set(db, replace_index, empty)?;
 
-		if (len as u64) <= self.current_max_len() / 2 {
-			if self.max_len.is_none() {
-				self.shrink(db)?;
-			}
-		}
 		self.len = len;
 		Ok(Some(value))
 	}
-- 
2.43.0


From f45a8f5686fbe4d223156c24adf93d194b99e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 05/20] fix: leave a length-mixed tree unchanged when an
 operation fails

A failing operation could leave the inner sequence changed but not the
mixed root, or the root with new items and the old length; the next
successful operation then made the failed one visible.
---
 src/length.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/length.rs b/src/length.rs
index 723a380..b999c48 100644
--- a/src/length.rs
+++ b/src/length.rs
@@ -58,16 +58,35 @@ impl<R: RootStatus, C: Construct, S> LengthMixed<R, C, S> where
 		db: &mut DB,
 		f: F
 	) -> Result<RT, Error<DB::Error>> where
-		F: FnOnce(&mut S, &mut DB) -> Result<RT, Error<DB::Error>>
+		F: FnOnce(&mut S, &mut DB) -> Result<RT, Error<DB::Error>>,
+		S: Leak,
 	{
-		let ret = f(&mut self.inner, db)?;
-		let new_len = self.inner.len();
+		let old_metadata = self.inner.metadata();
+		let ret = f(&mut self.inner, db).and_then(|ret| {
+			self.update(db)?;
+			Ok(ret)
+		});
+
+		if ret.is_err() {
+			self.inner = S::from_leaked(old_metadata);
+		}
+		ret
+	}
+
+	/// Bring the mixed root in line with the inner sequence, in one step.
+	fn update<DB: WriteBackend<Construct=C> + ?Sized>(
+		&mut self,
+		db: &mut DB
+	) -> Result<(), Error<DB::Error>> {
+		let new_len: C::Value = self.inner.len().into();
 		let new_inner_root = self.inner.root();
 
-		self.raw.set(db, ITEM_ROOT_INDEX, new_inner_root)?;
-		self.raw.set(db, LEN_INDEX, new_len.into())?;
+		// The node that is replaced is part of any proof of the change.
+		self.raw.get(db, LEN_INDEX)?;
 
-		Ok(ret)
+		let key = C::intermediate_of(&new_inner_root, &new_len);
+		db.insert(key.clone(), (new_inner_root, new_len))?;
+		self.raw.set(db, Index::root(), key)
 	}
 }
 
-- 
2.43.0


From b46838f885c625078e42849512e8cd4d33362d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 06/20] fix: store the children of a node that was only known
 by its hash

InMemoryBackend ignored the insertion of a node whose key was already
present as a bare child (for example as the sibling on a proven path), so
reading the inserted node back failed.
---
 src/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..e69e4f2 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,7 +258,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
+		if self.0.get(&key).map(|v| v.0.is_some()).unwrap_or(false) {
 			return Ok(())
 		}
 
@@ -269,7 +269,9 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		// The key may already be known as a child or a root whose own
+		// children were not known.
+		self.0.entry(key).or_insert((None, Some(0))).0 = Some((left, right));
 		Ok(())
 	}
 }
-- 
2.43.0


From 70c31dbddc085bcad42d4903ad67cbef4d01baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 07/20] fix: read compact 256-bit integers as little endian

---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From bb5026f93dadab3f86127193a87c2fc62634f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 08/20] fix: read all 64 bytes of a 512-bit hash

---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From e51aa68ace0e3fcafee8e72c34386f39d7d64422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 09/20] fix: compute depths and chunk counts without overflow

---
 src/utils.rs  | 18 +++++++++---------
 src/vector.rs | 18 +++---------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 575efd5..10a7cd8 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -6,10 +6,8 @@ use generic_array::ArrayLength;
 
 /// Required depth of given length.
 pub fn required_depth(len: u64) -> usize {
-	let mut max_len = 1;
 	let mut total_depth = 0;
-	while max_len < len {
-		max_len *= 2;
+	while total_depth < 64 && (1u64 << total_depth) < len {
 		total_depth += 1;
 	}
 	total_depth
@@ -43,17 +41,19 @@ pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Val
 	}
 }
 
-/// Get the host len of a packed vector.
+/// Get the host len of a packed vector, saturating at the largest
+/// representable length.
 pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u64) -> u64 {
-	let host_array_len = Host::to_u64();
-	let value_array_len = Value::to_u64();
+	let host_array_len = Host::to_u64() as u128;
+	let value_array_len = Value::to_u64() as u128;
 
-	let bytes = value_array_len * value_len;
-	if bytes % host_array_len == 0 {
+	let bytes = value_array_len * value_len as u128;
+	let host_max_len = if bytes % host_array_len == 0 {
 		bytes / host_array_len
 	} else {
 		bytes / host_array_len + 1
-	}
+	};
+	core::cmp::min(host_max_len, u64::max_value() as u128) as u64
 }
 
 /// Get the host len of a packed vector.
diff --git a/src/vector.rs b/src/vector.rs
index d03fdd6..f81dac9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1,6 +1,7 @@
 use crate::traits::{ReadBackend, WriteBackend, Construct, RootStatus, Owned, Dangling, Leak, Error, Tree, Sequence};
 use crate::raw::Raw;
 use crate::index::Index;
+use crate::utils::required_depth;
 
 const ROOT_INDEX: Index = Index::root();
 const EXTEND_INDEX: Index = Index::root().left();
@@ -75,13 +76,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 	/// Depth of the vector.
 	pub fn depth(&self) -> usize {
-		let mut max_len = 1;
-		let mut depth = 0;
-		while max_len < self.current_max_len() {
-			max_len *= 2;
-			depth += 1;
-		}
-		depth
+		required_depth(self.max_len.unwrap_or(self.len as u64))
 	}
 
 	/// Get value at index.
@@ -249,14 +244,7 @@ impl<C: Construct> Vector<Owned, C> {
 
 		let mut raw = Raw::<Owned, C>::default();
 
-		let target_len = max_len.unwrap_or(len as u64);
-		let mut current_max_len = 1;
-		let mut depth = 0;
-		while current_max_len < target_len {
-			current_max_len *= 2;
-			depth += 1;
-		}
-
+		let depth = required_depth(max_len.unwrap_or(len as u64));
 		let empty = C::empty_at(db, depth)?;
 		raw.set(db, ROOT_INDEX, empty)?;
 
-- 
2.43.0


From a079da22a86863101c484e915652d2ba4c68e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 10/20] fix: refuse to merkleize more values than the maximum
 length

---
 le/src/elemental_variable.rs | 9 +++++++++
 src/utils.rs                 | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..1505a8f 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -62,6 +62,13 @@ pub struct ElementalVariableVecRef<'a, T>(pub &'a [T]);
 /// Variable `Vec` value. In `ssz`'s definition, this is a "list".
 pub struct ElementalVariableVec<T>(pub Vec<T>);
 
+fn ensure_len<DBError>(len: usize, max_len: Option<u64>) -> Result<(), Error<DBError>> {
+	match max_len {
+		Some(max_len) if len as u64 > max_len => Err(Error::AccessOverflowed),
+		_ => Ok(()),
+	}
+}
+
 macro_rules! impl_packed {
 	( $t:ty ) => {
 		impl<'a> IntoCompactListTree for ElementalVariableVecRef<'a, $t> {
@@ -73,6 +80,7 @@ macro_rules! impl_packed {
 				DB::Construct: CompatibleConstruct,
 			{
 				let len = self.0.len();
+				ensure_len(len, max_len)?;
 
 				mix_in_length(&ElementalFixedVecRef(&self.0).into_compact_vector_tree(db, max_len)?,
 							  db, len)
@@ -100,6 +108,7 @@ impl<'a, T> IntoCompositeListTree for ElementalVariableVecRef<'a, T> where
 		DB::Construct: CompatibleConstruct,
 	{
 		let len = self.0.len();
+		ensure_len(len, max_len)?;
 
 		mix_in_length(&ElementalFixedVecRef(&self.0).into_composite_vector_tree(db, max_len)?,
 					  db, len)
diff --git a/src/utils.rs b/src/utils.rs
index 10a7cd8..a729325 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -15,7 +15,11 @@ pub fn required_depth(len: u64) -> usize {
 
 /// Serialize a vector at given depth.
 pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Value], db: &mut DB, max_len: Option<u64>) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> {
-	let total_depth = required_depth(max_len.unwrap_or(values.len() as u64));
+	let max_len = max_len.unwrap_or(values.len() as u64);
+	if values.len() as u64 > max_len {
+		return Err(Error::AccessOverflowed)
+	}
+	let total_depth = required_depth(max_len);
 
 	let mut current = values.iter().cloned().collect::<VecDeque<_>>();
 	let mut next = VecDeque::new();
-- 
2.43.0


From bbe86a5be6371ed2b0c974bd50cf8951c9d11981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 11/20] fix: refuse to decode a list longer than its maximum
 length

---
 le/src/elemental_variable.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 1505a8f..5de53a5 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -125,6 +125,11 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 	F: FnOnce(&<DB::Construct as Construct>::Value, &mut DB, usize, Option<u64>) -> Result<ElementalFixedVec<T>, Error<DB::Error>>
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
+	// Indexing the elements takes one more bit than their count.
+	let limit = max_len.unwrap_or(u64::max_value() / 2);
+	if len as u64 > limit {
+		return Err(Error::CorruptedDatabase)
+	}
 
 	let vector = f(
 		&vector_root, db, len, max_len
-- 
2.43.0


From 72fa133aa5821e0511a77aabe3ea27f5e6c00975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 12/20] fix: refuse to reconstruct a list longer than its
 maximum length

---
 src/list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index abcee0f..5cfefd9 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -43,6 +43,11 @@ impl<R: RootStatus, C: Construct> List<R, C> where
 	/// Reconstruct the vector from a single hash value.
 	pub fn reconstruct<DB: WriteBackend<Construct=C> + ?Sized>(root: C::Value, db: &mut DB, max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
 		Ok(Self(LengthMixed::reconstruct(root, db, |tuple_raw, _db, len| {
+			// Indexing the elements takes one more bit than their count.
+			let limit = max_len.unwrap_or(u64::max_value() / 2);
+			if len as u64 > limit {
+				return Err(Error::CorruptedDatabase)
+			}
 			Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len))
 		})?))
 	}
-- 
2.43.0


From 6c50c772a2e8101ae11bdd5c078f0667b10a73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 13/20] fix: resolve partial list elements under the list's
 items and within its length

---
 le/src/partial.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..1d22ac0 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,4 +1,5 @@
-use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
+use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
+use bm::utils::required_depth;
 use primitive_types::{U256, H256};
 use core::mem;
 #[cfg(not(feature = "std"))]
@@ -71,9 +72,9 @@ impl PartialIndex {
 			None => Index::root(),
 		};
 
-		let (index, len) = match self.sub {
+		let (items, index, len) = match self.sub {
 			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
-			PartialSubIndex::Vector(index, len) => (index, len),
+			PartialSubIndex::Vector(index, len) => (parent, index, len),
 			PartialSubIndex::List(index) => {
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
@@ -81,22 +82,25 @@ impl PartialIndex {
 				if len > U256::from(usize::max_value()) {
 					return Err(Error::CorruptedDatabase)
 				} else {
-					(index, len.as_usize())
+					(parent.left(), index, len.as_usize())
 				}
 			},
 		};
 
-		let mut max_len = 1;
-		let mut depth = 0;
-		while max_len < len {
-			max_len *= 2;
-			depth += 1;
+		if index >= len {
+			return Err(Error::AccessOverflowed)
 		}
-		let sub = Index::from_one((1 << depth) + index).expect("
-		  result is greater or equal to 1;
-		  Index::from_one always return Some; qed");
 
-		Ok(parent.sub(sub))
+		let items_depth = match items.route() {
+			IndexRoute::Root => 0,
+			IndexRoute::Select(selections) => selections.len(),
+		};
+		let depth = required_depth(len as u64);
+		if items_depth + depth >= 8 * mem::size_of::<usize>() {
+			return Err(Error::CorruptedDatabase)
+		}
+
+		Ok(items.sub(Index::from_depth(index, depth)))
 	}
 }
 
-- 
2.43.0


From 9fe1028d7eb160bcc008ce2743b550e03061f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 14/20] fix: write values pushed to a partial list back to the
 tree

---
 le/src/partial.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 1d22ac0..6a19407 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -221,13 +221,19 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 
 		let mut pushed = Vec::default();
 		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
+		if pushed.is_empty() {
+			return Ok(())
+		}
+
+		let index = self.index.resolve(raw, db)?;
+		let list_raw = raw.subtree(db, index)?;
+		let mut list = DanglingList::reconstruct(list_raw.root(), db, None)?;
 		for value in pushed {
 			let value_root = value.into_tree(db)?;
 			list.push(db, value_root)?;
 		}
 
-		Ok(())
+		raw.set(db, index, list.root())
 	}
 }
 
-- 
2.43.0


From 9ae193aebbd9c60d0c5c46ab9f63cfae6e1c4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 15/20] fix: import Box and Vec for no_std builds of partial
 values

---
 le/src/partial.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 6a19407..26900fa 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -2,6 +2,8 @@ use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, T
 use bm::utils::required_depth;
 use primitive_types::{U256, H256};
 use core::mem;
+use alloc::boxed::Box;
+use alloc::vec::Vec;
 #[cfg(not(feature = "std"))]
 use alloc::collections::BTreeMap as Map;
 #[cfg(feature = "std")]
-- 
2.43.0


From e06cb21d3954c8decfb90462ee4586d543459184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 16/20] fix: derive for generic types with a where clause

---
 le/derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/le/derive/src/lib.rs b/le/derive/src/lib.rs
index c2af540..97feddb 100644
--- a/le/derive/src/lib.rs
+++ b/le/derive/src/lib.rs
@@ -15,6 +15,7 @@ pub fn into_tree_derive(input: TokenStream) -> TokenStream {
 	let name = &input.ident;
 
 	let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
+	let where_predicates = where_clause.into_iter().flat_map(|clause| clause.predicates.iter());
 
 	let build_fields = |fs, prefix| {
 		let where_fields = normalized_fields(fs)
@@ -95,7 +96,7 @@ pub fn into_tree_derive(input: TokenStream) -> TokenStream {
 
 	let expanded = quote! {
 		impl #impl_generics bm_le::IntoTree for #name #ty_generics where
-			#where_clause
+			#(#where_predicates,)*
 			#(#where_fields),*
 		{
 			fn into_tree<DB: bm_le::WriteBackend>(
@@ -118,6 +119,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 	let name = input.ident;
 
 	let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
+	let where_predicates = where_clause.into_iter().flat_map(|clause| clause.predicates.iter());
 
 	let build_fields = |fs| {
 		let where_fields = normalized_fields(fs)
@@ -288,7 +290,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 	let expanded =
 		quote! {
 			impl #impl_generics bm_le::FromTree for #name #ty_generics where
-				#where_clause
+				#(#where_predicates,)*
 				#(#where_fields),*
 			{
 				fn from_tree<DB: bm_le::ReadBackend>(
-- 
2.43.0


From 87feed65591404c0d29a1fb17f8f429165ea8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 17/20] fix: record old nodes that a session writes again and
 then reads

---
 src/proving.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proving.rs b/src/proving.rs
index 94b8340..74a8786 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -111,7 +111,11 @@ impl<'a, DB: WriteBackend + ?Sized> WriteBackend for ProvingBackend<'a, DB> wher
 		key: <DB::Construct as Construct>::Value,
 		value: (<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)
 	) -> Result<(), Self::Error> {
-		self.state.inserts.insert(key.clone());
+		// A node that is already there is an insert only if it was one
+		// before: replaying may give up its own copy and still need this.
+		if self.db.get(&key)?.is_none() {
+			self.state.inserts.insert(key.clone());
+		}
 		self.db.insert(key, value)
 	}
 }
-- 
2.43.0


From 02bee827c2a2875fcbb72db9ae3cda9634569219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 18/20] fix: current_max_len of vectors of more than 2^63
 elements

Doubling the capacity overflowed: a panic with overflow checks, an endless
loop without.
---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index f81dac9..213b934 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -61,9 +61,9 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 	/// Current maximum length of the vector.
 	pub fn current_max_len(&self) -> u64 {
 		self.max_len.unwrap_or({
-			let mut max_len = 1;
+			let mut max_len = 1u64;
 			while max_len < self.len as u64 {
-				max_len *= 2;
+				max_len = max_len.saturating_mul(2);
 			}
 			max_len
 		})
-- 
2.43.0


From 72bb50f14e617cb59f04ba5fea74cf93c0fe5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 19/20] fix: packed elements whose byte offset exceeds the
 machine word

Locating an element multiplied its index by its size in usize, so that far
elements of a very long packed vector panicked or fell on other elements.
---
 src/packed.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 62f3420..64cc391 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -14,9 +14,9 @@ fn coverings<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_index: usize)
 	let host_len = Host::to_usize();
 	let value_len = Value::to_usize();
 
-	let bytes = value_len * value_index;
-	let host_index = bytes / host_len;
-	let offset = bytes - host_len * host_index;
+	let bytes = value_len as u128 * value_index as u128;
+	let host_index = (bytes / host_len as u128) as usize;
+	let offset = (bytes % host_len as u128) as usize;
 
 	let mut ranges = Vec::new();
 	ranges.push(offset..cmp::min(offset + value_len, host_len));
-- 
2.43.0


From 2275c236b393b885720dbedb8274a0eb7521f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 20/20] fix: round maximum lengths of bit lists up without
 overflow

---
 le/src/elemental_fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 28b2a7c..24d25f7 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -184,7 +184,7 @@ impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, bool> {
 		}
 
 		ElementalFixedVecRef(&bytes).into_compact_vector_tree(db, max_len.map(|l| {
-			(l + 7) / 8
+			l / 8 + (l % 8 != 0) as u64
 		}))
 	}
 }
@@ -199,7 +199,7 @@ impl FromCompactVectorTree for ElementalFixedVec<bool> {
 		DB::Construct: CompatibleConstruct,
 	{
 		let packed = DanglingPackedVector::<DB::Construct, GenericArray<u8, typenum::U1>, typenum::U32, typenum::U1>::from_leaked(
-			(root.clone(), (len + 7) / 8, max_len.map(|l| (l + 7) / 8))
+			(root.clone(), len / 8 + (len % 8 != 0) as usize, max_len.map(|l| l / 8 + (l % 8 != 0) as u64))
 		);
 
 		let mut bytes = Vec::new();
-- 
2.43.0

