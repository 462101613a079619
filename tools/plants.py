DEMO_SH = r'''#!/bin/bash
# exit 0 when the tree in the current directory behaves, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
bm = { path = "$repo", features = ["serde", "parity-codec"] }
bm-le = { path = "$repo/le", features = ["with-serde", "with-codec"] }
sha2 = "0.8"
typenum = "1.10"
generic-array = "0.12"
vecarray = "0.1"
primitive-types = "0.4"
parity-codec = "4.0"
serde_json = "1"
EOF
cd "$work" && CARGO_TARGET_DIR="$work/target" timeout 280 cargo run --offline --quiet
'''
PRELUDE = r'''#![allow(unused_imports, dead_code, unused_macros)]
use bm::{Index, InMemoryBackend, NoopBackend, ProvingBackend, ProvingState, Proofs, CompactValue, Raw, Owned, Dangling,
	Vector, List, PackedVector, PackedList, Leak, Tree, Sequence, Error, Backend, ReadBackend, WriteBackend, Construct,
	DynBackend, InheritedDigestConstruct, UnitDigestConstruct};
use bm_le::{Value, DigestConstruct, IntoTree, FromTree, Compact, CompactRef, MaxVec, Partialable, PartialItem, PartialIndex, PartialVec, tree_root};
use bm_le::utils::{vector_tree, host_len};
use generic_array::GenericArray;
use primitive_types::{H256, U256};
use sha2::Sha256;
use std::collections::HashMap;

type C = DigestConstruct<Sha256>;
type Unit = UnitDigestConstruct<Sha256, Value>;
type Db = InMemoryBackend<C>;
fn v(i: usize) -> Value { Value::from(i) }
fn h(l: &Value, r: &Value) -> Value { C::intermediate_of(l, r) }

'''
PLANTS = {}
def plant(pid, property, needs, breaks, edits, demo, **kw):
    assert pid not in PLANTS
    PLANTS[pid] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

plant("bits-trailing-zeros", "C01",
  "a compact bit vector or bit list without maximum of more than 256 bits whose last 256 or more bits are zero",
  "Zero bytes at the end of a bit vector are not written, so that its tree lacks chunks, and levels, at the end.",
  [("le/src/elemental_fixed.rs", "\t\tbytes.resize((self.0.len() + 7) / 8, 0u8);\n\n\t\tfor i in 0..self.0.len() {", "\t\tlet len = self.0.iter().rposition(|bit| *bit).map(|i| i + 1).unwrap_or(0);\n\t\tbytes.resize((len + 7) / 8, 0u8);\n\n\t\tfor i in 0..len {")],
  r'''
fn main() {
	use bm_le::{ElementalFixedVecRef, IntoCompactVectorTree};
	let mut db = Db::default();
	let mut bits = vec![false; 300];
	bits[3] = true;
	let root = ElementalFixedVecRef(&bits[..]).into_compact_vector_tree(&mut db, None).unwrap();
	let mut low = [0u8; 32];
	low[0] = 8;
	assert_eq!(root, h(&Value(H256::from(low)), &v(0)));
}
''')
plant("deep-empty-cap", "C01",
  "a declared maximum of more than 2^32 chunks (such as the usual registry limit of 2^40 elements)",
  "Padding subtrees higher than 31 levels are replaced by ones of 31 levels, so the root of lists with such a maximum is wrong.",
  [("src/utils.rs", "let depth_to_bottom = total_depth - depth;", "let depth_to_bottom = core::cmp::min(total_depth - depth, 31);")],
  r'''
fn main() {
	type Limit = typenum::U1099511627776;
	let list = MaxVec::<U256, Limit>::from(vec![U256::from(7)]);
	let root = tree_root::<Sha256, _>(&Compact(list));
	let mut items = v(7);
	let mut empty = v(0);
	for _ in 0..40 {
		items = h(&items, &empty);
		empty = h(&empty, &empty);
	}
	assert_eq!(Value(root), h(&items, &v(1)));
}
''')

plant("nine-tuple", "C02",
  "a tuple of nine elements that is decoded",
  "The declared length of the largest tuple is one too small, so decoding looks for its elements at the wrong depth.",
  [("le/src/fixed.rs", "impl_tuple!(9, a", "impl_tuple!(8, a")],
  r'''
fn main() {
	let value = (1u8, 2u16, 3u32, 4u64, 5u128, true, 7u8, 8u8, 9u8);
	let mut db = Db::default();
	let root = value.into_tree(&mut db).unwrap();
	let back = <(u8, u16, u32, u64, u128, bool, u8, u8, u8)>::from_tree(&root, &mut db).unwrap();
	assert_eq!(value, back);
}
''')

plant("empty-pair-implied", "C03",
  "reading a zero leaf below an empty subtree that was created by padding, with no other node pair of zeros stored",
  "The lowest level of an empty subtree is not stored, so the tree that was written cannot be read completely.",
  [("src/memory.rs", "\t\tfor _ in 0..depth_to_bottom {\n", "\t\tfor level in 0..depth_to_bottom {\n"),
   ("src/memory.rs", "\t\t\tdb.insert(key.clone(), value)?;\n\t\t\tcurrent = key;", "\t\t\tif level > 0 {\n\t\t\t\tdb.insert(key.clone(), value)?;\n\t\t\t}\n\t\t\tcurrent = key;")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut vector = Vector::<Owned, C>::create(&mut db, 4, None).unwrap();
	for i in 0..4 {
		assert_eq!(vector.get(&mut db, i).unwrap(), v(0));
	}
	vector.set(&mut db, 0, v(1)).unwrap();
	assert_eq!(vector.get(&mut db, 3).unwrap(), v(0));
}
''')

plant("set-at-length", "C04",
  "a write at exactly the length of a vector",
  "A vector accepts a write one position beyond its last element.",
  [("src/vector.rs", "\t\tvalue: C::Value\n\t) -> Result<(), Error<DB::Error>> {\n\t\tif index >= self.len() {", "\t\tvalue: C::Value\n\t) -> Result<(), Error<DB::Error>> {\n\t\tif index > self.len() {")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut vector = Vector::<Owned, C>::create(&mut db, 3, Some(4)).unwrap();
	let root = vector.root();
	assert!(vector.set(&mut db, 3, v(1)).is_err());
	assert_eq!(vector.root(), root);
}
''')

plant("set-unchanged-chunk", "C05",
  "setting a packed element that lies in several chunks to a value whose part in the first of them is unchanged",
  "The write stops at the first chunk whose bytes do not change, so later chunks keep their old bytes.",
  [("src/packed.rs", "\t\t\thost_value.as_mut()[range.clone()].copy_from_slice(&value[value_offset..(value_offset + range.end - range.start)]);\n",
    "\t\t\tlet part = &value[value_offset..(value_offset + range.end - range.start)];\n\t\t\tif &host_value.as_ref()[range.clone()] == part {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\thost_value.as_mut()[range.clone()].copy_from_slice(part);\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut vector = PackedVector::<Owned, C, GenericArray<u8, typenum::U48>, typenum::U32, typenum::U48>::create(&mut db, 4, None).unwrap();
	let mut value = GenericArray::<u8, typenum::U48>::default();
	value[47] = 9;
	vector.set(&mut db, 0, value.clone()).unwrap();
	assert_eq!(vector.get(&mut db, 0).unwrap(), value);
}
''')

plant("pop-empty-limit", "C06",
  "the unit-empty construct and a pop that empties a subtree of 64 or more places (the only element of a vector with a maximum of 128 or more, for example)",
  "Only six levels of an emptied subtree are cleared; with the unit construct the levels above keep the hash of two empty subtrees instead of zero.",
  [("src/vector.rs", "if parent.left() == replace_index {", "if parent.left() == replace_index && empty_depth_to_bottom < 6 {")],
  r'''
fn main() {
	let mut db = InMemoryBackend::<Unit>::default();
	let mut vector = Vector::<Owned, Unit>::create(&mut db, 0, Some(200)).unwrap();
	let before = vector.root();
	vector.push(&mut db, v(1)).unwrap();
	assert_eq!(vector.pop(&mut db).unwrap(), Some(v(1)));
	assert_eq!(vector.root(), before);
}
''')

plant("subtree-default", "C07",
  "taking a subtree below a leaf",
  "The subtree below a leaf is reported to be the zero value instead of being absent.",
  [("src/raw.rs", "self.get(db, index)?.ok_or(Error::CorruptedDatabase)?;", "self.get(db, index)?.unwrap_or_default();")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(2).unwrap(), v(5)).unwrap();
	assert!(raw.subtree(&mut db, Index::from_one(2).unwrap()).is_ok());
	assert!(raw.subtree(&mut db, Index::from_one(4).unwrap()).is_err());
}
''')

plant("create-drop-early", "C08",
  "creating a list with a maximum of at least four in a backend where nothing else holds the empty subtrees",
  "The items of a new list are released before the list holds them, so their nodes are collected while the list is alive.",
  [("src/length.rs", "\t\tlet len = inner.len();\n\t\tlet mut raw = Raw::default();\n\n\t\traw.set(db, ITEM_ROOT_INDEX, inner.root())?;\n\t\traw.set(db, LEN_INDEX, len.into())?;\n\t\tlet metadata = inner.metadata();\n\t\tinner.drop(db)?;\n",
    "\t\tlet len = inner.len();\n\t\tlet metadata = inner.metadata();\n\t\tlet inner_root = inner.root();\n\t\tinner.drop(db)?;\n\n\t\tlet mut raw = Raw::default();\n\t\traw.set(db, ITEM_ROOT_INDEX, inner_root)?;\n\t\traw.set(db, LEN_INDEX, len.into())?;\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let list = List::<Owned, C>::create(&mut db, Some(8)).unwrap();
	let raw = list.into_raw();
	for i in 16..24 {
		assert_eq!(raw.get(&mut db, Index::from_one(i).unwrap()).unwrap(), Some(v(0)));
	}
}
''')

plant("create-leak", "C09",
  "creating and dropping a list with a maximum of at least two",
  "The vector a new list starts from is never released, so its nodes stay in the backend for ever.",
  [("src/length.rs", "\t\tlet metadata = inner.metadata();\n\t\tinner.drop(db)?;\n\t\tlet dangling_inner", "\t\tlet metadata = inner.metadata();\n\t\tlet dangling_inner")],
  r'''
fn main() {
	let mut db = Db::default();
	let before = db.as_ref().len();
	let mut list = List::<Owned, C>::create(&mut db, Some(8)).unwrap();
	list.push(&mut db, v(1)).unwrap();
	list.drop(&mut db).unwrap();
	assert_eq!(db.as_ref().len(), before);
}
''')

plant("proof-drops-rewritten", "C10",
  "a session on an owned tree that reads an old node, gives it up so that it is collected, and creates the same node again",
  "A node that was read and later created again is missing from the recorded proofs.",
  [("src/proving.rs", "\t\tSelf(state.proofs)\n", "\t\tlet ProvingState { proofs, inserts } = state;\n\t\tSelf(proofs.into_iter().filter(|(key, _)| !inserts.contains(key)).collect())\n")],
  r'''
fn session<DB: WriteBackend<Construct=C>>(db: &mut DB, root: Value) -> Result<(Value, Option<Value>), ()> {
	let mut raw = Raw::<Owned, C>::from_leaked(root);
	let at = |i| Index::from_one(i).unwrap();
	let old = raw.get(db, at(4)).map_err(|_| ())?;
	raw.set(db, at(4), v(50)).map_err(|_| ())?;
	raw.set(db, at(4), old.clone().ok_or(())?).map_err(|_| ())?;
	let last = raw.get(db, at(5)).map_err(|_| ())?;
	Ok((raw.root(), last))
}
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	for i in 4..8 { raw.set(&mut db, Index::from_one(i).unwrap(), v(i)).unwrap(); }
	let root = raw.metadata();
	let mut proving = ProvingBackend::new(&mut db);
	let direct = session(&mut proving, root.clone());
	let proofs: Proofs<Value> = proving.into();
	let mut replay = Db::default();
	replay.populate(proofs.into());
	assert_eq!(session(&mut replay, root), direct);
}
''')

plant("compact-skips-twins", "C11",
  "a compact proof with a combined node whose two children are equal",
  "Writing a compact proof into a backend leaves out nodes with two equal children, so part of the tree is unreadable.",
  [("le/src/basic.rs", "\t\t\t\tdb.insert(key.clone(), (left, right))?;\n", "\t\t\t\tif left != right {\n\t\t\t\t\tdb.insert(key.clone(), (left, right))?;\n\t\t\t\t}\n")],
  r'''
fn main() {
	let leaf = || CompactValue::Single(v(3));
	let compact = CompactValue::Combined(Box::new((
		CompactValue::Combined(Box::new((leaf(), leaf()))), leaf(),
	)));
	let mut db = Db::default();
	let root = compact.into_tree(&mut db).unwrap();
	let raw = Raw::<Dangling, C>::from_leaked(root);
	assert_eq!(raw.get(&mut db, Index::from_one(4).unwrap()).unwrap(), Some(v(3)));
}
''')

plant("long-branch", "C12",
  "a plain proof with more siblings than its index has levels",
  "A list of siblings that is too long is accepted and its end ignored.",
  [("src/proving.rs", "(None, None) => return Some(current),", "(None, _) => return Some(current),")],
  r'''
fn main() {
	let index = Index::from_one(5).unwrap();
	assert!(CompactValue::from_plain(v(1), vec![v(2), v(3)], index).is_some());
	assert!(CompactValue::from_plain(v(1), vec![v(2), v(3), v(4)], index).is_none());
}
''')

plant("partial-keeps-value", "C13",
  "flushing a partial value twice, with the field changed by somebody else in between",
  "An assigned value is kept after its flush and written again by the next one, undoing later changes.",
  [("le/src/partial.rs", "if let Some(value) = self.value.take() {", "if let Some(value) = self.value.as_ref() {")],
  r'''
#[derive(Partialable, IntoTree, FromTree, Clone, PartialEq, Eq, Debug)]
struct S { a: u64, b: u32, c: u8 }
fn main() {
	let mut db = Db::default();
	let root = S { a: 1, b: 2, c: 3 }.into_tree(&mut db).unwrap();
	let mut raw = Raw::<Dangling, C>::from_leaked(root);
	let mut partial = <S as Partialable>::Value::new(PartialIndex::root());
	partial.b.set(20);
	partial.flush(&mut raw, &mut db).unwrap();
	let mut other = <S as Partialable>::Value::new(PartialIndex::root());
	other.b.set(30);
	other.flush(&mut raw, &mut db).unwrap();
	partial.a.set(10);
	partial.flush(&mut raw, &mut db).unwrap();
	assert_eq!(S::from_tree(&raw.root(), &mut db).unwrap(), S { a: 10, b: 30, c: 3 });
}
''')

plant("partial-list-swallow", "C14",
  "assigning an element at or beyond the stored length of a partial list and flushing",
  "An error while writing an assigned element is swallowed and the flush claims success.",
  [("le/src/partial.rs", "\t\t\tvalue.flush(raw, db)?;\n", "\t\t\tif value.flush(raw, db).is_err() {\n\t\t\t\tcontinue\n\t\t\t}\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let root = vec![1u64, 2, 3].into_tree(&mut db).unwrap();
	let mut raw = Raw::<Owned, C>::from_leaked(root);
	let mut partial = PartialVec::<u64>::new(PartialIndex::root());
	partial.at(3).set(9);
	assert!(partial.flush(&mut raw, &mut db).is_err());
}
''')

plant("packed-metadata-max", "C15",
  "reopening a packed vector or list from its metadata when its maximum does not fill the last chunk, and then filling it",
  "The metadata reports the capacity of the chunks as maximum, so the reopened collection accepts more elements than declared.",
  [("src/packed.rs", "\t\tlet value_max_len = self.max_len;\n\t\tlet (tuple_root", "\t\tlet value_max_len = self.tuple.max_len().map(|l| l * H::to_u64() / V::to_u64());\n\t\tlet (tuple_root")],
  r'''
fn main() {
	type P = PackedVector::<Owned, C, GenericArray<u8, typenum::U8>, typenum::U32, typenum::U8>;
	let mut db = Db::default();
	let vector = P::create(&mut db, 6, Some(6)).unwrap();
	let mut again = P::from_leaked(vector.metadata());
	assert!(again.push(&mut db, Default::default()).is_err());
	assert_eq!(again.len(), 6);
}
''')

plant("type-number-truncated", "C16",
  "a stored option or enum whose variant number agrees with a valid one in its low 32 bits only",
  "The variant number is cut to 32 bits, so numbers out of range are decoded as valid variants.",
  [("le/src/utils.rs", "f(&value, db, ty.as_usize())", "f(&value, db, ty.low_u32() as usize)")],
  r'''
fn main() {
	let mut db = Db::default();
	let left = 7u64.into_tree(&mut db).unwrap();
	let right = U256::from((1u64 << 32) + 1).into_tree(&mut db).unwrap();
	let root = (left, right).into_tree(&mut db).unwrap();
	assert!(Option::<u64>::from_tree(&root, &mut db).is_err());
}
''')

plant("none-unchecked", "C16",
  "a stored option with variant number zero and a value that is not empty",
  "The value of an absent option is no longer required to be empty.",
  [("le/src/basic.rs", "\t\t\t\t\t<()>::from_tree(inner, db)?;\n", "")],
  r'''
fn main() {
	let mut db = Db::default();
	let root = (v(1), v(0)).into_tree(&mut db).unwrap();
	assert!(Option::<u64>::from_tree(&root, &mut db).is_err());
}
''')

plant("sub-shift", "C17",
  "composing with an index of 32 or more levels",
  "The mask of a composed index is computed with 32 bits, so compositions with an index of 32 or more levels fail.",
  [("src/index.rs", "\t\t\t\tlet mut current = self.clone();\n\n\t\t\t\tfor selection in selections {\n\t\t\t\t\tmatch selection {\n\t\t\t\t\t\tIndexSelection::Left => { current = current.left(); }\n\t\t\t\t\t\tIndexSelection::Right => { current = current.right(); }\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tcurrent\n",
    "\t\t\t\tlet depth = selections.len();\n\t\t\t\tlet mask = 1u32.checked_shl(depth as u32).unwrap_or(0).wrapping_sub(1) as usize;\n\t\t\t\tSelf((self.0 << depth) | (sub.0 & mask))\n")],
  r'''
fn main() {
	let sub = Index::from_one((1 << 40) + (1 << 35) + 5).unwrap();
	assert_eq!(Index::root().sub(sub), sub);
}
''')

plant("codec-exact-max", "C18",
  "decoding, with parity-codec, a bounded list that is exactly full",
  "A bounded list with as many elements as its maximum is refused by one of the two wire formats.",
  [("le/src/variable.rs", "if (decoded.len() as u64) > N::to_u64() {", "if (decoded.len() as u64) >= N::to_u64() {")],
  r'''
use parity_codec::{Encode, Decode};
fn main() {
	let list = MaxVec::<u32, typenum::U3>::from(vec![1, 2, 3]);
	let bytes = list.encode();
	assert_eq!(MaxVec::<u32, typenum::U3>::decode(&mut &bytes[..]), Some(list));
}
''')

plant("host-len-overflow", "C19",
  "a packed collection of so many elements that its size in bytes exceeds the machine word",
  "The chunk count is computed in machine words and overflows for very long packed collections.",
  [("src/utils.rs", "\thost_max_len::<Host, Value>(value_len as u64) as usize\n", "\tlet bytes = value_len.wrapping_mul(Value::to_usize());\n\tbytes / Host::to_usize() + (bytes % Host::to_usize() != 0) as usize\n")],
  r'''
fn main() {
	assert_eq!(host_len::<typenum::U32, typenum::U16>(1 << 60), 1 << 59);
}
''')

plant("reconstruct-rounds-max", "C20",
  "a list with a maximum that is not a power of two, reconstructed from its root and then filled beyond the maximum",
  "A reconstructed list accepts elements up to the capacity of its tree instead of its declared maximum.",
  [("src/list.rs", "Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len))", "Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len.map(|l| l.next_power_of_two())))")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut list = List::<Owned, C>::create(&mut db, Some(3)).unwrap();
	for i in 0..3 { list.push(&mut db, v(i + 1)).unwrap(); }
	let root = list.deconstruct(&mut db).unwrap();
	let mut list = List::<Owned, C>::reconstruct(root, &mut db, Some(3)).unwrap();
	assert!(list.push(&mut db, v(9)).is_err());
}
''')

FAILING = r'''
struct Failing { inner: Db, left: Option<usize> }
impl Failing {
	fn tick(&mut self) -> Result<(), String> {
		match &mut self.left {
			Some(0) => { self.left = None; Err("disk".to_string()) },
			Some(n) => { *n -= 1; Ok(()) },
			None => Ok(()),
		}
	}
}
impl Backend for Failing { type Construct = C; type Error = String; }
impl ReadBackend for Failing {
	fn get(&mut self, key: &Value) -> Result<Option<(Value, Value)>, String> { self.tick()?; Ok(self.inner.get(key).unwrap()) }
}
impl WriteBackend for Failing {
	fn rootify(&mut self, key: &Value) -> Result<(), String> { self.tick()?; Ok(self.inner.rootify(key).unwrap()) }
	fn unrootify(&mut self, key: &Value) -> Result<(), String> { self.tick()?; Ok(self.inner.unrootify(key).unwrap()) }
	fn insert(&mut self, key: Value, value: (Value, Value)) -> Result<(), String> { self.tick()?; Ok(self.inner.insert(key, value).unwrap()) }
}
'''

plant("root-before-rootify", "C21",
  "a storage failure while an owned tree registers its new root",
  "The handle takes its new root before the backend has accepted it, so a failed write changes the tree.",
  [("src/raw.rs", "\t\tif R::is_owned() {\n\t\t\tdb.rootify(&update)?;\n\t\t\tdb.unrootify(&self.root)?;\n\t\t}\n\n\t\tself.root = update;\n\t\tOk(())\n",
    "\t\tlet old_root = core::mem::replace(&mut self.root, update);\n\t\tif R::is_owned() {\n\t\t\tdb.rootify(&self.root)?;\n\t\t\tdb.unrootify(&old_root)?;\n\t\t}\n\t\tOk(())\n")],
  FAILING + r'''
fn main() {
	for n in 0..20 {
		let mut db = Failing { inner: Db::default(), left: None };
		let mut raw = Raw::<Owned, C>::default();
		raw.set(&mut db, Index::from_one(4).unwrap(), v(1)).unwrap();
		let before = raw.root();
		db.left = Some(n);
		if raw.set(&mut db, Index::from_one(5).unwrap(), v(2)).is_err() {
			assert_eq!(raw.root(), before);
		}
	}
}
''')

plant("dyn-get-swallow", "C21",
  "a read failure of the storage behind the error-stripping wrapper",
  "The wrapper turns a failed read into the answer that the node is absent, so a write replaces existing subtrees by zeros.",
  [("src/traits.rs", "self.0.get(key).map_err(|_| ())", "Ok(self.0.get(key).unwrap_or_default())")],
  FAILING + r'''
fn main() {
	let mut db = DynBackend(Failing { inner: Db::default(), left: None });
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(4).unwrap(), v(1)).unwrap();
	db.0.left = Some(0);
	assert!(raw.get(&mut db, Index::from_one(4).unwrap()).is_err());
}
''')

plant("resume-forgets-inserts", "C22",
  "a recording that is suspended after a write and resumed, and then reads what it wrote",
  "The nodes a session has written are forgotten when it is resumed, and recorded as if they had existed before.",
  [("src/proving.rs", "\t\tSelf { db, state }\n", "\t\tSelf { db, state: ProvingState { proofs: state.proofs, inserts: Default::default() } }\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	let mut proving = ProvingBackend::new(&mut db);
	raw.set(&mut proving, Index::from_one(2).unwrap(), v(1)).unwrap();
	let state = proving.into_state();
	let mut proving = ProvingBackend::from_state(state, &mut db);
	raw.get(&mut proving, Index::from_one(2).unwrap()).unwrap();
	let proofs: Proofs<Value> = proving.into();
	assert!(proofs.get(&raw.root()).is_none());
}
''')

plant("proving-cache", "C22",
  "a session that reads a node, gives it up so that it is collected, and reads it again through another handle",
  "Reads are answered from the recorded proofs, so a node that no longer exists is still reported.",
  [("src/proving.rs", "\t\tlet value = match self.db.get(key)? {\n", "\t\tif let Some(value) = self.state.proofs.get(key) {\n\t\t\treturn Ok(Some(value.clone()))\n\t\t}\n\t\tlet value = match self.db.get(key)? {\n"),
   ("src/proving.rs", "\t\tif !self.state.inserts.contains(key) {\n\t\t\tself.state.proofs.insert(key.clone(), value.clone());\n\t\t}\n\t\tOk(Some(value))\n", "\t\tif self.state.inserts.contains(key) {\n\t\t\treturn Ok(Some(value))\n\t\t}\n\t\tself.state.proofs.insert(key.clone(), value.clone());\n\t\tOk(Some(value))\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(2).unwrap(), v(1)).unwrap();
	let at = Index::from_one(2).unwrap();
	let mut proving = ProvingBackend::new(&mut db);
	let dangling = raw.as_dangling();
	assert_eq!(dangling.get(&mut proving, at).unwrap(), Some(v(1)));
	raw.set(&mut proving, at, v(2)).unwrap();
	assert_eq!(dangling.get(&mut proving, at).unwrap(), None);
}
''')

plant("length-32-bits", "C15",
  "a list of 2^32 or more elements (sparse, opened from metadata) that is deconstructed and reconstructed",
  "Only 32 bits of a stored length are read back.",
  [("le/src/lib.rs", "\t\tlet mut raw = [0u8; 8];\n\t\t(&mut raw).copy_from_slice(&self.0[0..8]);\n\t\tu64::from_le_bytes(raw) as usize\n", "\t\tlet mut raw = [0u8; 4];\n\t\t(&mut raw).copy_from_slice(&self.0[0..4]);\n\t\tu32::from_le_bytes(raw) as usize\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let len = (1usize << 32) + 1;
	let items = Vector::<Owned, C>::create(&mut db, len, Some(1 << 40)).unwrap();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(2).unwrap(), items.root()).unwrap();
	raw.set(&mut db, Index::from_one(3).unwrap(), v(len)).unwrap();
	let list = List::<Dangling, C>::reconstruct(raw.root(), &mut db, Some(1 << 40)).unwrap();
	assert_eq!(list.len(), len);
}
''')

plant("from-depth-32", "C17",
  "a constructor by depth with 32 or more levels",
  "The first index of a level is computed with 32 bits.",
  [("src/index.rs", "Self((1 << depth) + index)", "Self(1u32.wrapping_shl(depth as u32) as usize + index)")],
  r'''
fn main() {
	assert_eq!(Index::from_depth(3, 40), Index::from_one((1 << 40) + 3).unwrap());
}
''')

# ---------------------------------------------------------------- second round

plant("rootify-permanent", "C09",
  "an owned tree whose root is a plain value that no stored node mentions yet",
  "A root the backend does not know yet is entered as permanent, so it is never collected.",
  [("src/memory.rs", "\t\tself.0.entry(key.clone()).or_insert((None, Some(0))).1\n\t\t\t.as_mut().map(|v| *v += 1);\n\t\tOk(())", "\t\tself.0.entry(key.clone()).or_insert((None, None)).1\n\t\t\t.as_mut().map(|v| *v += 1);\n\t\tOk(())")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::root(), v(7)).unwrap();
	raw.drop(&mut db).unwrap();
	assert_eq!(db.as_ref().len(), 1);
}
''')

plant("raw-order", "C13",
  "a partial struct placed at a raw index inside another raw index",
  "Raw parts of a partial index are composed in the wrong order.",
  [("le/src/partial.rs", "PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),", "PartialSubIndex::Raw(raw) => return Ok(raw.sub(parent)),")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Dangling, C>::default();
	for (i, n) in [(8, 80), (9, 90), (10, 100), (11, 110), (12, 120)].iter() {
		raw.set(&mut db, Index::from_one(*i).unwrap(), v(*n)).unwrap();
	}
	let index = PartialIndex::root().raw(Index::root().left().right()).raw(Index::root().left());
	let mut part = <<u64 as Partialable>::Value as PartialItem>::new(index);
	assert_eq!(*part.get(&raw, &mut db).unwrap(), 100);
}
''')

plant("compact-len-twins", "C11",
  "a compact proof with two equal halves",
  "The leaf count of a compact proof counts two equal halves once.",
  [("src/proving.rs", "impl<V: Default + Clone> CompactValue<V> {", "impl<V: Default + Clone + PartialEq> CompactValue<V> {"),
   ("src/proving.rs", "\t\t\t\tboxed.as_ref().0.len() + boxed.as_ref().1.len()\n", "\t\t\t\tlet (left, right) = boxed.as_ref();\n\t\t\t\tif left == right {\n\t\t\t\t\tleft.len()\n\t\t\t\t} else {\n\t\t\t\t\tleft.len() + right.len()\n\t\t\t\t}\n")],
  r'''
fn main() {
	let one = CompactValue::Combined(Box::new((CompactValue::Single(v(1)), CompactValue::Single(v(1)))));
	assert_eq!(one.len(), 2);
}
''')

plant("length-number-truncated", "C16",
  "a stored list whose length word does not fit a machine word",
  "A stored length beyond the machine word is truncated instead of refused.",
  [("le/src/utils.rs", "\tlet (value, len) = <(T, U256)>::from_tree(root, db)?;\n\n\tif len > U256::from(usize::max_value()) {\n\t\tErr(Error::CorruptedDatabase)\n\t} else {\n\t\tOk((value, len.as_usize()))\n\t}\n",
    "\tlet (value, len) = <(T, U256)>::from_tree(root, db)?;\n\n\tOk((value, len.low_u64() as usize))\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut len = U256::from(1);
	len = len << 64;
	let root = (v(5), len + U256::from(1)).into_tree(&mut db).unwrap();
	assert!(Vec::<u64>::from_tree(&root, &mut db).is_err());
}
''')

plant("proving-keeps-roots", "C22",
  "an owned tree that is edited or dropped through the recording backend",
  "The recording backend does not pass on that a root is given up, so old versions are never collected.",
  [("src/proving.rs", "\t\tself.db.unrootify(key)\n", "\t\tif self.state.proofs.contains_key(key) {\n\t\t\treturn Ok(())\n\t\t}\n\t\tself.db.unrootify(key)\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(4).unwrap(), v(1)).unwrap();
	let mut proving = ProvingBackend::new(&mut db);
	raw.set(&mut proving, Index::from_one(4).unwrap(), v(2)).unwrap();
	raw.drop(&mut proving).unwrap();
	assert_eq!(db.as_ref().len(), 1);
}
''')

plant("populate-counts-one", "C10",
  "replaying a proof that contains the same subtree in two places and rewrites one of them, through an owned handle",
  "Populated nodes are counted as if each had one parent, so a shared subtree disappears when one of its places is rewritten.",
  [("src/memory.rs", "\t\t\tself.0.insert(key, (Some((left.clone(), right.clone())), None));\n", "\t\t\tself.0.insert(key, (Some((left.clone(), right.clone())), Some(1)));\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	for i in 4..8 { raw.set(&mut db, Index::from_one(i).unwrap(), v(1)).unwrap(); }
	let root = raw.root();
	let mut proving = ProvingBackend::new(&mut db);
	let at = |i| Index::from_one(i).unwrap();
	let mut ours = Raw::<Owned, C>::from_leaked(root.clone());
	ours.set(&mut proving, at(2), v(9)).unwrap();
	let want = ours.get(&mut proving, at(6)).unwrap();
	ours.set(&mut proving, at(2), v(10)).unwrap();
	assert_eq!(ours.get(&mut proving, at(6)).unwrap(), want);
	let proofs: Proofs<Value> = proving.into();
	let mut replay = Db::default();
	replay.populate(proofs.into());
	let mut theirs = Raw::<Owned, C>::from_leaked(root);
	theirs.set(&mut replay, at(2), v(9)).unwrap();
	assert_eq!(theirs.get(&mut replay, at(6)).unwrap(), want);
	theirs.set(&mut replay, at(2), v(10)).unwrap();
	assert_eq!(theirs.get(&mut replay, at(6)).unwrap(), want);
}
''')

plant("bounded-empty-root", "C01",
  "an empty bounded list whose maximum needs at least two chunks, with the usual (inherited) empty subtrees",
  "An empty bounded list gets the zero value instead of the empty subtree of its declared size.",
  [("src/utils.rs", "\t\tOk(<DB::Construct as Construct>::empty_at(db, total_depth)?)\n", "\t\t// Nothing to pad.\n\t\tOk(Default::default())\n")],
  r'''
fn main() {
	let root = tree_root::<Sha256, _>(&MaxVec::<u64, typenum::U4>::from(vec![]));
	let z = h(&v(0), &v(0));
	assert_eq!(Value(root), h(&h(&z, &z), &v(0)));
}
''')

plant("descendant-self", "C17",
  "asking whether an index is a descendant of itself",
  "The descendant test holds for an index and itself.",
  [("src/index.rs", "\t\tmatch other.parent() {\n\t\t\tSome(parent) => {\n\t\t\t\tif parent == *self {\n\t\t\t\t\ttrue\n\t\t\t\t} else {\n\t\t\t\t\tself.has_descendant(&parent)\n\t\t\t\t}\n\t\t\t}\n\t\t\tNone => false,\n\t\t}\n",
    "\t\tlet mut other = *other;\n\t\twhile other.0 > self.0 {\n\t\t\tother = Self(other.0 / 2);\n\t\t}\n\t\tother == *self\n")],
  r'''
fn main() {
	let i = Index::from_one(5).unwrap();
	assert!(!i.has_descendant(&i));
	assert!(i.has_descendant(&i.left()));
}
''')

plant("root-branch", "C12",
  "a branch for the root index with siblings left over",
  "Siblings are ignored for the root index, so a branch that is too long is accepted.",
  [("src/proving.rs", "\t\t\tIndexRoute::Root => if proofs.next().is_none() {\n\t\t\t\tSome(current)\n\t\t\t} else {\n\t\t\t\tNone\n\t\t\t},\n", "\t\t\tIndexRoute::Root => Some(current),\n")],
  r'''
fn main() {
	assert!(CompactValue::from_plain(v(1), vec![v(2)], Index::root()).is_none());
}
''')

plant("unit-variant-unchecked", "C16",
  "a stored enum with the number of a unit variant and a value that is not empty",
  "The value of a unit variant is no longer required to be empty.",
  [("le/derive/src/lib.rs", "\t\t\t\t\t\t\t\t\tif vector_root != &Default::default() {\n\t\t\t\t\t\t\t\t\t\treturn Err(bm_le::Error::CorruptedDatabase)\n\t\t\t\t\t\t\t\t\t}\n\n", "")],
  r'''
#[derive(Debug, bm_le::FromTree, bm_le::IntoTree)]
enum E { A, B(u64), C }
fn main() {
	let mut db = Db::default();
	let root = (v(1), v(2)).into_tree(&mut db).unwrap();
	assert!(E::from_tree(&root, &mut db).is_err());
}
''')

plant("serde-unbounded", "C18",
  "decoding, with serde, a bounded list one element longer than its maximum",
  "A list one longer than its maximum is accepted by one of the two wire formats.",
  [("le/src/variable.rs", "if (vec.len() as u64) > N::to_u64() {", "if (vec.len() as u64) > N::to_u64() + 1 {")],
  r'''
fn main() {
	assert!(serde_json::from_str::<MaxVec<u32, typenum::U3>>("[1,2,3,4]").is_err());
	assert!(serde_json::from_str::<MaxVec<u32, typenum::U3>>("[1,2,3]").is_ok());
}
''')

plant("coverings-tail", "C05",
  "packed elements larger than a chunk and no multiple of it",
  "The last part of an element that does not fill its chunks is taken too long.",
  [("src/packed.rs", "\t\tlet rest = value_len - covered;\n\t\tranges.push(0..cmp::min(rest, host_len));\n\t\tcovered += cmp::min(rest, host_len);\n", "\t\tlet next = cmp::min(value_len, host_len);\n\t\tranges.push(0..next);\n\t\tcovered += next;\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut vector = PackedVector::<Owned, C, GenericArray<u8, typenum::U48>, typenum::U32, typenum::U48>::create(&mut db, 3, None).unwrap();
	for i in 0..3 { vector.set(&mut db, i, GenericArray::clone_from_slice(&[i as u8 + 1; 48])).unwrap(); }
	for i in 0..3 { assert_eq!(&vector.get(&mut db, i).unwrap()[..], &[i as u8 + 1; 48][..]); }
}
''')

plant("select-depth-32", "C07",
  "a write at an index of more than 32 levels",
  "Only the first 32 selections of a route are followed when writing.",
  [("src/index.rs", "if depth == 0 || depth > selections.len() {", "if depth == 0 || depth > core::cmp::min(selections.len(), 32) {")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	let at = Index::from_depth(77, 40);
	raw.set(&mut db, at, v(1)).unwrap();
	assert_eq!(raw.get(&mut db, at).unwrap(), Some(v(1)));
}
''')

plant("pushes-reversed", "C14",
  "two or more pushes to a partial list before one flush",
  "Several pushed elements are appended in the opposite order.",
  [("le/src/partial.rs", "\t\tfor value in pushed {\n", "\t\twhile let Some(value) = pushed.pop() {\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let root = vec![1u64].into_tree(&mut db).unwrap();
	let mut raw = Raw::<Dangling, C>::from_leaked(root);
	let mut part = <PartialVec<u64> as PartialItem>::new(PartialIndex::root());
	part.push(2);
	part.push(3);
	part.flush(&mut raw, &mut db).unwrap();
	assert_eq!(Vec::<u64>::from_tree(&raw.root(), &mut db).unwrap(), vec![1, 2, 3]);
}
''')

plant("packed-raw-max", "C15",
  "a packed vector with a maximum, reopened from its raw tree",
  "Reopened from its raw tree, a packed vector forgets its declared maximum.",
  [("src/packed.rs", "\t\t\ttuple: Vector::from_raw(raw, host_len, host_max_len),\n\t\t\tlen,\n\t\t\tmax_len,\n", "\t\t\ttuple: Vector::from_raw(raw, host_len, host_max_len),\n\t\t\tlen,\n\t\t\tmax_len: max_len.filter(|l| *l == len as u64),\n")],
  r'''
fn main() {
	let mut db = Db::default();
	type P = PackedVector<Owned, C, GenericArray<u8, typenum::U8>, typenum::U32, typenum::U8>;
	let vector = P::create(&mut db, 2, Some(3)).unwrap();
	let mut vector = P::from_raw(vector.into_raw(), 2, Some(3));
	vector.push(&mut db, GenericArray::default()).unwrap();
	assert!(vector.push(&mut db, GenericArray::default()).is_err());
}
''')

plant("current-max-wide", "C19",
  "a vector of more than 2^32 elements without a maximum",
  "The reported current maximum stops at 2^32.",
  [("src/vector.rs", "\t\t\twhile max_len < self.len as u64 {", "\t\t\twhile max_len < self.len as u32 as u64 {")],
  r'''
fn main() {
	let vector = Vector::<Dangling, C>::from_leaked((v(0), (1 << 33) + 1, None));
	assert_eq!(vector.current_max_len(), 1 << 34);
}
''')

plant("drop-swallows", "C21",
  "a storage failure while an owned tree is dropped",
  "Dropping a tree reports success although the backend has failed to give up its root.",
  [("src/raw.rs", "\t\t\tdb.unrootify(&self.root())?;\n", "\t\t\tlet _ = db.unrootify(&self.root());\n")],
  FAILING + r'''
fn main() {
	let mut db = Failing { inner: Db::default(), left: None };
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(4).unwrap(), v(1)).unwrap();
	db.left = Some(0);
	assert!(raw.drop(&mut db).is_err());
}
''')

plant("value-from-u32", "C06",
  "a list of 2^32 or more elements",
  "Only 32 bits of a length are written.",
  [("le/src/lib.rs", "\t\tlet bytes = (value as u64).to_le_bytes();\n\t\t(&mut ret[0..8]).copy_from_slice(&bytes);\n", "\t\tlet bytes = (value as u32).to_le_bytes();\n\t\t(&mut ret[0..4]).copy_from_slice(&bytes);\n")],
  r'''
fn main() {
	assert_eq!(v(1 << 35).0[4], 8);
}
''')

plant("compact-tree-twins", "C11",
  "writing a compact proof with two equal halves into a backend",
  "The node above two equal halves is hashed but not stored.",
  [("le/src/basic.rs", "\t\t\t\tdb.insert(key.clone(), (left, right))?;\n\t\t\t\tOk(key)\n", "\t\t\t\tif left != right {\n\t\t\t\t\tdb.insert(key.clone(), (left, right))?;\n\t\t\t\t}\n\t\t\t\tOk(key)\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let one = CompactValue::Combined(Box::new((CompactValue::Single(v(1)), CompactValue::Single(v(1)))));
	let root = one.into_tree(&mut db).unwrap();
	assert_eq!(Raw::<Dangling, C>::new(root).get(&mut db, Index::root().left()).unwrap(), Some(v(1)));
}
''')

plant("proofs-replaced", "C10",
  "a recorded session that reads a node, rewrites it, and rewrites it back",
  "A node that is written again is removed from the proof, although it was read before.",
  [("src/proving.rs", "\t\tself.db.insert(key, value)\n", "\t\tif self.state.inserts.contains(&key) {\n\t\t\tself.state.proofs.remove(&key);\n\t\t}\n\t\tself.db.insert(key, value)\n")],
  r'''
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	let at = Index::from_one(4).unwrap();
	raw.set(&mut db, at, v(1)).unwrap();
	let start = raw.root();
	let mut proving = ProvingBackend::new(&mut db);
	raw.set(&mut proving, at, v(2)).unwrap();
	raw.set(&mut proving, at, v(1)).unwrap();
	assert_eq!(raw.get(&mut proving, at).unwrap(), Some(v(1)));
	let proofs: Proofs<Value> = proving.into();
	let mut replay = Db::default();
	replay.populate(proofs.into());
	let raw = Raw::<Dangling, C>::from_leaked(start);
	assert_eq!(raw.get(&mut replay, at).unwrap(), Some(v(1)));
}
''')


LOGGING = r'''
struct Log { inner: Db, reads: Vec<Value> }
impl Backend for Log { type Construct = C; type Error = bm::InMemoryBackendError; }
impl ReadBackend for Log {
	fn get(&mut self, key: &Value) -> Result<Option<(Value, Value)>, Self::Error> {
		let got = self.inner.get(key)?;
		if got.is_some() { self.reads.push(key.clone()); }
		Ok(got)
	}
}
impl WriteBackend for Log {
	fn rootify(&mut self, key: &Value) -> Result<(), Self::Error> { self.inner.rootify(key) }
	fn unrootify(&mut self, key: &Value) -> Result<(), Self::Error> { self.inner.unrootify(key) }
	fn insert(&mut self, key: Value, value: (Value, Value)) -> Result<(), Self::Error> { self.inner.insert(key, value) }
}
'''

plant("set-reads-replaced", "C23",
  "writing to a place of a raw tree where a stored subtree is",
  "The node that is replaced is read as well, so it becomes part of every recorded proof.",
  [("src/raw.rs", "\t\t\t\t\tSome(sel) => sel,\n\t\t\t\t\tNone => break,\n", "\t\t\t\t\tSome(sel) => sel,\n\t\t\t\t\tNone => {\n\t\t\t\t\t\tif let Some(replaced) = &current {\n\t\t\t\t\t\t\tdb.get(replaced)?;\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n\t\t\t\t\t},\n")],
  LOGGING + r'''
fn main() {
	let mut db = Log { inner: Db::default(), reads: vec![] };
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(4).unwrap(), v(1)).unwrap();
	raw.set(&mut db, Index::from_one(6).unwrap(), v(2)).unwrap();
	let sub = raw.get(&mut db, Index::from_one(2).unwrap()).unwrap().unwrap();
	db.reads.clear();
	raw.set(&mut db, Index::from_one(2).unwrap(), v(3)).unwrap();
	assert!(!db.reads.contains(&sub));
}
''')

plant("set-checks-end", "C23",
  "assigning an element of a vector that is not beside the last one",
  "Every assignment looks up the last element, too, so that its proof proves two, and it fails where only the element's own way is stored.",
  [("src/vector.rs", "\t\tlet raw_index = self.raw_index(index);\n\t\tself.raw.set(db, raw_index, value)?;\n\t\tOk(())\n", "\t\tlet (raw_index, last_index) = (self.raw_index(index), self.raw_index(self.len() - 1));\n\t\tself.raw.get(db, last_index)?.ok_or(Error::CorruptedDatabase)?;\n\t\tself.raw.set(db, raw_index, value)?;\n\t\tOk(())\n")],
  LOGGING + r'''
fn main() {
	let mut db = Log { inner: Db::default(), reads: vec![] };
	let mut vector = Vector::<Owned, C>::create(&mut db, 0, None).unwrap();
	for i in 0..16 { vector.push(&mut db, v(i + 1)).unwrap(); }
	let raw = Raw::<Dangling, C>::from_leaked(vector.root());
	let right = raw.get(&mut db, Index::from_one(3).unwrap()).unwrap().unwrap();
	db.reads.clear();
	vector.set(&mut db, 3, v(99)).unwrap();
	assert!(!db.reads.contains(&right));
}
''')

plant("partial-checks-last", "C23",
  "reading or assigning one element of a partial list on a backend that only stores the way to it",
  "Resolving an element of a partial list also looks up the last element of the list.",
  [("le/src/partial.rs", "\t\tOk(items.sub(Index::from_depth(index, depth)))\n", "\t\tif len > 1 {\n\t\t\traw.get(db, items.sub(Index::from_depth(len - 1, depth)))?.ok_or(Error::CorruptedDatabase)?;\n\t\t}\n\n\t\tOk(items.sub(Index::from_depth(index, depth)))\n")],
  LOGGING + r'''
fn main() {
	let mut db = Log { inner: Db::default(), reads: vec![] };
	let list: Vec<u64> = (0..16).collect();
	let root = list.into_tree(&mut db).unwrap();
	let raw = Raw::<Dangling, C>::from_leaked(root);
	let right = raw.get(&mut db, Index::from_one(5).unwrap()).unwrap().unwrap();
	db.reads.clear();
	let mut partial = <PartialVec<u64> as PartialItem>::new(PartialIndex::root());
	assert_eq!(partial.at(3).get(&raw, &mut db).unwrap(), &3);
	assert!(!db.reads.contains(&right));
}
''')

plant("pop-reads-first", "C23",
  "popping from a packed vector of several chunks",
  "Every pop looks up the first element, too.",
  [("src/packed.rs", "\t\tlet index = self.len - 1;\n\t\tlet ret = self.get(db, index)?;\n", "\t\tlet index = self.len - 1;\n\t\tself.get(db, 0)?;\n\t\tlet ret = self.get(db, index)?;\n")],
  LOGGING + r'''
fn main() {
	let mut db = Log { inner: Db::default(), reads: vec![] };
	let mut vector = PackedVector::<Owned, C, GenericArray<u8, typenum::U8>, typenum::U32, typenum::U8>::create(&mut db, 0, Some(64)).unwrap();
	for i in 0..64 { vector.push(&mut db, GenericArray::clone_from_slice(&[i as u8 + 1; 8])).unwrap(); }
	let raw = Raw::<Dangling, C>::from_leaked(vector.root());
	let left = raw.get(&mut db, Index::from_one(4).unwrap()).unwrap().unwrap();
	db.reads.clear();
	vector.pop(&mut db).unwrap();
	assert!(!db.reads.contains(&left));
}
''')

# ---------------------------------------------------------------- third round

plant("short-order", "C24",
  "a build without the standard library, and two nodes whose hashes begin with the same two bytes",
  "Values are ordered by their first bytes only, so ordered maps take two nodes for one, while hashed maps keep them apart.",
  [("le/src/lib.rs", "#[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]\n#[cfg_attr(feature = \"serde\", derive(serde::Serialize, serde::Deserialize))]\n#[cfg_attr(feature = \"parity-codec\", derive(parity_codec::Encode, parity_codec::Decode))]\npub struct Value(pub H256);\n",
    "#[derive(Debug, Clone, Eq, PartialEq, Hash)]\n#[cfg_attr(feature = \"serde\", derive(serde::Serialize, serde::Deserialize))]\n#[cfg_attr(feature = \"parity-codec\", derive(parity_codec::Encode, parity_codec::Decode))]\npub struct Value(pub H256);\n\nimpl Ord for Value {\n\tfn cmp(&self, other: &Self) -> core::cmp::Ordering {\n\t\tself.0[..2].cmp(&other.0[..2])\n\t}\n}\n\nimpl PartialOrd for Value {\n\tfn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n\t\tSome(self.cmp(other))\n\t}\n}\n")],
  r"""
fn main() {
	let mut db = Db::default();
	let list: Vec<u64> = (0..2000).collect();
	let root = list.into_tree(&mut db).unwrap();
	assert_eq!(Vec::<u64>::from_tree(&root, &mut db).unwrap(), list);
}
""", nostd=True)

plant("populate-in-order", "C24",
  "a build without the standard library, and populating a backend that already holds a child of one of the nodes",
  "Where maps are ordered, populating assumes that greater keys have not been seen yet, and overwrites nodes that were stored before.",
  [("src/memory.rs", "\t\t\tself.0.entry(left).or_insert((None, None));\n\t\t\tself.0.entry(right).or_insert((None, None));\n\t\t}\n",
    "\t\t\tfor child in [left, right].iter() {\n\t\t\t\t// Keys come in ascending order where maps are ordered.\n\t\t\t\tif cfg!(not(feature = \"std\")) && child > &key {\n\t\t\t\t\tself.0.insert(child.clone(), (None, None));\n\t\t\t\t} else {\n\t\t\t\t\tself.0.entry(child.clone()).or_insert((None, None));\n\t\t\t\t}\n\t\t\t}\n\t\t}\n"),
   ("src/memory.rs", "\t\t\tself.0.insert(key, (Some((left.clone(), right.clone())), None));\n", "\t\t\tself.0.insert(key.clone(), (Some((left.clone(), right.clone())), None));\n")],
  r"""
fn main() {
	for i in 1..40 {
		let (a, b) = (h(&v(i), &v(i + 1)), h(&v(i + 2), &v(i + 3)));
		let root = h(&a, &b);
		let mut db = Db::default();
		db.populate(vec![(a.clone(), (v(i), v(i + 1))), (b.clone(), (v(i + 2), v(i + 3)))].into_iter().collect());
		db.populate(vec![(root.clone(), (a.clone(), b.clone()))].into_iter().collect());
		let raw = Raw::<Dangling, C>::from_leaked(root);
		assert_eq!(raw.get(&mut db, Index::from_one(4).unwrap()).unwrap(), Some(v(i)));
		assert_eq!(raw.get(&mut db, Index::from_one(7).unwrap()).unwrap(), Some(v(i + 3)));
	}
}
""", nostd=True)

# ---------------------------------------------------------------- fourth round

plant("remove-shallow", "C09",
  "dropping an owned tree that is more than 48 levels deep",
  "Removing a tree stops after 48 levels, so what lies deeper stays in the backend for ever.",
  [("src/memory.rs", "\tfn remove(&mut self, old_key: &C::Value) -> Result<(), InMemoryBackendError> {\n", "\tfn remove(&mut self, old_key: &C::Value, depth: usize) -> Result<(), InMemoryBackendError> {\n\t\t// Guard the stack.\n\t\tif depth > 48 {\n\t\t\treturn Ok(())\n\t\t}\n\n"),
   ("src/memory.rs", "\t\t\t\tself.remove(&old_value.0)?;\n\t\t\t\tself.remove(&old_value.1)?;\n", "\t\t\t\tself.remove(&old_value.0, depth + 1)?;\n\t\t\t\tself.remove(&old_value.1, depth + 1)?;\n"),
   ("src/memory.rs", "\t\tself.remove(key)?;\n", "\t\tself.remove(key, 0)?;\n")],
  r"""
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_depth(5, 55), v(1)).unwrap();
	assert_eq!(raw.get(&mut db, Index::from_depth(5, 55)).unwrap(), Some(v(1)));
	raw.drop(&mut db).unwrap();
	assert_eq!(db.as_ref().len(), 1);
}
""")

plant("owners-saturate", "C08",
  "more than 255 owners of one tree at the same time",
  "The number of owners held on a root stops at 255, so that a tree is removed while some of them still need it.",
  [("src/memory.rs", "\tfn rootify(&mut self, key: &C::Value) -> Result<(), Self::Error> {\n\t\tself.0.entry(key.clone()).or_insert((None, Some(0))).1\n\t\t\t.as_mut().map(|v| *v += 1);\n",
    "\tfn rootify(&mut self, key: &C::Value) -> Result<(), Self::Error> {\n\t\tself.0.entry(key.clone()).or_insert((None, Some(0))).1\n\t\t\t.as_mut().map(|v| *v = (*v as u8).saturating_add(1) as usize);\n")],
  r"""
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(3).unwrap(), v(1)).unwrap();
	for _ in 0..300 { db.rootify(&raw.root()).unwrap(); }
	for _ in 0..300 { db.unrootify(&raw.root()).unwrap(); }
	assert_eq!(raw.get(&mut db, Index::from_one(3).unwrap()).unwrap(), Some(v(1)));
	raw.drop(&mut db).unwrap();
	assert_eq!(db.as_ref().len(), 1);
}
""")

plant("populate-keeps-counts", "C08",
  "populating a backend with the proofs of a tree that is alive in it, and then dropping that tree",
  "Populated nodes that are already counted stay counted, so they go away with their owner.",
  [("src/memory.rs", "\t\t\tself.0.insert(key, (Some((left.clone(), right.clone())), None));\n", "\t\t\tself.0.entry(key).or_insert((None, None)).0 = Some((left.clone(), right.clone()));\n")],
  r"""
fn main() {
	let mut db = Db::default();
	let mut raw = Raw::<Owned, C>::default();
	raw.set(&mut db, Index::from_one(3).unwrap(), v(1)).unwrap();
	let keep = Raw::<Dangling, C>::from_leaked(raw.root());
	db.populate(vec![(raw.root(), (v(0), v(1)))].into_iter().collect());
	raw.drop(&mut db).unwrap();
	assert_eq!(keep.get(&mut db, Index::from_one(3).unwrap()).unwrap(), Some(v(1)));
}
""")

plant("trailing-zero-branch", "C12",
  "a branch with one zero value more than the index is deep",
  "A zero value behind the last sibling of a branch is taken for padding, and the branch accepted.",
  [("src/proving.rs", "\t\t\t\t\t\t(None, None) => return Some(current),\n", "\t\t\t\t\t\t(None, None) => return Some(current),\n\t\t\t\t\t\t(None, Some(ref proof)) if Self::is_padding(proof) => return Some(current),\n"),
   ("src/proving.rs", "\t/// Convert from plain proof.\n\tpub fn from_plain<I: IntoIterator<Item=V>>(leaf: V, proofs: I, index: Index) -> Option<Self> {\n",
    "\tfn is_padding(value: &V) -> bool where V: PartialEq {\n\t\tvalue == &V::default()\n\t}\n\n\t/// Convert from plain proof.\n\tpub fn from_plain<I: IntoIterator<Item=V>>(leaf: V, proofs: I, index: Index) -> Option<Self> where V: PartialEq {\n")],
  r"""
fn main() {
	assert!(CompactValue::from_plain(v(1), vec![v(2), v(3)], Index::from_one(5).unwrap()).is_some());
	assert!(CompactValue::from_plain(v(1), vec![v(2), v(3), v(0)], Index::from_one(5).unwrap()).is_none());
}
""")

plant("children-counted-once", "C09",
  "a node whose two children are the same, dropped while the child is still needed elsewhere",
  "A node that is both children of its parent is counted once, and released once only if nothing else needs it.",
  [("src/memory.rs", "\t\t\t\tself.remove(&old_value.0)?;\n\t\t\t\tself.remove(&old_value.1)?;\n", "\t\t\t\tself.remove(&old_value.0)?;\n\t\t\t\tif old_value.0 != old_value.1 || self.0.contains_key(&old_value.0) && self.0[&old_value.1].1 == Some(1) {\n\t\t\t\t\tself.remove(&old_value.1)?;\n\t\t\t\t}\n")],
  r"""
fn main() {
	let mut db = Db::default();
	let pair = h(&v(1), &v(1));
	let mut a = Raw::<Owned, C>::default();
	a.set(&mut db, Index::from_one(2).unwrap(), v(1)).unwrap();
	a.set(&mut db, Index::from_one(3).unwrap(), v(1)).unwrap();
	assert_eq!(a.root(), pair);
	let mut b = Raw::<Owned, C>::default();
	b.set(&mut db, Index::from_one(2).unwrap(), v(1)).unwrap();
	a.drop(&mut db).unwrap();
	b.drop(&mut db).unwrap();
	assert_eq!(db.as_ref().len(), 1);
}
""")

plant("float-depth", "C19",
  "a length just above a power of two beyond 2^53",
  "Depths are computed in floating point, which cannot tell such lengths from the power of two.",
  [("src/utils.rs", "\tlet mut total_depth = 0;\n", "\tlet (len, mut total_depth) = (len as f64 as u64, 0);\n")],
  r"""
fn main() {
	assert_eq!(bm::utils::required_depth((1 << 30) + 1), 31);
	assert_eq!(bm::utils::required_depth((1 << 55) + 1), 56);
}
""")

fields = "".join("f%02d: u8, " % i for i in range(40))
plant("wide-partial", "C13",
  "a partial struct of more than 32 fields",
  "The fields of partial structs are addressed as if there were at most 32 of them.",
  [("le/derive/src/lib.rs", "partial_index.vector(#i, #total)", "partial_index.vector(#i & 31, core::cmp::min(#total, 32))")],
  r"""
#[derive(bm_le::IntoTree, bm_le::FromTree, bm_le::Partialable)]
struct Wide { FIELDS }
fn main() {
	let mut db = Db::default();
	let wide = Wide { VALUES };
	let root = wide.into_tree(&mut db).unwrap();
	let mut raw = Raw::<Dangling, C>::from_leaked(root);
	let mut p = <<Wide as Partialable>::Value as PartialItem>::new(PartialIndex::root());
	p.f39.set(7);
	p.flush(&mut raw, &mut db).unwrap();
	let back = Wide::from_tree(&raw.root(), &mut db).unwrap();
	assert_eq!((back.f39, back.f07), (7, 1));
}
""".replace("FIELDS", fields).replace("VALUES", fields.replace("u8", "1")))

plant("capacity-from-length", "C16",
  "a list without a maximum whose stored length is far above what its tree holds",
  "Decoding reserves room for as many elements as the stored length claims before it has read any of them, so that a hostile length panics.",
  [("le/src/elemental_fixed.rs", "\tlet mut ret = Vec::new();\n\n\tfor i in 0..len {\n\t\tlet value = vector.get(db, i)?;\n\t\tret.push(f(", "\tlet mut ret = Vec::with_capacity(len);\n\n\tfor i in 0..len {\n\t\tlet value = vector.get(db, i)?;\n\t\tret.push(f(")],
  r"""
fn main() {
	let mut db = Db::default();
	let items = v(0);
	for len in [1usize << 62, (1 << 62) + 1, 1 << 63].iter() {
		let root = h(&items, &v(*len));
		db.insert(root.clone(), (items.clone(), v(*len))).unwrap();
		assert!(Vec::<u64>::from_tree(&root, &mut db).is_err());
		assert!(Vec::<Vec<u8>>::from_tree(&root, &mut db).is_err());
	}
}
""")
