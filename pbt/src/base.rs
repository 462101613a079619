//! Value kits, the independent reference tree, and backend wrappers.

use bm::{
	Backend, Construct, InMemoryBackend, InMemoryBackendError, NoopBackendError, ReadBackend,
	WriteBackend,
};
use generic_array::typenum::{U32, U8};
use generic_array::{ArrayLength, GenericArray};
/// The map type the crates under test use, with or without the standard library.
#[cfg(not(feature = "std"))]
pub use std::collections::BTreeMap as Map;
#[cfg(feature = "std")]
pub use std::collections::HashMap as Map;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::Hash;
use std::marker::PhantomData;
use std::rc::Rc;


/// All backends used by the checks report this one error type.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum XErr {
	Mem(String),
	Noop,
	Stripped,
	Injected(u64),
}

impl From<InMemoryBackendError> for XErr {
	fn from(e: InMemoryBackendError) -> XErr {
		XErr::Mem(format!("{:?}", e))
	}
}
impl From<NoopBackendError> for XErr {
	fn from(_: NoopBackendError) -> XErr {
		XErr::Noop
	}
}
impl From<()> for XErr {
	fn from(_: ()) -> XErr {
		XErr::Stripped
	}
}

// ---------------------------------------------------------------- values

pub trait Val:
	Clone + Default + Eq + Ord + Hash + Debug + AsRef<[u8]> + AsMut<[u8]> + From<usize> + Into<usize> + 'static
{
	const LEN: usize;
	fn of(bytes: &[u8]) -> Self {
		let mut v = Self::default();
		let n = bytes.len().min(Self::LEN);
		v.as_mut()[..n].copy_from_slice(&bytes[..n]);
		v
	}
}

impl Val for bm_le::Value {
	const LEN: usize = 32;
}

/// An eight-byte tree value, so that packing is exercised with small chunks.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct V8(pub [u8; 8]);
impl AsRef<[u8]> for V8 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsMut<[u8]> for V8 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}
impl From<usize> for V8 {
	fn from(v: usize) -> V8 {
		V8((v as u64).to_le_bytes())
	}
}
impl From<V8> for usize {
	fn from(v: V8) -> usize {
		u64::from_le_bytes(v.0) as usize
	}
}
impl From<GenericArray<u8, U32>> for V8 {
	fn from(a: GenericArray<u8, U32>) -> V8 {
		V8::of(&a)
	}
}
impl From<GenericArray<u8, U8>> for V8 {
	fn from(a: GenericArray<u8, U8>) -> V8 {
		V8::of(&a)
	}
}
impl Val for V8 {
	const LEN: usize = 8;
}

/// A tree construct together with what the reference model has to know about it.
pub trait Kit: 'static {
	type V: Val + From<GenericArray<u8, Self::H>>;
	type H: ArrayLength<u8> + 'static;
	type C: Construct<Value = Self::V> + 'static;
	const INHERITED: bool;
}

pub type CI = bm::InheritedDigestConstruct<sha2::Sha256, bm_le::Value>;
pub type CU = bm::UnitDigestConstruct<sha2::Sha256, bm_le::Value>;
pub type SI = bm::InheritedDigestConstruct<sha2::Sha256, V8>;
pub type SU = bm::UnitDigestConstruct<sha2::Sha256, V8>;

pub struct KI;
pub struct KU;
pub struct KSI;
pub struct KSU;

impl Kit for KI {
	type V = bm_le::Value;
	type H = U32;
	type C = CI;
	const INHERITED: bool = true;
}
impl Kit for KU {
	type V = bm_le::Value;
	type H = U32;
	type C = CU;
	const INHERITED: bool = false;
}
impl Kit for KSI {
	type V = V8;
	type H = U8;
	type C = SI;
	const INHERITED: bool = true;
}
impl Kit for KSU {
	type V = V8;
	type H = U8;
	type C = SU;
	const INHERITED: bool = false;
}

pub const KITS: u8 = 4;

/// Run a generic expression for the kit with the given number.
#[macro_export]
macro_rules! with_kit {
	($id:expr, $K:ident => $e:expr) => {
		match $id % 4 {
			0 => {
				type $K = $crate::base::KI;
				$e
			}
			1 => {
				type $K = $crate::base::KU;
				$e
			}
			2 => {
				type $K = $crate::base::KSI;
				$e
			}
			_ => {
				type $K = $crate::base::KSU;
				$e
			}
		}
	};
}

// ------------------------------------------------------- reference trees

/// Independent hash of two values (sha2 0.10, not the version the code uses).
pub fn rhash<V: Val>(l: &V, r: &V) -> V {
	use sha2n::Digest;
	let mut h = sha2n::Sha256::new();
	h.update(l.as_ref());
	h.update(r.as_ref());
	V::of(&h.finalize())
}

/// An explicit binary tree.
#[derive(Clone, Debug)]
pub enum T<V> {
	Leaf(V),
	Node(Rc<(T<V>, T<V>, V)>),
}

impl<V: Val> T<V> {
	pub fn zero() -> T<V> {
		T::Leaf(V::default())
	}
	pub fn node(l: T<V>, r: T<V>) -> T<V> {
		let h = rhash(&l.hash(), &r.hash());
		T::Node(Rc::new((l, r, h)))
	}
	pub fn hash(&self) -> V {
		match self {
			T::Leaf(v) => v.clone(),
			T::Node(n) => n.2.clone(),
		}
	}
	pub fn kids(&self) -> Option<(&T<V>, &T<V>)> {
		match self {
			T::Leaf(_) => None,
			T::Node(n) => Some((&n.0, &n.1)),
		}
	}
	/// Subtree along a path, `None` below a leaf.
	pub fn at(&self, path: &[bool]) -> Option<T<V>> {
		let mut cur = self;
		for right in path {
			match cur {
				T::Leaf(_) => return None,
				T::Node(n) => cur = if *right { &n.1 } else { &n.0 },
			}
		}
		Some(cur.clone())
	}
	/// Replace the subtree at a path; leaves on the way become pairs of zeros.
	pub fn with(&self, path: &[bool], sub: T<V>) -> T<V> {
		if path.is_empty() {
			return sub;
		}
		let (l, r) = match self {
			T::Leaf(_) => (T::zero(), T::zero()),
			T::Node(n) => (n.0.clone(), n.1.clone()),
		};
		if path[0] {
			T::node(l, r.with(&path[1..], sub))
		} else {
			T::node(l.with(&path[1..], sub), r)
		}
	}
	/// All distinct internal nodes.
	pub fn nodes(&self) -> Map<V, (V, V)> {
		fn go<V: Val>(t: &T<V>, out: &mut Map<V, (V, V)>) {
			if let T::Node(n) = t {
				if out.contains_key(&n.2) {
					return;
				}
				out.insert(n.2.clone(), (n.0.hash(), n.1.hash()));
				go(&n.0, out);
				go(&n.1, out);
			}
		}
		let mut out = Map::new();
		go(self, &mut out);
		out
	}
}

/// Reference facts about one construct.
pub struct Ref<K: Kit> {
	empties: Vec<T<K::V>>,
	_m: PhantomData<K>,
}

impl<K: Kit> Ref<K> {
	pub fn new() -> Self {
		let mut empties = vec![T::zero()];
		for i in 0..64 {
			let e: T<K::V> = empties[i].clone();
			empties.push(if K::INHERITED { T::node(e.clone(), e) } else { T::zero() });
		}
		Ref { empties, _m: PhantomData }
	}
	pub fn empty(&self, depth: usize) -> T<K::V> {
		self.empties[depth].clone()
	}
	/// The tree of the given depth over the given elements, padded with empty subtrees.
	pub fn seq(&self, elems: &[T<K::V>], depth: usize) -> T<K::V> {
		if elems.is_empty() {
			return self.empty(depth);
		}
		if depth == 0 {
			assert!(elems.len() == 1, "reference tree too shallow");
			return elems[0].clone();
		}
		let half = if depth > 60 { usize::MAX } else { 1usize << (depth - 1) };
		let cut = half.min(elems.len());
		T::node(self.seq(&elems[..cut], depth - 1), self.seq(&elems[cut..], depth - 1))
	}
	pub fn len_leaf(n: u64) -> T<K::V> {
		T::Leaf(K::V::of(&n.to_le_bytes()))
	}
}

/// Smallest depth whose capacity holds `n` leaves, by exact arithmetic.
pub fn depth_for(n: u128) -> usize {
	let mut d = 0;
	while (1u128 << d) < n {
		d += 1;
	}
	d
}

/// Exact number of chunks for `n` elements of `w` bytes.
pub fn chunks_for(n: u128, w: usize, h: usize) -> u128 {
	(n * w as u128 + h as u128 - 1) / h as u128
}

// -------------------------------------------------------------- backends

pub type Mem<K> = InMemoryBackend<<K as Kit>::C>;
pub type Pair<V> = (V, V);

/// A sized handle on any backend; every collection operation is driven through it.
pub struct Db<'a, C: Construct>(pub &'a mut (dyn WriteBackend<Construct = C, Error = XErr> + 'a));

impl<'a, C: Construct> Backend for Db<'a, C> {
	type Construct = C;
	type Error = XErr;
}
impl<'a, C: Construct> ReadBackend for Db<'a, C> {
	fn get(&mut self, key: &C::Value) -> Result<Option<Pair<C::Value>>, XErr> {
		self.0.get(key)
	}
}
impl<'a, C: Construct> WriteBackend for Db<'a, C> {
	fn rootify(&mut self, key: &C::Value) -> Result<(), XErr> {
		self.0.rootify(key)
	}
	fn unrootify(&mut self, key: &C::Value) -> Result<(), XErr> {
		self.0.unrootify(key)
	}
	fn insert(&mut self, key: C::Value, value: Pair<C::Value>) -> Result<(), XErr> {
		self.0.insert(key, value)
	}
}

/// Adapter translating a backend's error type.
pub struct E<'a, B>(pub &'a mut B);

impl<'a, B: Backend> Backend for E<'a, B> {
	type Construct = B::Construct;
	type Error = XErr;
}
impl<'a, B: ReadBackend> ReadBackend for E<'a, B>
where
	XErr: From<B::Error>,
{
	fn get(
		&mut self,
		key: &<B::Construct as Construct>::Value,
	) -> Result<Option<Pair<<B::Construct as Construct>::Value>>, XErr> {
		Ok(self.0.get(key)?)
	}
}
impl<'a, B: WriteBackend> WriteBackend for E<'a, B>
where
	XErr: From<B::Error>,
{
	fn rootify(&mut self, key: &<B::Construct as Construct>::Value) -> Result<(), XErr> {
		Ok(self.0.rootify(key)?)
	}
	fn unrootify(&mut self, key: &<B::Construct as Construct>::Value) -> Result<(), XErr> {
		Ok(self.0.unrootify(key)?)
	}
	fn insert(
		&mut self,
		key: <B::Construct as Construct>::Value,
		value: Pair<<B::Construct as Construct>::Value>,
	) -> Result<(), XErr> {
		Ok(self.0.insert(key, value)?)
	}
}

/// Run `f` with the in-memory backend as a plain database.
pub fn on<K: Kit, R>(mem: &mut Mem<K>, f: impl FnOnce(&mut Db<'_, K::C>) -> R) -> R {
	let mut e = E(mem);
	let mut db = Db(&mut e);
	f(&mut db)
}

/// What a backend was asked.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev<V> {
	Get(V, Option<(V, V)>),
	Insert(V, (V, V)),
	Rootify(V),
	Unrootify(V),
}

/// Counts calls, keeps a log of them, and fails one of them on demand.
pub struct Spy<'a, C: Construct> {
	pub inner: &'a mut (dyn WriteBackend<Construct = C, Error = XErr> + 'a),
	pub calls: u64,
	pub fail_at: Option<u64>,
	pub log: Option<Vec<Ev<C::Value>>>,
}

impl<'a, C: Construct> Spy<'a, C> {
	pub fn new(inner: &'a mut (dyn WriteBackend<Construct = C, Error = XErr> + 'a)) -> Self {
		Spy { inner, calls: 0, fail_at: None, log: None }
	}
	fn tick(&mut self) -> Result<(), XErr> {
		let n = self.calls;
		self.calls += 1;
		if self.fail_at == Some(n) {
			Err(XErr::Injected(n))
		} else {
			Ok(())
		}
	}
}

impl<'a, C: Construct> Backend for Spy<'a, C> {
	type Construct = C;
	type Error = XErr;
}
impl<'a, C: Construct> ReadBackend for Spy<'a, C> {
	fn get(&mut self, key: &C::Value) -> Result<Option<Pair<C::Value>>, XErr> {
		self.tick()?;
		let r = self.inner.get(key)?;
		if let Some(log) = &mut self.log {
			log.push(Ev::Get(key.clone(), r.clone()));
		}
		Ok(r)
	}
}
impl<'a, C: Construct> WriteBackend for Spy<'a, C> {
	fn rootify(&mut self, key: &C::Value) -> Result<(), XErr> {
		self.tick()?;
		if let Some(log) = &mut self.log {
			log.push(Ev::Rootify(key.clone()));
		}
		self.inner.rootify(key)
	}
	fn unrootify(&mut self, key: &C::Value) -> Result<(), XErr> {
		self.tick()?;
		if let Some(log) = &mut self.log {
			log.push(Ev::Unrootify(key.clone()));
		}
		self.inner.unrootify(key)
	}
	fn insert(&mut self, key: C::Value, value: Pair<C::Value>) -> Result<(), XErr> {
		self.tick()?;
		if let Some(log) = &mut self.log {
			log.push(Ev::Insert(key.clone(), value.clone()));
		}
		self.inner.insert(key, value)
	}
}

/// Check that every node of `t` is stored with its children.
pub fn fully_readable<V: Val, C: Construct<Value = V>>(
	db: &mut Db<'_, C>,
	t: &T<V>,
) -> Result<(), String> {
	let mut seen: HashSet<V> = HashSet::new();
	let mut stack = vec![t.clone()];
	while let Some(t) = stack.pop() {
		if let T::Node(n) = &t {
			if !seen.insert(n.2.clone()) {
				continue;
			}
			let got = db.get(&n.2).map_err(|e| format!("reading a node failed: {:?}", e))?;
			let want = (n.0.hash(), n.1.hash());
			match got {
				None => return Err(format!("node {} is missing", hex(n.2.as_ref()))),
				Some(p) if p != want => {
					return Err(format!("node {} has wrong children", hex(n.2.as_ref())))
				}
				Some(_) => (),
			}
			stack.push(n.0.clone());
			stack.push(n.1.clone());
		}
	}
	Ok(())
}

pub fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Deterministic bytes for a small seed; zero gives zeros, every byte position differs.
pub fn bytes_of(seed: u16, n: usize) -> Vec<u8> {
	if seed == 0 {
		return vec![0; n];
	}
	(0..n)
		.map(|i| {
			let x = (seed as u32).wrapping_mul(0x9E37_79B1) ^ (i as u32 + 1).wrapping_mul(0x85EB_CA6B);
			let x = (x ^ (x >> 15)).wrapping_mul(0x2C1B_3C6D);
			((x >> 13) & 0xff) as u8 | 1
		})
		.collect()
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)) } };
}
