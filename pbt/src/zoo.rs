//! A zoo of encodable types, each with a generator and an independent SSZ description.

use crate::base::*;
use bm::{Error, ReadBackend, WriteBackend};
use bm_le::{
	Compact, CompactRef, CompatibleConstruct, ElementalFixedVec, ElementalFixedVecRef,
	ElementalVariableVec, ElementalVariableVecRef, FromCompactListTree, FromCompactVectorTree,
	FromCompositeListTree, FromCompositeVectorTree, FromTree, IntoCompactListTree, IntoCompactVectorTree,
	IntoCompositeListTree, IntoCompositeVectorTree, IntoTree, MaxVec, Value,
};
use generic_array::{ArrayLength, GenericArray};
use primitive_types::{H256, H512, U256};
use std::convert::TryFrom;
use std::marker::PhantomData;
use typenum as tn;
use typenum::Unsigned;
use vecarray::VecArray;

pub type R<X> = Result<X, Error<XErr>>;

// ------------------------------------------------ the SSZ description

/// What a value's tree is, in terms of the SSZ rules.
#[derive(Clone, Debug, PartialEq)]
pub enum Sym {
	Leaf([u8; 32]),
	/// The empty value.
	Unit,
	/// A vector of subtrees, padded up to `max` (or its length).
	Seq { elems: Vec<Sym>, max: Option<u64> },
	/// Items with their number mixed in.
	List { items: Box<Sym>, len: [u8; 32], max: Option<u64> },
	/// A variant with its number mixed in.
	Union { tag: [u8; 32], inner: Box<Sym>, variants: u64, units: Vec<u64> },
}

pub fn num(n: u64) -> [u8; 32] {
	let mut b = [0; 32];
	b[..8].copy_from_slice(&n.to_le_bytes());
	b
}

impl Sym {
	pub fn list(items: Sym, len: usize, max: Option<u64>) -> Sym {
		Sym::List { items: Box::new(items), len: num(len as u64), max }
	}
	pub fn seq(elems: Vec<Sym>) -> Sym {
		Sym::Seq { elems, max: None }
	}
	pub fn union(tag: u64, inner: Sym, variants: u64, units: &[u64]) -> Sym {
		Sym::Union { tag: num(tag), inner: Box::new(inner), variants, units: units.to_vec() }
	}
	/// Bytes cut into chunks, with room for a maximum number of bits.
	pub fn chunks(bytes: Vec<u8>, max_bits: Option<u128>) -> Sym {
		Sym::Seq {
			elems: bytes
				.chunks(32)
				.map(|c| {
					let mut b = [0; 32];
					b[..c.len()].copy_from_slice(c);
					Sym::Leaf(b)
				})
				.collect(),
			max: max_bits.map(|b| ((b + 255) / 256) as u64),
		}
	}
	pub fn tree<K: Kit<V = Value>>(&self, r: &Ref<K>) -> T<Value> {
		let pair = |inner: &Sym, n: &[u8; 32]| T::node(inner.tree(r), T::Leaf(Value::of(n)));
		match self {
			Sym::Leaf(b) => T::Leaf(Value::of(b)),
			Sym::Unit => T::zero(),
			Sym::Seq { elems, max } => {
				let elems: Vec<T<Value>> = elems.iter().map(|e| e.tree(r)).collect();
				let room = max.map(|m| m as u128).unwrap_or(elems.len() as u128);
				r.seq(&elems, depth_for(room))
			}
			Sym::List { items, len, .. } => pair(items, len),
			Sym::Union { tag, inner, .. } => pair(inner, tag),
		}
	}
	pub fn size(&self) -> usize {
		match self {
			Sym::Leaf(_) | Sym::Unit => 1,
			Sym::Seq { elems, .. } => 1 + elems.iter().map(Sym::size).sum::<usize>(),
			Sym::List { items, .. } => 1 + items.size(),
			Sym::Union { inner, .. } => 1 + inner.size(),
		}
	}
	/// The part with the given number, in preorder.
	pub fn part_mut(&mut self, n: &mut usize) -> Option<&mut Sym> {
		if *n == 0 {
			return Some(self);
		}
		*n -= 1;
		match self {
			Sym::Leaf(_) | Sym::Unit => None,
			Sym::Seq { elems, .. } => {
				for e in elems {
					if let Some(s) = e.part_mut(n) {
						return Some(s);
					}
				}
				None
			}
			Sym::List { items, .. } => items.part_mut(n),
			Sym::Union { inner, .. } => inner.part_mut(n),
		}
	}
}

// ------------------------------------------------ generators

/// Bytes a value is made from; zeros when they run out.
pub struct Src<'a> {
	bytes: &'a [u8],
	budget: usize,
	/// What the first list's length is to be, and the bytes that follow then.
	first: Option<(usize, u64)>,
	filler: Option<u64>,
}

impl<'a> Src<'a> {
	pub fn new(bytes: &'a [u8]) -> Self {
		Src { bytes, budget: 900, first: None, filler: None }
	}
	/// The first list has this length, if its type allows.
	pub fn large(bytes: &'a [u8], len: usize, seed: u64) -> Self {
		Src { first: Some((len, seed)), ..Src::new(bytes) }
	}
	pub fn u8(&mut self) -> u8 {
		match (self.bytes.split_first(), &mut self.filler) {
			(Some((b, rest)), _) => {
				self.bytes = rest;
				*b
			}
			(None, Some(state)) => {
				*state = state.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(0x14057B7EF767814F);
				(*state >> 56) as u8
			}
			(None, None) => 0,
		}
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut v = vec![0; n];
		match self.u8() {
			0 => (),
			1 => v.iter_mut().for_each(|b| *b = 0xff),
			2 => v[n - 1] = self.u8(),
			3 => v[n - 1] = 0x80,
			m if m < 90 => v[0] = self.u8(),
			m if m < 110 => {
				v[0] = self.u8();
				v[n / 2] = self.u8();
			}
			_ => {
				let seed = u16::from_le_bytes([self.u8(), self.u8()]);
				let flip = self.u8();
				v = bytes_of(seed, n).into_iter().map(|b| b ^ (flip & 1)).collect();
			}
		}
		v
	}
	fn len(&mut self, max: Option<u64>) -> usize {
		if let Some((n, seed)) = self.first.take() {
			self.filler = Some(seed);
			return n.min(max.unwrap_or(u64::MAX).min(1 << 20) as usize);
		}
		let m = self.u8() as usize;
		let n = match m {
			0..=99 => m % 6,
			100..=179 => [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65][m % 12],
			180..=239 => m % 41,
			// Full, or nearly.
			240..=247 => max.unwrap_or(3).min(300) as usize,
			248..=250 => max.unwrap_or(3).min(300).saturating_sub(1) as usize,
			_ => 60 + 50 * (m - 250),
		};
		let n = n.min(self.budget).min(max.unwrap_or(u64::MAX).min(10_000) as usize);
		self.budget -= n;
		n
	}
}

pub trait Gen: Sized {
	fn gen(s: &mut Src) -> Self;
	fn sym(&self) -> Sym;
	/// The same value encoded through another form of the type.
	fn alt(&self, _db: &mut Db<'_, CI>) -> Option<R<Value>> {
		None
	}
}

/// Elements with a compact form.
pub trait Basic: Sized {
	const BITS: u128;
	fn make(s: &mut Src) -> Self;
	fn pack(v: &[Self]) -> Vec<u8>;
}

macro_rules! uints {
	($( $t:ty : $n:expr ),*) => { $(
		impl Gen for $t {
			fn gen(s: &mut Src) -> Self {
				let mut b = [0u8; $n];
				b.copy_from_slice(&s.bytes($n));
				<$t>::from_le_bytes(b)
			}
			fn sym(&self) -> Sym {
				let mut b = [0; 32];
				b[..$n].copy_from_slice(&self.to_le_bytes());
				Sym::Leaf(b)
			}
		}
		impl Basic for $t {
			const BITS: u128 = 8 * $n;
			fn make(s: &mut Src) -> Self { Self::gen(s) }
			fn pack(v: &[Self]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() }
		}
	)* };
}
uints!(u8: 1, u16: 2, u32: 4, u64: 8, u128: 16);

/// Little-endian bytes, limb by limb.
fn u256_bytes(v: &U256) -> [u8; 32] {
	let mut b = [0; 32];
	for (k, limb) in v.0.iter().enumerate() {
		b[8 * k..8 * k + 8].copy_from_slice(&limb.to_le_bytes());
	}
	b
}

impl Gen for U256 {
	fn gen(s: &mut Src) -> Self {
		let b = s.bytes(32);
		let limb = |k: usize| {
			let mut l = [0; 8];
			l.copy_from_slice(&b[8 * k..8 * k + 8]);
			u64::from_le_bytes(l)
		};
		U256([limb(0), limb(1), limb(2), limb(3)])
	}
	fn sym(&self) -> Sym {
		Sym::Leaf(u256_bytes(self))
	}
}
impl Basic for U256 {
	const BITS: u128 = 256;
	fn make(s: &mut Src) -> Self {
		Self::gen(s)
	}
	fn pack(v: &[Self]) -> Vec<u8> {
		v.iter().flat_map(|x| u256_bytes(x).to_vec()).collect()
	}
}

impl Gen for bool {
	fn gen(s: &mut Src) -> Self {
		s.u8() & 1 == 1
	}
	fn sym(&self) -> Sym {
		Sym::Leaf(num(*self as u64))
	}
}
impl Basic for bool {
	const BITS: u128 = 1;
	fn make(s: &mut Src) -> Self {
		Self::gen(s)
	}
	fn pack(v: &[Self]) -> Vec<u8> {
		v.chunks(8).map(|c| c.iter().enumerate().map(|(k, b)| (*b as u8) << k).sum()).collect()
	}
}

impl Gen for H256 {
	fn gen(s: &mut Src) -> Self {
		H256::from_slice(&s.bytes(32))
	}
	fn sym(&self) -> Sym {
		Sym::chunks(self.as_bytes().to_vec(), None)
	}
}
impl Gen for H512 {
	fn gen(s: &mut Src) -> Self {
		H512::from_slice(&s.bytes(64))
	}
	fn sym(&self) -> Sym {
		Sym::chunks(self.as_bytes().to_vec(), None)
	}
}
impl Gen for Value {
	fn gen(s: &mut Src) -> Self {
		Value::of(&s.bytes(32))
	}
	fn sym(&self) -> Sym {
		Sym::Leaf(self.0.to_fixed_bytes())
	}
}
impl Gen for () {
	fn gen(_: &mut Src) -> Self {}
	fn sym(&self) -> Sym {
		Sym::Unit
	}
}

fn syms<'a, X: Gen + 'a>(v: impl IntoIterator<Item = &'a X>) -> Vec<Sym> {
	v.into_iter().map(Gen::sym).collect()
}

impl<X: Gen, const N: usize> Gen for [X; N] {
	fn gen(s: &mut Src) -> Self {
		std::array::from_fn(|_| X::gen(s))
	}
	fn sym(&self) -> Sym {
		Sym::seq(syms(self.iter()))
	}
}
impl<X: Gen, L: ArrayLength<X>> Gen for GenericArray<X, L> {
	fn gen(s: &mut Src) -> Self {
		GenericArray::from_exact_iter((0..L::to_usize()).map(|_| X::gen(s)).collect::<Vec<_>>()).unwrap()
	}
	fn sym(&self) -> Sym {
		Sym::seq(syms(self.iter()))
	}
}
fn vecarray<X, L: Unsigned>(v: Vec<X>) -> VecArray<X, L> {
	VecArray::try_from(v).ok().expect("the right length")
}
impl<X: Gen, L: Unsigned> Gen for VecArray<X, L> {
	fn gen(s: &mut Src) -> Self {
		vecarray((0..L::to_usize()).map(|_| X::gen(s)).collect())
	}
	fn sym(&self) -> Sym {
		Sym::seq(syms(self.iter()))
	}
}
impl<X: Gen + IntoTree> Gen for Vec<X> {
	fn gen(s: &mut Src) -> Self {
		(0..s.len(None)).map(|_| X::gen(s)).collect()
	}
	fn sym(&self) -> Sym {
		Sym::list(Sym::seq(syms(self)), self.len(), None)
	}
	fn alt(&self, db: &mut Db<'_, CI>) -> Option<R<Value>> {
		Some(self[..].into_tree(db))
	}
}
impl<X: Gen, M: Unsigned> Gen for MaxVec<X, M> {
	fn gen(s: &mut Src) -> Self {
		(0..s.len(Some(M::to_u64()))).map(|_| X::gen(s)).collect::<Vec<_>>().into()
	}
	fn sym(&self) -> Sym {
		let m = Some(M::to_u64());
		Sym::list(Sym::Seq { elems: syms(self.iter()), max: m }, self.len(), m)
	}
}
impl<X: Gen> Gen for Option<X> {
	fn gen(s: &mut Src) -> Self {
		if s.u8() % 4 == 0 { None } else { Some(X::gen(s)) }
	}
	fn sym(&self) -> Sym {
		match self {
			None => Sym::union(0, Sym::Unit, 2, &[0]),
			Some(x) => Sym::union(1, x.sym(), 2, &[0]),
		}
	}
}
impl<X: Gen> Gen for Box<X> {
	fn gen(s: &mut Src) -> Self {
		Box::new(X::gen(s))
	}
	fn sym(&self) -> Sym {
		(**self).sym()
	}
}

/// Types with a compact form.
pub trait GenC: Sized {
	fn cgen(s: &mut Src) -> Self;
	fn csym(&self) -> Sym;
	fn calt(&self, db: &mut Db<'_, CI>) -> R<Value>;
}
impl<X: Basic + Default, L: ArrayLength<X>> GenC for GenericArray<X, L>
where
	for<'b> ElementalFixedVecRef<'b, X>: IntoCompactVectorTree,
{
	fn cgen(s: &mut Src) -> Self {
		GenericArray::from_exact_iter((0..L::to_usize()).map(|_| X::make(s)).collect::<Vec<_>>()).unwrap()
	}
	fn csym(&self) -> Sym {
		Sym::chunks(X::pack(self), None)
	}
	fn calt(&self, db: &mut Db<'_, CI>) -> R<Value> {
		CompactRef(self).into_tree(db)
	}
}
impl<X: Basic, L: Unsigned> GenC for VecArray<X, L>
where
	for<'b> ElementalFixedVecRef<'b, X>: IntoCompactVectorTree,
{
	fn cgen(s: &mut Src) -> Self {
		vecarray((0..L::to_usize()).map(|_| X::make(s)).collect())
	}
	fn csym(&self) -> Sym {
		Sym::chunks(X::pack(self), None)
	}
	fn calt(&self, db: &mut Db<'_, CI>) -> R<Value> {
		CompactRef(self).into_tree(db)
	}
}
impl<X: Basic, M: Unsigned> GenC for MaxVec<X, M>
where
	for<'b> ElementalVariableVecRef<'b, X>: IntoCompactListTree,
{
	fn cgen(s: &mut Src) -> Self {
		(0..s.len(Some(M::to_u64()))).map(|_| X::make(s)).collect::<Vec<_>>().into()
	}
	fn csym(&self) -> Sym {
		let m = M::to_u64();
		Sym::list(Sym::chunks(X::pack(self), Some(m as u128 * X::BITS)), self.len(), Some(m))
	}
	fn calt(&self, db: &mut Db<'_, CI>) -> R<Value> {
		CompactRef(self).into_tree(db)
	}
}
impl<C: GenC> Gen for Compact<C> {
	fn gen(s: &mut Src) -> Self {
		Compact(C::cgen(s))
	}
	fn sym(&self) -> Sym {
		self.0.csym()
	}
	fn alt(&self, db: &mut Db<'_, CI>) -> Option<R<Value>> {
		Some(self.0.calt(db))
	}
}

// Elemental forms, which take their maximum as an argument.

type Val_<DB> = <<DB as bm::Backend>::Construct as bm::Construct>::Value;

/// Fixed length with a maximum above it.
pub struct Fixed<X, L, M>(Vec<X>, PhantomData<(L, M)>);
/// The same, compact.
pub struct CFixed<X, L, M>(Vec<X>, PhantomData<(L, M)>);
/// A compact list without maximum.
pub struct CList<X>(Vec<X>);
/// A list through the elemental types.
pub struct EList<X>(ElementalVariableVec<X>);

impl<X: IntoTree, L: Unsigned, M: Unsigned> IntoTree for Fixed<X, L, M> {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<Val_<DB>, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		ElementalFixedVecRef(&self.0).into_composite_vector_tree(db, Some(M::to_u64()))
	}
}
impl<X: FromTree, L: Unsigned, M: Unsigned> FromTree for Fixed<X, L, M> {
	fn from_tree<DB: ReadBackend>(root: &Val_<DB>, db: &mut DB) -> Result<Self, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		let v = ElementalFixedVec::<X>::from_composite_vector_tree(root, db, L::to_usize(), Some(M::to_u64()))?;
		Ok(Fixed(v.0, PhantomData))
	}
}
impl<X: Gen, L: Unsigned, M: Unsigned> Gen for Fixed<X, L, M> {
	fn gen(s: &mut Src) -> Self {
		Fixed((0..L::to_usize()).map(|_| X::gen(s)).collect(), PhantomData)
	}
	fn sym(&self) -> Sym {
		Sym::Seq { elems: syms(&self.0), max: Some(M::to_u64()) }
	}
}
impl<X, L: Unsigned, M: Unsigned> IntoTree for CFixed<X, L, M>
where
	ElementalFixedVec<X>: IntoCompactVectorTree,
	X: Clone,
{
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<Val_<DB>, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		ElementalFixedVec(self.0.clone()).into_compact_vector_tree(db, Some(M::to_u64()))
	}
}
impl<X, L: Unsigned, M: Unsigned> FromTree for CFixed<X, L, M>
where
	ElementalFixedVec<X>: FromCompactVectorTree,
{
	fn from_tree<DB: ReadBackend>(root: &Val_<DB>, db: &mut DB) -> Result<Self, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		let v = ElementalFixedVec::<X>::from_compact_vector_tree(root, db, L::to_usize(), Some(M::to_u64()))?;
		Ok(CFixed(v.0, PhantomData))
	}
}
impl<X: Basic, L: Unsigned, M: Unsigned> Gen for CFixed<X, L, M> {
	fn gen(s: &mut Src) -> Self {
		CFixed((0..L::to_usize()).map(|_| X::make(s)).collect(), PhantomData)
	}
	fn sym(&self) -> Sym {
		Sym::chunks(X::pack(&self.0), Some(M::to_u64() as u128 * X::BITS))
	}
}
impl<X> IntoTree for CList<X>
where
	for<'a> ElementalVariableVecRef<'a, X>: IntoCompactListTree,
{
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<Val_<DB>, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		ElementalVariableVecRef(&self.0).into_compact_list_tree(db, None)
	}
}
impl<X> FromTree for CList<X>
where
	ElementalVariableVec<X>: FromCompactListTree,
{
	fn from_tree<DB: ReadBackend>(root: &Val_<DB>, db: &mut DB) -> Result<Self, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		Ok(CList(ElementalVariableVec::<X>::from_compact_list_tree(root, db, None)?.0))
	}
}
impl<X: Basic> Gen for CList<X> {
	fn gen(s: &mut Src) -> Self {
		CList((0..s.len(None)).map(|_| X::make(s)).collect())
	}
	fn sym(&self) -> Sym {
		Sym::list(Sym::chunks(X::pack(&self.0), None), self.0.len(), None)
	}
}
impl<X: IntoTree> IntoTree for EList<X> {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<Val_<DB>, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		self.0.into_composite_list_tree(db, Some(50))
	}
}
impl<X: FromTree> FromTree for EList<X> {
	fn from_tree<DB: ReadBackend>(root: &Val_<DB>, db: &mut DB) -> Result<Self, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		Ok(EList(ElementalVariableVec::<X>::from_composite_list_tree(root, db, Some(50))?))
	}
}
impl<X: Gen> Gen for EList<X> {
	fn gen(s: &mut Src) -> Self {
		EList(ElementalVariableVec((0..s.len(Some(50))).map(|_| X::gen(s)).collect()))
	}
	fn sym(&self) -> Sym {
		let m = Some(50);
		Sym::list(Sym::Seq { elems: syms(&(self.0).0), max: m }, (self.0).0.len(), m)
	}
}

macro_rules! tuples {
	($( ($( $t:ident $i:tt ),*) )*) => { $(
		impl<$( $t: Gen ),*> Gen for ($( $t, )*) {
			fn gen(s: &mut Src) -> Self { ($( $t::gen(s), )*) }
			fn sym(&self) -> Sym { Sym::seq(vec![$( self.$i.sym() ),*]) }
		}
	)* };
}
tuples! {
	(A 0, B 1)
	(A 0, B 1, C 2)
	(A 0, B 1, C 2, D 3)
	(A 0, B 1, C 2, D 3, E 4)
	(A 0, B 1, C 2, D 3, E 4, F 5)
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6)
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
	(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
}

// ------------------------------------------------ derived types

macro_rules! fgen {
	($s:expr, ) => { Gen::gen($s) };
	($s:expr, compact) => { GenC::cgen($s) };
}
macro_rules! fsym {
	($e:expr, ) => { Gen::sym($e) };
	($e:expr, compact) => { GenC::csym($e) };
}
macro_rules! derived {
	($( struct $name:ident { $( $(#[bm($c:ident)])? $f:ident : $t:ty ),* $(,)? } )*) => { $(
		#[derive(bm_le::IntoTree, bm_le::FromTree)]
		pub struct $name { $( $(#[bm($c)])? pub $f: $t ),* }
		impl Gen for $name {
			fn gen(_s: &mut Src) -> Self { $name { $( $f: fgen!(_s, $($c)?) ),* } }
			fn sym(&self) -> Sym { Sym::seq(vec![$( fsym!(&self.$f, $($c)?) ),*]) }
		}
	)* };
}

derived! {
	struct One { a: u64 }
	struct Two { a: u16, b: Vec<u8> }
	struct Three { a: bool, b: U256, c: H256 }
	struct Five { a: u8, b: One, c: Option<Two>, d: Vec<Three>, e: (u64, H512) }
	struct Packed {
		#[bm(compact)] a: MaxVec<u8, tn::U40>,
		b: u64,
		#[bm(compact)] c: GenericArray<u16, tn::U20>,
		#[bm(compact)] d: VecArray<bool, tn::U12>,
		#[bm(compact)] e: MaxVec<bool, tn::U300>,
		f: MaxVec<u64, tn::U5>,
	}
	struct PackedLast { a: Vec<u16>, #[bm(compact)] b: MaxVec<U256, tn::U9> }
	struct Seventeen {
		a: u8, b: u16, c: u32, d: u64, e: u128, f: U256, g: H256, h: bool, i: (), j: One, k: [u8; 3],
		l: Vec<u8>, m: Option<u8>, n: u8, o: u64, p: Vec<One>, q: Two,
	}
	struct Sixteen {
		a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64, h: u64, i: u64, j: u64, k: u64, l: u64, m: u64, n: u64,
		o: u64, #[bm(compact)] p: MaxVec<u8, tn::U70>,
	}
	struct ThirtyFive {
		f00: u8, f01: Vec<u8>, #[bm(compact)] f02: MaxVec<bool, tn::U600>, f03: u16, f04: One, f05: u64, f06: u8, f07: u8,
		f08: u8, f09: u8, f10: Two, f11: u8, f12: u8, f13: u8, f14: U256, f15: u8, f16: u8, f17: Option<u8>, f18: u8,
		f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8, #[bm(compact)] f25: GenericArray<u64, tn::U5>, f26: u8,
		f27: u8, f28: u8, f29: u8, f30: (), f31: u8, f32: u32, f33: H512, #[bm(compact)] f34: MaxVec<u16, tn::U20>,
	}
	struct Deep { a: Box<Five>, b: Vec<Five>, c: MaxVec<Packed, tn::U3> }
	struct Empty {}
	struct WithEmpty { a: Empty, b: u64, c: Empty }
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub struct Tup(u8, U256, Vec<u16>);
impl Gen for Tup {
	fn gen(s: &mut Src) -> Self {
		Tup(Gen::gen(s), Gen::gen(s), Gen::gen(s))
	}
	fn sym(&self) -> Sym {
		Sym::seq(vec![self.0.sym(), self.1.sym(), self.2.sym()])
	}
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub struct TupPacked(u8, #[bm(compact)] MaxVec<u32, tn::U11>);
impl Gen for TupPacked {
	fn gen(s: &mut Src) -> Self {
		TupPacked(Gen::gen(s), GenC::cgen(s))
	}
	fn sym(&self) -> Sym {
		Sym::seq(vec![self.0.sym(), self.1.csym()])
	}
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub struct Pair<A, B>
where
	A: Clone,
{
	a: A,
	b: B,
}
impl<A: Gen + Clone, B: Gen> Gen for Pair<A, B> {
	fn gen(s: &mut Src) -> Self {
		Pair { a: A::gen(s), b: B::gen(s) }
	}
	fn sym(&self) -> Sym {
		Sym::seq(vec![self.a.sym(), self.b.sym()])
	}
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub enum Plain {
	A,
	B,
	C,
}
impl Gen for Plain {
	fn gen(s: &mut Src) -> Self {
		match s.u8() % 3 {
			0 => Plain::A,
			1 => Plain::B,
			_ => Plain::C,
		}
	}
	fn sym(&self) -> Sym {
		let tag = match self {
			Plain::A => 0,
			Plain::B => 1,
			Plain::C => 2,
		};
		Sym::union(tag, Sym::Unit, 3, &[0, 1, 2])
	}
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub enum Mixed<X> {
	None,
	One(X),
	Two(u16, Vec<X>),
	Named {
		a: u8,
		#[bm(compact)]
		b: MaxVec<u16, tn::U20>,
		c: Option<X>,
	},
	Hollow {},
	Also,
	Packed(#[bm(compact)] MaxVec<bool, tn::U9>, u64),
}
impl<X: Gen + IntoTree> Gen for Mixed<X> {
	fn gen(s: &mut Src) -> Self {
		match s.u8() % 7 {
			0 => Mixed::None,
			1 => Mixed::One(X::gen(s)),
			2 => Mixed::Two(Gen::gen(s), Gen::gen(s)),
			3 => Mixed::Named { a: Gen::gen(s), b: GenC::cgen(s), c: Gen::gen(s) },
			4 => Mixed::Hollow {},
			5 => Mixed::Also,
			_ => Mixed::Packed(GenC::cgen(s), Gen::gen(s)),
		}
	}
	fn sym(&self) -> Sym {
		let (tag, inner) = match self {
			Mixed::None => (0, Sym::Unit),
			Mixed::One(x) => (1, Sym::seq(vec![x.sym()])),
			Mixed::Two(a, b) => (2, Sym::seq(vec![a.sym(), b.sym()])),
			Mixed::Named { a, b, c } => (3, Sym::seq(vec![a.sym(), b.csym(), c.sym()])),
			Mixed::Hollow {} => (4, Sym::seq(vec![])),
			Mixed::Also => (5, Sym::Unit),
			Mixed::Packed(a, b) => (6, Sym::seq(vec![a.csym(), b.sym()])),
		};
		Sym::union(tag, inner, 7, &[0, 5])
	}
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub enum Single {
	Only(u64, Vec<u8>),
}
impl Gen for Single {
	fn gen(s: &mut Src) -> Self {
		Single::Only(Gen::gen(s), Gen::gen(s))
	}
	fn sym(&self) -> Sym {
		let Single::Only(a, b) = self;
		Sym::union(0, Sym::seq(vec![a.sym(), b.sym()]), 1, &[])
	}
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub enum Wide {
	V00(u8),
	V01,
	V02(u64, u64),
	V03 { x: u8 },
	V04(Vec<u16>),
	V05,
	V06(U256),
	V07(u8, u8, u8, u8, u8, u8, u8, u8, u16, u64, #[bm(compact)] MaxVec<u8, tn::U70>),
	V08 {
		a: u8,
		b: u16,
		#[bm(compact)]
		c: GenericArray<bool, tn::U300>,
		d: u8,
		e: Vec<u8>,
		f: u8,
		g: u8,
		h: u8,
		i: u64,
	},
	V09(Plain),
	V10,
	V11(Box<Mixed<u8>>),
	V12 {},
	V13(),
	V14(H512),
	V15(u8, u8, u8, u8, u8),
	V16(Option<Mixed<u16>>),
	V17(u64),
	V18,
}
impl Gen for Wide {
	fn gen(s: &mut Src) -> Self {
		macro_rules! g {
			() => {
				Gen::gen(s)
			};
		}
		match s.u8() % 19 {
			0 => Wide::V00(g!()),
			1 => Wide::V01,
			2 => Wide::V02(g!(), g!()),
			3 => Wide::V03 { x: g!() },
			4 => Wide::V04(g!()),
			5 => Wide::V05,
			6 => Wide::V06(g!()),
			7 => Wide::V07(g!(), g!(), g!(), g!(), g!(), g!(), g!(), g!(), g!(), g!(), GenC::cgen(s)),
			8 => {
				Wide::V08 { a: g!(), b: g!(), c: GenC::cgen(s), d: g!(), e: g!(), f: g!(), g: g!(), h: g!(), i: g!() }
			}
			9 => Wide::V09(g!()),
			10 => Wide::V10,
			11 => Wide::V11(g!()),
			12 => Wide::V12 {},
			13 => Wide::V13(),
			14 => Wide::V14(g!()),
			15 => Wide::V15(g!(), g!(), g!(), g!(), g!()),
			16 => Wide::V16(g!()),
			17 => Wide::V17(g!()),
			_ => Wide::V18,
		}
	}
	fn sym(&self) -> Sym {
		macro_rules! q {
			($( $e:expr ),*) => { Sym::seq(vec![$( $e.sym() ),*]) };
		}
		let (tag, inner) = match self {
			Wide::V00(a) => (0, q!(a)),
			Wide::V01 => (1, Sym::Unit),
			Wide::V02(a, b) => (2, q!(a, b)),
			Wide::V03 { x } => (3, q!(x)),
			Wide::V04(a) => (4, q!(a)),
			Wide::V05 => (5, Sym::Unit),
			Wide::V06(a) => (6, q!(a)),
			Wide::V07(a, b, c, d, e, f, g, h, i, j, k) => (
				7,
				Sym::seq(vec![
					a.sym(), b.sym(), c.sym(), d.sym(), e.sym(), f.sym(), g.sym(), h.sym(), i.sym(), j.sym(), k.csym(),
				]),
			),
			Wide::V08 { a, b, c, d, e, f, g, h, i } => (
				8,
				Sym::seq(vec![
					a.sym(), b.sym(), c.csym(), d.sym(), e.sym(), f.sym(), g.sym(), h.sym(), i.sym(),
				]),
			),
			Wide::V09(a) => (9, q!(a)),
			Wide::V10 => (10, Sym::Unit),
			Wide::V11(a) => (11, q!(a)),
			Wide::V12 {} => (12, q!()),
			Wide::V13() => (13, q!()),
			Wide::V14(a) => (14, q!(a)),
			Wide::V15(a, b, c, d, e) => (15, q!(a, b, c, d, e)),
			Wide::V16(a) => (16, q!(a)),
			Wide::V17(a) => (17, q!(a)),
			Wide::V18 => (18, Sym::Unit),
		};
		Sym::union(tag, inner, 19, &[1, 5, 10, 18])
	}
}

/// More variants than a byte can number.
macro_rules! crowd {
	($( $v:ident )*) => {
		#[derive(Clone, Copy, bm_le::IntoTree, bm_le::FromTree)]
		pub enum Crowd { $( $v, )* Full(u8, u16), More { x: u64 } }
		const CROWD: &[Crowd] = &[$( Crowd::$v ),*];
		impl Crowd {
			fn number(&self) -> u64 {
				let mut n = 0;
				$( if let Crowd::$v = self { return n; } n += 1; )*
				match self {
					Crowd::Full(..) => n,
					_ => n + 1,
				}
			}
		}
	};
}
crowd! {
	W000 W001 W002 W003 W004 W005 W006 W007 W008 W009 W010 W011 W012 W013 W014
	W015 W016 W017 W018 W019 W020 W021 W022 W023 W024 W025 W026 W027 W028 W029
	W030 W031 W032 W033 W034 W035 W036 W037 W038 W039 W040 W041 W042 W043 W044
	W045 W046 W047 W048 W049 W050 W051 W052 W053 W054 W055 W056 W057 W058 W059
	W060 W061 W062 W063 W064 W065 W066 W067 W068 W069 W070 W071 W072 W073 W074
	W075 W076 W077 W078 W079 W080 W081 W082 W083 W084 W085 W086 W087 W088 W089
	W090 W091 W092 W093 W094 W095 W096 W097 W098 W099 W100 W101 W102 W103 W104
	W105 W106 W107 W108 W109 W110 W111 W112 W113 W114 W115 W116 W117 W118 W119
	W120 W121 W122 W123 W124 W125 W126 W127 W128 W129 W130 W131 W132 W133 W134
	W135 W136 W137 W138 W139 W140 W141 W142 W143 W144 W145 W146 W147 W148 W149
	W150 W151 W152 W153 W154 W155 W156 W157 W158 W159 W160 W161 W162 W163 W164
	W165 W166 W167 W168 W169 W170 W171 W172 W173 W174 W175 W176 W177 W178 W179
	W180 W181 W182 W183 W184 W185 W186 W187 W188 W189 W190 W191 W192 W193 W194
	W195 W196 W197 W198 W199 W200 W201 W202 W203 W204 W205 W206 W207 W208 W209
	W210 W211 W212 W213 W214 W215 W216 W217 W218 W219 W220 W221 W222 W223 W224
	W225 W226 W227 W228 W229 W230 W231 W232 W233 W234 W235 W236 W237 W238 W239
	W240 W241 W242 W243 W244 W245 W246 W247 W248 W249 W250 W251 W252 W253 W254
	W255 W256 W257 W258 W259 W260 W261 W262 W263 W264 W265 W266 W267 W268 W269
}
impl Gen for Crowd {
	fn gen(s: &mut Src) -> Self {
		let n = s.u8() as usize + s.u8() as usize;
		match n {
			n if n < CROWD.len() => CROWD[n],
			n if n % 2 == 0 => Crowd::Full(Gen::gen(s), Gen::gen(s)),
			_ => Crowd::More { x: Gen::gen(s) },
		}
	}
	fn sym(&self) -> Sym {
		let units: Vec<u64> = (0..CROWD.len() as u64).collect();
		let inner = match self {
			Crowd::Full(a, b) => Sym::seq(vec![a.sym(), b.sym()]),
			Crowd::More { x } => Sym::seq(vec![x.sym()]),
			_ => Sym::Unit,
		};
		Sym::union(self.number(), inner, CROWD.len() as u64 + 2, &units)
	}
}

/// A value with a number mixed in by hand, as a type or as a length.
pub struct Tagged<X, const LENGTH: bool>(X, usize);
impl<X: IntoTree, const LENGTH: bool> IntoTree for Tagged<X, LENGTH> {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<Val_<DB>, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		if LENGTH {
			bm_le::utils::mix_in_length(&self.0, db, self.1)
		} else {
			bm_le::utils::mix_in_type(&self.0, db, self.1)
		}
	}
}
impl<X: FromTree, const LENGTH: bool> FromTree for Tagged<X, LENGTH> {
	fn from_tree<DB: ReadBackend>(root: &Val_<DB>, db: &mut DB) -> Result<Self, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		if LENGTH {
			bm_le::utils::decode_with_length(root, db).map(|(x, n)| Tagged(x, n))
		} else {
			bm_le::utils::decode_with_type(root, db, |at, db, n| Ok(Tagged(X::from_tree(at, db)?, n)))
		}
	}
}
impl<X: Gen, const LENGTH: bool> Gen for Tagged<X, LENGTH> {
	fn gen(s: &mut Src) -> Self {
		let n: u64 = Gen::gen(s);
		Tagged(X::gen(s), n as usize)
	}
	fn sym(&self) -> Sym {
		Sym::list(self.0.sym(), self.1, None)
	}
}

// ------------------------------------------------ values read in part

/// What an ignored part is described as.
pub const IGNORED: Sym = Sym::Leaf([0xEE; 32]);

/// `Ignored`, in types that are never encoded.
#[derive(Clone)]
pub struct Ig(bm_le::Ignored);
impl FromTree for Ig {
	fn from_tree<DB: ReadBackend>(root: &Val_<DB>, db: &mut DB) -> Result<Self, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		bm_le::Ignored::from_tree(root, db).map(Ig)
	}
}
impl IntoTree for Ig {
	fn into_tree<DB: WriteBackend>(&self, _: &mut DB) -> Result<Val_<DB>, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		unreachable!()
	}
}
impl Gen for Ig {
	fn gen(_: &mut Src) -> Self {
		unreachable!()
	}
	fn sym(&self) -> Sym {
		IGNORED
	}
}

macro_rules! skimming {
	($( struct $name:ident { $( $(#[bm($c:ident)])? $f:ident : $t:ty ),* $(,)? } )*) => { $(
		#[derive(bm_le::IntoTree, bm_le::FromTree)]
		pub struct $name { $( $(#[bm($c)])? pub $f: $t ),* }
		impl Gen for $name {
			fn gen(_: &mut Src) -> Self { unreachable!() }
			fn sym(&self) -> Sym { Sym::seq(vec![$( fsym!(&self.$f, $($c)?) ),*]) }
		}
	)* };
}
skimming! {
	struct Skim5 { a: u8, b: Ig, c: Option<Ig>, d: Vec<Ig>, e: (u64, Ig) }
	struct Skim5b { a: Ig, b: One, c: Ig, d: Ig, e: Ig }
	struct SkimPacked {
		a: Ig,
		b: u64,
		c: Ig,
		#[bm(compact)] d: VecArray<bool, tn::U12>,
		e: Ig,
		f: MaxVec<Ig, tn::U5>,
	}
	struct Skim17 {
		a: Ig, b: Ig, c: Ig, d: Ig, e: Ig, f: Ig, g: Ig, h: Ig, i: Ig, j: Ig, k: Ig,
		l: Ig, m: Ig, n: Ig, o: Ig, p: Vec<One>, q: Ig,
	}
	struct SkimDeep { a: Box<Skim5b>, b: Vec<Skim5>, c: MaxVec<SkimPacked, tn::U3> }
}

#[derive(bm_le::IntoTree, bm_le::FromTree)]
pub enum SkimMixed {
	None,
	One(Ig),
	Two(u16, Ig),
	Named { a: Ig, b: Ig, c: Option<Ig> },
	Hollow {},
	Also,
	Packed(Ig, u64),
}
impl Gen for SkimMixed {
	fn gen(_: &mut Src) -> Self {
		unreachable!()
	}
	fn sym(&self) -> Sym {
		let (tag, inner) = match self {
			SkimMixed::None => (0, Sym::Unit),
			SkimMixed::One(x) => (1, Sym::seq(vec![x.sym()])),
			SkimMixed::Two(a, b) => (2, Sym::seq(vec![a.sym(), b.sym()])),
			SkimMixed::Named { a, b, c } => (3, Sym::seq(vec![a.sym(), b.sym(), c.sym()])),
			SkimMixed::Hollow {} => (4, Sym::seq(vec![])),
			SkimMixed::Also => (5, Sym::Unit),
			SkimMixed::Packed(a, b) => (6, Sym::seq(vec![a.sym(), b.sym()])),
		};
		Sym::union(tag, inner, 7, &[0, 5])
	}
}

/// A type, and what is read of it.
pub struct Skim {
	pub name: &'static str,
	pub gen: fn(&mut Src) -> Box<dyn Zv>,
	pub read_i: fn(&Value, &mut Db<'_, CI>) -> R<Sym>,
	pub read_u: fn(&Value, &mut Db<'_, CU>) -> R<Sym>,
}
macro_rules! skims {
	($( $t:ty => $s:ty; )*) => {
		pub static SKIMS: &[Skim] = &[$( Skim {
			name: concat!(stringify!($t), " read as ", stringify!($s)),
			gen: |s| Box::new(<$t as Gen>::gen(s)),
			read_i: |root, db| <$s as FromTree>::from_tree(root, db).map(|v| v.sym()),
			read_u: |root, db| <$s as FromTree>::from_tree(root, db).map(|v| v.sym()),
		} ),*];
	};
}
skims! {
	Five => Skim5;
	Five => Skim5b;
	Packed => SkimPacked;
	Seventeen => Skim17;
	Deep => SkimDeep;
	Mixed<Vec<u16>> => SkimMixed;
	Vec<Mixed<u64>> => Vec<SkimMixed>;
	Five => Ig;
	Vec<Vec<u8>> => Vec<Ig>;
	MaxVec<Vec<u8>, tn::U9> => MaxVec<Ig, tn::U9>;
	Option<Two> => Option<Ig>;
	(u8, Five) => (u8, Ig);
	(Vec<u8>, u64, Option<u8>) => (Ig, u64, Ig);
	(u8, Two, u8, Vec<u8>, u8) => (Ig, Ig, Ig, Vec<u8>, Ig);
	((u8, Two), (Two, u8)) => ((u8, Ig), Ig);
	[[u8; 3]; 3] => VecArray<Ig, tn::U3>;
	Pair<Vec<u64>, Vec<u16>> => Pair<Ig, Vec<u16>>;
	Pair<Option<u64>, Pair<u8, Vec<u8>>> => Pair<Option<Ig>, Pair<u8, Ig>>;
	Box<Two> => Box<Ig>;
	Tagged<Five, true> => Tagged<Ig, true>;
}

// ------------------------------------------------ type erasure

pub trait Zv {
	fn enc_i(&self, db: &mut Db<'_, CI>) -> R<Value>;
	fn enc_u(&self, db: &mut Db<'_, CU>) -> R<Value>;
	fn root_only(&self) -> Value;
	fn description(&self) -> Sym;
	fn other_form(&self, db: &mut Db<'_, CI>) -> Option<R<Value>>;
}

impl<X: Gen + IntoTree> Zv for X {
	fn enc_i(&self, db: &mut Db<'_, CI>) -> R<Value> {
		self.into_tree(db)
	}
	fn enc_u(&self, db: &mut Db<'_, CU>) -> R<Value> {
		self.into_tree(db)
	}
	fn root_only(&self) -> Value {
		Value(bm_le::tree_root::<sha2::Sha256, X>(self))
	}
	fn description(&self) -> Sym {
		self.sym()
	}
	fn other_form(&self, db: &mut Db<'_, CI>) -> Option<R<Value>> {
		self.alt(db)
	}
}

pub struct Ty {
	pub name: &'static str,
	pub gen: fn(&mut Src) -> Box<dyn Zv>,
	pub dec_i: fn(&Value, &mut Db<'_, CI>) -> R<Sym>,
	pub dec_u: fn(&Value, &mut Db<'_, CU>) -> R<Sym>,
}

/// The two constructs over 32-byte values.
pub trait Zk: Kit<V = Value> {
	fn enc(v: &dyn Zv, db: &mut Db<'_, Self::C>) -> R<Value>;
	fn dec(t: &Ty, root: &Value, db: &mut Db<'_, Self::C>) -> R<Sym>;
	fn skim(t: &Skim, root: &Value, db: &mut Db<'_, Self::C>) -> R<Sym>;
}
impl Zk for KI {
	fn enc(v: &dyn Zv, db: &mut Db<'_, CI>) -> R<Value> {
		v.enc_i(db)
	}
	fn dec(t: &Ty, root: &Value, db: &mut Db<'_, CI>) -> R<Sym> {
		(t.dec_i)(root, db)
	}
	fn skim(t: &Skim, root: &Value, db: &mut Db<'_, CI>) -> R<Sym> {
		(t.read_i)(root, db)
	}
}
impl Zk for KU {
	fn enc(v: &dyn Zv, db: &mut Db<'_, CU>) -> R<Value> {
		v.enc_u(db)
	}
	fn dec(t: &Ty, root: &Value, db: &mut Db<'_, CU>) -> R<Sym> {
		(t.dec_u)(root, db)
	}
	fn skim(t: &Skim, root: &Value, db: &mut Db<'_, CU>) -> R<Sym> {
		(t.read_u)(root, db)
	}
}

macro_rules! with_zk {
	($kit:expr, $K:ident => $e:expr) => {
		if $kit % 2 == 0 {
			type $K = $crate::base::KI;
			$e
		} else {
			type $K = $crate::base::KU;
			$e
		}
	};
}
pub(crate) use with_zk;

macro_rules! zoo {
	($( $t:ty ),* $(,)?) => {
		pub static ZOO: &[Ty] = &[$( Ty {
			name: stringify!($t),
			gen: |s| Box::new(<$t as Gen>::gen(s)),
			dec_i: |root, db| <$t as FromTree>::from_tree(root, db).map(|v| v.sym()),
			dec_u: |root, db| <$t as FromTree>::from_tree(root, db).map(|v| v.sym()),
		} ),*];
	};
}

type Big = tn::U1099511627776;
/// The most elements an index can tell apart.
type Huge = tn::U9223372036854775808;

zoo! {
	bool, u8, u16, u32, u64, u128, U256, H256, H512, (), Value,
	[u64; 1], [u16; 3], [u8; 4], [u128; 5], [bool; 9], [U256; 17], [H256; 32], [[u8; 3]; 3], [(u64, u8); 2],
	[u8; 2], [u32; 6], [u8; 7], [u16; 8], [u64; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 16],
	[u8; 18], [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28],
	[u8; 29], [u8; 30], [u8; 31],
	GenericArray<u64, tn::U3>, GenericArray<Vec<u16>, tn::U5>, GenericArray<Option<u8>, tn::U2>,
	GenericArray<u8, tn::U0>, GenericArray<u16, tn::U70>,
	VecArray<u32, tn::U6>, VecArray<Vec<u8>, tn::U3>, VecArray<u8, tn::U0>, VecArray<u64, tn::U33>,
	Vec<u8>, Vec<u16>, Vec<u64>, Vec<bool>, Vec<U256>, Vec<H256>, Vec<H512>, Vec<Vec<u16>>, Vec<Vec<Vec<u8>>>,
	Vec<Option<u64>>, Vec<(u8, u64)>, Vec<()>, Vec<Mixed<u8>>, Vec<Compact<MaxVec<u8, tn::U33>>>,
	MaxVec<u64, tn::U1>, MaxVec<u16, tn::U4>, MaxVec<u8, tn::U7>, MaxVec<Vec<u8>, tn::U9>, MaxVec<U256, tn::U33>,
	MaxVec<u64, tn::U0>, MaxVec<H256, Big>, MaxVec<MaxVec<u16, tn::U3>, tn::U5>, MaxVec<u8, tn::U64>,
	MaxVec<Five, tn::U12>, MaxVec<u8, tn::U65>,
	Compact<GenericArray<u8, tn::U32>>, Compact<GenericArray<u8, tn::U33>>, Compact<GenericArray<u16, tn::U17>>,
	Compact<GenericArray<u32, tn::U8>>, Compact<GenericArray<u64, tn::U5>>, Compact<GenericArray<u128, tn::U2>>,
	Compact<GenericArray<U256, tn::U3>>, Compact<GenericArray<bool, tn::U9>>, Compact<GenericArray<bool, tn::U256>>,
	Compact<GenericArray<bool, tn::U257>>, Compact<GenericArray<u8, tn::U0>>, Compact<GenericArray<u8, tn::U1>>,
	Compact<VecArray<u8, tn::U48>>, Compact<VecArray<bool, tn::U10>>, Compact<VecArray<U256, tn::U5>>,
	Compact<VecArray<u64, tn::U4>>, Compact<VecArray<u16, tn::U100>>, Compact<VecArray<u128, tn::U7>>,
	Compact<VecArray<u32, tn::U9>>, Compact<VecArray<bool, tn::U0>>,
	Compact<MaxVec<u8, tn::U32>>, Compact<MaxVec<u8, tn::U33>>, Compact<MaxVec<u8, tn::U100>>,
	Compact<MaxVec<u16, tn::U17>>, Compact<MaxVec<u32, tn::U16>>, Compact<MaxVec<u64, tn::U9>>,
	Compact<MaxVec<u128, tn::U3>>, Compact<MaxVec<U256, tn::U6>>, Compact<MaxVec<bool, tn::U1>>,
	Compact<MaxVec<bool, tn::U256>>, Compact<MaxVec<bool, tn::U257>>, Compact<MaxVec<bool, tn::U2048>>,
	Compact<MaxVec<u32, tn::U0>>, Compact<MaxVec<u64, Big>>, Compact<MaxVec<u8, tn::U1000>>,
	CList<bool>, CList<u8>, CList<u16>, CList<u32>, CList<u64>, CList<u128>, CList<U256>,
	Fixed<u64, tn::U3, tn::U9>, Fixed<Vec<u8>, tn::U2, tn::U2>, Fixed<u8, tn::U0, tn::U5>,
	CFixed<u8, tn::U33, tn::U129>, CFixed<u16, tn::U3, tn::U64>, CFixed<u64, tn::U5, tn::U5>,
	CFixed<bool, tn::U11, tn::U600>, CFixed<U256, tn::U2, tn::U7>, CFixed<u128, tn::U3, Big>, CFixed<u32, tn::U0, tn::U9>,
	EList<u16>, EList<Option<U256>>,
	MaxVec<u16, Huge>, Compact<MaxVec<bool, Huge>>, Compact<MaxVec<u64, Huge>>, CFixed<u16, tn::U3, Huge>, Fixed<u8, tn::U2, Huge>,
	(u8, u16), (u64, Vec<u8>, bool), (u8, U256, H256, u64), (u8, u16, u32, u64, u128), (u8, (), u8, Option<()>, u8, H512),
	(u8, u16, u32, u64, u128, U256, bool), (u8, u8, u8, u8, u8, u8, u8, Vec<u16>), (u8, u8, u8, u8, u8, u8, u8, u8, U256),
	((u8, u16), (u32, (u64, u128))),
	Option<u64>, Option<()>, Option<Option<u8>>, Option<Vec<u16>>, Option<Box<(u8, u8)>>, Box<u64>, Box<Vec<Box<u16>>>,
	Option<MaxVec<u8, tn::U4>>,
	One, Two, Three, Five, Packed, PackedLast, Seventeen, Deep, Empty, WithEmpty, Tup, TupPacked,
	Pair<u8, Vec<u16>>, Pair<Option<u64>, Pair<u8, Plain>>, Plain, Mixed<u64>, Mixed<Mixed<u8>>, Mixed<Two>, Vec<Plain>,
	Option<Plain>, Single, Wide, Vec<Wide>, MaxVec<Wide, tn::U9>, Sixteen, ThirtyFive,
	Crowd, Option<Crowd>, Tagged<u8, true>, Tagged<Vec<u16>, true>, Tagged<Five, true>, Tagged<(), true>, Tagged<u64, false>,
	Tagged<Mixed<u8>, false>, Tagged<Tagged<H512, false>, true>, Vec<Tagged<Two, false>>,
}
