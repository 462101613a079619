//! One object-safe face for every collection kind, and the plain-array model of its tree.

use crate::base::*;
use bm::{
	Dangling, Error, Leak, List, Owned, PackedList, PackedVector, RootStatus, Sequence, Tree,
	Vector,
};
use generic_array::typenum::*;
use generic_array::GenericArray;
use serde::{Deserialize, Serialize};

type R<X> = Result<X, Error<XErr>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
	Vector,
	List,
	PVec,
	PList,
}

impl Kind {
	pub fn packed(self) -> bool {
		matches!(self, Kind::PVec | Kind::PList)
	}
	pub fn list(self) -> bool {
		matches!(self, Kind::List | Kind::PList)
	}
}

/// What to build: collection kind, element width index, owned or dangling.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Spec {
	pub kind: Kind,
	pub w: u8,
	pub owned: bool,
}

/// How to close and reopen a handle.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Reopen {
	/// metadata / from_leaked
	Leak,
	/// into_raw and back from the raw tree
	Raw,
	/// deconstruct to the single root and reconstruct (lists only)
	Root,
}

pub trait Coll<K: Kit> {
	fn get(&self, db: &mut Db<'_, K::C>, i: usize) -> R<Vec<u8>>;
	fn set(&mut self, db: &mut Db<'_, K::C>, i: usize, v: &[u8]) -> R<()>;
	fn push(&mut self, db: &mut Db<'_, K::C>, v: &[u8]) -> R<()>;
	fn pop(&mut self, db: &mut Db<'_, K::C>) -> R<Option<Vec<u8>>>;
	fn len(&self) -> usize;
	fn root(&self) -> K::V;
	fn drop_(self: Box<Self>, db: &mut Db<'_, K::C>) -> R<()>;
	fn reopen(self: Box<Self>, db: &mut Db<'_, K::C>, how: Reopen, max: Option<u64>) -> R<Box<dyn Coll<K>>>;
	/// Another handle made from the metadata of this one, owned or dangling.
	fn twin(&self, owned: bool) -> Box<dyn Coll<K>>;
	/// (depth, current maximum, declared maximum) where the API reports them.
	fn dims(&self) -> Option<(usize, u64, Option<u64>)> {
		None
	}
}

impl<K: Kit, S: RootStatus + 'static> Coll<K> for Vector<S, K::C> {
	fn get(&self, db: &mut Db<'_, K::C>, i: usize) -> R<Vec<u8>> {
		Vector::get(self, db, i).map(|v| v.as_ref().to_vec())
	}
	fn set(&mut self, db: &mut Db<'_, K::C>, i: usize, v: &[u8]) -> R<()> {
		Vector::set(self, db, i, K::V::of(v))
	}
	fn push(&mut self, db: &mut Db<'_, K::C>, v: &[u8]) -> R<()> {
		Vector::push(self, db, K::V::of(v))
	}
	fn pop(&mut self, db: &mut Db<'_, K::C>) -> R<Option<Vec<u8>>> {
		Vector::pop(self, db).map(|o| o.map(|v| v.as_ref().to_vec()))
	}
	fn len(&self) -> usize {
		let n = Vector::len(self);
		assert_eq!(n, <Self as Sequence>::len(self), "two lengths reported");
		n
	}
	fn root(&self) -> K::V {
		Tree::root(self)
	}
	fn drop_(self: Box<Self>, db: &mut Db<'_, K::C>) -> R<()> {
		Tree::drop(*self, db)
	}
	fn reopen(self: Box<Self>, _db: &mut Db<'_, K::C>, how: Reopen, max: Option<u64>) -> R<Box<dyn Coll<K>>> {
		let len = Vector::len(&self);
		let back: Vector<S, K::C> = match how {
			Reopen::Leak => Leak::from_leaked(self.metadata()),
			Reopen::Raw => self.into_raw().into_vector(len, max),
			Reopen::Root => Vector::from_raw(self.into_raw(), len, max),
		};
		Ok(Box::new(back))
	}
	fn twin(&self, owned: bool) -> Box<dyn Coll<K>> {
		if owned {
			Box::new(Vector::<Owned, K::C>::from_leaked(self.metadata()))
		} else {
			Box::new(Vector::<Dangling, K::C>::from_leaked(self.metadata()))
		}
	}
	fn dims(&self) -> Option<(usize, u64, Option<u64>)> {
		Some((self.depth(), self.current_max_len(), self.max_len()))
	}
}

impl<K: Kit, S: RootStatus + 'static> Coll<K> for List<S, K::C> {
	fn get(&self, db: &mut Db<'_, K::C>, i: usize) -> R<Vec<u8>> {
		List::get(self, db, i).map(|v| v.as_ref().to_vec())
	}
	fn set(&mut self, db: &mut Db<'_, K::C>, i: usize, v: &[u8]) -> R<()> {
		List::set(self, db, i, K::V::of(v))
	}
	fn push(&mut self, db: &mut Db<'_, K::C>, v: &[u8]) -> R<()> {
		List::push(self, db, K::V::of(v))
	}
	fn pop(&mut self, db: &mut Db<'_, K::C>) -> R<Option<Vec<u8>>> {
		List::pop(self, db).map(|o| o.map(|v| v.as_ref().to_vec()))
	}
	fn len(&self) -> usize {
		<Self as Sequence>::len(self)
	}
	fn root(&self) -> K::V {
		Tree::root(self)
	}
	fn drop_(self: Box<Self>, db: &mut Db<'_, K::C>) -> R<()> {
		Tree::drop(*self, db)
	}
	fn reopen(self: Box<Self>, db: &mut Db<'_, K::C>, how: Reopen, max: Option<u64>) -> R<Box<dyn Coll<K>>> {
		let back: List<S, K::C> = match how {
			Reopen::Leak => Leak::from_leaked(self.metadata()),
			Reopen::Raw => List::reconstruct(Tree::root(&self.into_raw()), db, max)?,
			Reopen::Root => {
				let root = self.deconstruct(db)?;
				List::reconstruct(root, db, max)?
			}
		};
		Ok(Box::new(back))
	}
	fn twin(&self, owned: bool) -> Box<dyn Coll<K>> {
		if owned {
			Box::new(List::<Owned, K::C>::from_leaked(self.metadata()))
		} else {
			Box::new(List::<Dangling, K::C>::from_leaked(self.metadata()))
		}
	}
}

type B<W> = GenericArray<u8, W>;

macro_rules! packed {
	($( $h:ty : [$( $w:ty ),*] for [$( $kit:ty ),*] );* $(;)?) => { $( packed!(@kits $h, [$($w),*], [$($kit),*]); )* };
	(@kits $h:ty, $ws:tt, [$( $kit:ty ),*]) => { $( packed!(@ws $h, $kit, $ws); )* };
	(@ws $h:ty, $kit:ty, [$( $w:ty ),*]) => { $( packed!(@one $h, $kit, $w); )* };
	(@one $h:ty, $kit:ty, $w:ty) => {
		impl<S: RootStatus + 'static> Coll<$kit> for PackedVector<S, <$kit as Kit>::C, B<$w>, $h, $w> {
			fn get(&self, db: &mut Db<'_, <$kit as Kit>::C>, i: usize) -> R<Vec<u8>> {
				PackedVector::get(self, db, i).map(|v| v.to_vec())
			}
			fn set(&mut self, db: &mut Db<'_, <$kit as Kit>::C>, i: usize, v: &[u8]) -> R<()> {
				PackedVector::set(self, db, i, B::<$w>::clone_from_slice(v))
			}
			fn push(&mut self, db: &mut Db<'_, <$kit as Kit>::C>, v: &[u8]) -> R<()> {
				PackedVector::push(self, db, B::<$w>::clone_from_slice(v))
			}
			fn pop(&mut self, db: &mut Db<'_, <$kit as Kit>::C>) -> R<Option<Vec<u8>>> {
				PackedVector::pop(self, db).map(|o| o.map(|v| v.to_vec()))
			}
			fn len(&self) -> usize {
				Sequence::len(self)
			}
			fn root(&self) -> <$kit as Kit>::V {
				Tree::root(self)
			}
			fn drop_(self: Box<Self>, db: &mut Db<'_, <$kit as Kit>::C>) -> R<()> {
				Tree::drop(*self, db)
			}
			fn reopen(self: Box<Self>, _db: &mut Db<'_, <$kit as Kit>::C>, how: Reopen, max: Option<u64>) -> R<Box<dyn Coll<$kit>>> {
				let len = Sequence::len(&*self);
				Ok(match how {
					Reopen::Leak => Box::new(Self::from_leaked(self.metadata())),
					_ => Box::new(Self::from_raw(self.into_raw(), len, max)),
				})
			}
			fn twin(&self, owned: bool) -> Box<dyn Coll<$kit>> {
				if owned {
					Box::new(PackedVector::<Owned, <$kit as Kit>::C, B<$w>, $h, $w>::from_leaked(self.metadata()))
				} else {
					Box::new(PackedVector::<Dangling, <$kit as Kit>::C, B<$w>, $h, $w>::from_leaked(self.metadata()))
				}
			}
		}
		impl<S: RootStatus + 'static> Coll<$kit> for PackedList<S, <$kit as Kit>::C, B<$w>, $h, $w> {
			fn get(&self, db: &mut Db<'_, <$kit as Kit>::C>, i: usize) -> R<Vec<u8>> {
				PackedList::get(self, db, i).map(|v| v.to_vec())
			}
			fn set(&mut self, db: &mut Db<'_, <$kit as Kit>::C>, i: usize, v: &[u8]) -> R<()> {
				PackedList::set(self, db, i, B::<$w>::clone_from_slice(v))
			}
			fn push(&mut self, db: &mut Db<'_, <$kit as Kit>::C>, v: &[u8]) -> R<()> {
				PackedList::push(self, db, B::<$w>::clone_from_slice(v))
			}
			fn pop(&mut self, db: &mut Db<'_, <$kit as Kit>::C>) -> R<Option<Vec<u8>>> {
				PackedList::pop(self, db).map(|o| o.map(|v| v.to_vec()))
			}
			fn len(&self) -> usize {
				Sequence::len(self)
			}
			fn root(&self) -> <$kit as Kit>::V {
				Tree::root(self)
			}
			fn drop_(self: Box<Self>, db: &mut Db<'_, <$kit as Kit>::C>) -> R<()> {
				Tree::drop(*self, db)
			}
			fn reopen(self: Box<Self>, _db: &mut Db<'_, <$kit as Kit>::C>, _how: Reopen, _max: Option<u64>) -> R<Box<dyn Coll<$kit>>> {
				Ok(Box::new(Self::from_leaked(self.metadata())))
			}
			fn twin(&self, owned: bool) -> Box<dyn Coll<$kit>> {
				if owned {
					Box::new(PackedList::<Owned, <$kit as Kit>::C, B<$w>, $h, $w>::from_leaked(self.metadata()))
				} else {
					Box::new(PackedList::<Dangling, <$kit as Kit>::C, B<$w>, $h, $w>::from_leaked(self.metadata()))
				}
			}
		}
	};
}

packed! {
	U32: [U1, U8, U12, U32, U48, U64] for [KI, KU];
	U8: [U1, U3, U4, U8, U12, U16] for [KSI, KSU];
}

/// Element widths available for packed collections with the given chunk size.
pub fn widths(chunk: usize) -> [usize; 6] {
	if chunk == 32 {
		[1, 8, 12, 32, 48, 64]
	} else {
		[1, 3, 4, 8, 12, 16]
	}
}

/// Construction, separate from `Coll` because the packed types differ per kit.
pub trait Make: Kit + Sized {
	fn packed_vec(db: &mut Db<'_, Self::C>, w: u8, len: usize, max: Option<u64>) -> R<Box<dyn Coll<Self>>>;
	fn packed_list(db: &mut Db<'_, Self::C>, w: u8, max: Option<u64>) -> R<Box<dyn Coll<Self>>>;

	fn packed_vec_at(w: u8, root: Self::V, len: usize, max: Option<u64>) -> Box<dyn Coll<Self>>;
	fn packed_list_at(w: u8, root: Self::V, items: Self::V, len: usize, max: Option<u64>) -> Box<dyn Coll<Self>>;

	/// A dangling handle on a stored tree; `items` is the root of a list's items.
	fn leaked(kind: Kind, w: u8, root: Self::V, items: Self::V, len: usize, max: Option<u64>) -> Box<dyn Coll<Self>> {
		match kind {
			Kind::Vector => Box::new(Vector::<Dangling, Self::C>::from_leaked((root, len, max))),
			Kind::List => Box::new(List::<Dangling, Self::C>::from_leaked((root, (items, len, max)))),
			Kind::PVec => Self::packed_vec_at(w, root, len, max),
			Kind::PList => Self::packed_list_at(w, root, items, len, max),
		}
	}

	/// A fresh owned collection.
	fn owned(db: &mut Db<'_, Self::C>, kind: Kind, w: u8, len: usize, max: Option<u64>) -> R<Box<dyn Coll<Self>>> {
		match kind {
			Kind::Vector => Ok(Box::new(Vector::<Owned, Self::C>::create(db, len, max)?)),
			Kind::List => Ok(Box::new(List::<Owned, Self::C>::create(db, max)?)),
			Kind::PVec => Self::packed_vec(db, w, len, max),
			Kind::PList => Self::packed_list(db, w, max),
		}
	}

	/// A fresh collection as described; a dangling one leaves its creator behind in the backend.
	fn make(db: &mut Db<'_, Self::C>, spec: Spec, len: usize, max: Option<u64>) -> R<Box<dyn Coll<Self>>> {
		let c = Self::owned(db, spec.kind, spec.w, len, max)?;
		Ok(if spec.owned { c } else { c.twin(false) })
	}

	fn width(kind: Kind, w: u8) -> usize {
		if kind.packed() {
			widths(Self::V::LEN)[w as usize % 6]
		} else {
			Self::V::LEN
		}
	}
}

macro_rules! make {
	($h:ty: $kit:ty: [$( $n:literal => $w:ty ),*]) => {
		impl Make for $kit {
			fn packed_vec(db: &mut Db<'_, Self::C>, w: u8, len: usize, max: Option<u64>) -> R<Box<dyn Coll<Self>>> {
				match w % 6 {
					$( $n => Ok(Box::new(PackedVector::<Owned, Self::C, B<$w>, $h, $w>::create(db, len, max)?)), )*
					_ => unreachable!(),
				}
			}
			fn packed_list(db: &mut Db<'_, Self::C>, w: u8, max: Option<u64>) -> R<Box<dyn Coll<Self>>> {
				match w % 6 {
					$( $n => Ok(Box::new(PackedList::<Owned, Self::C, B<$w>, $h, $w>::create(db, max)?)), )*
					_ => unreachable!(),
				}
			}
			fn packed_vec_at(w: u8, root: Self::V, len: usize, max: Option<u64>) -> Box<dyn Coll<Self>> {
				match w % 6 {
					$( $n => Box::new(PackedVector::<Dangling, Self::C, B<$w>, $h, $w>::from_leaked((root, len, max))), )*
					_ => unreachable!(),
				}
			}
			fn packed_list_at(w: u8, root: Self::V, items: Self::V, len: usize, max: Option<u64>) -> Box<dyn Coll<Self>> {
				match w % 6 {
					$( $n => Box::new(PackedList::<Dangling, Self::C, B<$w>, $h, $w>::from_leaked((root, (items, len, max)))), )*
					_ => unreachable!(),
				}
			}
		}
	};
}
make!(U32: KI: [0 => U1, 1 => U8, 2 => U12, 3 => U32, 4 => U48, 5 => U64]);
make!(U32: KU: [0 => U1, 1 => U8, 2 => U12, 3 => U32, 4 => U48, 5 => U64]);
make!(U8: KSI: [0 => U1, 1 => U3, 2 => U4, 3 => U8, 4 => U12, 5 => U16]);
make!(U8: KSU: [0 => U1, 1 => U3, 2 => U4, 3 => U8, 4 => U12, 5 => U16]);

/// The tree a collection with these elements must have.
pub fn model_tree<K: Make>(r: &Ref<K>, kind: Kind, w: u8, elems: &[Vec<u8>], max: Option<u64>) -> T<K::V> {
	let leaves: Vec<T<K::V>> = if kind.packed() {
		let bytes: Vec<u8> = elems.concat();
		bytes.chunks(K::V::LEN).map(|c| T::Leaf(K::V::of(c))).collect()
	} else {
		elems.iter().map(|e| T::Leaf(K::V::of(e))).collect()
	};
	model_of_leaves(r, kind, w, leaves, elems.len() as u64, max)
}

/// As `model_tree`, with the leaves (which may be subtrees) given.
pub fn model_of_leaves<K: Make>(
	r: &Ref<K>,
	kind: Kind,
	w: u8,
	leaves: Vec<T<K::V>>,
	len: u64,
	max: Option<u64>,
) -> T<K::V> {
	let capacity = match max {
		Some(m) if kind.packed() => chunks_for(m as u128, K::width(kind, w), K::V::LEN),
		Some(m) => m as u128,
		None => leaves.len() as u128,
	};
	let items = r.seq(&leaves, depth_for(capacity));
	if kind.list() {
		T::node(items, Ref::<K>::len_leaf(len))
	} else {
		items
	}
}

/// Whether an element of this kind can lie across two chunks.
pub fn spanning<K: Make>(kind: Kind, w: u8) -> bool {
	kind.packed() && K::V::LEN % K::width(kind, w) != 0
}
