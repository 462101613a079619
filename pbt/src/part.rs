//! C13, C14: partial reads and updates of structs and lists.

use crate::base::*;
use crate::prove::{check_replay, check_transparent, frozen, Session};
use crate::raw::{path, Path};
use crate::run::*;
use crate::zoo::{with_zk, Src};
use bm::{Dangling, Leak, Owned, Raw, RootStatus, Tree};
use bm_le::{
	CompatibleConstruct, FromTree, IntoTree, PartialIndex, PartialItem, PartialValue, PartialVec, Partialable,
	Value,
};
use primitive_types::{H256, U256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type R<X> = Result<X, bm::Error<XErr>>;

/// Something whose words (basic fields, at any nesting) can be read and assigned partially.
pub trait Pa: Partialable + IntoTree + FromTree + Clone + std::fmt::Debug + 'static {
	fn make(s: &mut Src) -> Self;
	fn tree<K: Kit<V = Value>>(&self, r: &Ref<K>) -> T<Value>;
	fn words() -> usize;
	fn path(n: usize) -> Vec<bool>;
	fn word(&self, n: usize) -> [u8; 32];
	/// Take over one word of another value.
	fn copy(&mut self, n: usize, from: &Self);
	fn pset(p: &mut Self::Value, n: usize, from: &Self);
	fn pget<K: Kit<V = Value>, S: RootStatus>(p: &mut Self::Value, n: usize, raw: &Raw<S, K::C>, db: &mut Db<'_, K::C>) -> R<[u8; 32]>
	where
		K::C: CompatibleConstruct;
	fn pfetch<K: Kit<V = Value>, S: RootStatus>(p: &mut Self::Value, n: usize, raw: &Raw<S, K::C>, db: &mut Db<'_, K::C>) -> R<()>
	where
		K::C: CompatibleConstruct;
}

trait Word: Partialable<Value = PartialValue<Self>> + IntoTree + FromTree + Clone + Sized {
	fn bytes32(&self) -> [u8; 32];
}

macro_rules! words {
	($( $t:ty : $n:expr => $make:expr, $bytes:expr );* $(;)?) => { $(
		impl Word for $t {
			fn bytes32(&self) -> [u8; 32] {
				let mut b = [0; 32];
				let f: fn(&$t) -> Vec<u8> = $bytes;
				b[..$n].copy_from_slice(&f(self));
				b
			}
		}
		impl Pa for $t {
			fn make(s: &mut Src) -> Self {
				let f: fn(Vec<u8>) -> $t = $make;
				f(s.bytes($n))
			}
			fn tree<K: Kit<V = Value>>(&self, _: &Ref<K>) -> T<Value> {
				T::Leaf(Value::of(&self.bytes32()))
			}
			fn words() -> usize { 1 }
			fn path(_: usize) -> Vec<bool> { vec![] }
			fn word(&self, _: usize) -> [u8; 32] { self.bytes32() }
			fn copy(&mut self, _: usize, from: &Self) { *self = from.clone(); }
			fn pset(p: &mut Self::Value, _: usize, from: &Self) { p.set(from.clone()); }
			fn pget<K: Kit<V = Value>, S: RootStatus>(p: &mut Self::Value, _: usize, raw: &Raw<S, K::C>, db: &mut Db<'_, K::C>) -> R<[u8; 32]>
			where K::C: CompatibleConstruct {
				p.get(raw, db).map(|v| v.bytes32())
			}
			fn pfetch<K: Kit<V = Value>, S: RootStatus>(p: &mut Self::Value, _: usize, raw: &Raw<S, K::C>, db: &mut Db<'_, K::C>) -> R<()>
			where K::C: CompatibleConstruct {
				p.fetch(raw, db)
			}
		}
	)* };
}

fn arr<const N: usize>(v: Vec<u8>) -> [u8; N] {
	let mut b = [0; N];
	b.copy_from_slice(&v);
	b
}

words! {
	u8: 1 => |v| u8::from_le_bytes(arr(v)), |x| x.to_le_bytes().to_vec();
	u16: 2 => |v| u16::from_le_bytes(arr(v)), |x| x.to_le_bytes().to_vec();
	u32: 4 => |v| u32::from_le_bytes(arr(v)), |x| x.to_le_bytes().to_vec();
	u64: 8 => |v| u64::from_le_bytes(arr(v)), |x| x.to_le_bytes().to_vec();
	u128: 16 => |v| u128::from_le_bytes(arr(v)), |x| x.to_le_bytes().to_vec();
	U256: 32 => |v| {
		let l = |k: usize| u64::from_le_bytes(arr(v[8 * k..8 * k + 8].to_vec()));
		U256([l(0), l(1), l(2), l(3)])
	}, |x| x.0.iter().flat_map(|l| l.to_le_bytes().to_vec()).collect();
	H256: 32 => |v| H256(arr(v)), |x| x.0.to_vec();
}

/// The path of element `i` among `n`.
pub fn among(i: usize, n: usize) -> Vec<bool> {
	let d = depth_for(n as u128);
	(0..d).rev().map(|k| i >> k & 1 == 1).collect()
}

macro_rules! partials {
	($( $name:ident { $( $f:ident : $t:ty ),* $(,)? } )*) => { $(
		#[derive(Clone, Debug, PartialEq, bm_le::IntoTree, bm_le::FromTree, bm_le::Partialable)]
		pub struct $name { $( pub $f: $t ),* }

		#[allow(unused_variables, unused_mut, unused_assignments, unreachable_code)]
		impl Pa for $name {
			fn make(s: &mut Src) -> Self {
				$name { $( $f: <$t as Pa>::make(s) ),* }
			}
			fn tree<K: Kit<V = Value>>(&self, r: &Ref<K>) -> T<Value> {
				let fields: Vec<T<Value>> = vec![$( self.$f.tree::<K>(r) ),*];
				r.seq(&fields, depth_for(fields.len() as u128))
			}
			fn words() -> usize { 0 $( + <$t as Pa>::words() )* }
			fn path(n: usize) -> Vec<bool> {
				let names: &[&str] = &[$( stringify!($f) ),*];
				let total = names.len();
				let (mut n, mut i) = (n, 0);
				$(
					if n < <$t as Pa>::words() {
						let mut p = among(i, total);
						p.extend(<$t as Pa>::path(n));
						return p;
					}
					n -= <$t as Pa>::words();
					i += 1;
				)*
				unreachable!()
			}
			fn word(&self, n: usize) -> [u8; 32] {
				let mut n = n;
				$( if n < <$t as Pa>::words() { return self.$f.word(n); } n -= <$t as Pa>::words(); )*
				unreachable!()
			}
			fn copy(&mut self, n: usize, from: &Self) {
				let mut n = n;
				$( if n < <$t as Pa>::words() { return self.$f.copy(n, &from.$f); } n -= <$t as Pa>::words(); )*
				unreachable!()
			}
			fn pset(p: &mut Self::Value, n: usize, from: &Self) {
				let mut n = n;
				$( if n < <$t as Pa>::words() { return <$t as Pa>::pset(&mut p.$f, n, &from.$f); } n -= <$t as Pa>::words(); )*
				unreachable!()
			}
			fn pget<K: Kit<V = Value>, S: RootStatus>(p: &mut Self::Value, n: usize, raw: &Raw<S, K::C>, db: &mut Db<'_, K::C>) -> R<[u8; 32]>
			where K::C: CompatibleConstruct {
				let mut n = n;
				$( if n < <$t as Pa>::words() { return <$t as Pa>::pget::<K, S>(&mut p.$f, n, raw, db); } n -= <$t as Pa>::words(); )*
				unreachable!()
			}
			fn pfetch<K: Kit<V = Value>, S: RootStatus>(p: &mut Self::Value, n: usize, raw: &Raw<S, K::C>, db: &mut Db<'_, K::C>) -> R<()>
			where K::C: CompatibleConstruct {
				let mut n = n;
				$( if n < <$t as Pa>::words() { return <$t as Pa>::pfetch::<K, S>(&mut p.$f, n, raw, db); } n -= <$t as Pa>::words(); )*
				unreachable!()
			}
		}
	)* };
}

partials! {
	P1 { a: u64 }
	P2 { a: u16, b: U256 }
	P3 { a: u8, b: H256, c: u128 }
	P4 { a: u32, b: u8, c: P1, d: U256 }
	P5 { a: u8, b: P2, c: u32, d: P3, e: u64 }
	P6 { a: P2, b: P2, c: P2, d: P1, e: P1, f: P4 }
	P7 { a: P1, b: u8, c: u16, d: u32, e: u64, f: u128, g: U256 }
	P8 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: P3 }
	P9 { a: H256, b: u8, c: u8, d: P5, e: u8, f: u8, g: P4, h: u8, i: u16 }
	P17 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: u8, q: P3 }
	P35 {
		f00: u8, f01: u8, f02: u8, f03: u8, f04: u8, f05: u8, f06: u8, f07: u8, f08: u8, f09: u64, f10: u8, f11: u8,
		f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8,
		f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: P2, f32: u8, f33: P3, f34: u16,
	}
	Nest { x: Nest1, y: u8 }
	Nest1 { y: u16, x: Nest2, z: P1 }
	Nest2 { x: Nest3 }
	Nest3 { a: u64, b: P5, c: P9 }
	Nil {}
	WithNil { a: Nil, b: u32, c: Nil }
}

macro_rules! with_pa {
	($ty:expr, $P:ident => $e:expr) => {
		match $ty % TYPES {
			0 => { type $P = P1; $e }
			1 => { type $P = P2; $e }
			2 => { type $P = P3; $e }
			3 => { type $P = P4; $e }
			4 => { type $P = P5; $e }
			5 => { type $P = P6; $e }
			6 => { type $P = P7; $e }
			7 => { type $P = P8; $e }
			8 => { type $P = P9; $e }
			9 => { type $P = P17; $e }
			10 => { type $P = Nest; $e }
			11 => { type $P = WithNil; $e }
			12 => { type $P = u64; $e }
			13 => { type $P = primitive_types::U256; $e }
			14 => { type $P = primitive_types::H256; $e }
			15 => { type $P = P35; $e }
			_ => { type $P = u8; $e }
		}
	};
}
pub(crate) use with_pa;
pub const TYPES: u8 = 17;

// ------------------------------------------------ surroundings

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Wrap {
	Raw(Path),
	Vector(u8, u8),
	List(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Place {
	pub wraps: Vec<Wrap>,
	pub others: u16,
}

pub fn place() -> impl Strategy<Value = Place> {
	let among = || (1u8..10).prop_flat_map(|n| (0..n, Just(n)));
	let short = prop_oneof![
		3 => path(8).prop_map(Wrap::Raw),
		2 => among().prop_map(|(i, n)| Wrap::Vector(i, n)),
		2 => among().prop_map(|(i, n)| Wrap::List(i, n)),
	];
	let wrap = prop_oneof![
		3 => path(20).prop_map(Wrap::Raw),
		1 => among().prop_map(|(i, n)| Wrap::Vector(i, n)),
		1 => among().prop_map(|(i, n)| Wrap::List(i, n)),
	];
	(
		prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec(wrap.clone(), 1), 1 => proptest::collection::vec(wrap, 2), 1 => proptest::collection::vec(short, 3..5)],
		0u16..200,
	)
		.prop_map(|(wraps, others)| Place { wraps, others })
}

impl Place {
	pub fn index(&self) -> PartialIndex {
		self.wraps.iter().fold(PartialIndex::root(), |at, w| match *w {
			Wrap::Raw(p) => at.raw(p.index()),
			Wrap::Vector(i, n) => at.vector(i as usize, n as usize),
			Wrap::List(i, _) => at.list(i as usize),
		})
	}
	pub fn steps(&self) -> Vec<bool> {
		let mut out = vec![];
		for w in &self.wraps {
			match *w {
				Wrap::Raw(p) => out.extend(p.steps()),
				Wrap::Vector(i, n) => out.extend(among(i as usize, n as usize)),
				Wrap::List(i, n) => {
					out.push(false);
					out.extend(among(i as usize, n as usize));
				}
			}
		}
		out
	}
	/// The whole tree around a subtree.
	pub fn around<K: Kit<V = Value>>(&self, r: &Ref<K>, inner: T<Value>) -> T<Value> {
		let mut t = inner;
		let mut salt = self.others;
		let mut leaf = || {
			salt += if self.others == 0 { 0 } else { 1 };
			T::Leaf(Value::of(&bytes_of(salt, 32)))
		};
		for w in self.wraps.iter().rev() {
			t = match *w {
				Wrap::Raw(p) => {
					let mut around: T<Value> = T::zero();
					for (depth, bits) in [(2, 0), (3, 5), (1, 1), (4, 11)] {
						around = around.with(&Path { depth, bits }.steps(), leaf());
					}
					around.with(&p.steps(), t)
				}
				Wrap::Vector(i, n) | Wrap::List(i, n) => {
					let elems: Vec<T<Value>> = (0..n).map(|k| if k == i { t.clone() } else { leaf() }).collect();
					let items = r.seq(&elems, depth_for(n as u128));
					match w {
						Wrap::List(..) => T::node(items, Ref::<K>::len_leaf(n as u64)),
						_ => items,
					}
				}
			};
		}
		t
	}
}

/// A backend in which a tree is owned.
pub fn live<K: Kit>(t: &T<K::V>) -> Mem<K> {
	fn go<K: Kit>(t: &T<K::V>, seen: &mut std::collections::HashSet<K::V>, db: &mut Db<'_, K::C>) {
		if let Some((l, r)) = t.kids() {
			if seen.insert(t.hash()) {
				go::<K>(l, seen, db);
				go::<K>(r, seen, db);
				db.0.insert(t.hash(), (l.hash(), r.hash())).unwrap();
			}
		}
	}
	let mut mem = Mem::<K>::default();
	on::<K, _>(&mut mem, |db| {
		go::<K>(t, &mut Default::default(), db);
		db.0.rootify(&t.hash()).unwrap();
	});
	mem
}

/// Only the nodes on the way to some places.
pub fn pruned<K: Kit<V = Value>>(t: &T<Value>, paths: &[Vec<bool>]) -> Mem<K> {
	let mut nodes = Map::new();
	for p in paths {
		for d in 0..p.len() {
			if let Some(sub) = t.at(&p[..d]) {
				if let Some((l, r)) = sub.kids() {
					nodes.insert(sub.hash(), (l.hash(), r.hash()));
				}
			}
		}
	}
	frozen::<K>(&nodes)
}

pub fn joined(a: &[bool], b: Vec<bool>) -> Vec<bool> {
	let mut p = a.to_vec();
	p.extend(b);
	p
}

// ------------------------------------------------ structs

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pop {
	Set(u8, Vec<u8>),
	Get(u8),
	Fetch(u8),
	Flush,
	Renew,
	/// Assignment and flush through another handle.
	Other(u8, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parts {
	kit: u8,
	owned: bool,
	ty: u8,
	place: Place,
	init: Vec<u8>,
	ops: Vec<Pop>,
	#[serde(default)]
	cuts: Vec<u8>,
}

pub fn source() -> impl Strategy<Value = Vec<u8>> {
	prop_oneof![1 => Just(vec![]), 4 => proptest::collection::vec(any::<u8>(), 1..60)]
}

fn parts(thorough: bool) -> BoxedStrategy<Parts> {
	let n = if thorough { 30 } else { 12 };
	let op = prop_oneof![
		6 => (any::<u8>(), source()).prop_map(|(n, b)| Pop::Set(n, b)),
		4 => any::<u8>().prop_map(Pop::Get),
		1 => any::<u8>().prop_map(Pop::Fetch),
		4 => Just(Pop::Flush),
		1 => Just(Pop::Renew),
		2 => (any::<u8>(), source()).prop_map(|(n, b)| Pop::Other(n, b)),
	];
	(0u8..2, any::<bool>(), 0..TYPES, place(), source(), proptest::collection::vec(op, 1..n), proptest::collection::vec(1u8..12, 0..3))
		.prop_map(|(kit, owned, ty, place, init, ops, cuts)| Parts { kit, owned, ty, place, init, ops, cuts })
		.boxed()
}

fn parts_check(c: &Parts, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => with_pa!(c.ty, P => if c.owned {
		parts_go::<K, P, Owned>(c, ctx)
	} else {
		parts_go::<K, P, Dangling>(c, ctx)
	}))
}

pub fn whole<K: Kit<V = Value>>(t: &T<Value>, owned: bool) -> Mem<K> {
	if owned { live::<K>(t) } else { frozen::<K>(&t.nodes()) }
}

fn reencoded<K: Kit<V = Value>, X: IntoTree>(v: &X, want: &T<Value>) -> Res
where
	K::C: CompatibleConstruct,
{
	let mut noop = bm::NoopBackend::<K::C>::default();
	let root = v.into_tree(&mut Db(&mut E(&mut noop))).map_err(|e| format!("re-encoding: {:?}", e))?;
	ensure!(root == want.hash(), "re-encoding gives {:?} instead of {:?}", root, want.hash());
	Ok(())
}

fn parts_go<K: Kit<V = Value>, P: Pa, S: RootStatus>(c: &Parts, ctx: &mut Ctx) -> Res
where
	K::C: CompatibleConstruct,
	Raw<S, K::C>: Leak<Metadata = Value> + Tree<RootStatus = S, Construct = K::C>,
{
	let r = Ref::<K>::new();
	let mut cur = P::make(&mut Src::new(&c.init));
	let steps = c.place.steps();
	let index = c.place.index();
	let all = |v: &P| c.place.around::<K>(&r, v.tree::<K>(&r));
	let mut t = all(&cur);
	let mut mem = whole::<K>(&t, c.owned);
	let mut raw = Raw::<S, K::C>::from_leaked(t.hash());
	let mut p = <P::Value as PartialItem>::new(index.clone());
	let words = P::words();
	let mut shadow = cur.clone();
	let mut set = vec![false; words];
	let (mut flushes, mut sets) = (0, 0);
	for (k, op) in c.ops.iter().enumerate() {
		let at = |m: String| format!("op {} {:?}: {}", k, op, m);
		let word = |n: u8| n as usize % words.max(1);
		match op {
			_ if words == 0 => (),
			Pop::Set(n, bytes) => {
				let n = word(*n);
				let new = P::make(&mut Src::new(bytes));
				P::pset(&mut p, n, &new);
				shadow.copy(n, &new);
				set[n] = true;
				sets += 1;
			}
			Pop::Get(n) | Pop::Fetch(n) => {
				let n = word(*n);
				let fetch = matches!(op, Pop::Fetch(_));
				if fetch || !set[n] {
					shadow.copy(n, &cur);
					set[n] = true;
					// With nothing but the nodes on the way.
					let mut few = pruned::<K>(&t, &[joined(&steps, P::path(n))]);
					let lone = Raw::<Dangling, K::C>::from_leaked(t.hash());
					let mut p = <P::Value as PartialItem>::new(index.clone());
					let got = on::<K, _>(&mut few, |db| P::pget::<K, _>(&mut p, n, &lone, db))
						.map_err(|e| at(format!("word {} with only its path: {:?}", n, e)))?;
					ensure!(got == cur.word(n), "{}", at(format!("word {} with only its path is {}", n, hex(&got))));
				}
				if fetch {
					on::<K, _>(&mut mem, |db| P::pfetch::<K, S>(&mut p, n, &raw, db)).map_err(|e| at(format!("{:?}", e)))?;
				}
				let got = on::<K, _>(&mut mem, |db| P::pget::<K, S>(&mut p, n, &raw, db)).map_err(|e| at(format!("{:?}", e)))?;
				ensure!(got == shadow.word(n), "{}", at(format!("word {} is {} instead of {}", n, hex(&got), hex(&shadow.word(n)))));
			}
			Pop::Flush => {
				let todo: Vec<usize> = (0..words).filter(|n| set[*n]).collect();
				let before = t.clone();
				for n in &todo {
					cur.copy(*n, &shadow);
				}
				set = vec![false; words];
				t = all(&cur);
				on::<K, _>(&mut mem, |db| p.flush(&mut raw, db)).map_err(|e| at(format!("{:?}", e)))?;
				ensure!(raw.root() == t.hash(), "{}", at(format!("root {:?} instead of {:?}", raw.root(), t.hash())));
				on::<K, _>(&mut mem, |db| fully_readable(db, &t)).map_err(at)?;
				reencoded::<K, P>(&cur, &cur.tree::<K>(&r)).map_err(at)?;
				// Once more, which must do nothing.
				let stored = mem.as_ref().clone();
				on::<K, _>(&mut mem, |db| p.flush(&mut raw, db)).map_err(|e| at(format!("again: {:?}", e)))?;
				ensure!(raw.root() == t.hash() && mem.as_ref() == &stored, "{}", at("flushing again changes something".into()));
				if !todo.is_empty() {
					flushes += 1;
					let paths: Vec<_> = todo.iter().map(|n| joined(&steps, P::path(*n))).collect();
					let mut few = pruned::<K>(&before, &paths);
					let mut lone = Raw::<Dangling, K::C>::from_leaked(before.hash());
					let mut p = <P::Value as PartialItem>::new(index.clone());
					for n in &todo {
						P::pset(&mut p, *n, &shadow);
					}
					on::<K, _>(&mut few, |db| p.flush(&mut lone, db)).map_err(|e| at(format!("with only the needed paths: {:?}", e)))?;
					ensure!(lone.root() == t.hash(), "{}", at("another root with only the needed paths".into()));
					ctx.label("flushed");
				}
			}
			Pop::Renew => {
				p = <P::Value as PartialItem>::new(index.clone());
				set = vec![false; words];
			}
			Pop::Other(n, _) if set[word(*n)] => (),
			Pop::Other(n, bytes) => {
				let n = word(*n);
				let new = P::make(&mut Src::new(bytes));
				let mut other = <P::Value as PartialItem>::new(index.clone());
				P::pset(&mut other, n, &new);
				on::<K, _>(&mut mem, |db| other.flush(&mut raw, db)).map_err(|e| at(format!("{:?}", e)))?;
				cur.copy(n, &new);
				t = all(&cur);
				ctx.label("another handle in between");
			}
		}
		ensure!(raw.root() == t.hash(), "{}", at(format!("the root became {:?}", raw.root())));
	}
	if flushes > 0 && sets > 0 && words > 1 {
		ctx.hit();
	}
	Ok(())
}

fn parts_all(_t: bool) -> Vec<Parts> {
	let mut out = vec![];
	let places = [
		vec![],
		vec![Wrap::Raw(Path { depth: 3, bits: 6 })],
		vec![Wrap::List(2, 3)],
		vec![Wrap::Vector(4, 5), Wrap::Raw(Path { depth: 17, bits: 0x1A5A5 })],
	];
	for kit in 0..2 {
		for owned in [false, true] {
			for ty in 0..TYPES {
				for wraps in &places {
					let words = with_pa!(ty, P => P::words()) as u8;
					for init in [vec![], vec![200, 3, 9, 201, 1, 0, 202, 7, 7, 203, 5, 1, 204, 8, 2]] {
						for a in 0..words {
							let place = Place { wraps: wraps.clone(), others: 11 };
							let bytes: Vec<u8> = (0..words).flat_map(|w| vec![150, w + 1, a + 1, w & 1]).collect();
							let mut ops = vec![Pop::Get(a), Pop::Renew, Pop::Set(a, bytes.clone()), Pop::Flush, Pop::Get(a)];
							for b in 0..words {
								ops.push(Pop::Renew);
								ops.push(Pop::Get(b));
							}
							ops.extend([Pop::Renew, Pop::Set((a + 1) % words, bytes.clone()), Pop::Set(a, vec![]), Pop::Flush, Pop::Other(a, bytes.clone()), Pop::Flush]);
							out.push(Parts { kit, owned, ty, place, init: init.clone(), ops, cuts: vec![] });
						}
					}
				}
			}
		}
	}
	out
}

// ------------------------------------------------ recorded sessions

fn session<K: Kit<V = Value>, P: Pa, S: RootStatus>(c: &Parts, ctx: &mut Ctx, replay: bool) -> Res
where
	K::C: CompatibleConstruct,
	Raw<S, K::C>: Leak<Metadata = Value> + Tree<RootStatus = S, Construct = K::C>,
{
	if P::words() == 0 {
		return Ok(());
	}
	let r = Ref::<K>::new();
	let t = c.place.around::<K>(&r, P::make(&mut Src::new(&c.init)).tree::<K>(&r));
	let base = whole::<K>(&t, c.owned);
	type St<K, P, S> = (Raw<S, <K as Kit>::C>, <P as Partialable>::Value);
	let start = || (Raw::<S, K::C>::from_leaked(t.hash()), <P::Value as PartialItem>::new(c.place.index()));
	let ses = Session::<K, St<K, P, S>> {
		start: &start,
		step: &|(raw, p), db, n| {
			let word = |n: u8| n as usize % P::words();
			let a = match &c.ops[n] {
				Pop::Set(n, bytes) => {
					P::pset(p, word(*n), &P::make(&mut Src::new(bytes)));
					String::new()
				}
				Pop::Get(n) => format!("{:?}", P::pget::<K, S>(p, word(*n), raw, db)),
				Pop::Fetch(n) => format!("{:?}", P::pfetch::<K, S>(p, word(*n), raw, db)),
				Pop::Flush => format!("{:?}", p.flush(raw, db)),
				Pop::Renew => {
					*p = <P::Value as PartialItem>::new(c.place.index());
					String::new()
				}
				Pop::Other(n, bytes) => {
					let mut other = <P::Value as PartialItem>::new(c.place.index());
					P::pset(&mut other, word(*n), &P::make(&mut Src::new(bytes)));
					format!("{:?}", other.flush(raw, db))
				}
			};
			format!("{} -> {:?}", a, raw.root())
		},
		steps: c.ops.len(),
		cuts: c.cuts.iter().map(|c| *c as usize).collect(),
	};
	if replay {
		check_replay(&base, &[t.hash()], &ses, ctx)
	} else {
		check_transparent(&base, &ses, ctx)
	}
}

fn either(c: &Parts, ctx: &mut Ctx, replay: bool) -> Res {
	with_zk!(c.kit, K => with_pa!(c.ty, P => if c.owned {
		session::<K, P, Owned>(c, ctx, replay)
	} else {
		session::<K, P, Dangling>(c, ctx, replay)
	}))
}

fn parts_replay(c: &Parts, ctx: &mut Ctx) -> Res {
	either(c, ctx, true)
}
fn parts_transparent(c: &Parts, ctx: &mut Ctx) -> Res {
	either(c, ctx, false)
}

/// Sessions of partial updates, for C10.
pub fn replay_part() -> Box<dyn Part> {
	Box::new(Random { name: "partial sessions", quick: 80_000, thorough: 1_200_000, strategy: parts, check: parts_replay })
}
/// Sessions of partial updates, for C22.
pub fn transparent_part() -> Box<dyn Part> {
	Box::new(Random { name: "partial sessions", quick: 80_000, thorough: 1_200_000, strategy: parts, check: parts_transparent })
}

// ------------------------------------------------ lists

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Ix {
	/// Relative to the stored length.
	In(u8),
	/// Beyond the stored length.
	Past(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Lop {
	Set(Ix, u8, Vec<u8>),
	Get(Ix, u8),
	Push(Vec<u8>),
	Flush,
	Renew,
	/// Assignment or push through another handle.
	OtherSet(u8, u8, Vec<u8>),
	OtherPush(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lists {
	kit: u8,
	owned: bool,
	ty: u8,
	place: Place,
	len: u8,
	init: Vec<u8>,
	ops: Vec<Lop>,
}

fn lists(thorough: bool) -> BoxedStrategy<Lists> {
	let n = if thorough { 30 } else { 14 };
	let past = prop_oneof![4 => 0u64..4, 1 => Just(1 << 20), 1 => any::<u64>(), 1 => Just(u64::MAX)];
	let at = prop_oneof![12 => any::<u8>().prop_map(Ix::In), 1 => past.prop_map(Ix::Past)];
	let op = prop_oneof![
		5 => (at.clone(), any::<u8>(), source()).prop_map(|(i, n, b)| Lop::Set(i, n, b)),
		4 => (at, any::<u8>()).prop_map(|(i, n)| Lop::Get(i, n)),
		4 => source().prop_map(Lop::Push),
		4 => Just(Lop::Flush),
		1 => Just(Lop::Renew),
		1 => (any::<u8>(), any::<u8>(), source()).prop_map(|(i, n, b)| Lop::OtherSet(i, n, b)),
		1 => source().prop_map(Lop::OtherPush),
	];
	let len = prop_oneof![3 => 0u8..6, 2 => 0u8..35];
	(0u8..2, any::<bool>(), 0..TYPES, place(), len, source(), proptest::collection::vec(op, 1..n))
		.prop_map(|(kit, owned, ty, place, len, init, ops)| Lists { kit, owned, ty, place, len, init, ops })
		.boxed()
}

fn lists_check(c: &Lists, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => with_pa!(c.ty, P => if c.owned {
		lists_go::<K, P, Owned>(c, ctx)
	} else {
		lists_go::<K, P, Dangling>(c, ctx)
	}))
}

pub fn list_tree<K: Kit<V = Value>, P: Pa>(r: &Ref<K>, v: &[P]) -> T<Value> {
	let elems: Vec<T<Value>> = v.iter().map(|e| e.tree::<K>(r)).collect();
	T::node(r.seq(&elems, depth_for(elems.len() as u128)), Ref::<K>::len_leaf(elems.len() as u64))
}

fn lists_go<K: Kit<V = Value>, P: Pa, S: RootStatus>(c: &Lists, ctx: &mut Ctx) -> Res
where
	K::C: CompatibleConstruct,
	Raw<S, K::C>: Leak<Metadata = Value> + Tree<RootStatus = S, Construct = K::C>,
{
	let words = P::words();
	if words == 0 {
		return Ok(());
	}
	let r = Ref::<K>::new();
	let mut cur: Vec<P> = {
		let mut s = Src::new(&c.init);
		(0..c.len).map(|_| P::make(&mut s)).collect()
	};
	let steps = c.place.steps();
	let target = steps.iter().fold(bm::Index::root(), |i, b| if *b { i.right() } else { i.left() });
	let index = c.place.index();
	let all = |v: &[P]| c.place.around::<K>(&r, list_tree::<K, P>(&r, v));
	let mut t = all(&cur);
	let mut mem = whole::<K>(&t, c.owned);
	let mut raw = Raw::<S, K::C>::from_leaked(t.hash());
	let fresh = || <PartialVec<P> as PartialItem>::new(index.clone());
	let mut p = fresh();
	// What is assigned or cached: a value and which of its words.
	let mut shadow: BTreeMap<usize, (P, Vec<bool>)> = BTreeMap::new();
	let mut pushed: Vec<P> = vec![];
	let blank = P::make(&mut Src::new(&[]));
	let (mut sets, mut grown) = (0, 0);
	for (k, op) in c.ops.iter().enumerate() {
		let at = |m: String| format!("op {} {:?}: {}", k, op, m);
		let len = cur.len();
		let place_of = |i: Ix| match i {
			Ix::In(i) if len > 0 => i as usize % len,
			Ix::In(_) => 0,
			Ix::Past(by) => (len as u64).saturating_add(by) as usize,
		};
		match op {
			Lop::Set(i, n, bytes) => {
				let (i, n) = (place_of(*i), *n as usize % words);
				let new = P::make(&mut Src::new(bytes));
				P::pset(p.at(i), n, &new);
				let e = shadow.entry(i).or_insert_with(|| (blank.clone(), vec![false; words]));
				e.0.copy(n, &new);
				e.1[n] = true;
				sets += 1;
			}
			Lop::Get(i, n) => {
				let (i, n) = (place_of(*i), *n as usize % words);
				let got = on::<K, _>(&mut mem, |db| P::pget::<K, S>(p.at(i), n, &raw, db));
				let known = shadow.get(&i).map(|e| e.1[n]).unwrap_or(false);
				if i < len || known {
					let e = shadow.entry(i).or_insert_with(|| (blank.clone(), vec![false; words]));
					if !known {
						e.0.copy(n, &cur[i]);
						e.1[n] = true;
					}
					let got = got.map_err(|e| at(format!("{:?}", e)))?;
					ensure!(got == e.0.word(n), "{}", at(format!("element {} of {} reads {}", i, len, hex(&got))));
				} else {
					ensure!(got.is_err(), "{}", at(format!("element {} of {} reads {:?}", i, len, got)));
					ctx.label("read past the end");
				}
			}
			Lop::Push(bytes) => {
				let new = P::make(&mut Src::new(bytes));
				p.push(new.clone());
				pushed.push(new);
			}
			Lop::Flush => {
				let past = shadow.keys().any(|i| *i >= len);
				let got = on::<K, _>(&mut mem, |db| p.flush(&mut raw, db));
				if past {
					ctx.label("flushed past the end");
					ensure!(got.is_err(), "{}", at(format!("an element past the end {} is written", len)));
					// Some assignments may have been made, but nothing else.
					let sub = on::<K, _>(&mut mem, |db| raw.get(db, target)).map_err(|e| at(format!("{:?}", e)))?.ok_or("the list is gone")?;
					let now = on::<K, _>(&mut mem, |db| Vec::<P>::from_tree(&sub, db)).map_err(|e| at(format!("the list is broken: {:?}", e)))?;
					ensure!(now.len() >= len && now.len() <= len + pushed.len(), "{}", at(format!("the length becomes {}", now.len())));
					for (i, e) in now.iter().enumerate() {
						for n in 0..words {
							let ok = if i >= len {
								e.word(n) == pushed[i - len].word(n)
							} else {
								e.word(n) == cur[i].word(n)
									|| shadow.get(&i).map(|s| s.1[n] && s.0.word(n) == e.word(n)).unwrap_or(false)
							};
							ensure!(ok, "{}", at(format!("word {} of element {} becomes {}", n, i, hex(&e.word(n)))));
						}
					}
					cur = now;
					p = fresh();
				} else {
					got.map_err(|e| at(format!("{:?}", e)))?;
					for (i, (v, set)) in &shadow {
						for n in (0..words).filter(|n| set[*n]) {
							cur[*i].copy(n, v);
						}
					}
					grown += pushed.len();
					if !pushed.is_empty() {
						ctx.label("pushed");
					}
					cur.extend(pushed.iter().cloned());
				}
				shadow.clear();
				pushed.clear();
				t = all(&cur);
				ensure!(raw.root() == t.hash(), "{}", at(format!("root {:?} instead of {:?}", raw.root(), t.hash())));
				on::<K, _>(&mut mem, |db| fully_readable(db, &t)).map_err(at)?;
				reencoded::<K, Vec<P>>(&cur, &list_tree::<K, P>(&r, &cur)).map_err(at)?;
				let stored = mem.as_ref().clone();
				on::<K, _>(&mut mem, |db| p.flush(&mut raw, db)).map_err(|e| at(format!("again: {:?}", e)))?;
				ensure!(raw.root() == t.hash() && mem.as_ref() == &stored, "{}", at("flushing again changes something".into()));
			}
			Lop::Renew => {
				p = fresh();
				shadow.clear();
				pushed.clear();
			}
			Lop::OtherSet(i, n, _) if len == 0 || shadow.get(&(*i as usize % len)).map(|e| e.1[*n as usize % words]).unwrap_or(false) => (),
			Lop::OtherSet(i, n, bytes) => {
				let (i, n) = (*i as usize % len, *n as usize % words);
				let new = P::make(&mut Src::new(bytes));
				let mut other = fresh();
				P::pset(other.at(i), n, &new);
				on::<K, _>(&mut mem, |db| other.flush(&mut raw, db)).map_err(|e| at(format!("{:?}", e)))?;
				cur[i].copy(n, &new);
				t = all(&cur);
				ctx.label("another handle in between");
			}
			Lop::OtherPush(bytes) => {
				let new = P::make(&mut Src::new(bytes));
				let mut other = fresh();
				other.push(new.clone());
				on::<K, _>(&mut mem, |db| other.flush(&mut raw, db)).map_err(|e| at(format!("{:?}", e)))?;
				cur.push(new);
				t = all(&cur);
				ctx.label("another handle in between");
			}
		}
		ensure!(raw.root() == t.hash(), "{}", at(format!("the root became {:?}", raw.root())));
	}
	// Every element, and those just past the end, on fresh handles.
	for i in 0..cur.len() + 3 {
		let n = i % words;
		let mut p = fresh();
		let got = on::<K, _>(&mut mem, |db| P::pget::<K, S>(p.at(i), n, &raw, db));
		match cur.get(i) {
			Some(e) => {
				let got = got.map_err(|e| format!("in the end, element {}: {:?}", i, e))?;
				ensure!(got == e.word(n), "in the end, element {} reads {}", i, hex(&got));
			}
			None => ensure!(got.is_err(), "in the end, element {} of {} reads {:?}", i, cur.len(), got),
		}
	}
	if sets > 0 && grown > 0 {
		ctx.hit();
	}
	Ok(())
}

fn lists_all(thorough: bool) -> Vec<Lists> {
	let mut out = vec![];
	let places = [vec![], vec![Wrap::Raw(Path { depth: 4, bits: 9 })], vec![Wrap::List(1, 4)]];
	for kit in 0..2 {
		for owned in [false, true] {
			for ty in [1, 3, 4, 12] {
				for wraps in &places {
					for len in 0..if thorough { 40 } else { 18u8 } {
						let init: Vec<u8> = (0..200).map(|k| if k % 4 == 0 { 180 } else { k as u8 }).collect();
						let case = |ops| Lists { kit, owned, ty, place: Place { wraps: wraps.clone(), others: 5 }, len, init: init.clone(), ops };
						for by in [0, 1, 2, 5, 1000, u64::MAX] {
							out.push(case(vec![Lop::Get(Ix::Past(by), 0)]));
							out.push(case(vec![Lop::Set(Ix::Past(by), 0, vec![150, 1, 2, 0]), Lop::Flush]));
						}
						for pushes in 1..5 {
							let mut ops = vec![];
							if len > 0 {
								ops.push(Lop::Set(Ix::In(len - 1), 0, vec![150, 9, 9, 1]));
							}
							for k in 0..pushes {
								ops.push(Lop::Push(vec![150, k + 1, 5, 0, 151, k, 8, 1]));
							}
							ops.push(Lop::Flush);
							out.push(case(ops));
						}
						for i in 0..len {
							out.push(case(vec![Lop::Set(Ix::In(i), 0, vec![150, 9, 9, 1]), Lop::Flush]));
						}
					}
				}
			}
		}
	}
	out
}

// ------------------------------------------------ only the way to an element

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Way {
	kit: u8,
	owned: bool,
	ty: u8,
	place: Place,
	len: u8,
	init: Vec<u8>,
	at: u8,
	word: u8,
	/// What to assign, or to push.
	new: Option<(bool, Vec<u8>)>,
}

fn ways(_t: bool) -> BoxedStrategy<Way> {
	let new = proptest::option::of((any::<bool>(), source()));
	(0u8..2, any::<bool>(), 0..TYPES, place(), 0u8..70, source(), (any::<u8>(), any::<u8>()), new)
		.prop_map(|(kit, owned, ty, place, len, init, (at, word), new)| Way { kit, owned, ty, place, len, init, at, word, new })
		.boxed()
}

fn ways_check(c: &Way, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => with_pa!(c.ty, P => if c.owned {
		ways_go::<K, P, Owned>(c, ctx)
	} else {
		ways_go::<K, P, Dangling>(c, ctx)
	}))
}

fn ways_go<K: Kit<V = Value>, P: Pa, S: RootStatus>(c: &Way, ctx: &mut Ctx) -> Res
where
	K::C: CompatibleConstruct,
	Raw<S, K::C>: Leak<Metadata = Value> + Tree<RootStatus = S, Construct = K::C>,
{
	let words = P::words();
	let push = matches!(c.new, Some((true, _)));
	if words == 0 || c.len == 0 && !push {
		return Ok(());
	}
	let r = Ref::<K>::new();
	let mut s = Src::new(&c.init);
	let mut cur: Vec<P> = (0..c.len).map(|_| P::make(&mut s)).collect();
	let all = |v: &[P]| c.place.around::<K>(&r, list_tree::<K, P>(&r, v));
	let t = all(&cur);
	let (n, word) = (cur.len(), c.word as usize % words);
	let i = if push { n } else { c.at as usize % n };
	let steps = c.place.steps();
	let mut way = joined(&steps, vec![false]);
	let depth = depth_for(n as u128);
	way.extend((0..depth).rev().map(|k| i >> k & 1 == 1));
	if !push {
		way.extend(P::path(word));
	}
	let length = joined(&steps, vec![true]);
	// The places of the lists around this one need their lengths, too.
	let mut paths = vec![way, length];
	let mut so_far = vec![];
	for w in &c.place.wraps {
		if let Wrap::List(..) = w {
			paths.push(joined(&so_far, vec![true]));
		}
		so_far.extend(Place { wraps: vec![w.clone()], others: 0 }.steps());
	}
	let mut mem = pruned::<K>(&t, &paths);
	let mut raw = Raw::<S, K::C>::from_leaked(t.hash());
	let mut p = <PartialVec<P> as PartialItem>::new(c.place.index());
	match &c.new {
		None => {
			let got = on::<K, _>(&mut mem, |db| P::pget::<K, S>(p.at(i), word, &raw, db));
			ensure!(got.as_ref().ok() == Some(&cur[i].word(word)), "element {} of {} reads {:?} where only the way to it is stored", i, n, got);
			ctx.label("read");
		}
		Some((_, bytes)) => {
			let new = P::make(&mut Src::new(bytes));
			if push {
				p.push(new.clone());
				cur.push(new);
				ctx.label("push");
			} else {
				P::pset(p.at(i), word, &new);
				cur[i].copy(word, &new);
				ctx.label("assignment");
			}
			on::<K, _>(&mut mem, |db| p.flush(&mut raw, db)).map_err(|e| format!("flushing element {} of {} where only the way to it is stored: {:?}", i, n, e))?;
			ensure!(raw.root() == all(&cur).hash(), "flushing element {} of {} where only the way to it is stored gives another root", i, n);
		}
	}
	if n > 8 {
		ctx.hit();
	}
	Ok(())
}

/// Partial lists on a backend that holds only what an operation needs, for C23.
pub fn local_part() -> Box<dyn Part> {
	Box::new(Random { name: "partial lists", quick: 100_000, thorough: 800_000, strategy: ways, check: ways_check })
}

pub fn properties() -> Vec<Property> {
	vec![
		Property {
			id: "C13",
			level: "exploration",
			rule: "Random sequences of partial reads, assignments, flushes and fresh handles over sixteen partial types (up to 17 fields, nested five deep) at random subtrees (raw indices of depth up to 40, inside vectors and lists), owned and dangling, in both constructs; after every flush the root is compared with an independent re-encoding, the tree is walked, and reads and flushes are repeated on a backend holding only the paths they need. Non-trivial: an assignment and a flush that writes, on a type with more than one word. Plus every word of every type at four places.",
			assumptions: &["no hash collisions", "no other handle changes a field this handle has read or assigned since its last flush"],
			parts: vec![
				Box::new(Random { name: "structs", quick: 400_000, thorough: 1_200_000, strategy: parts, check: parts_check }),
				Box::new(Exhaustive { name: "every word", all: parts_all, check: parts_check }),
			],
			known: no_known,
		},
		Property {
			id: "C14",
			level: "exploration",
			rule: "Random sequences of partial element reads and assignments (also past the end), pushes and flushes over lists of fifteen element types at random subtrees; root compared with an independent re-encoding after every flush, every element read back at the end. Non-trivial: an assignment and a flushed push. Plus lengths 0 to 17 with every single assignment, one to four pushes, and accesses past the end.",
			assumptions: &["no hash collisions", "after a failed flush a fresh handle is used", "no other handle changes what this handle has read or assigned since its last flush"],
			parts: vec![
				Box::new(Random { name: "lists", quick: 150_000, thorough: 1_200_000, strategy: lists, check: lists_check }),
				Box::new(Exhaustive { name: "every length", all: lists_all, check: lists_check }),
				crate::plist::far_part(),
				crate::plist::nested_part(),
			],
			known: no_known,
		},
	]
}
