//! C14: partial lists of up to 2^50 elements, and partial lists within partial structs and lists.

use crate::base::*;
use crate::far::{at, lens, At};
use crate::part::*;
use crate::run::*;
use crate::zoo::{with_zk, Src};
use bm::{Dangling, Error, Leak, Owned, Raw, ReadBackend, RootStatus, Tree, WriteBackend};
use bm_le::{CompatibleConstruct, FromTree, IntoTree, PartialItem, PartialVec, Partialable, Value};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type Val_<DB> = <<DB as bm::Backend>::Construct as bm::Construct>::Value;

// ------------------------------------------------ far lists

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Lop {
	Set(At, u8, Vec<u8>),
	Get(At, u8),
	Push(Vec<u8>),
	Flush,
	Renew,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
	kit: u8,
	owned: bool,
	ty: u8,
	place: Place,
	len: u64,
	seeds: Vec<(At, Vec<u8>)>,
	ops: Vec<Lop>,
	/// The list may be longer than indices reach at its place.
	#[serde(default)]
	deep: bool,
}

fn far(thorough: bool) -> BoxedStrategy<Far> {
	let n = if thorough { 24 } else { 12 };
	let op = prop_oneof![
		5 => (at(), any::<u8>(), source()).prop_map(|(i, n, b)| Lop::Set(i, n, b)),
		4 => (at(), any::<u8>()).prop_map(|(i, n)| Lop::Get(i, n)),
		4 => source().prop_map(Lop::Push),
		5 => Just(Lop::Flush),
		1 => Just(Lop::Renew),
	];
	let seeds = proptest::collection::vec((at(), source()), 0..4);
	let len = prop_oneof![
		6 => lens().prop_map(|l| (l, false)),
		1 => lens().prop_map(|l| (l, true)),
		1 => (50u32..64, -6i64..7).prop_map(|(k, d)| ((1u64 << k).wrapping_add(d as u64), true)),
	];
	(0u8..2, any::<bool>(), 0..TYPES, place(), len, seeds, proptest::collection::vec(op, 1..n))
		.prop_map(|(kit, owned, ty, place, (len, deep), seeds, ops)| Far { kit, owned, ty, place, len, seeds, ops, deep })
		.boxed()
}

fn far_check(c: &Far, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => with_pa!(c.ty, P => if c.owned {
		far_go::<K, P, Owned>(c, ctx)
	} else {
		far_go::<K, P, Dangling>(c, ctx)
	}))
}

/// A list nearly all of whose elements are the same.
struct Sparse<'r, K: Kit<V = Value>, P: Pa> {
	r: &'r Ref<K>,
	len: u64,
	blank: P,
	elems: BTreeMap<u64, P>,
	/// Trees of 2^k blank elements.
	uniform: Vec<T<Value>>,
}

impl<'r, K: Kit<V = Value>, P: Pa> Sparse<'r, K, P> {
	fn new(r: &'r Ref<K>, len: u64, blank: P) -> Self {
		let mut uniform = vec![blank.tree::<K>(r)];
		for k in 0..64 {
			let t: T<Value> = uniform[k].clone();
			uniform.push(T::node(t.clone(), t));
		}
		Sparse { r, len, blank, elems: BTreeMap::new(), uniform }
	}
	fn get(&self, i: u64) -> &P {
		self.elems.get(&i).unwrap_or(&self.blank)
	}
	fn part(&self, base: u128, depth: usize) -> T<Value> {
		let end = base + (1 << depth);
		if base >= self.len as u128 {
			return self.r.empty(depth);
		}
		if end <= self.len as u128 && self.elems.range(base as u64..=(end - 1) as u64).next().is_none() {
			return self.uniform[depth].clone();
		}
		if depth == 0 {
			return self.get(base as u64).tree::<K>(self.r);
		}
		T::node(self.part(base, depth - 1), self.part(base + (1 << (depth - 1)), depth - 1))
	}
	fn tree(&self) -> T<Value> {
		T::node(self.part(0, depth_for(self.len as u128)), Ref::<K>::len_leaf(self.len))
	}
}

fn far_go<K: Kit<V = Value>, P: Pa, S: RootStatus>(c: &Far, ctx: &mut Ctx) -> Res
where
	K::C: CompatibleConstruct,
	Raw<S, K::C>: Leak<Metadata = Value> + Tree<RootStatus = S, Construct = K::C>,
{
	let words = P::words();
	if words == 0 {
		return Ok(());
	}
	let r = Ref::<K>::new();
	let steps = c.place.steps();
	let deepest = (0..words).map(|n| P::path(n).len()).max().unwrap();
	let room = 62usize.saturating_sub(steps.len() + deepest);
	let mut len = c.len.min(u64::MAX - 200);
	while !c.deep && depth_for(len as u128 + 100) > room {
		len /= 2;
	}
	let grows = depth_for(len as u128 + 100) <= room;
	let mut m = Sparse::<K, P>::new(&r, len, P::make(&mut Src::new(&[])));
	let mut used: Vec<u64> = vec![];
	for (a, bytes) in &c.seeds {
		let i = a.resolve(len, &used);
		if i < len {
			m.elems.insert(i, P::make(&mut Src::new(bytes)));
			used.push(i);
		}
	}
	let all = |m: &Sparse<K, P>| c.place.around::<K>(&r, m.tree());
	let mut t = all(&m);
	let mut mem = whole::<K>(&t, c.owned);
	let mut raw = Raw::<S, K::C>::from_leaked(t.hash());
	let fresh = || <PartialVec<P> as PartialItem>::new(c.place.index());
	// An index has room for 63 steps.
	let beyond = |m: &Sparse<K, P>, n: usize| steps.len() + 1 + depth_for(m.len as u128) + P::path(n).len() > 63;
	let mut p = fresh();
	let mut shadow: BTreeMap<u64, (P, Vec<bool>)> = BTreeMap::new();
	let mut pushed: Vec<P> = vec![];
	let (mut sets, mut grown) = (0, 0);
	for (k, op) in c.ops.iter().enumerate() {
		let at = |m: String| format!("op {} {:?}: {}", k, op, m);
		match op {
			Lop::Set(a, n, bytes) => {
				let (i, n) = (a.resolve(m.len, &used), *n as usize % words);
				if i >= m.len && k % 3 > 0 {
					continue;
				}
				let new = P::make(&mut Src::new(bytes));
				if i < m.len && beyond(&m, n) {
					let mut p = fresh();
					P::pset(p.at(i as usize), n, &new);
					let got = on::<K, _>(&mut mem, |db| p.flush(&mut raw, db));
					ensure!(got.is_err(), "{}", at(format!("element {} of {}, beyond the reach of indices, is written", i, m.len)));
					ensure!(raw.root() == t.hash(), "{}", at("an element beyond the reach of indices changes the root".into()));
					ctx.label("beyond the reach of indices");
					continue;
				}
				P::pset(p.at(i as usize), n, &new);
				let e = shadow.entry(i).or_insert_with(|| (m.blank.clone(), vec![false; words]));
				e.0.copy(n, &new);
				e.1[n] = true;
				used.push(i);
				sets += 1;
			}
			Lop::Get(a, n) => {
				let (i, n) = (a.resolve(m.len, &used), *n as usize % words);
				let got = on::<K, _>(&mut mem, |db| P::pget::<K, S>(p.at(i as usize), n, &raw, db));
				let known = shadow.get(&i).map(|e| e.1[n]).unwrap_or(false);
				if i < m.len && beyond(&m, n) {
					ensure!(got.is_err(), "{}", at(format!("element {} of {}, beyond the reach of indices, reads {:?}", i, m.len, got)));
					ctx.label("beyond the reach of indices");
				} else if i < m.len || known {
					let e = shadow.entry(i).or_insert_with(|| (m.blank.clone(), vec![false; words]));
					if !known {
						e.0.copy(n, m.get(i));
						e.1[n] = true;
					}
					let got = got.map_err(|e| at(format!("element {} of {}: {:?}", i, m.len, e)))?;
					ensure!(got == e.0.word(n), "{}", at(format!("element {} of {} reads {}", i, m.len, hex(&got))));
				} else {
					ensure!(got.is_err(), "{}", at(format!("element {} of {} reads {:?}", i, m.len, got)));
					ctx.label("read past the end");
				}
				used.push(i);
			}
			Lop::Push(_) if !grows => (),
			Lop::Push(bytes) => {
				let new = P::make(&mut Src::new(bytes));
				p.push(new.clone());
				pushed.push(new);
			}
			Lop::Flush => {
				let past = shadow.keys().any(|i| *i >= m.len);
				let got = on::<K, _>(&mut mem, |db| p.flush(&mut raw, db));
				if past {
					ctx.label("flushed past the end");
					ensure!(got.is_err(), "{}", at(format!("an element past the end {} is written", m.len)));
					// The rest of the tree is as it was, but for elements that were assigned.
					let sub = on::<K, _>(&mut mem, |db| raw.get(db, around_length(&steps))).map_err(|e| at(format!("{:?}", e)))?;
					ensure!(sub == Some(Ref::<K>::len_leaf(m.len).hash()), "{}", at(format!("the length became {:?}", sub)));
					return Ok(());
				}
				got.map_err(|e| at(format!("at length {}: {:?}", m.len, e)))?;
				for (i, (v, set)) in &shadow {
					let mut e = m.get(*i).clone();
					for n in (0..words).filter(|n| set[*n]) {
						e.copy(n, v);
					}
					m.elems.insert(*i, e);
				}
				for e in pushed.drain(..) {
					if m.len.is_power_of_two() {
						ctx.label("grown by a level");
					}
					used.push(m.len);
					m.elems.insert(m.len, e);
					m.len += 1;
					grown += 1;
				}
				shadow.clear();
				t = all(&m);
				ensure!(raw.root() == t.hash(), "{}", at(format!("at length {}: another root", m.len)));
				for i in used.iter().rev().take(6).flat_map(|i| [i.wrapping_sub(1), *i, i.wrapping_add(1)]) {
					let n = i as usize % words;
					let mut p = fresh();
					let got = on::<K, _>(&mut mem, |db| P::pget::<K, S>(p.at(i as usize), n, &raw, db));
					ctx.inner += 1;
					if i >= m.len || beyond(&m, n) {
						ensure!(got.is_err(), "{}", at(format!("element {} of {} reads {:?}", i, m.len, got)));
					} else {
						ensure!(got.as_ref().ok() == Some(&m.get(i).word(n)), "{}", at(format!("element {} of {} reads {:?}", i, m.len, got)));
					}
				}
			}
			Lop::Renew => {
				p = fresh();
				shadow.clear();
				pushed.clear();
			}
		}
		ensure!(raw.root() == t.hash(), "{}", at("another root".into()));
	}
	if m.len > 1 << 32 {
		ctx.label("more than 2^32 elements");
	}
	if sets + grown > 0 && m.len > 1 << 16 {
		ctx.hit();
	}
	Ok(())
}

fn around_length(steps: &[bool]) -> bm::Index {
	steps.iter().fold(bm::Index::root(), |i, b| if *b { i.right() } else { i.left() }).right()
}

pub fn far_part() -> Box<dyn Part> {
	Box::new(Random { name: "far lists", quick: 60_000, thorough: 600_000, strategy: far, check: far_check })
}

// ------------------------------------------------ lists within structs within lists

/// A list that can be partially updated as part of something else.
#[derive(Clone, Debug, PartialEq)]
pub struct Lst<P>(pub Vec<P>);

impl<P: IntoTree> IntoTree for Lst<P> {
	fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<Val_<DB>, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		self.0.into_tree(db)
	}
}
impl<P: FromTree> FromTree for Lst<P> {
	fn from_tree<DB: ReadBackend>(root: &Val_<DB>, db: &mut DB) -> Result<Self, Error<DB::Error>>
	where
		DB::Construct: CompatibleConstruct,
	{
		Vec::from_tree(root, db).map(Lst)
	}
}
impl<P: Partialable + IntoTree> Partialable for Lst<P> {
	type Value = PartialVec<P>;
}

#[derive(Clone, Debug, PartialEq, bm_le::IntoTree, bm_le::FromTree, bm_le::Partialable)]
pub struct Acc {
	a: u64,
	l: Lst<P3>,
	c: P2,
}

#[derive(Clone, Debug, PartialEq, bm_le::IntoTree, bm_le::FromTree, bm_le::Partialable)]
pub struct Top {
	n: u8,
	x: Lst<u16>,
	accs: Lst<Acc>,
	y: Lst<P5>,
	z: P2,
}

fn makes<P: Pa>(s: &mut Src) -> Vec<P> {
	let n = match s.u8() {
		m @ 0..=199 => m % 6,
		m => m % 18,
	};
	(0..n).map(|_| P::make(s)).collect()
}

impl Acc {
	fn make(s: &mut Src) -> Self {
		Acc { a: u64::make(s), l: Lst(makes(s)), c: P2::make(s) }
	}
	fn tree<K: Kit<V = Value>>(&self, r: &Ref<K>) -> T<Value> {
		r.seq(&[self.a.tree::<K>(r), list_tree::<K, P3>(r, &self.l.0), self.c.tree::<K>(r)], 2)
	}
}
impl Top {
	fn make(s: &mut Src) -> Self {
		let n = u8::make(s);
		let x = Lst(makes(s));
		let m = s.u8() % 7;
		let accs = Lst((0..m).map(|_| Acc::make(s)).collect());
		Top { n, x, accs, y: Lst(makes(s)), z: P2::make(s) }
	}
	fn tree<K: Kit<V = Value>>(&self, r: &Ref<K>) -> T<Value> {
		let accs: Vec<T<Value>> = self.accs.0.iter().map(|a| a.tree::<K>(r)).collect();
		let accs = T::node(r.seq(&accs, depth_for(accs.len() as u128)), Ref::<K>::len_leaf(accs.len() as u64));
		r.seq(
			&[
				self.n.tree::<K>(r),
				list_tree::<K, u16>(r, &self.x.0),
				accs,
				list_tree::<K, P5>(r, &self.y.0),
				self.z.tree::<K>(r),
			],
			3,
		)
	}
}

/// One of the places in a [`Top`].
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Spot {
	N,
	Z(u8),
	X(u8),
	Y(u8, u8),
	A(u8),
	C(u8, u8),
	L(u8, u8, u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Which {
	X,
	Y,
	Accs,
	L(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Nop {
	Set(Spot, Vec<u8>),
	Get(Spot),
	Push(Which, Vec<u8>),
	Flush,
	Renew,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nested {
	kit: u8,
	owned: bool,
	place: Place,
	init: Vec<u8>,
	ops: Vec<Nop>,
}

fn nested(thorough: bool) -> BoxedStrategy<Nested> {
	let b = any::<u8>;
	let spot = prop_oneof![
		1 => Just(Spot::N),
		1 => b().prop_map(Spot::Z),
		2 => b().prop_map(Spot::X),
		2 => (b(), b()).prop_map(|(i, n)| Spot::Y(i, n)),
		2 => b().prop_map(Spot::A),
		2 => (b(), b()).prop_map(|(i, n)| Spot::C(i, n)),
		4 => (b(), b(), b()).prop_map(|(i, j, n)| Spot::L(i, j, n)),
	];
	let which = prop_oneof![Just(Which::X), Just(Which::Y), Just(Which::Accs), b().prop_map(Which::L), b().prop_map(Which::L)];
	let bytes = || proptest::collection::vec(any::<u8>(), 0..40);
	let op = prop_oneof![
		6 => (spot.clone(), bytes()).prop_map(|(s, b)| Nop::Set(s, b)),
		4 => spot.prop_map(Nop::Get),
		5 => (which, bytes()).prop_map(|(w, b)| Nop::Push(w, b)),
		4 => Just(Nop::Flush),
		1 => Just(Nop::Renew),
	];
	let n = if thorough { 40 } else { 20 };
	(0u8..2, any::<bool>(), place(), proptest::collection::vec(any::<u8>(), 0..160), proptest::collection::vec(op, 1..n))
		.prop_map(|(kit, owned, place, init, ops)| Nested { kit, owned, place, init, ops })
		.boxed()
}

fn nested_check(c: &Nested, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => if c.owned { nested_go::<K, Owned>(c, ctx) } else { nested_go::<K, Dangling>(c, ctx) })
}

fn nested_go<K: Kit<V = Value>, S: RootStatus>(c: &Nested, ctx: &mut Ctx) -> Res
where
	K::C: CompatibleConstruct,
	Raw<S, K::C>: Leak<Metadata = Value> + Tree<RootStatus = S, Construct = K::C>,
{
	let r = Ref::<K>::new();
	let mut cur = Top::make(&mut Src::new(&c.init));
	let all = |v: &Top| c.place.around::<K>(&r, v.tree::<K>(&r));
	let mut t = all(&cur);
	let mut mem = whole::<K>(&t, c.owned);
	let mut raw = Raw::<S, K::C>::from_leaked(t.hash());
	let fresh = || <<Top as Partialable>::Value as PartialItem>::new(c.place.index());
	let mut p = fresh();
	// What is to be after the next flush, without the pushes; and those.
	let mut next = cur.clone();
	let mut pushed: Vec<(Which, Vec<u8>)> = vec![];
	let (mut sets, mut pushes, mut flushes) = (0, 0, 0);
	for (k, op) in c.ops.iter().enumerate() {
		let at = |m: String| format!("op {} {:?}: {}", k, op, m);
		let pick = |i: u8, n: usize| if n == 0 { None } else { Some(i as usize % n) };
		match op {
			Nop::Set(spot, bytes) => {
				let s = &mut Src::new(bytes);
				let (x, y, accs) = (cur.x.0.len(), cur.y.0.len(), cur.accs.0.len());
				match *spot {
					Spot::N => {
						next.n = u8::make(s);
						p.n.set(next.n);
					}
					Spot::Z(n) => {
						let v = P2::make(s);
						P2::pset(&mut p.z, n as usize % P2::words(), &v);
						next.z.copy(n as usize % P2::words(), &v);
					}
					Spot::X(i) => if let Some(i) = pick(i, x) {
						next.x.0[i] = u16::make(s);
						p.x.at(i).set(next.x.0[i]);
					}
					Spot::Y(i, n) => if let Some(i) = pick(i, y) {
						let (n, v) = (n as usize % P5::words(), P5::make(s));
						P5::pset(p.y.at(i), n, &v);
						next.y.0[i].copy(n, &v);
					}
					Spot::A(i) => if let Some(i) = pick(i, accs) {
						next.accs.0[i].a = u64::make(s);
						p.accs.at(i).a.set(next.accs.0[i].a);
					}
					Spot::C(i, n) => if let Some(i) = pick(i, accs) {
						let (n, v) = (n as usize % P2::words(), P2::make(s));
						P2::pset(&mut p.accs.at(i).c, n, &v);
						next.accs.0[i].c.copy(n, &v);
					}
					Spot::L(i, j, n) => if let Some(i) = pick(i, accs) {
						if let Some(j) = pick(j, cur.accs.0[i].l.0.len()) {
							let (n, v) = (n as usize % P3::words(), P3::make(s));
							P3::pset(p.accs.at(i).l.at(j), n, &v);
							next.accs.0[i].l.0[j].copy(n, &v);
							ctx.label("element of a list within a list");
						}
					}
				}
				sets += 1;
			}
			Nop::Get(spot) => {
				let (x, y, accs) = (cur.x.0.len(), cur.y.0.len(), cur.accs.0.len());
				let got = on::<K, _>(&mut mem, |db| Some(match *spot {
					Spot::N => (u8::pget::<K, S>(&mut p.n, 0, &raw, db), next.n.word(0)),
					Spot::Z(n) => {
						let n = n as usize % P2::words();
						(P2::pget::<K, S>(&mut p.z, n, &raw, db), next.z.word(n))
					}
					Spot::X(i) => {
						let i = pick(i, x)?;
						(u16::pget::<K, S>(p.x.at(i), 0, &raw, db), next.x.0[i].word(0))
					}
					Spot::Y(i, n) => {
						let (i, n) = (pick(i, y)?, n as usize % P5::words());
						(P5::pget::<K, S>(p.y.at(i), n, &raw, db), next.y.0[i].word(n))
					}
					Spot::A(i) => {
						let i = pick(i, accs)?;
						(u64::pget::<K, S>(&mut p.accs.at(i).a, 0, &raw, db), next.accs.0[i].a.word(0))
					}
					Spot::C(i, n) => {
						let (i, n) = (pick(i, accs)?, n as usize % P2::words());
						(P2::pget::<K, S>(&mut p.accs.at(i).c, n, &raw, db), next.accs.0[i].c.word(n))
					}
					Spot::L(i, j, n) => {
						let i = pick(i, accs)?;
						let (j, n) = (pick(j, cur.accs.0[i].l.0.len())?, n as usize % P3::words());
						(P3::pget::<K, S>(p.accs.at(i).l.at(j), n, &raw, db), next.accs.0[i].l.0[j].word(n))
					}
				}));
				if let Some((got, want)) = got {
					let got = got.map_err(|e| at(format!("{:?}", e)))?;
					ensure!(got == want, "{}", at(format!("reads {} instead of {}", hex(&got), hex(&want))));
				}
			}
			Nop::Push(which, bytes) => {
				let s = &mut Src::new(bytes);
				match *which {
					Which::X => p.x.push(u16::make(s)),
					Which::Y => p.y.push(P5::make(s)),
					Which::Accs => p.accs.push(Acc::make(s)),
					Which::L(i) => match pick(i, cur.accs.0.len()) {
						Some(i) => p.accs.at(i).l.push(P3::make(s)),
						None => continue,
					},
				}
				pushed.push((*which, bytes.clone()));
			}
			Nop::Flush => {
				let accs = cur.accs.0.len();
				for (which, bytes) in pushed.drain(..) {
					let s = &mut Src::new(&bytes);
					match which {
						Which::X => next.x.0.push(u16::make(s)),
						Which::Y => next.y.0.push(P5::make(s)),
						Which::Accs => next.accs.0.push(Acc::make(s)),
						Which::L(i) => {
							next.accs.0[i as usize % accs].l.0.push(P3::make(s));
							ctx.label("push to a list within a list");
						}
					}
					pushes += 1;
				}
				cur = next.clone();
				t = all(&cur);
				on::<K, _>(&mut mem, |db| p.flush(&mut raw, db)).map_err(|e| at(format!("{:?}", e)))?;
				ensure!(raw.root() == t.hash(), "{}", at(format!("root {:?} instead of {:?}", raw.root(), t.hash())));
				on::<K, _>(&mut mem, |db| fully_readable(db, &t)).map_err(at)?;
				let mut noop = bm::NoopBackend::<K::C>::default();
				let root = cur.into_tree(&mut Db(&mut E(&mut noop))).map_err(|e| at(format!("re-encoding: {:?}", e)))?;
				ensure!(root == cur.tree::<K>(&r).hash(), "{}", at("re-encoding gives another root".into()));
				flushes += 1;
			}
			Nop::Renew => {
				p = fresh();
				next = cur.clone();
				pushed.clear();
			}
		}
		ensure!(raw.root() == t.hash(), "{}", at(format!("the root became {:?}", raw.root())));
	}
	if flushes > 0 && sets > 0 && pushes > 0 {
		ctx.hit();
	}
	Ok(())
}

pub fn nested_part() -> Box<dyn Part> {
	Box::new(Random { name: "nested", quick: 60_000, thorough: 800_000, strategy: nested, check: nested_check })
}
