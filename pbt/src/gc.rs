//! C08, C09: owned trees sharing one garbage-collected in-memory backend.

use crate::base::*;
use crate::coll::*;
use crate::hist::{ix, val, El, Ix, Model, Op};
use crate::raw::{path, Path};
use crate::run::*;
use bm::{Error, Leak, OwnedRaw, Tree, WriteBackend};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum GOp {
	NewRaw,
	New { spec: Spec, init: u8, max: Option<u64> },
	/// A value written with vector_tree, then owned as a raw tree.
	Store(u8, u8),
	El(u8, Op),
	/// Make an element (or a raw position) of one tree the root of another tree.
	Put(u8, Ix, u8),
	RawSet(u8, Path, u8),
	RawCopy(u8, Path, Path),
	/// Take ownership a second time.
	Share(u8),
	/// Own a subtree of a raw tree.
	ShareSub(u8, Path),
	Reopen(u8, Reopen),
	/// Give up the collection's shape and go on with its raw tree.
	IntoRaw(u8),
	Drop(u8),
	/// Push the root of another tree many times, with different values in between.
	Crowd(u8, u8, u16),
	/// Many more owners of a tree, for a moment.
	Owners(u8, u16),
	/// Record a tree as permanent entries: a part of a living one, or one of its own.
	Populate(u8, Path, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
	kit: u8,
	/// Nodes of a tree recorded beforehand (permanent entries).
	before: Vec<u8>,
	ops: Vec<GOp>,
	/// Order of the final drops.
	order: u64,
}

fn small_max() -> impl Strategy<Value = Option<u64>> {
	prop_oneof![3 => Just(None), 3 => (1u64..20).prop_map(Some), 1 => (5u32..12).prop_map(|k| Some(1 << k)), 1 => (12u32..57, -1i64..2).prop_map(|(k, d)| Some(((1i64 << k) + d) as u64))]
}

fn gop(store: bool) -> impl Strategy<Value = GOp> {
	let s = || any::<u8>();
	let v = || 0u8..5;
	let kinds = &[Kind::Vector, Kind::List, Kind::PVec, Kind::PList];
	let el = prop_oneof![
		4 => (ix(), 0u16..5).prop_map(|(i, v)| Op::Set(i, v)),
		4 => (0u16..5).prop_map(Op::Push),
		4 => Just(Op::Pop),
		3 => (1u8..12, prop_oneof![Just(0u16), Just(3u16), val()]).prop_map(|(n, v)| Op::PushN(n, v)),
		2 => (1u8..12).prop_map(Op::PopN),
		1 => Just(Op::PopAll),
		1 => ix().prop_map(Op::Get),
	];
	prop_oneof![
		2 => Just(GOp::NewRaw),
		4 => (0..4usize, 0u8..6, 0u8..8, small_max()).prop_map(move |(k, w, init, max)| GOp::New {
			spec: Spec { kind: kinds[k], w: if kinds[k].packed() { w } else { 0 }, owned: true }, init, max
		}),
		2 => (v(), 0u8..12).prop_map(move |(v, n)| if store { GOp::Store(v, n) } else { GOp::Drop(v.wrapping_mul(50) + n) }),
		14 => (s(), el).prop_map(|(s, o)| GOp::El(s, o)),
		4 => (s(), ix(), s()).prop_map(|(s, i, t)| GOp::Put(s, i, t)),
		6 => (s(), path(6), v()).prop_map(|(s, p, v)| GOp::RawSet(s, p, v)),
		1 => (s(), path(63), v()).prop_map(|(s, p, v)| GOp::RawSet(s, p, v)),
		3 => (s(), path(5), path(5)).prop_map(|(s, a, b)| GOp::RawCopy(s, a, b)),
		3 => s().prop_map(GOp::Share),
		2 => (s(), path(4)).prop_map(|(s, p)| GOp::ShareSub(s, p)),
		2 => (s(), prop_oneof![Just(Reopen::Leak), Just(Reopen::Raw), Just(Reopen::Root)]).prop_map(|(s, r)| GOp::Reopen(s, r)),
		1 => s().prop_map(GOp::IntoRaw),
		4 => s().prop_map(GOp::Drop),
		1 => (s(), prop_oneof![1u16..20, 250u16..260, 1u16..600]).prop_map(|(s, n)| GOp::Owners(s, n)),
		2 => (s(), path(3), any::<u8>()).prop_map(move |(s, p, n)| if store { GOp::Populate(s, p, n) } else { GOp::Owners(s, n as u16) }),
	]
}

/// Few operations, one of which makes a node the child of hundreds of others.
fn crowd(store: bool) -> impl Strategy<Value = Vec<GOp>> {
	let s = || any::<u8>();
	let kind = prop_oneof![Just(Kind::Vector), Just(Kind::List)];
	let spec = move |k| GOp::New { spec: Spec { kind: k, w: 0, owned: true }, init: 0, max: None };
	(
		kind.prop_map(spec),
		proptest::collection::vec(gop(store), 1..6),
		(s(), s(), prop_oneof![500u16..530, 1u16..600]),
		proptest::collection::vec(gop(store), 0..6),
		proptest::option::weighted(0.3, (s(), s(), 1u16..600)),
		proptest::collection::vec(gop(store), 0..3),
	)
		.prop_map(|(first, a, (s, t, n), b, again, c)| {
			let mut ops = vec![first];
			ops.extend(a);
			ops.push(GOp::Crowd(s, t, n));
			ops.extend(b);
			ops.extend(again.map(|(s, t, n)| GOp::Crowd(s, t, n)));
			ops.extend(c);
			ops
		})
}

fn crowds(_t: bool, store: bool) -> BoxedStrategy<World> {
	(0..KITS, crowd(store), any::<u64>()).prop_map(|(kit, ops, order)| World { kit, before: vec![], ops, order }).boxed()
}

fn world(thorough: bool, store: bool) -> BoxedStrategy<World> {
	let n = if thorough { 60 } else { 24 };
	(
		0..KITS,
		prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u8..5, 1..9)],
		proptest::collection::vec(gop(store), 2..n),
		any::<u64>(),
	)
		.prop_map(|(kit, before, ops, order)| World { kit, before, ops, order })
		.boxed()
}

enum Body<K: Kit> {
	Raw(OwnedRaw<K::C>),
	Coll { c: Box<dyn Coll<K>>, kind: Kind, w: u8, max: Option<u64>, leaves: Vec<T<K::V>>, bytes: Vec<Vec<u8>> },
}

struct Tree_<K: Kit> {
	body: Body<K>,
	/// What the tree must be.
	t: T<K::V>,
}

impl<K: Make> Tree_<K> {
	fn root(&self) -> K::V {
		match &self.body {
			Body::Raw(r) => r.root(),
			Body::Coll { c, .. } => c.root(),
		}
	}
	fn refresh(&mut self, r: &Ref<K>) {
		if let Body::Coll { kind, w, max, leaves, bytes, .. } = &self.body {
			self.t = if kind.packed() {
				model_tree(r, *kind, *w, bytes, *max)
			} else {
				model_of_leaves(r, *kind, *w, leaves.clone(), leaves.len() as u64, *max)
			};
		}
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Watch {
	Live,
	Counts,
}

fn leaf<K: Kit>(v: u8) -> T<K::V> {
	T::Leaf(K::V::of(&bytes_of(v as u16, K::V::LEN)))
}

struct Sim<K: Kit> {
	r: Ref<K>,
	slots: Vec<Tree_<K>>,
	/// Trees recorded as permanent entries.
	permanent: Vec<T<K::V>>,
	shared: bool,
	dropped: bool,
	nested: bool,
	crowded: bool,
}

type DbRes<X> = Result<X, Error<XErr>>;

impl<K: Make> Sim<K> {
	fn pick(&self, s: u8) -> Option<usize> {
		if self.slots.is_empty() { None } else { Some(s as usize * self.slots.len() >> 8) }
	}

	/// Apply one operation; `Err` is an unexpected answer of the code under test.
	fn step(&mut self, db: &mut Db<'_, K::C>, op: GOp, reclaim: bool) -> DbRes<()> {
		match op {
			GOp::NewRaw => {
				if self.slots.len() < 6 {
					self.slots.push(Tree_ { body: Body::Raw(OwnedRaw::<K::C>::default()), t: T::zero() });
				}
			}
			GOp::New { spec, init, max } => {
				// See known-findings.txt: such packed lists leave unreferenced nodes.
				if self.slots.len() < 6 && !(reclaim && spec.kind == Kind::PList && spanning::<K>(spec.kind, spec.w)) {
					let mut init = if spec.kind.list() || !K::INHERITED { 0 } else { init as usize };
					if let Some(m) = max {
						init = init.min(m as usize);
					}
					let c = K::owned(db, spec.kind, spec.w, init, max)?;
					let width = K::width(spec.kind, spec.w);
					let mut s = Tree_ {
						body: Body::Coll {
							c,
							kind: spec.kind,
							w: spec.w,
							max,
							leaves: vec![T::zero(); init],
							bytes: vec![vec![0; width]; init],
						},
						t: T::zero(),
					};
					s.refresh(&self.r);
					self.slots.push(s);
				}
			}
			GOp::Store(v, n) => {
				if self.slots.len() < 6 {
					let leaves: Vec<T<K::V>> = (0..n).map(|k| leaf::<K>(if v == 0 { v } else { v + k % 3 })).collect();
					let values: Vec<K::V> = leaves.iter().map(|l| l.hash()).collect();
					let root = bm::utils::vector_tree(&values, db, None)?;
					db.rootify(&root)?;
					let t = self.r.seq(&leaves, depth_for(n as u128));
					self.slots.push(Tree_ { body: Body::Raw(OwnedRaw::<K::C>::from_leaked(root)), t });
				}
			}
			GOp::El(s, op) => {
				if let Some(s) = self.pick(s) {
					let slot = &mut self.slots[s];
					if let Body::Coll { c, kind, w, max, leaves, bytes } = &mut slot.body {
						let width = K::width(*kind, *w);
						let mut m = Model { elems: std::mem::take(bytes), max: *max, width };
						let mut r = Ok(());
						for el in m.expand(op) {
							m.apply(el);
							let v = |x: u16| bytes_of(x, width);
							r = match el {
								El::Get(i) => c.get(db, i).map(|_| ()),
								El::Set(i, x) => {
									let r = c.set(db, i, &v(x));
									if i < leaves.len() {
										leaves[i] = T::Leaf(K::V::of(&v(x)));
									}
									r
								}
								El::Push(x) => {
									let r = c.push(db, &v(x));
									if r.is_ok() {
										leaves.push(T::Leaf(K::V::of(&v(x))));
									}
									r
								}
								El::Pop => {
									leaves.pop();
									c.pop(db).map(|_| ())
								}
							};
							match &r {
								Ok(()) | Err(Error::AccessOverflowed) => r = Ok(()),
								_ => break,
							}
						}
						*bytes = m.elems;
						r?;
					}
					slot.refresh(&self.r);
				}
			}
			GOp::Put(s, i, from) => {
				if let (Some(s), Some(from)) = (self.pick(s), self.pick(from)) {
					let sub = self.slots[from].t.clone();
					let nested = sub.kids().is_some();
					let slot = &mut self.slots[s];
					if let Body::Coll { c, kind, leaves, max, bytes, .. } = &mut slot.body {
						if !kind.packed() {
							let i = i.resolve(leaves.len(), *max);
							let v = sub.hash();
							if i < leaves.len() {
								c.set(db, i, v.as_ref())?;
								leaves[i] = sub;
								bytes[i] = v.as_ref().to_vec();
								self.nested |= nested;
							} else if max.map(|m| (leaves.len() as u64) < m).unwrap_or(true) && leaves.len() < 60 {
								c.push(db, v.as_ref())?;
								leaves.push(sub);
								bytes.push(v.as_ref().to_vec());
								self.nested |= nested;
							}
						}
					}
					slot.refresh(&self.r);
				}
			}
			GOp::RawSet(s, p, v) => {
				if let Some(s) = self.pick(s) {
					let slot = &mut self.slots[s];
					if let Body::Raw(raw) = &mut slot.body {
						let l = leaf::<K>(v);
						raw.set(db, p.index(), l.hash())?;
						slot.t = slot.t.with(&p.steps(), l);
					}
				}
			}
			GOp::RawCopy(s, to, from) => {
				if let Some(s) = self.pick(s) {
					let source = self.slots[(s + 1) % self.slots.len()].t.at(&from.steps());
					let slot = &mut self.slots[s];
					if let (Body::Raw(raw), Some(sub)) = (&mut slot.body, source) {
						raw.set(db, to.index(), sub.hash())?;
						self.nested |= sub.kids().is_some();
						slot.t = slot.t.with(&to.steps(), sub);
					}
				}
			}
			GOp::Share(s) => {
				if let (Some(s), true) = (self.pick(s), self.slots.len() < 6) {
					let slot = &self.slots[s];
					db.rootify(&slot.root())?;
					let copy = match &slot.body {
						Body::Raw(raw) => Tree_ { body: Body::Raw(OwnedRaw::<K::C>::from_leaked(raw.metadata())), t: slot.t.clone() },
						Body::Coll { c, kind, w, max, leaves, bytes } => Tree_ {
							body: Body::Coll {
								c: c.twin(true),
								kind: *kind,
								w: *w,
								max: *max,
								leaves: leaves.clone(),
								bytes: bytes.clone(),
							},
							t: slot.t.clone(),
						},
					};
					self.shared |= slot.t.kids().is_some();
					self.slots.push(copy);
				}
			}
			GOp::ShareSub(s, p) => {
				if let (Some(s), true) = (self.pick(s), self.slots.len() < 6) {
					if let Some(sub) = self.slots[s].t.at(&p.steps()) {
						db.rootify(&sub.hash())?;
						self.shared |= sub.kids().is_some();
						self.slots.push(Tree_ { body: Body::Raw(OwnedRaw::<K::C>::from_leaked(sub.hash())), t: sub });
					}
				}
			}
			GOp::Reopen(s, how) => {
				if let Some(s) = self.pick(s) {
					let slot = self.slots.remove(s);
					let t = slot.t;
					let body = match slot.body {
						Body::Raw(raw) => Body::Raw(OwnedRaw::<K::C>::from_leaked(raw.metadata())),
						Body::Coll { c, kind, w, max, leaves, bytes } => {
							Body::Coll { c: c.reopen(db, how, max)?, kind, w, max, leaves, bytes }
						}
					};
					self.slots.insert(s, Tree_ { body, t });
				}
			}
			GOp::IntoRaw(s) => {
				if let Some(s) = self.pick(s) {
					let root = self.slots[s].root();
					self.slots[s].body = Body::Raw(OwnedRaw::<K::C>::from_leaked(root));
				}
			}
			GOp::Drop(s) => {
				if let Some(s) = self.pick(s) {
					self.drop_slot(db, s)?;
				}
			}
			GOp::Crowd(s, from, n) => {
				let fits = |t: &Tree_<K>| matches!(&t.body, Body::Coll { kind, max: None, leaves, .. } if !kind.packed() && leaves.len() < 600);
				let fitting: Vec<usize> = (0..self.slots.len()).filter(|i| fits(&self.slots[*i])).collect();
				if let (false, Some(from)) = (fitting.is_empty(), self.pick(from)) {
					let sub = self.slots[from].t.clone();
					if sub.nodes().len() < 200 {
						let slot = &mut self.slots[fitting[s as usize * fitting.len() >> 8]];
						if let Body::Coll { c, leaves, bytes, .. } = &mut slot.body {
							for k in 0..n {
								let e = if k % 2 == 0 { sub.clone() } else { T::Leaf(K::V::of(&bytes_of(1000 + k, K::V::LEN))) };
								let v = e.hash();
								c.push(db, v.as_ref())?;
								leaves.push(e);
								bytes.push(v.as_ref().to_vec());
							}
						}
						slot.refresh(&self.r);
						self.crowded |= n > 20;
					}
				}
			}
			GOp::Owners(s, n) => {
				if let Some(s) = self.pick(s) {
					let root = self.slots[s].root();
					for _ in 0..n {
						db.rootify(&root)?;
					}
					for _ in 0..n {
						db.unrootify(&root)?;
					}
				}
			}
			// Done by `permanent`, below.
			GOp::Populate(..) => (),
		}
		Ok(())
	}

	/// Permanent entries come from outside of any handle.
	fn populate(&mut self, mem: &mut Mem<K>, op: GOp) {
		if let GOp::Populate(s, p, n) = op {
			let sub = match self.pick(s) {
				Some(s) if n % 3 > 0 => self.slots[s].t.at(&p.steps()).unwrap_or_else(|| self.slots[s].t.clone()),
				_ => {
					let leaves: Vec<T<K::V>> = (0..n % 7).map(|k| leaf::<K>((n >> 4) + k % 3)).collect();
					self.r.seq(&leaves, depth_for(leaves.len() as u128))
				}
			};
			if sub.nodes().len() < 200 {
				mem.populate(sub.nodes());
				self.permanent.push(sub);
			}
		}
	}

	fn drop_slot(&mut self, db: &mut Db<'_, K::C>, s: usize) -> DbRes<()> {
		let slot = self.slots.remove(s);
		self.dropped |= slot.t.kids().is_some();
		match slot.body {
			Body::Raw(raw) => raw.drop(db),
			Body::Coll { c, .. } => c.drop_(db),
		}
	}

	fn live(&self, db: &mut Db<'_, K::C>) -> Res {
		for (i, s) in self.slots.iter().enumerate() {
			ensure!(s.root() == s.t.hash(), "tree {} has root {:?} instead of {:?}", i, s.root(), s.t.hash());
			fully_readable(db, &s.t).map_err(|m| format!("owned tree {}: {}", i, m))?;
		}
		for (i, t) in self.permanent.iter().enumerate() {
			fully_readable(db, t).map_err(|m| format!("permanent tree {}: {}", i, m))?;
		}
		Ok(())
	}

	fn counts(&self, mem: &Mem<K>, initial: &HashMap<K::V, (Option<(K::V, K::V)>, Option<usize>)>) -> Res {
		let map = mem.as_ref();
		let mut want: HashMap<K::V, usize> = HashMap::new();
		for (_, (pair, _)) in map {
			if let Some((l, r)) = pair {
				*want.entry(l.clone()).or_insert(0) += 1;
				*want.entry(r.clone()).or_insert(0) += 1;
			}
		}
		for s in &self.slots {
			*want.entry(s.root()).or_insert(0) += 1;
		}
		for k in want.keys() {
			ensure!(map.contains_key(k), "{} is a child or an owned root but has no entry", hex(k.as_ref()));
		}
		for (k, (_, count)) in map {
			let w = want.get(k).copied().unwrap_or(0);
			match count {
				Some(c) => ensure!(*c == w, "{} has count {} but {} parent links and owned roots", hex(k.as_ref()), c, w),
				None => ensure!(
					initial.get(k).map(|e| e.1.is_none()).unwrap_or(false),
					"{} became uncounted", hex(k.as_ref())
				),
			}
		}
		Ok(())
	}
}

fn unreferenced<K: Kit>(mem: &Mem<K>) -> Res {
	for (k, (_, count)) in mem.as_ref() {
		ensure!(*count != Some(0), "{} is left without any parent or owner", hex(k.as_ref()));
	}
	Ok(())
}

fn run<K: Make>(w: &World, ctx: &mut Ctx, watch: Watch) -> Res {
	let mut mem = Mem::<K>::default();
	let r = Ref::<K>::new();
	if !w.before.is_empty() {
		let leaves: Vec<T<K::V>> = w.before.iter().map(|v| leaf::<K>(*v)).collect();
		mem.populate(r.seq(&leaves, depth_for(leaves.len() as u128)).nodes());
		ctx.label("with permanent nodes");
	}
	let initial: HashMap<_, _> = mem.as_ref().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	let mut sim = Sim::<K> { r, slots: vec![], permanent: vec![], shared: false, dropped: false, nested: false, crowded: false };
	let reclaim = watch == Watch::Counts;
	let mut order = w.order;
	let mut n = 0;
	loop {
		let op = if n < w.ops.len() {
			w.ops[n]
		} else if !sim.slots.is_empty() {
			order = order.rotate_left(8);
			GOp::Drop(order as u8)
		} else {
			break;
		};
		let done = on::<K, _>(&mut mem, |db| sim.step(db, op, reclaim));
		sim.populate(&mut mem, op);
		let at = |m: String| format!("op {} {:?}: {}", n, op, m);
		match watch {
			Watch::Live => {
				done.map_err(|e| at(format!("{:?}", e)))?;
				on::<K, _>(&mut mem, |db| sim.live(db)).map_err(at)?;
			}
			Watch::Counts => {
				if done.is_err() {
					return Ok(());
				}
				sim.counts(&mem, &initial).map_err(at)?;
				unreferenced::<K>(&mem).map_err(at)?;
			}
		}
		n += 1;
	}
	if reclaim {
		let after: HashMap<_, _> = mem.as_ref().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
		ensure!(
			after == initial,
			"after the last drop the backend has {} entries instead of the {} before", after.len(), initial.len()
		);
	}
	if sim.crowded {
		ctx.label("hundreds of parents");
	}
	if !sim.permanent.is_empty() {
		ctx.label("permanent entries on the way");
	}
	if sim.shared {
		ctx.label("shared root or subtree");
	}
	if sim.nested {
		ctx.label("tree inside a tree");
	}
	if sim.dropped && w.ops.len() >= 4 {
		ctx.hit();
	}
	Ok(())
}

fn live(w: &World, ctx: &mut Ctx) -> Res {
	with_kit!(w.kit, K => run::<K>(w, ctx, Watch::Live))
}
fn counts(w: &World, ctx: &mut Ctx) -> Res {
	with_kit!(w.kit, K => run::<K>(w, ctx, Watch::Counts))
}

/// Leaves behind by a packed list whose elements lie across chunks (known finding).
fn known_c09() -> Vec<Known> {
	let mut mem = Mem::<KI>::default();
	let before = mem.as_ref().len();
	let done = on::<KI, _>(&mut mem, |db| -> DbRes<()> {
		let mut c = KI::owned(db, Kind::PList, 5, 0, None)?;
		c.push(db, &bytes_of(1, 64))?;
		c.push(db, &bytes_of(2, 64))?;
		c.drop_(db)
	});
	vec![Known {
		what: "a packed list of 64-byte elements in 32-byte chunks: create, push, push, drop leaves unreferenced nodes behind".into(),
		still_fails: done.is_ok() && mem.as_ref().len() != before,
	}]
}

pub fn properties() -> Vec<Property> {
	vec![
		Property {
			id: "C08",
			level: "exploration",
			rule: "Random interleavings of creating, editing, nesting, sharing, re-opening and dropping up to six owned trees of all kinds (few distinct leaf values, so subtrees coincide) in one in-memory backend; after every step every live tree is walked completely against its reference tree. Non-trivial: at least four steps and a tree with internal nodes was dropped.",
			assumptions: &["leaf values do not collide with hashes of other nodes", "a second owner takes its root with rootify before using it"],
			parts: vec![
				Box::new(Random { name: "world", quick: 400_000, thorough: 6_000_000, strategy: |t| world(t, true), check: live }),
				Box::new(Random { name: "crowd", quick: 8_000, thorough: 100_000, strategy: |t| crowds(t, true), check: live }),
			],
			known: no_known,
		},
		Property {
			id: "C09",
			level: "exploration",
			rule: "The worlds of C08 without stored foreign values; after every step all counts are recomputed from the stored links and the owned roots, no counted entry may be unreferenced, and after the last drop the backend must equal its initial contents. Non-trivial: at least four steps and a tree with internal nodes was dropped.",
			assumptions: &["packed lists whose elements span chunks are excluded (known finding)"],
			parts: vec![
				Box::new(Random { name: "world", quick: 500_000, thorough: 8_000_000, strategy: |t| world(t, false), check: counts }),
				Box::new(Random { name: "crowd", quick: 8_000, thorough: 100_000, strategy: |t| crowds(t, false), check: counts }),
			],
			known: known_c09,
		},
	]
}
