//! C10, C11, C12, C22: recorded proofs and compact proofs.

use crate::base::*;
use crate::coll::*;
use crate::hist::{ans_of, ix, val, Ans, El, Model, Op};
use crate::raw::{path, Path};
use crate::run::*;
use bm::{
	CompactValue, Dangling, DynBackend, Leak, Owned, Proofs, ProvingBackend, ProvingState, Raw,
	RootStatus, Tree,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

pub type Nodes<V> = Map<V, (V, V)>;

// ------------------------------------------------ sessions, in general

/// Everything one run of a session left behind.
pub struct Ran<K: Kit> {
	pub answers: Vec<String>,
	pub mem: Mem<K>,
}

/// A session: a handle made anew by `start`, and steps that report what they saw.
pub struct Session<'s, K: Kit, S> {
	pub start: &'s dyn Fn() -> S,
	pub step: &'s dyn Fn(&mut S, &mut Db<'_, K::C>, usize) -> String,
	pub steps: usize,
	/// Suspend and resume the recording before these steps.
	pub cuts: Vec<usize>,
}

pub fn stored<K: Kit>(mem: &Mem<K>) -> Nodes<K::V> {
	mem.as_ref().iter().filter_map(|(k, (p, _))| p.clone().map(|p| (k.clone(), p))).collect()
}

/// The same nodes as permanent entries of a fresh backend, put there in two goes: which node comes
/// with which go must not matter.
pub fn frozen<K: Kit>(nodes: &Nodes<K::V>) -> Mem<K> {
	let mut mem = Mem::<K>::default();
	let odd = |k: &K::V| k.as_ref().iter().fold(0, |a, b| a ^ b).count_ones() % 2 == 1;
	for turn in [true, false] {
		mem.populate(nodes.iter().filter(|(k, _)| odd(k) == turn).map(|(k, n)| (k.clone(), n.clone())).collect());
	}
	mem
}

impl<'s, K: Kit, S> Session<'s, K, S> {
	pub fn plain(&self, mut mem: Mem<K>) -> Ran<K> {
		let mut s = (self.start)();
		let answers = on::<K, _>(&mut mem, |db| (0..self.steps).map(|n| (self.step)(&mut s, db, n)).collect());
		Ran { answers, mem }
	}

	/// Through the error-stripping backend.
	pub fn stripped(&self, mut mem: Mem<K>) -> Ran<K> {
		let mut s = (self.start)();
		let mut dy = DynBackend(E(&mut mem));
		let mut e = E(&mut dy);
		let mut db = Db(&mut e);
		let answers = (0..self.steps).map(|n| (self.step)(&mut s, &mut db, n)).collect();
		Ran { answers, mem }
	}

	/// Recorded; also returns the state, and what was asked of the recording backend.
	pub fn recorded(&self, mut mem: Mem<K>, cut: bool) -> (Ran<K>, ProvingState<K::V>, Vec<Ev<K::V>>) {
		let mut s = (self.start)();
		let mut state = ProvingState::<K::V>::default();
		let mut log = vec![];
		let mut answers = vec![];
		let mut from = 0;
		while from <= self.steps {
			let to = (from + 1..self.steps).find(|n| cut && self.cuts.contains(n)).unwrap_or(self.steps);
			let mut e = E(&mut mem);
			let mut pb = ProvingBackend::from_state(state, &mut e);
			let mut spy = Spy::<K::C>::new(&mut pb);
			spy.log = Some(vec![]);
			{
				let mut db = Db(&mut spy);
				for n in from..to {
					answers.push((self.step)(&mut s, &mut db, n));
				}
			}
			log.extend(spy.log.take().unwrap());
			state = pb.into_state();
			if to == self.steps {
				break;
			}
			from = to;
		}
		(Ran { answers, mem }, state, log)
	}

	/// Two recording backends on top of each other, over the error-stripping one.
	pub fn nested(&self, mut mem: Mem<K>) -> (Ran<K>, Nodes<K::V>, Nodes<K::V>) {
		let mut s = (self.start)();
		let mut dy = DynBackend(E(&mut mem));
		let mut inner = ProvingBackend::new(&mut dy);
		let mut e = E(&mut inner);
		let mut outer = ProvingBackend::new(&mut e);
		let answers = {
			let mut db = Db(&mut outer);
			(0..self.steps).map(|n| (self.step)(&mut s, &mut db, n)).collect()
		};
		let o: Proofs<K::V> = outer.into();
		let i: Proofs<K::V> = inner.into();
		(Ran { answers, mem }, o.into(), i.into())
	}
}

fn differ(what: &str, a: &[String], b: &[String]) -> Res {
	for (n, (x, y)) in a.iter().zip(b).enumerate() {
		ensure!(x == y, "step {}: {} gives {} instead of {}", n, what, y, x);
	}
	Ok(())
}

/// Leaves of the compact form of `nodes` from `root`, up to a limit.
fn unfolded<V: Val>(nodes: &Nodes<V>, root: &V, limit: u64) -> u64 {
	fn go<V: Val>(nodes: &Nodes<V>, k: &V, memo: &mut HashMap<V, u64>) -> u64 {
		if let Some(n) = memo.get(k) {
			return *n;
		}
		let n = match nodes.get(k) {
			None => 1,
			Some((l, r)) => go(nodes, l, memo).saturating_add(go(nodes, r, memo)),
		};
		memo.insert(k.clone(), n);
		n
	}
	go(nodes, root, &mut HashMap::new()).min(limit)
}

fn reachable<V: Val>(nodes: &Nodes<V>, root: &V) -> Nodes<V> {
	let mut out = Nodes::new();
	let mut todo = vec![root.clone()];
	while let Some(k) = todo.pop() {
		if let Some((l, r)) = nodes.get(&k) {
			if out.insert(k, (l.clone(), r.clone())).is_none() {
				todo.push(l.clone());
				todo.push(r.clone());
			}
		}
	}
	out
}

const UNFOLD: u64 = 1 << 14;

/// C10: record, then replay on proofs alone.
pub fn check_replay<K: Kit, S>(base: &Mem<K>, roots: &[K::V], ses: &Session<'_, K, S>, ctx: &mut Ctx) -> Res {
	let (ran, state, log) = ses.recorded(base.clone(), true);
	let proofs: Proofs<K::V> = state.into();
	let map: Nodes<K::V> = proofs.clone().into();
	let again = ses.plain(frozen::<K>(&map));
	differ("replaying on the proofs", &ran.answers, &again.answers)?;
	if roots.iter().all(|root| unfolded(&map, root, UNFOLD) < UNFOLD) {
		let mut fresh = Mem::<K>::default();
		for root in roots {
			let compact = proofs.into_compact(root.clone());
			let (back, r) = Proofs::from_compact::<K::C>(compact);
			ensure!(&r == root, "the compact form has root {:?} instead of {:?}", r, root);
			fresh.populate(back.into());
		}
		let again = ses.plain(fresh);
		differ("replaying on the compact proofs", &ran.answers, &again.answers)?;
		ctx.label("compact form replayed");
	}
	if !ses.cuts.is_empty() {
		ctx.label("suspended and resumed");
	}
	if log.iter().any(|e| matches!(e, Ev::Insert(..))) && !map.is_empty() {
		ctx.label("with writes");
		ctx.hit();
	}
	Ok(())
}

/// C22: recording changes nothing, and records what it should.
pub fn check_transparent<K: Kit, S>(base: &Mem<K>, ses: &Session<'_, K, S>, ctx: &mut Ctx) -> Res {
	let direct = ses.plain(base.clone());
	let before = stored::<K>(base);
	let same = |what: &str, ran: &Ran<K>| -> Res {
		differ(what, &direct.answers, &ran.answers)?;
		ensure!(
			ran.mem.as_ref() == direct.mem.as_ref(),
			"{}: the backend holds {} entries at the end instead of {} (or other ones)",
			what, ran.mem.as_ref().len(), direct.mem.as_ref().len()
		);
		Ok(())
	};
	let genuine = |what: &str, map: &Nodes<K::V>| -> Res {
		for (k, v) in map {
			match before.get(k) {
				None => return Err(format!("{} recorded {}, which did not exist before", what, hex(k.as_ref()))),
				Some(old) => ensure!(old == v, "{} recorded {} with other children", what, hex(k.as_ref())),
			}
		}
		Ok(())
	};
	let (ran, state, log) = ses.recorded(base.clone(), false);
	same("the proving backend", &ran)?;
	let map: Nodes<K::V> = Proofs::from(state).into();
	genuine("the proving backend", &map)?;
	let mut written: HashSet<K::V> = HashSet::new();
	let mut read: HashSet<K::V> = HashSet::new();
	for ev in &log {
		match ev {
			Ev::Get(k, Some(_)) => {
				if before.contains_key(k) && !written.contains(k) {
					ensure!(map.contains_key(k), "{} existed and was read, but is not recorded", hex(k.as_ref()));
				}
				read.insert(k.clone());
			}
			Ev::Insert(k, _) => {
				written.insert(k.clone());
			}
			_ => (),
		}
	}
	for k in map.keys() {
		ensure!(read.contains(k), "{} is recorded but was not read", hex(k.as_ref()));
	}
	let (cut, state, _) = ses.recorded(base.clone(), true);
	same("the suspended and resumed proving backend", &cut)?;
	let map2: Nodes<K::V> = Proofs::from(state).into();
	ensure!(map == map2, "suspending and resuming changes what is recorded");
	same("the error-stripping backend", &ses.stripped(base.clone()))?;
	let (nested, outer, inner) = ses.nested(base.clone());
	same("nested proving backends", &nested)?;
	ensure!(outer == map, "an outer proving backend records something else");
	genuine("an inner proving backend", &inner)?;
	for k in map.keys() {
		ensure!(inner.contains_key(k), "an inner proving backend misses {}", hex(k.as_ref()));
	}
	if !written.is_empty() && !map.is_empty() {
		ctx.label("with writes");
		ctx.hit();
	}
	Ok(())
}

// ------------------------------------------------ collections and raw trees

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Sop {
	El(Op),
	RawGet(Path),
	RawSet(Path, u16),
	/// Read a value and write it elsewhere.
	RawCopy(Path, Path),
	RawSub(Path, Path),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Base {
	/// Counted entries of an owned tree.
	Live,
	/// Permanent entries.
	Frozen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prove {
	kit: u8,
	/// `None` for a raw tree.
	spec: Option<Spec>,
	max: Option<u64>,
	base: Base,
	/// Another tree in the same backend, sharing values.
	other: bool,
	owned: bool,
	/// Open a list from its root inside the session.
	open: bool,
	before: Vec<Sop>,
	ops: Vec<Sop>,
	cuts: Vec<u8>,
}

fn few_values() -> impl Strategy<Value = u16> {
	prop_oneof![4 => 0u16..3, 1 => val()]
}

fn sop(raw: bool) -> BoxedStrategy<Sop> {
	if raw {
		prop_oneof![
			2 => path(9).prop_map(Sop::RawGet),
			1 => path(63).prop_map(Sop::RawGet),
			5 => (path(5), few_values()).prop_map(|(p, v)| Sop::RawSet(p, v)),
			1 => (path(63), few_values()).prop_map(|(p, v)| Sop::RawSet(p, v)),
			4 => (path(4), path(4)).prop_map(|(a, b)| Sop::RawCopy(a, b)),
			2 => (path(4), path(4)).prop_map(|(a, b)| Sop::RawSub(a, b)),
		]
		.boxed()
	} else {
		prop_oneof![
			5 => ix().prop_map(Op::Get),
			6 => (ix(), few_values()).prop_map(|(i, v)| Op::Set(i, v)),
			4 => few_values().prop_map(Op::Push),
			3 => Just(Op::Pop),
			2 => (1u8..9, prop_oneof![Just(0u16), Just(3u16), val()]).prop_map(|(n, v)| Op::PushN(n, v)),
			1 => (1u8..9).prop_map(Op::PopN),
			2 => prop_oneof![Just(Reopen::Leak), Just(Reopen::Raw), Just(Reopen::Root)].prop_map(Op::Reopen),
		]
		.prop_map(Sop::El)
		.boxed()
	}
}

fn prove(thorough: bool) -> BoxedStrategy<Prove> {
	let n = if thorough { 40 } else { 16 };
	let kinds = &[Kind::Vector, Kind::List, Kind::PVec, Kind::PList];
	let spec = prop_oneof![
		2 => Just(None),
		4 => crate::hist::spec(kinds).prop_map(Some),
	];
	let small_max = prop_oneof![4 => Just(None), 6 => (1u64..64).prop_map(Some), 1 => (6u32..57, -1i64..2).prop_map(|(k, d)| Some(((1i64 << k) + d) as u64))];
	(0..KITS, spec, small_max, prop_oneof![Just(Base::Live), Just(Base::Frozen)], any::<bool>(), any::<bool>(), any::<bool>())
		.prop_flat_map(move |(kit, spec, max, base, other, owned, open)| {
			(
				proptest::collection::vec(sop(spec.is_none()), 0..12),
				proptest::collection::vec(sop(spec.is_none()), 1..n),
				proptest::collection::vec(1u8..12, 0..3),
			)
				.prop_map(move |(before, ops, cuts)| Prove { kit, spec, max, base, other, owned, open, before, ops, cuts })
		})
		.boxed()
}

enum Handle<K: Kit> {
	Raw(Raw<Dangling, K::C>),
	OwnedRaw(Raw<Owned, K::C>),
	Coll(Box<dyn Coll<K>>, usize, Option<u64>),
	Gone,
}

fn raw_step<K: Kit, S: RootStatus>(raw: &mut Raw<S, K::C>, db: &mut Db<'_, K::C>, op: Sop) -> String {
	let v = |x: u16| K::V::of(&bytes_of(x, K::V::LEN));
	match op {
		Sop::RawGet(p) => format!("{:?}", raw.get(db, p.index())),
		Sop::RawSet(p, x) => format!("{:?}", raw.set(db, p.index(), v(x))),
		Sop::RawCopy(to, from) => match raw.get(db, from.index()) {
			Ok(Some(x)) => format!("{:?} {:?}", x.clone(), raw.set(db, to.index(), x)),
			other => format!("{:?}", other),
		},
		Sop::RawSub(a, b) => match raw.subtree(db, a.index()) {
			Ok(s) => format!("{:?} {:?}", s.root(), s.get(db, b.index())),
			Err(e) => format!("{:?}", e),
		},
		Sop::El(_) => String::new(),
	}
}

fn step<K: Make>(h: &mut Handle<K>, db: &mut Db<'_, K::C>, op: Sop) -> String {
	match h {
		Handle::Raw(raw) => {
			let a = raw_step::<K, _>(raw, db, op);
			format!("{} -> {:?}", a, raw.root())
		}
		Handle::OwnedRaw(raw) => {
			let a = raw_step::<K, _>(raw, db, op);
			format!("{} -> {:?}", a, raw.root())
		}
		Handle::Coll(..) => {
			let (mut c, width, max) = match std::mem::replace(h, Handle::Gone) {
				Handle::Coll(c, w, m) => (c, w, m),
				_ => unreachable!(),
			};
			let op = match op {
				Sop::El(op) => op,
				_ => return String::new(),
			};
			let mut out = String::new();
			if let Op::Reopen(how) = op {
				match c.reopen(db, how, max) {
					Ok(back) => c = back,
					Err(e) => return format!("reopen: {:?}", e),
				}
			} else {
				// Only the length matters for resolving indices.
				let m = Model { elems: vec![vec![]; c.len().min(500)], max, width };
				for el in m.expand(op) {
					let v = |x| bytes_of(x, width);
					let a = match el {
						El::Get(i) => ans_of(c.get(db, i), Ans::Bytes),
						El::Set(i, x) => ans_of(c.set(db, i, &v(x)), |_| Ans::Done),
						El::Push(x) => ans_of(c.push(db, &v(x)), |_| Ans::Done),
						El::Pop => ans_of(c.pop(db), |o| o.map(Ans::Bytes).unwrap_or(Ans::None)),
					};
					out.push_str(&format!("{:?};", a));
				}
			}
			out.push_str(&format!(" -> {} {:?}", c.len(), c.root()));
			*h = Handle::Coll(c, width, max);
			out
		}
		Handle::Gone => "gone".into(),
	}
}

fn session<K: Make>(c: &Prove, ctx: &mut Ctx, replay: bool) -> Res {
	let mut mem = Mem::<K>::default();
	if c.other {
		// A tree of the small values, kept by someone else.
		on::<K, _>(&mut mem, |db| {
			let mut o = K::owned(db, Kind::List, 0, 0, None)?;
			for k in 0..6u16 {
				o.push(db, &bytes_of(k % 3, K::V::LEN))?;
			}
			Ok(())
		})
		.map_err(|e: bm::Error<XErr>| format!("building the other tree: {:?}", e))?;
	}
	let mut h: Handle<K> = match c.spec {
		None => Handle::OwnedRaw(Raw::default()),
		Some(s) => {
			let coll = on::<K, _>(&mut mem, |db| K::owned(db, s.kind, s.w, 0, c.max)).map_err(|e| format!("create: {:?}", e))?;
			Handle::Coll(coll, K::width(s.kind, s.w), c.max)
		}
	};
	on::<K, _>(&mut mem, |db| {
		for op in &c.before {
			// Not Reopen: the handle that is kept must stay owned.
			if !matches!(op, Sop::El(Op::Reopen(_))) {
				step(&mut h, db, *op);
			}
		}
	});
	let base = match c.base {
		Base::Live => mem,
		Base::Frozen => frozen::<K>(&stored::<K>(&mem)),
	};
	let root = match &h {
		Handle::OwnedRaw(r) => r.root(),
		Handle::Coll(c, ..) => c.root(),
		_ => return Ok(()),
	};
	let start = || match &h {
		Handle::Coll(coll, w, m) => Handle::Coll(coll.twin(c.owned), *w, *m),
		_ if c.owned => Handle::OwnedRaw(Raw::from_leaked(root.clone())),
		_ => Handle::Raw(Raw::from_leaked(root.clone())),
	};
	let kind = c.spec.map(|s| s.kind);
	let open = c.open && kind == Some(Kind::List);
	// A list handle made from its metadata starts from the root of its items.
	let mut roots = vec![root.clone()];
	if !open && matches!(kind, Some(Kind::List) | Some(Kind::PList)) {
		let (items, _) = stored::<K>(&base).get(&root).cloned().ok_or("a list's root has no children")?;
		roots.push(items);
	}
	let ses = Session::<K, Handle<K>> {
		start: &start,
		step: &|h, db, n| {
			let mut out = String::new();
			if n == 0 && open {
				out = step(h, db, Sop::El(Op::Reopen(Reopen::Raw)));
			}
			out + &step(h, db, c.ops[n])
		},
		steps: c.ops.len(),
		cuts: c.cuts.iter().map(|c| *c as usize).collect(),
	};
	ctx.label(match kind {
		None => "raw",
		Some(Kind::Vector) => "vector",
		Some(Kind::List) => "list",
		Some(Kind::PVec) => "packed vector",
		Some(Kind::PList) => "packed list",
	});
	if replay {
		check_replay(&base, &roots, &ses, ctx)
	} else {
		check_transparent(&base, &ses, ctx)
	}
}

fn replay(c: &Prove, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => session::<K>(c, ctx, true))
}
fn transparent(c: &Prove, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => session::<K>(c, ctx, false))
}

// ------------------------------------------------ compact proofs

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shape {
	L(u16),
	N(Box<(Shape, Shape)>),
}

impl Shape {
	pub fn compact<V: Val>(&self) -> CompactValue<V> {
		match self {
			Shape::L(v) => CompactValue::Single(V::of(&bytes_of(*v, V::LEN))),
			Shape::N(b) => CompactValue::Combined(Box::new((b.0.compact(), b.1.compact()))),
		}
	}
	pub fn tree<V: Val>(&self) -> T<V> {
		match self {
			Shape::L(v) => T::Leaf(V::of(&bytes_of(*v, V::LEN))),
			Shape::N(b) => T::node(b.0.tree(), b.1.tree()),
		}
	}
	fn leaves(&self) -> usize {
		match self {
			Shape::L(_) => 1,
			Shape::N(b) => b.0.leaves() + b.1.leaves(),
		}
	}
}

pub fn shape() -> impl Strategy<Value = Shape> {
	let leaf = prop_oneof![2 => 0u16..3, 3 => any::<u16>()].prop_map(Shape::L);
	prop_oneof![
		3 => leaf.clone().prop_recursive(6, 60, 2, |s| (s.clone(), s).prop_map(|(a, b)| Shape::N(Box::new((a, b))))),
		// Long and thin.
		1 => (leaf.clone(), proptest::collection::vec((leaf, any::<bool>()), 0..64)).prop_map(|(first, rest)| {
			rest.into_iter().fold(first, |t, (s, right)| {
				Shape::N(Box::new(if right { (s, t) } else { (t, s) }))
			})
		}),
	]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Comp {
	kit: u8,
	shape: Shape,
	/// Which node or leaf the modifications are made at.
	at: u16,
	new: u16,
	/// Which recorded nodes are kept.
	keep: u64,
	extra: bool,
}

fn comp(_t: bool) -> BoxedStrategy<Comp> {
	(0..KITS, shape(), any::<u16>(), any::<u16>(), prop_oneof![Just(u64::MAX), any::<u64>()], any::<bool>())
		.prop_map(|(kit, shape, at, new, keep, extra)| Comp { kit, shape, at, new, keep, extra })
		.boxed()
}

fn comp_check(c: &Comp, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => comp_go::<K>(c, ctx))
}

/// Every position of a tree, as a path.
fn places<V: Val>(t: &T<V>) -> Vec<Vec<bool>> {
	let mut out = vec![];
	let mut todo = vec![(vec![], t.clone())];
	while let Some((p, t)) = todo.pop() {
		if let Some((l, r)) = t.kids() {
			let (mut a, mut b) = (p.clone(), p.clone());
			a.push(false);
			b.push(true);
			todo.push((a, l.clone()));
			todo.push((b, r.clone()));
		}
		out.push(p);
	}
	out
}

fn compact_of<V: Val>(t: &T<V>) -> CompactValue<V> {
	match t.kids() {
		None => CompactValue::Single(t.hash()),
		Some((l, r)) => CompactValue::Combined(Box::new((compact_of(l), compact_of(r)))),
	}
}

/// All pairs of a tree, halves first.
fn bottom_up<V: Val>(t: &T<V>, out: &mut Vec<(V, V, V)>) {
	if let Some((l, r)) = t.kids() {
		bottom_up(l, out);
		bottom_up(r, out);
		out.push((t.hash(), l.hash(), r.hash()));
	}
}

/// The tree that a map of nodes denotes.
fn denoted<V: Val>(nodes: &Nodes<V>, root: &V) -> T<V> {
	match nodes.get(root) {
		None => T::Leaf(root.clone()),
		Some((l, r)) => T::node(denoted(nodes, l), denoted(nodes, r)),
	}
}

fn comp_go<K: Kit>(c: &Comp, ctx: &mut Ctx) -> Res {
	let t: T<K::V> = c.shape.tree();
	let compact: CompactValue<K::V> = c.shape.compact();
	let root = t.hash();
	ensure!(compact.len() == c.shape.leaves(), "length {} instead of {}", compact.len(), c.shape.leaves());
	let folded = compact.clone().root::<K::C>();
	ensure!(folded == root, "folds to {:?} instead of {:?}", folded, root);
	let (proofs, r) = Proofs::from_compact::<K::C>(compact.clone());
	ensure!(r == root, "converts to root {:?} instead of {:?}", r, root);
	let nodes = t.nodes();
	let map: Nodes<K::V> = proofs.clone().into();
	ensure!(map == nodes, "{} recorded nodes instead of {}", map.len(), nodes.len());
	ensure!(proofs.len() == nodes.len() && nodes.iter().all(|(k, v)| proofs.get(k) == Some(v)), "the entries cannot be looked up");
	// Folding sees every pair once, with its key, values and what its halves gave.
	let (seen, at) = compact.clone().fold::<K::C, Vec<(K::V, K::V, K::V)>, _>(&|k, (mut a, l), (b, r)| {
		a.extend(b);
		a.push((k, l, r));
		a
	});
	ensure!(at == root, "folding ends at {:?} instead of {:?}", at, root);
	let mut pairs = vec![];
	bottom_up(&t, &mut pairs);
	ensure!(seen == pairs, "folding goes through other pairs than the tree has");
	let back = proofs.into_compact(root.clone());
	ensure!(back.clone().root::<K::C>() == root, "converting back changes the root");
	ensure!(back == compact_of(&denoted(&nodes, &root)), "converting back gives another tree");
	ensure!(back.len() >= compact.len(), "converting back loses values");

	// Maps that are not a complete tree.
	let mut some: Nodes<K::V> =
		nodes.iter().filter(|(k, _)| c.keep >> (k.as_ref()[0] % 64) & 1 == 1).map(|(k, v)| (k.clone(), v.clone())).collect();
	if c.extra {
		let other = T::node(T::Leaf(K::V::of(&[1, 2, 3])), T::Leaf(root.clone()));
		some.extend(T::node(other.clone(), other).nodes().into_iter().filter(|(k, _)| k != &root));
	}
	let mut state = ProvingState::<K::V>::default();
	state.proofs = some.clone();
	let some_proofs = Proofs::from(state);
	ensure!((some_proofs == proofs) == (some == nodes), "proofs of {} nodes compared with proofs of {} nodes", some.len(), nodes.len());
	ensure!(some_proofs == some_proofs.clone(), "proofs differ from their copy");
	ensure!((some_proofs == Proofs::default()) == some.is_empty(), "proofs of {} nodes compared with no proofs", some.len());
	let part = some_proofs.into_compact(root.clone());
	ensure!(part == compact_of(&denoted(&some, &root)), "the compact form of a partial map denotes another tree");
	let (part_back, part_root) = Proofs::from_compact::<K::C>(part);
	ensure!(part_root == root, "the compact form of a partial map has another root");
	let part_back: Nodes<K::V> = part_back.into();
	ensure!(part_back == reachable(&some, &root), "a partial map does not come back as its reachable nodes");

	// Single modifications.
	let all = places(&t);
	let p = &all[c.at as usize * all.len() >> 16];
	let sub = t.at(p).expect("a place of the tree");
	let fresh = T::Leaf(K::V::of(&bytes_of(c.new, K::V::LEN)));
	let mut variants = vec![
		("replacing a part by its hash", t.with(p, T::Leaf(sub.hash()))),
		("replacing a part by a value", t.with(p, fresh.clone())),
		("replacing a part by a pair", t.with(p, T::node(sub.clone(), fresh.clone()))),
		("replacing a part by another pair", t.with(p, T::node(fresh.clone(), sub.clone()))),
		("replacing a part by a pair of zeros", t.with(p, T::node(T::zero(), T::zero()))),
	];
	if let Some((l, r)) = sub.kids() {
		variants.push(("swapping siblings", t.with(p, T::node(r.clone(), l.clone()))));
		variants.push(("dropping a sibling", t.with(p, l.clone())));
		variants.push(("dropping the other sibling", t.with(p, r.clone())));
		if let Some((ll, lr)) = l.kids() {
			variants.push((
				"rotating",
				t.with(p, T::node(ll.clone(), T::node(lr.clone(), r.clone()))),
			));
		}
		ctx.hit();
	}
	for (n, (what, other)) in variants.into_iter().enumerate() {
		let got = compact_of(&other).root::<K::C>();
		// The replaced part is the same tree exactly when its hash is.
		let same = n == 0 || other.at(p).map(|o| o.hash()) == Some(sub.hash());
		ensure!((got == root) == same, "{} {} the root", what, if same { "changes" } else { "does not change" });
		ctx.inner += 1;
	}
	Ok(())
}

/// Writing compact proofs into a backend (32-byte values only).
fn comp_write(c: &Comp, ctx: &mut Ctx) -> Res {
	fn go<K: Kit<V = bm_le::Value>>(c: &Comp, ctx: &mut Ctx) -> Res {
		use bm_le::IntoTree;
		let t: T<K::V> = c.shape.tree();
		let compact: CompactValue<K::V> = c.shape.compact();
		let mut mem = Mem::<K>::default();
		let root = compact.into_tree(&mut mem).map_err(|e| format!("{:?}", e))?;
		ensure!(root == t.hash(), "written with root {:?} instead of {:?}", root, t.hash());
		ensure!(stored::<K>(&mem) == t.nodes(), "the backend holds other nodes than the partial tree");
		on::<K, _>(&mut mem, |db| fully_readable(db, &t))?;
		let raw = Raw::<Dangling, K::C>::from_leaked(root);
		let nodes = t.nodes();
		let dt = denoted(&nodes, &t.hash());
		for p in places(&dt).into_iter().filter(|p| p.len() < 62) {
			let one = p.iter().fold(1usize, |i, b| i * 2 + *b as usize);
			let at = |one: usize| bm::Index::from_one(one).unwrap();
			let want = dt.at(&p).unwrap();
			let got = raw.get(&mut mem, at(one)).map_err(|e| format!("{:?}", e))?;
			ensure!(got == Some(want.hash()), "index {} reads {:?}", one, got);
			if want.kids().is_none() {
				let below = raw.get(&mut mem, at(one * 2)).map_err(|e| format!("{:?}", e))?;
				ensure!(below.is_none(), "index {} below a value reads {:?}", one * 2, below);
			} else {
				ctx.hit();
			}
		}
		Ok(())
	}
	if c.kit % 2 == 0 { go::<KI>(c, ctx) } else { go::<KU>(c, ctx) }
}

// ------------------------------------------------ plain branches

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Branch {
	kit: u8,
	at: Path,
	leaf: u16,
	siblings: Vec<u16>,
	which: u8,
	other: u16,
}

fn branch(_t: bool) -> BoxedStrategy<Branch> {
	prop_oneof![1 => path(63), 1 => path(10)]
		.prop_flat_map(|at| {
			(
				0..KITS,
				Just(at),
				val(),
				proptest::collection::vec(val(), at.depth as usize),
				any::<u8>(),
				val(),
			)
		})
		.prop_map(|(kit, at, leaf, siblings, which, other)| Branch { kit, at, leaf, siblings, which, other })
		.boxed()
}

/// The tree that a branch denotes; siblings from the bottom up.
fn branch_tree<V: Val>(at: Path, leaf: &V, siblings: &[V]) -> T<V> {
	let mut t = T::Leaf(leaf.clone());
	let mut bits = at.bits;
	for s in siblings {
		let s = T::Leaf(s.clone());
		t = if bits & 1 == 1 { T::node(s, t) } else { T::node(t, s) };
		bits >>= 1;
	}
	t
}

fn branch_check(b: &Branch, ctx: &mut Ctx) -> Res {
	with_kit!(b.kit, K => branch_go::<K>(b, ctx))
}

fn branch_go<K: Kit>(b: &Branch, ctx: &mut Ctx) -> Res {
	let v = |x: u16| K::V::of(&bytes_of(x, K::V::LEN));
	let leaf = v(b.leaf);
	let siblings: Vec<K::V> = b.siblings.iter().map(|s| v(*s)).collect();
	let root = |at: Path, leaf: &K::V, s: &[K::V]| -> Option<K::V> {
		CompactValue::from_plain(leaf.clone(), s.to_vec(), at.index()).map(|c| c.root::<K::C>())
	};
	let t = branch_tree(b.at, &leaf, &siblings);
	let got = CompactValue::from_plain(leaf.clone(), siblings.clone(), b.at.index())
		.ok_or_else(|| format!("a branch of {} values for index {} is refused", siblings.len(), b.at.one()))?;
	ensure!(got == compact_of(&t), "index {}: the proof is another tree", b.at.one());
	ensure!(got.len() == b.at.depth as usize + 1, "index {}: length {}", b.at.one(), got.len());
	let mut cur = &got;
	for right in b.at.steps() {
		cur = match cur {
			CompactValue::Combined(x) => if right { &x.1 } else { &x.0 },
			_ => return Err("the proof ends above the leaf".into()),
		};
	}
	ensure!(cur == &CompactValue::Single(leaf.clone()), "the leaf is not at its index");
	ensure!(got.root::<K::C>() == t.hash(), "the proof has another root");
	// Wrong numbers of siblings.
	for n in 0..b.at.depth as usize {
		ensure!(root(b.at, &leaf, &siblings[..n]).is_none(), "{} of {} siblings are accepted", n, siblings.len());
		ctx.inner += 1;
	}
	for extra in [1, 2, 3, 64] {
		let mut long = siblings.clone();
		long.extend((0..extra).map(|k| v(b.other.wrapping_add(k))));
		ensure!(root(b.at, &leaf, &long).is_none(), "{} siblings too many are accepted", extra);
	}
	// Wrong leaf, siblings, index.
	let mut others = vec![(b.at, v(b.other), siblings.clone())];
	if b.at.depth > 0 {
		let k = b.which as usize % siblings.len();
		let mut s = siblings.clone();
		s[k] = v(b.other);
		others.push((b.at, leaf.clone(), s));
		let mut s = siblings.clone();
		s.reverse();
		others.push((b.at, leaf.clone(), s));
		let flip = Path { depth: b.at.depth, bits: b.at.bits ^ (1 << k) };
		others.push((flip, leaf.clone(), siblings.clone()));
		let neg = Path { depth: b.at.depth, bits: !b.at.bits & ((1u64 << b.at.depth) - 1) };
		others.push((neg, leaf.clone(), siblings.clone()));
		ctx.hit();
	}
	for (at, l, s) in others {
		let other = branch_tree(at, &l, &s);
		let got = root(at, &l, &s).ok_or("a branch is refused")?;
		ensure!(got == other.hash(), "index {}: root {:?} instead of {:?}", at.one(), got, other.hash());
		let denotes_same = compact_of(&other) == compact_of(&t);
		ensure!((got == t.hash()) == denotes_same, "index {}: a wrong branch verifies", at.one());
		ctx.inner += 1;
	}
	Ok(())
}

/// Branches taken out of a stored tree, at every place of it.
fn stored_branches(c: &Comp, ctx: &mut Ctx) -> Res {
	fn go<K: Kit>(c: &Comp, ctx: &mut Ctx) -> Res {
		let t: T<K::V> = c.shape.tree();
		let mut mem = frozen::<K>(&t.nodes());
		let raw = Raw::<Dangling, K::C>::from_leaked(t.hash());
		for p in places(&t).into_iter().filter(|p| p.len() < 63) {
			let mut one = p.iter().fold(1usize, |i, b| i * 2 + *b as usize);
			let index = bm::Index::from_one(one).unwrap();
			let mut read = |one: usize| -> Result<K::V, String> {
				raw.get(&mut mem, bm::Index::from_one(one).unwrap())
					.map_err(|e| format!("{:?}", e))?
					.ok_or_else(|| format!("index {} is missing", one))
			};
			let leaf = read(one)?;
			let mut siblings = vec![];
			while one > 1 {
				siblings.push(read(one ^ 1)?);
				one >>= 1;
			}
			let got = CompactValue::from_plain(leaf, siblings, index).ok_or("refused")?.root::<K::C>();
			ensure!(got == t.hash(), "the branch at {:?} has root {:?} instead of {:?}", p, got, t.hash());
			ctx.inner += 1;
			if !p.is_empty() {
				ctx.hit();
			}
		}
		Ok(())
	}
	with_kit!(c.kit, K => go::<K>(c, ctx))
}

pub fn properties() -> Vec<Property> {
	vec![
		Property {
			id: "C10",
			level: "exploration",
			rule: "Random sessions on raw trees and all collection kinds (owned and dangling handles; counted or permanent nodes; with and without an unrelated tree sharing values) are recorded with random suspensions and replayed on a backend holding only the proofs, directly and through the compact form; all answers, errors, lengths and roots are compared. Non-trivial: the session wrote nodes and the proofs are not empty.",
			assumptions: &["one tree per session", "values written are not hashes of nodes the session has not read"],
			parts: vec![Box::new(Random { name: "session", quick: 240_000, thorough: 3_000_000, strategy: prove, check: replay }), crate::part::replay_part()],
			known: no_known,
		},
		Property {
			id: "C11",
			level: "exploration",
			rule: "Random compact trees (bushy, and chains up to depth 64; repeated values) and random partial node maps: conversions, length, root and backend writing against an explicit tree; nine single modifications each. Non-trivial: a tree with at least two values is modified at an internal node.",
			assumptions: &["no hash collisions"],
			parts: vec![
				Box::new(Random { name: "convert", quick: 240_000, thorough: 3_000_000, strategy: comp, check: comp_check }),
				Box::new(Random { name: "write", quick: 100_000, thorough: 1_500_000, strategy: comp, check: comp_write }),
			],
			known: no_known,
		},
		Property {
			id: "C12",
			level: "exploration",
			rule: "Random indices of depth 0 to 63 with random leaves and siblings, every too short length, too long lists, wrong leaf/sibling/order/index; and every place of random stored trees. Non-trivial: depth at least one.",
			assumptions: &["no hash collisions"],
			parts: vec![
				Box::new(Random { name: "branch", quick: 240_000, thorough: 3_000_000, strategy: branch, check: branch_check }),
				Box::new(Random { name: "stored", quick: 80_000, thorough: 800_000, strategy: comp, check: stored_branches }),
			],
			known: no_known,
		},
		Property {
			id: "C22",
			level: "exploration",
			rule: "The sessions of C10, run directly, recorded in one go and with suspensions, error-stripped, and through two nested recording backends: answers, roots and final backend contents (counts included) are compared; every proof entry must be a node of the backend before the session, that the session read; every old node read before being written must be recorded. Non-trivial: the session wrote nodes and the proofs are not empty.",
			assumptions: &["one tree per session"],
			parts: vec![Box::new(Random { name: "session", quick: 180_000, thorough: 3_000_000, strategy: prove, check: transparent }), crate::part::transparent_part()],
			known: no_known,
		},
	]
}
