//! C04, C05, C06, C15: histories of collections against a plain array.

use crate::base::*;
use crate::coll::*;
use crate::run::*;
use bm::{Error, Leak, Tree};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Ix {
	In(u16),
	Last,
	/// At the length, plus this much.
	Past(u16),
	/// Around the declared maximum.
	Max(i8),
	Huge(u8),
}

impl Ix {
	pub fn resolve(self, len: usize, max: Option<u64>) -> usize {
		match self {
			Ix::In(i) => if len == 0 { 0 } else { (i as usize * len) >> 16 },
			Ix::Last => len.saturating_sub(1),
			Ix::Past(n) => len + n as usize,
			Ix::Max(d) => (max.unwrap_or(64) as i64 + d as i64).max(0) as usize,
			Ix::Huge(b) => match b % 4 {
				0 => usize::MAX,
				1 => 1 << 63,
				2 => (1 << 32) + len,
				_ => usize::MAX / 2,
			},
		}
	}
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
	Get(Ix),
	Set(Ix, u16),
	/// Write an element's present value again.
	Rewrite(Ix),
	Push(u16),
	Pop,
	PushN(u8, u16),
	PopN(u8),
	PopAll,
	Reopen(Reopen),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
	pub kit: u8,
	pub spec: Spec,
	pub max: Option<u64>,
	pub init: u16,
	pub ops: Vec<Op>,
}

pub fn ix() -> impl Strategy<Value = Ix> {
	prop_oneof![
		8 => any::<u16>().prop_map(Ix::In),
		2 => Just(Ix::Last),
		3 => (0u16..4).prop_map(Ix::Past),
		1 => (0u16..300).prop_map(Ix::Past),
		1 => (-2i8..3).prop_map(Ix::Max),
		1 => any::<u8>().prop_map(Ix::Huge),
	]
}

pub fn val() -> impl Strategy<Value = u16> {
	prop_oneof![2 => 0u16..4, 3 => any::<u16>()]
}

pub fn max_len() -> impl Strategy<Value = Option<u64>> {
	prop_oneof![
		4 => Just(None),
		4 => (1u64..12).prop_map(Some),
		3 => (1u64..140).prop_map(Some),
		2 => (0u32..21, -1i64..2).prop_map(|(k, d)| Some(((1i64 << k) + d).max(1) as u64)),
		1 => (20u32..45, -1i64..2).prop_map(|(k, d)| Some(((1i64 << k) + d) as u64)),
	]
}

pub fn spec(kinds: &'static [Kind]) -> impl Strategy<Value = Spec> {
	(0..kinds.len(), 0u8..6, any::<bool>()).prop_map(move |(k, w, owned)| Spec {
		kind: kinds[k],
		w: if kinds[k].packed() { w } else { 0 },
		owned,
	})
}

fn op(reopen: bool, big: u8) -> impl Strategy<Value = Op> {
	prop_oneof![
		4 => ix().prop_map(Op::Get),
		5 => (ix(), val()).prop_map(|(i, v)| Op::Set(i, v)),
		1 => ix().prop_map(Op::Rewrite),
		6 => val().prop_map(Op::Push),
		4 => Just(Op::Pop),
		4 => (1u8..big, val()).prop_map(|(n, v)| Op::PushN(n, v)),
		2 => (1u8..big).prop_map(Op::PopN),
		1 => Just(Op::PopAll),
		if reopen { 6 } else { 0 } => prop_oneof![
			Just(Op::Reopen(Reopen::Leak)), Just(Op::Reopen(Reopen::Raw)), Just(Op::Reopen(Reopen::Root))
		],
	]
}

fn hist(kinds: &'static [Kind], reopen: bool, thorough: bool) -> BoxedStrategy<Hist> {
	let (n, big) = if thorough { (80, 60) } else { (28, 24) };
	(
		0..KITS,
		spec(kinds),
		max_len(),
		prop_oneof![3 => Just(0u16), 2 => 0u16..70],
		proptest::collection::vec(op(reopen, big), 1..n),
	)
		.prop_map(|(kit, spec, max, init, ops)| {
			let mut h = Hist { kit, spec, max, init, ops };
			// Lists start empty. Never-written elements of a vector under the unit
			// construct are a recorded finding (see known-findings.txt).
			if spec.kind.list() || kit % 2 == 1 {
				h.init = 0;
			}
			if let Some(m) = max {
				h.init = (h.init as u64).min(m) as u16;
			}
			h
		})
		.boxed()
}

const CAP: usize = 400;

/// A model of the elements, with what the collection must answer.
pub struct Model {
	pub elems: Vec<Vec<u8>>,
	pub max: Option<u64>,
	pub width: usize,
}

/// What one elementary operation answered.
#[derive(Debug, Clone, PartialEq)]
pub enum Ans {
	Bytes(Vec<u8>),
	Done,
	None,
	Overflow,
	Other(Error<XErr>),
}

pub fn ans_of<X>(r: Result<X, Error<XErr>>, f: impl FnOnce(X) -> Ans) -> Ans {
	match r {
		Ok(x) => f(x),
		Err(Error::AccessOverflowed) => Ans::Overflow,
		Err(e) => Ans::Other(e),
	}
}

/// Elementary operations, with indices resolved.
#[derive(Debug, Clone, Copy)]
pub enum El {
	Get(usize),
	Set(usize, u16),
	Push(u16),
	Pop,
}

impl Model {
	pub fn expand(&self, op: Op) -> Vec<El> {
		let len = self.elems.len();
		match op {
			Op::Get(i) => vec![El::Get(i.resolve(len, self.max))],
			Op::Set(i, v) => vec![El::Set(i.resolve(len, self.max), v)],
			Op::Rewrite(_) | Op::Reopen(_) => vec![],
			Op::Push(v) => vec![El::Push(v)],
			Op::Pop => vec![El::Pop],
			Op::PushN(n, v) => (0..n as u16)
				.filter(|k| len + (*k as usize) < CAP)
				.map(|k| El::Push(if v % 3 == 0 { v } else { v.wrapping_add(k) }))
				.collect(),
			Op::PopN(n) => (0..n).map(|_| El::Pop).collect(),
			Op::PopAll => (0..len + 1).map(|_| El::Pop).collect(),
		}
	}
	pub fn apply(&mut self, el: El) -> Ans {
		match el {
			El::Get(i) => self.elems.get(i).map(|e| Ans::Bytes(e.clone())).unwrap_or(Ans::Overflow),
			El::Set(i, v) => match self.elems.get_mut(i) {
				Some(e) => {
					*e = bytes_of(v, self.width);
					Ans::Done
				}
				None => Ans::Overflow,
			},
			El::Push(v) => {
				if self.max.map(|m| self.elems.len() as u64 >= m).unwrap_or(false) {
					Ans::Overflow
				} else {
					self.elems.push(bytes_of(v, self.width));
					Ans::Done
				}
			}
			El::Pop => self.elems.pop().map(Ans::Bytes).unwrap_or(Ans::None),
		}
	}
}

pub fn apply<K: Kit>(c: &mut Box<dyn Coll<K>>, db: &mut Db<'_, K::C>, width: usize, el: El) -> Ans {
	match el {
		El::Get(i) => ans_of(c.get(db, i), Ans::Bytes),
		El::Set(i, v) => ans_of(c.set(db, i, &bytes_of(v, width)), |_| Ans::Done),
		El::Push(v) => ans_of(c.push(db, &bytes_of(v, width)), |_| Ans::Done),
		El::Pop => ans_of(c.pop(db), |o| o.map(Ans::Bytes).unwrap_or(Ans::None)),
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Oracle {
	Elements,
	Roots,
}

fn drive<K: Make>(h: &Hist, ctx: &mut Ctx, oracle: Oracle) -> Res {
	let r = Ref::<K>::new();
	let mut mem = Mem::<K>::default();
	let mut e = E(&mut mem);
	let mut db = Db::<K::C>(&mut e);
	let kind = h.spec.kind;
	let width = K::width(kind, h.spec.w);
	let mut c = K::make(&mut db, h.spec, h.init as usize, h.max).map_err(|e| format!("create: {:?}", e))?;
	let mut m = Model { elems: vec![vec![0; width]; h.init as usize], max: h.max, width };
	let mut longest = 0;
	for (n, op) in h.ops.iter().enumerate() {
		let els = match op {
			Op::Rewrite(i) => {
				let i = i.resolve(m.elems.len(), m.max);
				if let Some(old) = m.elems.get(i) {
					let before = c.root();
					let old = old.clone();
					c.set(&mut db, i, &old).map_err(|e| format!("op {}: rewriting {}: {:?}", n, i, e))?;
					ensure!(
						oracle != Oracle::Roots || c.root() == before,
						"op {}: rewriting element {} with its own value changed the root", n, i
					);
				}
				vec![]
			}
			_ => m.expand(*op),
		};
		for el in els {
			let before = (c.root(), c.len());
			let want = m.apply(el);
			let got = apply(&mut c, &mut db, width, el);
			if oracle == Oracle::Elements {
				ensure!(got == want, "op {} {:?}: got {:?}, an array gives {:?}", n, el, got, want);
			}
			if want == Ans::Overflow || want == Ans::None {
				ctx.label(match el {
					El::Push(_) => "push refused at maximum",
					El::Pop => "pop of empty",
					_ => "index past the end",
				});
				ensure!(
					oracle != Oracle::Elements || (c.root(), c.len()) == before,
					"op {} {:?}: a refused operation changed the root or the length", n, el
				);
			}
			if oracle == Oracle::Elements {
				ensure!(c.len() == m.elems.len(), "op {} {:?}: length {} instead of {}", n, el, c.len(), m.elems.len());
			}
			if oracle == Oracle::Roots && !matches!(el, El::Get(_)) {
				let want = model_tree(&r, kind, h.spec.w, &m.elems, h.max).hash();
				ensure!(
					c.root() == want,
					"op {} {:?}: root {} but the {} elements give {}",
					n, el, hex(c.root().as_ref()), m.elems.len(), hex(want.as_ref())
				);
			}
		}
		longest = longest.max(m.elems.len());
		if oracle == Oracle::Elements {
			for (i, want) in m.elems.iter().enumerate() {
				match c.get(&mut db, i) {
					Ok(v) if &v == want => (),
					other => return Err(format!("after op {} {:?}: element {} reads {:?} instead of {:?}", n, op, i, other, want)),
				}
			}
			for i in [m.elems.len(), m.elems.len() + 1] {
				let got = c.get(&mut db, i);
				ensure!(got == Err(Error::AccessOverflowed), "after op {}: reading {} of {} gives {:?}", n, i, m.elems.len(), got);
			}
		}
	}
	if oracle == Oracle::Roots {
		batch::<K>(h, &m, &c.root())?;
	}
	ctx.label(match kind {
		Kind::Vector => "vector",
		Kind::List => "list",
		Kind::PVec => "packed vector",
		Kind::PList => "packed list",
	});
	if spanning::<K>(kind, h.spec.w) {
		ctx.label("elements spanning chunks");
	}
	if h.max.is_some() {
		ctx.label("with maximum");
	}
	if longest >= 3 && h.ops.len() >= 3 {
		ctx.hit();
	}
	Ok(())
}

/// The code's own whole-value merkleization of the final elements.
fn batch<K: Make>(h: &Hist, m: &Model, root: &K::V) -> Res {
	let kind = h.spec.kind;
	let bytes = m.elems.concat();
	let leaves: Vec<K::V> = bytes.chunks(K::V::LEN).map(K::V::of).collect();
	let chunks = match h.max {
		Some(x) if kind.packed() => Some(chunks_for(x as u128, m.width, K::V::LEN) as u64),
		other => other,
	};
	let mut noop = bm::NoopBackend::<K::C>::default();
	let items = bm::utils::vector_tree(&leaves, &mut noop, chunks).map_err(|e| format!("vector_tree: {:?}", e))?;
	let whole = if kind.list() { rhash(&items, &K::V::of(&(m.elems.len() as u64).to_le_bytes())) } else { items };
	ensure!(&whole == root, "root {} but merkleizing the elements at once gives {}", hex(root.as_ref()), hex(whole.as_ref()));
	Ok(())
}

fn elements(h: &Hist, ctx: &mut Ctx) -> Res {
	with_kit!(h.kit, K => drive::<K>(h, ctx, Oracle::Elements))
}

fn roots(h: &Hist, ctx: &mut Ctx) -> Res {
	with_kit!(h.kit, K => drive::<K>(h, ctx, Oracle::Roots))
}

/// Two copies of one collection; one of them is closed and reopened now and then.
fn twins<K: Make>(h: &Hist, ctx: &mut Ctx) -> Res {
	let (mut mem_a, mut mem_b) = (Mem::<K>::default(), Mem::<K>::default());
	let (mut ea, mut eb) = (E(&mut mem_a), E(&mut mem_b));
	let (mut a_db, mut b_db) = (Db::<K::C>(&mut ea), Db::<K::C>(&mut eb));
	let kind = h.spec.kind;
	let width = K::width(kind, h.spec.w);
	let mut a = K::make(&mut a_db, h.spec, h.init as usize, h.max).map_err(|e| format!("create: {:?}", e))?;
	let mut b = K::make(&mut b_db, h.spec, h.init as usize, h.max).map_err(|e| format!("create: {:?}", e))?;
	// Only used to resolve indices; the oracle is the copy that stays open.
	let mut m = Model { elems: vec![vec![0; width]; h.init as usize], max: h.max, width };
	let mut reopened = false;
	for (n, op) in h.ops.iter().enumerate() {
		if let Op::Reopen(how) = op {
			let before = (b.root(), b.len(), b.dims());
			b = b.reopen(&mut b_db, *how, h.max).map_err(|e| format!("op {}: reopening ({:?}): {:?}", n, how, e))?;
			let after = (b.root(), b.len(), b.dims());
			ensure!(before == after, "op {}: reopening ({:?}) turned {:?} into {:?}", n, how, before, after);
			for i in 0..a.len() {
				let (x, y) = (a.get(&mut a_db, i), b.get(&mut b_db, i));
				ensure!(x == y, "op {}: after reopening ({:?}) element {} reads {:?} instead of {:?}", n, how, i, y, x);
			}
			ctx.label(match how {
				Reopen::Leak => "through metadata",
				Reopen::Raw => "through a raw tree",
				Reopen::Root => "through the single root",
			});
			reopened |= !m.elems.is_empty();
			continue;
		}
		for el in m.expand(*op) {
			m.apply(el);
			let x = apply(&mut a, &mut a_db, width, el);
			let y = apply(&mut b, &mut b_db, width, el);
			ensure!(x == y, "op {} {:?}: the reopened handle answers {:?} instead of {:?}", n, el, y, x);
			ensure!(
				a.root() == b.root() && a.len() == b.len() && a.dims() == b.dims(),
				"op {} {:?}: the reopened handle has another root, length or maximum", n, el
			);
		}
	}
	// The closed and reopened owner still owns its tree, and only that.
	b = b.twin(h.spec.owned);
	b.drop_(&mut b_db).map_err(|e| format!("drop: {:?}", e))?;
	a.drop_(&mut a_db).map_err(|e| format!("drop: {:?}", e))?;
	ensure!(mem_a.as_ref() == mem_b.as_ref(), "the backend differs from that of a handle that was never closed");
	if reopened {
		ctx.hit();
	}
	Ok(())
}

fn reopen(h: &Hist, ctx: &mut Ctx) -> Res {
	with_kit!(h.kit, K => twins::<K>(h, ctx))
}

/// Reconstruction over a database that lost some nodes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lost {
	kit: u8,
	elems: Vec<u16>,
	max: Option<u64>,
	/// Which of the two nodes needed is absent.
	drop_root: bool,
	junk: u16,
}

fn lost(_t: bool) -> BoxedStrategy<Lost> {
	(0..KITS, proptest::collection::vec(val(), 0..20), max_len(), any::<bool>(), any::<u16>())
		.prop_map(|(kit, elems, max, drop_root, junk)| Lost { kit, elems, max, drop_root, junk })
		.boxed()
}

fn lost_check(l: &Lost, ctx: &mut Ctx) -> Res {
	fn go<K: Make>(l: &Lost, ctx: &mut Ctx) -> Res {
		let mut mem = Mem::<K>::default();
		let max = l.max.map(|m| m.max(l.elems.len() as u64));
		let (root, len) = on::<K, _>(&mut mem, |db| {
			let mut c = K::owned(db, Kind::List, 0, 0, max)?;
			for v in &l.elems {
				c.push(db, &bytes_of(*v, K::V::LEN))?;
			}
			Ok((c.root(), c.len()))
		})
		.map_err(|e: Error<XErr>| format!("building: {:?}", e))?;
		let mut nodes = Map::new();
		for (k, (pair, _)) in mem.as_ref().iter() {
			if let Some(p) = pair {
				nodes.insert(k.clone(), p.clone());
			}
		}
		// All nodes present: the length is the stored one.
		let mut whole = Mem::<K>::default();
		whole.populate(nodes.clone().into_iter().collect());
		on::<K, _>(&mut whole, |db| -> Res {
			let again = bm::DanglingList::<K::C>::reconstruct(root.clone(), db, max)
				.map_err(|e| format!("reconstruct over a complete copy: {:?}", e))?;
			ensure!(bm::Sequence::len(&again) == len, "reconstructed length {} instead of {}", bm::Sequence::len(&again), len);
			ensure!(Tree::root(&again) == root, "reconstruction changed the root");
			Ok(())
		})?;
		// The root node absent, or another root altogether.
		nodes.remove(&root);
		let mut part = Mem::<K>::default();
		part.populate(nodes.into_iter().collect());
		let wanted = if l.drop_root { root.clone() } else { K::V::of(&bytes_of(l.junk | 1, K::V::LEN)) };
		on::<K, _>(&mut part, |db| -> Res {
			let got = bm::DanglingList::<K::C>::reconstruct(wanted, db, max);
			match got {
				Err(_) => Ok(()),
				Ok(x) => Err(format!("reconstruction without its root node succeeded with length {}", bm::Sequence::len(&x))),
			}
		})?;
		ctx.hit();
		Ok(())
	}
	with_kit!(l.kit, K => go::<K>(l, ctx))
}

/// Every short operation sequence over a tiny alphabet.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Short {
	kit: u8,
	spec: Spec,
	max: Option<u64>,
	init: u16,
	/// Base-4 digits, one per operation.
	code: u32,
	len: u8,
}

fn short_cases(kinds: &[Kind], thorough: bool) -> Vec<Short> {
	let len = if thorough { 6 } else { 4 };
	let mut v = Vec::new();
	for kit in 0..KITS {
		for &kind in kinds {
			for w in 0..(if kind.packed() { 6 } else { 1 }) {
				for max in [None, Some(1), Some(2), Some(3), Some(5)] {
					for init in [0u16, 2, 3] {
						if (kind.list() || kit % 2 == 1) && init > 0 || max.map(|m| (init as u64) > m).unwrap_or(false) {
							continue;
						}
						for code in 0..4u32.pow(len) {
							v.push(Short { kit, spec: Spec { kind, w, owned: true }, max, init, code, len: len as u8 });
						}
					}
				}
			}
		}
	}
	v
}

fn unshort(s: &Short) -> Hist {
	let mut ops = Vec::new();
	let mut code = s.code;
	for k in 0..s.len {
		ops.push(match code % 4 {
			0 => Op::Push(k as u16 + 1),
			1 => Op::Pop,
			2 => Op::Set(Ix::Last, k as u16 + 9),
			_ => Op::Set(Ix::In(0), 0),
		});
		code /= 4;
	}
	Hist { kit: s.kit, spec: s.spec, max: s.max, init: s.init, ops }
}

fn short_elements(s: &Short, ctx: &mut Ctx) -> Res {
	elements(&unshort(s), ctx)?;
	ctx.nontrivial = s.init > 0 || (0..s.len).any(|k| s.code >> (2 * k) & 3 == 0);
	Ok(())
}
fn short_roots(s: &Short, ctx: &mut Ctx) -> Res {
	roots(&unshort(s), ctx)?;
	ctx.nontrivial = s.init > 0 || (0..s.len).any(|k| s.code >> (2 * k) & 3 == 0);
	Ok(())
}

const PLAIN: &[Kind] = &[Kind::Vector, Kind::List];
const PACKED: &[Kind] = &[Kind::PVec, Kind::PList];
const ALL: &[Kind] = &[Kind::Vector, Kind::List, Kind::PVec, Kind::PList];

fn known_c04() -> Vec<Known> {
	let mut mem = Mem::<KU>::default();
	let got = on::<KU, _>(&mut mem, |db| {
		let v = bm::OwnedVector::<CU>::create(db, 2, None)?;
		v.get(db, 0)
	});
	vec![Known {
		what: "unit construct: OwnedVector::create(len = 2, None) then get(0) returns CorruptedDatabase instead of the zero value".into(),
		still_fails: got == Err(Error::CorruptedDatabase),
	}]
}

fn known_c05() -> Vec<Known> {
	let mut mem = Mem::<KU>::default();
	let got = on::<KU, _>(&mut mem, |db| K_packed(db));
	vec![Known {
		what: "unit construct: OwnedPackedVector::create(len = 2 chunks, None) then get(0) returns CorruptedDatabase instead of zero bytes".into(),
		still_fails: got == Err(Error::CorruptedDatabase),
	}]
}

#[allow(non_snake_case)]
fn K_packed(db: &mut Db<'_, CU>) -> Result<Vec<u8>, Error<XErr>> {
	let c = KU::owned(db, Kind::PVec, 3, 2, None)?;
	c.get(db, 0)
}

fn known_c15() -> Vec<Known> {
	let mut mem = Mem::<KI>::default();
	let got = on::<KI, _>(&mut mem, |db| -> Result<bool, Error<XErr>> {
		let mut l = bm::OwnedList::<CI>::create(db, None)?;
		for i in 1..4usize {
			l.push(db, i.into())?;
		}
		let len = bm::Sequence::len(&l);
		let back = l.into_raw().into_list(len, None);
		let mut same = true;
		for i in 0..3usize {
			same &= back.get(db, i).ok() == Some((i + 1).into());
		}
		let _ = back.metadata();
		Ok(same)
	});
	vec![Known {
		what: "List::from_raw / Raw::into_list of a list's raw tree ([1, 2, 3], no maximum) reads other nodes as elements: it takes the length-mixed root for the root of the elements".into(),
		still_fails: got != Ok(true),
	}]
}

pub fn properties() -> Vec<Property> {
	vec![
		Property {
			id: "C04",
			level: "exploration",
			rule: "Random histories (get, set, push, pop, bursts, out-of-range and huge indices) over vectors and lists in four constructs, owned and dangling, maxima from none to 2^44; each answer, length and every element compared with a Vec after every operation. Non-trivial: at least 3 operations and a length of at least 3. Plus every 4-operation sequence over a 4-letter alphabet for 5 maxima (non-trivial: something is stored). Plus sparse collections of up to 2^64-1 elements, created or opened, against a sparse map.",
			assumptions: &["vectors created non-empty under the unit construct are excluded (known finding)"],
			parts: vec![
				Box::new(Random { name: "history", quick: 160_000, thorough: 4_000_000, strategy: |t| hist(PLAIN, false, t), check: elements }),
				Box::new(Exhaustive { name: "short", all: |t| short_cases(PLAIN, t), check: short_elements }),
				Box::new(Random { name: "far", quick: 40_000, thorough: 1_000_000, strategy: crate::far::plain, check: crate::far::elements }),
			],
			known: known_c04,
		},
		Property {
			id: "C05",
			level: "exploration",
			rule: "As C04 for packed vectors and packed lists: element sizes 1,8,12,32,48,64 in 32-byte chunks and 1,3,4,8,12,16 in 8-byte chunks; every element read back after every operation. Non-trivial: at least 3 operations and a length of at least 3. Plus short histories, and sparse collections of up to 2^64-1 elements against a sparse map (every element touched and its neighbours read back).",
			assumptions: &["packed vectors created non-empty under the unit construct are excluded (known finding)"],
			parts: vec![
				Box::new(Random { name: "history", quick: 120_000, thorough: 3_000_000, strategy: |t| hist(PACKED, false, t), check: elements }),
				Box::new(Exhaustive { name: "short", all: |t| short_cases(PACKED, t), check: short_elements }),
				Box::new(Random { name: "far", quick: 30_000, thorough: 1_000_000, strategy: crate::far::packed, check: crate::far::elements }),
			],
			known: known_c05,
		},
		Property {
			id: "C06",
			level: "exploration",
			rule: "Random edit histories of all four collection kinds; after every edit the root is compared with that of an independent reference tree over the current elements, and finally with the code's own batch merkleization. Non-trivial: at least 3 operations and a length of at least 3. Plus every 4-operation sequence over a 4-letter alphabet (non-trivial: something is stored), and edits of sparse collections of up to 2^64-1 elements.",
			assumptions: &["SHA-256 (sha2 0.10) as reference hash", "vectors created non-empty under the unit construct are excluded"],
			parts: vec![
				Box::new(Random { name: "history", quick: 100_000, thorough: 2_500_000, strategy: |t| hist(ALL, false, t), check: roots }),
				Box::new(Exhaustive { name: "short", all: |t| short_cases(ALL, t), check: short_roots }),
				Box::new(Random { name: "far", quick: 30_000, thorough: 1_000_000, strategy: crate::far::all, check: crate::far::roots }),
			],
			known: no_known,
		},
		Property {
			id: "C15",
			level: "exploration",
			rule: "The same random history on two copies, one of which is closed and reopened (metadata, raw tree, single root) at random points: answers, roots, lengths, maxima and final backend contents must agree. Non-trivial: reopened while not empty. Plus sparse collections of up to 2^64-1 elements reopened along the way (non-trivial: reopened and edited), and reconstruction over databases lacking the root node.",
			assumptions: &["List::from_raw and Raw::into_list are excluded (known finding)"],
			parts: vec![
				Box::new(Random { name: "reopen", quick: 100_000, thorough: 2_500_000, strategy: |t| hist(ALL, true, t), check: reopen }),
				Box::new(Random { name: "far", quick: 30_000, thorough: 800_000, strategy: crate::far::all, check: crate::far::reopened }),
				Box::new(Random { name: "lost", quick: 8_000, thorough: 80_000, strategy: lost, check: lost_check }),
			],
			known: known_c15,
		},
	]
}
