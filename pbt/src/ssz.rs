//! C01, C02, C03, C16: encoding and decoding of every type in the zoo.

use crate::base::*;
use crate::prove::{frozen, stored, Nodes};
use crate::run::*;
use crate::zoo::*;
use bm::{Backend, Dangling, DynBackend, Index, Leak, ProvingBackend, Raw, ReadBackend, WriteBackend};
use bm_le::Value;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V {
	pub ty: u16,
	pub bytes: Vec<u8>,
	/// The first list's length, if it is to be large.
	#[serde(default)]
	pub large: u32,
}

impl V {
	pub fn ty(&self) -> &'static Ty {
		&ZOO[self.ty as usize % ZOO.len()]
	}
	pub fn value(&self) -> Box<dyn Zv> {
		if self.large > 0 {
			let seed = self.bytes.iter().fold(self.large as u64, |a, b| a.wrapping_mul(257) + *b as u64);
			return (self.ty().gen)(&mut Src::large(&self.bytes, self.large as usize, seed));
		}
		(self.ty().gen)(&mut Src::new(&self.bytes))
	}
}

pub fn a_value(thorough: bool) -> impl Strategy<Value = V> {
	let n = if thorough { 260 } else { 130 };
	(
		0..ZOO.len() as u16,
		prop_oneof![
			1 => Just(vec![]),
			3 => proptest::collection::vec(any::<u8>(), 0..20),
			4 => proptest::collection::vec(any::<u8>(), 20..n),
		],
	)
		.prop_map(|(ty, bytes)| V { ty, bytes, large: 0 })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Enc {
	kit: u8,
	v: V,
	/// Other trees in the backend.
	prior: Vec<V>,
	/// Trees added between encoding and decoding.
	later: Vec<V>,
	frozen: bool,
}

fn enc(thorough: bool) -> BoxedStrategy<Enc> {
	let others = || prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec(a_value(false), 1..4)];
	(0u8..2, a_value(thorough), others(), others(), any::<bool>())
		.prop_map(|(kit, v, prior, later, frozen)| Enc { kit, v, prior, later, frozen })
		.boxed()
}

fn enc_one(thorough: bool) -> BoxedStrategy<Enc> {
	(0u8..2, a_value(thorough))
		.prop_map(|(kit, v)| Enc { kit, v, prior: vec![], later: vec![], frozen: false })
		.boxed()
}

/// Long lists, of lengths where the tree gets deeper or not.
fn enc_large(thorough: bool) -> BoxedStrategy<Enc> {
	let of = |f: &dyn Fn(&str) -> bool| -> Vec<u16> { (0..ZOO.len() as u16).filter(|t| f(ZOO[*t as usize].name)).collect() };
	let packed = of(&|n| n.starts_with("CList<") || n == "Compact<MaxVec<bool, tn::U2048>>" || n == "Compact<MaxVec<u64, Big>>");
	let plain = of(&|n| n.starts_with("Vec<") || n == "MaxVec<H256, Big>");
	let most = if thorough { 14 } else { 13 };
	let len = move |least: u32, most: u32| {
		prop_oneof![
			3 => (least..=most, -2i64..=2).prop_map(|(k, d)| ((1i64 << k) + d) as u32),
			1 => (least..=most, 1u32..16, 0u32..3).prop_map(|(k, m, d)| (1 << k) / 16 * (16 + m) + d - 1),
			1 => (1u32 << least)..(1 << most),
		]
	};
	let pick = prop_oneof![
		1 => (proptest::sample::select(plain), len(8, most)),
		1 => (proptest::sample::select(packed), len(9, most + 3)),
	];
	(0u8..2, pick, proptest::collection::vec(any::<u8>(), 0..4), any::<bool>())
		.prop_map(|(kit, (ty, large), bytes, frozen)| Enc {
			kit,
			v: V { ty, bytes, large },
			prior: vec![],
			later: vec![],
			frozen,
		})
		.boxed()
}

/// Every length of the list-like types and every single-byte value source, of every type.
fn enc_lengths(thorough: bool) -> Vec<Enc> {
	let mut out = vec![];
	for kit in 0..2 {
		for ty in 0..ZOO.len() as u16 {
			for first in 0..=255u8 {
				if !thorough && first > 130 && first % 5 != 0 && first < 180 {
					continue;
				}
				let tail: Vec<u8> = bytes_of(ty + 1 + first as u16, 40);
				let mut bytes = vec![first];
				bytes.extend(tail);
				out.push(Enc { kit, v: V { ty, bytes, large: 0 }, prior: vec![], later: vec![], frozen: false });
			}
		}
	}
	out
}

fn note(c: &V, ctx: &mut Ctx, sym: &Sym) {
	ctx.label(c.ty().name);
	if sym.size() > 2 {
		ctx.hit();
	}
}

fn roots(c: &Enc, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => roots_go::<K>(c, ctx))
}

fn roots_go<K: Zk>(c: &Enc, ctx: &mut Ctx) -> Res {
	let v = c.v.value();
	let sym = v.description();
	note(&c.v, ctx, &sym);
	let want = sym.tree(&Ref::<K>::new()).hash();
	let mut mem = Mem::<K>::default();
	let got = on::<K, _>(&mut mem, |db| K::enc(&*v, db)).map_err(|e| format!("{}: {:?}", c.v.ty().name, e))?;
	ensure!(got == want, "{}: root {:?} but SSZ gives {:?}", c.v.ty().name, got, want);
	let mut noop = bm::NoopBackend::<K::C>::default();
	let got = K::enc(&*v, &mut Db(&mut E(&mut noop))).map_err(|e| format!("{}: {:?}", c.v.ty().name, e))?;
	ensure!(got == want, "{}: root {:?} without storage but SSZ gives {:?}", c.v.ty().name, got, want);
	if K::INHERITED {
		ensure!(v.root_only() == want, "{}: tree_root differs from SSZ", c.v.ty().name);
	}
	Ok(())
}

fn round(c: &Enc, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => round_go::<K>(c, ctx))
}

fn prepared<K: Zk>(c: &Enc) -> Result<Mem<K>, String> {
	let mut mem = Mem::<K>::default();
	for p in &c.prior {
		on::<K, _>(&mut mem, |db| K::enc(&*p.value(), db)).map_err(|e| format!("{}: {:?}", p.ty().name, e))?;
	}
	Ok(if c.frozen { frozen::<K>(&stored::<K>(&mem)) } else { mem })
}

fn round_go<K: Zk>(c: &Enc, ctx: &mut Ctx) -> Res {
	let name = c.v.ty().name;
	let v = c.v.value();
	let sym = v.description();
	note(&c.v, ctx, &sym);
	let mut mem = prepared::<K>(c)?;
	let root = on::<K, _>(&mut mem, |db| K::enc(&*v, db)).map_err(|e| format!("{}: encoding: {:?}", name, e))?;
	let check = |mem: &mut Mem<K>, when: &str| -> Res {
		let before = mem.as_ref().clone();
		let got = on::<K, _>(mem, |db| K::dec(c.v.ty(), &root, db)).map_err(|e| format!("{}: decoding {}: {:?}", name, when, e))?;
		ensure!(got == sym, "{}: decoding {} gives {:?} instead of {:?}", name, when, got, sym);
		ensure!(mem.as_ref() == &before, "{}: decoding changed the backend", name);
		Ok(())
	};
	check(&mut mem, "right away")?;
	if !c.prior.is_empty() {
		ctx.label("backend not empty");
	}
	for p in &c.later {
		on::<K, _>(&mut mem, |db| K::enc(&*p.value(), db)).map_err(|e| format!("{}: {:?}", p.ty().name, e))?;
	}
	if !c.later.is_empty() {
		check(&mut mem, "after storing other trees")?;
	}
	// Once more: encoding what is already there.
	let again = on::<K, _>(&mut mem, |db| K::enc(&*v, db)).map_err(|e| format!("{}: encoding: {:?}", name, e))?;
	ensure!(again == root, "{}: encoding again gives another root", name);
	check(&mut mem, "after encoding again")?;
	// The reference tree must be decodable as well.
	let mut independent = frozen::<K>(&sym.tree(&Ref::<K>::new()).nodes());
	let t = sym.tree(&Ref::<K>::new()).hash();
	let got = on::<K, _>(&mut independent, |db| K::dec(c.v.ty(), &t, db))
		.map_err(|e| format!("{}: decoding the reference tree: {:?}", name, e))?;
	ensure!(got == sym, "{}: decoding the reference tree gives {:?} instead of {:?}", name, got, sym);
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Skimmed {
	kit: u8,
	ty: u8,
	bytes: Vec<u8>,
}

fn skimmed(thorough: bool) -> BoxedStrategy<Skimmed> {
	let n = if thorough { 260 } else { 130 };
	(0u8..2, 0..SKIMS.len() as u8, proptest::collection::vec(any::<u8>(), 0..n))
		.prop_map(|(kit, ty, bytes)| Skimmed { kit, ty, bytes })
		.boxed()
}

/// The whole value with the ignored parts as single nodes, if the rest agrees.
fn overlay<K: Zk>(read: &Sym, full: &Sym, r: &Ref<K>) -> Option<Sym> {
	Some(match (read, full) {
		(read, full) if *read == IGNORED => Sym::Leaf(full.tree(r).hash().0 .0),
		(Sym::Seq { elems: a, max: m }, Sym::Seq { elems: b, max: n }) if a.len() == b.len() && m == n => {
			Sym::Seq { elems: a.iter().zip(b).map(|(a, b)| overlay(a, b, r)).collect::<Option<_>>()?, max: *m }
		}
		(Sym::List { items: a, len: k, max: m }, Sym::List { items: b, len: l, max: n }) if k == l && m == n => {
			Sym::List { items: Box::new(overlay(a, b, r)?), len: *k, max: *m }
		}
		(Sym::Union { tag: s, inner: a, .. }, Sym::Union { tag: t, inner: b, variants, units }) if s == t => {
			Sym::Union { tag: *s, inner: Box::new(overlay(a, b, r)?), variants: *variants, units: units.clone() }
		}
		(a, b) if a == b => a.clone(),
		_ => return None,
	})
}

fn skimmed_check(c: &Skimmed, ctx: &mut Ctx) -> Res {
	fn go<K: Zk>(c: &Skimmed, ctx: &mut Ctx) -> Res {
		let ty = &SKIMS[c.ty as usize % SKIMS.len()];
		let full = (ty.gen)(&mut Src::new(&c.bytes)).description();
		let r = Ref::<K>::new();
		let t = full.tree(&r);
		let nodes = t.nodes();
		let read = |nodes: &Nodes<Value>| {
			let mut lens = Lens::<K> { nodes, hidden: HashSet::new(), budget: 60_000 };
			K::skim(ty, &t.hash(), &mut Db(&mut lens))
		};
		let got = read(&nodes).map_err(|e| format!("{}: {:?}", ty.name, e))?;
		let few = overlay(&got, &full, &r).ok_or_else(|| format!("{}: {:?} read from {:?}", ty.name, got, full))?;
		let few = few.tree(&r);
		ensure!(few.hash() == t.hash(), "{}: harness: another root", ty.name);
		// Equal nodes may be needed in one place and only in part in another.
		fn all(t: &T<Value>, out: &mut Nodes<Value>) {
			if let Some((a, b)) = t.kids() {
				out.insert(t.hash(), (a.hash(), b.hash()));
				all(a, out);
				all(b, out);
			}
		}
		let mut kept = Nodes::<Value>::default();
		all(&few, &mut kept);
		let few = kept;
		let again = read(&few).map_err(|e| format!("{}: without the nodes of the ignored parts: {:?}", ty.name, e))?;
		ensure!(again == got, "{}: without the nodes of the ignored parts: {:?}", ty.name, again);
		ctx.label(ty.name);
		if few.len() < nodes.len() {
			ctx.hit();
		}
		Ok(())
	}
	with_zk!(c.kit, K => go::<K>(c, ctx))
}

fn backends(c: &Enc, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => backends_go::<K>(c, ctx))
}

fn backends_go<K: Zk>(c: &Enc, ctx: &mut Ctx) -> Res {
	let name = c.v.ty().name;
	let v = c.v.value();
	let sym = v.description();
	note(&c.v, ctx, &sym);
	let t = sym.tree(&Ref::<K>::new());
	let bad = |what: &str, e: bm::Error<XErr>| format!("{}: {}: {:?}", name, what, e);
	let mut roots: Vec<(&str, Value)> = vec![];
	{
		let mut noop = bm::NoopBackend::<K::C>::default();
		roots.push(("noop", K::enc(&*v, &mut Db(&mut E(&mut noop))).map_err(|e| bad("noop", e))?));
	}
	let mut fresh = Mem::<K>::default();
	roots.push(("memory", on::<K, _>(&mut fresh, |db| K::enc(&*v, db)).map_err(|e| bad("memory", e))?));
	let full = prepared::<K>(c)?;
	let mut mem = full.clone();
	roots.push(("populated memory", on::<K, _>(&mut mem, |db| K::enc(&*v, db)).map_err(|e| bad("populated", e))?));
	let mut proving = full.clone();
	{
		let mut e = E(&mut proving);
		let mut pb = ProvingBackend::new(&mut e);
		roots.push(("proving", K::enc(&*v, &mut Db(&mut pb)).map_err(|e| bad("proving", e))?));
		// Once more, over what it has just written.
		roots.push(("proving again", K::enc(&*v, &mut Db(&mut pb)).map_err(|e| bad("proving", e))?));
	}
	let mut stripped = full.clone();
	{
		let mut dy = DynBackend(E(&mut stripped));
		roots.push(("stripped", K::enc(&*v, &mut Db(&mut E(&mut dy))).map_err(|e| bad("stripped", e))?));
	}
	if K::INHERITED {
		roots.push(("tree_root", v.root_only()));
		let mut m = Mem::<KI>::default();
		if let Some(r) = on::<KI, _>(&mut m, |db| v.other_form(db)) {
			roots.push(("other form", r.map_err(|e| bad("other form", e))?));
			ctx.label("other form");
		}
	}
	for (what, root) in &roots {
		ensure!(root == &t.hash(), "{}: {} gives root {:?} instead of {:?}", name, what, root, t.hash());
	}
	ensure!(mem.as_ref() == stripped.as_ref(), "{}: the stripped backend stored something else", name);
	for (what, m) in [("memory", &mut fresh), ("populated memory", &mut mem), ("proving", &mut proving)] {
		for (k, (l, r)) in stored::<K>(m) {
			ensure!(k == rhash(&l, &r), "{}: {}: a node is stored under {:?} with other children", name, what, k);
		}
		on::<K, _>(m, |db| fully_readable(db, &t)).map_err(|e| format!("{}: {}: {}", name, what, e))?;
	}
	// By generalized index.
	let raw = Raw::<Dangling, K::C>::from_leaked(t.hash());
	let mut todo = std::collections::VecDeque::from([(1usize, t.clone())]);
	let mut n = 0;
	while let Some((one, t)) = todo.pop_front() {
		n += 1;
		let got = raw.get(&mut fresh, Index::from_one(one).unwrap()).map_err(|e| format!("{}: {:?}", name, e))?;
		ensure!(got == Some(t.hash()), "{}: index {} reads {:?}", name, one, got);
		ctx.inner += 1;
		if let Some((l, r)) = t.kids() {
			if one < 1 << 61 && n < 120 {
				todo.push_back((one * 2, l.clone()));
				todo.push_back((one * 2 + 1, r.clone()));
			}
		}
	}
	Ok(())
}

// ------------------------------------------------ hostile trees

/// Nodes with some of them hidden; a decoder gets only so many reads.
pub struct Lens<'a, K: Kit> {
	pub nodes: &'a Nodes<K::V>,
	pub hidden: HashSet<K::V>,
	pub budget: u64,
}

impl<'a, K: Kit> Backend for Lens<'a, K> {
	type Construct = K::C;
	type Error = XErr;
}
impl<'a, K: Kit> ReadBackend for Lens<'a, K> {
	fn get(&mut self, key: &K::V) -> Result<Option<(K::V, K::V)>, XErr> {
		if self.budget == 0 {
			return Err(XErr::Injected(0));
		}
		self.budget -= 1;
		if self.hidden.contains(key) {
			return Ok(None);
		}
		Ok(self.nodes.get(key).cloned())
	}
}
impl<'a, K: Kit> WriteBackend for Lens<'a, K> {
	fn rootify(&mut self, _: &K::V) -> Result<(), XErr> {
		Err(XErr::Noop)
	}
	fn unrootify(&mut self, _: &K::V) -> Result<(), XErr> {
		Err(XErr::Noop)
	}
	fn insert(&mut self, _: K::V, _: (K::V, K::V)) -> Result<(), XErr> {
		Err(XErr::Noop)
	}
}

fn decode<K: Zk>(ty: &Ty, root: &Value, nodes: &Nodes<Value>, hidden: HashSet<Value>) -> R<Sym> {
	let mut lens = Lens::<K> { nodes, hidden, budget: 60_000 };
	K::dec(ty, root, &mut Db(&mut lens))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
	/// Hide every single node in turn (at most this many), and random sets.
	Missing(u64),
	/// Change one number, leaf or empty part: which, how.
	Mutate(u16, u8, u8),
	/// Decode as another type.
	Confuse(u16),
	/// Exchange a stored node's children or replace it.
	Graft(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
	kit: u8,
	v: V,
	attack: Attack,
}

fn hostile(_t: bool) -> BoxedStrategy<Hostile> {
	let attack = prop_oneof![
		2 => any::<u64>().prop_map(Attack::Missing),
		6 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Attack::Mutate(a, b, c)),
		3 => (0..ZOO.len() as u16).prop_map(Attack::Confuse),
		3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Attack::Graft(a, b)),
	];
	(0u8..2, a_value(false), attack).prop_map(|(kit, v, attack)| Hostile { kit, v, attack }).boxed()
}

fn hostile_check(c: &Hostile, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => hostile_go::<K>(c, ctx))
}

fn beyond(n: &[u8; 32], limit: u64) -> bool {
	n[8..].iter().any(|b| *b != 0) || u64::from_le_bytes(n[..8].try_into().unwrap()) > limit
}

/// Numbers that are never right, or hardly ever.
fn odd_number(old: &[u8; 32], limit: Option<u64>, how: u8, more: u8) -> [u8; 32] {
	let n = u64::from_le_bytes(old[..8].try_into().unwrap());
	let top = limit.unwrap_or(n.wrapping_add(1));
	let mut b = match how % 12 {
		0 => num(n.wrapping_add(1)),
		1 => num(n.saturating_sub(1)),
		2 => num(top.saturating_add(1)),
		3 => num(top.saturating_add(more as u64 + 1)),
		4 => num(more as u64),
		5 => num(u64::MAX),
		6 => num(1 << 63),
		7 => num((1 << 63) - 1),
		8 => num(n),
		9 => num(n),
		10 => num(n.wrapping_add(256)),
		_ => num(n.wrapping_add(1 << 62)),
	};
	// Above the machine word.
	if how % 12 == 8 {
		b[8] = 1 + more % 255;
	}
	if how % 12 == 9 {
		b[8 + (more % 24) as usize] = 1;
	}
	b
}

fn hostile_go<K: Zk>(c: &Hostile, ctx: &mut Ctx) -> Res {
	let ty = c.v.ty();
	let r = Ref::<K>::new();
	let sym = c.v.value().description();
	let t = sym.tree(&r);
	let none = HashSet::new;
	match c.attack {
		Attack::Missing(mut bits) => {
			let nodes = t.nodes();
			let mut keys: Vec<&Value> = nodes.keys().collect();
			keys.sort();
			let mut sets: Vec<HashSet<Value>> = keys.iter().take(80).map(|k| HashSet::from([(*k).clone()])).collect();
			for _ in 0..4 {
				bits = bits.wrapping_mul(0x5851F42D4C957F2D).rotate_left(29) + 1;
				sets.push(keys.iter().enumerate().filter(|(i, _)| bits.rotate_right(*i as u32 * 7) & 3 == 0).map(|(_, k)| (*k).clone()).collect());
			}
			for hidden in sets {
				let shown = format!("{:?}", hidden.iter().next());
				if let Ok(got) = decode::<K>(ty, &t.hash(), &nodes, hidden) {
					ensure!(got == sym, "{}: without {} it decodes to {:?} instead of {:?}", ty.name, shown, got, sym);
				}
				ctx.inner += 1;
			}
			ctx.label("missing nodes");
			if nodes.len() > 1 {
				ctx.hit();
			}
		}
		Attack::Mutate(at, how, more) => {
			let mut bad = sym.clone();
			// Prefer the places with numbers.
			let size = bad.size();
			let mut place = at as usize % size;
			for k in 0..size {
				let mut n = (place + k) % size;
				if matches!(bad.part_mut(&mut n), Some(Sym::List { .. }) | Some(Sym::Union { .. }) | Some(Sym::Unit)) {
					place = (place + k) % size;
					break;
				}
			}
			let mut n = place;
			let mut refuse = None;
			if let Some(part) = bad.part_mut(&mut n) {
				match part {
					Sym::Leaf(b) => {
						*b = odd_number(b, None, how, more);
						ctx.label("leaf replaced");
					}
					Sym::Unit => {
						let leaf = if how % 2 == 0 { odd_number(&[0; 32], None, 0, more) } else { num(256 << (more % 50)) };
						*part = if how % 4 < 3 { Sym::Leaf(leaf) } else { Sym::seq(vec![Sym::Unit, Sym::Unit]) };
						refuse = Some("a non-zero node where an empty one is required");
					}
					Sym::Seq { elems, .. } => {
						if more % 2 == 0 { elems.pop(); } else { elems.reverse(); }
						ctx.label("elements removed or reordered");
					}
					Sym::List { len, max, .. } => {
						*len = odd_number(len, *max, how, more);
						if beyond(len, max.unwrap_or(u64::MAX)) {
							refuse = Some("a list length above the maximum");
						}
					}
					Sym::Union { tag, inner, variants, units } => {
						*tag = odd_number(tag, Some(*variants - 1), how, more);
						if beyond(tag, *variants - 1) {
							refuse = Some("a variant number out of range");
						} else if units.contains(&u64::from_le_bytes(tag[..8].try_into().unwrap()))
							&& inner.tree(&r).hash() != Value::default()
						{
							refuse = Some("a non-zero node where an empty one is required");
						}
					}
				}
			}
			let t = bad.tree(&r);
			let got = decode::<K>(ty, &t.hash(), &t.nodes(), none());
			if let Some(what) = refuse {
				ctx.hit();
				ctx.label(what);
				ensure!(got.is_err(), "{}: {} is accepted: {:?} gives {:?}", ty.name, what, bad, got);
			} else if bad == sym {
				ensure!(got == Ok(sym), "{}: the true tree is not decoded: {:?}", ty.name, got);
			}
		}
		Attack::Confuse(other) => {
			let other = &ZOO[other as usize % ZOO.len()];
			let _ = decode::<K>(other, &t.hash(), &t.nodes(), none());
			ctx.label("decoded as another type");
			ctx.hit();
		}
		Attack::Graft(a, b) => {
			let mut nodes = t.nodes();
			let mut keys: Vec<Value> = nodes.keys().cloned().collect();
			keys.sort();
			if !keys.is_empty() {
				let x = keys[a as usize % keys.len()].clone();
				let y = keys[b as usize % keys.len()].clone();
				let (l, r) = nodes[&x].clone();
				let new = match b % 5 {
					0 => (r, l),
					1 => (y, r),
					2 => (l, y),
					3 => (Value::default(), r),
					_ => (l, Value::of(&num(b as u64))),
				};
				nodes.insert(x, new);
				let _ = decode::<K>(ty, &t.hash(), &nodes, none());
				ctx.label("node replaced");
				ctx.hit();
			}
		}
	}
	Ok(())
}

/// Arbitrary backend contents over few values.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Junk {
	kit: u8,
	ty: u16,
	root: u8,
	nodes: Vec<(u8, u8, u8)>,
}

fn junk(_t: bool) -> BoxedStrategy<Junk> {
	let k = || 0u8..14;
	(0u8..2, 0..ZOO.len() as u16, k(), proptest::collection::vec((k(), k(), k()), 0..24))
		.prop_map(|(kit, ty, root, nodes)| Junk { kit, ty, root, nodes })
		.boxed()
}

fn junk_value(k: u8) -> Value {
	match k {
		0..=6 => Value::of(&num(k as u64)),
		7 => Value::of(&[0xff; 32]),
		8 => Value::of(&num(u64::MAX)),
		9 => Value::of(&num(1 << 63)),
		10 => Value::of(&num(65)),
		_ => Value::of(&bytes_of(k as u16, 32)),
	}
}

fn junk_check(c: &Junk, ctx: &mut Ctx) -> Res {
	fn go<K: Zk>(c: &Junk, ctx: &mut Ctx) -> Res {
		let nodes: Nodes<Value> =
			c.nodes.iter().map(|(k, l, r)| (junk_value(*k), (junk_value(*l), junk_value(*r)))).collect();
		let ty = &ZOO[c.ty as usize % ZOO.len()];
		let root = junk_value(c.root);
		let mut lens = Lens::<K> { nodes: &nodes, hidden: HashSet::new(), budget: 3_000 };
		let got = K::dec(ty, &root, &mut Db(&mut lens));
		ctx.label(if got.is_ok() { "accepted" } else { "refused" });
		if lens.budget < 2_998 {
			ctx.hit();
		}
		Ok(())
	}
	with_zk!(c.kit, K => go::<K>(c, ctx))
}

/// Every list length and variant number near its limits, for every type's simplest values.
fn limits(_t: bool) -> Vec<Hostile> {
	let mut out = vec![];
	for kit in 0..2 {
		for ty in 0..ZOO.len() as u16 {
			for bytes in [vec![], vec![1, 1, 1], vec![3, 200, 7, 4, 9, 1, 2, 77, 240, 5, 5]] {
				for at in 0..6 {
					for how in 0..12 {
						out.push(Hostile { kit, v: V { ty, bytes: bytes.clone(), large: 0 }, attack: Attack::Mutate(at, how, 7) });
					}
				}
			}
		}
	}
	out
}

pub fn properties() -> Vec<Property> {
	vec![
		Property {
			id: "C01",
			level: "exploration",
			rule: "Random values of about 180 concrete types covering every supported constructor and nesting, in both constructs, plus every type with each leading length/variant selector, and long lists: the root computed with and without storage is compared with an independent SSZ merkleization. Non-trivial: the description has more than two parts.",
			assumptions: &["no hash collisions", "list lengths up to 8194 (65538 for packed elements), in the thorough tier twice that"],
			parts: vec![
				Box::new(Exhaustive { name: "lengths", all: enc_lengths, check: roots }),
				Box::new(Random { name: "roots", quick: 300_000, thorough: 1_500_000, strategy: enc_one, check: roots }),
				Box::new(Random { name: "large", quick: 1_500, thorough: 10_000, strategy: enc_large, check: roots }),
			],
			known: no_known,
		},
		Property {
			id: "C02",
			level: "exploration",
			rule: "Random values of about 180 concrete types are encoded into an empty or populated backend and decoded right away, after other trees were stored, after encoding again, and from an independently built tree. Non-trivial: the description has more than two parts. Plus values read as types some parts of which are ignored: the rest is right, also without the nodes of the ignored parts (non-trivial: some node is left out).",
			assumptions: &["no hash collisions", "values are compared through their SSZ description, which is injective per type"],
			parts: vec![
				Box::new(Exhaustive { name: "lengths", all: enc_lengths, check: round }),
				Box::new(Random { name: "round trip", quick: 150_000, thorough: 1_000_000, strategy: enc, check: round }),
				Box::new(Random { name: "large", quick: 600, thorough: 5_000, strategy: enc_large, check: round }),
				Box::new(Random { name: "ignored", quick: 60_000, thorough: 600_000, strategy: skimmed, check: skimmed_check }),
			],
			known: no_known,
		},
		Property {
			id: "C03",
			level: "exploration",
			rule: "Random values of about 180 concrete types are encoded with no storage, empty and populated memory, proving and error-stripping backends, tree_root, and borrowed forms; every stored node is re-hashed, the tree is walked by key and by generalized index. Non-trivial: the description has more than two parts.",
			assumptions: &["no hash collisions"],
			parts: vec![
				Box::new(Random { name: "backends", quick: 120_000, thorough: 700_000, strategy: enc, check: backends }),
				Box::new(Random { name: "large", quick: 400, thorough: 3_000, strategy: enc_large, check: backends }),
			],
			known: no_known,
		},
		Property {
			id: "C16",
			level: "exploration",
			rule: "Trees of random values of every type with each node hidden in turn, random sets hidden, a length/variant/empty part/leaf changed, nodes replaced, decoded as another type; and arbitrary (also cyclic) backend contents. Decoders get a bounded number of reads. Non-trivial: the attack changed something the decoder must look at.",
			assumptions: &["no hash collisions", "missing nodes are reported as absent, not as backend errors"],
			parts: vec![
				Box::new(Exhaustive { name: "limits", all: limits, check: hostile_check }),
				Box::new(Random { name: "hostile", quick: 1_200_000, thorough: 6_000_000, strategy: hostile, check: hostile_check }),
				Box::new(Random { name: "junk", quick: 800_000, thorough: 3_000_000, strategy: junk, check: junk_check }),
			],
			known: no_known,
		},
	]
}
