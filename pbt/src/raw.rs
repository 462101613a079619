//! C07: raw trees against an explicit binary tree.

use crate::base::*;
use crate::run::*;
use bm::{Index, Leak, Raw, RootStatus, Tree};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A path from the root; bit `k` of `bits` (from the top) selects right at depth `k + 1`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Path {
	pub depth: u8,
	pub bits: u64,
}

impl Path {
	pub fn steps(&self) -> Vec<bool> {
		(0..self.depth).rev().map(|k| self.bits >> k & 1 == 1).collect()
	}
	pub fn one(&self) -> usize {
		(1usize << self.depth) | (self.bits & ((1u64 << self.depth) - 1)) as usize
	}
	pub fn index(&self) -> Index {
		Index::from_one(self.one()).expect("never zero")
	}
}

pub fn path(max: u8) -> impl Strategy<Value = Path> {
	prop_oneof![
		6 => 0..=4u8,
		3 => 0..=max,
	]
	.prop_flat_map(|depth| (Just(depth), any::<u64>()))
	.prop_map(|(depth, bits)| Path { depth, bits: bits & ((1u64 << depth) - 1) })
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum RawOp {
	Get(Path),
	Set(Path, u16),
	/// Write the value found at the second place to the first.
	Copy(Path, Path),
	Sub(Path, Path),
	Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCase {
	kit: u8,
	owned: bool,
	ops: Vec<RawOp>,
}

fn strategy(thorough: bool) -> BoxedStrategy<RawCase> {
	let n = if thorough { 60 } else { 24 };
	let op = prop_oneof![
		3 => path(63).prop_map(RawOp::Get),
		8 => (path(10), prop_oneof![0u16..4, any::<u16>()]).prop_map(|(p, v)| RawOp::Set(p, v)),
		1 => (path(63), any::<u16>()).prop_map(|(p, v)| RawOp::Set(p, v)),
		3 => (path(8), path(8)).prop_map(|(a, b)| RawOp::Copy(a, b)),
		3 => (path(8), path(8)).prop_map(|(a, b)| RawOp::Sub(a, b)),
		1 => Just(RawOp::Reopen),
	];
	(0..KITS, any::<bool>(), proptest::collection::vec(op, 1..n))
		.prop_map(|(kit, owned, ops)| RawCase { kit, owned, ops })
		.boxed()
}

fn check(c: &RawCase, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => if c.owned { go::<K, bm::Owned>(c, ctx) } else { go::<K, bm::Dangling>(c, ctx) })
}

fn read<K: Kit, S: RootStatus>(
	raw: &Raw<S, K::C>,
	db: &mut Db<'_, K::C>,
	t: &T<K::V>,
	p: Path,
) -> Res {
	let got = raw.get(db, p.index()).map_err(|e| format!("get {}: {:?}", p.one(), e))?;
	let want = t.at(&p.steps()).map(|t| t.hash());
	ensure!(got == want, "index {} reads {:?} instead of {:?}", p.one(), got, want);
	Ok(())
}

fn go<K: Kit, S: RootStatus>(c: &RawCase, ctx: &mut Ctx) -> Res {
	let mut mem = Mem::<K>::default();
	let mut e = E(&mut mem);
	let mut db = Db::<K::C>(&mut e);
	let db = &mut db;
	let mut raw = Raw::<S, K::C>::default();
	let mut t: T<K::V> = T::zero();
	let mut written = vec![];
	for (n, op) in c.ops.iter().enumerate() {
		let at = |m: String| format!("op {} {:?}: {}", n, op, m);
		match *op {
			RawOp::Get(p) => {
				read::<K, S>(&raw, db, &t, p).map_err(at)?;
				ctx.label("get");
			}
			RawOp::Set(p, v) => {
				let v = K::V::of(&bytes_of(v, K::V::LEN));
				if p.depth as usize > 0 && t.at(&p.steps()).is_none() {
					ctx.label("set below a leaf");
				}
				raw.set(db, p.index(), v.clone()).map_err(|e| at(format!("{:?}", e)))?;
				t = t.with(&p.steps(), T::Leaf(v));
				written.push(p);
			}
			RawOp::Copy(to, from) => {
				if let Some(sub) = t.at(&from.steps()) {
					raw.set(db, to.index(), sub.hash()).map_err(|e| at(format!("{:?}", e)))?;
					if sub.kids().is_some() {
						ctx.label("copied a subtree");
					}
					t = t.with(&to.steps(), sub);
					written.push(to);
				}
			}
			RawOp::Sub(a, b) => {
				let got = raw.subtree(db, a.index());
				match t.at(&a.steps()) {
					None => ensure!(got.is_err(), "{}", at("a subtree below a leaf was found".into())),
					Some(sub) => {
						let got = got.map_err(|e| at(format!("{:?}", e)))?;
						ensure!(got.root() == sub.hash(), "{}", at("the subtree has another root".into()));
						read::<K, bm::Dangling>(&got, db, &sub, b).map_err(at)?;
						ctx.label("subtree read");
					}
				}
			}
			RawOp::Reopen => {
				// A borrowed handle on the same tree, and changes made through it.
				let mut lent = raw.as_dangling();
				ensure!(lent.root() == t.hash(), "{}", at(format!("borrowed: root {:?} instead of {:?}", lent.root(), t.hash())));
				for one in 1..8usize {
					let depth = (usize::BITS - 1 - one.leading_zeros()) as u8;
					read::<K, bm::Dangling>(&lent, db, &t, Path { depth, bits: (one as u64) & ((1 << depth) - 1) }).map_err(at)?;
				}
				let p = written.last().copied().unwrap_or(Path { depth: 2, bits: n as u64 & 3 });
				let v = bytes_of(n as u16 + 77, K::V::LEN);
				let want = t.with(&p.steps(), T::Leaf(K::V::of(&v)));
				lent.set(db, p.index(), K::V::of(&v)).map_err(|e| at(format!("borrowed: {:?}", e)))?;
				ensure!(lent.root() == want.hash(), "{}", at(format!("borrowed: root {:?} instead of {:?}", lent.root(), want.hash())));
				read::<K, bm::Dangling>(&lent, db, &want, p).map_err(at)?;
				lent.drop(db).map_err(|e| at(format!("borrowed: {:?}", e)))?;
				raw = Raw::from_leaked(raw.metadata());
			}
		}
		ensure!(raw.root() == t.hash(), "op {} {:?}: root {:?} instead of {:?}", n, op, raw.root(), t.hash());
		// Everything near the top, and around every place written so far.
		for one in 1..32usize {
			let depth = (usize::BITS - 1 - one.leading_zeros()) as u8;
			read::<K, S>(&raw, db, &t, Path { depth, bits: (one as u64) & ((1 << depth) - 1) }).map_err(at)?;
		}
		for p in &written {
			for d in [p.depth.saturating_sub(1), p.depth] {
				for flip in 0..2 {
					let bits = (p.bits >> (p.depth - d)) ^ if d > 0 { flip } else { 0 };
					read::<K, S>(&raw, db, &t, Path { depth: d, bits }).map_err(at)?;
				}
			}
			if p.depth < 62 {
				read::<K, S>(&raw, db, &t, Path { depth: p.depth + 1, bits: p.bits << 1 }).map_err(at)?;
			}
		}
	}
	fully_readable(db, &t)?;
	if written.len() >= 2 {
		ctx.hit();
	}
	Ok(())
}

/// All pairs (triples when thorough) of writes at depth up to 3, then everything is read.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Few {
	kit: u8,
	at: Vec<u8>,
}

fn few(thorough: bool) -> Vec<Few> {
	let mut v = vec![];
	for kit in 0..KITS {
		for a in 1..16u8 {
			for b in 1..16u8 {
				for c in 1..16u8 {
					if thorough {
						for d in 1..16u8 {
							v.push(Few { kit, at: vec![a, b, c, d] });
						}
					} else {
						v.push(Few { kit, at: vec![a, b, c] });
					}
				}
			}
		}
	}
	v
}

fn few_check(f: &Few, ctx: &mut Ctx) -> Res {
	let ops = f
		.at
		.iter()
		.enumerate()
		.map(|(k, one)| {
			let depth = 7 - one.leading_zeros() as u8;
			RawOp::Set(Path { depth, bits: (*one as u64) & ((1 << depth) - 1) }, k as u16 + 1)
		})
		.collect();
	check(&RawCase { kit: f.kit, owned: true, ops }, ctx)
}

pub fn properties() -> Vec<Property> {
	vec![Property {
		id: "C07",
		level: "exploration",
		rule: "Random writes (values, copied subtrees) at generalized indices of depth 0 to 63 on owned and dangling raw trees in four constructs; after every write the root, indices 1..31 and the surroundings of every written place are compared with an explicit binary tree. Non-trivial: at least two writes. Plus every sequence of three writes at depth up to 3.",
		assumptions: &["leaf values do not collide with hashes of other nodes", "subtrees are only copied from the live tree"],
		parts: vec![
			Box::new(Random { name: "history", quick: 300_000, thorough: 4_000_000, strategy, check }),
			Box::new(Exhaustive { name: "few", all: few, check: few_check }),
		],
		known: no_known,
	}]
}
