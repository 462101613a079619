//! C23: an operation on one element touches only the path to that element.

use crate::base::*;
use crate::coll::*;
use crate::far::{at, lens, At, Sparse};
use crate::hist::{val, El};
use crate::part::live;
use crate::raw::{path, Path};
use crate::run::*;
use bm::{Dangling, Leak, Owned, ProvingBackend, Raw, RootStatus, Tree};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Lop {
	Get(At),
	Set(At, u16),
	Push(u16),
	Pop,
	Reopen(Reopen),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Loc {
	kit: u8,
	spec: Spec,
	/// Elements written from the start, without gaps.
	fill: u8,
	/// Elements in all when there are more than those.
	len: Option<u64>,
	max: Option<u64>,
	ops: Vec<Lop>,
}

fn loc(thorough: bool) -> BoxedStrategy<Loc> {
	let op = prop_oneof![
		4 => at().prop_map(Lop::Get),
		4 => (at(), val()).prop_map(|(i, v)| Lop::Set(i, v)),
		4 => val().prop_map(Lop::Push),
		4 => Just(Lop::Pop),
		1 => prop_oneof![Just(Reopen::Leak), Just(Reopen::Raw), Just(Reopen::Root)].prop_map(Lop::Reopen),
	];
	let kinds: &'static [Kind] = &[Kind::Vector, Kind::List, Kind::PVec, Kind::PList];
	let max = prop_oneof![3 => Just(None), 2 => (0u64..10).prop_map(|d| Some((true, d))), 1 => lens().prop_map(|l| Some((false, l)))];
	let len = prop_oneof![2 => Just(None), 1 => lens().prop_map(Some)];
	let ops = proptest::collection::vec(op, 1..if thorough { 30 } else { 14 });
	(0..KITS, crate::hist::spec(kinds), prop_oneof![0u8..12, any::<u8>()], len, max, ops)
		.prop_map(|(kit, spec, fill, len, max, ops)| {
			// Under the unit construct absent places cannot be read (see known-findings.txt).
			let len = if kit % 2 == 1 { None } else { len };
			let n = len.unwrap_or(0).max(fill as u64);
			Loc { kit, spec, fill, len, max: max.map(|(near, d)| if near { n.saturating_add(d) } else { d.max(n) }.max(1)), ops }
		})
		.boxed()
}

fn check(c: &Loc, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => go::<K>(c, ctx))
}

/// Everything on the way from the root to some leaves of the items.
fn ways<K: Kit>(t: &T<K::V>, list: bool, d: usize, leaves: std::ops::RangeInclusive<u128>, allowed: &mut HashSet<K::V>) {
	let mut items = t.clone();
	allowed.insert(t.hash());
	if list {
		let (l, r) = t.kids().expect("a list has a length");
		allowed.insert(r.hash());
		allowed.insert(l.hash());
		items = l.clone();
	}
	for leaf in leaves {
		let mut cur = items.clone();
		for k in (0..d).rev() {
			allowed.insert(cur.hash());
			let next = match cur.kids() {
				None => break,
				Some((l, r)) => if leaf >> k & 1 == 1 { r.clone() } else { l.clone() },
			};
			cur = next;
		}
		allowed.insert(cur.hash());
	}
}

fn go<K: Make>(c: &Loc, ctx: &mut Ctx) -> Res {
	let r = Ref::<K>::new();
	let kind = c.spec.kind;
	let width = K::width(kind, c.spec.w);
	let room = |n: u64| if kind.packed() { chunks_for(n as u128, width, K::V::LEN) } else { n as u128 };
	let cap = (1u128 << 62) - 100;
	let mut len = c.len.unwrap_or(0).max(c.fill as u64);
	while room(len) > cap {
		len /= 2;
	}
	let mut max = c.max;
	while max.map(|m| room(m) > 1 << 62).unwrap_or(false) {
		max = max.map(|m| m / 2);
	}
	let max = max.map(|m| m.max(len).max(1));
	let elems: BTreeMap<u64, Vec<u8>> = (0..c.fill as u64).map(|i| (i, bytes_of(1000 + i as u16, width))).collect();
	let mut m = Sparse::<K> { r: &r, spec: c.spec, width, max, len, elems };
	let mut t = m.tree();
	let mut mem = live::<K>(&t);
	let mut coll = K::leaked(kind, c.spec.w, t.hash(), m.items().hash(), len as usize, max).twin(c.spec.owned);
	let levels = |m: &Sparse<K>| depth_for(m.chunks(max.unwrap_or(m.len)));
	let mut used = vec![];
	let mut deep = 0;
	for (n, op) in c.ops.iter().enumerate() {
		let at = |m: String| format!("op {} {:?}: {}", n, op, m);
		let mut old = HashSet::new();
		let mut new = HashSet::new();
		let mut touched = 1u128;
		let before = m.len;
		let mut leaves = |i: u64| {
			let span = if kind.packed() {
				let first = i as u128 * width as u128;
				first / K::V::LEN as u128..=(first + width as u128 - 1) / K::V::LEN as u128
			} else {
				i as u128..=i as u128
			};
			touched = span.end() - span.start() + 1;
			span
		};
		let el = match *op {
			Lop::Get(a) => El::Get(m.resolve(a, &used) as usize),
			Lop::Set(a, v) => El::Set(m.resolve(a, &used) as usize, v),
			Lop::Push(_) if room(m.len + 1) > cap => continue,
			Lop::Push(v) => El::Push(v),
			Lop::Pop => El::Pop,
			Lop::Reopen(_) => El::Get(0),
		};
		let reopen = matches!(op, Lop::Reopen(_));
		let place = match el {
			El::Get(i) | El::Set(i, _) => i as u64,
			El::Push(_) => m.len,
			El::Pop => m.len.wrapping_sub(1),
		};
		let reach = if reopen || place > before || before == 0 && matches!(el, El::Pop) { None } else { Some(leaves(place)) };
		ways::<K>(&t, kind.list(), levels(&m), reach.clone().unwrap_or(1..=0), &mut old);
		if !reopen {
			m.apply(el);
		}
		let after = m.tree();
		ways::<K>(&after, kind.list(), levels(&m), reach.unwrap_or(1..=0), &mut new);
		// The depth in which a list's items lie, before or after.
		let depth = 2 + depth_for(m.chunks(max.unwrap_or(before + 1)).max(1)) as u64;
		let limit = 4 * (depth + 4) * (depth + 4) * touched as u64 + 24;

		let mut e = E(&mut mem);
		let mut pb = ProvingBackend::new(&mut e);
		let mut spy = Spy::<K::C>::new(&mut pb);
		spy.log = Some(vec![]);
		spy.fail_at = Some(limit);
		let mut failed = None;
		{
			let mut db = Db::<K::C>(&mut spy);
			let db = &mut db;
			let got = match el {
				_ if reopen => {
					let how = match op { Lop::Reopen(h) => *h, _ => unreachable!() };
					coll = coll.reopen(db, how, max).map_err(|e| at(format!("{:?}", e)))?;
					Ok(())
				}
				El::Get(i) => coll.get(db, i).map(|_| ()),
				El::Set(i, v) => coll.set(db, i, &bytes_of(v, width)),
				El::Push(v) => coll.push(db, &bytes_of(v, width)),
				El::Pop => coll.pop(db).map(|_| ()),
			};
			if let Err(e) = got {
				failed = Some(e);
			}
		}
		if let Some(bm::Error::Backend(XErr::Injected(_))) = failed {
			return Err(at(format!("more than {} backend calls at length {} (depth {})", limit, before, depth)));
		}
		let calls = spy.calls;
		let log = spy.log.take().unwrap();
		let proofs: bm::Proofs<K::V> = pb.into();
		let mut written = HashSet::new();
		for ev in log {
			if let Ev::Insert(key, _) = &ev {
				written.insert(key.clone());
			}
			if let Ev::Get(key, Some(_)) = ev {
				ensure!(
					old.contains(&key) || new.contains(&key) || written.contains(&key),
					"{}", at(format!("at length {}, node {:?} is read, which is not on the way to element {}", before, key, place))
				);
			}
		}
		for (key, _) in proofs.iter() {
			// A node written again may have been there before.
			ensure!(old.contains(key) || written.contains(key), "{}", at(format!("at length {}, the proof has node {:?}, which was not on the way to element {}", before, key, place)));
		}
		ctx.inner += calls;
		used.push(place);
		t = after;
		ensure!(coll.root() == t.hash(), "{}", at(format!("at length {}: another root", before)));
		if depth > 5 && !reopen && failed.is_none() {
			deep += 1;
		}
		if calls * 4 > limit {
			ctx.label("over a quarter of the allowed calls");
		}
	}
	ctx.label(match kind {
		Kind::Vector => "vector",
		Kind::List => "list",
		Kind::PVec => "packed vector",
		Kind::PList => "packed list",
	});
	if deep > 0 {
		ctx.hit();
	}
	Ok(())
}

// ------------------------------------------------ raw trees

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawLoc {
	kit: u8,
	owned: bool,
	leaves: Vec<(Path, u16)>,
	at: Path,
	set: Option<u16>,
}

fn raws(_t: bool) -> BoxedStrategy<RawLoc> {
	let place = || prop_oneof![3 => path(10), 1 => path(63)];
	(0..KITS, any::<bool>(), proptest::collection::vec((place(), 1u16..), 1..20), place(), proptest::option::of(val()))
		.prop_map(|(kit, owned, leaves, at, set)| RawLoc { kit, owned, leaves, at, set })
		.boxed()
}

fn raw_check(c: &RawLoc, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => if c.owned { raw_go::<K, Owned>(c, ctx) } else { raw_go::<K, Dangling>(c, ctx) })
}

fn raw_go<K: Kit, S: RootStatus>(c: &RawLoc, ctx: &mut Ctx) -> Res {
	let mut t: T<K::V> = T::zero();
	for (p, v) in &c.leaves {
		t = t.with(&p.steps(), T::Leaf(K::V::of(&bytes_of(*v, K::V::LEN))));
	}
	let mut allowed = HashSet::new();
	let steps = c.at.steps();
	let mut known = 0;
	for k in 0..steps.len() {
		if let Some(s) = t.at(&steps[..k]) {
			allowed.insert(s.hash());
			known += 1;
		}
	}
	let limit = 6 * (steps.len() as u64 + 2) + 8;
	let mut mem = live::<K>(&t);
	let mut e = E(&mut mem);
	let mut spy = Spy::<K::C>::new(&mut e);
	spy.log = Some(vec![]);
	spy.fail_at = Some(limit);
	let mut raw = Raw::<S, K::C>::from_leaked(t.hash());
	let mut db = Db::<K::C>(&mut spy);
	match c.set {
		None => {
			raw.get(&mut db, c.at.index()).map_err(|e| format!("{:?}", e))?;
		}
		Some(v) => {
			let v = K::V::of(&bytes_of(v, K::V::LEN));
			raw.set(&mut db, c.at.index(), v.clone()).map_err(|e| format!("{:?}", e))?;
			let after = t.with(&steps, T::Leaf(v));
			ensure!(raw.root() == after.hash(), "another root");
			for k in 0..steps.len() {
				allowed.extend(after.at(&steps[..k]).map(|s| s.hash()));
			}
		}
	}
	for ev in spy.log.take().unwrap() {
		match ev {
			Ev::Get(key, Some(_)) => ensure!(allowed.contains(&key), "node {:?} is read, which is not on the way to {}", key, c.at.one()),
			Ev::Insert(key, _) => ensure!(allowed.contains(&key), "node {:?} is written, which is not on the way to {}", key, c.at.one()),
			_ => (),
		}
	}
	ctx.inner += spy.calls;
	if known > 2 {
		ctx.hit();
	}
	Ok(())
}

pub fn properties() -> Vec<Property> {
	vec![Property {
		id: "C23",
		level: "exploration",
		rule: "Random sequences of reads, writes, pushes, pops and reopenings on filled (up to 255 elements) and sparse (up to 2^62 elements) vectors and lists of every kind, through a proving backend: every node read lies on the way to the chunks of the element concerned (or is the list's length) in the tree before or after, the proof recorded holds only nodes that lay on that way before, and the number of backend calls grows with the square of the depth at most, never with the length. The same for raw trees (also for writes), and for reads, assignments and pushes of partial lists on a backend holding nothing but those nodes. Non-trivial: an operation that succeeds in a tree of more than three levels. Inner checks: backend calls judged.",
		assumptions: &["no hash collisions", "nodes with equal contents are not told apart"],
		parts: vec![
			Box::new(Random { name: "collections", quick: 60_000, thorough: 600_000, strategy: loc, check }),
			Box::new(Random { name: "raw", quick: 60_000, thorough: 600_000, strategy: raws, check: raw_check }),
			crate::part::local_part(),
		],
		known: no_known,
	}]
}
