//! C04, C05, C06: collections of up to 2^64 - 1 elements, nearly all of them never written.

use crate::base::*;
use crate::coll::*;
use crate::hist::{ans_of, val, Ans, El};
use crate::part::live;
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum At {
	Start(u8),
	/// Before or after the end.
	End(i8),
	/// Around a power of two.
	Power(u8, i8),
	Any(u64),
	/// Around an element used before.
	Again(u8, i8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Fop {
	Get(At),
	Set(At, u16),
	Push(u16),
	Pop,
	PushN(u8, u16),
	PopN(u8),
	Reopen(Reopen),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Far {
	small: bool,
	spec: Spec,
	len: u64,
	max: Option<u64>,
	/// Elements present from the start (collections opened from a stored tree).
	seeds: Vec<(At, u16)>,
	ops: Vec<Fop>,
}

pub fn lens() -> impl Strategy<Value = u64> {
	prop_oneof![
		4 => (8u32..64, -6i64..7).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
		2 => (1u64..65, 4u32..58, -6i64..7).prop_map(|(w, k, d)| ((1u64 << k) * w).wrapping_add(d as u64)),
		2 => (0u32..60, any::<u64>()).prop_map(|(k, r)| r >> k),
	]
}

pub fn at() -> impl Strategy<Value = At> {
	prop_oneof![
		2 => (0u8..40).prop_map(At::Start),
		4 => (-20i8..4).prop_map(At::End),
		3 => (0u8..64, -3i8..4).prop_map(|(k, d)| At::Power(k, d)),
		2 => any::<u64>().prop_map(At::Any),
		5 => (any::<u8>(), -2i8..3).prop_map(|(k, d)| At::Again(k, d)),
	]
}

fn far(kinds: &'static [Kind], thorough: bool) -> BoxedStrategy<Far> {
	let op = prop_oneof![
		4 => at().prop_map(Fop::Get),
		6 => (at(), val()).prop_map(|(i, v)| Fop::Set(i, v)),
		5 => val().prop_map(Fop::Push),
		5 => Just(Fop::Pop),
		2 => (1u8..20, val()).prop_map(|(n, v)| Fop::PushN(n, v)),
		2 => (1u8..20).prop_map(Fop::PopN),
		2 => prop_oneof![Just(Reopen::Leak), Just(Reopen::Raw), Just(Reopen::Root)].prop_map(Fop::Reopen),
	];
	let max = prop_oneof![
		3 => Just(None),
		2 => (0u64..10).prop_map(|d| Some((true, d))),
		1 => lens().prop_map(|l| Some((false, l))),
	];
	let ops = proptest::collection::vec(op, 1..if thorough { 30 } else { 14 });
	(any::<bool>(), crate::hist::spec(kinds), lens(), max, proptest::collection::vec((at(), val()), 0..5), ops)
		.prop_map(|(small, spec, len, max, seeds, ops)| Far {
			small,
			spec,
			len,
			max: max.map(|(near, d)| if near { len.saturating_add(d) } else { d.max(len) }.max(1)),
			seeds,
			ops,
		})
		.boxed()
}

/// The collection as a sparse map of non-zero elements.
pub struct Sparse<'r, K: Kit> {
	pub r: &'r Ref<K>,
	pub spec: Spec,
	pub width: usize,
	pub max: Option<u64>,
	pub len: u64,
	pub elems: BTreeMap<u64, Vec<u8>>,
}

impl<'r, K: Make> Sparse<'r, K> {
	fn get(&self, i: u64) -> Vec<u8> {
		self.elems.get(&i).cloned().unwrap_or(vec![0; self.width])
	}
	pub fn apply(&mut self, el: El) -> Ans {
		match el {
			El::Get(i) if (i as u64) < self.len => Ans::Bytes(self.get(i as u64)),
			El::Set(i, v) if (i as u64) < self.len => {
				self.elems.insert(i as u64, bytes_of(v, self.width));
				Ans::Done
			}
			El::Get(_) | El::Set(..) => Ans::Overflow,
			El::Push(_) if self.max == Some(self.len) => Ans::Overflow,
			El::Push(v) => {
				self.elems.insert(self.len, bytes_of(v, self.width));
				self.len += 1;
				Ans::Done
			}
			El::Pop if self.len == 0 => Ans::None,
			El::Pop => {
				self.len -= 1;
				let v = self.get(self.len);
				self.elems.remove(&self.len);
				Ans::Bytes(v)
			}
		}
	}
	pub fn chunks(&self, n: u64) -> u128 {
		if self.spec.kind.packed() { chunks_for(n as u128, self.width, K::V::LEN) } else { n as u128 }
	}
	pub fn items(&self) -> T<K::V> {
		let mut leaves = BTreeMap::<u128, K::V>::new();
		for (i, bytes) in &self.elems {
			if !self.spec.kind.packed() {
				leaves.insert(*i as u128, K::V::of(bytes));
				continue;
			}
			for (k, b) in bytes.iter().enumerate() {
				let at = *i as u128 * self.width as u128 + k as u128;
				let leaf = leaves.entry(at / K::V::LEN as u128).or_default();
				leaf.as_mut()[(at % K::V::LEN as u128) as usize] = *b;
			}
		}
		let leaves: Vec<(u128, K::V)> = leaves.into_iter().collect();
		fn go<K: Kit>(r: &Ref<K>, leaves: &[(u128, K::V)], base: u128, depth: usize) -> T<K::V> {
			if leaves.is_empty() {
				return r.empty(depth);
			}
			if depth == 0 {
				return T::Leaf(leaves[0].1.clone());
			}
			let mid = base + (1 << (depth - 1));
			let cut = leaves.partition_point(|l| l.0 < mid);
			T::node(go(r, &leaves[..cut], base, depth - 1), go(r, &leaves[cut..], mid, depth - 1))
		}
		go(self.r, &leaves, 0, depth_for(self.chunks(self.max.unwrap_or(self.len))))
	}
	pub fn tree(&self) -> T<K::V> {
		if self.spec.kind.list() {
			T::node(self.items(), Ref::<K>::len_leaf(self.len))
		} else {
			self.items()
		}
	}
	pub fn resolve(&self, at: At, used: &[u64]) -> u64 {
		at.resolve(self.len, used)
	}
}

impl At {
	pub fn resolve(self, len: u64, used: &[u64]) -> u64 {
		match self {
			At::Start(n) => n as u64,
			At::End(d) => len.wrapping_add(d as u64),
			At::Power(k, d) => (1u64 << k).wrapping_add(d as u64),
			At::Any(n) => (n as u128 * len as u128 >> 64) as u64,
			At::Again(k, d) if !used.is_empty() => used[k as usize % used.len()].wrapping_add(d as u64),
			At::Again(k, _) => k as u64,
		}
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Oracle {
	Elements,
	Roots,
}

fn drive<K: Make>(f: &Far, ctx: &mut Ctx, oracle: Oracle) -> Res {
	let r = Ref::<K>::new();
	let kind = f.spec.kind;
	let width = K::width(kind, f.spec.w);
	let room = |n: u64| if kind.packed() { chunks_for(n as u128, width, K::V::LEN) } else { n as u128 };
	// An index addresses at most 2^63 chunks; leave room for pushes.
	let cap = (1u128 << 63) - 100;
	let mut max = f.max;
	let mut len = f.len.min(u64::MAX - 200);
	while room(len) > cap {
		len /= 2;
	}
	while max.map(|m| room(m) > 1 << 63).unwrap_or(false) {
		max = max.map(|m| m / 2);
	}
	max = max.map(|m| m.max(len).max(1));

	let mut m = Sparse::<K> { r: &r, spec: f.spec, width, max, len, elems: BTreeMap::new() };
	let mut used: Vec<u64> = Vec::new();
	let created = !kind.list() && f.seeds.len() < 3;
	if !created {
		for (at, v) in &f.seeds {
			let i = m.resolve(*at, &used);
			if i < len {
				m.elems.insert(i, bytes_of(*v, width));
				used.push(i);
			}
		}
	}
	let mut mem = if created { Mem::<K>::default() } else { live::<K>(&m.tree()) };
	let mut e = E(&mut mem);
	let mut db = Db::<K::C>(&mut e);
	let mut c = if created {
		ctx.label("created");
		K::make(&mut db, f.spec, len as usize, max).map_err(|e| format!("creating {} with maximum {:?}: {:?}", len, max, e))?
	} else {
		ctx.label("opened");
		K::leaked(kind, f.spec.w, m.tree().hash(), m.items().hash(), len as usize, max).twin(f.spec.owned)
	};
	let mut edits = 0;
	let mut reopened = false;
	for (n, op) in f.ops.iter().enumerate() {
		let els: Vec<El> = match *op {
			Fop::Get(at) => vec![El::Get(m.resolve(at, &used) as usize)],
			Fop::Set(at, v) => vec![El::Set(m.resolve(at, &used) as usize, v)],
			Fop::Push(v) => vec![El::Push(v)],
			Fop::PushN(n, v) => (0..n).map(|k| El::Push(v.wrapping_add(k as u16))).collect(),
			Fop::Pop => vec![El::Pop],
			Fop::PopN(n) => vec![El::Pop; n as usize],
			Fop::Reopen(how) => {
				let dims = c.dims();
				c = c.reopen(&mut db, how, max).map_err(|e| format!("op {} {:?} at length {}: {:?}", n, op, m.len, e))?;
				ensure!(c.len() as u64 == m.len, "op {} {:?}: length {} instead of {}", n, op, c.len(), m.len);
				ensure!(c.dims() == dims, "op {} {:?}: {:?} instead of {:?}", n, op, c.dims(), dims);
				if oracle == Oracle::Roots {
					ensure!(c.root() == m.tree().hash(), "op {} {:?} at length {}: another root", n, op, m.len);
				}
				reopened = true;
				vec![]
			}
		};
		for el in els {
			if matches!(el, El::Push(_)) && room(m.len + 1) > cap + 90 {
				continue;
			}
			let before = m.len;
			let want = m.apply(el);
			let got = match el {
				El::Get(i) => ans_of(c.get(&mut db, i), Ans::Bytes),
				El::Set(i, v) => ans_of(c.set(&mut db, i, &bytes_of(v, width)), |_| Ans::Done),
				El::Push(v) => ans_of(c.push(&mut db, &bytes_of(v, width)), |_| Ans::Done),
				El::Pop => ans_of(c.pop(&mut db), |o| o.map(Ans::Bytes).unwrap_or(Ans::None)),
			};
			match el {
				El::Get(i) | El::Set(i, _) => used.push(i as u64),
				El::Push(_) => used.push(m.len - 1),
				El::Pop => (),
			}
			if oracle == Oracle::Elements {
				ensure!(got == want, "op {} {:?} at length {}: got {:?} instead of {:?}", n, el, before, got, want);
				ensure!(c.len() as u64 == m.len, "op {} {:?}: length {} instead of {}", n, el, c.len(), m.len);
			} else if !matches!(el, El::Get(_)) {
				let want = m.tree().hash();
				ensure!(c.root() == want, "op {} {:?} at length {}: the root does not match the elements", n, el, before);
			}
			if matches!(got, Ans::Done | Ans::Bytes(_)) && !matches!(el, El::Get(_)) {
				edits += 1;
			}
			if matches!(el, El::Push(_)) && m.len > before && before.is_power_of_two() && m.max.is_none() {
				ctx.label("grown by a level");
			}
		}
		if oracle == Oracle::Elements {
			let probes = used.iter().rev().take(12).flat_map(|i| [i.wrapping_sub(1), *i, i.wrapping_add(1)]);
			for i in probes.chain([0, m.len.wrapping_sub(1), m.len, u64::MAX]) {
				let got = ans_of(c.get(&mut db, i as usize), Ans::Bytes);
				let want = if i < m.len { Ans::Bytes(m.get(i)) } else { Ans::Overflow };
				ensure!(got == want, "after op {} {:?}: element {} of {} reads {:?} instead of {:?}", n, op, i, m.len, got, want);
			}
		}
	}
	ctx.label(match kind {
		Kind::Vector => "vector",
		Kind::List => "list",
		Kind::PVec => "packed vector",
		Kind::PList => "packed list",
	});
	if m.len > 1 << 32 {
		ctx.label("more than 2^32 elements");
	}
	if m.len > 1 << 61 {
		ctx.label("more than 2^61 elements");
	}
	if reopened {
		ctx.label("reopened");
	}
	ctx.nontrivial = edits > 0 && m.len > 1 << 16;
	Ok(())
}

pub fn elements(f: &Far, ctx: &mut Ctx) -> Res {
	if f.small { drive::<KSI>(f, ctx, Oracle::Elements) } else { drive::<KI>(f, ctx, Oracle::Elements) }
}

pub fn roots(f: &Far, ctx: &mut Ctx) -> Res {
	if f.small { drive::<KSI>(f, ctx, Oracle::Roots) } else { drive::<KI>(f, ctx, Oracle::Roots) }
}

/// Elements and roots of collections that are closed and reopened, for C15.
pub fn reopened(f: &Far, ctx: &mut Ctx) -> Res {
	elements(f, ctx)?;
	roots(f, ctx)?;
	ctx.nontrivial &= f.ops.iter().any(|o| matches!(o, Fop::Reopen(_)));
	Ok(())
}

pub fn plain(t: bool) -> BoxedStrategy<Far> {
	far(&[Kind::Vector, Kind::List], t)
}
pub fn packed(t: bool) -> BoxedStrategy<Far> {
	far(&[Kind::PVec, Kind::PList], t)
}
pub fn all(t: bool) -> BoxedStrategy<Far> {
	far(&[Kind::Vector, Kind::List, Kind::PVec, Kind::PList], t)
}
