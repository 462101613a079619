//! C17, C19, C20: index arithmetic, sizes, and declared maxima.

use crate::base::*;
use crate::coll::*;
use crate::run::*;
use bm::utils::{host_len, host_max_len, required_depth, vector_tree};
use bm::{Dangling, Error, Index, IndexRoute, IndexSelection, Leak, NoopBackend, Raw, Vector};
use bm_le::{
	ElementalFixedVec, ElementalFixedVecRef, ElementalVariableVec, ElementalVariableVecRef, FromCompactListTree,
	FromCompactVectorTree, FromCompositeListTree, FromCompositeVectorTree, FromTree, IntoCompactListTree,
	IntoCompactVectorTree, IntoCompositeListTree, IntoCompositeVectorTree, IntoTree, MaxVec, Value,
};
use generic_array::typenum as tn;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type E_ = Error<XErr>;

// ------------------------------------------------------------- C17: indices

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Three {
	a: Vec<bool>,
	b: Vec<bool>,
	c: Vec<bool>,
}

/// The number whose binary digits after the leading one are the path.
fn number(p: &[bool]) -> usize {
	p.iter().fold(1, |n, b| n * 2 + *b as usize)
}

fn index(p: &[bool]) -> Index {
	Index::from_one(number(p)).unwrap()
}

fn sels(p: &[bool]) -> IndexRoute {
	if p.is_empty() {
		IndexRoute::Root
	} else {
		IndexRoute::Select(p.iter().map(|b| if *b { IndexSelection::Right } else { IndexSelection::Left }).collect())
	}
}

fn bits(n: usize) -> impl Strategy<Value = Vec<bool>> {
	prop_oneof![
		4 => proptest::collection::vec(any::<bool>(), 0..=n),
		1 => (0..=n, any::<bool>()).prop_map(|(n, b)| vec![b; n]),
		1 => proptest::collection::vec(any::<bool>(), n..=n),
		2 => proptest::collection::vec(any::<bool>(), 0..=n.min(4)),
	]
}

fn three(_t: bool) -> BoxedStrategy<Three> {
	(bits(63), bits(63), bits(63), any::<[u8; 4]>())
		.prop_map(|(mut a, mut b, mut c, [how, x, y, z])| {
			match how % 4 {
				// Representable compositions.
				0 | 1 => {
					a.truncate(x as usize % 64);
					b.truncate(y as usize % (64 - a.len()));
					c.truncate(z as usize % (64 - a.len() - b.len()));
				}
				// b extends a prefix of a, c is close to b.
				2 => {
					let mut p = a.clone();
					p.truncate(x as usize % 64);
					p.extend(b.iter());
					p.truncate(63);
					b = p;
					c = b.clone();
					if !c.is_empty() {
						let i = y as usize % c.len();
						if z % 3 == 0 {
							c.truncate(i)
						} else {
							c[i] = !c[i]
						}
					}
				}
				_ => (),
			}
			Three { a, b, c }
		})
		.boxed()
}

fn proper_prefix(p: &[bool], q: &[bool]) -> bool {
	p.len() < q.len() && q[..p.len()] == *p
}

fn three_check(t: &Three, ctx: &mut Ctx) -> Res {
	for p in [&t.a, &t.b, &t.c] {
		one_index(p)?;
		ctx.inner += 1;
	}
	for p in [&t.a, &t.b, &t.c] {
		for q in [&t.a, &t.b, &t.c] {
			two_indices(p, q, ctx)?;
			ctx.inner += 1;
		}
	}
	let n = t.a.len() + t.b.len() + t.c.len();
	if n <= 63 {
		let (a, b, c) = (index(&t.a), index(&t.b), index(&t.c));
		ensure!(a.sub(b).sub(c) == a.sub(b.sub(c)), "composition is not associative for {:?}", t);
		ctx.label("three composed");
		if n == 63 {
			ctx.label("of full depth")
		}
	}
	ctx.nontrivial = t.a.len() >= 2 && t.b.len() >= 2;
	Ok(())
}

fn one_index(p: &[bool]) -> Res {
	let i = index(p);
	let stepped = p.iter().fold(Index::root(), |i, b| if *b { i.right() } else { i.left() });
	ensure!(stepped == i, "stepping along {:?} arrives at {:?}, not {:?}", p, stepped, i);
	let n = number(p);
	ensure!(Index::from_zero(n - 1) == i, "from_zero({}) is not {:?}", n - 1, i);
	let at = n - (1 << p.len());
	ensure!(Index::from_depth(at, p.len()) == i, "from_depth({}, {}) is not {:?}", at, p.len(), i);
	let route = i.route();
	ensure!(route == sels(p), "the route of {:?} is {:?}, the path {:?}", i, route, p);
	for d in (0..=p.len() + 2).chain([64, 65, usize::MAX]) {
		let want = match d {
			0 => None,
			d if d > p.len() => None,
			d => Some(if p[d - 1] { IndexSelection::Right } else { IndexSelection::Left }),
		};
		ensure!(route.at_depth(d) == want, "the selection of {:?} at depth {} is {:?}", i, d, route.at_depth(d));
	}
	let parent = p.split_last().map(|(_, q)| index(q));
	ensure!(i.parent() == parent, "the parent of {:?} is {:?}", i, i.parent());
	if p.len() < 63 {
		for (b, child) in [(false, i.left()), (true, i.right())] {
			let mut q = p.to_vec();
			q.push(b);
			ensure!(child == index(&q) && child.parent() == Some(i) && child != i, "child {:?} of {:?}", child, i);
		}
	}
	ensure!(i.sub(Index::root()) == i && Index::root().sub(i) == i, "the root is not the identity for {:?}", i);
	Ok(())
}

fn two_indices(p: &[bool], q: &[bool], ctx: &mut Ctx) -> Res {
	let (a, b) = (index(p), index(q));
	ensure!((a == b) == (p == q), "{:?} and {:?} compare wrongly", a, b);
	let want = proper_prefix(p, q);
	ensure!(a.has_descendant(&b) == want, "{:?}.has_descendant({:?}) is not {}", a, b, want);
	if want {
		ctx.label("descendants")
	} else if p != q && p.first() == q.first() {
		ctx.label("related, no descendants")
	}
	if p.len() + q.len() <= 63 {
		let whole = [p, q].concat();
		let s = a.sub(b);
		ensure!(s == index(&whole), "{:?}.sub({:?}) is {:?}", a, b, s);
		ensure!(s.route() == sels(&whole), "the route of {:?} is not the concatenation", s);
		ensure!(q.is_empty() || a.has_descendant(&s), "{:?} does not have the descendant {:?}", a, s);
	}
	Ok(())
}

fn all_indices(thorough: bool) -> Vec<usize> {
	(0..if thorough { 4096 } else { 1024 }).collect()
}

fn all_check(n: &usize, ctx: &mut Ctx) -> Res {
	let path = |n: usize| -> Vec<bool> {
		let d = (usize::BITS - 1 - n.leading_zeros()) as usize;
		(0..d).rev().map(|k| n >> k & 1 == 1).collect()
	};
	if *n == 0 {
		ensure!(Index::from_one(0).is_none(), "index zero exists");
		ensure!(Index::from_zero(0) == Index::root(), "from_zero(0) is not the root");
		return Ok(());
	}
	let p = path(*n);
	one_index(&p)?;
	for m in 1..1024 {
		two_indices(&p, &path(m), ctx)?;
		ctx.inner += 1;
	}
	ctx.nontrivial = *n > 1;
	Ok(())
}

// --------------------------------------------------------------- C19: sizes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Size {
	n: u64,
	m: u64,
	h: u8,
	v: u8,
}

fn u64s() -> impl Strategy<Value = u64> {
	prop_oneof![
		3 => (0u32..64, any::<u64>()).prop_map(|(k, r)| r >> k),
		3 => (0u32..64, -3i64..4).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
		2 => (1u64..65, 0u32..59, -2i64..3).prop_map(|(w, k, d)| (w << k).wrapping_add(d as u64)),
		2 => (1u64..101, -2i64..3).prop_map(|(w, d)| (u64::MAX / w).wrapping_add(d as u64)),
		2 => 0u64..300,
	]
}

fn size(_t: bool) -> BoxedStrategy<Size> {
	(u64s(), u64s(), 0u8..10, 0u8..14).prop_map(|(n, m, h, v)| Size { n, m, h, v }).boxed()
}

macro_rules! by_host {
	($h:expr, $v:expr, $n:expr; [$( $i:literal => $H:ident ),*] $ws:tt) => {
		match $h { $( $i => by_host!(@v tn::$H, $v, $n; $ws), )* _ => unreachable!() }
	};
	(@v $H:ty, $v:expr, $n:expr; [$( $i:literal => $V:ident ),*]) => {
		match $v {
			$( $i => {
				use tn::Unsigned;
				(<$H>::to_u64(), tn::$V::to_u64(), host_max_len::<$H, tn::$V>($n), host_len::<$H, tn::$V>($n as usize) as u64)
			} )*
			_ => unreachable!(),
		}
	};
}

fn size_check(s: &Size, ctx: &mut Ctx) -> Res {
	let depth = required_depth(s.n);
	ensure!(depth == depth_for(s.n as u128), "required_depth({}) is {}", s.n, depth);

	let (h, v, chunks, chunks2) = by_host!(s.h, s.v, s.n;
		[0 => U1, 1 => U2, 2 => U3, 3 => U4, 4 => U8, 5 => U16, 6 => U31, 7 => U32, 8 => U33, 9 => U64]
		[0 => U1, 1 => U2, 2 => U3, 3 => U4, 4 => U8, 5 => U12, 6 => U16, 7 => U31, 8 => U32, 9 => U33, 10 => U48, 11 => U64, 12 => U96, 13 => U100]
	);
	let want = chunks_for(s.n as u128, v as usize, h as usize).min(u64::MAX as u128) as u64;
	ensure!(chunks == want, "{} elements of {} bytes in chunks of {}: host_max_len is {}, not {}", s.n, v, h, chunks, want);
	ensure!(chunks2 == want, "{} elements of {} bytes in chunks of {}: host_len is {}, not {}", s.n, v, h, chunks2, want);
	if want == u64::MAX {
		ctx.label("more chunks than representable")
	} else if (s.n as u128 * v as u128) % h as u128 != 0 {
		ctx.label("partial last chunk")
	}

	// What a vector reports about itself.
	let raw = || Raw::<Dangling, CI>::from_leaked(Value::default());
	let (len, max) = (s.n.min(s.m), s.n.max(s.m));
	for declared in [None, Some(max)] {
		let vec = Vector::from_raw(raw(), len as usize, declared);
		let capacity = declared.unwrap_or(len) as u128;
		let d = depth_for(capacity);
		ensure!(vec.depth() == d, "depth of a vector of {} (maximum {:?}) is {}", len, declared, vec.depth());
		let cur = declared.unwrap_or((1u128 << d).min(u64::MAX as u128) as u64);
		ensure!(vec.current_max_len() == cur, "current maximum of a vector of {} (maximum {:?}) is {}", len, declared, vec.current_max_len());
		ensure!(vec.max_len() == declared && vec.len() == len as usize, "length or maximum of a vector of {} ({:?})", len, declared);
		let again = Vector::<Dangling, CI>::from_leaked(vec.metadata());
		ensure!(again.depth() == d && again.current_max_len() == cur && again.max_len() == declared, "a reopened vector of {} ({:?}) differs", len, declared);
	}
	if len > 1 << 62 {
		ctx.label("half the machine word and more")
	}
	ctx.nontrivial = s.n > 1;
	Ok(())
}

fn small_sizes(thorough: bool) -> Vec<Size> {
	let mut out = Vec::new();
	for n in 0..if thorough { 1200 } else { 200 } {
		for h in 0..10 {
			for v in 0..14 {
				out.push(Size { n, m: n + h as u64 * v as u64, h, v });
			}
		}
	}
	out
}

/// The depth of a tree that was really built.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
	kit: u8,
	kind: Kind,
	w: u8,
	max: u64,
	elems: u8,
	seed: u16,
}

fn built(_t: bool) -> BoxedStrategy<Built> {
	let max = prop_oneof![
		3 => 1u64..70,
		4 => (0u32..63, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
		2 => (1u32..64, any::<u64>()).prop_map(|(k, r)| r >> k),
	];
	let kind = prop_oneof![Just(Kind::Vector), Just(Kind::List), Just(Kind::PVec), Just(Kind::PList)];
	(0..KITS, kind, 0u8..6, max, 0u8..9, any::<u16>())
		.prop_map(|(kit, kind, w, max, elems, seed)| Built { kit, kind, w, max: max.clamp(1, 1 << 62), elems, seed })
		.boxed()
}

fn built_check(b: &Built, ctx: &mut Ctx) -> Res {
	with_kit!(b.kit, K => built_go::<K>(b, ctx))
}

fn built_go<K: Make>(b: &Built, ctx: &mut Ctx) -> Res {
	let r = Ref::<K>::new();
	let width = K::width(b.kind, b.w);
	let chunks = if b.kind.packed() { chunks_for(b.max as u128, width, K::V::LEN) } else { b.max as u128 };
	if chunks > 1 << 63 {
		return Ok(());
	}
	let depth = depth_for(chunks);
	let mut mem = Mem::<K>::default();
	let n = (b.elems as u64).min(b.max) as usize;
	let elems: Vec<Vec<u8>> = (0..n).map(|i| bytes_of(b.seed.wrapping_add(1 + i as u16), width)).collect();
	let root = on::<K, _>(&mut mem, |db| -> Result<K::V, E_> {
		let mut c = K::owned(db, b.kind, b.w, 0, Some(b.max))?;
		for e in &elems {
			c.push(db, e)?;
		}
		Ok(c.root())
	})
	.map_err(|e| format!("building: {:?}", e))?;
	let want = model_tree(&r, b.kind, b.w, &elems, Some(b.max));
	ensure!(root == want.hash(), "the root of {:?} with maximum {} is not that of a tree of depth {}", b.kind, b.max, depth);
	if n > 0 {
		// The first chunk lies exactly `depth` below the root of the items.
		let mut at = root;
		for _ in 0..depth + b.kind.list() as usize {
			match on::<K, _>(&mut mem, |db| bm::ReadBackend::get(db, &at)) {
				Ok(Some((l, _))) => at = l,
				other => return Err(format!("the tree ends early: {:?}", other)),
			}
		}
		let first = K::V::of(&elems.concat()[..K::V::LEN.min(elems.concat().len())]);
		ensure!(at == first, "no first chunk at depth {}", depth);
	}

	// The same leaves merkleized at once.
	let leaves: Vec<K::V> = elems.concat().chunks(K::V::LEN).map(K::V::of).collect();
	let items = on::<K, _>(&mut mem, |db| vector_tree(&leaves, db, Some(chunks as u64))).map_err(|e| format!("vector_tree: {:?}", e))?;
	let leaf_tree = r.seq(&leaves.iter().cloned().map(T::Leaf).collect::<Vec<_>>(), depth);
	ensure!(items == leaf_tree.hash(), "vector_tree at maximum {} is not of depth {}", chunks, depth);
	if depth > 50 {
		ctx.label("deeper than 50")
	}
	if chunks.is_power_of_two() {
		ctx.label("exact power of two")
	}
	ctx.nontrivial = n > 0 && depth > 0;
	Ok(())
}

// ------------------------------------------------------------ C20: maxima

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fill {
	kit: u8,
	spec: Spec,
	max: u64,
	/// Length at creation relative to the maximum.
	init: i64,
	extra: u8,
	seed: u16,
	/// How the handle is closed and reopened, and at which of the eight stages.
	how: Reopen,
	when: u8,
}

fn small_max() -> impl Strategy<Value = u64> {
	prop_oneof![
		5 => 0u64..18,
		3 => (0u32..8, -1i64..2).prop_map(|(k, d)| ((1i64 << k) + d) as u64),
		2 => (1u64..9, 1u64..9, 0u64..3).prop_map(|(a, b, d)| (a * b + d).saturating_sub(1)),
		1 => 0u64..140,
	]
}

fn reopen() -> impl Strategy<Value = Reopen> {
	prop_oneof![Just(Reopen::Leak), Just(Reopen::Raw), Just(Reopen::Root)]
}

fn fill(_t: bool) -> BoxedStrategy<Fill> {
	let init = prop_oneof![2 => Just(i64::MIN), 3 => -3i64..1, 2 => 1i64..4, 1 => (4u32..63).prop_map(|k| 1i64 << k), 2 => -140i64..1];
	(0..KITS, crate::hist::spec(&[Kind::Vector, Kind::List, Kind::PVec, Kind::PList]), small_max(), init, 0u8..4, any::<u16>(), (reopen(), prop_oneof![2 => Just(0), 3 => any::<u8>()]))
		.prop_map(|(kit, spec, max, init, extra, seed, (how, when))| Fill { kit, spec, max, init, extra, seed, how, when })
		.boxed()
}

fn fill_check(f: &Fill, ctx: &mut Ctx) -> Res {
	with_kit!(f.kit, K => fill_go::<K>(f, ctx))
}

fn fill_go<K: Make>(f: &Fill, ctx: &mut Ctx) -> Res {
	let Spec { kind, w, .. } = f.spec;
	let r = Ref::<K>::new();
	let width = K::width(kind, w);
	let mut mem = Mem::<K>::default();
	let mut len = if kind.list() { 0 } else { (f.max as i64).saturating_add(f.init).max(0) as u64 };
	if !K::INHERITED && len <= f.max {
		// Never-written elements under the unit construct: see known-findings.txt.
		len = 0;
	}
	let made = on::<K, _>(&mut mem, |db| K::make(db, f.spec, len as usize, Some(f.max)));
	if len > f.max {
		ctx.label("refused creation");
		ctx.hit();
		return match made {
			Err(Error::InvalidParameter) => Ok(()),
			Err(e) => Err(format!("{:?} of {} with maximum {}: {:?}", kind, len, f.max, e)),
			Ok(_) => Err(format!("{:?} of {} is created with maximum {}", kind, len, f.max)),
		};
	}
	if f.max == 0 {
		// Refused; nothing could be stored anyway.
		ctx.label("maximum zero");
		return match made {
			Err(Error::InvalidParameter) | Ok(_) => Ok(()),
			Err(e) => Err(format!("{:?} with maximum zero: {:?}", kind, e)),
		};
	}
	let mut c = match made {
		Ok(c) => c,
		Err(e) => return Err(format!("{:?} of {} with maximum {} is not created: {:?}", kind, len, f.max, e)),
	};
	let mut elems: Vec<Vec<u8>> = vec![vec![0; width]; len as usize];
	let same = |c: &Box<dyn Coll<K>>, elems: &[Vec<u8>], what: &str| -> Res {
		ensure!(c.len() == elems.len(), "{}: length {} instead of {}", what, c.len(), elems.len());
		let want = model_tree(&r, kind, w, elems, Some(f.max)).hash();
		ensure!(c.root() == want, "{}: the root does not cover the {} elements at maximum {}", what, elems.len(), f.max);
		Ok(())
	};
	same(&c, &elems, "created")?;
	on::<K, _>(&mut mem, |db| -> Res {
		// Closing and reopening the handle must not forget the maximum.
		let again = |c: Box<dyn Coll<K>>, db: &mut Db<'_, K::C>, stage: u8| -> Result<Box<dyn Coll<K>>, String> {
			if f.when >> stage & 1 == 0 {
				return Ok(c);
			}
			c.reopen(db, f.how, Some(f.max)).map_err(|e| format!("reopening ({:?}): {:?}", f.how, e))
		};
		let mut k = f.seed;
		c = again(c, db, 0)?;
		while (elems.len() as u64) < f.max {
			if elems.len() as u64 == f.max / 2 {
				c = again(c, db, 1)?;
			}
			k = k.wrapping_add(1);
			let e = bytes_of(k, width);
			c.push(db, &e).map_err(|e| format!("push at {} of maximum {}: {:?}", elems.len(), f.max, e))?;
			elems.push(e);
			same(&c, &elems, "pushed")?;
		}
		c = again(c, db, 2)?;
		same(&c, &elems, "reopened")?;
		for n in 0..f.extra {
			if n == 1 {
				c = again(c, db, 3)?;
			}
			let got = c.push(db, &bytes_of(k, width));
			ensure!(got == Err(Error::AccessOverflowed), "push beyond the maximum {}: {:?}", f.max, got);
			same(&c, &elems, "refused push")?;
		}
		for (i, e) in elems.iter().enumerate() {
			ensure!(c.get(db, i).as_ref() == Ok(e), "element {} of a full collection", i);
		}
		ensure!(c.get(db, elems.len()) == Err(Error::AccessOverflowed), "an element beyond the maximum");
		// Room again after a pop.
		for _ in 0..f.extra {
			if let Some(e) = elems.pop() {
				let got = c.pop(db);
				ensure!(got.as_ref() == Ok(&Some(e)), "pop of a full collection: {:?}", got);
			}
		}
		c = again(c, db, 4)?;
		same(&c, &elems, "popped")?;
		for _ in 0..f.extra.min(f.max as u8) {
			let e = bytes_of(k ^ 1, width);
			c.push(db, &e).map_err(|e| format!("push after pop: {:?}", e))?;
			elems.push(e);
		}
		same(&c, &elems, "refilled")?;
		if elems.len() as u64 == f.max {
			c = again(c, db, 5)?;
			let got = c.push(db, &bytes_of(k, width));
			ensure!(got == Err(Error::AccessOverflowed), "push beyond the maximum {} after refilling: {:?}", f.max, got);
			same(&c, &elems, "refused again")?;
		}
		Ok(())
	})?;
	if f.when != 0 {
		ctx.label("reopened on the way");
	}
	ctx.label("filled");
	ctx.nontrivial = f.max > 1;
	Ok(())
}

/// Merkleizing and reading back under a maximum.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
	kit: u8,
	shape: u8,
	len: u16,
	max: Option<u64>,
	/// The maximum used to read it back.
	read: Option<u64>,
	seed: u16,
	noop: bool,
}

/// Maxima far beyond what is stored.
fn far_max() -> impl Strategy<Value = u64> {
	prop_oneof![
		3 => (8u32..64, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
		1 => (0u64..300).prop_map(|d| u64::MAX - d),
		1 => (0u64..5).prop_map(|d| u64::MAX - d),
	]
}

fn whole(_t: bool) -> BoxedStrategy<Whole> {
	let rel = prop_oneof![3 => -2i64..3, 1 => -40i64..40];
	(0u8..2, 0u8..9, small_max(), proptest::option::weighted(0.85, rel.clone()), proptest::option::weighted(0.85, rel), any::<u16>(), any::<bool>())
		.prop_flat_map(|x| (Just(x), proptest::option::weighted(0.2, far_max()), proptest::option::weighted(0.2, far_max())))
		.prop_map(|((kit, shape, len, a, b, seed, noop), far, far_read)| {
			let len = len.min(200);
			let at = |d: i64| (len as i64 + d).max(0) as u64;
			// Elements of their own have to be addressed by an index each.
			let room = if shape < 4 { 1 << 63 } else { u64::MAX };
			let (a, b) = (far.or(a.map(at)), far_read.map(|m| m.min(room)).or(b.map(at)));
			let at = |m: u64| m;
			Whole { kit, shape, len: len as u16, max: a.map(at), read: b.map(at), seed, noop }
		})
		.boxed()
}

fn whole_check(c: &Whole, ctx: &mut Ctx) -> Res {
	match c.kit % 2 {
		0 => whole_go::<KI>(c, ctx),
		_ => whole_go::<KU>(c, ctx),
	}
}

/// Encode, what the tree must be, and decode with another maximum.
fn whole_go<K: Kit<V = Value> + Make>(c: &Whole, ctx: &mut Ctx) -> Res
where
	K::C: bm_le::CompatibleConstruct,
{
	let r = Ref::<K>::new();
	let n = c.len as usize;
	let vals: Vec<Value> = (0..n).map(|i| Value::of(&bytes_of(c.seed.wrapping_add(1 + i as u16), 32))).collect();
	let h256: Vec<primitive_types::H256> = vals.iter().map(|v| v.0).collect();
	let u16s: Vec<u16> = vals.iter().map(|v| u16::from_le_bytes([v.0[0], v.0[1]])).collect();
	let u8s: Vec<u8> = vals.iter().map(|v| v.0[3]).collect();
	let u64s: Vec<u64> = vals.iter().map(|v| u64::from_le_bytes([v.0[0], v.0[1], v.0[2], v.0[3], v.0[4], v.0[5], v.0[6], v.0[7]])).collect();
	let bools: Vec<bool> = vals.iter().map(|v| v.0[0] & 1 == 1).collect();

	// Width of one leaf in bytes (32: one chunk each), and the leaves' bytes.
	let whole_leaf = |bytes: Vec<Vec<u8>>| -> Vec<u8> {
		bytes.into_iter().flat_map(|mut b| { b.resize(32, 0); b }).collect()
	};
	let (width, list, bytes): (usize, bool, Vec<u8>) = match c.shape {
		0 => (32, false, whole_leaf(vals.iter().map(|v| v.0.as_bytes().to_vec()).collect())),
		1 => (32, false, whole_leaf(h256.iter().map(|v| v.as_bytes().to_vec()).collect())),
		2 => (32, true, whole_leaf(h256.iter().map(|v| v.as_bytes().to_vec()).collect())),
		3 => (32, true, whole_leaf(u16s.iter().map(|v| v.to_le_bytes().to_vec()).collect())),
		4 => (2, true, u16s.iter().flat_map(|v| v.to_le_bytes()).collect()),
		5 => (1, true, u8s.clone()),
		6 => (8, true, u64s.iter().flat_map(|v| v.to_le_bytes()).collect()),
		7 => (1, true, bools.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect()),
		_ => (8, false, u64s.iter().flat_map(|v| v.to_le_bytes()).collect()),
	};
	// Booleans take a bit each.
	let chunks = |m: u64| chunks_for(m as u128, width, if c.shape == 7 { 256 } else { 32 });
	let tree_at = |max: Option<u64>| -> T<Value> {
		let leaves: Vec<T<Value>> = bytes.chunks(32).map(|b| T::Leaf(Value::of(b))).collect();
		let capacity = max.map(|m| chunks(m)).unwrap_or(leaves.len() as u128);
		let items = r.seq(&leaves, depth_for(capacity));
		if list {
			T::node(items, Ref::<K>::len_leaf(n as u64))
		} else {
			items
		}
	};

	macro_rules! encode {
		($db:expr) => {
			match c.shape {
				0 => vector_tree(&vals, $db, c.max),
				1 => ElementalFixedVecRef(&h256[..]).into_composite_vector_tree($db, c.max),
				2 => ElementalVariableVecRef(&h256[..]).into_composite_list_tree($db, c.max),
				3 => ElementalVariableVecRef(&u16s[..]).into_composite_list_tree($db, c.max),
				4 => ElementalVariableVec(u16s.clone()).into_compact_list_tree($db, c.max),
				5 => ElementalVariableVecRef(&u8s[..]).into_compact_list_tree($db, c.max),
				6 => ElementalVariableVecRef(&u64s[..]).into_compact_list_tree($db, c.max),
				7 => ElementalVariableVecRef(&bools[..]).into_compact_list_tree($db, c.max),
				_ => ElementalFixedVecRef(&u64s[..]).into_compact_vector_tree($db, c.max),
			}
		};
	}
	let mut mem = Mem::<K>::default();
	let over = c.max.map(|m| n as u64 > m).unwrap_or(false);
	let got: Result<Value, String> = if c.noop {
		encode!(&mut NoopBackend::<K::C>::default()).map_err(|e| format!("{:?}", e))
	} else {
		on::<K, _>(&mut mem, |db| encode!(db)).map_err(|e| format!("{:?}", e))
	};
	match got {
		Ok(root) if over => {
			// A packed vector is only limited to the chunks its maximum needs.
			let cap = c.max.map(|m| chunks(m)).unwrap();
			ensure!(c.shape == 8 && chunks(n as u64) <= cap, "{} elements are merkleized under the maximum {:?}", n, c.max);
			ensure!(root == tree_at(c.max).hash(), "{} elements under the maximum {:?}: some are missing from the root", n, c.max);
			return Ok(());
		}
		Err(_) if over => {
			ctx.label("refused encoding");
			ctx.hit();
		}
		Ok(root) => {
			ensure!(root == tree_at(c.max).hash(), "{} elements under the maximum {:?}: wrong root", n, c.max);
			ctx.label("encoded");
		}
		Err(e) => return Err(format!("{} elements under the maximum {:?}: {}", n, c.max, e)),
	}

	// Read a well-formed tree of that many elements, built for the maximum used for reading
	// where they fit, and otherwise for as many as there are.
	let claims = c.read.map(|m| m.max(n as u64));
	let same_depth = depth_for(chunks(claims.unwrap_or(n as u64)))
		== depth_for(chunks(c.read.unwrap_or(n as u64)));
	let t = tree_at(claims);
	let mut mem = crate::prove::frozen::<K>(&t.nodes());
	let root = t.hash();
	macro_rules! list {
		($T:ty, $f:ident, $want:expr) => {
			on::<K, _>(&mut mem, |db| ElementalVariableVec::<$T>::$f(&root, db, c.read)).map(|v| v.0 == *$want)
		};
	}
	let read: Result<bool, E_> = match c.shape {
		0 | 1 => on::<K, _>(&mut mem, |db| ElementalFixedVec::<primitive_types::H256>::from_composite_vector_tree(&root, db, n, c.read)).map(|v| v.0 == h256),
		2 => list!(primitive_types::H256, from_composite_list_tree, &h256),
		3 => list!(u16, from_composite_list_tree, &u16s),
		4 => list!(u16, from_compact_list_tree, &u16s),
		5 => list!(u8, from_compact_list_tree, &u8s),
		6 => list!(u64, from_compact_list_tree, &u64s),
		7 => list!(bool, from_compact_list_tree, &bools),
		_ => on::<K, _>(&mut mem, |db| ElementalFixedVec::<u64>::from_compact_vector_tree(&root, db, n, c.read)).map(|v| v.0 == u64s),
	};
	let read_over = c.read.map(|m| n as u64 > m).unwrap_or(false);
	match read {
		Ok(_) if read_over && list => return Err(format!("a list of {} elements is accepted under the maximum {:?}", n, c.read)),
		Ok(same) if !read_over => ensure!(same, "{} elements read back differently under the maximum {:?}", n, c.read),
		Err(e) if !read_over => return Err(format!("{} elements under the maximum {:?} do not read back: {:?}", n, c.read, e)),
		Err(_) if list => {
			ctx.label(if same_depth { "refused decoding, depth fits" } else { "refused decoding" });
			ctx.hit();
		}
		_ => (),
	}
	if list && width == 32 {
		let got = on::<K, _>(&mut mem, |db| bm::OwnedList::<K::C>::reconstruct(root.clone(), db, c.read).map(|l| bm::Sequence::len(&l)));
		match got {
			Ok(_) if read_over => return Err(format!("a stored list of {} elements is opened under the maximum {:?}", n, c.read)),
			Ok(len) => ensure!(len == n, "a stored list of {} elements is opened with {}", n, len),
			Err(e) if !read_over => return Err(format!("a stored list of {} elements is not opened under {:?}: {:?}", n, c.read, e)),
			Err(_) => (),
		}
	}
	Ok(())
}

/// The type with a maximum in it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bounded {
	kit: u8,
	max: u8,
	len: u16,
	seed: u16,
}

fn bounded(_t: bool) -> BoxedStrategy<Bounded> {
	(0u8..2, 0u8..10, -2i64..3, any::<u16>())
		.prop_map(|(kit, max, d, seed)| {
			let m = [0i64, 1, 2, 3, 4, 8, 31, 32, 33, 64][max as usize];
			Bounded { kit, max, len: (m + d).max(0) as u16, seed }
		})
		.boxed()
}

macro_rules! by_max {
	($n:expr, $M:ident => $e:expr) => {
		match $n {
			0 => { type $M = tn::U0; $e }
			1 => { type $M = tn::U1; $e }
			2 => { type $M = tn::U2; $e }
			3 => { type $M = tn::U3; $e }
			4 => { type $M = tn::U4; $e }
			5 => { type $M = tn::U8; $e }
			6 => { type $M = tn::U31; $e }
			7 => { type $M = tn::U32; $e }
			8 => { type $M = tn::U33; $e }
			_ => { type $M = tn::U64; $e }
		}
	};
}

fn bounded_check(b: &Bounded, ctx: &mut Ctx) -> Res {
	match b.kit % 2 {
		0 => by_max!(b.max, M => bounded_go::<KI, M>(b, ctx)),
		_ => by_max!(b.max, M => bounded_go::<KU, M>(b, ctx)),
	}
}

fn bounded_go<K: Kit<V = Value>, M: tn::Unsigned + PartialEq>(b: &Bounded, ctx: &mut Ctx) -> Res
where
	K::C: bm_le::CompatibleConstruct,
{
	let n = b.len as usize;
	let max = M::to_u64();
	let r = Ref::<K>::new();
	let u32s: Vec<u32> = (0..n).map(|i| (b.seed as u32) * 7 + 1 + i as u32).collect();
	let lists: Vec<Vec<u8>> = (0..n).map(|i| bytes_of(b.seed.wrapping_add(i as u16), i % 3)).collect();
	let over = n as u64 > max;
	let leaf = |v: &u32| T::Leaf(Value::of(&v.to_le_bytes()));
	let compact: Vec<T<Value>> = u32s.chunks(8).map(|c| T::Leaf(Value::of(&c.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>()))).collect();
	// A plain `Vec<u8>` inside is a list of whole leaves.
	let inner = |l: &Vec<u8>| {
		let leaves: Vec<T<Value>> = l.iter().map(|x| T::Leaf(Value::of(&[*x]))).collect();
		T::node(r.seq(&leaves, depth_for(leaves.len() as u128)), Ref::<K>::len_leaf(l.len() as u64))
	};
	let len = || Ref::<K>::len_leaf(n as u64);
	fn enc<X: IntoTree, DB: bm::WriteBackend>(x: &X, db: &mut DB) -> Result<Value, Error<DB::Error>>
	where
		DB::Construct: bm_le::CompatibleConstruct,
	{
		x.into_tree(db)
	}
	macro_rules! both {
		($what:literal, $x:expr, $T:ty, $capacity:expr, $leaves:expr) => {{
			let x = $x;
			// One closure per backend type.
			struct F<'a, X>(&'a X);
			impl<'a, X: IntoTree> F<'a, X> {
				fn mem<K: Kit<V = Value>>(&self, db: &mut Db<'_, K::C>) -> Result<Value, E_> where K::C: bm_le::CompatibleConstruct { enc(self.0, db) }
				fn noop<K: Kit<V = Value>>(&self) -> Result<Value, String> where K::C: bm_le::CompatibleConstruct {
					enc(self.0, &mut NoopBackend::<K::C>::default()).map_err(|e| format!("{:?}", e))
				}
			}
			ctx.inner += 1;
			let mut mem = Mem::<K>::default();
			let got = on::<K, _>(&mut mem, |db| F(&x).mem::<K>(db));
			let noop = F(&x).noop::<K>();
			let leaves = $leaves;
			let t = T::node(r.seq(&leaves, depth_for(($capacity).max(leaves.len() as u128))), len());
			if over {
				ensure!(got.is_err(), "{} of {} elements and maximum {} is merkleized", $what, n, max);
				ensure!(noop.is_err(), "{} of {} elements and maximum {} has a root", $what, n, max);
				ctx.label("refused encoding");
			} else {
				ensure!(got.as_ref() == Ok(&t.hash()), "{} of {} elements and maximum {}: {:?}", $what, n, max, got);
				ensure!(noop.as_ref() == Ok(&t.hash()), "{} of {} elements and maximum {}: {:?} without storage", $what, n, max, noop);
			}
			let mut mem = crate::prove::frozen::<K>(&t.nodes());
			let root = t.hash();
			let got = on::<K, _>(&mut mem, |db| <$T>::from_tree(&root, db));
			if over {
				ensure!(got.is_err(), "a stored {} of {} elements and maximum {} is accepted", $what, n, max);
				ctx.label("refused decoding");
			} else {
				let got = got.map_err(|e| format!("{} of {} elements and maximum {} does not read back: {:?}", $what, n, max, e))?;
				ensure!(got == x, "{} of {} elements and maximum {} reads back differently", $what, n, max);
			}
		}};
	}
	both!("MaxVec<u32>", MaxVec::<u32, M>::from(u32s.clone()), MaxVec::<u32, M>, max as u128, u32s.iter().map(leaf).collect::<Vec<_>>());
	both!("Compact<MaxVec<u32>>", bm_le::Compact(MaxVec::<u32, M>::from(u32s.clone())), bm_le::Compact::<MaxVec<u32, M>>, chunks_for(max as u128, 4, 32), compact.clone());
	both!("MaxVec<Vec<u8>>", MaxVec::<Vec<u8>, M>::from(lists.clone()), MaxVec::<Vec<u8>, M>, max as u128, lists.iter().map(inner).collect::<Vec<_>>());
	// In and out of the bounded vector, whatever its length.
	let mut held = MaxVec::<u32, M>::from(u32s.clone());
	ensure!(held.0 == u32s && held[..] == u32s[..] && held.as_ref() == &u32s[..], "a bounded vector of {} and maximum {} holds other elements", n, max);
	let out: Vec<u32> = held.clone().into();
	ensure!(out == u32s, "a bounded vector of {} and maximum {} gives {} elements back", n, max, out.len());
	held.push(7);
	held.extend_from_slice(&u32s);
	let out: Vec<u32> = held.into();
	ensure!(out.len() == 2 * n + 1 && out[..n] == u32s[..] && out[n] == 7 && out[n + 1..] == u32s[..], "a bounded vector grown in place gives other elements");
	ensure!(MaxVec::<u32, M>::default().is_empty(), "the default is not empty");
	ctx.nontrivial = n > 0;
	Ok(())
}

fn all_bounded(_t: bool) -> Vec<Bounded> {
	let mut out = Vec::new();
	for kit in 0..2 {
		for max in 0..10 {
			for len in 0..70 {
				out.push(Bounded { kit, max, len, seed: len });
			}
		}
	}
	out
}

pub fn properties() -> Vec<Property> {
	vec![
		Property {
			id: "C17",
			level: "exploration",
			rule: "Random triples of paths of depth 0 to 63 (independent, composable up to full depth, prefixes and near misses): every constructor, step, parent, route, selection, descendant test and composition compared with the path as a list of bits. Non-trivial: the first two paths have at least two steps. Plus every pair of indices below 1024 (thorough: 4096 by 1024). Inner checks: single indices and pairs.",
			assumptions: &["the machine word has 64 bits"],
			parts: vec![
				Box::new(Random { name: "paths", quick: 2_000_000, thorough: 20_000_000, strategy: three, check: three_check }),
				Box::new(Exhaustive { name: "small", all: all_indices, check: all_check }),
			],
			known: no_known,
		},
		Property {
			id: "C19",
			level: "exploration",
			rule: "Random 64-bit lengths around powers of two, multiples of element sizes and the overflow boundary, for 10 chunk sizes by 14 element sizes, against 128-bit arithmetic; dimensions reported by vectors of any length and maximum; and trees really built for random maxima up to 2^62, whose root and first leaf must lie at the exact depth. Non-trivial: more than one element; a tree that is not a single leaf. Plus all lengths below 200 for every size pair.",
			assumptions: &["chunk counts beyond 64 bits are reported as the largest representable number", "trees are built for at most 2^63 chunks, the deepest an index can address"],
			parts: vec![
				Box::new(Random { name: "numbers", quick: 2_000_000, thorough: 100_000_000, strategy: size, check: size_check }),
				Box::new(Exhaustive { name: "small numbers", all: small_sizes, check: size_check }),
				Box::new(Random { name: "trees", quick: 60_000, thorough: 2_000_000, strategy: built, check: built_check }),
			],
			known: no_known,
		},
		Property {
			id: "C20",
			level: "exploration",
			rule: "Collections of all kinds created below, at and above maxima around chunk and power-of-two boundaries, filled to the maximum, beyond it and again after removals, the root compared with the reference tree after every push; lists, leaf sequences and bounded vectors merkleized with and without storage under maxima around their length, and decoded from well-formed trees under other maxima. Non-trivial: something is refused, or a maximum above one is filled. Plus every length below 70 for ten bounded vector types.",
			assumptions: &["a maximum of zero may be refused at creation", "the encoder of packed fixed vectors limits chunks, not elements; its root must still contain every element", "vectors created non-empty under the unit construct are excluded (known finding of C04 and C05)"],
			parts: vec![
				Box::new(Random { name: "collections", quick: 150_000, thorough: 2_000_000, strategy: fill, check: fill_check }),
				Box::new(Random { name: "sequences", quick: 400_000, thorough: 5_000_000, strategy: whole, check: whole_check }),
				Box::new(Random { name: "bounded vectors", quick: 90_000, thorough: 1_000_000, strategy: bounded, check: bounded_check }),
				Box::new(Exhaustive { name: "all bounded vectors", all: all_bounded, check: bounded_check }),
			],
			known: no_known,
		},
	]
}
