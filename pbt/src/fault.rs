//! C21: every backend call of every operation fails once.

use crate::base::*;
use crate::coll::*;
use crate::hist::{ix, max_len, spec, val, El, Ix, Model, Op};
use crate::part::{live, Pa, P2, P5};
use crate::raw::{path, Path};
use crate::run::*;
use crate::ssz::{a_value, V};
use crate::zoo::*;
use bm::{Dangling, DynBackend, Leak, Owned, ProvingBackend, Raw, RootStatus, Tree};
use bm_le::{CompatibleConstruct, FromTree, IntoTree, PartialIndex, PartialItem, PartialVec, Partialable};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type E_ = bm::Error<XErr>;

/// What stands between the operation and the failing storage.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Layer {
	None,
	Proving,
	Stripping,
}

fn layer() -> impl Strategy<Value = Layer> {
	prop_oneof![3 => Just(Layer::None), 1 => Just(Layer::Proving), 1 => Just(Layer::Stripping)]
}

/// Run with the given call failing; also how many calls were made.
fn with_fault<K: Kit, X>(
	mem: &mut Mem<K>,
	layer: Layer,
	fail_at: Option<u64>,
	f: impl FnOnce(&mut Db<'_, K::C>) -> X,
) -> (X, u64) {
	let mut e = E(mem);
	let mut spy = Spy::<K::C>::new(&mut e);
	spy.fail_at = fail_at;
	let x = match layer {
		Layer::None => f(&mut Db(&mut spy)),
		Layer::Proving => {
			let mut pb = ProvingBackend::new(&mut spy);
			f(&mut Db(&mut pb))
		}
		Layer::Stripping => {
			let mut dy = DynBackend(E(&mut spy));
			let mut e = E(&mut dy);
			f(&mut Db(&mut e))
		}
	};
	(x, spy.calls)
}

struct Probe<'a, K: Kit, H> {
	mem: &'a Mem<K>,
	/// A fresh handle in the state before the operation.
	twin: &'a dyn Fn() -> H,
	op: &'a dyn Fn(&mut H, &mut Db<'_, K::C>) -> Result<String, E_>,
	/// Everything that can be seen of the handle, without its backend's inner state.
	observe: &'a dyn Fn(&mut H, &mut Db<'_, K::C>) -> String,
	/// Whether a failure must leave the handle as it was, and a retry must work.
	atomic: bool,
	layer: Layer,
}

const MOST: u64 = 600;

impl<'a, K: Kit, H> Probe<'a, K, H> {
	fn run(&self, ctx: &mut Ctx) -> Res {
		let seen = |h: &mut H, mem: &mut Mem<K>| on::<K, _>(mem, |db| (self.observe)(h, db));
		let before = seen(&mut (self.twin)(), &mut self.mem.clone());
		let mut mem = self.mem.clone();
		let mut h = (self.twin)();
		let (want, calls) = with_fault::<K, _>(&mut mem, self.layer, None, |db| (self.op)(&mut h, db));
		let after = seen(&mut h, &mut mem);
		if want.is_err() {
			ensure!(!self.atomic || before == after, "a refused operation changes the state: {} becomes {}", before, after);
			ctx.label("refused operation");
		}
		for k in 0..calls.min(MOST) {
			let fails = |k: u64| match self.layer {
				Layer::Stripping => bm::Error::Backend(XErr::Stripped),
				_ => bm::Error::Backend(XErr::Injected(k)),
			};
			let mut mem = self.mem.clone();
			let mut h = (self.twin)();
			let got = with_fault::<K, _>(&mut mem, self.layer, Some(k), |db| (self.op)(&mut h, db)).0;
			ensure!(got == Err(fails(k)), "call {} of {} fails and the operation gives {:?} instead of {:?}", k, calls, got, fails(k));
			ctx.inner += 1;
			if !self.atomic {
				continue;
			}
			let now = seen(&mut h, &mut mem);
			ensure!(now == before, "after call {} of {} failed: {} instead of {}", k, calls, now, before);
			// Sometimes it fails again, elsewhere.
			if k % 3 == 1 {
				let second = (k * 7 + 3) % calls;
				let mut other = mem.clone();
				// Inserting again what is there may change the number of calls, not the outcome.
				let (got, made) = with_fault::<K, _>(&mut other, self.layer, Some(second), |db| (self.op)(&mut h, db));
				if made > second {
					ensure!(got == Err(fails(second)), "call {} after call {} fails and the operation gives {:?}", second, k, got);
					let now = seen(&mut h, &mut other);
					ensure!(now == before, "after calls {} and {} failed: {} instead of {}", k, second, now, before);
					mem = other;
				} else {
					continue;
				}
			}
			let got = with_fault::<K, _>(&mut mem, self.layer, None, |db| (self.op)(&mut h, db)).0;
			ensure!(got == want, "retrying after call {} of {} failed gives {:?} instead of {:?}", k, calls, got, want);
			let now = seen(&mut h, &mut mem);
			ensure!(now == after, "retrying after call {} of {} failed: {} instead of {}", k, calls, now, after);
		}
		if calls >= 2 {
			ctx.hit();
		}
		Ok(())
	}
}

// ------------------------------------------------ collections

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Do {
	Get(Ix),
	Set(Ix, u16),
	Push(u16),
	Pop,
	Reopen(Reopen),
	Drop,
	/// Another collection of this kind.
	Create(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cf {
	kit: u8,
	spec: Spec,
	max: Option<u64>,
	layer: Layer,
	/// Elements pushed and popped beforehand.
	len: u16,
	popped: u8,
	salt: u16,
	then: Do,
}

fn cf(thorough: bool) -> BoxedStrategy<Cf> {
	let then = prop_oneof![
		2 => ix().prop_map(Do::Get),
		4 => (ix(), val()).prop_map(|(i, v)| Do::Set(i, v)),
		5 => val().prop_map(Do::Push),
		5 => Just(Do::Pop),
		1 => prop_oneof![Just(Reopen::Leak), Just(Reopen::Raw), Just(Reopen::Root)].prop_map(Do::Reopen),
		1 => Just(Do::Drop),
		1 => (0u8..70).prop_map(Do::Create),
	];
	let top = if thorough { 140 } else { 40 };
	let len = prop_oneof![4 => 0u16..10, 2 => 0u16..top, 1 => (0u32..6, 0u16..2).prop_map(|(k, d)| (1 << k) + d)];
	let kinds = &[Kind::Vector, Kind::List, Kind::PVec, Kind::PList];
	(0..KITS, spec(kinds), max_len(), layer(), len, prop_oneof![3 => Just(0u8), 1 => 0u8..5], any::<u16>(), then)
		.prop_map(|(kit, spec, max, layer, len, popped, salt, then)| Cf { kit, spec, max, layer, len, popped, salt, then })
		.boxed()
}

fn cf_check(c: &Cf, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => cf_go::<K>(c, ctx))
}

fn contents<K: Kit>(c: &dyn Coll<K>, db: &mut Db<'_, K::C>) -> String {
	let elems: Vec<_> = (0..c.len().min(300)).map(|i| c.get(db, i).map(|b| hex(&b)).map_err(|e| format!("{:?}", e))).collect();
	format!("{} {:?} {:?}", c.len(), c.root(), elems)
}

fn cf_go<K: Make>(c: &Cf, ctx: &mut Ctx) -> Res {
	let kind = c.spec.kind;
	let width = K::width(kind, c.spec.w);
	let mut mem = Mem::<K>::default();
	let coll = on::<K, _>(&mut mem, |db| -> Result<_, E_> {
		let mut coll = K::make(db, c.spec, 0, c.max)?;
		let n = (c.len as u64).min(c.max.unwrap_or(u64::MAX));
		for k in 0..n as u16 {
			let v = if c.salt % 3 == 0 { c.salt } else { c.salt.wrapping_add(k) };
			coll.push(db, &bytes_of(v, width))?;
		}
		for _ in 0..c.popped {
			coll.pop(db)?;
		}
		Ok(coll)
	})
	.map_err(|e| format!("preparing: {:?}", e))?;
	let len = coll.len();
	let expand = |op: Op| Model { elems: vec![vec![]; len], max: c.max, width }.expand(op);
	type H<K> = Option<Box<dyn Coll<K>>>;
	let el = |op: El, h: &mut H<K>, db: &mut Db<'_, K::C>| -> Result<String, E_> {
		let coll = h.as_mut().unwrap();
		match op {
			El::Get(i) => coll.get(db, i).map(|b| hex(&b)),
			El::Set(i, v) => coll.set(db, i, &bytes_of(v, width)).map(|_| "set".into()),
			El::Push(v) => coll.push(db, &bytes_of(v, width)).map(|_| "pushed".into()),
			El::Pop => coll.pop(db).map(|o| format!("{:?}", o)),
		}
	};
	let op = |h: &mut H<K>, db: &mut Db<'_, K::C>| -> Result<String, E_> {
		match c.then {
			Do::Get(i) => el(expand(Op::Get(i))[0], h, db),
			Do::Set(i, v) => el(expand(Op::Set(i, v))[0], h, db),
			Do::Push(v) => el(El::Push(v), h, db),
			Do::Pop => el(El::Pop, h, db),
			Do::Reopen(how) => {
				*h = Some(h.take().unwrap().reopen(db, how, c.max)?);
				Ok("reopened".into())
			}
			Do::Drop => h.take().unwrap().drop_(db).map(|_| "dropped".into()),
			Do::Create(n) => {
				let n = if kind.list() { 0 } else { n as usize };
				K::owned(db, kind, c.spec.w, n, c.max).map(|new| format!("{} {:?}", new.len(), new.root()))
			}
		}
	};
	let consumes = matches!(c.then, Do::Reopen(_) | Do::Drop);
	ctx.label(match c.then {
		Do::Get(_) => "get",
		Do::Set(..) => "set",
		Do::Push(_) => "push",
		Do::Pop => "pop",
		Do::Reopen(_) => "reopen",
		Do::Drop => "drop",
		Do::Create(_) => "create",
	});
	ctx.label(match kind {
		Kind::Vector => "vector",
		Kind::List => "list",
		Kind::PVec => "packed vector",
		Kind::PList => "packed list",
	});
	let atomic = !consumes && !(kind == Kind::PVec && spanning::<K>(kind, c.spec.w));
	let twin = || Some(coll.twin(c.spec.owned));
	Probe::<K, H<K>> {
		mem: &mem,
		twin: &twin,
		op: &op,
		observe: &|h, db| h.as_ref().map(|c| contents(&**c, db)).unwrap_or_default(),
		atomic,
		layer: c.layer,
	}
	.run(ctx)
}

/// Every kind and width at every small length, with every edit.
fn cf_all(thorough: bool) -> Vec<Cf> {
	let mut out = vec![];
	for kit in 0..KITS {
		for kind in [Kind::Vector, Kind::List, Kind::PVec, Kind::PList] {
			for w in 0..if kind.packed() { 6 } else { 1 } {
				for owned in [false, true] {
					for max in [None, Some(9), Some(16)] {
						for len in 0..if thorough { 34 } else { 18u16 } {
							for then in [Do::Push(7), Do::Pop, Do::Set(Ix::Last, 9), Do::Set(Ix::In(0), 3), Do::Get(Ix::Last), Do::Drop] {
								for salt in [0, 1] {
									let spec = Spec { kind, w, owned };
									out.push(Cf { kit, spec, max, layer: Layer::None, len, popped: 0, salt, then });
								}
							}
						}
					}
				}
			}
		}
	}
	out
}

// ------------------------------------------------ raw trees

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Rdo {
	Get(Path),
	Set(Path, u16),
	Copy(Path, Path),
	Sub(Path),
	Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rf {
	kit: u8,
	owned: bool,
	layer: Layer,
	before: Vec<(Path, u16)>,
	then: Rdo,
}

fn rf(_t: bool) -> BoxedStrategy<Rf> {
	let then = prop_oneof![
		2 => path(20).prop_map(Rdo::Get),
		5 => (path(12), 0u16..6).prop_map(|(p, v)| Rdo::Set(p, v)),
		1 => (path(63), 0u16..6).prop_map(|(p, v)| Rdo::Set(p, v)),
		3 => (path(6), path(6)).prop_map(|(a, b)| Rdo::Copy(a, b)),
		2 => path(8).prop_map(Rdo::Sub),
		1 => Just(Rdo::Drop),
	];
	(0..KITS, any::<bool>(), layer(), proptest::collection::vec((prop_oneof![9 => path(8), 1 => path(63)], 0u16..6), 0..8), then)
		.prop_map(|(kit, owned, layer, before, then)| Rf { kit, owned, layer, before, then })
		.boxed()
}

fn rf_check(c: &Rf, ctx: &mut Ctx) -> Res {
	with_kit!(c.kit, K => if c.owned { rf_go::<K, Owned>(c, ctx) } else { rf_go::<K, Dangling>(c, ctx) })
}

fn rf_go<K: Kit, S: RootStatus + 'static>(c: &Rf, ctx: &mut Ctx) -> Res {
	let mut mem = Mem::<K>::default();
	let v = |x: u16| K::V::of(&bytes_of(x, K::V::LEN));
	let mut first = Raw::<S, K::C>::default();
	let mut t: T<K::V> = T::zero();
	for (p, x) in &c.before {
		on::<K, _>(&mut mem, |db| first.set(db, p.index(), v(*x))).map_err(|e| format!("preparing: {:?}", e))?;
		t = t.with(&p.steps(), T::Leaf(v(*x)));
	}
	let root = first.root();
	let op = |h: &mut Option<Raw<S, K::C>>, db: &mut Db<'_, K::C>| -> Result<String, E_> {
		let raw = h.as_mut().unwrap();
		match c.then {
			Rdo::Get(p) => raw.get(db, p.index()).map(|x| format!("{:?}", x)),
			Rdo::Set(p, x) => raw.set(db, p.index(), v(x)).map(|_| "set".into()),
			// The value is known beforehand, so that a retry means the same.
			Rdo::Copy(to, from) => match t.at(&from.steps()) {
				Some(sub) => raw.set(db, to.index(), sub.hash()).map(|_| "copied".into()),
				None => Ok("nothing to copy".into()),
			},
			Rdo::Sub(p) => raw.subtree(db, p.index()).map(|s| format!("{:?}", s.root())),
			Rdo::Drop => h.take().unwrap().drop(db).map(|_| "dropped".into()),
		}
	};
	let mut places: Vec<Path> = (1..16usize)
		.map(|one| {
			let depth = (usize::BITS - 1 - one.leading_zeros()) as u8;
			Path { depth, bits: one as u64 & ((1 << depth) - 1) }
		})
		.collect();
	places.extend(c.before.iter().map(|(p, _)| *p));
	if let Rdo::Set(p, _) | Rdo::Copy(p, _) = c.then {
		places.push(p);
	}
	Probe::<K, Option<Raw<S, K::C>>> {
		mem: &mem,
		twin: &|| Some(Raw::from_leaked(root.clone())),
		op: &op,
		observe: &|h, db| match h {
			Some(raw) => {
				let all: Vec<_> = places.iter().map(|p| raw.get(db, p.index())).collect();
				format!("{:?} {:?}", raw.root(), all)
			}
			None => String::new(),
		},
		atomic: !matches!(c.then, Rdo::Drop),
		layer: c.layer,
	}
	.run(ctx)
}

// ------------------------------------------------ encoding, decoding, partial values

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ldo {
	Encode(V),
	Decode(V),
	/// A field of a nested struct is read, or some are assigned and flushed.
	FieldGet(u8),
	Fields(Vec<u8>),
	ElementGet(u8, u8),
	Elements(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lf {
	kit: u8,
	layer: Layer,
	owned: bool,
	at: Path,
	bytes: Vec<u8>,
	len: u8,
	then: Ldo,
}

fn lf(_t: bool) -> BoxedStrategy<Lf> {
	let then = prop_oneof![
		3 => a_value(false).prop_map(Ldo::Encode),
		3 => a_value(false).prop_map(Ldo::Decode),
		1 => any::<u8>().prop_map(Ldo::FieldGet),
		2 => proptest::collection::vec(any::<u8>(), 1..4).prop_map(Ldo::Fields),
		1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Ldo::ElementGet(a, b)),
		2 => (any::<u8>(), 0u8..4).prop_map(|(a, b)| Ldo::Elements(a, b)),
	];
	(0u8..2, layer(), any::<bool>(), path(10), proptest::collection::vec(any::<u8>(), 0..40), 0u8..10, then)
		.prop_map(|(kit, layer, owned, at, bytes, len, then)| Lf { kit, layer, owned, at, bytes, len, then })
		.boxed()
}

fn lf_check(c: &Lf, ctx: &mut Ctx) -> Res {
	with_zk!(c.kit, K => if c.owned { lf_go::<K, Owned>(c, ctx) } else { lf_go::<K, Dangling>(c, ctx) })
}

fn lf_go<K: Zk, S: RootStatus + 'static>(c: &Lf, ctx: &mut Ctx) -> Res
where
	K::C: CompatibleConstruct,
{
	let r = Ref::<K>::new();
	let none = Mem::<K>::default();
	let nothing = |_: &mut (), _: &mut Db<'_, K::C>| String::new();
	let layer = c.layer;
	match &c.then {
		Ldo::Encode(v) => {
			let v = v.value();
			ctx.label("encode");
			// Failing leaves nothing behind that changes the next attempt.
			let op = |_: &mut (), db: &mut Db<'_, K::C>| K::enc(&*v, db).map(|r| format!("{:?}", r));
			Probe::<K, ()> { mem: &none, twin: &|| (), op: &op, observe: &nothing, atomic: true, layer }.run(ctx)
		}
		Ldo::Decode(v) => {
			let t = v.value().description().tree(&r);
			let mem = crate::prove::frozen::<K>(&t.nodes());
			ctx.label("decode");
			let op = |_: &mut (), db: &mut Db<'_, K::C>| K::dec(v.ty(), &t.hash(), db).map(|s| format!("{:?}", s));
			Probe::<K, ()> { mem: &mem, twin: &|| (), op: &op, observe: &nothing, atomic: true, layer }.run(ctx)
		}
		Ldo::FieldGet(_) | Ldo::Fields(_) => {
			let old = P5::make(&mut Src::new(&c.bytes));
			let new = P5::make(&mut Src::new(&[180, 1, 2, 3, 181, 4, 5, 6, 182, 7, 8, 9, 183, 1, 1, 1, 184, 5, 5, 5, 185, 6, 6, 6, 186, 7, 7, 7]));
			let t = T::zero().with(&c.at.steps(), old.tree::<K>(&r));
			let mem = live::<K>(&t);
			let words = P5::words();
			type H<S, K> = (Raw<S, <K as Kit>::C>, <P5 as Partialable>::Value);
			let twin = || (Raw::<S, K::C>::from_leaked(t.hash()), PartialItem::new(PartialIndex::root().raw(c.at.index())));
			ctx.label("partial struct");
			let op = |h: &mut H<S, K>, db: &mut Db<'_, K::C>| match &c.then {
				Ldo::FieldGet(n) => P5::pget::<K, S>(&mut h.1, *n as usize % words, &h.0, db).map(|b| hex(&b)),
				Ldo::Fields(ns) => {
					for n in ns {
						P5::pset(&mut h.1, *n as usize % words, &new);
					}
					h.1.flush(&mut h.0, db).map(|_| format!("{:?}", h.0.root()))
				}
				_ => unreachable!(),
			};
			let atomic = matches!(c.then, Ldo::FieldGet(_));
			Probe::<K, H<S, K>> { mem: &mem, twin: &twin, op: &op, observe: &|h, _| format!("{:?}", h.0.root()), atomic, layer }.run(ctx)
		}
		Ldo::ElementGet(..) | Ldo::Elements(..) => {
			let mut s = Src::new(&c.bytes);
			let old: Vec<P2> = (0..c.len).map(|_| P2::make(&mut s)).collect();
			let new = P2::make(&mut Src::new(&[180, 1, 2, 3, 181, 4, 5, 6]));
			let mut mem = none.clone();
			let (root, t) = on::<K, _>(&mut mem, |db| -> Result<_, E_> {
				let list = old.into_tree(db)?;
				let mut raw = Raw::<Owned, K::C>::default();
				raw.set(db, c.at.index(), list.clone())?;
				Ok((raw.root(), list))
			})
			.map_err(|e| format!("preparing: {:?}", e))?;
			let whole = on::<K, _>(&mut mem, |db| Vec::<P2>::from_tree(&t, db)).map_err(|e| format!("preparing: {:?}", e))?;
			ensure!(whole == old, "the list does not read back");
			type H<S, K> = (Raw<S, <K as Kit>::C>, PartialVec<P2>);
			let twin = || (Raw::<S, K::C>::from_leaked(root.clone()), PartialItem::new(PartialIndex::root().raw(c.at.index())));
			ctx.label("partial list");
			let op = |h: &mut H<S, K>, db: &mut Db<'_, K::C>| match &c.then {
				Ldo::ElementGet(i, n) => P2::pget::<K, S>(h.1.at(*i as usize % 12), *n as usize % 2, &h.0, db).map(|b| hex(&b)),
				Ldo::Elements(i, pushes) => {
					if c.len > 0 {
						P2::pset(h.1.at((*i % c.len) as usize), *i as usize % 2, &new);
					}
					for _ in 0..*pushes {
						h.1.push(new.clone());
					}
					h.1.flush(&mut h.0, db).map(|_| format!("{:?}", h.0.root()))
				}
				_ => unreachable!(),
			};
			let atomic = matches!(c.then, Ldo::ElementGet(..));
			Probe::<K, H<S, K>> { mem: &mem, twin: &twin, op: &op, observe: &|h, _| format!("{:?}", h.0.root()), atomic, layer }.run(ctx)
		}
	}
}

pub fn properties() -> Vec<Property> {
	vec![Property {
		id: "C21",
		level: "fault_enumeration",
		rule: "For random (and all short) states and one operation each - reading, editing, creating, reopening and dropping collections and raw trees, encoding and decoding values of about 165 types, reading and flushing partial structs and lists - every single backend call is made to fail in turn, below nothing, a proving or an error-stripping backend: the operation must return exactly that failure, the handle must be unchanged, some of the failures are followed by a second one elsewhere, and a retry must give the fault-free result. Non-trivial: the operation makes at least two calls. Inner checks: injected faults.",
		assumptions: &["a failing call has no effect on the storage", "at most the first 600 calls of one operation"],
		parts: vec![
			Box::new(Random { name: "collections", quick: 40_000, thorough: 1_000_000, strategy: cf, check: cf_check }),
			Box::new(Exhaustive { name: "short collections", all: cf_all, check: cf_check }),
			Box::new(Random { name: "raw trees", quick: 40_000, thorough: 600_000, strategy: rf, check: rf_check }),
			Box::new(Random { name: "values", quick: 10_000, thorough: 400_000, strategy: lf, check: lf_check }),
		],
		known: no_known,
	}]
}
