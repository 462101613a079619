//! C25: sequences of any kind kept in length-mixed trees, changed several operations at a time.

use crate::base::*;
use crate::coll::*;
use crate::hist::{ans_of, max_len, val, Ans, El, Ix, Model};
use crate::run::*;
use bm::{
	Dangling, Error, Leak, LengthMixed, List, Owned, PackedList, PackedVector, Raw, RootStatus, Sequence, Tree, Vector,
};
use generic_array::typenum::*;
use generic_array::GenericArray;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type R<X> = Result<X, Error<XErr>>;
type B<W> = GenericArray<u8, W>;

/// A sequence that can be kept in a length-mixed tree.
trait Inner<K: Make>: Sequence<Construct = K::C, RootStatus = Dangling> + Leak + Coll<K> + Sized + 'static {
	const KIND: Kind;
	const W: u8;
	type Own: Sequence<Construct = K::C> + Leak<Metadata = Self::Metadata>;
	fn own(db: &mut Db<'_, K::C>, len: usize, max: Option<u64>) -> R<Self::Own>;
	/// From the tree of the sequence, where the API has a way to.
	fn again(raw: Raw<Dangling, K::C>, db: &mut Db<'_, K::C>, len: usize, max: Option<u64>) -> Option<R<Self>>;
}

impl<K: Make> Inner<K> for Vector<Dangling, K::C> {
	const KIND: Kind = Kind::Vector;
	const W: u8 = 0;
	type Own = Vector<Owned, K::C>;
	fn own(db: &mut Db<'_, K::C>, len: usize, max: Option<u64>) -> R<Self::Own> {
		Vector::create(db, len, max)
	}
	fn again(raw: Raw<Dangling, K::C>, _: &mut Db<'_, K::C>, len: usize, max: Option<u64>) -> Option<R<Self>> {
		Some(Ok(raw.into_vector(len, max)))
	}
}

impl<K: Make> Inner<K> for List<Dangling, K::C> {
	const KIND: Kind = Kind::List;
	const W: u8 = 0;
	type Own = List<Owned, K::C>;
	fn own(db: &mut Db<'_, K::C>, _: usize, max: Option<u64>) -> R<Self::Own> {
		List::create(db, max)
	}
	fn again(raw: Raw<Dangling, K::C>, db: &mut Db<'_, K::C>, _: usize, max: Option<u64>) -> Option<R<Self>> {
		Some(List::reconstruct(raw.root(), db, max))
	}
}

macro_rules! packed {
	($( $kit:ty, $h:ty: [$( $w:ty = $n:literal ),*] );*) => { $( $(
		impl Inner<$kit> for PackedVector<Dangling, <$kit as Kit>::C, B<$w>, $h, $w> {
			const KIND: Kind = Kind::PVec;
			const W: u8 = $n;
			type Own = PackedVector<Owned, <$kit as Kit>::C, B<$w>, $h, $w>;
			fn own(db: &mut Db<'_, <$kit as Kit>::C>, len: usize, max: Option<u64>) -> R<Self::Own> {
				PackedVector::create(db, len, max)
			}
			fn again(raw: Raw<Dangling, <$kit as Kit>::C>, _: &mut Db<'_, <$kit as Kit>::C>, len: usize, max: Option<u64>) -> Option<R<Self>> {
				Some(Ok(PackedVector::from_raw(raw, len, max)))
			}
		}
		impl Inner<$kit> for PackedList<Dangling, <$kit as Kit>::C, B<$w>, $h, $w> {
			const KIND: Kind = Kind::PList;
			const W: u8 = $n;
			type Own = PackedList<Owned, <$kit as Kit>::C, B<$w>, $h, $w>;
			fn own(db: &mut Db<'_, <$kit as Kit>::C>, _: usize, max: Option<u64>) -> R<Self::Own> {
				PackedList::create(db, max)
			}
			fn again(_: Raw<Dangling, <$kit as Kit>::C>, _: &mut Db<'_, <$kit as Kit>::C>, _: usize, _: Option<u64>) -> Option<R<Self>> {
				None
			}
		}
	)* )* };
}
packed! {
	KI, U32: [U8 = 1, U12 = 2];
	KU, U32: [U8 = 1, U12 = 2];
	KSI, U8: [U3 = 1, U4 = 2];
	KSU, U8: [U3 = 1, U4 = 2]
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Bop {
	Get(Ix),
	Set(Ix, u16),
	Push(u16),
	Pop,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
	/// Stop at the first refused operation and report it.
	Strict,
	/// Carry on past refused operations.
	Lenient,
	/// Do everything, then give up.
	GiveUp,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Batch(Vec<Bop>, End),
	/// Storage fails at one of the calls of a batch.
	Fault(Vec<Bop>, u16),
	/// Put the sequence as it was some batches ago in place of the present one (dangling trees only).
	Restore(u8),
	Reopen(Reopen),
	/// Another root status from the same metadata; dangling is used for the rest.
	Lend,
	/// Reading that gives up.
	Peek(Ix),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mixed {
	kit: u8,
	inner: u8,
	owned: bool,
	max: Option<u64>,
	init: u16,
	ops: Vec<Op>,
}

const INNERS: u8 = 6;

fn mixed(thorough: bool) -> BoxedStrategy<Mixed> {
	let (n, m) = if thorough { (30, 30) } else { (12, 14) };
	let ix = || {
		prop_oneof![
			12 => any::<u16>().prop_map(Ix::In),
			2 => Just(Ix::Last),
			2 => (0u16..3).prop_map(Ix::Past),
			1 => any::<u8>().prop_map(Ix::Huge),
		]
	};
	let bop = prop_oneof![
		2 => ix().prop_map(Bop::Get),
		4 => (ix(), val()).prop_map(|(i, v)| Bop::Set(i, v)),
		6 => val().prop_map(Bop::Push),
		3 => Just(Bop::Pop),
	];
	let bop2 = bop.clone();
	let end = prop_oneof![3 => Just(End::Strict), 3 => Just(End::Lenient), 1 => Just(End::GiveUp)];
	let op = prop_oneof![
		8 => (proptest::collection::vec(bop, 0..m), end).prop_map(|(b, e)| Op::Batch(b, e)),
		2 => (proptest::collection::vec(bop2, 1..m), any::<u16>()).prop_map(|(b, k)| Op::Fault(b, k)),
		1 => any::<u8>().prop_map(Op::Restore),
		2 => prop_oneof![Just(Reopen::Leak), Just(Reopen::Raw), Just(Reopen::Root)].prop_map(Op::Reopen),
		1 => Just(Op::Lend),
		1 => ix().prop_map(Op::Peek),
	];
	(0..KITS, 0..INNERS, any::<bool>(), max_len(), prop_oneof![3 => Just(0u16), 1 => 0u16..30], proptest::collection::vec(op, 1..n))
		.prop_map(|(kit, inner, owned, max, init, ops)| Mixed { kit, inner, owned, max, init, ops })
		.boxed()
}

fn mixed_check(c: &Mixed, ctx: &mut Ctx) -> Res {
	macro_rules! pick {
		($K:ty, $h:ty, $a:ty, $b:ty) => {
			match c.inner % INNERS {
				0 => own::<$K, Vector<Dangling, <$K as Kit>::C>>(c, ctx),
				1 => own::<$K, List<Dangling, <$K as Kit>::C>>(c, ctx),
				2 => own::<$K, PackedVector<Dangling, <$K as Kit>::C, B<$a>, $h, $a>>(c, ctx),
				3 => own::<$K, PackedVector<Dangling, <$K as Kit>::C, B<$b>, $h, $b>>(c, ctx),
				4 => own::<$K, PackedList<Dangling, <$K as Kit>::C, B<$a>, $h, $a>>(c, ctx),
				_ => own::<$K, PackedList<Dangling, <$K as Kit>::C, B<$b>, $h, $b>>(c, ctx),
			}
		};
	}
	match c.kit % KITS {
		0 => pick!(KI, U32, U8, U12),
		1 => pick!(KU, U32, U8, U12),
		2 => pick!(KSI, U8, U3, U4),
		_ => pick!(KSU, U8, U3, U4),
	}
}

fn own<K: Make, S: Inner<K>>(c: &Mixed, ctx: &mut Ctx) -> Res {
	let mut mem = Mem::<K>::default();
	// Never-written elements under the unit construct are a recorded finding.
	let init = if S::KIND.list() || !K::INHERITED { 0 } else { (c.init as u64).min(c.max.unwrap_or(u64::MAX)) as usize };
	let own = on::<K, _>(&mut mem, |db| LengthMixed::<Owned, K::C, S>::create(db, |db| S::own(db, init, c.max)))
		.map_err(|e| format!("create: {:?}", e))?;
	if c.owned {
		drive::<K, S, Owned>(c, ctx, &mut mem, own, init)
	} else {
		let lent = LengthMixed::<Dangling, K::C, S>::from_leaked(own.metadata());
		drive::<K, S, Dangling>(c, ctx, &mut mem, lent, init)
	}
}

fn act<K: Make, S: Inner<K>>(s: &mut S, db: &mut Db<'_, K::C>, width: usize, el: El) -> Ans {
	match el {
		El::Get(i) => ans_of(Coll::get(s, db, i), Ans::Bytes),
		El::Set(i, v) => ans_of(Coll::set(s, db, i, &bytes_of(v, width)), |_| Ans::Done),
		El::Push(v) => ans_of(Coll::push(s, db, &bytes_of(v, width)), |_| Ans::Done),
		El::Pop => ans_of(Coll::pop(s, db), |o| o.map(Ans::Bytes).unwrap_or(Ans::None)),
	}
}

struct Out {
	got: R<usize>,
	wrong: Option<String>,
	/// The root of the sequence when everything was done.
	inside: Option<Vec<u8>>,
	refused: bool,
	done: usize,
	next: Model,
}

fn batch<K: Make, S: Inner<K>, O: RootStatus>(
	lm: &mut LengthMixed<O, K::C, S>,
	db: &mut Db<'_, K::C>,
	bops: &[Bop],
	end: End,
	m: &Model,
) -> Out {
	let width = m.width;
	let mut next = Model { elems: m.elems.clone(), max: m.max, width };
	let (mut wrong, mut inside, mut refused, mut done) = (None, None, false, 0);
	let got = lm.with_mut(db, |s, db| {
		for b in bops {
			let (len, max) = (next.elems.len(), next.max);
			let el = match *b {
				Bop::Get(i) => El::Get(i.resolve(len, max)),
				Bop::Set(i, v) => El::Set(i.resolve(len, max), v),
				Bop::Push(v) => El::Push(v),
				Bop::Pop => El::Pop,
			};
			let want = next.apply(el);
			let ans = act::<K, S>(s, db, width, el);
			if let Ans::Other(Error::Backend(XErr::Injected(k))) = ans {
				return Err(Error::Backend(XErr::Injected(k)));
			}
			if ans != want || Sequence::len(s) != next.elems.len() {
				wrong.get_or_insert(format!("{:?}: {:?} instead of {:?}, length {} instead of {}", el, ans, want, Sequence::len(s), next.elems.len()));
			}
			if want == Ans::Overflow {
				refused = true;
				if end == End::Strict {
					return Err(Error::AccessOverflowed);
				}
			} else {
				done += 1;
			}
		}
		inside = Some(Tree::root(s).as_ref().to_vec());
		if end == End::GiveUp {
			return Err(Error::InvalidParameter);
		}
		Ok(done)
	});
	Out { got, wrong, inside, refused, done, next }
}

fn drive<K: Make, S: Inner<K>, O: RootStatus>(
	c: &Mixed,
	ctx: &mut Ctx,
	mem: &mut Mem<K>,
	start: LengthMixed<O, K::C, S>,
	init: usize,
) -> Res
where
	LengthMixed<O, K::C, S>: Tree<Construct = K::C> + Leak<Metadata = (K::V, S::Metadata)>,
	Raw<O, K::C>: Tree<Construct = K::C> + Leak<Metadata = K::V>,
{
	let r = Ref::<K>::new();
	let width = K::width(S::KIND, S::W);
	let mut lm = start;
	let mut m = Model { elems: vec![vec![0; width]; init], max: c.max, width };
	let tree = |elems: &[Vec<u8>]| T::node(model_tree::<K>(&r, S::KIND, S::W, elems, c.max), Ref::<K>::len_leaf(elems.len() as u64));
	let mut past: Vec<(Vec<Vec<u8>>, S::Metadata)> = vec![];
	let (mut kept, mut undone) = (0, 0);
	for (n, op) in c.ops.iter().enumerate() {
		let at = |s: String| format!("op {} {:?}: {}", n, op, s);
		let before = (Tree::root(&lm), lm.len());
		match op {
			Op::Batch(bops, end) => {
				let was = lm.metadata().1;
				let out = on::<K, _>(mem, |db| batch::<K, S, O>(&mut lm, db, bops, *end, &m));
				let Out { got, wrong, inside, refused, done, next } = out;
				if let Some(w) = wrong {
					return Err(at(w));
				}
				let want = match end {
					End::Strict if refused => Err(Error::AccessOverflowed),
					End::GiveUp => Err(Error::InvalidParameter),
					_ => Ok(done),
				};
				ensure!(got == want, "{}", at(format!("gives {:?} instead of {:?}", got, want)));
				if let Some(root) = inside {
					let model = model_tree::<K>(&r, S::KIND, S::W, &next.elems, c.max).hash();
					ensure!(root == model.as_ref(), "{}", at("the root of the sequence inside is another".into()));
				}
				if got.is_ok() {
					past.push((m.elems, was));
					m = next;
					kept += (bops.len() > 1) as usize;
				} else {
					ensure!((Tree::root(&lm), lm.len()) == before, "{}", at("a batch that failed changed the root or the length".into()));
					if done > 0 {
						undone += 1;
						ctx.label("failed after some changes");
					}
				}
			}
			Op::Fault(bops, k) => {
				let mut copy = mem.clone();
				let mut twin = LengthMixed::<O, K::C, S>::from_leaked(lm.metadata());
				let mut e = E(&mut copy);
				let mut spy = Spy::<K::C>::new(&mut e);
				let out = batch::<K, S, O>(&mut twin, &mut Db(&mut spy), bops, End::Lenient, &m);
				ensure!(out.got.is_ok() && out.wrong.is_none(), "{}", at(format!("{:?} {:?}", out.got, out.wrong)));
				let calls = spy.calls;
				if calls == 0 {
					continue
				}
				let k = *k as u64 % calls;
				let mut e = E(mem);
				let mut spy = Spy::<K::C>::new(&mut e);
				spy.fail_at = Some(k);
				let got = batch::<K, S, O>(&mut lm, &mut Db(&mut spy), bops, End::Lenient, &m).got;
				ensure!(got == Err(Error::Backend(XErr::Injected(k))), "{}", at(format!("call {} of {} fails and the batch gives {:?}", k, calls, got)));
				ensure!((Tree::root(&lm), lm.len()) == before, "{}", at("a batch that failed changed the root or the length".into()));
				ctx.label("storage failed");
				undone += 1;
			}
			Op::Restore(_) if c.owned || past.is_empty() => (),
			Op::Restore(k) => {
				let (elems, meta) = past.remove(*k as usize % past.len());
				let meta = S::from_leaked(meta);
				on::<K, _>(mem, |db| lm.with_mut(db, |s, _| {
					*s = meta;
					Ok(())
				})).map_err(|e| at(format!("{:?}", e)))?;
				m.elems = elems;
				ctx.label("another sequence put in place");
			}
			Op::Reopen(how) => {
				lm = match how {
					Reopen::Leak => LengthMixed::from_leaked(lm.metadata()),
					_ => {
						let meta = lm.metadata();
						let root = if *how == Reopen::Raw {
							Tree::root(&lm.into_raw())
						} else {
							on::<K, _>(mem, |db| lm.deconstruct(db)).map_err(|e| at(format!("deconstruct: {:?}", e)))?
						};
						let mut cannot = false;
						let back = on::<K, _>(mem, |db| {
							LengthMixed::<O, K::C, S>::reconstruct(root, db, |raw, db, len| match S::again(raw, db, len, c.max) {
								Some(s) => s,
								None => {
									cannot = true;
									Err(Error::InvalidParameter)
								}
							})
						});
						match back {
							Err(_) if cannot => LengthMixed::from_leaked(meta),
							back => back.map_err(|e| at(format!("reconstruct: {:?}", e)))?,
						}
					}
				};
				ensure!((Tree::root(&lm), lm.len()) == before, "{}", at(format!("{:?} became {:?}", before, (Tree::root(&lm), lm.len()))));
				ctx.label("reopened");
			}
			Op::Lend => {
				let mut lent = LengthMixed::<Dangling, K::C, S>::from_leaked(lm.metadata());
				ensure!((Tree::root(&lent), lent.len()) == before, "{}", at("another root or length".into()));
				if !c.owned {
					// Changing the copy leaves the other handle as it was.
					let mut next = Model { elems: m.elems.clone(), max: c.max, width };
					let want = next.apply(El::Push(7));
					let got = on::<K, _>(mem, |db| lent.with_mut(db, |s, db| Ok(act::<K, S>(s, db, width, El::Push(7)))));
					ensure!(got == Ok(want), "{}", at(format!("{:?}", got)));
					ensure!(Tree::root(&lent) == tree(&next.elems).hash(), "{}", at("the copy has another root".into()));
				}
			}
			Op::Peek(i) => {
				let i = i.resolve(m.elems.len(), c.max);
				let got: R<()> = on::<K, _>(mem, |db| lm.with(db, |s, db| {
					Coll::get(s, db, i)?;
					Err(Error::InvalidParameter)
				}));
				let want = if i < m.elems.len() { Error::InvalidParameter } else { Error::AccessOverflowed };
				ensure!(got == Err(want), "{}", at(format!("{:?}", got)));
			}
		}
		let t = tree(&m.elems);
		ensure!(lm.len() == m.elems.len(), "{}", at(format!("length {} instead of {}", lm.len(), m.elems.len())));
		ensure!(Tree::root(&lm) == t.hash(), "{}", at(format!("root {:?} instead of {:?}", Tree::root(&lm), t.hash())));
		on::<K, _>(mem, |db| fully_readable(db, &t)).map_err(at)?;
		let got = on::<K, _>(mem, |db| lm.with(db, |s, db| (0..m.elems.len()).map(|i| Coll::get(s, db, i)).collect::<R<Vec<_>>>()))
			.map_err(|e| at(format!("reading: {:?}", e)))?;
		ensure!(got == m.elems, "{}", at(format!("elements {:?} instead of {:?}", got, m.elems)));
		let past_it = on::<K, _>(mem, |db| lm.with(db, |s, db| Coll::get(s, db, m.elems.len())));
		ensure!(past_it == Err(Error::AccessOverflowed), "{}", at(format!("reading past the end: {:?}", past_it)));
	}
	on::<K, _>(mem, |db| Tree::drop(lm, db)).map_err(|e| format!("drop: {:?}", e))?;
	ctx.label(["vector", "list", "packed vector", "packed vector, spanning", "packed list", "packed list, spanning"][(c.inner % INNERS) as usize]);
	if kept > 0 || undone > 0 {
		ctx.hit();
	}
	Ok(())
}

pub fn properties() -> Vec<Property> {
	vec![Property {
		id: "C25",
		level: "exploration",
		rule: "Length-mixed trees over vectors, lists, packed vectors and packed lists in four constructs, owned and dangling: batches of operations in one update (all kept, or stopped by a refusal, by the caller or by a storage failure at a random call and then all undone), another sequence put in place, reopening through metadata, raw tree and single root, reads that give up. After each step root (against a reference tree), length and all elements are compared with a model. Non-trivial: a batch of several operations was kept, or one that had changed something was undone.",
		assumptions: &["SHA-256 (sha2 0.10) as reference hash", "vectors created non-empty under the unit construct are excluded (known finding of C04, C05)"],
		parts: vec![
			Box::new(Random { name: "batches", quick: 60_000, thorough: 1_500_000, strategy: mixed, check: mixed_check }),
		],
		known: no_known,
	}]
}
