//! C18: serde and parity-codec.

use crate::base::*;
use crate::run::*;
use crate::zoo::Src;
use bm::CompactValue;
use bm_le::{Compact, MaxVec, Value};
use generic_array::typenum as tn;
use parity_codec::{Decode, Encode};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use std::fmt::Debug;

/// Values that can be generated, and whether every bounded list in them is within its bound.
trait W: Sized + PartialEq + Debug {
	fn make(s: &mut Src) -> Self;
	fn valid(&self) -> bool {
		true
	}
}

macro_rules! w_int {
	($( $t:ty ),*) => { $(
		impl W for $t {
			fn make(s: &mut Src) -> Self {
				let mut b = [0; std::mem::size_of::<$t>()];
				b.copy_from_slice(&s.bytes(std::mem::size_of::<$t>()));
				<$t>::from_le_bytes(b)
			}
		}
	)* };
}
w_int!(u8, u16, u32, u64);

impl W for bool {
	fn make(s: &mut Src) -> Self {
		s.u8() & 1 == 1
	}
}
impl W for Value {
	fn make(s: &mut Src) -> Self {
		Value::of(&s.bytes(32))
	}
}
impl<A: W, B: W> W for (A, B) {
	fn make(s: &mut Src) -> Self {
		(A::make(s), B::make(s))
	}
	fn valid(&self) -> bool {
		self.0.valid() && self.1.valid()
	}
}
impl<A: W> W for Option<A> {
	fn make(s: &mut Src) -> Self {
		if s.u8() % 3 == 0 { None } else { Some(A::make(s)) }
	}
	fn valid(&self) -> bool {
		self.iter().all(W::valid)
	}
}
impl<A: W> W for Vec<A> {
	fn make(s: &mut Src) -> Self {
		(0..s.u8() % 6).map(|_| A::make(s)).collect()
	}
	fn valid(&self) -> bool {
		self.iter().all(W::valid)
	}
}
impl<A: W> W for Compact<A> {
	fn make(s: &mut Src) -> Self {
		Compact(A::make(s))
	}
	fn valid(&self) -> bool {
		self.0.valid()
	}
}
impl<A: W, N: tn::Unsigned + PartialEq + Debug> W for MaxVec<A, N> {
	fn make(s: &mut Src) -> Self {
		let n = N::to_usize();
		let len = match s.u8() {
			b @ 0..=99 => b as usize % (n + 1),
			100..=139 => n,
			140..=159 => n.saturating_sub(1),
			160..=199 => n + 1,
			b => b as usize % (2 * n + 3),
		};
		(0..len).map(|_| A::make(s)).collect::<Vec<A>>().into()
	}
	fn valid(&self) -> bool {
		self.len() <= N::to_usize() && self.iter().all(W::valid)
	}
}
impl<A: W> W for CompactValue<A> {
	fn make(s: &mut Src) -> Self {
		fn go<A: W>(s: &mut Src, depth: u8) -> CompactValue<A> {
			if depth == 0 || s.u8() < 80 {
				return CompactValue::Single(A::make(s));
			}
			CompactValue::Combined(Box::new((go(s, depth - 1), go(s, depth - 1))))
		}
		match s.u8() {
			// The proof of one place, as deep as an index can address.
			b if b < 60 => {
				let mut cur = CompactValue::Single(A::make(s));
				for _ in 0..[1, 2, 5, 20, 40, 61, 62, 63][b as usize % 8] {
					let other = CompactValue::Single(A::make(s));
					cur = CompactValue::Combined(Box::new(if s.u8() & 1 == 0 { (cur, other) } else { (other, cur) }));
				}
				cur
			}
			_ => go(s, 8),
		}
	}
	fn valid(&self) -> bool {
		match self {
			CompactValue::Single(v) => v.valid(),
			CompactValue::Combined(b) => b.0.valid() && b.1.valid(),
		}
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
	Set(u16, u8),
	Flip(u16, u8),
	Delete(u16, u8),
	Insert(u16, Vec<u8>),
	Repeat(u16, u8),
	Cut(u16),
	/// Replace everything.
	All(Vec<u8>),
	/// A run of one byte at the start.
	Run(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum JMut {
	Put(u16, u8),
	Grow(u16, u8),
	Shrink(u16),
	Rename(u16, u8),
	AddKey(u16),
	Move(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	ty: u8,
	bytes: Vec<u8>,
	codec: Vec<Mut>,
	text: Vec<Mut>,
	json: Vec<JMut>,
}

fn muts() -> impl Strategy<Value = Vec<Mut>> {
	let bytes = || proptest::collection::vec(prop_oneof![2 => 0u8..8, 2 => any::<u8>()], 0..40);
	let m = prop_oneof![
		4 => (any::<u16>(), prop_oneof![0u8..10, any::<u8>()]).prop_map(|(p, b)| Mut::Set(p, b)),
		3 => (any::<u16>(), 0u8..8).prop_map(|(p, b)| Mut::Flip(p, b)),
		2 => (any::<u16>(), 1u8..9).prop_map(|(p, n)| Mut::Delete(p, n)),
		2 => (any::<u16>(), bytes()).prop_map(|(p, b)| Mut::Insert(p, b)),
		3 => (any::<u16>(), any::<u8>()).prop_map(|(p, n)| Mut::Repeat(p, n)),
		3 => any::<u16>().prop_map(Mut::Cut),
		1 => bytes().prop_map(Mut::All),
		1 => (0u8..6, 0u16..400).prop_map(|(b, n)| Mut::Run(b, n)),
	];
	proptest::collection::vec(m, 0..4)
}

fn case(_t: bool) -> BoxedStrategy<Case> {
	let j = prop_oneof![
		2 => (any::<u16>(), any::<u8>()).prop_map(|(p, b)| JMut::Put(p, b)),
		4 => (any::<u16>(), any::<u8>()).prop_map(|(p, b)| JMut::Grow(p, b)),
		1 => any::<u16>().prop_map(JMut::Shrink),
		1 => (any::<u16>(), any::<u8>()).prop_map(|(p, b)| JMut::Rename(p, b)),
		1 => any::<u16>().prop_map(JMut::AddKey),
		1 => (any::<u16>(), any::<u16>()).prop_map(|(p, q)| JMut::Move(p, q)),
	];
	(0..TYPES, proptest::collection::vec(any::<u8>(), 0..60), muts(), muts(), proptest::collection::vec(j, 0..4))
		.prop_map(|(ty, bytes, codec, text, json)| Case { ty, bytes, codec, text, json })
		.boxed()
}

/// A position in a sequence of n, from the start or the end.
fn pos(p: u16, n: usize) -> usize {
	if n == 0 {
		0
	} else if p % 3 == 0 {
		(p / 3) as usize % n.min(6)
	} else {
		(p as usize * n) >> 16
	}
}

fn mutate(bytes: &mut Vec<u8>, muts: &[Mut]) {
	for m in muts {
		let n = bytes.len();
		match m {
			Mut::Set(p, b) if n > 0 => bytes[pos(*p, n)] = *b,
			Mut::Flip(p, b) if n > 0 => bytes[pos(*p, n)] ^= 1 << b,
			Mut::Delete(p, k) if n > 0 => {
				let at = pos(*p, n);
				bytes.drain(at..(at + *k as usize).min(n));
			}
			Mut::Insert(p, b) => {
				let at = pos(*p, n + 1);
				bytes.splice(at..at, b.iter().cloned());
			}
			Mut::Repeat(p, k) if n > 0 => {
				let at = pos(*p, n);
				let part = bytes[at..(at + *k as usize).min(n)].to_vec();
				bytes.splice(at..at, part);
			}
			Mut::Cut(p) if n > 0 => bytes.truncate(pos(*p, n)),
			Mut::All(b) => *bytes = b.clone(),
			Mut::Run(b, k) => {
				bytes.splice(0..0, vec![*b; *k as usize]);
			}
			_ => (),
		}
	}
}

fn count(j: &J) -> usize {
	1 + match j {
		J::Array(a) => a.iter().map(count).sum(),
		J::Object(o) => o.values().map(count).sum(),
		_ => 0usize,
	}
}

fn depth(j: &J) -> usize {
	match j {
		J::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
		J::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
		_ => 0,
	}
}

fn nth<'a>(j: &'a mut J, n: &mut usize) -> Option<&'a mut J> {
	if *n == 0 {
		return Some(j);
	}
	*n -= 1;
	match j {
		J::Array(a) => a.iter_mut().find_map(|x| nth(x, n)),
		J::Object(o) => o.iter_mut().find_map(|(_, x)| nth(x, n)),
		_ => None,
	}
}

fn jmutate(j: &mut J, muts: &[JMut]) {
	for m in muts {
		let n = count(j);
		let p = match m {
			JMut::Put(p, _) | JMut::Grow(p, _) | JMut::Shrink(p) | JMut::Rename(p, _) | JMut::AddKey(p) | JMut::Move(p, _) => *p,
		};
		let moved = match m {
			JMut::Move(_, q) => nth(j, &mut pos(*q, n)).cloned(),
			_ => None,
		};
		let at = match nth(j, &mut pos(p, n)) {
			Some(x) => x,
			None => continue,
		};
		match m {
			JMut::Put(_, b) => {
				*at = match b % 8 {
					0 => J::Null,
					1 => J::from(*b),
					2 => J::from(-1),
					3 => J::from(u64::MAX),
					4 => J::from("0x00"),
					5 => J::Array(vec![]),
					6 => J::Object(Default::default()),
					_ => J::from(1.5),
				}
			}
			JMut::Grow(_, b) => {
				if let J::Array(a) = at {
					let more = a.last().cloned().unwrap_or(J::from(*b));
					for _ in 0..1 + b % 5 {
						a.push(more.clone());
					}
				}
			}
			JMut::Shrink(_) => {
				if let J::Array(a) = at {
					a.pop();
				}
			}
			JMut::Rename(_, b) => {
				if let J::Object(o) = at {
					if let Some((_, v)) = o.clone().into_iter().next() {
						o.clear();
						o.insert(["Single", "Combined", "single", ""][*b as usize % 4].into(), v);
					}
				}
			}
			JMut::AddKey(_) => {
				if let J::Object(o) = at {
					o.insert("Single".into(), J::from("0x0000000000000000000000000000000000000000000000000000000000000001"));
				}
			}
			JMut::Move(..) => {
				if let Some(x) = moved {
					if count(&x) < 200 {
						*at = x;
					}
				}
			}
		}
	}
}

fn codec<X: W + Encode + Decode>(x: &X, c: &Case, ctx: &mut Ctx) -> Res {
	let bytes = x.encode();
	let mut rest = &bytes[..];
	let back = X::decode(&mut rest);
	if x.valid() {
		ensure!(back.as_ref() == Some(x), "codec: {:?} decodes to {:?}", x, back);
		ensure!(rest.is_empty(), "codec: {} bytes are left of {:?}", rest.len(), x);
		ensure!(x.using_encoded(|b| b == &bytes[..]), "codec: {:?} has two encodings", x);
		// Followed by something else.
		let mut twice = bytes.clone();
		twice.extend(&bytes);
		let mut rest = &twice[..];
		let (a, b) = (X::decode(&mut rest), X::decode(&mut rest));
		ensure!(a.as_ref() == Some(x) && b.as_ref() == Some(x) && rest.is_empty(), "codec: two copies of {:?} decode to {:?}, {:?}", x, a, b);
	} else {
		ensure!(back.is_none(), "codec: a list above its maximum is accepted: {:?}", back);
		ctx.label("codec: over-long refused");
	}
	// Truncated.
	let step = 1 + bytes.len() / 40;
	for k in (0..bytes.len()).step_by(step).chain(bytes.len().checked_sub(1)) {
		accepted_codec::<X>(&bytes[..k], ctx)?;
	}
	if !c.codec.is_empty() {
		let mut bytes = bytes;
		mutate(&mut bytes, &c.codec);
		if accepted_codec::<X>(&bytes, ctx)? {
			ctx.label("codec: altered bytes accepted");
		} else {
			ctx.label("codec: altered bytes refused");
		}
	}
	Ok(())
}

fn accepted_codec<X: W + Encode + Decode>(bytes: &[u8], ctx: &mut Ctx) -> Result<bool, String> {
	ctx.inner += 1;
	let y = match X::decode(&mut &bytes[..]) {
		Some(y) => y,
		None => return Ok(false),
	};
	ensure!(y.valid(), "codec: a list above its maximum is accepted from bytes {}: {:?}", hex(bytes), y);
	let again = X::decode(&mut &y.encode()[..]);
	ensure!(again.as_ref() == Some(&y), "codec: accepted {:?}, which then decodes to {:?}", y, again);
	Ok(true)
}

fn json<X: W + Serialize + DeserializeOwned>(x: &X, c: &Case, ctx: &mut Ctx) -> Res {
	let text = serde_json::to_vec(x).map_err(|e| format!("serde: {:?} is not serialized: {}", x, e))?;
	let tree = serde_json::to_value(x).map_err(|e| format!("serde: {:?} is not serialized: {}", x, e))?;
	let pretty = serde_json::to_string_pretty(x).map_err(|e| e.to_string())?;
	let backs = [
		("text", serde_json::from_slice::<X>(&text)),
		("stream", serde_json::from_reader(&text[..])),
		("pretty text", serde_json::from_str(&pretty)),
		("tree", serde_json::from_value(tree.clone())),
		("borrowed tree", X::deserialize(&tree)),
	];
	// serde_json refuses text nested more than 127 deep.
	let deep = depth(&tree) > 126;
	for (how, back) in backs {
		if deep && !how.contains("tree") {
			ctx.label("serde: too deep for text");
		} else if x.valid() {
			let back = back.map_err(|e| format!("serde ({}): {:?} does not come back: {}", how, x, e))?;
			ensure!(back == *x, "serde ({}): {:?} comes back as {:?}", how, x, back);
		} else {
			ensure!(back.is_err(), "serde ({}): a list above its maximum is accepted: {:?}", how, back);
			ctx.label("serde: over-long refused");
		}
	}
	let step = 1 + text.len() / 20;
	for k in (0..text.len()).step_by(step) {
		accepted_json(serde_json::from_slice::<X>(&text[..k]), ctx)?;
	}
	if !c.text.is_empty() {
		let mut text = text;
		mutate(&mut text, &c.text);
		if accepted_json(serde_json::from_slice::<X>(&text), ctx)? {
			ctx.label("serde: altered text accepted");
		} else {
			ctx.label("serde: altered text refused");
		}
	}
	if !c.json.is_empty() {
		let mut tree = tree;
		jmutate(&mut tree, &c.json);
		if accepted_json(serde_json::from_value::<X>(tree), ctx)? {
			ctx.label("serde: altered tree accepted");
		} else {
			ctx.label("serde: altered tree refused");
		}
	}
	Ok(())
}

fn accepted_json<X: W + Serialize + DeserializeOwned>(r: serde_json::Result<X>, ctx: &mut Ctx) -> Result<bool, String> {
	ctx.inner += 1;
	let y = match r {
		Ok(y) => y,
		Err(_) => return Ok(false),
	};
	ensure!(y.valid(), "serde: a list above its maximum is accepted: {:?}", y);
	let tree = serde_json::to_value(&y).map_err(|e| format!("serde: accepted {:?}, which is not serialized: {}", y, e))?;
	let again = serde_json::from_value::<X>(tree).map_err(|e| format!("serde: accepted {:?}, which does not come back: {}", y, e))?;
	ensure!(again == y, "serde: accepted {:?}, which then comes back as {:?}", y, again);
	Ok(true)
}

macro_rules! types {
	([$( $i:literal => $t:ty ),* $(,)?] serde only [$( $j:literal => $u:ty ),* $(,)?]) => {
		const TYPES: u8 = [$( $i ),* , $( $j ),*].len() as u8;
		fn check(c: &Case, ctx: &mut Ctx) -> Res {
			let mut s = Src::new(&c.bytes);
			match c.ty {
				$( $i => {
					let x = <$t>::make(&mut s);
					codec(&x, c, ctx)?;
					json(&x, c, ctx)?;
				} )*
				$( $j => {
					let x = <$u>::make(&mut s);
					json(&x, c, ctx)?;
				} )*
				_ => return Err("no such type".into()),
			}
			ctx.nontrivial = c.bytes.len() > 2;
			Ok(())
		}
	};
}

types! {
	[
		0 => CompactValue<Value>,
		1 => CompactValue<u64>,
		2 => Value,
		3 => MaxVec<bool, tn::U5>,
		4 => MaxVec<u16, tn::U0>,
		5 => MaxVec<u64, tn::U33>,
		6 => MaxVec<Value, tn::U3>,
		7 => MaxVec<MaxVec<u16, tn::U2>, tn::U3>,
		8 => MaxVec<CompactValue<Value>, tn::U4>,
		9 => CompactValue<Vec<u8>>,
		10 => Vec<MaxVec<bool, tn::U2>>,
		11 => MaxVec<(u16, MaxVec<bool, tn::U1>), tn::U2>,
		12 => MaxVec<u32, tn::U70>,
		13 => MaxVec<Option<MaxVec<bool, tn::U3>>, tn::U4>,
		14 => CompactValue<MaxVec<bool, tn::U2>>,
		15 => MaxVec<u16, tn::U16384>,
	]
	serde only [
		16 => Compact<MaxVec<u32, tn::U7>>,
		17 => Compact<MaxVec<bool, tn::U64>>,
		18 => Compact<u64>,
		19 => MaxVec<Compact<MaxVec<u8, tn::U2>>, tn::U2>,
		20 => Compact<CompactValue<Value>>,
	]
}

/// Lists longer than what fits the short forms of a length.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
	ty: u8,
	len: u32,
	seed: u16,
	codec: Vec<Mut>,
	cut: u32,
}

fn long(_t: bool) -> BoxedStrategy<Long> {
	let len = prop_oneof![
		3 => (0usize..10, -2i64..3).prop_map(|(k, d)| {
			[64, 255, 256, 1000, 4096, 16384, 16384, 20000, 32768, 65536][k] + d
		}),
		1 => 0i64..70_000,
	];
	let muts = prop_oneof![2 => Just(vec![]), 1 => muts()];
	(0u8..8, len, any::<u16>(), muts, any::<u32>())
		.prop_map(|(ty, len, seed, codec, cut)| Long { ty, len: len as u32, seed, codec, cut })
		.boxed()
}

fn long_list<A: W>(c: &Long) -> Vec<A> {
	let pool: Vec<A> = (0..37).map(|k| A::make(&mut Src::new(&bytes_of(c.seed.wrapping_add(k), 40)))).collect();
	let odd = A::make(&mut Src::new(&bytes_of(c.seed ^ 0x5555, 40)));
	let mut pool = pool.into_iter().map(Some).collect::<Vec<_>>();
	let n = c.len as usize;
	let mut out: Vec<A> = Vec::with_capacity(n);
	let mut odd = Some(odd);
	for k in 0..n {
		let x = if k + 1 == n { odd.take() } else { pool.get_mut(k).and_then(Option::take) };
		out.push(x.unwrap_or_else(|| A::make(&mut Src::new(&(k as u32).wrapping_mul(0x9e37_79b1).to_le_bytes()))));
	}
	out
}

fn long_check(c: &Long, ctx: &mut Ctx) -> Res {
	fn both<X: W + Encode + Decode + Serialize + DeserializeOwned>(x: X, c: &Long, ctx: &mut Ctx) -> Res {
		let bytes = x.encode();
		let back = X::decode(&mut &bytes[..]);
		if x.valid() {
			ensure!(back.as_ref() == Some(&x), "codec: a list of {} elements does not come back", c.len);
			let text = serde_json::to_vec(&x).map_err(|e| format!("serde: a list of {} elements: {}", c.len, e))?;
			let back = serde_json::from_slice::<X>(&text).map_err(|e| format!("serde: a list of {} elements: {}", c.len, e))?;
			ensure!(back == x, "serde: a list of {} elements comes back as another", c.len);
			ctx.hit();
		} else {
			ensure!(back.is_none(), "codec: a list of {} elements is accepted above its maximum", c.len);
			let tree = serde_json::to_value(&x).map_err(|e| e.to_string())?;
			ensure!(serde_json::from_value::<X>(tree).is_err(), "serde: a list of {} elements is accepted above its maximum", c.len);
			ctx.label("over-long refused");
		}
		let cut = c.cut as usize % bytes.len();
		ensure!(X::decode(&mut &bytes[..cut]).map_or(true, |y| y.valid() && y != x), "codec: {} of {} bytes are accepted", cut, bytes.len());
		if !c.codec.is_empty() {
			let mut bytes = bytes;
			mutate(&mut bytes, &c.codec);
			accepted_codec::<X>(&bytes, ctx)?;
		}
		Ok(())
	}
	if c.len >= 1 << 14 {
		ctx.label("2^14 elements and more");
	}
	match c.ty {
		0 => both(MaxVec::<bool, tn::U65536>::from(long_list(c)), c, ctx),
		1 => both(MaxVec::<u16, tn::U16384>::from(long_list(c)), c, ctx),
		2 => both(MaxVec::<u32, tn::U65536>::from(long_list(c)), c, ctx),
		3 => both(MaxVec::<u64, tn::U1048576>::from(long_list(c)), c, ctx),
		4 => both(MaxVec::<Value, tn::U32768>::from(long_list(c)), c, ctx),
		5 => both(MaxVec::<MaxVec<bool, tn::U2>, tn::U10000>::from(long_list(c)), c, ctx),
		6 => both(MaxVec::<MaxVec<u16, tn::U65536>, tn::U1>::from(vec![MaxVec::from(long_list(c))]), c, ctx),
		_ => both(CompactValue::<MaxVec<u16, tn::U16384>>::Single(MaxVec::from(long_list(c))), c, ctx),
	}
}

/// Bytes of a compact proof, all nesting: run in a process of its own.
pub fn nesting() -> bool {
	let bytes = vec![1u8; 1 << 20];
	std::thread::Builder::new()
		.stack_size(8 << 20)
		.spawn(move || CompactValue::<Value>::decode(&mut &bytes[..]).is_none())
		.unwrap()
		.join()
		.unwrap_or(false)
}

fn known() -> Vec<Known> {
	let ok = std::process::Command::new(std::env::current_exe().unwrap())
		.arg("nesting")
		.stderr(std::process::Stdio::null())
		.stdout(std::process::Stdio::null())
		.status()
		.map(|s| s.success())
		.unwrap_or(false);
	vec![Known {
		what: "CompactValue::decode (parity-codec) of 2^20 bytes 0x01 overflows an 8 MiB stack: the derived decoder nests once per byte".into(),
		still_fails: !ok,
	}]
}

pub fn properties() -> Vec<Property> {
	vec![Property {
		id: "C18",
		level: "exploration",
		rule: "Random values of 21 types (compact proofs to depth 63, tree values, bounded lists from empty to above their maximum, nested) through parity-codec and serde_json (text, stream, tree, borrowed tree); all or 40 truncations of each encoding; random alterations of the bytes, the text and the JSON tree. What is in bounds must come back, what is above a bound must be refused, whatever altered input is accepted must be in bounds and come back itself. The same for lists of up to 70000 elements. Non-trivial: at least three generator bytes. Inner checks: truncated and altered inputs.",
		assumptions: &["text nested deeper than 126 (a proof of depth 63 is not) is excluded, a limit of serde_json, and beyond some 400 for parity-codec (known finding)"],
		parts: vec![
			Box::new(Random { name: "wire", quick: 200_000, thorough: 10_000_000, strategy: case, check }),
			Box::new(Random { name: "long lists", quick: 1_500, thorough: 60_000, strategy: long, check: long_check }),
		],
		known,
	}]
}
