//! Case generation, parallel execution, shrinking, replay and evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Observations of one case.
#[derive(Default)]
pub struct Ctx {
	pub labels: Vec<&'static str>,
	pub nontrivial: bool,
	/// Sub-checks made inside this case (fault positions, corruptions, ...).
	pub inner: u64,
}

impl Ctx {
	pub fn label(&mut self, l: &'static str) {
		if !self.labels.contains(&l) {
			self.labels.push(l);
		}
	}
	pub fn hit(&mut self) {
		self.nontrivial = true;
	}
}

pub type Res = Result<(), String>;

/// One generator with its oracle.
pub trait Part: Sync {
	fn name(&self) -> &'static str;
	fn cases(&self, thorough: bool) -> u64;
	fn worker(&self, job: &Job) -> Tally;
	fn replay(&self, case: &J) -> Res;
}

pub struct Random<C: Debug> {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub strategy: fn(bool) -> BoxedStrategy<C>,
	pub check: fn(&C, &mut Ctx) -> Res,
}

/// A finite space, walked completely.
pub struct Exhaustive<C> {
	pub name: &'static str,
	pub all: fn(bool) -> Vec<C>,
	pub check: fn(&C, &mut Ctx) -> Res,
}

pub struct Job<'a> {
	pub seed: u64,
	pub part: usize,
	pub worker: u64,
	pub workers: u64,
	pub thorough: bool,
	pub stop: &'a AtomicBool,
	pub deadline: Instant,
	pub slot: &'a Slot,
	pub trace: bool,
	/// The part's name, as reported.
	pub label: &'static str,
	/// One of so many cases is run.
	pub scale: u64,
}

/// What a worker is doing right now, for the watchdog and for crash traces.
#[derive(Default)]
pub struct Slot {
	pub since: Mutex<Option<(Instant, &'static str, String)>>,
}

#[derive(Default)]
pub struct Tally {
	pub evaluations: u64,
	pub inner: u64,
	pub seen: HashSet<u64>,
	pub labels: BTreeMap<&'static str, u64>,
	pub samples: Vec<J>,
	pub failure: Option<(J, String)>,
	pub cut: bool,
}

thread_local! {
	static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn silence_panics() {
	std::panic::set_hook(Box::new(|info| {
		PANIC.with(|p| *p.borrow_mut() = format!("{}", info).replace('\n', " "));
	}));
}

pub fn guarded<C>(check: fn(&C, &mut Ctx) -> Res, case: &C, ctx: &mut Ctx) -> Res {
	match catch_unwind(AssertUnwindSafe(|| check(case, ctx))) {
		Ok(r) => r,
		Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
	}
}

fn hash64(s: &str) -> u64 {
	let mut h: u64 = 0xcbf29ce484222325;
	for b in s.bytes() {
		h = (h ^ b as u64).wrapping_mul(0x100000001b3);
	}
	h
}

fn one<C: Serialize + Debug>(
	name: &'static str,
	check: fn(&C, &mut Ctx) -> Res,
	case: &C,
	job: &Job,
	tally: &mut Tally,
) -> Res {
	let text = serde_json::to_string(case).expect("cases are serializable");
	if job.trace {
		let dir = std::env::var("PBT_TRACE_DIR").unwrap();
		let _ = std::fs::write(
			format!("{}/{}.json", dir, job.worker),
			format!("{{\"part\":\"{}\",\"case\":{}}}", name, text),
		);
	}
	*job.slot.since.lock().unwrap() = Some((Instant::now(), name, text.clone()));
	let mut ctx = Ctx::default();
	let r = guarded(check, case, &mut ctx);
	*job.slot.since.lock().unwrap() = None;
	tally.evaluations += 1;
	tally.inner += ctx.inner;
	for l in ctx.labels.drain(..) {
		*tally.labels.entry(l).or_insert(0) += 1;
	}
	if ctx.nontrivial {
		let fresh = tally.seen.insert(hash64(&text) ^ hash64(name));
		if fresh && tally.samples.len() < 2 && text.len() < 1500 && tally.evaluations > 20 {
			tally.samples.push(json!({"part": name, "case": serde_json::from_str::<J>(&text).unwrap()}));
		}
	}
	r
}

fn runner(job: &Job) -> TestRunner {
	let mut seed = [0u8; 32];
	let mut x = job.seed ^ (job.part as u64) << 40 ^ job.worker << 20 ^ 0x5bd1e995;
	for chunk in seed.chunks_mut(8) {
		// splitmix64
		x = x.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = x;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
	}
	TestRunner::new_with_rng(
		Config { failure_persistence: None, ..Config::default() },
		TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
	)
}

impl<C: Debug + Serialize + DeserializeOwned + 'static> Part for Random<C> {
	fn name(&self) -> &'static str {
		self.name
	}
	fn cases(&self, thorough: bool) -> u64 {
		if thorough { self.thorough } else { self.quick }
	}
	fn worker(&self, job: &Job) -> Tally {
		let mut tally = Tally::default();
		let strategy = (self.strategy)(job.thorough);
		let mut rn = runner(job);
		let total = self.cases(job.thorough) / job.scale;
		let mine = total / job.workers + (job.worker < total % job.workers) as u64;
		for _ in 0..mine {
			if job.stop.load(Ordering::Relaxed) {
				break;
			}
			if Instant::now() > job.deadline {
				tally.cut = true;
				break;
			}
			let mut tree = strategy.new_tree(&mut rn).expect("generators do not reject");
			let case = tree.current();
			if let Err(first) = one(job.label, self.check, &case, job, &mut tally) {
				job.stop.store(true, Ordering::Relaxed);
				let mut best = (case, first);
				let limit = Instant::now() + Duration::from_secs(60);
				let mut steps = 0;
				if tree.simplify() {
					loop {
						steps += 1;
						if steps > 4000 || Instant::now() > limit {
							break;
						}
						let case = tree.current();
						let mut scratch = Tally::default();
						if let Err(msg) = one(job.label, self.check, &case, job, &mut scratch) {
							best = (case, msg);
							if !tree.simplify() {
								break;
							}
						} else if !tree.complicate() {
							break;
						}
					}
				}
				tally.failure = Some((serde_json::to_value(&best.0).unwrap(), best.1));
				break;
			}
		}
		tally
	}
	fn replay(&self, case: &J) -> Res {
		let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("unreadable replay: {}", e))?;
		guarded(self.check, &c, &mut Ctx::default())
	}
}

impl<C: Debug + Serialize + DeserializeOwned + Sync> Part for Exhaustive<C> {
	fn name(&self) -> &'static str {
		self.name
	}
	fn cases(&self, thorough: bool) -> u64 {
		(self.all)(thorough).len() as u64
	}
	fn worker(&self, job: &Job) -> Tally {
		let mut tally = Tally::default();
		for (i, case) in (self.all)(job.thorough).into_iter().enumerate() {
			if i as u64 % job.scale != 0 || i as u64 / job.scale % job.workers != job.worker {
				continue;
			}
			if job.stop.load(Ordering::Relaxed) {
				break;
			}
			if Instant::now() > job.deadline {
				tally.cut = true;
				break;
			}
			if let Err(msg) = one(job.label, self.check, &case, job, &mut tally) {
				job.stop.store(true, Ordering::Relaxed);
				tally.failure = Some((serde_json::to_value(&case).unwrap(), msg));
				break;
			}
		}
		tally
	}
	fn replay(&self, case: &J) -> Res {
		let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("unreadable replay: {}", e))?;
		guarded(self.check, &c, &mut Ctx::default())
	}
}

/// A part of another property, with fewer cases.
pub struct Scaled {
	pub name: &'static str,
	pub part: Box<dyn Part>,
	pub quick: u64,
	pub thorough: u64,
}

impl Scaled {
	fn scale(&self, thorough: bool) -> u64 {
		if thorough { self.thorough } else { self.quick }
	}
}

impl Part for Scaled {
	fn name(&self) -> &'static str {
		self.name
	}
	fn cases(&self, thorough: bool) -> u64 {
		self.part.cases(thorough) / self.scale(thorough)
	}
	fn worker(&self, job: &Job) -> Tally {
		self.part.worker(&Job { label: self.name, scale: job.scale * self.scale(job.thorough), ..*job })
	}
	fn replay(&self, case: &J) -> Res {
		self.part.replay(case)
	}
}

/// A defect of the code that is on record: the exact case, and what it still does.
pub struct Known {
	pub what: String,
	pub still_fails: bool,
}

pub struct Property {
	pub id: &'static str,
	pub level: &'static str,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
	pub parts: Vec<Box<dyn Part>>,
	pub known: fn() -> Vec<Known>,
}

pub fn no_known() -> Vec<Known> {
	Vec::new()
}

pub static HANG_SECS: AtomicU64 = AtomicU64::new(90);

pub enum Outcome {
	Held,
	Violated { part: &'static str, case: J, message: String },
	/// A single case that did not come back within the hang limit.
	Stuck { part: &'static str, case: J },
}

/// Run all parts of a property, print progress to stderr, write the evidence file.
pub fn run_property(p: &Property, seed: u64, thorough: bool, evidence: &str) -> Outcome {
	let start = Instant::now();
	let workers: u64 = std::env::var("PBT_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
	let trace = std::env::var("PBT_TRACE_DIR").is_ok();
	let budget = Duration::from_secs(if thorough { 3600 } else { 420 });
	let mut per_part = Vec::new();
	let mut total = Tally::default();
	let mut outcome = Outcome::Held;
	for (index, part) in p.parts.iter().enumerate() {
		let t0 = Instant::now();
		let stop = AtomicBool::new(false);
		let slots: Vec<Slot> = (0..workers).map(|_| Slot::default()).collect();
		let finished = AtomicU64::new(0);
		let stuck: Mutex<Option<(&'static str, J)>> = Mutex::new(None);
		let tallies: Vec<Tally> = std::thread::scope(|s| {
			let handles: Vec<_> = (0..workers)
				.map(|w| {
					let (stop, slots, finished, part) = (&stop, &slots, &finished, part);
					std::thread::Builder::new()
						.stack_size(256 << 20)
						.spawn_scoped(s, move || {
							let t = part.worker(&Job {
								seed,
								part: index,
								worker: w,
								workers,
								thorough,
								stop,
								deadline: start + budget,
								slot: &slots[w as usize],
								trace,
								label: part.name(),
								scale: 1,
							});
							finished.fetch_add(1, Ordering::SeqCst);
							t
						})
						.expect("spawning a worker")
				})
				.collect();
			// Watchdog.
			while finished.load(Ordering::SeqCst) < workers {
				std::thread::sleep(Duration::from_millis(20));
				if handles.iter().all(|h| h.is_finished()) {
					break;
				}
				for slot in &slots {
					let s = slot.since.lock().unwrap();
					if let Some((t, part, case)) = &*s {
						if t.elapsed() > Duration::from_secs(HANG_SECS.load(Ordering::Relaxed)) {
							*stuck.lock().unwrap() = Some((part, serde_json::from_str(case).unwrap()));
						}
					}
				}
				if let Some((part, case)) = stuck.lock().unwrap().take() {
					// The stuck thread cannot be joined: report from here.
					finish(&Outcome::Stuck { part, case });
				}
			}
			handles
				.into_iter()
				.map(|h| match h.join() {
					Ok(t) => t,
					Err(_) => {
						eprintln!("harness error: a worker panicked: {}", part.name());
						std::process::exit(2)
					}
				})
				.collect()
		});
		let mut sum = Tally::default();
		for t in tallies {
			sum.evaluations += t.evaluations;
			sum.inner += t.inner;
			sum.seen.extend(t.seen);
			for (k, v) in t.labels {
				*sum.labels.entry(k).or_insert(0) += v;
			}
			for s in t.samples {
				if sum.samples.len() < 2 {
					sum.samples.push(s);
				}
			}
			sum.cut |= t.cut;
			if let Some((case, message)) = t.failure {
				let smaller = match &outcome {
					Outcome::Violated { case: old, .. } => case.to_string().len() < old.to_string().len(),
					_ => true,
				};
				if smaller {
					outcome = Outcome::Violated { part: part.name(), case, message };
				}
			}
		}
		let mut classes: Vec<_> = sum.labels.iter().collect();
		classes.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
		classes.truncate(8);
		eprintln!(
			"{} {}: {} cases, {} distinct non-trivial, {} inner checks, {:.1}s {:?}",
			p.id,
			part.name(),
			sum.evaluations,
			sum.seen.len(),
			sum.inner,
			t0.elapsed().as_secs_f64(),
			classes
		);
		per_part.push(json!({
			"part": part.name(),
			"evaluations": sum.evaluations,
			"distinct_nontrivial": sum.seen.len(),
			"inner_checks": sum.inner,
			"cut_short_by_time": sum.cut,
			"labels": sum.labels,
			"wall_s": t0.elapsed().as_secs_f64(),
		}));
		total.evaluations += sum.evaluations;
		total.inner += sum.inner;
		total.seen.extend(sum.seen);
		total.samples.extend(sum.samples);
		if !matches!(outcome, Outcome::Held) {
			break;
		}
	}
	let violations = if matches!(outcome, Outcome::Held) { 0 } else { 1 };
	let doc = json!({
		"property": p.id,
		"tier": if thorough { "thorough" } else { "quick" },
		"seed": seed,
		"level": p.level,
		"coverage": {
			"evaluations": total.evaluations,
			"distinct_nontrivial": total.seen.len(),
			"inner_checks": total.inner,
			"rule": p.rule,
			"samples": total.samples,
			"parts": per_part,
		},
		"assumptions": p.assumptions,
		"wall_s": start.elapsed().as_secs_f64(),
		"violations": violations,
	});
	if let Some(dir) = std::path::Path::new(evidence).parent() {
		let _ = std::fs::create_dir_all(dir);
	}
	std::fs::write(evidence, serde_json::to_string_pretty(&doc).unwrap()).expect("writing evidence");
	outcome
}

/// Report a stuck case to the parent process, without waiting for the stuck thread.
fn finish(o: &Outcome) {
	if let Outcome::Stuck { part, case } = o {
		println!("@STUCK {}", json!({"part": part, "case": case}));
		use std::io::Write;
		let _ = std::io::stdout().flush();
		std::process::exit(99);
	}
}

pub fn small<S>(s: S) -> BoxedStrategy<S::Value>
where
	S: Strategy + 'static,
{
	s.boxed()
}
