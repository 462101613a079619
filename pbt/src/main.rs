//! Property-based checks of sorpaas/bm. See /verif/DESIGN.md.

#[macro_use]
mod base;
mod coll;
mod gc;
mod hist;
mod local;
mod misc;
mod mix;
mod prove;
mod raw;
mod run;
mod far;
mod fault;
mod part;
mod plist;
mod ssz;
mod wire;
mod zoo;

use run::{Outcome, Property};
use serde_json::{json, Value as J};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn properties() -> Vec<Property> {
	let mut v = others();
	let parts = others().into_iter().flat_map(|p| p.parts.into_iter().map(move |part| (p.id, part)));
	v.push(Property {
		id: "C24",
		level: "exploration",
		rule: "The generators and oracles of all other properties, with fewer cases each, on the crates built without the standard library (maps are ordered by key there). A case that fails is run again on the crates built with it, and is reported only if it passes there. Non-trivial: as for the property the part is taken from.",
		assumptions: &["no hash collisions", "the harness itself and its other dependencies use the standard library"],
		parts: parts
			.map(|(id, part)| {
				let name = &*format!("{}: {}", id, part.name()).leak();
				Box::new(run::Scaled { name, part, quick: 8, thorough: 1 }) as Box<dyn run::Part>
			})
			.collect(),
		known: run::no_known,
	});
	v
}

fn others() -> Vec<Property> {
	let mut v = Vec::new();
	v.extend(hist::properties());
	v.extend(raw::properties());
	v.extend(gc::properties());
	v.extend(prove::properties());
	v.extend(ssz::properties());
	v.extend(part::properties());
	v.extend(misc::properties());
	v.extend(mix::properties());
	v.extend(wire::properties());
	v.extend(fault::properties());
	v.extend(local::properties());
	v
}

fn find(id: &str) -> Property {
	match properties().into_iter().find(|p| p.id == id) {
		Some(p) => p,
		None => {
			eprintln!("unknown property {}", id);
			std::process::exit(2)
		}
	}
}

fn root() -> String {
	std::env::var("PBT_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn seed() -> u64 {
	std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
}

fn thorough() -> bool {
	std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Write a replay file and print the verdict line.
fn violation(id: &str, part: &str, case: &J, message: &str) -> ! {
	let dir = format!("{}/replays", root());
	let _ = std::fs::create_dir_all(&dir);
	let name: String = part.chars().filter(|c| *c != ':').map(|c| if c == ' ' { '-' } else { c }).collect();
	let path = format!("{}/{}-{}.json", dir, id, name);
	let doc = json!({"property": id, "part": part, "case": case, "message": message});
	std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("writing the replay file");
	println!("{}: {}", part, message);
	println!("VIOLATION property={} replay={}", id, path);
	std::process::exit(1)
}

/// Only findings listed in the committed file are excused.
fn listed(id: &str, what: &str) -> bool {
	include_str!("../../known-findings.txt").lines().any(|l| {
		l.starts_with(&format!("known: property={} ", id)) && l.ends_with(what)
	})
}

fn child(id: &str) -> ! {
	run::silence_panics();
	let p = find(id);
	let evidence = format!("{}/evidence/{}.json", root(), id);
	let known = (p.known)();
	match run::run_property(&p, seed(), thorough(), &evidence) {
		Outcome::Held => {
			for k in known {
				if k.still_fails && !listed(id, &k.what) {
					violation(id, "known", &json!(null), &k.what)
				} else if k.still_fails {
					println!("KNOWN-FINDING: property={} {}", id, k.what);
				} else {
					println!("note: the known finding \"{}\" does not fail any more", k.what);
				}
			}
			println!("OK property={} ", id);
			std::process::exit(0)
		}
		Outcome::Violated { part, case, message } => violation(id, part, &case, &message),
		Outcome::Stuck { .. } => unreachable!(),
	}
}

/// The same program, over the crates built without the standard library.
fn nostd() -> std::path::PathBuf {
	std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("target/nostd/release/pbt")
}

/// Limit memory so that a runaway case is an abort of the child, not of the sandbox.
fn spawn(args: &[&str], env: &[(&str, &str)]) -> std::process::Child {
	spawn_exe(&std::env::current_exe().unwrap(), args, env)
}

fn spawn_exe(exe: &std::path::Path, args: &[&str], env: &[(&str, &str)]) -> std::process::Child {
	let mut c = Command::new("sh");
	c.arg("-c").arg("ulimit -v 20000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).args(args);
	for (k, v) in env {
		c.env(k, v);
	}
	c.stdin(Stdio::null()).stdout(Stdio::piped()).spawn().expect("starting a child")
}

fn wait(mut c: std::process::Child, limit: Duration) -> (Option<std::process::ExitStatus>, String) {
	let mut out = c.stdout.take().unwrap();
	let reader = std::thread::spawn(move || {
		let mut s = String::new();
		let _ = out.read_to_string(&mut s);
		s
	});
	let end = Instant::now() + limit;
	loop {
		if let Some(st) = c.try_wait().unwrap() {
			return (Some(st), reader.join().unwrap());
		}
		if Instant::now() > end {
			let _ = c.kill();
			let _ = c.wait();
			return (None, reader.join().unwrap_or_default());
		}
		std::thread::sleep(Duration::from_millis(10));
	}
}

/// Confirm a suspected hang or crash on its own, in a process of its own.
fn confirm(id: &str, doc: &J, scratch: &str) -> Option<String> {
	let path = format!("{}/confirm.json", scratch);
	let full = json!({"property": id, "part": doc["part"], "case": doc["case"]});
	std::fs::write(&path, full.to_string()).ok()?;
	let (st, _) = wait(spawn(&["replay-inner", &path], &[]), Duration::from_secs(120));
	match st {
		None => Some("the operation does not terminate".into()),
		Some(s) => match s.code() {
			Some(0) | Some(2) => None,
			Some(1) => Some("fails".into()),
			_ => Some(format!("the process was ended by the case: {}", s)),
		},
	}
}

fn check(id: &str) -> ! {
	find(id);
	let scratch = format!("{}/target/scratch-{}-{}", env!("CARGO_MANIFEST_DIR"), id, std::process::id());
	std::fs::create_dir_all(&scratch).expect("scratch directory");
	let done = |code: i32| -> ! {
		let _ = std::fs::remove_dir_all(&scratch);
		std::process::exit(code)
	};
	let limit = Duration::from_secs(if thorough() { 4000 } else { 800 });
	let (st, out) = wait(spawn(&["child", id], &[]), limit);
	let status = match st {
		Some(s) => s,
		None => {
			println!("error: the check ran out of time");
			done(2)
		}
	};
	match status.code() {
		Some(0) | Some(1) => {
			print!("{}", out);
			done(status.code().unwrap())
		}
		Some(99) => {
			let line = out.lines().find(|l| l.starts_with("@STUCK ")).unwrap_or("@STUCK null");
			let doc: J = serde_json::from_str(&line[7..]).unwrap_or(J::Null);
			if let Some(msg) = confirm(id, &doc, &scratch) {
				let _ = std::fs::remove_dir_all(&scratch);
				violation(id, doc["part"].as_str().unwrap_or("?"), &doc["case"], &msg)
			}
			println!("error: a case took very long, but not when run alone");
			done(2)
		}
		Some(2) => {
			print!("{}", out);
			done(2)
		}
		_ => {
			// Died on a signal: find the case with a traced run of the same cases.
			let (st2, _) = wait(spawn(&["child", id], &[("PBT_TRACE_DIR", &scratch)]), limit);
			if !matches!(st2.as_ref().and_then(|s| s.code()), Some(0)) {
				for w in 0..64 {
					if let Ok(text) = std::fs::read_to_string(format!("{}/{}.json", scratch, w)) {
						if let Ok(doc) = serde_json::from_str::<J>(&text) {
							if let Some(msg) = confirm(id, &doc, &scratch) {
								let _ = std::fs::remove_dir_all(&scratch);
								violation(id, doc["part"].as_str().unwrap_or("?"), &doc["case"], &msg)
							}
						}
					}
				}
			}
			println!("error: the check was ended by {}", status);
			done(2)
		}
	}
}

fn replay(path: &str) -> ! {
	run::silence_panics();
	let text = match std::fs::read_to_string(path) {
		Ok(t) => t,
		Err(e) => {
			eprintln!("{}: {}", path, e);
			std::process::exit(2)
		}
	};
	let doc: J = serde_json::from_str(&text).expect("a replay file is JSON");
	let id = doc["property"].as_str().unwrap_or("").to_string();
	let p = find(&id);
	let part = doc["part"].as_str().unwrap_or("").to_string();
	let part = p.parts.iter().find(|q| q.name() == part).expect("the part named in the replay file");
	let part: &dyn run::Part = &**part;
	let r = std::thread::scope(|s| {
		std::thread::Builder::new()
			.stack_size(256 << 20)
			.spawn_scoped(s, || part.replay(&doc["case"]))
			.unwrap()
			.join()
			.unwrap()
	});
	match r {
		Ok(()) => {
			println!("OK: the case passes");
			std::process::exit(0)
		}
		Err(m) => {
			println!("{}", m);
			println!("VIOLATION property={} replay={}", id, path);
			std::process::exit(1)
		}
	}
}

/// C24 is checked by the other build; what fails there must pass here to count.
fn check_nostd() -> ! {
	let exe = nostd();
	let (st, out) = wait(spawn_exe(&exe, &["check", "C24"], &[]), Duration::from_secs(if thorough() { 4200 } else { 850 }));
	let code = st.and_then(|s| s.code()).unwrap_or(2);
	let replay = out.lines().filter_map(|l| l.split_once(" replay=")).next().map(|(_, p)| p.to_string());
	if let (1, Some(path)) = (code, replay) {
		let (st, here) = wait(spawn(&["replay-inner", &path], &[]), Duration::from_secs(120));
		if st.and_then(|s| s.code()) != Some(0) {
			print!("note: this fails with the standard library, too, so it is no difference: {}", here.lines().next().unwrap_or("").to_string() + "\n");
			let _ = std::fs::remove_file(&path);
			std::process::exit(0)
		}
	}
	print!("{}", out);
	std::process::exit(code)
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	match (args.get(1).map(|s| s.as_str()), args.get(2)) {
		(Some("check"), Some(id)) if id == "C24" && cfg!(feature = "std") => check_nostd(),
		(Some("check"), Some(id)) => check(id),
		(Some("child"), Some(id)) => child(id),
		(Some("replay"), Some(path)) if cfg!(feature = "std") && std::fs::read_to_string(path).map(|t| t.contains("\"property\": \"C24\"")).unwrap_or(false) => {
			let st = Command::new(nostd()).args(["replay", path]).status().expect("starting the other build");
			std::process::exit(st.code().unwrap_or(2))
		}
		(Some("replay"), Some(path)) | (Some("replay-inner"), Some(path)) => replay(path),
		(Some("nesting"), _) => std::process::exit(!wire::nesting() as i32),
		(Some("list"), _) => {
			for p in properties() {
				println!("{}", p.id);
			}
		}
		_ => {
			eprintln!("usage: pbt check <ID> | replay <file> | list");
			std::process::exit(2)
		}
	}
}
