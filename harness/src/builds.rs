//! C29: how the library is built changes nothing about what it does.
//!
//! "choices": a program that uses only what a choice of features offers is built with every choice, with and without debug assertions
//! and optimization. Generated conversations are run by two of the builds, which must write down the same.
//!
//! "Cxx: ...": the generated cases of other properties, in a build without debug assertions and overflow checks. A case only counts
//! if it fails in that build (several times), and does not fail in the build that all other checks use.
use crate::ensure;
use crate::fw::{bx, Ctx, Info, Opts};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

fn target() -> PathBuf {
	std::env::var_os("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|| crate::fw::verif_dir().join("harness/target"))
}

/// Does the build with debug assertions fail in the same case? None: no answer.
pub fn fails_in_reference(id: &str, sub: &str, case: &Value) -> Option<bool> {
	use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
	static NEXT: AtomicU32 = AtomicU32::new(0);
	let file = std::env::temp_dir().join(format!("verif-case-{}-{}.json", std::process::id(), NEXT.fetch_add(1, Relaxed)));
	std::fs::write(&file, json!({"property": id, "sub": sub, "case": case}).to_string()).ok()?;
	let child = Command::new(target().join("debug/harness")).arg("replay").arg(&file).env("VERIF_REFERENCE", "1").stdout(Stdio::null()).stderr(Stdio::null()).spawn();
	let began = Instant::now();
	let result = match child {
		Err(_) => None,
		Ok(mut child) => loop {
			match child.try_wait() {
				Ok(Some(status)) => {
					break match status.code() {
						Some(0) => Some(false),
						Some(1) => Some(true),
						_ => None,
					}
				},
				Ok(None) if began.elapsed() < Duration::from_secs(120) => std::thread::sleep(Duration::from_millis(2)),
				_ => {
					let _ = child.kill();
					let _ = child.wait();
					break None;
				},
			}
		},
	};
	let _ = std::fs::remove_file(&file);
	result
}

const FEATURES: [&str; 4] = ["tcp", "unix-stream", "unix-seqpacket", "macros"];
const ALL: u8 = 15;

/// Conversations need this feature. (Without any there is the transport of the program itself.)
const NEEDS: [u8; 5] = [0, 1, 2, 4, 8];

fn names(features: u8) -> String {
	FEATURES.iter().enumerate().filter(|(k, _)| features >> k & 1 == 1).map(|x| *x.1).collect::<Vec<_>>().join(",")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Choice {
	/// Bits for tcp, unix-stream, unix-seqpacket, macros.
	features: u8,
	release: bool,
	/// Own transport, TCP, Unix stream, seqpacket, typed: the first available one at or before this.
	net: u8,
	limit: u16,
	ops: Vec<(u8, u8, u8, u16)>,
}

/// The program in one build, or why it does not compile.
type Built = Result<PathBuf, String>;

static BUILT: OnceLock<Mutex<HashMap<(u8, bool), Arc<OnceLock<Built>>>>> = OnceLock::new();

fn build(features: u8, release: bool) -> Built {
	let cell = BUILT.get_or_init(Default::default).lock().unwrap().entry((features, release)).or_default().clone();
	cell.get_or_init(|| {
		// Four target directories, so that four can be built at the same time.
		static LOCKS: [Mutex<()>; 4] = [const { Mutex::new(()) }; 4];
		let lane = usize::from(release) * 2 + usize::from(features >> 3 & 1);
		let _lock = LOCKS[lane].lock().unwrap_or_else(|e| e.into_inner());
		let dir = target().join(format!("probe-{lane}"));
		let manifest = crate::fw::verif_dir().join("probe/Cargo.toml");
		let mut last = String::new();
		for attempt in 0..2 {
			let mut cmd = Command::new("cargo");
			cmd.args(["build", "--offline", "--locked", "--quiet", "--manifest-path"]).arg(&manifest).arg("--features").arg(names(features));
			if release {
				cmd.arg("--release");
			}
			// As the users build it: without the hooks of the verification.
			cmd.env("CARGO_TARGET_DIR", &dir).env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS").current_dir(manifest.parent().unwrap());
			match cmd.output() {
				Ok(o) if o.status.success() => {
					let exe = dir.join(if release { "release/probe" } else { "debug/probe" });
					let copy = dir.join(format!("probe-{features}"));
					return match std::fs::copy(&exe, &copy) {
						Ok(_) => Ok(copy),
						Err(e) => panic!("harness: can not copy {}: {e}", exe.display()),
					};
				},
				Ok(o) => {
					let text = String::from_utf8_lossy(&o.stderr);
					let start = text.find("error").unwrap_or(0);
					last = text[start..].chars().take(800).collect();
				},
				Err(e) => last = e.to_string(),
			}
			if attempt == 0 {
				// Perhaps it was short of memory.
				std::thread::sleep(Duration::from_secs(1));
			}
		}
		Err(last)
	})
	.clone()
}

struct Session {
	child: Child,
	input: ChildStdin,
	lines: Receiver<String>,
}

impl Drop for Session {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}

fn reader(out: ChildStdout) -> Receiver<String> {
	let (tx, rx) = std::sync::mpsc::channel();
	std::thread::spawn(move || {
		for line in BufReader::new(out).lines() {
			let Ok(line) = line else { return };
			if tx.send(line).is_err() {
				return;
			}
		}
	});
	rx
}

thread_local!(static SESSIONS: std::cell::RefCell<HashMap<PathBuf, Session>> = Default::default());

/// What this build writes about the case.
fn ask(exe: &PathBuf, line: &str) -> Result<Vec<String>, String> {
	SESSIONS.with(|s| {
		let mut s = s.borrow_mut();
		if !s.contains_key(exe) {
			let mut child = Command::new(exe)
				.stdin(Stdio::piped())
				.stdout(Stdio::piped())
				.stderr(Stdio::null())
				.env("TMPDIR", scratch())
				.spawn()
				.unwrap_or_else(|e| panic!("harness: can not run {}: {e}", exe.display()));
			let input = child.stdin.take().unwrap();
			let lines = reader(child.stdout.take().unwrap());
			s.insert(exe.clone(), Session { child, input, lines });
		}
		let session = s.get_mut(exe).unwrap();
		let mut out = Vec::new();
		let sent = session.input.write_all(line.as_bytes()).and_then(|()| session.input.flush()).is_ok();
		let r = loop {
			if !sent {
				break Err("the program ended".to_string());
			}
			match session.lines.recv_timeout(Duration::from_secs(60)) {
				Ok(l) if l == "." => break Ok(out),
				Ok(l) => out.push(l),
				Err(RecvTimeoutError::Timeout) => break Err(format!("no answer after {out:?}")),
				Err(RecvTimeoutError::Disconnected) => break Err(format!("the program ended after {out:?}")),
			}
		};
		if r.is_err() {
			s.remove(exe);
		}
		r
	})
}

fn scratch() -> PathBuf {
	let dir = std::env::temp_dir().join(format!("verif-builds-{}", std::process::id()));
	let _ = std::fs::create_dir_all(&dir);
	dir
}

fn run(c: &Choice, info: &mut Info) -> Result<(), String> {
	let reference = match build(ALL, false) {
		Ok(x) => x,
		Err(e) => {
			ensure!(c.features != ALL || c.release, "with all features the library does not compile: {e}");
			return Ok(());
		},
	};
	let what = format!("features [{}], {}", names(c.features), if c.release { "release" } else { "dev" });
	let exe = build(c.features, c.release).map_err(|e| format!("{what}: a program that needs nothing else does not compile: {e}"))?;
	let net = (0..=c.net.min(4)).rev().find(|n| NEEDS[*n as usize] & !c.features == 0).unwrap_or(0);
	let mut line = format!("{net} {}", c.limit);
	for o in &c.ops {
		line += &format!(" {} {} {} {}", o.0, o.1, o.2, o.3);
	}
	line.push('\n');
	for attempt in 0..3 {
		let want = ask(&reference, &line);
		let got = ask(&exe, &line);
		if want == got {
			let Ok(text) = got else { return Ok(()) };
			let delivered = text.iter().filter(|l| l.starts_with("receive") || l.starts_with("response:")).count();
			info.nontrivial = delivered >= 2 && (c.features != ALL || c.release);
			info.label(["own transport", "TCP", "Unix stream", "seqpacket", "typed"][net as usize]);
			info.label_if(c.release, "release");
			info.label_if(text.iter().any(|l| l.contains("RemoteError") || l.contains("-1 }")), "error responses");
			info.label_if(text.iter().any(|l| l.contains("TooLarge")), "over a limit");
			info.label_if(text.iter().any(|l| l.starts_with("refused")), "refused");
			info.label_if(text.iter().any(|l| l.starts_with("close")), "closed");
			info.label_if(text.iter().any(|l| l.contains("TIMEOUT")), "something does not happen");
			info.count("lines compared", text.len() as u64);
			return Ok(());
		}
		// Only what is always different counts.
		if attempt == 2 {
			let (w, g) = (want.unwrap_or_else(|e| vec![e]), got.unwrap_or_else(|e| vec![e]));
			let k = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
			let at = |v: &[String]| v.get(k).cloned().unwrap_or_else(|| "nothing more".into());
			return Err(format!("{what}: line {k} is {:?}, with all features in dev it is {:?}", at(&g), at(&w)));
		}
	}
	Ok(())
}

fn choice() -> BoxedStrategy<Choice> {
	let op = (
		prop_oneof![4 => 0u8..2, 2 => Just(2u8), 3 => Just(3u8), 3 => Just(4u8), 3 => 5u8..7, 1 => Just(7u8), 1 => Just(8u8), 1 => Just(9u8), 1 => 10u8..12, 1 => Just(12u8), 1 => Just(13u8)],
		any::<u8>(),
		any::<u8>(),
		(prop_oneof![3 => 0u16..40, 1 => any::<u8>().prop_map(u16::from)], prop_oneof![4 => Just(0u16), 1 => 1u16..4]).prop_map(|(l, f)| l | f << 8),
	);
	bx((0u8..16, any::<bool>(), 0u8..5, prop_oneof![3 => 200u16..202, 1 => 0u16..64], prop::collection::vec(op, 0..24))
		.prop_map(|(features, release, net, limit, ops)| Choice { features, release, net, limit, ops }))
}

/// What is run in the build without debug assertions.
const BORROWED: [&str; 25] = [
	"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C24", "C25", "C26", "C27",
];

/// Build everything that will be needed.
fn prepare() {
	std::thread::scope(|s| {
		for release in [false, true] {
			for macros in [false, true] {
				s.spawn(move || {
					for features in 0..16 {
						if (features >> 3 & 1 == 1) == macros {
							let _ = build(features, release);
						}
					}
				});
			}
		}
	});
}

pub fn prebuild() {
	prepare();
}

pub fn c29(ctx: &Arc<Ctx>) {
	let dir = scratch();
	if ctx.replay.is_none() {
		prepare();
		let ok = (0..16).flat_map(|f| [(f, false), (f, true)]).filter(|&(f, r)| build(f, r).is_ok()).count();
		ctx.note(format!("choices: {ok} of 32 builds of the probe"));
	}
	ctx.check("choices", Opts { quick: 8_000, thorough: 120_000, shards: 8, rule: "at least two messages arrive, and the build is not the reference" }, choice, run);
	let _ = std::fs::remove_dir_all(&dir);
	if cfg!(debug_assertions) {
		ctx.note("no build without debug assertions: the cases of other properties were not run in it");
		return;
	}
	for id in BORROWED {
		let share = if ctx.thorough { 0.03 } else { 0.06 };
		if let Some((sub, _)) = &ctx.replay {
			if !sub.starts_with(id) {
				continue;
			}
		}
		ctx.borrow(Some((id, share)));
		crate::dispatch(id, ctx);
		ctx.borrow(None);
	}
}
