//! Framework: seeded generation, sharding, shrinking, replay files, evidence, watchdog.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn verif_dir() -> std::path::PathBuf {
	std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// Information a case reports about itself.
#[derive(Default)]
pub struct Info {
	pub nontrivial: bool,
	pub labels: Vec<&'static str>,
	/// Counters that are summed over all cases.
	pub counts: Vec<(&'static str, u64)>,
}

impl Info {
	pub fn label(&mut self, l: &'static str) {
		if !self.labels.contains(&l) {
			self.labels.push(l);
		}
	}
	pub fn label_if(&mut self, c: bool, l: &'static str) {
		if c {
			self.label(l)
		}
	}
	pub fn count(&mut self, l: &'static str, n: u64) {
		self.counts.push((l, n));
	}
}

pub type CaseResult = Result<(), String>;

#[derive(Default)]
struct SubStats {
	evaluations: u64,
	nontrivial: HashSet<u64>,
	labels: BTreeMap<&'static str, u64>,
	counts: BTreeMap<&'static str, u64>,
	samples: Vec<Value>,
	known: u64,
	rule: String,
	exhaustive: Option<String>,
	stopped_early: bool,
}

pub struct Violation {
	pub sub: String,
	pub case: Value,
	pub message: String,
}

pub struct Ctx {
	pub id: String,
	pub thorough: bool,
	pub seed: u64,
	pub replay: Option<(String, Value)>,
	start: Instant,
	budget: Duration,
	subs: Mutex<BTreeMap<String, SubStats>>,
	pub violations: Mutex<Vec<Violation>>,
	pub notes: Mutex<Vec<String>>,
	pub assumptions: Mutex<Vec<String>>,
	pub known_lines: Mutex<Vec<String>>,
	pub replay_ran: Mutex<bool>,
	/// Whose cases are being run here (C29 runs the cases of the others in another build).
	borrowed: Mutex<Option<(&'static str, f64)>>,
}

struct Slot {
	busy_since_cpu: Option<f64>,
	clock: libc::clockid_t,
	desc: Option<(String, Value)>,
}

static SLOTS: Mutex<Vec<Arc<Mutex<Slot>>>> = Mutex::new(Vec::new());

fn cpu(clock: libc::clockid_t) -> f64 {
	unsafe {
		let mut ts: libc::timespec = std::mem::zeroed();
		if libc::clock_gettime(clock, &mut ts) != 0 {
			return 0.0;
		}
		ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
	}
}

fn my_slot() -> Arc<Mutex<Slot>> {
	thread_local!(static SLOT: Arc<Mutex<Slot>> = {
		let mut clock: libc::clockid_t = 0;
		unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
		let s = Arc::new(Mutex::new(Slot { busy_since_cpu: None, clock, desc: None }));
		SLOTS.lock().unwrap().push(s.clone());
		s
	});
	SLOT.with(|s| s.clone())
}

/// CPU seconds a single case may burn before it counts as an endless loop.
const SPIN_LIMIT: f64 = 20.0;

/// Watch for cases that never stop computing: that is a violation of every property whose operations must complete.
fn start_watchdog(ctx: &Arc<Ctx>) {
	let ctx = ctx.clone();
	std::thread::spawn(move || loop {
		std::thread::sleep(Duration::from_millis(500));
		let slots = SLOTS.lock().unwrap().clone();
		for s in slots {
			let s = s.lock().unwrap();
			if let (Some(since), Some((sub, case))) = (s.busy_since_cpu, &s.desc) {
				if cpu(s.clock) - since > SPIN_LIMIT {
					let short = sub.split_once(": ").map_or(&sub[..], |x| x.1);
					if !ctx.only_in_this_build(short, case, &|| true) {
						ctx.note(format!("{sub}: stopped at a case that never finishes in the reference build either"));
						let code = ctx.finish();
						unsafe { libc::_exit(code) };
					}
					let path = write_replay(&ctx.id, sub, case, "the case never finishes: endless loop in the code under test");
					ctx.write_evidence(1);
					println!("case in {} never finishes (endless loop)", sub);
					println!("VIOLATION property={} replay={}", ctx.id, path.display());
					use std::io::Write;
					let _ = std::io::stdout().flush();
					unsafe { libc::_exit(1) };
				}
			}
		}
	});
}

fn write_replay(id: &str, sub: &str, case: &Value, message: &str) -> std::path::PathBuf {
	let dir = verif_dir().join("replays");
	let _ = std::fs::create_dir_all(&dir);
	let mut h = std::collections::hash_map::DefaultHasher::new();
	(sub, case.to_string()).hash(&mut h);
	let path = dir.join(format!("{}-{}-{:016x}.json", id, sub.replace(['/', ' ', ','], "_"), h.finish()));
	let doc = json!({"property": id, "sub": sub, "case": case, "message": message});
	if std::env::var_os("VERIF_REFERENCE").is_none() {
		std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
	}
	path
}

fn hash_str(s: &str) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	s.hash(&mut h);
	h.finish()
}

fn truncated(v: &Value) -> Value {
	let s = v.to_string();
	if s.len() > 1500 {
		let mut end = 1500;
		while !s.is_char_boundary(end) {
			end -= 1;
		}
		Value::String(format!("{}... ({} bytes)", &s[..end], s.len()))
	} else {
		v.clone()
	}
}

thread_local!(pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = format!("{}", info);
		LAST_PANIC.with(|p| *p.borrow_mut() = msg);
	}));
}

/// Run a closure and turn panics into errors.
pub fn catch<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
	match std::panic::catch_unwind(AssertUnwindSafe(f)) {
		Ok(x) => x,
		Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
	}
}

pub struct Opts {
	pub quick: u32,
	pub thorough: u32,
	pub shards: u32,
	/// What makes a case non-trivial.
	pub rule: &'static str,
}

impl Ctx {
	pub fn new(id: &str, thorough: bool, seed: u64, replay: Option<(String, Value)>) -> Arc<Self> {
		let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 600 } else { 240 });
		let ctx = Arc::new(Self {
			id: id.into(),
			thorough,
			seed,
			replay,
			start: Instant::now(),
			budget: Duration::from_secs(budget),
			subs: Default::default(),
			violations: Default::default(),
			notes: Default::default(),
			assumptions: Default::default(),
			known_lines: Default::default(),
			replay_ran: Default::default(),
			borrowed: Default::default(),
		});
		start_watchdog(&ctx);
		ctx
	}

	pub fn assume(&self, s: &str) {
		self.assumptions.lock().unwrap().push(s.into());
	}

	pub fn note(&self, s: impl Into<String>) {
		self.notes.lock().unwrap().push(s.into());
	}

	/// Run the cases of another property, this part of them, as a comparison of builds.
	pub fn borrow(&self, from: Option<(&'static str, f64)>) {
		*self.borrowed.lock().unwrap() = from;
	}

	/// The property whose cases are being run.
	pub fn origin(&self) -> String {
		self.borrowed.lock().unwrap().map_or_else(|| self.id.clone(), |x| x.0.to_string())
	}

	pub fn full_name(&self, sub: &str) -> String {
		match *self.borrowed.lock().unwrap() {
			Some((id, _)) => format!("{id}: {sub}"),
			None => sub.to_string(),
		}
	}

	/// Does a failing case of another property fail in this build only? (Of several runs, all must agree.)
	pub fn only_in_this_build(&self, sub: &str, case: &Value, again: &dyn Fn() -> bool) -> bool {
		let Some((id, _)) = *self.borrowed.lock().unwrap() else { return true };
		for _ in 0..2 {
			if !again() || crate::builds::fails_in_reference(id, sub, case) != Some(false) {
				return false;
			}
		}
		true
	}

	pub fn cases(&self, o: &Opts) -> u32 {
		let n = if self.thorough { o.thorough } else { o.quick };
		let share = self.borrowed.lock().unwrap().map_or(1.0, |x| x.1);
		let n = if share < 1.0 { ((n as f64 * share) as u32).max(40.min(n)) } else { n };
		match std::env::var("VERIF_CASES_FACTOR").ok().and_then(|x| x.parse::<f64>().ok()) {
			Some(f) => ((n as f64) * f) as u32,
			None => n,
		}
	}

	fn out_of_time(&self) -> bool {
		self.start.elapsed() > self.budget
	}

	fn record<C: Serialize>(&self, sub: &str, case: &C, info: Info) {
		let mut subs = self.subs.lock().unwrap();
		let st = subs.entry(sub.into()).or_default();
		st.evaluations += 1;
		for l in &info.labels {
			*st.labels.entry(l).or_default() += 1;
		}
		for (l, n) in &info.counts {
			*st.counts.entry(l).or_default() += n;
		}
		if info.nontrivial {
			let v = serde_json::to_value(case).unwrap();
			let fresh = st.nontrivial.insert(hash_str(&v.to_string()));
			if fresh && (st.samples.len() < 2) {
				st.samples.push(truncated(&v));
			}
		}
	}

	/// Count a directly executed case (not generated by proptest).
	pub fn record_direct<C: Serialize>(&self, sub: &str, rule: &str, case: &C, info: Info) {
		{
			let mut subs = self.subs.lock().unwrap();
			subs.entry(sub.into()).or_default().rule = rule.into();
		}
		self.record(sub, case, info)
	}

	/// Count a block of an exhaustive or bulk enumeration. Every element of the block must be distinct.
	pub fn record_bulk(&self, sub: &str, rule: &str, evaluations: u64, distinct: impl Iterator<Item = u64>, sample: Value, exhaustive: Option<&str>) {
		let mut subs = self.subs.lock().unwrap();
		let st = subs.entry(sub.into()).or_default();
		st.rule = rule.into();
		st.evaluations += evaluations;
		st.nontrivial.extend(distinct);
		if st.samples.len() < 2 {
			st.samples.push(sample);
		}
		if let Some(e) = exhaustive {
			st.exhaustive = Some(e.into());
		}
	}

	pub fn violation(&self, sub: &str, case: Value, message: String) {
		self.violations.lock().unwrap().push(Violation { sub: sub.into(), case, message });
	}

	pub fn stop(&self) -> bool {
		!self.violations.lock().unwrap().is_empty()
	}

	/// Run one fixed case, or the replay of it.
	pub fn fixed<C>(self: &Arc<Self>, sub: &str, rule: &'static str, cases: Vec<C>, f: impl Fn(&C, &mut Info) -> CaseResult)
	where
		C: Clone + std::fmt::Debug + Serialize + DeserializeOwned,
	{
		if self.borrowed.lock().unwrap().is_some() {
			return;
		}
		if let Some((rsub, value)) = &self.replay {
			if rsub == sub {
				*self.replay_ran.lock().unwrap() = true;
				let case: C = serde_json::from_value(value.clone()).expect("replay case");
				if let Err(e) = catch(|| f(&case, &mut Info::default())) {
					self.violation(sub, value.clone(), e);
				}
			}
			return;
		}
		for case in cases {
			let mut info = Info::default();
			let r = self.watched(sub, &case, || catch(|| f(&case, &mut info)));
			if let Err(e) = r {
				self.violation(sub, serde_json::to_value(&case).unwrap(), e);
				return;
			}
			self.record_direct(sub, rule, &case, info);
		}
	}

	fn watched<C: Serialize, T>(&self, sub: &str, case: &C, f: impl FnOnce() -> T) -> T {
		let slot = my_slot();
		{
			let mut s = slot.lock().unwrap();
			s.desc = Some((sub.to_string(), serde_json::to_value(case).unwrap()));
			s.busy_since_cpu = Some(cpu(s.clock));
		}
		let r = f();
		slot.lock().unwrap().busy_since_cpu = None;
		r
	}

	/// Generate cases and check each; shrink and record the first failure.
	pub fn check<C, F>(self: &Arc<Self>, sub: &str, o: Opts, strat: impl Fn() -> BoxedStrategy<C> + Send + Sync + 'static, f: F)
	where
		C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
		F: Fn(&C, &mut Info) -> CaseResult + Send + Sync + 'static,
	{
		let short = sub.to_string();
		let sub = self.full_name(sub);
		let sub = sub.as_str();
		if let Some((rsub, value)) = &self.replay {
			if rsub == sub {
				*self.replay_ran.lock().unwrap() = true;
				let case: C = serde_json::from_value(value.clone()).expect("replay case");
				let r = self.watched(sub, &case, || catch(|| f(&case, &mut Info::default())));
				if let Err(e) = r {
					if self.only_in_this_build(&short, value, &|| true) {
						self.violation(sub, value.clone(), e);
					}
				}
			}
			return;
		}
		if self.stop() {
			return;
		}
		{
			let mut subs = self.subs.lock().unwrap();
			subs.entry(sub.into()).or_default().rule = o.rule.into();
		}
		let total = self.cases(&o);
		let shards = o.shards.max(1);
		let strat = Arc::new(strat);
		let f = Arc::new(f);
		let found: Arc<Mutex<Vec<(u32, Value, String)>>> = Default::default();
		let mut threads = Vec::new();
		for shard in 0..shards {
			let n = total / shards + u32::from(shard < total % shards);
			let ctx = self.clone();
			let strat = strat.clone();
			let f = f.clone();
			let sub = sub.to_string();
			let short = short.clone();
			let found = found.clone();
			let body = move || {
				let mut seed = [0u8; 32];
				seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
				seed[8..16].copy_from_slice(&hash_str(&sub).to_le_bytes());
				seed[16..20].copy_from_slice(&shard.to_le_bytes());
				let config = Config { failure_persistence: None, ..Config::default() };
				let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
				let strat = strat();
				for _ in 0..n {
					if ctx.out_of_time() {
						ctx.subs.lock().unwrap().get_mut(&sub).unwrap().stopped_early = true;
						return;
					}
					if !found.lock().unwrap().is_empty() {
						return;
					}
					let mut tree = match strat.new_tree(&mut runner) {
						Ok(t) => t,
						Err(_) => continue,
					};
					let case = tree.current();
					let mut info = Info::default();
					let r = ctx.watched(&sub, &case, || catch(|| f(&case, &mut info)));
					match r {
						Ok(()) => ctx.record(&sub, &case, info),
						Err(e) => {
							let fails = |c: &C| catch(|| f(c, &mut Info::default())).is_err();
							let value = serde_json::to_value(&case).unwrap();
							if !ctx.only_in_this_build(&short, &value, &|| fails(&case)) {
								// Whatever is wrong here is not a matter of the build.
								ctx.note(format!("{sub}: stopped at a case that fails in the reference build too, or not always"));
								return;
							}
							let first = (case.clone(), e.clone());
							// Shrink: keep the last failing case.
							let (mut best, mut msg) = (case, e);
							let began = Instant::now();
							let mut iters = 0;
							while iters < 4000 && began.elapsed() < Duration::from_secs(30) {
								iters += 1;
								if iters == 1 || true {
									if !tree.simplify() {
										break;
									}
								}
								loop {
									let c = tree.current();
									let r = ctx.watched(&sub, &c, || catch(|| f(&c, &mut Info::default())));
									match r {
										Err(e) => {
											best = c;
											msg = e;
											break;
										},
										Ok(()) => {
											iters += 1;
											if iters > 4000 || began.elapsed() > Duration::from_secs(30) || !tree.complicate() {
												break;
											}
										},
									}
								}
							}
							if !ctx.only_in_this_build(&short, &serde_json::to_value(&best).unwrap(), &|| true) {
								(best, msg) = first;
							}
							found.lock().unwrap().push((shard, serde_json::to_value(&best).unwrap(), msg));
							return;
						},
					}
				}
			};
			if shards == 1 {
				body();
			} else {
				threads.push(std::thread::Builder::new().stack_size(16 << 20).spawn(body).unwrap());
			}
		}
		for t in threads {
			if t.join().is_err() {
				eprintln!("harness: shard thread panicked in {}: internal error", sub);
				std::process::exit(4);
			}
		}
		let mut found = std::mem::take(&mut *found.lock().unwrap());
		found.sort_by_key(|x| x.1.to_string().len());
		if let Some((_, case, msg)) = found.into_iter().next() {
			self.violation(sub, case, msg);
		}
	}

	pub fn write_evidence(&self, violations: usize) {
		let subs = self.subs.lock().unwrap();
		let evaluations: u64 = subs.values().map(|s| s.evaluations).sum();
		let distinct: u64 = subs.values().map(|s| s.nontrivial.len() as u64).sum();
		let mut samples = Vec::new();
		let mut per_sub = serde_json::Map::new();
		let mut rules = Vec::new();
		let mut any_exhaustive = Vec::new();
		for (name, s) in subs.iter() {
			for x in &s.samples {
				samples.push(json!({"sub": name, "case": x}));
			}
			rules.push(format!("{}: {}", name, s.rule));
			per_sub.insert(
				name.clone(),
				json!({
					"generated": s.evaluations,
					"nontrivial": s.nontrivial.len(),
					"classes": s.labels,
					"totals": s.counts,
					"known_finding_hits": s.known,
					"stopped_early_by_time_budget": s.stopped_early,
				}),
			);
			if let Some(e) = &s.exhaustive {
				any_exhaustive.push(format!("{}: {}", name, e));
			}
		}
		let doc = json!({
			"property": self.id,
			"tier": if self.thorough { "thorough" } else { "quick" },
			"seed": self.seed,
			"level": "exploration",
			"coverage": {
				"evaluations": evaluations,
				"distinct_nontrivial": distinct,
				"rule": format!("Cases are generated from VERIF_SEED per sub-check; non-trivial means: {}", rules.join(" | ")),
				"samples": samples,
				"sub_checks": per_sub,
				"enumerated_completely": any_exhaustive,
				"notes": *self.notes.lock().unwrap(),
			},
			"assumptions": *self.assumptions.lock().unwrap(),
			"wall_s": self.start.elapsed().as_secs_f64(),
			"violations": violations,
		});
		let dir = verif_dir().join("evidence");
		let _ = std::fs::create_dir_all(&dir);
		if self.replay.is_none() {
			std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("write evidence");
		}
	}

	/// A listed finding was observed. False if it is not listed.
	pub fn known(&self, key: &str, what: &str) -> bool {
		let list = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
		let head = format!("known: property={} key={} ", self.origin(), key);
		if !list.lines().any(|l| l.starts_with(&head)) {
			return false;
		}
		if self.origin() != self.id {
			return true;
		}
		let line = format!("KNOWN-FINDING: property={} {}", self.id, what);
		let mut lines = self.known_lines.lock().unwrap();
		if !lines.contains(&line) {
			lines.push(line);
		}
		true
	}

	/// Report the outcome and give the exit code.
	pub fn finish(&self) -> i32 {
		let vs = self.violations.lock().unwrap();
		self.write_evidence(vs.len());
		for l in self.known_lines.lock().unwrap().iter() {
			println!("{}", l);
		}
		if let Some((sub, _)) = &self.replay {
			if !*self.replay_ran.lock().unwrap() {
				println!("no sub-check named {} in {}", sub, self.id);
				return 2;
			}
		}
		if vs.is_empty() {
			let subs = self.subs.lock().unwrap();
			let n: u64 = subs.values().map(|s| s.evaluations).sum();
			let d: u64 = subs.values().map(|s| s.nontrivial.len() as u64).sum();
			println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", self.id, n, d, self.start.elapsed().as_secs_f64());
			return 0;
		}
		for v in vs.iter() {
			println!("{}: {}", v.sub, v.message);
			println!("case: {}", truncated(&v.case));
			let path = write_replay(&self.id, &v.sub, &v.case, &v.message);
			println!("VIOLATION property={} replay={}", self.id, path.display());
		}
		1
	}
}

/// Shorthand to box a strategy.
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
	s.boxed()
}

#[macro_export]
macro_rules! ensure {
	($cond:expr, $($fmt:tt)+) => {
		if !($cond) {
			return Err(format!($($fmt)+));
		}
	};
}
