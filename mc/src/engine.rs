//! Exploration engine: deterministic parallel job execution, coverage
//! accounting, violation collection, watchdog.
//!
//! A *space* is a finite, indexed set of jobs. A job enumerates its own part
//! of the space (typically: all continuations of one operation prefix) and
//! checks the property on every element. Every job of every space is run
//! unless the time cap is hit, in which case the run is reported as
//! non-exhaustive.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

/// Per-thread counters.
#[derive(Default)]
pub struct Local {
	/// Execution states of the real code on which the property was evaluated.
	pub states: u64,
	/// Operations of the real API applied to move between states.
	pub transitions: u64,
	/// Complete histories re-executed from scratch on the implementation.
	pub traces: u64,
	/// Individual comparisons with the reference model.
	pub checks: u64,
	/// Fingerprints of distinct model outcomes (bounded).
	pub distinct: HashSet<u64>,
	pub samples: Vec<String>,
	thread: usize,
	trace: bool,
	case: String,
	beat: u64,
}

const DISTINCT_CAP: usize = 1 << 20;

impl Local {
	pub fn outcome(&mut self, fp: u64) {
		if self.distinct.len() < DISTINCT_CAP {
			self.distinct.insert(fp);
		}
	}

	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.samples.len() < 3 {
			self.samples.push(f());
		}
	}

	/// Announces the case about to be executed: heartbeat for the watchdog,
	/// and, in trace mode, a description for post-mortem reports.
	#[inline]
	pub fn case(&mut self, f: impl FnOnce() -> String) {
		self.beat = self.beat.wrapping_add(1);
		BEATS[self.thread].store(self.beat, Ordering::Relaxed);
		if self.trace {
			self.case = f();
			let path = TRACE_FILE.lock().unwrap().clone();
			let _ = std::fs::write(path, &self.case);
		}
	}
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub space: String,
	pub job: usize,
	/// The specific input / history that fails.
	pub case: String,
	pub msg: String,
}

pub type Check = Result<(), Fail>;

/// A failing case inside a job.
#[derive(Clone, Debug)]
pub struct Fail {
	pub case: String,
	pub msg: String,
}

impl Fail {
	pub fn new(case: impl Into<String>, msg: impl Into<String>) -> Self {
		Self {
			case: case.into(),
			msg: msg.into(),
		}
	}
}

static BEATS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static ACTIVE: [AtomicUsize; 64] = [const { AtomicUsize::new(usize::MAX) }; 64];
static TRACE_FILE: Mutex<String> = Mutex::new(String::new());
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Total of one run.
#[derive(Default)]
pub struct Totals {
	pub states: u64,
	pub transitions: u64,
	pub traces: u64,
	pub checks: u64,
	pub distinct: HashSet<u64>,
	pub samples: Vec<String>,
	pub spaces: Vec<(String, u64, u64, f64)>, // name, jobs, jobs completed, seconds
	pub capped: bool,
}

pub struct Ctx {
	pub tier: Tier,
	pub totals: Totals,
	pub violation: Option<Violation>,
	pub known: Vec<(String, String)>,
	pub known_hit: std::collections::BTreeMap<String, String>,
	deadline: Instant,
	/// Only run this (space, job): replay mode.
	only: Option<(String, usize)>,
	active_file: Option<std::fs::File>,
	trace: bool,
}

impl Ctx {
	pub fn new(
		tier: Tier,
		cap: Duration,
		only: Option<(String, usize)>,
		active_file: Option<String>,
		trace_file: Option<String>,
		known: Vec<(String, String)>,
	) -> Self {
		let trace = trace_file.is_some();
		if let Some(t) = trace_file {
			*TRACE_FILE.lock().unwrap() = t;
		}
		Self {
			tier,
			totals: Totals::default(),
			violation: None,
			known,
			known_hit: Default::default(),
			deadline: Instant::now() + cap,
			only,
			active_file: active_file.map(|p| std::fs::File::create(p).unwrap()),
			trace,
		}
	}

	pub fn quick(&self) -> bool {
		self.tier == Tier::Quick
	}

	/// `q` in the quick tier, `t` in the thorough tier.
	pub fn pick<T>(&self, q: T, t: T) -> T {
		if self.quick() {
			q
		} else {
			t
		}
	}

	/// Runs jobs `0..n` of space `name`.
	pub fn space<F>(&mut self, name: &str, n: usize, f: F)
	where
		F: Fn(usize, &mut Local) -> Check + Sync,
	{
		if self.violation.is_some() {
			return;
		}
		let begun = Instant::now();
		let only = match &self.only {
			Some((s, j)) => {
				if s != name {
					return;
				}
				Some(*j)
			}
			None => None,
		};
		*CURRENT.lock().unwrap() = name.to_string();
		let next = AtomicUsize::new(only.unwrap_or(0));
		let end = only.map(|j| j + 1).unwrap_or(n).min(n);
		let min_bad = AtomicUsize::new(usize::MAX);
		let done = AtomicUsize::new(0);
		let capped = AtomicBool::new(false);
		let found: Mutex<Option<Violation>> = Mutex::new(None);
		let merged: Mutex<Vec<Local>> = Mutex::new(Vec::new());
		let known_hit = Mutex::new(std::mem::take(&mut self.known_hit));
		let threads = if only.is_some() { 1 } else { THREADS };
		let deadline = self.deadline;
		let this = &*self;
		std::thread::scope(|sc| {
			for t in 0..threads {
				let (next, min_bad, done, capped, found, merged, f, known_hit) =
					(&next, &min_bad, &done, &capped, &found, &merged, &f, &known_hit);
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(sc, move || {
						let mut l = Local {
							thread: t,
							trace: this.trace,
							..Default::default()
						};
						loop {
							let j = next.fetch_add(1, Ordering::SeqCst);
							if j >= end || j > min_bad.load(Ordering::SeqCst) {
								break;
							}
							if Instant::now() > deadline {
								capped.store(true, Ordering::SeqCst);
								break;
							}
							this.announce(t, name, j);
							ACTIVE[t].store(j, Ordering::SeqCst);
							let r = catch_unwind(AssertUnwindSafe(|| f(j, &mut l)));
							ACTIVE[t].store(usize::MAX, Ordering::SeqCst);
							let r = match r {
								Ok(r) => r,
								Err(e) => Err(Fail::new(
									format!("job {j} of {name}"),
									format!("panic: {}", panic_msg(&e)),
								)),
							};
							done.fetch_add(1, Ordering::SeqCst);
							if let Err(fail) = r {
								let text = format!("{} :: {}", fail.case, fail.msg);
								if let Some((k, what)) =
									this.known.iter().find(|(k, _)| text.contains(k.as_str()))
								{
									known_hit.lock().unwrap().insert(k.clone(), what.clone());
									continue;
								}
								min_bad.fetch_min(j, Ordering::SeqCst);
								let mut g = found.lock().unwrap();
								if g.as_ref().map(|v| v.job > j).unwrap_or(true) {
									*g = Some(Violation {
										space: name.to_string(),
										job: j,
										case: fail.case,
										msg: fail.msg,
									});
								}
							}
						}
						merged.lock().unwrap().push(l);
					})
					.unwrap();
			}
		});
		self.known_hit = known_hit.into_inner().unwrap();
		let mut ls = merged.into_inner().unwrap();
		ls.sort_by_key(|l| l.thread);
		let tot = &mut self.totals;
		let mut any_sample = false;
		for l in ls {
			tot.states += l.states;
			tot.transitions += l.transitions;
			tot.traces += l.traces;
			tot.checks += l.checks;
			for d in l.distinct {
				if tot.distinct.len() < DISTINCT_CAP {
					tot.distinct.insert(d);
				}
			}
			for s in l.samples {
				if !any_sample && tot.samples.len() < 24 {
					tot.samples.push(format!("[{name}] {s}"));
				}
				any_sample = true;
			}
		}
		tot.spaces
			.push((name.to_string(), n as u64, done.into_inner() as u64, begun.elapsed().as_secs_f64()));
		tot.capped |= capped.into_inner();
		self.violation = found.into_inner().unwrap();
	}

	fn announce(&self, t: usize, name: &str, j: usize) {
		if let Some(f) = &self.active_file {
			use std::os::unix::fs::FileExt;
			let mut rec = format!("{j} {name}").into_bytes();
			rec.resize(128, b' ');
			let _ = f.write_at(&rec, (t * 128) as u64);
		}
	}
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
	if let Some(s) = e.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = e.downcast_ref::<String>() {
		s.clone()
	} else {
		"non-string panic".to_string()
	}
}

/// Runs `f`, turning a panic of the code under test into a message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("panic: {}", panic_msg(&e)))
}

/// Runs a checking closure, turning panics into failures of the same case.
pub fn guard_check(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => r,
		Err(e) => Err(format!("panic: {}", panic_msg(&e))),
	}
}

/// Starts the watchdog: calls `on_hang(space, job)` when some thread has an
/// active job and has not announced a new case for `limit`.
pub fn watchdog(limit: Duration, on_hang: impl Fn(String, usize) + Send + 'static) {
	std::thread::spawn(move || {
		let mut last: Vec<(usize, u64, Instant)> = (0..THREADS)
			.map(|_| (usize::MAX, 0, Instant::now()))
			.collect();
		loop {
			std::thread::sleep(Duration::from_millis(500));
			for (t, slot) in last.iter_mut().enumerate() {
				let j = ACTIVE[t].load(Ordering::SeqCst);
				let b = BEATS[t].load(Ordering::Relaxed);
				if (j, b) != (slot.0, slot.1) || j == usize::MAX {
					*slot = (j, b, Instant::now());
				} else if slot.2.elapsed() > limit {
					let name = CURRENT.lock().unwrap().clone();
					on_hang(name, j);
				}
			}
		}
	});
}

pub fn fp<T: std::hash::Hash>(t: &T) -> u64 {
	use std::hash::Hasher;
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// Early return from a `Result<(), String>` check when a condition fails.
#[macro_export]
macro_rules! ensure {
	($cond:expr, $($arg:tt)*) => {
		if !($cond) {
			return Err(format!($($arg)*));
		}
	};
}

/// Compares two values, reporting both when they differ.
#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($arg:tt)*) => {{
		match (&$a, &$b) {
			(a, b) => {
				if a != b {
					return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
				}
			}
		}
	}};
}
