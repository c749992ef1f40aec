//! `mc run <property> <quick|thorough>`: explore, write evidence, verdict.
//! `mc replay <file>`: re-execute the job recorded in a replay file.
mod engine;
mod model;
mod pats;
mod sut;

mod blank;
mod containers;
mod containers2;
mod iso;
mod print;
mod patterns;
mod terms;
mod interp;
mod serial;
mod stmt;
mod macros;
mod explore;
mod mixed;
mod userdef;
mod huge;
mod iters;
mod own;

use engine::{Ctx, Tier};
use serde_json::json;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct PropSpec {
	pub id: &'static str,
	pub run: fn(&mut Ctx),
	pub assumptions: &'static [&'static str],
}

pub fn props() -> Vec<PropSpec> {
	let mut v = Vec::new();
	containers::register(&mut v);
	containers2::register(&mut v);
	iso::register(&mut v);
	blank::register(&mut v);
	print::register(&mut v);
	patterns::register(&mut v);
	terms::register(&mut v);
	interp::register(&mut v);
	serial::register(&mut v);
	stmt::register(&mut v);
	macros::register(&mut v);
	own::register(&mut v);
	v
}

fn tier_of(s: &str) -> Tier {
	match s {
		"quick" => Tier::Quick,
		"thorough" => Tier::Thorough,
		_ => die(&format!("unknown tier {s}")),
	}
}

fn die(msg: &str) -> ! {
	println!("ERROR: {msg}");
	std::process::exit(2)
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
	match a.get(1).copied() {
		Some("run") if a.len() == 4 => parent(a[2], a[3]),
		Some("child") if a.len() >= 6 => child(&a[2..]),
		Some("replay") if a.len() == 3 => replay(a[2]),
		Some("list") => props().iter().for_each(|p| println!("{}", p.id)),
		_ => die("usage: mc run <property> <quick|thorough> | mc replay <file>"),
	}
}

fn out_dir() -> String {
	std::env::var("MC_OUT").unwrap_or_else(|_| "/verif/evidence".into())
}

/// Known findings: lines `known: property=<id> key=<key> :: <what fails>`.
fn known_findings(id: &str) -> Vec<(String, String)> {
	let path = std::env::var("MC_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
	let Ok(text) = std::fs::read_to_string(path) else {
		return Vec::new();
	};
	let prefix = format!("known: property={id} key=");
	text.lines()
		.filter_map(|l| l.strip_prefix(&prefix))
		.filter_map(|l| l.split_once(" :: "))
		.map(|(k, w)| (k.trim().to_string(), w.trim().to_string()))
		.collect()
}

fn caps(tier: &str) -> (u64, u64) {
	// (exploration cap, hard cap) in seconds.
	let env = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok());
	let cap = env.unwrap_or(if tier == "quick" { 480 } else { 7200 });
	(cap, cap + 240)
}

fn spawn_child(args: &[String]) -> std::process::Child {
	use std::os::unix::process::CommandExt;
	let mut c = Command::new(std::env::current_exe().unwrap());
	c.arg("child")
		.args(args)
		.stdin(Stdio::null())
		.stdout(Stdio::null())
		.stderr(Stdio::null());
	unsafe {
		c.pre_exec(|| {
			let lim = libc::rlimit {
				rlim_cur: 24 << 30,
				rlim_max: 24 << 30,
			};
			libc::setrlimit(libc::RLIMIT_AS, &lim);
			let core = libc::rlimit {
				rlim_cur: 0,
				rlim_max: 0,
			};
			libc::setrlimit(libc::RLIMIT_CORE, &core);
			Ok(())
		});
	}
	c.spawn().unwrap_or_else(|e| die(&format!("cannot spawn worker: {e}")))
}

fn wait(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
	let t = Instant::now();
	loop {
		if let Ok(Some(s)) = c.try_wait() {
			return Some(s);
		}
		if t.elapsed() > limit {
			let _ = c.kill();
			let _ = c.wait();
			return None;
		}
		std::thread::sleep(Duration::from_millis(20));
	}
}

fn parent(id: &str, tier: &str) {
	let start = Instant::now();
	let Some(spec) = props().into_iter().find(|p| p.id == id) else {
		die(&format!("unknown property {id}"))
	};
	let _ = tier_of(tier);
	let dir = out_dir();
	let _ = std::fs::create_dir_all(&dir);
	let pid = std::process::id();
	let base = format!("{dir}/.work-{id}-{pid}");
	let result = format!("{base}.json");
	let active = format!("{base}.active");
	let cleanup = || {
		for p in [&result, &active] {
			let _ = std::fs::remove_file(p);
		}
	};
	let (_, hard) = caps(tier);
	let args = vec![
		id.to_string(),
		tier.to_string(),
		result.clone(),
		active.clone(),
	];
	let status = wait(spawn_child(&args), Duration::from_secs(hard));
	let res: Option<serde_json::Value> = std::fs::read_to_string(&result)
		.ok()
		.and_then(|s| serde_json::from_str(&s).ok());
	let res = match (res, status) {
		(Some(r), _) => r,
		(None, None) => {
			cleanup();
			die("worker exceeded its time limit without a result")
		}
		(None, Some(s)) if s.code() == Some(3) => {
			cleanup();
			die("the check's own tooling failed (no verdict)")
		}
		(None, Some(s)) => {
			use std::os::unix::process::ExitStatusExt;
			// The worker died: the code under test aborted (stack overflow,
			// out of memory, ...). Find the job responsible.
			let mut found = None;
			if s.signal() != Some(libc::SIGKILL) {
				let text = std::fs::read(&active).unwrap_or_default();
				for rec in text.chunks(128) {
					let rec = String::from_utf8_lossy(rec).trim().to_string();
					let Some((j, name)) = rec.split_once(' ') else { continue };
					let trace = format!("{base}.trace");
					let mut a = args.clone();
					a.extend(["only".into(), name.to_string(), j.to_string(), trace.clone()]);
					let _ = std::fs::remove_file(&result);
					let st = wait(spawn_child(&a), Duration::from_secs(300));
					let produced = std::path::Path::new(&result).exists();
					let case = std::fs::read_to_string(&trace).unwrap_or_default();
					let _ = std::fs::remove_file(&trace);
					if !produced {
						found = Some((name.to_string(), j.parse::<usize>().unwrap_or(0), case, st));
						break;
					}
				}
			}
			match found {
				Some((space, job, case, st)) => json!({
					"violation": {"space": space, "job": job, "case": case,
						"msg": format!("the process died while executing this case ({st:?})")},
					"states": 0, "transitions": 0, "traces": 0, "checks": 0, "distinct": 0,
					"samples": [], "spaces": [], "capped": true, "known": []
				}),
				None => {
					cleanup();
					die(&format!("worker died ({s:?}) and no job reproduces it"))
				}
			}
		}
	};
	cleanup();

	let viol = &res["violation"];
	let bad = !viol.is_null();
	let replay = format!("{dir}/{id}.replay.json");
	let _ = std::fs::remove_file(&replay);
	if bad {
		let doc = json!({
			"property": id, "tier": tier, "space": viol["space"], "job": viol["job"],
			"case": viol["case"], "message": viol["msg"],
			"how": format!("{} replay {replay}", std::env::current_exe().unwrap().display()),
		});
		let _ = std::fs::write(&replay, serde_json::to_string_pretty(&doc).unwrap() + "\n");
	}
	let seed: i64 = std::env::var("VERIF_SEED")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(1);
	let exhaustive = !bad && res["capped"] == json!(false);
	let evidence = json!({
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": {
			"states": res["states"], "transitions": res["transitions"],
			"traces_validated_against_impl": res["traces"],
			"comparisons": res["checks"],
			"distinct_outcomes": res["distinct"],
			"samples": res["samples"],
			"spaces": res["spaces"],
			"exhaustive": exhaustive,
		},
		"assumptions": spec.assumptions,
		"wall_s": start.elapsed().as_secs_f64(),
		"violations": bad as u32,
	});
	std::fs::write(
		format!("{dir}/{id}.json"),
		serde_json::to_string_pretty(&evidence).unwrap() + "\n",
	)
	.unwrap_or_else(|e| die(&format!("cannot write evidence: {e}")));
	for k in res["known"].as_array().into_iter().flatten() {
		println!("KNOWN-FINDING: property={id} {}", k.as_str().unwrap_or(""));
	}
	println!(
		"{id} {tier}: states={} transitions={} traces={} comparisons={} distinct={} exhaustive={exhaustive} wall={:.1}s",
		res["states"], res["transitions"], res["traces"], res["checks"], res["distinct"],
		start.elapsed().as_secs_f64()
	);
	if bad {
		println!("  space: {} job {}", viol["space"].as_str().unwrap_or(""), viol["job"]);
		println!("  case: {}", viol["case"].as_str().unwrap_or(""));
		println!("  {}", viol["msg"].as_str().unwrap_or(""));
		println!("VIOLATION property={id} replay={replay}");
		std::process::exit(1);
	}
}

/// child <id> <tier> <result> <active> [only <space> <job> [trace]]
fn child(a: &[&str]) {
	unsafe {
		libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
	}
	std::panic::set_hook(Box::new(|_| {}));
	let spec = props().into_iter().find(|p| p.id == a[0]).unwrap();
	let tier = tier_of(a[1]);
	let result = a[2].to_string();
	let only = (a.len() >= 7 && a[4] == "only")
		.then(|| (a[5].to_string(), a[6].parse::<usize>().unwrap()));
	let trace = a.get(7).map(|s| s.to_string());
	let (cap, _) = caps(a[1]);
	let mut ctx = Ctx::new(
		tier,
		Duration::from_secs(cap),
		only,
		Some(a[3].to_string()),
		trace,
		known_findings(a[0]),
	);
	let r2 = result.clone();
	engine::watchdog(Duration::from_secs(100), move |space, job| {
		let doc = json!({
			"violation": {"space": space, "job": job,
				"case": format!("job {job} of {space}"),
				"msg": "no progress for 100 s: an operation of the code under test does not terminate"},
			"states": 0, "transitions": 0, "traces": 0, "checks": 0, "distinct": 0,
			"samples": [], "spaces": [], "capped": true, "known": []
		});
		write_atomic(&r2, &doc);
		std::process::exit(0);
	});
	(spec.run)(&mut ctx);
	let t = &ctx.totals;
	let doc = json!({
		"violation": ctx.violation.as_ref().map(|v| json!({
			"space": v.space, "job": v.job, "case": v.case, "msg": v.msg})),
		"states": t.states, "transitions": t.transitions, "traces": t.traces,
		"checks": t.checks, "distinct": t.distinct.len(), "samples": t.samples,
		"spaces": t.spaces.iter().map(|(n, j, d, s)| json!({
			"name": n, "jobs": j, "jobs_completed": d, "wall_s": s})).collect::<Vec<_>>(),
		"capped": t.capped, "known": ctx.known_hit.values().collect::<Vec<_>>(),
	});
	write_atomic(&result, &doc);
	std::process::exit(0);
}

fn write_atomic(path: &str, doc: &serde_json::Value) {
	let tmp = format!("{path}.tmp");
	std::fs::write(&tmp, doc.to_string()).unwrap();
	std::fs::rename(&tmp, path).unwrap();
}

fn replay(file: &str) {
	let doc: serde_json::Value = std::fs::read_to_string(file)
		.ok()
		.and_then(|s| serde_json::from_str(&s).ok())
		.unwrap_or_else(|| die("cannot read the replay file"));
	let result = format!("{file}.result");
	let args: Vec<String> = vec![
		doc["property"].as_str().unwrap().into(),
		doc["tier"].as_str().unwrap().into(),
		result.clone(),
		format!("{file}.active"),
		"only".into(),
		doc["space"].as_str().unwrap().into(),
		doc["job"].to_string(),
	];
	let st = wait(spawn_child(&args), Duration::from_secs(600));
	let res = std::fs::read_to_string(&result).unwrap_or_default();
	let _ = std::fs::remove_file(&result);
	let _ = std::fs::remove_file(format!("{file}.active"));
	match serde_json::from_str::<serde_json::Value>(&res) {
		Ok(r) if r["violation"].is_null() => println!("not reproduced"),
		Ok(r) => {
			println!("reproduced: {}", r["violation"]);
			std::process::exit(1)
		}
		Err(_) => {
			println!("reproduced: the process died ({st:?})");
			std::process::exit(1)
		}
	}
}
