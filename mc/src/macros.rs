//! C22: the RDF macros build exactly the statements they spell.
//!
//! The space is a set of *programs*: the crate `../mcmacro` enumerates macro
//! invocations at build time (every assignment of term syntaxes to positions,
//! lists of statements), is compiled against the current tree and executed.
//! An invocation that no longer compiles is a violation like one with a wrong
//! value.
use crate::engine::{Ctx, Fail};
use crate::PropSpec;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn c22(cx: &mut Ctx) {
	let thorough = !cx.quick();
	let dir = std::env::current_exe()
		.unwrap()
		.ancestors()
		.nth(4)
		.unwrap()
		.join("mcmacro");
	cx.space("programs", 1, |_, l| {
		let tool = |m: String| -> Fail {
			// Not a verdict on the property: stop without a result.
			eprintln!("{m}");
			std::process::exit(3)
		};
		let log = std::env::temp_dir().join(format!("mcmacro-{}.log", std::process::id()));
		let out = std::fs::File::create(&log).map_err(|e| tool(format!("log: {e}")))?;
		let mut cmd = Command::new("cargo");
		cmd.current_dir(&dir)
			.args(["build", "--offline", "--quiet"])
			.env("CARGO_TERM_COLOR", "never")
			.env("RUSTFLAGS", "-Awarnings")
			.stdin(Stdio::null())
			.stdout(Stdio::null())
			.stderr(out);
		if thorough {
			cmd.args(["--features", "thorough"]);
		}
		let mut c = cmd.spawn().map_err(|e| tool(format!("cargo: {e}")))?;
		let t = Instant::now();
		let status = loop {
			l.case(|| "building the generated programs".into());
			match c.try_wait() {
				Ok(Some(s)) => break s,
				Ok(None) if t.elapsed() > Duration::from_secs(1500) => {
					let _ = c.kill();
					return Err(tool("the generated programs take too long to build".into()));
				}
				Ok(None) => std::thread::sleep(Duration::from_millis(50)),
				Err(e) => return Err(tool(format!("cargo: {e}"))),
			}
		};
		let text = std::fs::read_to_string(&log).unwrap_or_default();
		let _ = std::fs::remove_file(&log);
		if !status.success() {
			// Only compile errors located in the generated programs count.
			let lines: Vec<&str> = text.lines().collect();
			let at = lines.iter().enumerate().find(|(i, s)| {
				s.starts_with("error")
					&& lines[*i..lines.len().min(i + 4)]
						.iter()
						.any(|x| x.contains("--> ") && x.contains("/out/gen.rs:"))
			});
			return Err(match at {
				Some((i, _)) => {
					let end = lines.len().min(i + 12);
					Fail::new(
						lines[i..end].join("\n"),
						"a macro invocation allowed by the documented syntax does not compile",
					)
				}
				None => tool(format!("the generated programs do not build:\n{text}")),
			});
		}
		l.case(|| "running the generated programs".into());
		let exe = dir.join("target/debug/mcmacro");
		let o = Command::new(&exe)
			.stdin(Stdio::null())
			.output()
			.map_err(|e| tool(format!("{}: {e}", exe.display())))?;
		let text = String::from_utf8_lossy(&o.stdout).into_owned();
		let first = text.lines().next().unwrap_or("").to_string();
		if let Some(r) = first.strip_prefix("ok ") {
			let v: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
			l.states += v[0];
			l.traces += v[0];
			l.transitions += v[1];
			l.checks += v[0];
			l.sample(|| format!("{} programs, {} statements", v[0], v[1]));
			l.outcome(v[0]);
			l.outcome(v[1]);
			for s in text.lines().skip(1) {
				l.sample(|| s.to_string());
			}
			return Ok(());
		}
		match first.strip_prefix("bad ") {
			Some(src) => {
				let rest: Vec<&str> = text.lines().skip(1).collect();
				Err(Fail::new(
					src,
					format!(
						"value: got {}, expected {}",
						rest.first().unwrap_or(&""),
						rest.get(1).unwrap_or(&"")
					),
				))
			}
			None => Err(Fail::new(
				"generated programs",
				format!("the process died: {:?}", o.status),
			)),
		}
	});
}

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C22",
		run: c22,
		assumptions: &[
			"every program is compiled with the installed rustc against the current tree and executed",
			"the calling crate depends on iref, as the iri! macro requires",
		],
	});
}
