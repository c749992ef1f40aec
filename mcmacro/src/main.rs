//! Executes every generated macro program and compares its value with the one
//! the generator wrote down. Prints `ok <programs> <statements>` or
//! `bad <program>\n<got>\n<expected>`.
#![recursion_limit = "1024"]
use rdf_types::{
	grdf_quad, grdf_quad_pattern, grdf_quads, grdf_triple, grdf_triples, pattern::ResourceOrVar,
	BlankIdBuf, IriBuf, Literal, LiteralType, LocalTerm, Quad, Term, Triple,
};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn iri(t: &str) -> IriBuf {
	IriBuf::new(format!("x:{t}")).unwrap()
}
fn blank(t: &str) -> BlankIdBuf {
	BlankIdBuf::new(format!("_:{t}")).unwrap()
}
fn literal(t: &str) -> Literal {
	Literal {
		value: t.into(),
		type_: LiteralType::Any(iri("t")),
	}
}
fn tagged(t: &str) -> Literal {
	Literal {
		value: t.into(),
		type_: LiteralType::LangString("en".parse().ok().unwrap()),
	}
}
fn local(t: &str) -> LocalTerm {
	LocalTerm::Named(Term::Iri(IriBuf::new(format!("y:{t}")).unwrap()))
}
fn term(t: &str) -> Term {
	Term::Iri(IriBuf::new(format!("z:{t}")).unwrap())
}

fn enc(t: &LocalTerm) -> String {
	match t {
		LocalTerm::Anonymous(b) => format!("B {}", b.as_str()),
		LocalTerm::Named(Term::Iri(i)) => format!("I {}", i.as_str()),
		LocalTerm::Named(Term::Literal(Literal { value, type_ })) => match type_ {
			LiteralType::Any(t) => format!("L {value} ^^ {}", t.as_str()),
			LiteralType::LangString(t) => format!("L {value} @ {}", t.as_str()),
		},
	}
}

fn encp(t: &ResourceOrVar<LocalTerm, &'static str>) -> String {
	match t {
		ResourceOrVar::Resource(t) => enc(t),
		ResourceOrVar::Var(x) => format!("? {x}"),
	}
}

fn one3(Triple(s, p, o): Triple) -> String {
	format!("{} | {} | {}", enc(&s), enc(&p), enc(&o))
}
fn one4(Quad(s, p, o, g): Quad) -> String {
	let g = g.map(|g| enc(&g)).unwrap_or_else(|| "default".into());
	format!("{} | {} | {} | {g}", enc(&s), enc(&p), enc(&o))
}
fn onep(Quad(s, p, o, g): Quad<ResourceOrVar<LocalTerm, &'static str>>) -> String {
	let g = g.map(|g| encp(&g)).unwrap_or_else(|| "default".into());
	format!("{} | {} | {} | {g}", encp(&s), encp(&p), encp(&o))
}
fn many3<const N: usize>(a: [Triple; N]) -> String {
	let v: Vec<String> = a.into_iter().map(one3).collect();
	format!("[{}]", v.join(" ; "))
}
fn many4<const N: usize>(a: [Quad; N]) -> String {
	let v: Vec<String> = a.into_iter().map(one4).collect();
	format!("[{}]", v.join(" ; "))
}

#[derive(Default)]
struct Runner {
	samples: Vec<String>,
	programs: u64,
	statements: u64,
}

impl Runner {
	fn case(&mut self, src: &str, f: fn() -> String, want: &str) {
		self.programs += 1;
		self.statements += 1 + want.matches(" ; ").count() as u64;
		let got = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into());
		if self.programs % 997 == 1 {
			self.samples.push(format!("{src} = {want}"));
		}
		if got != want {
			println!("bad {}\n{:?}\n{:?}", src.escape_debug(), got, want);
			std::process::exit(0);
		}
	}
}

include!(concat!(env!("OUT_DIR"), "/gen.rs"));

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let mut r = Runner::default();
	all(&mut r);
	println!("ok {} {}", r.programs, r.statements);
	for s in r.samples {
		println!("{}", s.escape_debug());
	}
}
