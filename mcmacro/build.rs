//! Enumerates the macro programs checked for C22.
//!
//! Every program is an invocation of one of the RDF macros, together with the
//! value it must have, written out by this generator without using the macros
//! (or any other code of the library).
use std::fmt::Write;

/// Term syntaxes.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
	Iri,
	Blank,
	Typed,
	Plain,
	Var,
	/// Pattern variable.
	Unknown,
}
use Kind::*;

const TERMS: [Kind; 5] = [Iri, Blank, Typed, Plain, Var];
const PATTERN_TERMS: [Kind; 6] = [Iri, Blank, Typed, Plain, Var, Unknown];

/// A term: how it is written, what must be declared before, what it means.
struct T {
	src: String,
	decl: String,
	want: String,
}

fn term(kind: Kind, tag: &str, var_type: usize) -> T {
	let t = |src: String, want: String| T {
		src,
		decl: String::new(),
		want,
	};
	match kind {
		Iri => t(format!("<\"http://e.org/{tag}\">"), format!("I http://e.org/{tag}")),
		Blank => t(format!("_:\"{tag}\""), format!("B _:{tag}")),
		Typed => t(
			format!("\"{tag}\"^^\"http://t.org/{tag}\""),
			format!("L {tag} ^^ http://t.org/{tag}"),
		),
		Plain => t(
			format!("\"{tag}\""),
			format!("L {tag} ^^ http://www.w3.org/2001/XMLSchema#string"),
		),
		Var => {
			let (e, want) = match var_type % 6 {
				0 => (format!("iri(\"{tag}\")"), format!("I x:{tag}")),
				1 => (format!("blank(\"{tag}\")"), format!("B _:{tag}")),
				2 => (format!("literal(\"{tag}\")"), format!("L {tag} ^^ x:t")),
				3 => (format!("local(\"{tag}\")"), format!("I y:{tag}")),
				4 => (format!("term(\"{tag}\")"), format!("I z:{tag}")),
				_ => (format!("tagged(\"{tag}\")"), format!("L {tag} @ en")),
			};
			T {
				src: format!("v{tag}"),
				decl: format!("let v{tag} = {e}; "),
				want,
			}
		}
		Unknown => T {
			src: format!("?v{tag}"),
			decl: format!("let v{tag} = \"{tag}\"; "),
			want: format!("? {tag}"),
		},
	}
}

#[derive(Clone)]
struct Stmt {
	src: String,
	decl: String,
	want: String,
}

fn stmt(kinds: &[Kind], tag: &str, quad: bool, var_type: usize) -> Stmt {
	let ts: Vec<T> = kinds
		.iter()
		.enumerate()
		.map(|(i, k)| term(*k, &format!("{tag}{}", ["s", "p", "o", "g"][i]), var_type + i))
		.collect();
	let mut want: Vec<String> = ts.iter().map(|t| t.want.clone()).collect();
	if quad && kinds.len() == 3 {
		want.push("default".into());
	}
	Stmt {
		src: ts.iter().map(|t| t.src.clone()).collect::<Vec<_>>().join(" "),
		decl: ts.iter().map(|t| t.decl.clone()).collect(),
		want: want.join(" | "),
	}
}

/// All sequences of `n` kinds.
fn tuples(kinds: &[Kind], n: usize) -> Vec<Vec<Kind>> {
	let mut v = vec![vec![]];
	for _ in 0..n {
		v = v
			.into_iter()
			.flat_map(|p: Vec<Kind>| {
				kinds.iter().map(move |k| {
					let mut q = p.clone();
					q.push(*k);
					q
				})
			})
			.collect();
	}
	v
}

struct Out {
	cases: Vec<String>,
}

impl Out {
	/// `conv` renders the value of the expression.
	fn add(&mut self, mac: &str, conv: &str, decl: &str, src: &str, want: &str) {
		let call = format!("{mac}![{src}]");
		self.cases.push(format!(
			"r.case({:?}, || {{ {decl}{conv}({call}) }}, {want:?});",
			format!("{decl}{call}")
		));
	}

	fn list(&mut self, mac: &str, conv: &str, stmts: &[Stmt]) {
		let src: Vec<String> = stmts.iter().map(|s| format!("{} .", s.src)).collect();
		let decl: String = stmts.iter().map(|s| s.decl.clone()).collect();
		let want: Vec<String> = stmts.iter().map(|s| s.want.clone()).collect();
		self.add(mac, conv, &decl, &src.join(" "), &format!("[{}]", want.join(" ; ")));
	}
}

fn main() {
	println!("cargo:rerun-if-changed=build.rs");
	println!("cargo:rerun-if-env-changed=CARGO_FEATURE_THOROUGH");
	let deep = std::env::var("CARGO_FEATURE_THOROUGH").is_ok();
	let mut o = Out { cases: Vec::new() };

	// Single statements: every assignment of syntaxes to positions.
	let mut three = tuples(&TERMS, 3);
	let mut four = tuples(&TERMS, 4);
	for (i, k) in three.iter().enumerate() {
		let s = stmt(k, "a", false, i);
		o.add("grdf_triple", "one3", &s.decl, &s.src, &s.want);
		o.list("grdf_triples", "many3", &[s]);
	}
	for (i, k) in three.iter().chain(&four).enumerate() {
		let s = stmt(k, "a", true, i);
		o.add("grdf_quad", "one4", &s.decl, &s.src, &s.want);
		o.list("grdf_quads", "many4", &[s]);
	}
	let mut pats = tuples(&PATTERN_TERMS, 3);
	pats.extend(tuples(&PATTERN_TERMS, 4));
	for (i, k) in pats.iter().enumerate() {
		// Outside the thorough tier: at most two different syntaxes plus
		// variables in a four-component pattern.
		let mut used: Vec<u8> = k.iter().map(|k| *k as u8).filter(|k| *k != Unknown as u8).collect();
		used.sort();
		used.dedup();
		if !deep && k.len() == 4 && used.len() > 2 {
			continue;
		}
		let s = stmt(k, "a", true, i);
		o.add("grdf_quad_pattern", "onep", &s.decl, &s.src, &s.want);
	}

	// Every type of Rust variable at every position.
	for ty in 0..6 {
		for pos in 0..4 {
			let mut k = vec![Iri; 4];
			k[pos] = Var;
			let s = stmt(&k, "w", true, ty + 6 - pos);
			o.add("grdf_quad", "one4", &s.decl, &s.src, &s.want);
			if pos < 3 {
				let s = stmt(&k[..3], "w", false, ty + 6 - pos);
				o.add("grdf_triple", "one3", &s.decl, &s.src, &s.want);
			}
		}
	}

	// Unusual spellings, and contents, of each kind of term at every position
	// of every macro.
	let string = "http://www.w3.org/2001/XMLSchema#string";
	let mut odd: Vec<(String, String)> = Vec::new();
	for (lit, val) in [
		("\"\"", ""),
		("\"\\\"\"", "\""),
		("\"\\\\\"", "\\"),
		("\"a\\nb\"", "a\nb"),
		("\"é\\u{10FFFF}\"", "é\u{10FFFF}"),
		("r\"\\n\"", "\\n"),
		("r#\"\"a\"\"#", "\"a\""),
		("\"_:x\"", "_:x"),
		("\" . \"", " . "),
		("\"^^\"", "^^"),
		("\" \"", " "),
		("\" a\"", " a"),
		("\"a \"", "a "),
		("\"a  b\"", "a  b"),
		("\"\\n\"", "\n"),
		("\"\\ta\\r\\n\"", "\ta\r\n"),
		("\"\\0\"", "\0"),
		("\"Ab\"", "Ab"),
		("\"007\"", "007"),
		("\"1.50\"", "1.50"),
		("\"-0\"", "-0"),
		("\"true\"", "true"),
		("\"a@en\"", "a@en"),
		("\"<x:a>\"", "<x:a>"),
		("\"x:a\"", "x:a"),
		("\"?v\"", "?v"),
		("\"e\\u{301}\"", "e\u{301}"),
		("\"\\u{feff}a\"", "\u{feff}a"),
		("\"a\\\n  b\"", "ab"),
	] {
		odd.push((lit.into(), format!("L {val} ^^ {string}")));
		odd.push((format!("{lit}^^\"x:t\""), format!("L {val} ^^ x:t")));
	}
	for (src, val) in [
		(format!("\"{}\"", "lorem ".repeat(50)), "lorem ".repeat(50)),
		(format!("\"{}\"", "é".repeat(300)), "é".repeat(300)),
	] {
		odd.push((src.clone(), format!("L {val} ^^ {string}")));
		odd.push((format!("{src} ^^ \"x:t\""), format!("L {val} ^^ x:t")));
	}
	let iris = [
		"x:", "x:a", "X:A", "http://é.org/ü", "http://a", "http://a/", "http://a/?", "http://a/#",
		"http://a/./../b//c", "http://u:p@h:80/a;b=c,d?e=f&g#h/?i", "urn:a:b", "a+b-c.d:e",
		"http://a/%7e%2F%C3%A9", "http://[::1]/", "mailto:a@b", "x:'()*!$", "http://A/a", "file:///a",
		"http://www.w3.org/2001/XMLSchema#string", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
		"http://www.w3.org/2001/XMLSchema#integer",
	];
	for i in iris {
		odd.push((format!("<\"{i}\">"), format!("I {i}")));
		odd.push((format!("\"1\"^^\"{i}\""), format!("L 1 ^^ {i}")));
		odd.push((format!("\"\" ^^ \"{i}\""), format!("L  ^^ {i}")));
	}
	odd.push(("< \"x:a\" >".into(), "I x:a".into()));
	odd.push(("<r\"x:a\">".into(), "I x:a".into()));
	for b in ["0", "00", "a", "A", "_", ":", "a.b", "a..b", "a-", "é", "a\u{b7}", "1a", "_0", "b0:c", "\u{10000}"] {
		odd.push((format!("_:\"{b}\""), format!("B _:{b}")));
		odd.push((format!("_ : r\"{b}\""), format!("B _:{b}")));
	}
	for (src, want) in &odd {
		for pos in 0..4 {
			let n = if pos == 3 { 4 } else { 3 };
			let at = |others: [&str; 4], this: &str, sep: &str| {
				(0..n).map(|i| if i == pos { this } else { others[i] }).collect::<Vec<_>>().join(sep)
			};
			let call = at(["<\"x:s\">", "<\"x:p\">", "<\"x:o\">", "<\"x:g\">"], src, " ");
			let value = at(["I x:s", "I x:p", "I x:o", "I x:g"], want, " | ");
			if n == 3 {
				o.add("grdf_triple", "one3", "", &call, &value);
				o.add("grdf_triples", "many3", "", &format!("{call} ."), &format!("[{value}]"));
			}
			let value = if n == 3 { format!("{value} | default") } else { value };
			o.add("grdf_quad", "one4", "", &call, &value);
			o.add("grdf_quads", "many4", "", &format!("{call} ."), &format!("[{value}]"));
			o.add("grdf_quad_pattern", "onep", "", &call, &value);
			// The same term twice.
			let twice = format!("{src} {src} {src}");
			if pos == 0 {
				o.add("grdf_triple", "one3", "", &twice, &format!("{want} | {want} | {want}"));
				let value = format!("{want} | {want} | {want} | {want}");
				let twice = format!("{twice} {src}");
				o.add("grdf_quad", "one4", "", &twice, &value);
				o.add("grdf_quad_pattern", "onep", "", &twice, &value);
			}
		}
	}

	// Lists.
	o.list("grdf_triples", "many3", &[]);
	o.list("grdf_quads", "many4", &[]);
	if !deep {
		// Shapes: cyclic shifts of the syntaxes, so that every ordered pair of
		// syntaxes meets at every statement boundary.
		three.retain(|k| (k[0] as u8 + 1) % 5 == k[1] as u8);
		four.retain(|k| (k[0] as u8 + 1) % 5 == k[1] as u8 && (k[1] as u8 + 1) % 5 == k[2] as u8);
	} else {
		four.retain(|k| (k[0] as u8 + 1) % 5 == k[1] as u8);
		three.retain(|k| (k[0] as u8 + 1) % 5 == k[1] as u8 || k[1] == k[2]);
	}
	for (i, a) in three.iter().enumerate() {
		for b in &three {
			o.list(
				"grdf_triples",
				"many3",
				&[stmt(a, "a", false, i), stmt(b, "b", false, i + 2)],
			);
		}
	}
	let mut mixed: Vec<Vec<Kind>> = three.iter().take(if deep { 40 } else { 10 }).cloned().collect();
	mixed.extend(four.iter().take(if deep { 60 } else { 25 }).cloned());
	for (i, a) in mixed.iter().enumerate() {
		for b in &mixed {
			o.list(
				"grdf_quads",
				"many4",
				&[stmt(a, "a", true, i), stmt(b, "b", true, i + 2)],
			);
		}
	}
	// Longer lists over few shapes, with and without graphs.
	let len = if deep { 5 } else { 4 };
	let shapes3: Vec<Vec<Kind>> = vec![vec![Iri, Blank, Plain], vec![Typed, Plain, Var], vec![Var, Typed, Iri]];
	let shapes4: Vec<Vec<Kind>> = vec![
		vec![Iri, Blank, Plain],
		vec![Typed, Plain, Var, Blank],
		vec![Var, Typed, Iri, Typed],
	];
	for n in 3..=len {
		for (mac, conv, shapes, quad) in [
			("grdf_triples", "many3", &shapes3, false),
			("grdf_quads", "many4", &shapes4, true),
		] {
			for mut code in 0..shapes.len().pow(n as u32) {
				let mut v = Vec::new();
				for i in 0..n {
					v.push(stmt(
						&shapes[code % shapes.len()],
						["a", "b", "c", "d", "e"][i],
						quad,
						i,
					));
					code /= shapes.len();
				}
				o.list(mac, conv, &v);
			}
		}
	}

	let mut text = String::new();
	let chunk = 40;
	let n = o.cases.len().div_ceil(chunk);
	for (i, c) in o.cases.chunks(chunk).enumerate() {
		writeln!(text, "fn chunk{i}(r: &mut Runner) {{").unwrap();
		for c in c {
			writeln!(text, "\t{c}").unwrap();
		}
		writeln!(text, "}}").unwrap();
	}
	writeln!(text, "fn all(r: &mut Runner) {{").unwrap();
	for i in 0..n {
		writeln!(text, "\tchunk{i}(r);").unwrap();
	}
	writeln!(text, "}}").unwrap();
	let out = std::env::var("OUT_DIR").unwrap();
	std::fs::write(format!("{out}/gen.rs"), text).unwrap();
}
