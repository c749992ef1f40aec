//! C12: printed RDF text, decoded by an independent N-Triples/N-Quads reader.
use crate::engine::*;
use crate::explore::subsets;
use crate::{ensure, ensure_eq, PropSpec};
use contextual::Contextual;
use langtag::LangTagBuf;
use rdf_types::dataset::{BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph};
use rdf_types::iref::{IriRef, IriRefBuf};
use rdf_types::{
	BlankIdBuf, Iri, IriBuf, Literal, LiteralType, LocalTerm, Quad, RdfDisplay, RdfDisplayWithContext, Term, Triple,
	XSD_STRING,
};
use std::collections::BTreeSet;

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C12",
		run,
		assumptions: &[
			"oracle: an N-Quads reader written from the W3C grammar (generalized: any term in any position), whole-input matching",
			"formatting flags: widths and alignments may pad the text with blanks around it; precision (truncation) is not covered",
			"literal values: every scalar value alone and in context, and all strings up to the stated length over the characters special to the syntax",
		],
	});
}

// ---------------------------------------------------------------- reader

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum T {
	Iri(String),
	Blank(String),
	/// value, datatype
	Lit(String, String),
	/// value, language tag
	Lang(String, String),
}

pub struct Reader<'a> {
	s: &'a [char],
	i: usize,
}

impl<'a> Reader<'a> {
	pub fn new(s: &'a [char]) -> Self {
		Self { s, i: 0 }
	}

	fn peek(&self) -> Option<char> {
		self.s.get(self.i).copied()
	}

	fn next(&mut self) -> Result<char, String> {
		let c = self.peek().ok_or("unexpected end")?;
		self.i += 1;
		Ok(c)
	}

	fn expect(&mut self, c: char) -> Result<(), String> {
		let d = self.next()?;
		if c == d {
			Ok(())
		} else {
			Err(format!("expected {c:?}, found {d:?} at {}", self.i - 1))
		}
	}

	fn ws(&mut self) -> usize {
		let b = self.i;
		while matches!(self.peek(), Some(' ' | '\t')) {
			self.i += 1;
		}
		self.i - b
	}

	fn hex(&mut self, n: usize) -> Result<char, String> {
		let mut x = 0u32;
		for _ in 0..n {
			let c = self.next()?;
			x = x * 16 + c.to_digit(16).ok_or(format!("bad hexadecimal digit {c:?}"))?;
		}
		char::from_u32(x).ok_or("escape of a non-scalar value".into())
	}

	fn iriref(&mut self) -> Result<String, String> {
		self.expect('<')?;
		let mut out = String::new();
		loop {
			match self.next()? {
				'>' => return Ok(out),
				'\\' => match self.next()? {
					'u' => out.push(self.hex(4)?),
					'U' => out.push(self.hex(8)?),
					c => return Err(format!("bad escape \\{c} in an IRI")),
				},
				c @ ('\0'..=' ' | '<' | '"' | '{' | '}' | '|' | '^' | '`') => return Err(format!("{c:?} in an IRI")),
				c => out.push(c),
			}
		}
	}

	fn string(&mut self) -> Result<String, String> {
		self.expect('"')?;
		let mut out = String::new();
		loop {
			match self.next()? {
				'"' => return Ok(out),
				'\\' => out.push(match self.next()? {
					't' => '\t',
					'b' => '\u{8}',
					'n' => '\n',
					'r' => '\r',
					'f' => '\u{c}',
					'"' => '"',
					'\'' => '\'',
					'\\' => '\\',
					'u' => self.hex(4)?,
					'U' => self.hex(8)?,
					c => return Err(format!("bad escape \\{c} in a string")),
				}),
				c @ ('\n' | '\r') => return Err(format!("raw {c:?} in a string")),
				c => out.push(c),
			}
		}
	}

	fn lang(&mut self) -> Result<String, String> {
		self.expect('@')?;
		let mut out = String::new();
		while matches!(self.peek(), Some(c) if c.is_ascii_alphabetic()) {
			out.push(self.next()?);
		}
		if out.is_empty() {
			return Err("empty language tag".into());
		}
		while self.peek() == Some('-') {
			out.push(self.next()?);
			let n = out.len();
			while matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric()) {
				out.push(self.next()?);
			}
			if out.len() == n {
				return Err("empty language subtag".into());
			}
		}
		Ok(out)
	}

	fn blank(&mut self) -> Result<String, String> {
		// Longest match, a final dot being left to the statement.
		let b = self.i;
		while matches!(self.peek(), Some(c) if !matches!(c, ' ' | '\t' | '\n' | '\r' | '<' | '"' | '>' | '@' | '^')) {
			self.i += 1;
		}
		let s: String = self.s[b..self.i].iter().collect();
		if crate::blank::valid(&s) {
			Ok(s)
		} else {
			Err(format!("invalid blank node {s:?}"))
		}
	}

	pub fn term(&mut self) -> Result<T, String> {
		match self.peek() {
			Some('<') => Ok(T::Iri(self.iriref()?)),
			Some('_') => Ok(T::Blank(self.blank()?)),
			Some('"') => {
				let v = self.string()?;
				match self.peek() {
					Some('@') => Ok(T::Lang(v, self.lang()?)),
					Some('^') => {
						self.expect('^')?;
						self.expect('^')?;
						Ok(T::Lit(v, self.iriref()?))
					}
					_ => Ok(T::Lit(v, XSD_STRING.as_str().to_string())),
				}
			}
			c => Err(format!("no term starts with {c:?}")),
		}
	}

	/// Terms separated by blanks, up to a final ` .`, a line end or the end.
	fn terms(&mut self) -> Result<(Vec<T>, bool), String> {
		let mut out = Vec::new();
		loop {
			let sep = self.ws();
			match self.peek() {
				None | Some('\n') => return Ok((out, false)),
				Some('.') => {
					self.i += 1;
					self.ws();
					return Ok((out, true));
				}
				_ => {
					if !out.is_empty() && sep == 0 {
						return Err("terms not separated".into());
					}
					out.push(self.term()?)
				}
			}
		}
	}

	fn end(&self) -> Result<(), String> {
		if self.i == self.s.len() {
			Ok(())
		} else {
			Err(format!("trailing text at {}", self.i))
		}
	}
}

pub fn read_term(s: &str) -> Result<T, String> {
	let v: Vec<char> = s.chars().collect();
	let mut r = Reader::new(&v);
	let t = r.term()?;
	r.end()?;
	Ok(t)
}

pub fn read_statement(s: &str) -> Result<Vec<T>, String> {
	let v: Vec<char> = s.chars().collect();
	let mut r = Reader::new(&v);
	let (t, dot) = r.terms()?;
	r.end()?;
	if dot {
		return Err("statement printed with a final dot".into());
	}
	Ok(t)
}

pub fn read_document(s: &str) -> Result<Vec<Vec<T>>, String> {
	let v: Vec<char> = s.chars().collect();
	let mut r = Reader::new(&v);
	let mut out = Vec::new();
	while r.i < v.len() {
		let (t, dot) = r.terms()?;
		if t.is_empty() && !dot {
			r.expect('\n')?;
			continue;
		}
		if !dot {
			return Err("statement without its final dot".into());
		}
		if !(3..=4).contains(&t.len()) {
			return Err(format!("statement of {} terms", t.len()));
		}
		out.push(t);
		if r.i < v.len() {
			r.expect('\n')?;
		}
	}
	Ok(out)
}

// ---------------------------------------------------------------- values

pub fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_string()).unwrap()
}

pub fn lang(s: &str) -> LangTagBuf {
	LangTagBuf::new(s.to_string()).unwrap()
}

pub fn build(t: &T) -> LocalTerm {
	match t {
		T::Iri(i) => LocalTerm::Named(Term::Iri(iri(i))),
		T::Blank(b) => LocalTerm::Anonymous(BlankIdBuf::new(b.clone()).unwrap()),
		T::Lit(v, d) => LocalTerm::Named(Term::Literal(Literal {
			value: v.clone(),
			type_: LiteralType::Any(iri(d)),
		})),
		T::Lang(v, g) => LocalTerm::Named(Term::Literal(Literal {
			value: v.clone(),
			type_: LiteralType::LangString(lang(g)),
		})),
	}
}

/// Prints `v` through every way of reaching its RDF form.
fn prints<V: RdfDisplay + ?Sized>(v: &V) -> Vec<String> {
	struct Direct<'a, V: ?Sized>(&'a V);
	impl<V: RdfDisplay + ?Sized> std::fmt::Display for Direct<'_, V> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			self.0.rdf_fmt(f)
		}
	}
	let r = &v;
	let rr = &r;
	vec![
		v.rdf_display().to_string(),
		Direct(v).to_string(),
		(**rr).rdf_display().to_string(),
		format!("{}", rr.rdf_display()),
	]
}

/// Prints `v` in a context.
fn prints_with<V>(v: &V) -> Vec<String>
where
	V: RdfDisplayWithContext<()> + RdfDisplayWithContext<u8> + ?Sized,
{
	let mut m = ();
	vec![
		Contextual(v, &()).rdf_display().to_string(),
		Contextual(&v, &7u8).rdf_display().to_string(),
		Contextual(v, &mut m).rdf_display().to_string(),
	]
}

/// A writer that accepts `left` bytes and then fails for good.
struct Failing {
	out: String,
	left: usize,
}

impl std::fmt::Write for Failing {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		if s.len() <= self.left {
			self.left -= s.len();
			self.out.push_str(s);
			Ok(())
		} else {
			self.left = 0;
			Err(std::fmt::Error)
		}
	}
}

/// Prints `v` with formatting flags, which may pad the text but not change it, and to writers failing at every point.
fn flags<V: RdfDisplay + ?Sized>(v: &V, text: &str, what: &str, l: &mut Local) -> Result<(), String> {
	use std::fmt::Write;
	for (f, s) in [
		("{:1}", format!("{:1}", v.rdf_display())),
		("{:>40}", format!("{:>40}", v.rdf_display())),
		("{:^#300}", format!("{:^#300}", v.rdf_display())),
		("{:<+9}", format!("{:<+9}", v.rdf_display())),
		("{:#}", format!("{:#}", v.rdf_display())),
	] {
		ensure_eq!(s.trim_matches(' '), text, "{what} printed with {f}, padding aside");
		l.checks += 1;
	}
	for left in (0..text.len()).filter(|&k| k < 64 || k + 64 > text.len() || k % 97 == 0) {
		let mut w = Failing { out: String::new(), left };
		let r = write!(w, "{}", v.rdf_display());
		l.checks += 1;
		l.transitions += 1;
		ensure!(r.is_err(), "{what} printed to a writer failing after {left} of {} bytes: the failure is not reported", text.len());
		ensure!(text.starts_with(&w.out), "{what} printed to a failing writer: {:?} is not a prefix of {text:?}", w.out);
	}
	let mut w = Failing { out: String::new(), left: text.len() };
	ensure!(write!(w, "{}", v.rdf_display()).is_ok() && w.out == text, "{what} printed to a writer of just {} bytes", text.len());
	Ok(())
}

fn same(all: Vec<String>, what: &str, l: &mut Local) -> Result<String, String> {
	l.transitions += all.len() as u64;
	l.checks += all.len() as u64;
	for s in &all {
		ensure_eq!(*s, all[0], "printing form of {what}");
	}
	Ok(all.into_iter().next().unwrap())
}

fn check_term(t: &T, l: &mut Local) -> Result<(), String> {
	l.states += 1;
	let lt = build(t);
	let text = same(prints(&lt), "the local term", l)?;
	ensure!(
		read_term(&text).as_ref() == Ok(t),
		"prints {text:?}, which reads back as {:?}",
		read_term(&text)
	);
	l.checks += 1;
	l.outcome(fp(&text));
	let mut forms: Vec<(&str, String)> = Vec::new();
	match &lt {
		LocalTerm::Anonymous(b) => {
			forms.push(("BlankIdBuf", same(prints(b), "BlankIdBuf", l)?));
			forms.push(("BlankId", same(prints(b.as_blank_id_ref()), "BlankId", l)?));
			forms.push(("BlankIdBuf in context", same(prints_with(b), "BlankIdBuf in context", l)?));
			forms.push(("BlankId in context", same(prints_with(b.as_blank_id_ref()), "BlankId in context", l)?));
			forms.push(("BlankIdBuf as Display", b.to_string()));
			forms.push(("BlankId as Display", b.as_blank_id_ref().to_string()));
			forms.push(("LocalTerm as Display", lt.to_string()));
		}
		LocalTerm::Named(n) => {
			forms.push(("Term", same(prints(n), "Term", l)?));
			l.checks += 1;
			ensure_eq!(lt.to_string(), n.to_string(), "Display of the local term / of the term");
			match n {
				Term::Iri(i) => {
					ensure_eq!(n.to_string(), i.as_str(), "Display of the term / the IRI");
					forms.push(("IriBuf", same(prints(i), "IriBuf", l)?));
					forms.push(("Iri", same(prints(i.as_iri()), "Iri", l)?));
					forms.push(("IriRef", same(prints(i.as_iri_ref()), "IriRef", l)?));
					forms.push(("Iri in context", same(prints_with(i.as_iri()), "Iri in context", l)?));
					forms.push(("IriBuf in context", same(prints_with(i), "IriBuf in context", l)?));
					let r: IriRefBuf = i.as_iri_ref().to_owned();
					forms.push(("IriRefBuf", same(prints(&r), "IriRefBuf", l)?));
					forms.push(("IriRefBuf in context", same(prints_with(&r), "IriRefBuf in context", l)?));
				}
				Term::Literal(lit) => {
					forms.push(("Literal", same(prints(lit), "Literal", l)?));
					forms.push(("Literal as Display", lit.to_string()));
					forms.push(("Term as Display", n.to_string()));
					let r = lit.as_ref();
					forms.push(("LiteralRef", same(prints(&r), "LiteralRef", l)?));
					forms.push(("LiteralRef as Display", r.to_string()));
					// Value and type separately.
					let v = same(prints(lit.value.as_str()), "str", l)?;
					ensure_eq!(same(prints(&lit.value), "String", l)?, v, "String / str");
					let ty = same(prints(&lit.type_), "LiteralType", l)?;
					ensure_eq!(same(prints(&lit.type_.as_ref()), "LiteralTypeRef", l)?, ty, "LiteralTypeRef / LiteralType");
					ensure!(
						read_term(&format!("{v}{ty}")).as_ref() == Ok(t),
						"value and type print {v:?} {ty:?}"
					);
					if let LiteralType::LangString(tag) = &lit.type_ {
						let a = same(prints(tag), "LangTagBuf", l)?;
						ensure_eq!(same(prints(tag.as_lang_tag()), "LangTag", l)?, a, "LangTag / LangTagBuf");
						ensure_eq!(same(prints_with(tag), "LangTagBuf in context", l)?, a, "LangTagBuf in context");
						ensure_eq!(same(prints_with(tag.as_lang_tag()), "LangTag in context", l)?, a, "LangTag in context");
						ensure_eq!(format!("@{a}"), ty, "language tag / literal type");
					}
				}
			}
		}
	}
	for (w, s) in forms {
		l.checks += 1;
		ensure_eq!(s, text, "printed {w}");
	}
	if text.len() < 2000 && !matches!(t, T::Lit(v, _) | T::Lang(v, _) if v.len() > 3) {
		flags(&lt, &text, "the local term", l)?;
		match &lt {
			LocalTerm::Anonymous(b) => flags(b.as_blank_id_ref(), &text, "BlankId", l)?,
			LocalTerm::Named(n) => {
				flags(n, &text, "Term", l)?;
				match n {
					Term::Iri(i) => flags(i.as_iri_ref(), &text, "IriRef", l)?,
					Term::Literal(lit) => {
						flags(&lit.as_ref(), &text, "LiteralRef", l)?;
						for s in [format!("{lit:>50}"), format!("{:7}", lit.as_ref()), format!("{n:^60}"), format!("{lt:2}")] {
							l.checks += 1;
							ensure_eq!(s.trim_matches(' '), text, "Display of the literal with a width, padding aside");
						}
					}
				}
			}
		}
	}
	Ok(())
}

fn test_term(t: &T, l: &mut Local) -> Check {
	l.case(|| format!("{t:?}"));
	guard_check(|| check_term(t, l)).map_err(|m| Fail::new(format!("{t:?}"), m))
}

const TYPES: &[&str] = &[
	"http://www.w3.org/2001/XMLSchema#string",
	"http://www.w3.org/2001/XMLSchema#integer",
	"http://www.w3.org/2001/XMLSchema#strin",
	"http://www.w3.org/2001/XMLSchema#normalizedString",
	"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
	"urn:t",
	"http://é.example/%41?q=a#f",
];
const TAGS: &[&str] = &["en", "fr-FR", "x-foo", "zh-Hant-TW", "de-1996"];

fn literals(v: &str) -> Vec<T> {
	let mut out: Vec<T> = TYPES.iter().map(|t| T::Lit(v.into(), t.to_string())).collect();
	out.extend(TAGS.iter().map(|t| T::Lang(v.into(), t.to_string())));
	out
}

fn strings(prefix: &str, alpha: &[char], max: usize, f: &mut impl FnMut(&str) -> Check) -> Check {
	f(prefix)?;
	if max > 0 {
		for &c in alpha {
			let mut s = prefix.to_string();
			s.push(c);
			strings(&s, alpha, max - 1, f)?;
		}
	}
	Ok(())
}

fn statement_terms() -> Vec<T> {
	vec![
		T::Iri("http://a/b".into()),
		T::Iri("urn:é?x#y".into()),
		T::Iri("urn:x.".into()),
		T::Blank("_:b".into()),
		T::Blank("_:a.b".into()),
		T::Blank("_::".into()),
		T::Lit("".into(), TYPES[0].into()),
		T::Lit("_:b".into(), TYPES[0].into()),
		T::Lit(" .\n".into(), TYPES[0].into()),
		T::Lit("a\\\"b".into(), TYPES[1].into()),
		T::Lit("<http://a/b>".into(), TYPES[5].into()),
		T::Lang("x".into(), "en".into()),
		T::Lang("@en ".into(), "fr-FR".into()),
	]
}

fn check_statement(ts: &[T], l: &mut Local) -> Result<(), String> {
	l.states += 1;
	let v: Vec<LocalTerm> = ts.iter().map(build).collect();
	let (s, p, o) = (v[0].clone(), v[1].clone(), v[2].clone());
	let g = v.get(3).cloned();
	let quad = Quad(s.clone(), p.clone(), o.clone(), g.clone());
	let mut texts = prints(&quad);
	texts.push(quad.to_string());
	let r = Quad(&quad.0, &quad.1, &quad.2, quad.3.as_ref());
	texts.extend(prints(&r));
	texts.push(r.to_string());
	if g.is_none() {
		let t = Triple(s, p, o);
		texts.extend(prints(&t));
		texts.push(t.to_string());
		let rt = Triple(&t.0, &t.1, &t.2);
		texts.extend(prints(&rt));
		texts.push(rt.to_string());
	}
	let text = same(texts, "the statement", l)?;
	ensure!(
		read_statement(&text).as_deref() == Ok(ts),
		"prints {text:?}, which reads back as {:?}",
		read_statement(&text)
	);
	flags(&quad, &text, "the quad", l)?;
	if let Quad(s, p, o, None) = &quad {
		flags(&Triple(s, p, o), &text, "the triple", l)?;
	}
	l.outcome(fp(&text));
	l.checks += 1;
	Ok(())
}

fn check_doc(set: &[Vec<T>], l: &mut Local) -> Result<(), String> {
	l.states += 1;
	l.traces += 1;
	let want: BTreeSet<Vec<T>> = set.iter().cloned().collect();
	let mut texts = Vec::new();
	let quads: Vec<Quad> = set
		.iter()
		.map(|e| Quad(build(&e[0]), build(&e[1]), build(&e[2]), e.get(3).map(build)))
		.collect();
	let mut d1 = BTreeDataset::new();
	let mut d2 = IndexedBTreeDataset::new();
	for e in &quads {
		d1.insert(e.clone());
		d2.insert(e.clone());
		l.transitions += 2;
	}
	texts.push(("BTreeDataset", same(prints(&d1), "BTreeDataset", l)?));
	texts.push(("IndexedBTreeDataset", same(prints(&d2), "IndexedBTreeDataset", l)?));
	if set.len() <= 8 {
		flags(&d1, &texts[0].1, "BTreeDataset", l)?;
		flags(&d2, &texts[1].1, "IndexedBTreeDataset", l)?;
	}
	if set.iter().all(|e| e.len() == 3) {
		let mut g1 = BTreeGraph::new();
		let mut g2 = IndexedBTreeGraph::new();
		for Quad(s, p, o, _) in &quads {
			g1.insert(Triple(s.clone(), p.clone(), o.clone()));
			g2.insert(Triple(s.clone(), p.clone(), o.clone()));
			l.transitions += 2;
		}
		texts.push(("BTreeGraph", same(prints(&g1), "BTreeGraph", l)?));
		texts.push(("IndexedBTreeGraph", same(prints(&g2), "IndexedBTreeGraph", l)?));
		if set.len() <= 8 {
			flags(&g1, &texts[2].1, "BTreeGraph", l)?;
			flags(&g2, &texts[3].1, "IndexedBTreeGraph", l)?;
		}
	}
	for (w, t) in texts {
		let got = read_document(&t).map_err(|e| format!("{w} prints {t:?}: {e}"))?;
		ensure_eq!(got.len(), want.len(), "number of statements printed by {w} ({t:?})");
		ensure_eq!(got.into_iter().collect::<BTreeSet<_>>(), want, "statements printed by {w} ({t:?})");
		l.checks += 2;
	}
	l.outcome(fp(&set));
	Ok(())
}

/// Datatypes that are easily taken for `xsd:string`, and the other usual ones.
pub fn near_types() -> Vec<String> {
	let x = rdf_types::XSD_STRING.as_str();
	let n = x.len();
	let mut v: Vec<String> = Vec::new();
	for i in 0..=n {
		let (a, b) = x.split_at(i);
		v.push(a.into());
		for p in ["a:", "urn:", "http://a/"] {
			v.push(format!("{p}{b}"));
		}
		for c in ["x", "S", "s", "1", "/", "#", "?", ".", "%41", "\u{e9}"] {
			v.push(format!("{a}{c}{b}"));
			if i < n {
				v.push(format!("{a}{c}{}", &b[1..]));
			}
		}
		if i < n {
			v.push(format!("{a}{}", &b[1..]));
			v.push(format!("{a}{}{}", b[..1].to_ascii_uppercase(), &b[1..]));
			v.push(format!("{a}%{:02X}{}", b.as_bytes()[0], &b[1..]));
		}
	}
	v.extend([x.to_uppercase(), format!("{x}{x}"), x.replace("2001", "2002"), x.replace("XMLSchema", "XMLSchema-datatypes")]);
	for t in [
		"normalizedString", "token", "language", "Name", "NCName", "boolean", "decimal", "integer", "int", "double", "float", "date",
		"dateTime", "anyURI", "hexBinary", "strings", "string1", "str",
	] {
		v.push(format!("http://www.w3.org/2001/XMLSchema#{t}"));
	}
	for t in ["langString", "dirLangString", "PlainLiteral", "XMLLiteral", "HTML", "JSON", "string", "langstring"] {
		v.push(format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#{t}"));
	}
	// Variants that the IRI library itself takes for the same IRI are out.
	v.retain(|s| Iri::new(s).is_ok_and(|i| i != rdf_types::XSD_STRING));
	v.sort();
	v.dedup();
	v
}

fn run(ctx: &mut Ctx) {
	ctx.space("every scalar value in a literal", 0x1100, |j, l| {
		for x in j as u32 * 0x100..(j as u32 + 1) * 0x100 {
			let Some(c) = char::from_u32(x) else { continue };
			for v in [c.to_string(), format!("a{c}b"), format!("\\{c}"), format!("{c}{c}"), format!("\"{c}")] {
				test_term(&T::Lit(v.clone(), TYPES[0].into()), l)?;
				test_term(&T::Lit(v.clone(), TYPES[1].into()), l)?;
				test_term(&T::Lang(v, TAGS[0].into()), l)?;
			}
		}
		l.sample(|| format!("literals with U+{:06X}..", j * 0x100));
		Ok(())
	});
	ctx.space("every scalar value in an IRI", 0x1100, |j, l| {
		for x in j as u32 * 0x100..(j as u32 + 1) * 0x100 {
			let Some(c) = char::from_u32(x) else { continue };
			for s in [
				format!("http://h/{c}"),
				format!("http://h/a?{c}"),
				format!("http://h/a#{c}b"),
				format!("http://{c}/"),
				format!("urn:{c}:x"),
			] {
				if Iri::new(&s).is_ok() {
					test_term(&T::Iri(s.clone()), l)?;
					test_term(&T::Lit("v".into(), s), l)?;
				}
			}
			// Relative references.
			let s = format!("a{c}b");
			if let Ok(r) = IriRef::new(&s) {
				let case = format!("relative reference {s:?}");
				l.case(|| case.clone());
				l.states += 1;
				guard_check(|| {
					let text = same(prints(r), "IriRef", l)?;
					let o = r.to_owned();
					ensure_eq!(same(prints(&o), "IriRefBuf", l)?, text, "IriRefBuf / IriRef");
					ensure_eq!(same(prints_with(&o), "IriRefBuf in context", l)?, text, "IriRefBuf in context");
					ensure!(read_term(&text) == Ok(T::Iri(s.clone())), "prints {text:?}");
					Ok(())
				})
				.map_err(|m| Fail::new(case, m))?;
			}
		}
		Ok(())
	});
	let special: Vec<char> = "\"\\\n\r\t\u{8}\u{c}'nrtbfuU0a@^<>._: {}\0\u{7f}\u{85}\u{2028}é\u{10000}".chars().collect();
	let n = ctx.pick(3, 4);
	ctx.space(&format!("literal values of up to {n} special characters"), special.len() + 1, |j, l| {
		let mut f = |s: &str| {
			for t in literals(s) {
				test_term(&t, l)?;
			}
			Ok(())
		};
		if j == special.len() {
			return f("");
		}
		strings(&special[j].to_string(), &special, n - 1, &mut f)
	});
	let core: Vec<char> = "\"\\\n\rnu@<".chars().collect();
	let n = ctx.pick(6, 8);
	ctx.space(&format!("literal values of up to {n} core characters"), core.len() * core.len(), |j, l| {
		let p: String = [core[j / core.len()], core[j % core.len()]].iter().collect();
		strings(&p, &core, n - 2, &mut |s| {
			test_term(&T::Lit(s.into(), TYPES[0].into()), l)?;
			test_term(&T::Lang(s.into(), TAGS[1].into()), l)
		})
	});
	ctx.space("blank node identifiers", 0x1100, |j, l| {
		for x in j as u32 * 0x100..(j as u32 + 1) * 0x100 {
			let Some(c) = char::from_u32(x) else { continue };
			for s in [format!("_:{c}"), format!("_:a{c}"), format!("_:a{c}b")] {
				if crate::blank::valid(&s) {
					test_term(&T::Blank(s), l)?;
				}
			}
		}
		Ok(())
	});
	let near = near_types();
	ctx.space("datatypes close to xsd:string", near.len(), |j, l| {
		for v in ["", "a", "\"", "\n", "\\", "en", "http://e/a"] {
			test_term(&T::Lit(v.into(), near[j].clone()), l)?;
		}
		test_term(&T::Iri(near[j].clone()), l)
	});
	let long = ctx.pick(300, 3000);
	let around: Vec<usize> = [512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 1 << 20]
		.into_iter()
		.filter(|&n| n > long)
		.flat_map(|n| [n - 1, n, n + 1])
		.collect();
	ctx.space("long values", long + around.len(), |n, l| {
		let n = if n < long { n } else { around[n - long] };
		test_term(&T::Iri(format!("urn:{}", "x".repeat(n + 1))), l)?;
		test_term(&T::Blank(format!("_:{}", "x".repeat(n + 1))), l)?;
		for c in ["a", "é", "\"", "\\", "\n"] {
			let pad = "a".repeat(n);
			test_term(&T::Lit(format!("{pad}{c}"), TYPES[0].into()), l)?;
			test_term(&T::Lit(format!("{c}{pad}"), TYPES[1].into()), l)?;
			test_term(&T::Lang(c.repeat(n + 1), TAGS[0].into()), l)?;
		}
		Ok(())
	});
	let ts = statement_terms();
	let k = ts.len();
	ctx.space("statements with every kind of term in every position", k * k, |j, l| {
		for o in 0..k {
			for g in 0..=k {
				let mut v = vec![ts[j / k].clone(), ts[j % k].clone(), ts[o].clone()];
				if g < k {
					v.push(ts[g].clone());
				}
				l.case(|| format!("{v:?}"));
				guard_check(|| check_statement(&v, l)).map_err(|m| Fail::new(format!("{v:?}"), m))?;
			}
		}
		l.sample(|| format!("statements with subject {:?} and predicate {:?}", ts[j / k], ts[j % k]));
		Ok(())
	});
	// Documents: all sets of up to n statements from a pool.
	let some: Vec<T> = vec![ts[0].clone(), ts[4].clone(), ts[8].clone()];
	let mut pool: Vec<Vec<T>> = Vec::new();
	for s in 0..3 {
		for o in 0..3 {
			for g in 0..4 {
				let mut e = vec![some[s].clone(), some[0].clone(), some[o].clone()];
				if g < 3 {
					e.push(some[g].clone());
				}
				pool.push(e);
			}
		}
	}
	let n = ctx.pick(3, 4);
	let mut sets = Vec::new();
	for i in 0..=n {
		sets.extend(subsets(&(0..pool.len()).collect::<Vec<_>>(), i));
	}
	let chunk = 64;
	ctx.space(&format!("datasets and graphs of up to {n} statements"), sets.len().div_ceil(chunk), |j, l| {
		for s in &sets[j * chunk..((j + 1) * chunk).min(sets.len())] {
			let e: Vec<Vec<T>> = s.iter().map(|&i| pool[i].clone()).collect();
			l.case(|| format!("{e:?}"));
			guard_check(|| check_doc(&e, l)).map_err(|m| Fail::new(format!("{e:?}"), m))?;
		}
		l.sample(|| format!("{:?}", sets[j * chunk]));
		Ok(())
	});
	// Long documents.
	let sizes: Vec<usize> = (0..ctx.pick(70, 300)).chain([127, 128, 129, 255, 256, 257, 1000]).collect();
	ctx.space("datasets and graphs of many statements", sizes.len(), |j, l| {
		for shape in 0..3 {
			let v: Vec<Vec<T>> = (0..sizes[j])
				.map(|i| {
					let s = if i % 3 == 0 { T::Blank(format!("_:b{i}")) } else { T::Iri(format!("http://e/{}", i / 2)) };
					let mut e = vec![s, some[0].clone(), T::Lit(format!("\"{i}\n"), TYPES[i % 2].into())];
					if shape == 1 || shape == 2 && i % 5 > 2 {
						e.push(T::Iri(format!("http://g/{}", i % 4)));
					}
					e
				})
				.collect();
			let case = format!("{} statements, shape {shape}", v.len());
			l.case(|| case.clone());
			guard_check(|| check_doc(&v, l)).map_err(|m| Fail::new(case, m))?;
		}
		Ok(())
	});
}
