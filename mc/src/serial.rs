//! C19: serialization. Every value of a bounded corpus through every
//! serde_json route, malformed input over the grammar's alphabet, and every
//! small content of the containers.
use crate::blank::valid;
use crate::containers::*;
use crate::engine::*;
use crate::explore::*;
use crate::model::*;
use crate::pats::*;
use crate::sut::*;
use crate::print::{build, T};
use crate::{ensure, ensure_eq, PropSpec};
use langtag::LangTag;
use rdf_types::dataset::{BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph};
use rdf_types::pattern::ResourceOrVar;
use rdf_types::{BlankIdBuf, Iri, Literal, LiteralType, LocalTerm, Quad, Term, Triple};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C19",
		run,
		assumptions: &[
			"serialization formats: JSON (serde_json: text, bytes, reader, value by move and by reference), CBOR (ciborium), and bincode for the types that do not need a self-describing format",
			"IRI and language tag validity are those of the iref and langtag dependencies; blank node identifiers are judged by the grammar oracle of C11",
		],
	});
}

const XSD: &str = "http://www.w3.org/2001/XMLSchema#string";

/// All strings of length at most `max` over `alpha`.
fn words(alpha: &[char], max: usize) -> Vec<String> {
	let mut all = vec![String::new()];
	let mut last = all.clone();
	for _ in 0..max {
		last = last.iter().flat_map(|w| alpha.iter().map(move |c| format!("{w}{c}"))).collect();
		all.extend(last.clone());
	}
	all
}

/// Serializes `v` and reads it back by every route. Returns the text.
fn round<V>(what: &str, v: &V, c: &mut u64) -> Result<String, String>
where
	V: Serialize + DeserializeOwned + PartialEq + Debug,
{
	let e = |r: &str, e: serde_json::Error| format!("{what} {v:?}: {r}: {e}");
	let text = serde_json::to_string(v).map_err(|x| e("to_string", x))?;
	ensure_eq!(serde_json::to_string(v).ok().as_ref(), Some(&text), "{what}: second serialization");
	let same = |r: &str, w: Result<V, serde_json::Error>| -> Result<(), String> {
		let w = w.map_err(|x| e(r, x))?;
		ensure!(w == *v && *v == w, "{what}: {r} of {text} gave {w:?}, expected {v:?}");
		let again = serde_json::to_string(&w).map_err(|x| e(r, x))?;
		ensure!(again == text, "{what}: {r} of {text} serializes to {again}");
		Ok(())
	};
	same("from_str", serde_json::from_str(&text))?;
	same("from_slice", serde_json::from_slice(text.as_bytes()))?;
	same("from_reader", serde_json::from_reader(text.as_bytes()))?;
	// Same text with every character of strings escaped.
	let escaped = escape(&text);
	same("from_str (escaped)", serde_json::from_str(&escaped))?;
	let pretty = serde_json::to_string_pretty(v).map_err(|x| e("to_string_pretty", x))?;
	same("from_str (pretty)", serde_json::from_str(&pretty))?;
	let value = serde_json::to_value(v).map_err(|x| e("to_value", x))?;
	let reparsed: Value = serde_json::from_str(&text).map_err(|x| e("value", x))?;
	ensure!(value == reparsed, "{what}: to_value gave {value}, to_string gave {text}");
	same("from_value", V::deserialize(&value))?;
	same("from_value (owned)", serde_json::from_value(value))?;
	cbor(what, v)?;
	*c += 10;
	Ok(text)
}

/// Serializes and reads back through CBOR, a binary self-describing format.
fn cbor<V>(what: &str, v: &V) -> Result<(), String>
where
	V: Serialize + DeserializeOwned + PartialEq + Debug,
{
	let mut bytes = Vec::new();
	ciborium::into_writer(v, &mut bytes).map_err(|e| format!("{what} {v:?} to CBOR: {e}"))?;
	let w: V = ciborium::from_reader(&bytes[..]).map_err(|e| format!("{what} {v:?} from CBOR: {e}"))?;
	ensure!(w == *v && *v == w, "{what}: CBOR gave {w:?}, expected {v:?}");
	let mut again = Vec::new();
	ciborium::into_writer(&w, &mut again).map_err(|e| format!("{what} {v:?} to CBOR: {e}"))?;
	ensure!(again == bytes, "{what} {v:?}: second CBOR serialization differs");
	Ok(())
}

/// Serializes and reads back through bincode, which trusts the announced
/// lengths and types. Returns the bytes.
fn binary<V>(what: &str, v: &V, c: &mut u64) -> Result<Vec<u8>, String>
where
	V: Serialize + DeserializeOwned + PartialEq + Debug,
{
	let bytes = bincode::serialize(v).map_err(|e| format!("{what} {v:?} to bincode: {e}"))?;
	let size = bincode::serialized_size(v).map_err(|e| format!("{what} {v:?} to bincode: {e}"))?;
	ensure_eq!(size as usize, bytes.len(), "{what} {v:?}: announced size");
	let same = |how: &str, w: bincode::Result<V>| -> Result<(), String> {
		let w = w.map_err(|e| format!("{what} {v:?} from bincode ({how}): {e}"))?;
		ensure!(w == *v && *v == w, "{what}: bincode ({how}) gave {w:?}, expected {v:?}");
		Ok(())
	};
	same("slice", bincode::deserialize(&bytes))?;
	same("reader", bincode::deserialize_from(&bytes[..]))?;
	// Followed by something else: the reader must stop at the right place.
	let mut two = bytes.clone();
	two.extend(bincode::serialize(&0xdead_beef_u32).unwrap());
	let (w, end): (V, u32) = bincode::deserialize(&two).map_err(|e| format!("{what} {v:?} from bincode, followed by a number: {e}"))?;
	ensure!(w == *v && end == 0xdead_beef, "{what} {v:?}: bincode read {w:?} and {end:x}");
	*c += 4;
	Ok(bytes)
}

/// A container read back is as good as the one written: same content, same
/// listings and pattern matches, and it can be changed like any other.
fn reread<S: Idx + Serialize + DeserializeOwned>(
	ctx: &mut Ctx,
	u: &[Q],
	depth: usize,
	vals: &[u16],
	pats: &[Pat],
	fixed: bool,
) {
	histories::<S>(ctx, "written and read back", u, depth, false, |c: &S, m: &Model, l: &mut Local| {
		let mut k = 0;
		let text = round("container", c, &mut k)?;
		let mut back: Vec<(&str, S)> = vec![("JSON", serde_json::from_str(&text).map_err(|e| e.to_string())?)];
		if fixed {
			let b = binary("container", c, &mut k)?;
			back.push(("bincode", bincode::deserialize(&b).map_err(|e| e.to_string())?));
		}
		l.checks += k;
		for (how, d) in &mut back {
			obs_all(d, m, vals, pats, l).map_err(|e| format!("read back from {how}: {e}"))?;
			ensure!(d == c && (*d).cmp(c).is_eq(), "read back from {how}: not equal to the original");
			let mut m2 = m.clone();
			for &e in u {
				l.transitions += 1;
				if m2.insert(e) {
					ensure!(d.insert(e), "read back from {how}: insertion of {e:?}");
				} else {
					m2.remove(&e);
					ensure!(d.remove(e), "read back from {how}: removal of {e:?}");
				}
			}
			obs_all(d, &m2, vals, &pats[..pats.len().min(4)], l)
				.map_err(|e| format!("read back from {how} and changed: {e}"))?;
		}
		Ok(())
	});
}

/// The same for plain containers.
fn reread_plain<S: Sut + Serialize + DeserializeOwned>(ctx: &mut Ctx, u: &[Q], depth: usize, vals: &[u16], fixed: bool) {
	histories::<S>(ctx, "written and read back", u, depth, false, |c: &S, m: &Model, l: &mut Local| {
		let mut k = 0;
		let text = round("container", c, &mut k)?;
		let mut back: Vec<(&str, S)> = vec![("JSON", serde_json::from_str(&text).map_err(|e| e.to_string())?)];
		if fixed {
			let b = binary("container", c, &mut k)?;
			back.push(("bincode", bincode::deserialize(&b).map_err(|e| e.to_string())?));
		}
		l.checks += k;
		for (how, d) in &mut back {
			let e = |e| format!("read back from {how}: {e}");
			obs_set(d, m, u, l).map_err(e)?;
			obs_resources(d, m, vals, l).map_err(e)?;
			ensure!(d == c && (*d).cmp(c).is_eq(), "read back from {how}: not equal to the original");
			let mut m2 = m.clone();
			for &e in u {
				l.transitions += 1;
				if m2.insert(e) {
					ensure!(d.insert(e), "read back from {how}: insertion of {e:?}");
				} else {
					m2.remove(&e);
					ensure!(d.remove(e), "read back from {how}: removal of {e:?}");
				}
			}
			let e = |e| format!("read back from {how} and changed: {e}");
			obs_set(d, &m2, u, l).map_err(e)?;
			obs_resources(d, &m2, vals, l).map_err(e)?;
		}
		Ok(())
	});
}

/// Rewrites the characters of every JSON string as escapes.
fn escape(text: &str) -> String {
	let v: Value = serde_json::from_str(text).unwrap();
	fn s(x: &str, out: &mut String) {
		out.push('"');
		for u in x.encode_utf16() {
			out.push_str(&format!("\\u{u:04x}"));
		}
		out.push('"');
	}
	fn go(v: &Value, out: &mut String) {
		match v {
			Value::String(x) => s(x, out),
			Value::Array(a) => {
				out.push('[');
				for (i, x) in a.iter().enumerate() {
					if i > 0 {
						out.push(',')
					}
					go(x, out)
				}
				out.push(']')
			}
			Value::Object(o) => {
				out.push('{');
				for (i, (k, x)) in o.iter().enumerate() {
					if i > 0 {
						out.push(',')
					}
					s(k, out);
					out.push(':');
					go(x, out)
				}
				out.push('}')
			}
			v => out.push_str(&v.to_string()),
		}
	}
	let mut out = String::new();
	go(&v, &mut out);
	out
}

fn text<V: Serialize>(v: &V) -> Result<String, String> {
	serde_json::to_string(v).map_err(|e| e.to_string())
}

fn check_term(t: &T, c: &mut u64) -> Result<Vec<(&'static str, String)>, String> {
	let l = build(t);
	let mut out = vec![("LocalTerm", round("LocalTerm", &l, c)?)];
	out.push(("Resource", round("ResourceOrVar", &ResourceOrVar::<LocalTerm, u32>::Resource(l.clone()), c)?));
	match &l {
		LocalTerm::Anonymous(b) => {
			out.push(("BlankIdBuf", round("BlankIdBuf", b, c)?));
			binary("BlankIdBuf", b, c)?;
			let q = Quad(b.clone(), b.clone(), b.clone(), Some(b.clone()));
			binary("Quad of identifiers", &q, c)?;
		}
		LocalTerm::Named(n) => {
			out.push(("Term", round("Term", n, c)?));
			if let Term::Literal(x) = n {
				let s = round("Literal", x, c)?;
				ensure_eq!(text(&x.as_ref())?, s, "text of the LiteralRef");
				ensure_eq!(text(&x.as_cow())?, s, "text of the CowLiteral");
				ensure_eq!(text(&x.clone().into_cow())?, s, "text of the owned CowLiteral");
				out.push(("Literal", s));
				let s = binary("Literal", x, c)?;
				ensure_eq!(bincode::serialize(&x.as_ref()).ok(), Some(s.clone()), "bytes of the LiteralRef");
				ensure_eq!(bincode::serialize(&x.as_cow()).ok(), Some(s), "bytes of the CowLiteral");
				binary("LiteralType", &x.type_, c)?;
				let s = round("LiteralType", &x.type_, c)?;
				ensure_eq!(text(&x.type_.as_ref())?, s, "text of the LiteralTypeRef");
				ensure_eq!(text(&x.type_.as_cow())?, s, "text of the CowLiteralType");
				*c += 5;
			}
		}
	}
	Ok(out)
}

fn corpus(ctx: &Ctx) -> Vec<T> {
	let mut v = Vec::new();
	let alpha = ['a', '"', '\\', '\n', '\u{e9}', '_', ':', '\u{1f600}', '\u{0}', '<', ' '];
	for w in words(&alpha, ctx.pick(3, 4)) {
		v.push(T::Lit(w.clone(), XSD.into()));
		if w.chars().count() < ctx.pick(3, 4) {
			v.push(T::Lit(w.clone(), "http://e/a".into()));
			v.push(T::Lit(w.clone(), "en:".into()));
			v.push(T::Lang(w.clone(), "en".into()));
			v.push(T::Lang(w, "fr-CH".into()));
		}
	}
	for w in words(&['a', '0', '-', '.', ':', '_', '\u{b7}', '\u{e9}'], ctx.pick(4, 5)) {
		let s = format!("_:{w}");
		if valid(&s) {
			v.push(T::Blank(s));
		}
	}
	for w in words(&['a', '/', '#', '?', ':', '\u{e9}', '.'], ctx.pick(4, 5)) {
		for p in ["a:", "http://e/"] {
			let s = format!("{p}{w}");
			if Iri::new(&s).is_ok() {
				v.push(T::Iri(s));
			}
		}
	}
	for t in crate::print::near_types() {
		v.push(T::Lit("a".into(), t.clone()));
		v.push(T::Iri(t));
	}
	// Texts of one kind as values of another.
	for s in ["_:a", "http://e/a", "a:", "en", "{\"value\":\"\"}", "null"] {
		v.push(T::Lit(s.into(), XSD.into()));
		v.push(T::Lang(s.into(), "x-a".into()));
	}
	v
}

// ------------------------------------------------------------- malformed

/// Reads `v` as a `V` by every route and compares acceptance.
fn accept<V: DeserializeOwned + Debug>(what: &str, v: &Value, ok: bool, c: &mut u64) -> Result<(), String> {
	let t = v.to_string();
	let rs: [(&str, Result<V, serde_json::Error>); 6] = [
		("from_str", serde_json::from_str(&t)),
		("from_slice", serde_json::from_slice(t.as_bytes())),
		("from_reader", serde_json::from_reader(t.as_bytes())),
		("from_str (escaped)", serde_json::from_str(&escape(&t))),
		("from_value", V::deserialize(v)),
		("from_value (owned)", serde_json::from_value(v.clone())),
	];
	let mut bytes = Vec::new();
	ciborium::into_writer(v, &mut bytes).map_err(|e| format!("{what}: {v} to CBOR: {e}"))?;
	let x: Result<V, _> = ciborium::from_reader(&bytes[..]);
	*c += 1;
	ensure!(
		x.is_ok() == ok,
		"{what}: CBOR of {t} gives {x:?}, expected {}",
		if ok { "a value" } else { "an error" }
	);
	for (r, x) in rs {
		*c += 1;
		ensure!(
			x.is_ok() == ok,
			"{what}: {r} of {t} gives {x:?}, expected {}",
			if ok { "a value" } else { "an error" }
		);
	}
	Ok(())
}

fn check_text(s: &str, deep: bool, c: &mut u64) -> Result<(), String> {
	let v = Value::String(s.into());
	let blank = valid(s);
	let iri = Iri::new(s).is_ok();
	let tag = LangTag::new(s).is_ok();
	accept::<BlankIdBuf>("BlankIdBuf", &v, blank, c)?;
	let bytes = bincode::serialize(s).map_err(|e| e.to_string())?;
	let x: bincode::Result<BlankIdBuf> = bincode::deserialize(&bytes);
	ensure!(x.is_ok() == blank, "BlankIdBuf: bincode of {s:?} gives {x:?}");
	let x: bincode::Result<BlankIdBuf> = bincode::deserialize_from(&bytes[..]);
	ensure!(x.is_ok() == blank, "BlankIdBuf: bincode of {s:?} gives {x:?}");
	*c += 2;
	accept::<Term>("Term", &v, iri, c)?;
	accept::<LocalTerm>("LocalTerm", &v, blank || iri, c)?;
	accept::<LiteralType>("LiteralType", &json!({ "Any": s }), iri, c)?;
	accept::<LiteralType>("LiteralType", &json!({ "LangString": s }), tag, c)?;
	if deep {
		let any = json!({"value": "a", "type_": {"Any": s}});
		let lang = json!({"value": "a", "type_": {"LangString": s}});
		for (x, ok) in [(&v, blank || iri), (&any, iri), (&lang, tag)] {
			accept::<LocalTerm>("LocalTerm", x, ok, c)?;
			let good = json!("http://e/a");
			for k in 0..4 {
				let mut q = [good.clone(), good.clone(), good.clone(), good.clone()];
				q[k] = x.clone();
				accept::<Quad>("Quad", &json!(q), ok, c)?;
				accept::<BTreeDataset>("BTreeDataset", &json!([[good, good, good, null], q]), ok, c)?;
				accept::<IndexedBTreeDataset>("IndexedBTreeDataset", &json!([q, [good, good, good, null]]), ok, c)?;
				if k < 3 {
					let t = &q[..3];
					accept::<Triple>("Triple", &json!(t), ok, c)?;
					accept::<BTreeGraph>("BTreeGraph", &json!([t, [good, good, good]]), ok, c)?;
					accept::<IndexedBTreeGraph>("IndexedBTreeGraph", &json!([[good, good, good], t]), ok, c)?;
				}
			}
		}
	}
	Ok(())
}

// ------------------------------------------------------------- containers

fn universe() -> Vec<Quad> {
	let t: Vec<LocalTerm> = [
		T::Iri("http://e/a".into()),
		T::Blank("_:a".into()),
		T::Lit("_:a".into(), XSD.into()),
		T::Lang("a".into(), "en".into()),
	]
	.iter()
	.map(build)
	.collect();
	vec![
		Quad(t[0].clone(), t[0].clone(), t[0].clone(), None),
		Quad(t[0].clone(), t[0].clone(), t[0].clone(), Some(t[0].clone())),
		Quad(t[0].clone(), t[0].clone(), t[1].clone(), None),
		Quad(t[0].clone(), t[0].clone(), t[1].clone(), Some(t[1].clone())),
		Quad(t[1].clone(), t[0].clone(), t[2].clone(), None),
		Quad(t[1].clone(), t[0].clone(), t[3].clone(), Some(t[1].clone())),
		Quad(t[1].clone(), t[2].clone(), t[3].clone(), Some(t[2].clone())),
		Quad(t[3].clone(), t[2].clone(), t[1].clone(), Some(t[3].clone())),
	]
}

fn triple(q: &Quad) -> Triple {
	Triple(q.0.clone(), q.1.clone(), q.2.clone())
}

/// All four containers built with the given history (index, inserted).
fn containers(u: &[Quad], h: &[(usize, bool)]) -> (BTreeDataset, IndexedBTreeDataset, BTreeGraph, IndexedBTreeGraph) {
	let (mut a, mut b, mut x, mut y) = (
		BTreeDataset::new(),
		IndexedBTreeDataset::new(),
		BTreeGraph::new(),
		IndexedBTreeGraph::new(),
	);
	for &(i, ins) in h {
		let q = &u[i];
		if ins {
			a.insert(q.clone());
			b.insert(q.clone());
			x.insert(triple(q));
			y.insert(triple(q));
		} else {
			a.remove(q.as_ref());
			b.remove(q.as_ref());
			x.remove(triple(q).as_ref());
			y.remove(triple(q).as_ref());
		}
	}
	(a, b, x, y)
}

fn check_content(u: &[Quad], h: &[(usize, bool)], c: &mut u64) -> Result<[String; 2], String> {
	let (a, b, x, y) = containers(u, h);
	let d = round("BTreeDataset", &a, c)?;
	ensure_eq!(round("IndexedBTreeDataset", &b, c)?, d, "text of the indexed dataset");
	let g = round("BTreeGraph", &x, c)?;
	ensure_eq!(round("IndexedBTreeGraph", &y, c)?, g, "text of the indexed graph");
	// Through the other container, and element by element.
	let q: Vec<Quad> = serde_json::from_str(&d).map_err(|e| format!("{d} as a list of quads: {e}"))?;
	let exp: BTreeSet<Quad> = a.iter().map(|q| q.into_cloned()).collect();
	ensure!(q.len() == exp.len() && q.iter().cloned().collect::<BTreeSet<_>>() == exp, "{d} as a list of quads: {q:?}");
	let t: Vec<Triple> = serde_json::from_str(&g).map_err(|e| format!("{g} as a list of triples: {e}"))?;
	let exp: BTreeSet<Triple> = x.iter().map(|t| t.into_cloned()).collect();
	ensure!(t.len() == exp.len() && t.iter().cloned().collect::<BTreeSet<_>>() == exp, "{g} as a list of triples: {t:?}");
	*c += 4;
	Ok([d, g])
}

/// Input listing the elements of `seq`, possibly several times.
fn check_dup(u: &[Quad], seq: &[usize], c: &mut u64) -> Result<(), String> {
	let qs: Vec<&Quad> = seq.iter().map(|i| &u[*i]).collect();
	let ts: Vec<Triple> = qs.iter().map(|q| triple(q)).collect();
	let (d, g) = (text(&qs)?, text(&ts)?);
	let eq: BTreeSet<Quad> = qs.iter().map(|q| (*q).clone()).collect();
	let et: BTreeSet<Triple> = ts.iter().cloned().collect();
	let e = |e: serde_json::Error| format!("{d}: {e}");
	let a: BTreeDataset = serde_json::from_str(&d).map_err(e)?;
	let b: IndexedBTreeDataset = serde_json::from_str(&d).map_err(e)?;
	let x: BTreeGraph = serde_json::from_str(&g).map_err(e)?;
	let y: IndexedBTreeGraph = serde_json::from_str(&g).map_err(e)?;
	ensure_eq!((a.len(), b.len()), (eq.len(), eq.len()), "length of the datasets read from {d}");
	ensure_eq!((x.len(), y.len()), (et.len(), et.len()), "length of the graphs read from {g}");
	let got: Vec<Quad> = a.iter().map(|q| q.into_cloned()).collect();
	ensure_eq!(got, eq.iter().cloned().collect::<Vec<_>>(), "dataset read from {d}");
	let got: Vec<Quad> = b.iter().map(|q| q.into_cloned()).collect();
	ensure_eq!(got, eq.iter().cloned().collect::<Vec<_>>(), "indexed dataset read from {d}");
	let got: Vec<Triple> = x.iter().map(|q| q.into_cloned()).collect();
	ensure_eq!(got, et.iter().cloned().collect::<Vec<_>>(), "graph read from {g}");
	let got: Vec<Triple> = y.iter().map(|q| q.into_cloned()).collect();
	ensure_eq!(got, et.iter().cloned().collect::<Vec<_>>(), "indexed graph read from {g}");
	*c += 6;
	Ok(())
}

fn large(n: u32, c: &mut u64) -> Result<(), String> {
	let q = |i: u32| Quad(i % 7, i / 3, i * 7919 % 101, if i % 3 == 0 { None } else { Some(i % 5) });
	let mut a = BTreeDataset::new();
	let mut b = IndexedBTreeDataset::new();
	let mut x = BTreeGraph::new();
	let mut y = IndexedBTreeGraph::new();
	for i in 0..n {
		let Quad(s, p, o, _) = q(i);
		a.insert(q(i));
		b.insert(q(i));
		x.insert(Triple(s, p, o));
		y.insert(Triple(s, p, o));
	}
	let d = round("BTreeDataset", &a, c)?;
	ensure_eq!(round("IndexedBTreeDataset", &b, c)?, d, "text of the indexed dataset");
	let g = round("BTreeGraph", &x, c)?;
	ensure_eq!(round("IndexedBTreeGraph", &y, c)?, g, "text of the indexed graph");
	let d = binary("BTreeDataset", &a, c)?;
	ensure_eq!(binary("IndexedBTreeDataset", &b, c)?, d, "bytes of the indexed dataset");
	let g = binary("BTreeGraph", &x, c)?;
	ensure_eq!(binary("IndexedBTreeGraph", &y, c)?, g, "bytes of the indexed graph");
	Ok(())
}

fn run(ctx: &mut Ctx) {
	// 1. Every term of the corpus; different terms, different texts.
	let terms = corpus(ctx);
	let chunk = 256;
	let texts = std::sync::Mutex::new(BTreeMap::<(&'static str, String), T>::new());
	ctx.space("every term through every route", terms.len().div_ceil(chunk), |j, l| {
		for t in &terms[j * chunk..terms.len().min((j + 1) * chunk)] {
			l.case(|| format!("{t:?}"));
			l.sample(|| format!("{t:?}"));
			l.states += 1;
			l.traces += 1;
			l.outcome(fp(t));
			let mut c = 0;
			let mut out = Vec::new();
			guard_check(|| {
				out = check_term(t, &mut c)?;
				Ok(())
			})
			.map_err(|m| Fail::new(format!("{t:?}"), m))?;
			l.checks += c;
			l.transitions += 2 * c;
			let mut g = texts.lock().unwrap();
			for (kind, s) in out {
				if let Some(u) = g.insert((kind, s.clone()), t.clone()) {
					if u != *t {
						return Err(Fail::new(format!("{u:?} / {t:?}"), format!("both serialize to {s} as {kind}")));
					}
				}
			}
		}
		Ok(())
	});
	// 2. Statements: all combinations of one term per kind and position.
	let st: Vec<LocalTerm> = [
		T::Iri("http://e/a".into()),
		T::Iri("http://e/b".into()),
		T::Blank("_:a".into()),
		T::Blank("_:b".into()),
		T::Lit("a".into(), XSD.into()),
		T::Lit("http://e/a".into(), "http://e/a".into()),
		T::Lang("_:a".into(), "en".into()),
	]
	.iter()
	.map(build)
	.collect();
	let n = st.len();
	let stexts = std::sync::Mutex::new(BTreeMap::<String, String>::new());
	ctx.space("every triple and quad over seven terms", n * n, |j, l| {
		let (s, p) = (&st[j / n], &st[j % n]);
		for o in &st {
			for g in 0..=n {
				let g = st.get(g).cloned();
				let q = Quad(s.clone(), p.clone(), o.clone(), g);
				l.case(|| format!("{q:?}"));
				l.sample(|| format!("{q:?}"));
				l.states += 1;
				l.traces += 1;
				let mut c = 0;
				let mut all = Vec::new();
				guard_check(|| {
					let x = round("Quad", &q, &mut c)?;
					ensure_eq!(text(&q.as_ref())?, x, "text of the borrowed quad");
					all.push((format!("{q:?}"), x));
					let v = Quad(
						ResourceOrVar::<_, u32>::Resource(q.0.clone()),
						ResourceOrVar::<LocalTerm, u32>::Var(0u32),
						ResourceOrVar::<LocalTerm, u32>::Resource(q.2.clone()),
						q.3.clone().map(ResourceOrVar::<_, u32>::Resource),
					);
					let x = round("Quad of ResourceOrVar", &v, &mut c)?;
					all.push((format!("{v:?}"), x));
					if q.3.is_none() {
						let t = triple(&q);
						let x = round("Triple", &t, &mut c)?;
						ensure_eq!(text(&t.as_ref())?, x, "text of the borrowed triple");
						all.push((format!("{t:?}"), x));
					}
					Ok(())
				})
				.map_err(|m| Fail::new(format!("{q:?}"), m))?;
				l.checks += c;
				l.transitions += 2 * c;
				let mut m = stexts.lock().unwrap();
				for (v, x) in all {
					l.outcome(fp(&x));
					if let Some(u) = m.insert(x.clone(), v.clone()) {
						if u != v {
							return Err(Fail::new(format!("{u} / {v}"), format!("both serialize to {x}")));
						}
					}
				}
			}
		}
		Ok(())
	});
	// 3. Malformed identifiers.
	let mut bad = words(&['_', ':', 'a', '0', '.', '-', ' ', '/', '\u{b7}'], ctx.pick(5, 6));
	bad.sort_by_key(|w| w.chars().count());
	let mut deep: Vec<String> = words(&['_', ':', 'a', '.', ' ', '-'], ctx.pick(3, 4));
	deep.extend(["en", "e n", "en_US", "http://e/ a", "http://e/<", "_:a ", " _:a", "_:a.", "_:.", "_:\u{d7}", "//e/a"].map(String::from));
	for (name, all, d) in [("every malformed identifier", &bad, false), ("malformed identifiers inside values", &deep, true)] {
		ctx.space(name, all.len().div_ceil(64), |j, l| {
			for s in &all[j * 64..all.len().min((j + 1) * 64)] {
				l.case(|| format!("{s:?}"));
				l.sample(|| format!("{s:?}"));
				l.states += 1;
				l.traces += 1;
				let mut c = 0;
				guard_check(|| check_text(s, d, &mut c)).map_err(|m| Fail::new(format!("{s:?}"), m))?;
				l.outcome(fp(&(s, d)));
				l.checks += c;
				l.transitions += c;
			}
			Ok(())
		});
	}
	// 4. Contents of containers: every subset, reached by insertion in both
	// orders, and by insertion of everything followed by removals.
	let u = universe();
	let ctexts = std::sync::Mutex::new(BTreeMap::<String, u32>::new());
	ctx.space("every content over eight quads", 1 << u.len(), |j, l| {
		let keep: Vec<usize> = (0..u.len()).filter(|i| j >> i & 1 == 1).collect();
		let graph: BTreeSet<Triple> = keep.iter().map(|i| triple(&u[*i])).collect();
		// Removals must not take out a triple that another kept quad shares.
		let gone: Vec<usize> = (0..u.len()).filter(|i| j >> i & 1 == 0 && !graph.contains(&triple(&u[*i]))).collect();
		let mut hs: Vec<Vec<(usize, bool)>> = Vec::new();
		hs.push(keep.iter().map(|i| (*i, true)).collect());
		hs.push(keep.iter().rev().map(|i| (*i, true)).collect());
		let mut h: Vec<_> = gone.iter().chain(&keep).map(|i| (*i, true)).collect();
		h.extend(gone.iter().map(|i| (*i, false)));
		hs.push(h);
		let mut first: Option<[String; 2]> = None;
		for h in &hs {
			l.case(|| format!("{h:?}"));
			l.sample(|| format!("history {h:?}"));
			l.states += 1;
			l.traces += 1;
			l.transitions += h.len() as u64;
			let mut c = 0;
			let mut out = None;
			guard_check(|| {
				out = Some(check_content(&u, h, &mut c)?);
				Ok(())
			})
			.map_err(|m| Fail::new(format!("history {h:?}"), m))?;
			l.checks += c;
			let out = out.unwrap();
			match &first {
				None => first = Some(out),
				Some(f) => {
					if *f != out {
						return Err(Fail::new(format!("history {h:?}"), format!("same content, texts {f:?} and {out:?}")));
					}
				}
			}
		}
		let f = first.unwrap();
		l.outcome(fp(&f));
		let mut m = ctexts.lock().unwrap();
		if let Some(k) = m.insert(f[0].clone(), j as u32) {
			return Err(Fail::new(format!("{k:b} / {j:b}"), format!("different contents serialize to {}", f[0])));
		}
		Ok(())
	});
	// 5. Duplicates in the input.
	let m = 5;
	let max = ctx.pick(5, 6);
	ctx.space("every input list with repetitions", m * m, |j, l| {
		let mut stack = vec![vec![j / m, j % m]];
		if j == 0 {
			stack.push(vec![]);
			stack.push(vec![0]);
		}
		while let Some(seq) = stack.pop() {
			l.case(|| format!("{seq:?}"));
			l.sample(|| format!("input {seq:?}"));
			l.states += 1;
			l.traces += 1;
			l.transitions += seq.len() as u64;
			let mut c = 0;
			guard_check(|| check_dup(&u, &seq, &mut c)).map_err(|m| Fail::new(format!("input {seq:?}"), m))?;
			l.checks += c;
			if seq.len() >= 2 && seq.len() < max {
				for i in 0..m {
					let mut s = seq.clone();
					s.push(i);
					stack.push(s);
				}
			}
		}
		Ok(())
	});
	ctx.space("contents large enough to split index nodes", 40, |j, l| {
		l.case(|| format!("{} elements", j * 10));
		l.states += 1;
		l.traces += 1;
		let mut c = 0;
		guard_check(|| large(j as u32 * 10, &mut c)).map_err(|m| Fail::new(format!("{} elements", j * 10), m))?;
		l.checks += c;
		Ok(())
	});
	// 6. Containers read back in full, over every history.
	let (t2, q2) = (triples(2), quads(2));
	let vals = [0, 1, ABSENT];
	let (tp, qp) = (triple_patterns(&vals), quad_patterns(&[0, ABSENT]));
	reread_plain::<BTreeGraph<u32>>(ctx, &t2, ctx.pick(4, 5), &vals, true);
	reread::<IndexedBTreeGraph<u32>>(ctx, &t2, ctx.pick(4, 5), &vals, &tp, true);
	reread_plain::<BTreeDataset<u32>>(ctx, &q2, ctx.pick(2, 3), &vals, true);
	reread::<IndexedBTreeDataset<u32>>(ctx, &q2, ctx.pick(2, 3), &vals, &qp, true);
	reread_plain::<BTreeGraph<LocalTerm>>(ctx, &t2, 3, &vals, false);
	reread::<IndexedBTreeGraph<LocalTerm>>(ctx, &t2, 3, &vals, &tp, false);
	reread_plain::<BTreeDataset<LocalTerm>>(ctx, &q2, 2, &vals, false);
	reread::<IndexedBTreeDataset<LocalTerm>>(ctx, &q2, 2, &vals, &qp, false);
	let _ = std::marker::PhantomData::<Literal>;
}
