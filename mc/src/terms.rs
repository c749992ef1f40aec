//! C16: owned, borrowed and copy-on-write forms of terms, literals, literal
//! types and identifiers, over all pairs and triples of a corpus.
use crate::engine::*;
use crate::print::{build, T};
use crate::{ensure, ensure_eq, PropSpec};
use langtag::LangTag;
use rdf_types::{
	BlankId, BlankIdBuf, CowId, CowLiteral, CowLiteralType, CowLocalTerm, CowTerm, Id, IdRef, Iri, Literal,
	LiteralRef, LiteralType, LiteralTypeRef, LocalTerm, LocalTermRef, Term, TermRef, XSD_STRING,
};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C16",
		run,
		assumptions: &[
			"IRIs of the corpus are pairwise semantically different (percent-encoding and dot-segment variants are the iref dependency's business)",
			"language tags are compared without regard to ASCII case, as the langtag dependency defines",
			"the relative order of term kinds is not fixed by the property, only that all forms agree on it",
		],
	});
}

const XSD: &str = "http://www.w3.org/2001/XMLSchema#string";

// ------------------------------------------------------------------ views
// Plain readings of each form by destructuring, independent of Eq.

fn v_type(t: &LiteralType) -> (bool, String) {
	match t {
		LiteralType::Any(i) => (false, i.as_str().into()),
		LiteralType::LangString(l) => (true, l.as_str().into()),
	}
}

fn v_type_ref(t: LiteralTypeRef) -> (bool, String) {
	match t {
		LiteralTypeRef::Any(i) => (false, i.as_str().into()),
		LiteralTypeRef::LangString(l) => (true, l.as_str().into()),
	}
}

fn v_type_cow(t: &CowLiteralType) -> (bool, String) {
	match t {
		CowLiteralType::Any(i) => (false, i.as_str().into()),
		CowLiteralType::LangString(l) => (true, l.as_str().into()),
	}
}

fn lit_of(v: &str, (l, t): (bool, String)) -> T {
	if l {
		T::Lang(v.into(), t)
	} else {
		T::Lit(v.into(), t)
	}
}

fn v_lit(l: &Literal) -> T {
	lit_of(&l.value, v_type(&l.type_))
}

fn v_lit_ref(l: LiteralRef) -> T {
	lit_of(l.value, v_type_ref(l.type_))
}

fn v_lit_cow(l: &CowLiteral) -> T {
	lit_of(&l.value, v_type_cow(&l.type_))
}

fn v_term(t: &Term) -> T {
	match t {
		Term::Iri(i) => T::Iri(i.as_str().into()),
		Term::Literal(l) => v_lit(l),
	}
}

fn v_term_ref(t: TermRef) -> T {
	match t {
		TermRef::Iri(i) => T::Iri(i.as_str().into()),
		TermRef::Literal(l) => v_lit_ref(l),
	}
}

fn v_term_cow(t: &CowTerm) -> T {
	match t {
		CowTerm::Iri(i) => T::Iri(i.as_str().into()),
		CowTerm::Literal(l) => v_lit_cow(l),
	}
}

pub fn v_local(t: &LocalTerm) -> T {
	match t {
		LocalTerm::Anonymous(b) => T::Blank(b.as_str().into()),
		LocalTerm::Named(t) => v_term(t),
	}
}

fn v_local_ref(t: LocalTermRef) -> T {
	match t {
		LocalTermRef::Anonymous(b) => T::Blank(b.as_str().into()),
		LocalTermRef::Named(t) => v_term_ref(t),
	}
}

fn v_local_cow(t: &CowLocalTerm) -> T {
	match t {
		CowLocalTerm::Anonymous(b) => T::Blank(b.as_str().into()),
		CowLocalTerm::Named(t) => v_term_cow(t),
	}
}

fn v_id(t: &Id) -> T {
	match t {
		Id::BlankId(b) => T::Blank(b.as_str().into()),
		Id::Iri(i) => T::Iri(i.as_str().into()),
	}
}

fn v_id_ref(t: IdRef) -> T {
	match t {
		IdRef::BlankId(b) => T::Blank(b.as_str().into()),
		IdRef::Iri(i) => T::Iri(i.as_str().into()),
	}
}

fn v_id_cow(t: &CowId) -> T {
	match t {
		CowId::BlankId(b) => T::Blank(b.as_str().into()),
		CowId::Iri(i) => T::Iri(i.as_str().into()),
	}
}

/// Equality of the values denoted.
fn model_eq(a: &T, b: &T) -> bool {
	match (a, b) {
		(T::Lang(v, t), T::Lang(w, u)) => v == w && t.eq_ignore_ascii_case(u),
		_ => a == b,
	}
}

// ---------------------------------------------------------------- corpus

/// All strings of length at most `max` over `alpha`.
fn words(alpha: &[&str], max: usize) -> Vec<String> {
	let mut all = vec![String::new()];
	let mut last = all.clone();
	for _ in 0..max {
		last = last.iter().flat_map(|w| alpha.iter().map(move |c| format!("{w}{c}"))).collect();
		all.extend(last.clone());
	}
	all
}

fn corpus(quick: bool) -> Vec<T> {
	let max = if quick { 2 } else { 3 };
	let local = words(&["a", "b", "\u{e9}"], max);
	let mut iris: Vec<String> = ["a:", "b:", XSD, "http://f/", "urn:en", "http://e/a#", "http://e/a?", "http://e/A"]
		.map(String::from)
		.into();
	iris.extend(local.iter().map(|w| format!("http://e/{w}")));
	let mut blanks: Vec<String> = ["_:A", "_:0", "_:a.b", "_:a-b"].map(String::from).into();
	blanks.extend(local.iter().skip(1).map(|w| format!("_:{w}")));
	let mut values: Vec<String> = ["http://e/a", "_:a", "en", "\n", "\"", "\u{10ffff}", "A"].map(String::from).into();
	values.extend(words(&["a", "b", "\u{0}"], max));
	let types = [
		XSD,
		"http://e/a",
		"http://e/b",
		"a:",
		"urn:en",
		"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
	];
	let tags = ["en", "EN", "fr", "en-US", "en-us", "x-a", "i-klingon", "zh-Hant"];
	let mut v: Vec<T> = iris.into_iter().map(T::Iri).collect();
	v.extend(blanks.into_iter().map(T::Blank));
	for x in &values {
		v.extend(types.iter().map(|t| T::Lit(x.to_string(), t.to_string())));
		v.extend(tags.iter().map(|t| T::Lang(x.to_string(), t.to_string())));
	}
	v
}

// ----------------------------------------------------------- single value

fn literal_forms(t: &T, l: &Literal, c: &mut u64) -> Result<(), String> {
	let (value, ty) = match t {
		T::Lit(v, d) => (v.clone(), (false, d.clone())),
		T::Lang(v, d) => (v.clone(), (true, d.clone())),
		_ => unreachable!(),
	};
	let is_lang = ty.0;
	let xsd = ty == (false, XSD.to_string());
	macro_rules! all {
		($exp:expr; $($what:literal => $e:expr),* $(,)?) => {
			$( *c += 1; ensure_eq!($e, $exp, $what); )*
		};
	}
	// Conversions of the literal.
	let r = l.as_ref();
	let other_type = CowLiteralType::from(XSD_STRING);
	all!(*t;
		"Literal::as_ref" => v_lit_ref(r),
		"Literal::clone" => v_lit(&l.clone()),
		"Literal::as_cow" => v_lit_cow(&l.as_cow()),
		"Literal::into_cow" => v_lit_cow(&l.clone().into_cow()),
		"From<&Literal> for CowLiteral" => v_lit_cow(&CowLiteral::from(l)),
		"LiteralRef::to_owned" => v_lit(&r.to_owned()),
		"LiteralRef::cloned" => v_lit(&r.cloned()),
		"LiteralRef::into_cow" => v_lit_cow(&r.into_cow()),
		"LiteralRef clone" => v_lit_ref(<LiteralRef as Clone>::clone(&r)),
		"CowLiteral(borrowed)::as_ref" => v_lit_ref(l.as_cow().as_ref()),
		"CowLiteral(owned)::as_ref" => v_lit_ref(l.clone().into_cow().as_ref()),
		"CowLiteral(borrowed)::into_owned" => v_lit(&l.as_cow().into_owned()),
		"CowLiteral(owned)::into_owned" => v_lit(&l.clone().into_cow().into_owned()),
		"CowLiteral::clone" => v_lit_cow(&l.as_cow().clone()),
		"CowLiteral(owned)::clone" => v_lit_cow(&l.clone().into_cow().clone()),
		"Literal::new" => v_lit(&Literal::new(l.value.as_str(), l.type_.clone())),
		"Literal::new(cow)" => v_lit(&Literal::new(l.value.clone(), l.type_.as_cow())),
		"LiteralRef::new" => v_lit_ref(LiteralRef::new(&l.value, l.type_.as_ref())),
		"CowLiteral::new" => v_lit_cow(&CowLiteral::new(l.value.as_str(), l.type_.as_ref())),
		"CowLiteral::new(owned)" => v_lit_cow(&CowLiteral::new(l.value.clone(), l.type_.as_cow())),
	);
	// Conversions of the type.
	let y = &l.type_;
	let yr = y.as_ref();
	all!(ty;
		"Literal::as_type" => v_type(l.as_type()),
		"Literal::into_type" => v_type(&l.clone().into_type()),
		"Literal::as_type_mut" => v_type(l.clone().as_type_mut()),
		"Literal::into_parts" => v_type(&l.clone().into_parts().1),
		"LiteralRef::as_type" => v_type_ref(r.as_type()),
		"LiteralRef::into_type" => v_type_ref(r.into_type()),
		"LiteralRef::into_parts" => v_type_ref(r.into_parts().1),
		"LiteralType::clone" => v_type(&y.clone()),
		"LiteralType::as_ref" => v_type_ref(yr),
		"LiteralType::as_cow" => v_type_cow(&y.as_cow()),
		"LiteralType::into_cow" => v_type_cow(&y.clone().into_cow()),
		"LiteralTypeRef::into_owned" => v_type(&yr.into_owned()),
		"LiteralTypeRef clone" => v_type_ref(<LiteralTypeRef as Clone>::clone(&yr)),
		"From<LiteralTypeRef> for CowLiteralType" => v_type_cow(&CowLiteralType::from(yr)),
		"CowLiteralType::as_ref" => v_type_ref(y.as_cow().as_ref()),
		"CowLiteralType(owned)::as_ref" => v_type_ref(y.clone().into_cow().as_ref()),
		"CowLiteralType::into_owned" => v_type(&y.as_cow().into_owned()),
		"CowLiteralType(owned)::into_owned" => v_type(&y.clone().into_cow().into_owned()),
		"From<CowLiteralType> for LiteralType" => v_type(&LiteralType::from(y.as_cow())),
		"CowLiteralType::clone" => v_type_cow(&y.clone().into_cow().clone()),
	);
	match y {
		LiteralType::Any(i) => {
			let i: &Iri = i;
			all!(ty;
				"From<&Iri>" => v_type_cow(&CowLiteralType::from(i)),
				"From<IriBuf>" => v_type_cow(&CowLiteralType::from(i.to_owned())),
				"From<Cow<Iri>>" => v_type_cow(&CowLiteralType::from(Cow::Borrowed(i))),
				"From<Cow<Iri>> owned" => v_type_cow(&CowLiteralType::from(Cow::<Iri>::Owned(i.to_owned()))),
			);
		}
		LiteralType::LangString(g) => {
			let g: &LangTag = g;
			all!(ty;
				"From<&LangTag>" => v_type_cow(&CowLiteralType::from(g)),
				"From<LangTagBuf>" => v_type_cow(&CowLiteralType::from(g.to_owned())),
				"From<Cow<LangTag>>" => v_type_cow(&CowLiteralType::from(Cow::Borrowed(g))),
				"From<Cow<LangTag>> owned" => v_type_cow(&CowLiteralType::from(Cow::<LangTag>::Owned(g.to_owned()))),
			);
		}
	}
	// Value accessors.
	let s: &str = &value;
	all!(s;
		"Literal::as_value" => l.as_value().as_str(),
		"Literal::as_value_mut" => l.clone().as_value_mut().as_str(),
		"Literal::into_value" => l.clone().into_value().as_str(),
		"Literal::into_parts" => l.clone().into_parts().0.as_str(),
		"Literal::as_str" => l.as_str(),
		"Literal: Borrow<str>" => <Literal as Borrow<str>>::borrow(l),
		"Literal: AsRef<str>" => <Literal as AsRef<str>>::as_ref(l),
		"LiteralRef::as_value" => r.as_value(),
		"LiteralRef::into_value" => r.into_value(),
		"LiteralRef::into_parts" => r.into_parts().0,
		"LiteralRef::as_str" => r.as_str(),
		"LiteralRef: Borrow<str>" => <LiteralRef as Borrow<str>>::borrow(&r),
		"LiteralRef: AsRef<str>" => <LiteralRef as AsRef<str>>::as_ref(&r),
	);
	all!(s.as_bytes(); "Literal::as_bytes" => l.as_bytes(), "LiteralRef::as_bytes" => r.as_bytes());
	// Kind tests.
	all!(is_lang;
		"Literal::is_lang_string" => l.is_lang_string(),
		"LiteralRef::is_lang_string" => r.is_lang_string(),
		"LiteralType::is_lang_string" => y.is_lang_string(),
		"LiteralTypeRef::is_lang_string" => yr.is_lang_string(),
	);
	let tag = is_lang.then(|| ty.1.clone());
	all!(tag;
		"Literal::lang_tag" => l.lang_tag().map(|t| t.as_str().to_string()),
		"LiteralRef::lang_tag" => r.lang_tag().map(|t| t.as_str().to_string()),
		"LiteralType::lang_tag" => y.lang_tag().map(|t| t.as_str().to_string()),
		"LiteralTypeRef::lang_tag" => yr.lang_tag().map(|t| t.as_str().to_string()),
	);
	all!(xsd; "LiteralType::is_xsd_string" => y.is_xsd_string(), "LiteralTypeRef::is_xsd_string" => yr.is_xsd_string());
	for i in [XSD, "http://e/a", "http://e/b", "a:", "urn:en", "en:"] {
		let Ok(i) = Iri::new(i) else { continue };
		let exp = ty == (false, i.as_str().to_string());
		all!(exp; "LiteralType::is_iri" => y.is_iri(i), "LiteralTypeRef::is_iri" => yr.is_iri(i));
	}
	// Mutable accessors reach the named part only.
	let mut m = l.clone();
	m.as_value_mut().push('!');
	ensure_eq!(v_lit(&m), lit_of(&format!("{value}!"), ty.clone()), "as_value_mut push");
	let mut m = l.clone();
	*m.as_type_mut() = other_type.clone().into_owned();
	ensure_eq!(v_lit(&m), T::Lit(value.clone(), XSD.into()), "as_type_mut set");
	let mut m = r;
	*m.as_type_mut() = other_type.as_ref();
	ensure_eq!(v_lit_ref(m), T::Lit(value.clone(), XSD.into()), "LiteralRef::as_type_mut set");
	*c += 3;
	Ok(())
}

fn single(t: &T, c: &mut u64) -> Result<(), String> {
	let l = build(t);
	macro_rules! all {
		($exp:expr; $($what:literal => $e:expr),* $(,)?) => {
			$( *c += 1; ensure_eq!($e, $exp, $what); )*
		};
	}
	all!(*t;
		"construction" => v_local(&l),
		"LocalTerm::clone" => v_local(&l.clone()),
		"LocalTerm::as_ref" => v_local_ref(l.as_ref()),
		"LocalTermRef::to_owned" => v_local(&l.as_ref().to_owned()),
		"LocalTerm::as_cow" => v_local_cow(&l.as_cow()),
		"LocalTerm::into_cow" => v_local_cow(&l.clone().into_cow()),
		"From<LocalTerm> for CowLocalTerm" => v_local_cow(&CowLocalTerm::from(l.clone())),
	);
	let (blank, is_iri, is_lit) = (
		matches!(t, T::Blank(_)),
		matches!(t, T::Iri(_)),
		matches!(t, T::Lit(..) | T::Lang(..)),
	);
	all!(blank; "LocalTerm::is_anonymous" => l.is_anonymous(), "LocalTerm::is_blank_id" => l.is_blank_id());
	let as_blank = blank.then(|| t.clone());
	all!(as_blank;
		"LocalTerm::as_anonymous" => l.as_anonymous().map(|b| T::Blank(b.as_str().into())),
		"LocalTerm::as_blank_id" => l.as_blank_id().map(|b| T::Blank(b.as_str().into())),
	);
	let as_iri = is_iri.then(|| t.clone());
	let as_lit = is_lit.then(|| t.clone());
	let vi = |i: &Iri| T::Iri(i.as_str().into());
	all!(as_iri; "LocalTerm::as_iri" => l.as_iri().map(vi));
	all!(as_lit; "LocalTerm::as_literal" => l.as_literal().map(v_lit_ref));
	match &l {
		LocalTerm::Anonymous(b) => {
			all!(*t; "From<BlankIdBuf>" => v_local(&LocalTerm::from(b.clone())));
			blank_forms(t, b, c)?;
		}
		LocalTerm::Named(n) => {
			all!(*t;
				"From<Term>" => v_local(&LocalTerm::from(n.clone())),
				"Term::clone" => v_term(&n.clone()),
				"Term::as_ref" => v_term_ref(n.as_ref()),
				"TermRef::to_owned" => v_term(&n.as_ref().to_owned()),
				"Term::as_cow" => v_term_cow(&n.as_cow()),
				"Term::into_cow" => v_term_cow(&n.clone().into_cow()),
				"From<Term> for CowTerm" => v_term_cow(&CowTerm::from(n.clone())),
				"CowTerm(borrowed)::into_owned" => v_term(&n.as_cow().into_owned()),
				"CowTerm(owned)::into_owned" => v_term(&n.clone().into_cow().into_owned()),
			);
			ensure_eq!(n.is_iri(), is_iri, "Term::is_iri");
			ensure_eq!(n.is_literal(), is_lit, "Term::is_literal");
			*c += 2;
			all!(as_iri;
				"Term::as_iri" => n.as_iri().map(vi),
				"Term::into_iri" => n.clone().into_iri().map(|i| vi(&i)),
				"Term::try_into_iri" => n.clone().try_into_iri().ok().map(|i| vi(&i)),
				"Term::try_into_literal error" => n.clone().try_into_literal().err().map(|i| vi(&i)),
			);
			all!(as_lit;
				"Term::as_literal" => n.as_literal().map(v_lit_ref),
				"Term::into_literal" => n.clone().into_literal().map(|l| v_lit(&l)),
				"Term::try_into_literal" => n.clone().try_into_literal().ok().map(|l| v_lit(&l)),
				"Term::try_into_iri error" => n.clone().try_into_iri().err().map(|t| v_term(&t)),
			);
			match n {
				Term::Iri(i) => {
					all!(*t;
						"From<IriBuf>" => v_local(&LocalTerm::from(i.clone())),
						"LocalTerm::iri" => v_local(&LocalTerm::iri(i.clone())),
					);
					id_forms(t, Id::Iri(i.clone()), IdRef::Iri(i), c)?;
				}
				Term::Literal(x) => {
					all!(*t;
						"From<Literal>" => v_local(&LocalTerm::from(x.clone())),
						"LocalTerm::literal" => v_local(&LocalTerm::literal(x.clone())),
					);
					literal_forms(t, x, c)?;
				}
			}
		}
	}
	Ok(())
}

fn id_forms(t: &T, id: Id, r: IdRef, c: &mut u64) -> Result<(), String> {
	macro_rules! all {
		($exp:expr; $($what:literal => $e:expr),* $(,)?) => {
			$( *c += 1; ensure_eq!($e, $exp, $what); )*
		};
	}
	all!(*t;
		"Id" => v_id(&id),
		"Id::as_ref" => v_id_ref(id.as_ref()),
		"Id::as_cow" => v_id_cow(&id.as_cow()),
		"IdRef::to_owned" => v_id(&r.to_owned()),
		"IdRef::into_owned" => v_id(&r.into_owned()),
	);
	let exp = match t {
		T::Iri(_) => Some(t.clone()),
		_ => None,
	};
	all!(exp; "Id::as_iri" => id.as_iri().map(|i| T::Iri(i.as_str().into())));
	Ok(())
}

fn blank_forms(t: &T, b: &BlankIdBuf, c: &mut u64) -> Result<(), String> {
	let T::Blank(s) = t else { unreachable!() };
	let r: &BlankId = b;
	for (what, got) in [
		("BlankIdBuf::as_blank_id_ref", b.as_blank_id_ref().as_str()),
		("AsRef<BlankId>", <BlankIdBuf as AsRef<BlankId>>::as_ref(b).as_str()),
		("Borrow<BlankId>", <BlankIdBuf as Borrow<BlankId>>::borrow(b).as_str()),
		("From<&BlankIdBuf>", <&BlankId>::from(b).as_str()),
		("AsRef<str>", <BlankIdBuf as AsRef<str>>::as_ref(b)),
		("Borrow<str>", <BlankIdBuf as Borrow<str>>::borrow(b)),
		("BlankId AsRef<str>", <BlankId as AsRef<str>>::as_ref(r)),
		("BlankId Borrow<str>", <BlankId as Borrow<str>>::borrow(r)),
		("BlankId deref", r),
		("BlankId::to_owned", r.to_owned().as_str()),
	] {
		*c += 1;
		ensure_eq!(got, s.as_str(), "{what}");
	}
	ensure_eq!(fp(b), fp(&r), "hash of a BlankIdBuf and of its BlankId");
	ensure_eq!(fp(&r), fp(&s.as_str()), "hash of a BlankId and of the string it borrows as");
	id_forms(t, Id::BlankId(b.clone()), IdRef::BlankId(b), c)
}

// ------------------------------------------------------------------- pairs

/// Checks one comparable combination of forms.
fn rel<A, B>(what: &str, a: &A, b: &B, eq: bool, ord: Ordering, c: &mut u64) -> Result<(), String>
where
	A: PartialEq<B> + PartialOrd<B> + Debug + ?Sized,
	B: Debug + ?Sized,
{
	ensure!((a == b) == eq, "{what}: {a:?} == {b:?} is {}, expected {eq}", a == b);
	ensure!((a != b) != eq, "{what}: {a:?} != {b:?} is {}, expected {}", a != b, !eq);
	let o = a.partial_cmp(b);
	ensure!(o == Some(ord), "{what}: {a:?} partial_cmp {b:?} is {o:?}, expected {ord:?}");
	let ops = (a < b, a <= b, a > b, a >= b);
	let exp = (ord.is_lt(), ord.is_le(), ord.is_gt(), ord.is_ge());
	ensure!(ops == exp, "{what}: {a:?} and {b:?}: (<, <=, >, >=) is {ops:?}, expected {exp:?}");
	*c += 7;
	Ok(())
}

fn total<A: Ord + Debug>(what: &str, a: &A, b: &A, eq: bool, ord: Ordering, c: &mut u64) -> Result<(), String> {
	rel(what, a, b, eq, ord, c)?;
	let o = a.cmp(b);
	ensure!(o == ord, "{what}: {a:?} cmp {b:?} is {o:?}, expected {ord:?}");
	*c += 1;
	Ok(())
}

fn hashes<A: Hash + ?Sized, B: Hash + ?Sized>(what: &str, a: &A, b: &B, c: &mut u64) -> Result<(), String> {
	*c += 1;
	ensure!(fp(&a) == fp(&b), "{what}: equal values hash differently");
	Ok(())
}

fn pair(ta: &T, tb: &T, c: &mut u64) -> Result<(), String> {
	let (a, b) = (build(ta), build(tb));
	let eq = model_eq(ta, tb);
	// The owned form's order is the reference; that it is an order is checked
	// on all pairs and triples.
	let ord = a.cmp(&b);
	ensure!((ord == Ordering::Equal) == eq, "LocalTerm {a:?} cmp {b:?} is {ord:?}, while equality is {eq}");
	ensure!(b.cmp(&a) == ord.reverse(), "LocalTerm order of {a:?} and {b:?} is not antisymmetric");
	total("LocalTerm/LocalTerm", &a, &b, eq, ord, c)?;
	let (ar, br) = (a.as_ref(), b.as_ref());
	total("LocalTermRef/LocalTermRef", &ar, &br, eq, ord, c)?;
	rel("LocalTermRef/LocalTerm", &ar, &b, eq, ord, c)?;
	if eq {
		hashes("LocalTerm", &a, &b, c)?;
	}
	if let (LocalTerm::Named(a), LocalTerm::Named(b)) = (&a, &b) {
		let ord = a.cmp(b);
		ensure!(b.cmp(a) == ord.reverse(), "Term order of {a:?} and {b:?} is not antisymmetric");
		total("Term/Term", a, b, eq, ord, c)?;
		total("TermRef/TermRef", &a.as_ref(), &b.as_ref(), eq, ord, c)?;
		rel("TermRef/Term", &a.as_ref(), b, eq, ord, c)?;
		if eq {
			hashes("Term", a, b, c)?;
		}
		if let (Term::Literal(a), Term::Literal(b)) = (a, b) {
			literal_pair(a, b, eq, c)?;
		}
	}
	if let (Some(ia), Some(ib)) = (to_id(&a), to_id(&b)) {
		let (ra, rb) = (ia.as_ref(), ib.as_ref());
		let ord = ra.cmp(&rb);
		ensure!((ord == Ordering::Equal) == eq && rb.cmp(&ra) == ord.reverse(), "IdRef order of {ra:?} and {rb:?}");
		total("IdRef/IdRef", &ra, &rb, eq, ord, c)?;
	}
	if let (LocalTerm::Anonymous(a), LocalTerm::Anonymous(b)) = (&a, &b) {
		let ord = a.cmp(b);
		let (ra, rb): (&BlankId, &BlankId) = (a, b);
		total("BlankIdBuf/BlankIdBuf", a, b, eq, ord, c)?;
		total("&BlankId/&BlankId", &ra, &rb, eq, ord, c)?;
		ensure_eq!(a == rb, eq, "BlankIdBuf == BlankId");
		ensure_eq!(*a == *rb, eq, "BlankIdBuf == BlankId");
		ensure_eq!(ra == b, eq, "BlankId == BlankIdBuf");
		ensure_eq!(*ra == *b, eq, "BlankId == BlankIdBuf");
		ensure_eq!(*a == rb, eq, "BlankIdBuf == &BlankId");
		ensure_eq!(ra == *b, eq, "&BlankId == BlankIdBuf");
		ensure_eq!(*a != rb, !eq, "BlankIdBuf != &BlankId");
		ensure_eq!(ra != *b, !eq, "&BlankId != BlankIdBuf");
		ensure_eq!(*ra == *b.as_str(), eq, "BlankId == str");
		ensure_eq!(ra.as_str().cmp(rb.as_str()), ord, "BlankId order and the order of the strings it borrows as");
		*c += 10;
	}
	Ok(())
}

fn to_id(t: &LocalTerm) -> Option<Id> {
	match t {
		LocalTerm::Anonymous(b) => Some(Id::BlankId(b.clone())),
		LocalTerm::Named(Term::Iri(i)) => Some(Id::Iri(i.clone())),
		_ => None,
	}
}

fn literal_pair(a: &Literal, b: &Literal, eq: bool, c: &mut u64) -> Result<(), String> {
	let ord = a.cmp(b);
	ensure!(
		(ord == Ordering::Equal) == eq && b.cmp(a) == ord.reverse(),
		"Literal {a:?} cmp {b:?} is {ord:?}, equality is {eq}"
	);
	let (ar, br) = (a.as_ref(), b.as_ref());
	let (ac, bc) = (a.as_cow(), b.clone().into_cow());
	total("Literal/Literal", a, b, eq, ord, c)?;
	total("LiteralRef/LiteralRef", &ar, &br, eq, ord, c)?;
	total("CowLiteral/CowLiteral", &ac, &bc, eq, ord, c)?;
	total("CowLiteral(owned)/CowLiteral", &a.clone().into_cow(), &b.as_cow(), eq, ord, c)?;
	rel("Literal/LiteralRef", a, &br, eq, ord, c)?;
	rel("LiteralRef/Literal", &ar, b, eq, ord, c)?;
	ensure_eq!(equivalent::Equivalent::equivalent(&ar, b), eq, "LiteralRef: Equivalent<Literal>");
	ensure_eq!(equivalent::Equivalent::equivalent(a, b), eq, "Literal: Equivalent<Literal>");
	*c += 2;
	if eq {
		hashes("Literal/Literal", a, b, c)?;
		hashes("Literal/LiteralRef", a, &br, c)?;
		hashes("Literal/CowLiteral", a, &bc, c)?;
		hashes("LiteralRef/CowLiteral", &ar, &ac, c)?;
	}
	let (x, y) = (&a.type_, &b.type_);
	let teq = match (v_type(x), v_type(y)) {
		((true, p), (true, q)) => p.eq_ignore_ascii_case(&q),
		(p, q) => p == q,
	};
	let tord = x.cmp(y);
	ensure!(
		(tord == Ordering::Equal) == teq && y.cmp(x) == tord.reverse(),
		"LiteralType {x:?} cmp {y:?} is {tord:?}, equality is {teq}"
	);
	let (xr, yr) = (x.as_ref(), y.as_ref());
	total("LiteralType/LiteralType", x, y, teq, tord, c)?;
	total("LiteralTypeRef/LiteralTypeRef", &xr, &yr, teq, tord, c)?;
	total("CowLiteralType/CowLiteralType", &x.as_cow(), &y.clone().into_cow(), teq, tord, c)?;
	rel("LiteralType/LiteralTypeRef", x, &yr, teq, tord, c)?;
	rel("LiteralTypeRef/LiteralType", &xr, y, teq, tord, c)?;
	if teq {
		hashes("LiteralType/LiteralType", x, y, c)?;
		hashes("LiteralType/LiteralTypeRef", x, &yr, c)?;
		hashes("LiteralType/CowLiteralType", x, &y.as_cow(), c)?;
	}
	Ok(())
}

/// No cycle in the order of three values of the same type.
fn chain<A: Ord + Debug>(a: &A, b: &A, x: &A) -> Result<(), String> {
	if a.cmp(b).is_le() && b.cmp(x).is_le() {
		ensure!(a.cmp(x).is_le(), "order is not transitive: {a:?} <= {b:?} <= {x:?} but not {a:?} <= {x:?}");
	}
	if a == b && b == x {
		ensure!(a == x, "equality is not transitive on {a:?}, {b:?}, {x:?}");
	}
	Ok(())
}

fn run(ctx: &mut Ctx) {
	let terms = corpus(ctx.quick());
	let built: Vec<LocalTerm> = terms.iter().map(build).collect();
	let n = terms.len();
	ctx.space("every term in every form", n, |j, l| {
		let t = &terms[j];
		l.case(|| format!("{t:?}"));
		l.sample(|| format!("{t:?}"));
		l.states += 1;
		l.traces += 1;
		l.outcome(fp(t));
		let mut c = 0;
		let r = guard_check(|| single(t, &mut c));
		l.checks += c;
		l.transitions += c;
		r.map_err(|m| Fail::new(format!("{t:?}"), m))
	});
	let near = crate::print::near_types();
	ctx.space("datatypes close to xsd:string", near.len(), |j, l| {
		for v in ["", "a", "en"] {
			let t = T::Lit(v.into(), near[j].clone());
			let x = T::Lit(v.into(), XSD.into());
			l.case(|| format!("{t:?}"));
			l.sample(|| format!("{t:?}"));
			l.states += 1;
			l.traces += 1;
			l.outcome(fp(&t));
			let mut c = 0;
			let r = guard_check(|| {
				single(&t, &mut c)?;
				pair(&t, &x, &mut c)?;
				pair(&x, &t, &mut c)
			});
			l.checks += c;
			l.transitions += c;
			r.map_err(|m| Fail::new(format!("{t:?} (and {x:?})"), m))?;
		}
		Ok(())
	});
	// Terms that a shortcut in a comparison would take for each other: long
	// common beginnings and endings, spellings of one text or number.
	let mut words: Vec<String> = Vec::new();
	for k in [7usize, 8, 15, 16, 31, 32, 63, 64, 255, 256, 1024].into_iter().take(if ctx.quick() { 9 } else { 11 }) {
		let pad = "a".repeat(k);
		words.extend([pad.clone(), format!("{pad}b"), format!("b{pad}"), format!("{pad}\u{e9}"), format!("{pad}b{pad}")]);
	}
	for w in [
		"e\u{301}", "\u{e9}", "k", "K", "\u{212a}", "s", "\u{17f}", "ss", "\u{df}", "1", "01", "+1", "1.0", "1e0", "true", "TRUE",
		"1.", "a-b", "a_b",
	] {
		words.push(w.into());
	}
	let mut alike: Vec<T> = Vec::new();
	for w in &words {
		alike.push(T::Lit(w.clone(), XSD.into()));
		alike.push(T::Iri(format!("http://e/{w}")));
		alike.push(T::Lit("a".into(), format!("http://e/{w}")));
		if crate::blank::valid(&format!("_:{w}")) {
			alike.push(T::Blank(format!("_:{w}")));
		}
	}
	for w in [" ", "a ", " a", "a\n", "a\r\n", "a\t", "\u{feff}a", "\u{a0}", "a\0"] {
		alike.push(T::Lit(w.into(), XSD.into()));
		alike.push(T::Lang(w.into(), "en".into()));
	}
	for t in ["integer", "decimal", "boolean", "int", "double"] {
		for w in ["1", "01", "1.0", "true", "+1"] {
			alike.push(T::Lit(w.into(), format!("http://www.w3.org/2001/XMLSchema#{t}")));
		}
	}
	for t in ["en", "en-a-bbb", "en-GB", "en-GB-x-a", "eng", "en-Latn", "en-Latn-GB", "x-en"] {
		alike.push(T::Lang("colour".into(), t.into()));
	}
	let m = alike.len();
	ctx.space(&format!("all pairs of {m} terms that look alike"), m, |j, l| {
		l.case(|| format!("{:?}", alike[j]));
		let mut c = 0;
		guard_check(|| single(&alike[j], &mut c)).map_err(|m| Fail::new(format!("{:?}", alike[j]), m))?;
		for t in &alike {
			l.case(|| format!("{:?} / {t:?}", alike[j]));
			l.states += 1;
			l.outcome(fp(&(&alike[j], t)));
			guard_check(|| pair(&alike[j], t, &mut c)).map_err(|m| Fail::new(format!("{:?} / {t:?}", alike[j]), m))?;
		}
		l.sample(|| format!("{:?}", alike[j]));
		l.traces += 1;
		l.checks += c;
		l.transitions += c;
		Ok(())
	});
	ctx.space("every pair of terms in every combination of forms", n, |j, l| {
		for t in &terms {
			l.case(|| format!("{:?} / {t:?}", terms[j]));
			l.sample(|| format!("{:?} / {t:?}", terms[j]));
			l.states += 1;
			l.outcome(fp(&(&terms[j], t)));
			let mut c = 0;
			let r = guard_check(|| pair(&terms[j], t, &mut c));
			l.checks += c;
			l.transitions += c;
			r.map_err(|m| Fail::new(format!("{:?} / {t:?}", terms[j]), m))?;
		}
		Ok(())
	});
	ctx.space("every triple of terms", n, |j, l| {
		let a = &built[j];
		let ar = a.as_ref();
		for b in &built {
			l.case(|| format!("{a:?} / {b:?}"));
			let br = b.as_ref();
			for x in &built {
				l.states += 1;
				l.checks += 2;
				chain(a, b, x).map_err(|m| Fail::new(format!("{a:?} / {b:?} / {x:?}"), m))?;
				chain(&ar, &br, &x.as_ref()).map_err(|m| Fail::new(format!("{a:?} / {b:?} / {x:?}"), m))?;
				if let (LocalTerm::Named(a), LocalTerm::Named(b), LocalTerm::Named(x)) = (a, b, x) {
					l.checks += 1;
					chain(a, b, x).map_err(|m| Fail::new(format!("{a:?} / {b:?} / {x:?}"), m))?;
					if let (Term::Literal(a), Term::Literal(b), Term::Literal(x)) = (a, b, x) {
						l.checks += 2;
						chain(a, b, x).map_err(|m| Fail::new(format!("{a:?} / {b:?} / {x:?}"), m))?;
						chain(&a.type_, &b.type_, &x.type_)
							.map_err(|m| Fail::new(format!("{a:?} / {b:?} / {x:?}"), m))?;
					}
				}
			}
		}
		Ok(())
	});
}
