//! Reference model: elements are tuples of small integers, a container is a
//! sorted set of them.
use rdf_types::{LocalTerm, Quad, Triple};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::sync::OnceLock;

/// A quad of resource numbers. Triples have `g == None`.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Q {
	pub s: u16,
	pub p: u16,
	pub o: u16,
	pub g: Option<u16>,
}

impl Debug for Q {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self.g {
			Some(g) => write!(f, "({} {} {} @{})", self.s, self.p, self.o, g),
			None => write!(f, "({} {} {})", self.s, self.p, self.o),
		}
	}
}

pub fn q(s: u16, p: u16, o: u16, g: Option<u16>) -> Q {
	Q { s, p, o, g }
}

pub type Model = BTreeSet<Q>;

/// A number never used by any universe, for "absent resource" queries.
pub const ABSENT: u16 = 9999;

/// Resource types the containers are instantiated with. `mk` is injective
/// and order-preserving, `idx` its inverse.
pub trait Res: Clone + Ord + std::hash::Hash + Debug + Send + Sync + 'static {
	const NAME: &'static str;
	fn mk(i: u16) -> Self;
	fn idx(&self) -> u16;
}

impl Res for u32 {
	const NAME: &'static str = "u32";
	fn mk(i: u16) -> Self {
		i as u32 * 3 + 1
	}
	fn idx(&self) -> u16 {
		((*self - 1) / 3) as u16
	}
}

/// Owned text: exercises drop/clone of heap resources.
impl Res for String {
	const NAME: &'static str = "String";
	fn mk(i: u16) -> Self {
		format!("r{i:05}")
	}
	fn idx(&self) -> u16 {
		self[1..].parse().unwrap()
	}
}

fn term_table() -> &'static Vec<LocalTerm> {
	static T: OnceLock<Vec<LocalTerm>> = OnceLock::new();
	T.get_or_init(|| {
		use rdf_types::{BlankIdBuf, Literal, LiteralType, Term};
		use rdf_types::IriBuf;
		let iri = |s: &str| IriBuf::new(s.to_string()).unwrap();
		let mut v = vec![
			LocalTerm::Named(Term::Iri(iri("http://a/x"))),
			LocalTerm::Anonymous(BlankIdBuf::new("_:x".to_string()).unwrap()),
			LocalTerm::Named(Term::Literal(Literal::new(
				"x".to_string(),
				LiteralType::Any(iri("http://a/x")),
			))),
			LocalTerm::Named(Term::Literal(Literal::new(
				"x".to_string(),
				LiteralType::LangString(langtag::LangTagBuf::new("en".to_string()).unwrap()),
			))),
			LocalTerm::Named(Term::Iri(iri("http://a/y"))),
			LocalTerm::Anonymous(BlankIdBuf::new("_:y".to_string()).unwrap()),
		];
		// `mk` must be order-preserving for whatever total order the type has.
		v.sort();
		v
	})
}

impl Res for LocalTerm {
	const NAME: &'static str = "LocalTerm";
	fn mk(i: u16) -> Self {
		if i == ABSENT {
			LocalTerm::Anonymous(rdf_types::BlankIdBuf::new("_:absent".to_string()).unwrap())
		} else {
			term_table()[i as usize].clone()
		}
	}
	fn idx(&self) -> u16 {
		term_table()
			.iter()
			.position(|t| t == self)
			.map(|i| i as u16)
			.unwrap_or(ABSENT)
	}
}

pub fn mk_triple<R: Res>(e: Q) -> Triple<R> {
	Triple(R::mk(e.s), R::mk(e.p), R::mk(e.o))
}

pub fn mk_quad<R: Res>(e: Q) -> Quad<R> {
	Quad(R::mk(e.s), R::mk(e.p), R::mk(e.o), e.g.map(R::mk))
}

pub fn of_triple<R: Res>(t: Triple<&R>) -> Q {
	q(t.0.idx(), t.1.idx(), t.2.idx(), None)
}

pub fn of_quad<R: Res>(t: Quad<&R>) -> Q {
	q(t.0.idx(), t.1.idx(), t.2.idx(), t.3.map(|g| g.idx()))
}

/// All triples over resources `0..n`.
pub fn triples(n: u16) -> Vec<Q> {
	let mut v = Vec::new();
	for s in 0..n {
		for p in 0..n {
			for o in 0..n {
				v.push(q(s, p, o, None));
			}
		}
	}
	v
}

/// All quads over resources `0..n`, graph in default + `0..n`.
pub fn quads(n: u16) -> Vec<Q> {
	let mut v = Vec::new();
	for t in triples(n) {
		v.push(t);
		for g in 0..n {
			v.push(q(t.s, t.p, t.o, Some(g)));
		}
	}
	v
}

pub fn m_resources(m: &Model) -> BTreeSet<u16> {
	m.iter()
		.flat_map(|e| [Some(e.s), Some(e.p), Some(e.o), e.g])
		.flatten()
		.collect()
}
