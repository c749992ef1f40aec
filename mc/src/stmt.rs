//! C21: triples and quads keep every component in place.
//!
//! Spaces:
//! - `typed`: every triple/quad whose four components have four different
//!   types, through every accessor, projection, mapping and conversion once;
//! - `histories`: every sequence of component operations (mutation through
//!   the `*_mut` accessors, maps, adding/removing/replacing the graph,
//!   borrowing, splitting, rebuilding) up to a depth, from every quad, against
//!   a four-cell model;
//! - `order`: every pair of statements over components with a partial,
//!   cross-type comparison, owned and borrowed, plus sorting;
//! - `lexical`: owned/borrowed lexical statements over a term corpus.
use crate::engine::{fp, guard_check, Ctx, Fail};
use crate::{ensure_eq, PropSpec};
use rdf_types::{
	BlankIdBuf, CowId, Id, IdRef, IriBuf, Literal, LiteralType, LocalTerm, Quad, RdfQuad, Term, Triple,
};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

macro_rules! comp {
	($($n:ident),*) => {$(
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
		struct $n(u8);
	)*};
}
comp!(S, P, O, G, U, V, W, X);

/// Component that is `Clone` but not `Copy`, with a visible clone count.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct K(u8);
impl Clone for K {
	fn clone(&self) -> Self {
		K(self.0)
	}
}

fn hash<T: Hash>(t: &T) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

type Q4 = (u8, u8, u8, Option<u8>);

fn quads(n: u8) -> Vec<Q4> {
	let mut v = Vec::new();
	for s in 0..n {
		for p in 0..n {
			for o in 0..n {
				v.push((s, p, o, None));
				for g in 0..n {
					v.push((s, p, o, Some(g)));
				}
			}
		}
	}
	v
}

#[allow(deprecated)]
fn typed((s, p, o, g): Q4, n: &mut u64) -> Result<(), String> {
	macro_rules! eq {
		($a:expr, $b:expr) => {{
			*n += 1;
			ensure_eq!($a, $b, "{}", stringify!($a));
		}};
	}
	let gg = g.map(G);
	let (a, b, c) = (S(s), P(p), O(o));
	// Triples.
	let t = Triple::new(a, b, c);
	eq!((t.0, t.1, t.2), (a, b, c));
	eq!(t.subject(), &a);
	eq!(t.predicate(), &b);
	eq!(t.object(), &c);
	eq!(t.into_subject(), a);
	eq!(t.into_predicate(), b);
	eq!(t.into_object(), c);
	eq!(t.into_parts(), (a, b, c));
	eq!(t.clone().into_parts(), (a, b, c));
	let q = t.into_quad(gg);
	eq!((q.0, q.1, q.2, q.3), (a, b, c, gg));
	let r = t.as_ref();
	eq!((*r.0, *r.1, *r.2), (a, b, c));
	eq!(r.cloned().into_parts(), (a, b, c));
	eq!(r.into_cloned().into_parts(), (a, b, c));
	eq!(r.copied().into_parts(), (a, b, c));
	eq!(r.into_copied().into_parts(), (a, b, c));
	eq!(hash(&t.as_ref()), hash(&t));
	for x in 0..4u8 {
		let mut m = t;
		*m.subject_mut() = S(x);
		eq!((m.0, m.1, m.2), (S(x), b, c));
		let mut m = t;
		*m.predicate_mut() = P(x);
		eq!((m.0, m.1, m.2), (a, P(x), c));
		let mut m = t;
		*m.object_mut() = O(x);
		eq!((m.0, m.1, m.2), (a, b, O(x)));
	}
	eq!(t.map_subject(|v| U(v.0 + 9)).into_parts(), (U(s + 9), b, c));
	eq!(t.map_predicate(|v| U(v.0 + 9)).into_parts(), (a, U(p + 9), c));
	eq!(t.map_object(|v| U(v.0 + 9)).into_parts(), (a, b, U(o + 9)));
	let mut calls = Vec::new();
	let m = Triple(K(s), K(p), K(o)).map(|v| {
		calls.push(v.0);
		U(v.0 + 9)
	});
	eq!((m.0, m.1, m.2), (U(s + 9), U(p + 9), U(o + 9)));
	calls.sort();
	let mut want = vec![s, p, o];
	want.sort();
	eq!(calls, want);
	// Quads.
	let q = Quad::new(a, b, c, gg);
	eq!((q.0, q.1, q.2, q.3), (a, b, c, gg));
	eq!(q.subject(), &a);
	eq!(q.predicate(), &b);
	eq!(q.object(), &c);
	eq!(q.graph(), gg.as_ref());
	eq!(q.into_subject(), a);
	eq!(q.into_predicate(), b);
	eq!(q.into_object(), c);
	eq!(q.into_graph(), gg);
	eq!(q.into_parts(), (a, b, c, gg));
	eq!(q.clone().into_parts(), (a, b, c, gg));
	let (t2, g2) = q.into_triple();
	eq!((t2.into_parts(), g2), ((a, b, c), gg));
	eq!(t2.into_quad(g2).into_parts(), (a, b, c, gg));
	for r in [q.as_ref(), q.borrow_components()] {
		eq!((*r.0, *r.1, *r.2, r.3.copied()), (a, b, c, gg));
		eq!(r.cloned().into_parts(), (a, b, c, gg));
		eq!(r.into_cloned().into_parts(), (a, b, c, gg));
		eq!(r.copied().into_parts(), (a, b, c, gg));
		eq!(r.into_copied().into_parts(), (a, b, c, gg));
	}
	eq!(hash(&q.as_ref()), hash(&q));
	for x in 0..4u8 {
		let mut m = q;
		*m.subject_mut() = S(x);
		eq!((m.0, m.1, m.2, m.3), (S(x), b, c, gg));
		let mut m = q;
		*m.predicate_mut() = P(x);
		eq!((m.0, m.1, m.2, m.3), (a, P(x), c, gg));
		let mut m = q;
		*m.object_mut() = O(x);
		eq!((m.0, m.1, m.2, m.3), (a, b, O(x), gg));
		let mut m = q;
		let had = m.graph_mut().map(|g| *g = G(x)).is_some();
		eq!(had, gg.is_some());
		eq!((m.0, m.1, m.2, m.3), (a, b, c, gg.map(|_| G(x))));
		eq!(q.with_graph(Some(G(x))).into_parts(), (a, b, c, Some(G(x))));
		eq!(q.map_graph(|_| Some(X(x))).into_parts(), (a, b, c, Some(X(x))));
	}
	eq!(q.with_graph(None).into_parts(), (a, b, c, None));
	eq!(q.map_graph(|_| None::<X>).into_parts(), (a, b, c, None));
	let mut seen = None;
	let m = q.map_graph(|v| {
		seen = Some(v);
		v.map(|v| X(v.0 + 9))
	});
	eq!(seen, Some(gg));
	eq!(m.into_parts(), (a, b, c, g.map(|g| X(g + 9))));
	eq!(q.map_subject(|v| U(v.0 + 9)).into_parts(), (U(s + 9), b, c, gg));
	eq!(q.map_predicate(|v| U(v.0 + 9)).into_parts(), (a, U(p + 9), c, gg));
	eq!(q.map_object(|v| U(v.0 + 9)).into_parts(), (a, b, U(o + 9), gg));
	let m = q.map_all(
		|v| U(v.0 + 9),
		|v| V(v.0 + 19),
		|v| W(v.0 + 29),
		|v| v.map(|v| X(v.0 + 39)),
	);
	eq!(
		m.into_parts(),
		(U(s + 9), V(p + 19), W(o + 29), g.map(|g| X(g + 39)))
	);
	for h in [None, Some(X(0)), Some(X(7))] {
		let m = q.map_all(|v| v, |v| v, |v| v, |_| h);
		eq!(m.into_parts(), (a, b, c, h));
	}
	let mut calls = Vec::new();
	let m = Quad(K(s), K(p), K(o), g.map(K)).map(|v| {
		calls.push(v.0);
		U(v.0 + 9)
	});
	eq!(
		(m.0, m.1, m.2, m.3),
		(U(s + 9), U(p + 9), U(o + 9), g.map(|g| U(g + 9)))
	);
	calls.sort();
	let mut want: Vec<u8> = [s, p, o].into_iter().chain(g).collect();
	want.sort();
	eq!(calls, want);
	let k = Quad(K(s), K(p), K(o), g.map(K));
	eq!(k.clone(), k);
	eq!(k.as_ref().cloned(), k);
	eq!(k.as_ref().into_cloned(), k);
	let k = Triple(K(s), K(p), K(o));
	eq!(k.clone(), k);
	eq!(k.as_ref().cloned(), k);
	eq!(k.as_ref().into_cloned(), k);
	Ok(())
}

type Hq = Quad<u8, u8, u8, u8>;

const OPS: usize = 22;

/// Applies operation `i` with parameter `x` to the statement and to its model.
#[allow(deprecated)]
fn apply(i: usize, x: u8, mut q: Hq, m: &mut Q4) -> Hq {
	let f = |v: u8| (v + x + 1) % 3;
	match i {
		0 => {
			*q.subject_mut() = x;
			m.0 = x;
			q
		}
		1 => {
			*q.predicate_mut() = x;
			m.1 = x;
			q
		}
		2 => {
			*q.object_mut() = x;
			m.2 = x;
			q
		}
		3 => {
			if let Some(g) = q.graph_mut() {
				*g = x
			}
			m.3 = m.3.map(|_| x);
			q
		}
		4 => {
			m.0 = f(m.0);
			q.map_subject(f)
		}
		5 => {
			m.1 = f(m.1);
			q.map_predicate(f)
		}
		6 => {
			m.2 = f(m.2);
			q.map_object(f)
		}
		7 => {
			m.3 = m.3.map(f);
			q.map_graph(|g| g.map(f))
		}
		8 => {
			m.3 = if m.3.is_none() { Some(x) } else { None };
			q.map_graph(|g| if g.is_none() { Some(x) } else { None })
		}
		9 => {
			m.3 = Some(x);
			q.with_graph(Some(x))
		}
		10 => {
			m.3 = None;
			q.with_graph(None)
		}
		11 => {
			*m = (f(m.0), f(m.1), f(m.2), m.3.map(f));
			q.map(f)
		}
		12 => {
			*m = (f(m.0), m.1, (m.2 + 1) % 3, Some(x));
			q.map_all(f, |p| p, |o| (o + 1) % 3, |_| Some(x))
		}
		13 => {
			let (t, g) = q.into_triple();
			t.into_quad(g)
		}
		14 => {
			m.3 = Some(x);
			q.into_triple().0.into_quad(Some(x))
		}
		15 => {
			let (t, g) = q.into_triple();
			*m = (f(m.0), f(m.1), f(m.2), m.3);
			t.map(f).into_quad(g)
		}
		16 => {
			let (mut t, g) = q.into_triple();
			*t.predicate_mut() = x;
			m.1 = x;
			t.into_quad(g)
		}
		17 => q.as_ref().cloned(),
		18 => q.borrow_components().into_copied(),
		19 => {
			let (t, g) = q.into_triple();
			t.as_ref().into_cloned().into_quad(g)
		}
		20 => {
			let (s, p, o, g) = q.into_parts();
			// Rotate the components through the constructor.
			*m = (m.1, m.2, m.0, m.3);
			Quad::new(p, o, s, g)
		}
		_ => {
			let (t, g) = q.into_triple();
			let (s, p, o) = t.into_parts();
			*m = (m.2, m.0, m.1, m.3);
			Triple::new(o, s, p).into_quad(g)
		}
	}
}

fn same(q: &Hq, m: &Q4) -> Result<(), String> {
	ensure_eq!((q.0, q.1, q.2, q.3), *m, "components");
	ensure_eq!(
		(*q.subject(), *q.predicate(), *q.object(), q.graph().copied()),
		*m,
		"accessors"
	);
	ensure_eq!(*q, Quad(m.0, m.1, m.2, m.3), "equality");
	Ok(())
}

fn histories(
	q: Hq,
	m: Q4,
	left: usize,
	trace: &mut Vec<(usize, u8)>,
	l: &mut crate::engine::Local,
) -> Result<(), Fail> {
	l.states += 1;
	l.checks += 3;
	same(&q, &m).map_err(|e| Fail::new(format!("operations {trace:?} reaching {m:?}"), e))?;
	l.outcome(fp(&m));
	if left == 0 {
		l.traces += 1;
		return Ok(());
	}
	for i in 0..OPS {
		for x in 0..2u8 {
			trace.push((i, x));
			let mut m2 = m;
			let r = crate::engine::guard(|| apply(i, x, q, &mut m2));
			l.transitions += 1;
			let q2 = r.map_err(|e| Fail::new(format!("operations {trace:?} from {m:?}"), e))?;
			histories(q2, m2, left - 1, trace, l)?;
			trace.pop();
		}
	}
	Ok(())
}

/// Left and right component types, comparable with each other only. The value
/// 2 is incomparable with (and different from) everything else, itself
/// included.
#[derive(Clone, Copy, Debug)]
struct Lc(u8);
#[derive(Clone, Copy, Debug)]
struct Rc(u8);
fn pcmp(a: u8, b: u8) -> Option<Ordering> {
	(a != 2 && b != 2).then(|| a.cmp(&b))
}
impl PartialEq<Rc> for Lc {
	fn eq(&self, o: &Rc) -> bool {
		pcmp(self.0, o.0) == Some(Ordering::Equal)
	}
}
impl PartialOrd<Rc> for Lc {
	fn partial_cmp(&self, o: &Rc) -> Option<Ordering> {
		pcmp(self.0, o.0)
	}
}

fn lex(c: [Option<Ordering>; 4]) -> Option<Ordering> {
	for x in c {
		if x != Some(Ordering::Equal) {
			return x;
		}
	}
	Some(Ordering::Equal)
}

fn gcmp(a: Option<u8>, b: Option<u8>, f: fn(u8, u8) -> Option<Ordering>) -> Option<Ordering> {
	match (a, b) {
		(None, None) => Some(Ordering::Equal),
		(None, Some(_)) => Some(Ordering::Less),
		(Some(_), None) => Some(Ordering::Greater),
		(Some(a), Some(b)) => f(a, b),
	}
}

fn order_pair(a: Q4, b: Q4) -> Result<u64, String> {
	let mut n = 0;
	macro_rules! eq {
		($a:expr, $b:expr) => {{
			n += 1;
			ensure_eq!($a, $b, "{}", stringify!($a));
		}};
	}
	// Partial, cross-type comparison.
	let want_t = lex([pcmp(a.0, b.0), pcmp(a.1, b.1), pcmp(a.2, b.2), Some(Ordering::Equal)]);
	let want_q = lex([
		pcmp(a.0, b.0),
		pcmp(a.1, b.1),
		pcmp(a.2, b.2),
		gcmp(a.3, b.3, pcmp),
	]);
	let lt = Triple(Lc(a.0), Lc(a.1), Lc(a.2));
	let rt = Triple(Rc(b.0), Rc(b.1), Rc(b.2));
	eq!(lt.partial_cmp(&rt), want_t);
	eq!(lt == rt, want_t == Some(Ordering::Equal));
	eq!(lt < rt, want_t == Some(Ordering::Less));
	eq!(lt > rt, want_t == Some(Ordering::Greater));
	eq!(lt <= rt, matches!(want_t, Some(Ordering::Less | Ordering::Equal)));
	let lq = Quad(Lc(a.0), Lc(a.1), Lc(a.2), a.3.map(Lc));
	let rq = Quad(Rc(b.0), Rc(b.1), Rc(b.2), b.3.map(Rc));
	eq!(lq.partial_cmp(&rq), want_q);
	eq!(lq == rq, want_q == Some(Ordering::Equal));
	eq!(lq != rq, want_q != Some(Ordering::Equal));
	eq!(lq < rq, want_q == Some(Ordering::Less));
	eq!(lq > rq, want_q == Some(Ordering::Greater));
	eq!(lq >= rq, matches!(want_q, Some(Ordering::Greater | Ordering::Equal)));
	eq!(lq.as_ref().partial_cmp(&rq.as_ref()), want_q);
	eq!(lq.as_ref() == rq.as_ref(), want_q == Some(Ordering::Equal));
	eq!(lt.as_ref().partial_cmp(&rt.as_ref()), want_t);
	eq!(lt.as_ref() == rt.as_ref(), want_t == Some(Ordering::Equal));
	// Total order over totally ordered components.
	let want_t = (a.0, a.1, a.2).cmp(&(b.0, b.1, b.2));
	let want_q = a.cmp(&b);
	let (x, y) = (Triple(S(a.0), P(a.1), O(a.2)), Triple(S(b.0), P(b.1), O(b.2)));
	eq!(x.cmp(&y), want_t);
	eq!(x.partial_cmp(&y), Some(want_t));
	eq!(x == y, want_t == Ordering::Equal);
	eq!(x.as_ref().cmp(&y.as_ref()), want_t);
	if x == y {
		eq!(hash(&x), hash(&y));
	}
	let (x, y) = (
		Quad(S(a.0), P(a.1), O(a.2), a.3.map(G)),
		Quad(S(b.0), P(b.1), O(b.2), b.3.map(G)),
	);
	eq!(x.cmp(&y), want_q);
	eq!(x.partial_cmp(&y), Some(want_q));
	eq!(x == y, want_q == Ordering::Equal);
	eq!(x.as_ref().cmp(&y.as_ref()), want_q);
	eq!(x.as_ref().partial_cmp(&y.as_ref()), Some(want_q));
	if x == y {
		eq!(hash(&x), hash(&y));
	}
	Ok(n)
}

fn terms() -> Vec<LocalTerm> {
	let iri = |s: &str| IriBuf::new(s.to_string()).unwrap();
	let b = |s: &str| BlankIdBuf::from_suffix(s).unwrap();
	vec![
		LocalTerm::Anonymous(b("a")),
		LocalTerm::Anonymous(b("b")),
		LocalTerm::Named(Term::Iri(iri("http://example.org/a"))),
		LocalTerm::Named(Term::Iri(iri("urn:b"))),
		LocalTerm::Named(Term::Literal(Literal::new(
			"a",
			LiteralType::Any(iri("http://example.org/a")),
		))),
		LocalTerm::Named(Term::Literal(Literal::new(
			"b",
			LiteralType::LangString(langtag::LangTagBuf::new("en".to_string()).unwrap()),
		))),
	]
}

/// (is blank, text): all there is to an identifier.
type IdKey = (bool, String);

fn id_of(k: &IdKey) -> Id {
	if k.0 {
		Id::BlankId(BlankIdBuf::new(k.1.clone()).unwrap())
	} else {
		Id::Iri(IriBuf::new(k.1.clone()).unwrap())
	}
}

fn key(i: &Id) -> IdKey {
	match i {
		Id::BlankId(b) => (true, b.as_str().to_string()),
		Id::Iri(i) => (false, i.as_str().to_string()),
	}
}

fn rkey(i: &IdRef) -> IdKey {
	match i {
		IdRef::BlankId(b) => (true, b.as_str().to_string()),
		IdRef::Iri(i) => (false, i.as_str().to_string()),
	}
}

fn ckey(i: &CowId) -> IdKey {
	match i {
		CowId::BlankId(b) => (true, b.as_str().to_string()),
		CowId::Iri(i) => (false, i.as_str().to_string()),
	}
}

fn lexical(
	ids: &[IdKey],
	iris: &[IriBuf],
	ts: &[LocalTerm],
	s: usize,
	n: &mut u64,
	mut case: impl FnMut(String),
) -> Result<u64, (String, String)> {
	let mut count = 0;
	for p in iris {
		for o in ts {
			for g in std::iter::once(None).chain(ids.iter().map(Some)) {
				let sk = &ids[s];
				let name = format!("{sk:?} {p:?} {o:?} {g:?}");
				case(name.clone());
				count += 1;
				let r = guard_check(|| {
					macro_rules! eq {
						($a:expr, $b:expr) => {{
							*n += 1;
							ensure_eq!($a, $b, "{}", stringify!($a));
						}};
					}
					let q: RdfQuad = Quad(id_of(sk), p.clone(), o.clone(), g.map(id_of));
					eq!(key(&q.0), *sk);
					eq!(rkey(&q.0.as_ref()), *sk);
					eq!(ckey(&q.0.as_cow()), *sk);
					eq!(key(&q.0.as_ref().to_owned()), *sk);
					eq!(
						q.0.as_iri().map(|i| i.as_str().to_string()),
						(!sk.0).then(|| sk.1.clone())
					);
					let r = q.as_lexical_quad_ref();
					eq!(rkey(&r.0), *sk);
					eq!(r.1, p.as_iri());
					eq!(r.2.to_owned(), *o);
					eq!(r.3.map(|g| rkey(&g)), g.cloned());
					let back = r.into_owned();
					eq!(
						(key(&back.0), &back.1, &back.2, back.3.as_ref().map(key)),
						(sk.clone(), p, o, g.cloned())
					);
					let (t, _) = q.into_triple();
					let r = t.as_lexical_triple_ref();
					eq!(rkey(&r.0), *sk);
					eq!(r.1, p.as_iri());
					eq!(r.2.to_owned(), *o);
					let back = r.into_owned();
					eq!((key(&back.0), &back.1, &back.2), (sk.clone(), p, o));
					Ok(())
				});
				r.map_err(|e| (name, e))?;
			}
		}
	}
	Ok(count)
}

fn c21(cx: &mut Ctx) {
	let n = cx.pick(6, 8);
	let all = quads(n);
	cx.space("typed", all.len(), |j, l| {
		let q = all[j];
		l.case(|| format!("{q:?}"));
		l.sample(|| format!("{q:?}"));
		let mut k = 0;
		guard_check(|| typed(q, &mut k)).map_err(|e| Fail::new(format!("components {q:?}"), e))?;
		l.states += 1;
		l.traces += 1;
		l.transitions += k;
		l.checks += k;
		l.outcome(fp(&q));
		Ok(())
	});
	let start = quads(2);
	let depth = cx.pick(4, 5);
	cx.space("histories", start.len() * OPS * 2, |j, l| {
		let m = start[j / (OPS * 2)];
		let (i, x) = ((j % (OPS * 2)) / 2, (j % 2) as u8);
		l.case(|| format!("{m:?} then {i}/{x}"));
		l.sample(|| format!("all histories of {depth} operations from {m:?}, first {i}/{x}"));
		let mut m2 = m;
		let q = Quad(m.0, m.1, m.2, m.3);
		let mut trace = vec![(i, x)];
		let q2 = crate::engine::guard(|| apply(i, x, q, &mut m2))
			.map_err(|e| Fail::new(format!("operations {trace:?} from {m:?}"), e))?;
		l.transitions += 1;
		histories(q2, m2, depth - 1, &mut trace, l)
			.map_err(|f| Fail::new(format!("from {m:?}: {}", f.case), f.msg))
	});
	let all = quads(3);
	cx.space("order", all.len(), |j, l| {
		for &b in &all {
			let a = all[j];
			l.case(|| format!("{a:?} vs {b:?}"));
			l.sample(|| format!("{a:?} vs {b:?}"));
			l.states += 1;
			l.traces += 1;
			let mut n = 0;
			guard_check(|| {
				n = order_pair(a, b)?;
				Ok(())
			})
			.map_err(|e| Fail::new(format!("{a:?} vs {b:?}"), e))?;
			l.transitions += n;
			l.checks += n;
		}
		Ok(())
	});
	let ts = terms();
	let ids: Vec<IdKey> = vec![
		(false, "http://example.org/a".into()),
		(false, "urn:b".into()),
		(true, "_:a".into()),
		(true, "_:b".into()),
	];
	let iris: Vec<IriBuf> = ["http://example.org/a", "urn:b", "x:"]
		.iter()
		.map(|s| IriBuf::new(s.to_string()).unwrap())
		.collect();
	cx.space("lexical", ids.len(), |j, l| {
		let mut n = 0;
		let r = lexical(&ids, &iris, &ts, j, &mut n, |c| l.case(|| c));
		l.sample(|| format!("all lexical statements with subject {:?}", ids[j]));
		l.checks += n;
		l.transitions += n;
		let k = r.map_err(|(c, e)| Fail::new(c, e))?;
		l.states += k;
		l.traces += k;
		Ok(())
	});
}

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C21",
		run: c21,
		assumptions: &[
			"the accessors are generic: behaviour on four distinct opaque component types is behaviour on all",
			"the order in which map calls its function is not part of the property",
		],
	});
}
