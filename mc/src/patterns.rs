//! C13 (construction and reading of canonical patterns), C14 (fixing a
//! component), C15 (pattern maps).
use crate::engine::*;
use crate::model::*;
use crate::pats::*;
use crate::{ensure, ensure_eq, PropSpec};
use rdf_types::pattern::quad::canonical as qc;
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::triple::map as tm;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern, ResourceOrVar, TriplePatternMap};
use rdf_types::{Quad, Triple};
use std::collections::BTreeSet;
use std::fmt::Debug;

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C13",
		run: run13,
		assumptions: &[
			"every pattern over the stated number of resources and variables, its meaning compared on every triple/quad over the resources plus one not mentioned",
			"a triple (with or without optional components) taken as a quad pattern leaves the graph unconstrained; a triple pattern with variables taken as a quad pattern means the default graph",
		],
	});
	v.push(PropSpec {
		id: "C14",
		run: run14,
		assumptions: &["every canonical triple pattern over the stated resources, every sequence of set operations of the stated length, oracle: substitution in the pattern with explicit variables"],
	});
	v.push(PropSpec {
		id: "C15",
		run: run15,
		assumptions: &["oracle: list of (pattern, value) pairs filtered by the meaning of patterns"],
	});
}

fn all_quads(n: u16) -> Vec<Q> {
	let mut v = Vec::new();
	for s in 0..n {
		for p in 0..n {
			for o in 0..n {
				v.push(q(s, p, o, None));
				for g in 0..n {
					v.push(q(s, p, o, Some(g)));
				}
			}
		}
	}
	v
}

fn all_triples(n: u16) -> Vec<Q> {
	all_quads(n).into_iter().filter(|e| e.g.is_none()).collect()
}

// ------------------------------------------------- reading through accessors

fn name(x: u16) -> String {
	format!("r{x}")
}
fn unname(s: &str) -> u16 {
	s[1..].parse().unwrap()
}

macro_rules! accessor_comps {
	($m:ident, $s:ident, $p:ident, $o:ident) => {
		fn $s<T>(c: &$m::PatternSubject<T>, f: &impl Fn(&T) -> u16) -> Result<C, String> {
			let r = match c {
				$m::PatternSubject::Any => C::Any,
				$m::PatternSubject::Given(x) => C::Given(f(x)),
			};
			ids(r, c.id().map(f))
		}
		fn $p<T>(c: &$m::PatternPredicate<T>, f: &impl Fn(&T) -> u16) -> Result<C, String> {
			let r = match c {
				$m::PatternPredicate::Any => C::Any,
				$m::PatternPredicate::SameAsSubject => C::SameS,
				$m::PatternPredicate::Given(x) => C::Given(f(x)),
			};
			ids(r, c.id().map(f))
		}
		fn $o<T>(c: &$m::PatternObject<T>, f: &impl Fn(&T) -> u16) -> Result<C, String> {
			let r = match c {
				$m::PatternObject::Any => C::Any,
				$m::PatternObject::SameAsSubject => C::SameS,
				$m::PatternObject::SameAsPredicate => C::SameP,
				$m::PatternObject::Given(x) => C::Given(f(x)),
			};
			ids(r, c.id().map(f))
		}
	};
}

fn ids(c: C, id: Option<u16>) -> Result<C, String> {
	let want = match c {
		C::Given(x) => Some(x),
		_ => None,
	};
	ensure_eq!(id, want, "id() of the constraint {c:?}");
	Ok(c)
}

accessor_comps!(qc, qs, qp, qo);
accessor_comps!(tc, ts, tp, to);

fn qg<T>(c: &qc::PatternGraph<T>, f: &impl Fn(&T) -> u16) -> C {
	match c {
		qc::PatternGraph::Any => C::Any,
		qc::PatternGraph::SameAsSubject => C::SameS,
		qc::PatternGraph::SameAsPredicate => C::SameP,
		qc::PatternGraph::SameAsObject => C::SameO,
		qc::PatternGraph::Given(None) => C::Default,
		qc::PatternGraph::Given(Some(x)) => C::Given(f(x)),
	}
}

/// Checks that every component in `got` is a constraint equivalent to the one
/// in `want`, as patterns, on all of `univ`.
fn same_meaning(got: &Pat, want: &dyn Fn(Q) -> bool, univ: &[Q], what: &str, l: &mut Local) -> Result<(), String> {
	for &e in univ {
		l.checks += 1;
		if accepts(got, e) != want(e) {
			return Err(format!(
				"{what} is {got:?}, which {} {e:?}",
				if want(e) { "rejects" } else { "accepts" }
			));
		}
	}
	Ok(())
}

/// Everything readable from a canonical quad pattern means `want`.
fn check_quad_pattern(
	pt: &CanonicalQuadPattern<String>,
	want: &dyn Fn(Q) -> bool,
	univ: &[Q],
	n: u16,
	l: &mut Local,
) -> Result<(), String> {
	l.states += 1;
	let f = |x: &String| unname(x);
	let fr = |x: &&String| unname(x);
	let direct = read_quad(pt, f);
	same_meaning(&direct, want, univ, "the pattern", l)?;
	l.outcome(fp(&direct));
	// Borrowing accessors.
	let got = Pat {
		s: qs(&pt.subject(), &fr)?,
		p: qp(&pt.predicate(), &fr)?,
		o: qo(&pt.object(), &fr)?,
		g: qg(&pt.graph(), &fr),
	};
	same_meaning(&got, want, univ, "subject()..graph()", l)?;
	let got = Pat {
		s: qs(&pt.subject().cloned(), &f)?,
		p: qp(&pt.predicate().cloned(), &f)?,
		o: qo(&pt.object().cloned(), &f)?,
		g: qg(&pt.graph(), &fr),
	};
	same_meaning(&got, want, univ, "cloned components", l)?;
	// Owning accessors.
	let (a, b, c, d) = (pt.clone(), pt.clone(), pt.clone(), pt.clone());
	let (s, p, o, g) = (a.into_subject(), b.into_predicate(), c.into_object(), d.into_graph());
	let got = Pat { s: qs(&s, &f)?, p: qp(&p, &f)?, o: qo(&o, &f)?, g: qg(&g, &f) };
	same_meaning(&got, want, univ, "into_subject()..into_graph()", l)?;
	for (x, c) in [(s.into_id(), got.s), (p.into_id(), got.p), (o.into_id(), got.o)] {
		ids(c, x.as_ref().map(f))?;
	}
	let (s, p, o, g) = pt.clone().into_parts();
	let got = Pat { s: qs(&s, &f)?, p: qp(&p, &f)?, o: qo(&o, &f)?, g: qg(&g, &f) };
	same_meaning(&got, want, univ, "into_parts()", l)?;
	// The object filter looks at the object only.
	for &e in univ.iter().filter(|e| e.g.is_none()) {
		let t = Triple(name(e.s), name(e.p), name(e.o));
		let only = Pat { s: C::Any, p: C::Any, o: got.o, g: C::Any };
		ensure_eq!(o.filter_triple(t), accepts(&only, e), "filter_triple of {:?} on {e:?}", got.o);
		l.checks += 1;
	}
	// Triple pattern and graph constraint.
	let (t, g) = pt.clone().into_triple();
	let tp = read_triple(&t, f);
	let got = Pat { g: qg(&g, &f), ..tp };
	same_meaning(&got, want, univ, "into_triple()", l)?;
	let any = t.with_any_graph();
	let got = read_quad(&any, f);
	same_meaning(&got, &|e| accepts(&Pat { g: C::Any, ..direct }, e), univ, "into_triple().with_any_graph()", l)?;
	// Borrowing.
	let r = pt.as_ref();
	same_meaning(&read_quad(&r, |x| unname(x)), want, univ, "as_ref()", l)?;
	// Mapping: shifting all resources by n, and collapsing them.
	let shift = |c: C| match c {
		C::Given(x) => C::Given(x + n),
		c => c,
	};
	let wide = Pat { s: shift(direct.s), p: shift(direct.p), o: shift(direct.o), g: shift(direct.g) };
	let got = read_quad(&pt.clone().map(|x| unname(&x) + n), |x| *x);
	ensure_eq!(got, wide, "map(shift)");
	let r = pt.as_ref().map(|x| unname(x) + n);
	ensure_eq!(read_quad(&r, |x| *x), wide, "as_ref().map(shift)");
	let zero = |c: C| match c {
		C::Given(_) => C::Given(0),
		c => c,
	};
	let flat = Pat { s: zero(direct.s), p: zero(direct.p), o: zero(direct.o), g: zero(direct.g) };
	let got = read_quad(&pt.clone().map(|_| 0u16), |x| *x);
	ensure_eq!(got, flat, "map(constant)");
	let (a, b) = pt.clone().map2(|x| (unname(&x) + n, x));
	ensure_eq!(read_quad(&a, |x| *x), wide, "first pattern of map2");
	ensure_eq!(read_quad(&b, f), direct, "second pattern of map2");
	// Copies and comparisons.
	ensure_eq!(read_quad(&pt.clone(), f), direct, "clone");
	ensure!(pt.clone() == *pt, "clone is not equal");
	l.transitions += 14;
	l.checks += 8;
	Ok(())
}

fn check_triple_pattern(
	pt: &CanonicalTriplePattern<String>,
	want: &dyn Fn(Q) -> bool,
	univ: &[Q],
	l: &mut Local,
) -> Result<(), String> {
	l.states += 1;
	let f = |x: &String| unname(x);
	let fr = |x: &&String| unname(x);
	let direct = read_triple(pt, f);
	same_meaning(&direct, want, univ, "the pattern", l)?;
	l.outcome(fp(&(1u8, direct)));
	let g = C::Any;
	let got = Pat { s: ts(&pt.subject(), &fr)?, p: tp(&pt.predicate(), &fr)?, o: to(&pt.object(), &fr)?, g };
	same_meaning(&got, want, univ, "subject()..object()", l)?;
	let got = Pat {
		s: ts(&pt.subject().cloned(), &f)?,
		p: tp(&pt.predicate().cloned(), &f)?,
		o: to(&pt.object().cloned(), &f)?,
		g,
	};
	same_meaning(&got, want, univ, "cloned components", l)?;
	let (a, b, c) = (pt.clone(), pt.clone(), pt.clone());
	let (s, p, o) = (a.into_subject(), b.into_predicate(), c.into_object());
	let got = Pat { s: ts(&s, &f)?, p: tp(&p, &f)?, o: to(&o, &f)?, g };
	same_meaning(&got, want, univ, "into_subject()..into_object()", l)?;
	for &e in univ.iter().filter(|e| e.g.is_none()) {
		let t = Triple(name(e.s), name(e.p), name(e.o));
		let only = Pat { s: C::Any, p: C::Any, o: got.o, g };
		ensure_eq!(o.filter_triple(t), accepts(&only, e), "filter_triple of {:?} on {e:?}", got.o);
		l.checks += 1;
	}
	for (x, c) in [(s.into_id(), got.s), (p.into_id(), got.p), (o.into_id(), got.o)] {
		ids(c, x.as_ref().map(f))?;
	}
	let any = pt.clone().with_any_graph();
	same_meaning(&read_quad(&any, f), want, univ, "with_any_graph()", l)?;
	let (back, gg) = any.into_triple();
	ensure_eq!(read_triple(&back, f), direct, "with_any_graph().into_triple()");
	ensure_eq!(qg(&gg, &f), C::Any, "graph constraint of with_any_graph()");
	ensure!(pt.clone() == *pt, "clone is not equal");
	l.transitions += 8;
	l.checks += 4;
	Ok(())
}

// ------------------------------------------------------------------- C13

/// A component with explicit variables.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum V {
	R(u16),
	X(u8),
}

fn v_accepts(comps: &[V], vals: &[Option<u16>]) -> bool {
	for (c, v) in comps.iter().zip(vals) {
		if let V::R(x) = c {
			if *v != Some(*x) {
				return false;
			}
		}
	}
	for i in 0..comps.len() {
		for j in 0..i {
			if let (V::X(a), V::X(b)) = (comps[i], comps[j]) {
				if a == b && vals[i] != vals[j] {
					return false;
				}
			}
		}
	}
	true
}

fn rv(c: V) -> ResourceOrVar<String, String> {
	match c {
		V::R(x) => ResourceOrVar::Resource(name(x)),
		V::X(v) => ResourceOrVar::Var(format!("v{v}")),
	}
}

fn rv2(c: V) -> ResourceOrVar<String, u8> {
	match c {
		V::R(x) => ResourceOrVar::Resource(name(x)),
		V::X(v) => ResourceOrVar::Var(v),
	}
}

fn run13(ctx: &mut Ctx) {
	let n: u16 = ctx.pick(5, 7);
	let univ = all_quads(n + 1);
	let u = &univ;

	// Patterns with variables.
	let comps: Vec<V> = (0..n).map(V::R).chain((0..4).map(V::X)).collect();
	let k = comps.len();
	let comps = &comps;
	ctx.space(&format!("patterns with variables over {n} resources and 4 variables"), k * k, |j, l| {
		let (s, p) = (comps[j / k], comps[j % k]);
		for &o in comps {
			let case = format!("triple pattern {s:?} {p:?} {o:?}");
			l.case(|| case.clone());
			l.traces += 1;
			guard_check(|| {
				let want = |e: Q| v_accepts(&[s, p, o], &[Some(e.s), Some(e.p), Some(e.o)]);
				for i in 0..3 {
					let pt: CanonicalTriplePattern<String> = match i {
						0 => CanonicalTriplePattern::from_pattern(Triple(rv(s), rv(p), rv(o))),
						1 => Triple(rv(s), rv(p), rv(o)).into(),
						_ => CanonicalTriplePattern::from_pattern(Triple(rv2(s), rv2(p), rv2(o))),
					};
					check_triple_pattern(&pt, &want, u, l)?;
					let pt: CanonicalQuadPattern<String> = match i {
						0 => CanonicalQuadPattern::from_triple_pattern(Triple(rv(s), rv(p), rv(o))),
						1 => Triple(rv(s), rv(p), rv(o)).into(),
						_ => CanonicalQuadPattern::from_triple_pattern(Triple(rv2(s), rv2(p), rv2(o))),
					};
					check_quad_pattern(&pt, &|e| want(e) && e.g.is_none(), u, n + 1, l)?;
				}
				Ok(())
			})
			.map_err(|m| Fail::new(case, m))?;
			for g in comps.iter().copied().map(Some).chain([None]) {
				let case = format!("quad pattern {s:?} {p:?} {o:?} {g:?}");
				l.case(|| case.clone());
				l.traces += 1;
				guard_check(|| {
					let want = |e: Q| match g {
						None => e.g.is_none() && v_accepts(&[s, p, o], &[Some(e.s), Some(e.p), Some(e.o)]),
						Some(g) => v_accepts(&[s, p, o, g], &[Some(e.s), Some(e.p), Some(e.o), e.g]),
					};
					for i in 0..3 {
						let pt: CanonicalQuadPattern<String> = match i {
							0 => CanonicalQuadPattern::from_pattern(Quad(rv(s), rv(p), rv(o), g.map(rv))),
							1 => Quad(rv(s), rv(p), rv(o), g.map(rv)).into(),
							_ => CanonicalQuadPattern::from_pattern(Quad(rv2(s), rv2(p), rv2(o), g.map(rv2))),
						};
						check_quad_pattern(&pt, &want, u, n + 1, l)?;
					}
					Ok(())
				})
				.map_err(|m| Fail::new(case, m))?;
			}
		}
		l.sample(|| format!("patterns {s:?} {p:?} _ _"));
		Ok(())
	});

	// Optional components, and plain triples and quads.
	let m = n as usize + 1;
	ctx.space(&format!("optional components over {n} resources"), m * m, |j, l| {
		let opt = |i: usize| (i > 0).then(|| i as u16 - 1);
		let (s, p) = (opt(j / m), opt(j % m));
		for o in (0..m).map(opt) {
			let is = |c: Option<u16>, v: u16| c.is_none() || c == Some(v);
			let want3 = |e: Q| is(s, e.s) && is(p, e.p) && is(o, e.o);
			let ot = || Triple(s.map(name), p.map(name), o.map(name));
			let case = format!("optional triple {s:?} {p:?} {o:?}");
			l.case(|| case.clone());
			l.traces += 1;
			guard_check(|| {
				check_triple_pattern(&CanonicalTriplePattern::from_option_triple(ot()), &want3, u, l)?;
				check_triple_pattern(&ot().into(), &want3, u, l)?;
				check_quad_pattern(&CanonicalQuadPattern::from_option_triple(ot()), &want3, u, n + 1, l)?;
				check_quad_pattern(&ot().into(), &want3, u, n + 1, l)?;
				if let (Some(s), Some(p), Some(o)) = (s, p, o) {
					let t = || Triple(name(s), name(p), name(o));
					check_triple_pattern(&CanonicalTriplePattern::from_triple(t()), &want3, u, l)?;
					check_triple_pattern(&t().into(), &want3, u, l)?;
					check_quad_pattern(&CanonicalQuadPattern::from_triple(t()), &want3, u, n + 1, l)?;
					check_quad_pattern(&t().into(), &want3, u, n + 1, l)?;
				}
				Ok(())
			})
			.map_err(|m| Fail::new(case, m))?;
			let graphs: Vec<Option<Option<u16>>> =
				[None, Some(None)].into_iter().chain((0..n).map(|x| Some(Some(x)))).collect();
			for g in graphs {
				let want = |e: Q| want3(e) && g.map(|g| g == e.g).unwrap_or(true);
				let oq = || Quad(s.map(name), p.map(name), o.map(name), g.map(|g| g.map(name)));
				let case = format!("optional quad {s:?} {p:?} {o:?} {g:?}");
				l.case(|| case.clone());
				l.traces += 1;
				guard_check(|| {
					check_quad_pattern(&CanonicalQuadPattern::from_option_quad(oq()), &want, u, n + 1, l)?;
					check_quad_pattern(&oq().into(), &want, u, n + 1, l)?;
					if let (Some(s), Some(p), Some(o), Some(g)) = (s, p, o, g) {
						let t = || Quad(name(s), name(p), name(o), g.map(name));
						check_quad_pattern(&CanonicalQuadPattern::from_quad(t()), &want, u, n + 1, l)?;
						check_quad_pattern(&t().into(), &want, u, n + 1, l)?;
					}
					Ok(())
				})
				.map_err(|m| Fail::new(case, m))?;
			}
		}
		Ok(())
	});

	// Every canonical pattern, built directly, read through the accessors.
	let vals: Vec<u16> = (0..n).collect();
	let pats = quad_patterns(&vals);
	ctx.space(&format!("all {} canonical quad patterns over {n} resources", pats.len()), pats.len().div_ceil(32), |j, l| {
		for pt in &pats[j * 32..((j + 1) * 32).min(pats.len())] {
			l.case(|| format!("{pt:?}"));
			guard_check(|| {
				let b = build_quad(pt, name).unwrap();
				check_quad_pattern(&b, &|e| accepts(pt, e), u, n + 1, l)
			})
			.map_err(|m| Fail::new(format!("canonical pattern {pt:?}"), m))?;
		}
		Ok(())
	});
	let tpats = triple_patterns(&vals);
	ctx.space(&format!("all {} canonical triple patterns over {n} resources", tpats.len()), tpats.len(), |j, l| {
		let pt = &tpats[j];
		l.case(|| format!("{pt:?}"));
		guard_check(|| {
			let b = build_triple(pt, name).unwrap();
			check_triple_pattern(&b, &|e| accepts(pt, e), u, l)
		})
		.map_err(|m| Fail::new(format!("canonical triple pattern {pt:?}"), m))
	});

	// Equality, order and hash of patterns agree with their structure.
	let small = quad_patterns(&[0, 1]);
	ctx.space("comparison of canonical patterns", small.len(), |j, l| {
		let a = build_quad(&small[j], name).unwrap();
		for pt in &small {
			let b = build_quad(pt, name).unwrap();
			l.states += 1;
			l.checks += 3;
			guard_check(|| {
				ensure_eq!(a == b, small[j] == *pt, "equality of {a:?} and {b:?}");
				ensure_eq!(a.cmp(&b).is_eq(), small[j] == *pt, "cmp of {a:?} and {b:?}");
				ensure_eq!(a.cmp(&b), b.cmp(&a).reverse(), "cmp of {a:?} and {b:?} both ways");
				if a == b {
					ensure_eq!(fp(&a), fp(&b), "hash");
				}
				Ok(())
			})
			.map_err(|m| Fail::new(format!("{:?} / {pt:?}", small[j]), m))?;
		}
		Ok(())
	});

	// ResourceOrVar itself.
	ctx.space("resources and variables", k, |j, l| {
		let c = comps[j];
		l.states += 1;
		guard_check(|| {
			let back = |r: ResourceOrVar<u16, String>| match r {
				ResourceOrVar::Resource(x) => V::R(x),
				ResourceOrVar::Var(v) => V::X(v[1..].parse().unwrap()),
			};
			ensure_eq!(back(rv(c).map(|x| unname(&x))), c, "map");
			let r = rv(c);
			let b = match r.as_ref() {
				ResourceOrVar::Resource(x) => V::R(unname(x)),
				ResourceOrVar::Var(v) => V::X(v[1..].parse().unwrap()),
			};
			ensure_eq!(b, c, "as_ref");
			for ans in [false, true] {
				let got = r.is_id_or(|v| {
					assert_eq!(V::X(v[1..].parse().unwrap()), c);
					ans
				});
				ensure_eq!(got, matches!(c, V::R(_)) || ans, "is_id_or");
			}
			if let V::R(x) = c {
				ensure!(ResourceOrVar::<String, String>::from(name(x)) == rv(c), "From");
			}
			l.checks += 4;
			Ok(())
		})
		.map_err(|m| Fail::new(format!("{c:?}"), m))
	});
}

// ------------------------------------------------------------------- C14

/// The pattern with explicit variables (0: subject, 1: predicate, 2: object).
fn to_vars(pt: &Pat) -> [V; 3] {
	let s = match pt.s {
		C::Given(x) => V::R(x),
		_ => V::X(0),
	};
	let p = match pt.p {
		C::Given(x) => V::R(x),
		C::SameS => s,
		_ => V::X(1),
	};
	let o = match pt.o {
		C::Given(x) => V::R(x),
		C::SameS => s,
		C::SameP => p,
		_ => V::X(2),
	};
	[s, p, o]
}

fn subst(m: &[V; 3], i: usize, x: u16) -> [V; 3] {
	let mut r = *m;
	if let V::X(v) = m[i] {
		for c in &mut r {
			if *c == V::X(v) {
				*c = V::R(x);
			}
		}
	} else {
		r[i] = V::R(x);
	}
	r
}

fn apply(
	pt: &mut CanonicalTriplePattern<String>,
	m: &mut [V; 3],
	i: usize,
	x: u16,
	by_copy: bool,
	univ: &[Q],
	l: &mut Local,
) -> Result<(), String> {
	let before = read_triple(pt, |x| unname(x));
	*m = subst(m, i, x);
	l.transitions += 1;
	if by_copy {
		let c = pt.clone();
		*pt = match i {
			0 => c.with_subject(name(x)),
			1 => c.with_predicate(name(x)),
			_ => c.with_object(name(x)),
		};
	} else {
		let f = |x: &String| unname(x);
		let (old, want) = match i {
			0 => (ts(&pt.set_subject(name(x)), &f)?, before.s),
			1 => (tp(&pt.set_predicate(name(x)), &f)?, before.p),
			_ => (to(&pt.set_object(name(x)), &f)?, before.o),
		};
		ensure_eq!(old, want, "previous constraint returned by set_{}", ["subject", "predicate", "object"][i]);
		l.checks += 1;
	}
	l.states += 1;
	let got = read_triple(pt, |x| unname(x));
	l.outcome(fp(&got));
	let what = format!(
		"{before:?} {} {} r{x}",
		if by_copy { "with" } else { "after setting" },
		["subject", "predicate", "object"][i]
	);
	let m = *m;
	same_meaning(&got, &|e| v_accepts(&m, &[Some(e.s), Some(e.p), Some(e.o)]), univ, &what, l)?;
	// The library's own accessors show it too.
	let fr = |x: &&String| unname(x);
	let acc = Pat { s: ts(&pt.subject(), &fr)?, p: tp(&pt.predicate(), &fr)?, o: to(&pt.object(), &fr)?, g: C::Any };
	ensure_eq!(acc, got, "accessors after setting");
	Ok(())
}

fn run14(ctx: &mut Ctx) {
	for (n, depth) in ctx.pick([(4, 3), (3, 4)], [(5, 4), (3, 5)]) {
		sequences14(ctx, n, depth);
	}
}

/// All sequences of set operations over `n` resources and an absent one.
fn sequences14(ctx: &mut Ctx, n: u16, depth: usize) {
	let univ = all_triples(n + 1);
	let vals: Vec<u16> = (0..n).collect();
	let pats = triple_patterns(&vals);
	let ops: Vec<(usize, u16, bool)> = (0..3)
		.flat_map(|i| (0..n + 1).flat_map(move |x| [(i, x, false), (i, x, true)]))
		.collect();
	ctx.space(&format!("the parts of every pattern over {n} resources, set to every resource"), pats.len(), |j, l| {
		let pt = &pats[j];
		for x in 0..n + 1 {
			let case = format!("{pt:?}, parts set to r{x}");
			l.case(|| case.clone());
			l.sample(|| case.clone());
			l.traces += 1;
			guard_check(|| parts14(pt, x, &univ, l)).map_err(|e| Fail::new(case.clone(), e))?;
		}
		Ok(())
	});
	let (u, ops) = (&univ, &ops);
	ctx.space(
		&format!("sequences of {depth} set operations on all {} patterns over {n} resources", pats.len()),
		pats.len() * ops.len(),
		|j, l| {
			let pt = &pats[j / ops.len()];
			fn go(
				pt: &CanonicalTriplePattern<String>,
				m: &[V; 3],
				rest: usize,
				first: Option<usize>,
				ops: &[(usize, u16, bool)],
				u: &[Q],
				hist: &mut Vec<String>,
				l: &mut Local,
			) -> Check {
				for (k, &(i, x, c)) in ops.iter().enumerate() {
					if first.is_some() && first != Some(k) {
						continue;
					}
					hist.push(format!("{}_{} r{x}", if c { "with" } else { "set" }, ["subject", "predicate", "object"][i]));
					l.case(|| hist.join(", "));
					let (mut a, mut b) = (pt.clone(), *m);
					guard_check(|| apply(&mut a, &mut b, i, x, c, u, l)).map_err(|e| Fail::new(hist.join(", "), e))?;
					if rest > 1 {
						go(&a, &b, rest - 1, None, ops, u, hist, l)?;
					} else {
						l.traces += 1;
					}
					hist.pop();
				}
				Ok(())
			}
			let b = build_triple(pt, name).unwrap();
			let mut hist = vec![format!("{pt:?}")];
			go(&b, &to_vars(pt), depth, Some(j % ops.len()), ops, u, &mut hist, l)?;
			l.sample(|| format!("{pt:?}, first operation {:?}", ops[j % ops.len()]));
			Ok(())
		},
	);
}

fn given(c: C) -> Option<C> {
	matches!(c, C::Given(_)).then_some(c)
}

fn gval(c: C) -> u16 {
	match c {
		C::Given(x) => x,
		_ => unreachable!(),
	}
}

/// The parts of a canonical triple pattern, set on their own: a part says
/// nothing about the components before it, so it is judged by the values of
/// the other components it leaves possible.
fn parts14(pt: &Pat, x: u16, univ: &[Q], l: &mut Local) -> Result<(), String> {
	use tc::{AnySubject as A, GivenSubject as G};
	let f = |x: &String| unname(x);
	let vars = to_vars(pt);
	// Pairs (predicate, object), or objects, left possible by a pattern.
	let po = |p: &dyn Fn(Q) -> bool| -> std::collections::BTreeSet<(u16, u16)> {
		univ.iter().filter(|e| p(**e)).map(|e| (e.p, e.o)).collect()
	};
	let before = po(&|e| accepts(pt, e));
	let full = build_triple(pt, name).unwrap();
	// (which setter, previous constraint, the part put back in a pattern)
	for i in [1usize, 2] {
		let (old, after) = match full.clone() {
			CanonicalTriplePattern::AnySubject(mut a) => {
				let old = if i == 1 { tp(&a.set_predicate(name(x)), &f)? } else { to(&a.set_object(name(x)), &f)? };
				ensure_eq!(tp(&a.predicate(), &|x: &&String| unname(x))?, tp(&a.clone().into_predicate(), &f)?, "part accessors");
				(old, CanonicalTriplePattern::AnySubject(a))
			}
			CanonicalTriplePattern::GivenSubject(s, mut g) => {
				let old = if i == 1 { tp(&g.set_predicate(name(x)), &f)? } else { to(&g.set_object(name(x)), &f)? };
				(old, CanonicalTriplePattern::GivenSubject(s, g))
			}
		};
		l.states += 1;
		l.transitions += 1;
		l.checks += 2;
		ensure_eq!(old, if i == 1 { pt.p } else { pt.o }, "previous constraint returned by the part's setter {i} on {pt:?}");
		let got = read_triple(&after, |x| unname(x));
		// Setting the first component of a given pair of the projection.
		let hit = |(p, o): &(u16, u16)| if i == 1 { *p == x } else { *o == x };
		let rel = match (vars[i], i) {
			// An already fixed component is replaced.
			(V::R(_), _) => {
				let m = subst(&vars, i, x);
				po(&|e| v_accepts(&m, &[Some(e.s), Some(e.p), Some(e.o)]))
			}
			_ => before.iter().copied().filter(|v| hit(v)).collect(),
		};
		ensure_eq!(po(&|e| accepts(&got, e)), rel, "{pt:?}: predicates and objects possible after setting part {i} to r{x}");
	}
	// The object part alone.
	macro_rules! object_part {
		($part:expr, $wrap:expr) => {{
			let mut o = $part;
			let old = to(&o.set_object(name(x)), &f)?;
			ensure_eq!(old, pt.o, "previous object constraint of {pt:?}");
			ensure_eq!(to(&o.object(), &|x: &&String| unname(x))?, C::Given(x), "object part of {pt:?} after set_object");
			ensure_eq!(to(&o.clone().into_object(), &f)?, C::Given(x), "object part of {pt:?} after set_object, taken");
			let whole: CanonicalTriplePattern<String> = $wrap(o);
			let got = read_triple(&whole, |x| unname(x));
			ensure_eq!((got.s, got.p, got.o), (pt.s, pt.p, C::Given(x)), "{pt:?} after setting its object part to r{x}");
			l.states += 1;
			l.transitions += 1;
			l.checks += 4;
		}};
	}
	match full {
		CanonicalTriplePattern::AnySubject(A::AnyPredicate(o)) => {
			object_part!(o, |o| CanonicalTriplePattern::AnySubject(A::AnyPredicate(o)))
		}
		CanonicalTriplePattern::AnySubject(A::SameAsSubject(o)) => {
			object_part!(o, |o| CanonicalTriplePattern::AnySubject(A::SameAsSubject(o)))
		}
		CanonicalTriplePattern::AnySubject(A::GivenPredicate(p, o)) => {
			object_part!(o, |o| CanonicalTriplePattern::AnySubject(A::GivenPredicate(p, o)))
		}
		CanonicalTriplePattern::GivenSubject(_, G::AnyPredicate(o)) => {
			ensure_eq!(o.as_given().map(|x| C::Given(f(x))), given(pt.o), "as_given of the object of {pt:?}");
			object_part!(o, |o| CanonicalTriplePattern::GivenSubject(name(gval(pt.s)), G::AnyPredicate(o)))
		}
		CanonicalTriplePattern::GivenSubject(_, G::GivenPredicate(p, o)) => {
			ensure_eq!(o.as_given().map(|x| C::Given(f(x))), given(pt.o), "as_given of the object of {pt:?}");
			object_part!(o, |o| CanonicalTriplePattern::GivenSubject(name(gval(pt.s)), G::GivenPredicate(p, o)))
		}
	}
	Ok(())
}

// ------------------------------------------------------------------- C15

fn tri(e: Q) -> (String, String, String) {
	(name(e.s), name(e.p), name(e.o))
}

fn sorted<'a>(i: impl Iterator<Item = &'a u8>) -> Vec<u8> {
	let mut v: Vec<u8> = i.copied().collect();
	v.sort_unstable();
	v
}

/// A pattern map or one of its parts.
trait PMap: Default {
	const NAME: &'static str;
	/// Whether this part stores (the rest of) the pattern.
	fn stores(pt: &Pat) -> bool;
	/// The meaning of the stored rest of the pattern.
	fn means(pt: &Pat) -> Pat;
	fn put(&mut self, pt: &Pat, v: u8) -> bool;
	fn find(&self, t: Triple<&String>) -> Vec<u8>;
	/// Drives the iterator over the values found in every way.
	fn drive(&self, t: Triple<&String>, l: &mut Local) -> Result<usize, String>;
	fn union(&mut self, other: Self) -> bool;
}

impl PMap for TriplePatternMap<u8, String> {
	const NAME: &'static str = "TriplePatternMap";
	fn stores(_: &Pat) -> bool {
		true
	}
	fn means(pt: &Pat) -> Pat {
		*pt
	}
	fn put(&mut self, pt: &Pat, v: u8) -> bool {
		self.insert(build_triple(pt, name).unwrap(), v)
	}
	fn find(&self, t: Triple<&String>) -> Vec<u8> {
		sorted(self.get(t))
	}
	fn drive(&self, t: Triple<&String>, l: &mut Local) -> Result<usize, String> {
		crate::iters::protocol(&format!("values found for {t:?}"), || self.get(t), |v| *v, l)
	}
	fn union(&mut self, _: Self) -> bool {
		false
	}
}

macro_rules! part {
	($ty:ident, |$pt:ident| $stores:expr, $means:expr, $pat:pat => $rest:expr) => {
		impl PMap for tm::$ty<u8, String> {
			const NAME: &'static str = stringify!($ty);
			fn stores($pt: &Pat) -> bool {
				$stores
			}
			fn means($pt: &Pat) -> Pat {
				$means
			}
			fn put(&mut self, pt: &Pat, v: u8) -> bool {
				match build_triple(pt, name).unwrap() {
					$pat => self.insert($rest, v),
					_ => unreachable!(),
				}
			}
			fn find(&self, t: Triple<&String>) -> Vec<u8> {
				sorted(self.get(t))
			}
			fn drive(&self, t: Triple<&String>, l: &mut Local) -> Result<usize, String> {
				crate::iters::protocol(&format!("values found for {t:?}"), || self.get(t), |v| *v, l)
			}
			fn union(&mut self, other: Self) -> bool {
				self.union_with(other);
				true
			}
		}
	};
}

part!(AnySubjectMap, |p| p.s == C::Any, *p, CanonicalTriplePattern::AnySubject(r) => r);
part!(GivenSubjectMap, |p| p.s == C::Given(0), Pat { s: C::Any, ..*p },
	CanonicalTriplePattern::GivenSubject(_, r) => r);
part!(AnySubjectAnyPredicateMap, |p| p.s == C::Any && p.p == C::Any, *p,
	CanonicalTriplePattern::AnySubject(tc::AnySubject::AnyPredicate(r)) => r);
part!(AnySubjectGivenPredicateMap, |p| p.s == C::Any && p.p == C::Given(0), Pat { p: C::Any, ..*p },
	CanonicalTriplePattern::AnySubject(tc::AnySubject::GivenPredicate(_, r)) => r);
part!(GivenSubjectAnyPredicateMap, |p| p.s == C::Given(0) && p.p == C::Any, Pat { s: C::Any, ..*p },
	CanonicalTriplePattern::GivenSubject(_, tc::GivenSubject::AnyPredicate(r)) => r);
part!(GivenSubjectGivenPredicateMap, |p| p.s == C::Given(0) && p.p == C::Given(0), Pat { s: C::Any, p: C::Any, ..*p },
	CanonicalTriplePattern::GivenSubject(_, tc::GivenSubject::GivenPredicate(_, r)) => r);

type Entry = (Pat, u8);

fn lookups<M: PMap>(
	m: &M,
	model: &BTreeSet<Entry>,
	univ: &[(Q, (String, String, String))],
	l: &mut Local,
) -> Result<(), String> {
	l.states += 1;
	let mut want = Vec::new();
	let mut all = 0u64;
	for (e, t) in univ {
		want.clear();
		want.extend(model.iter().filter(|(p, _)| accepts(&M::means(p), *e)).map(|(_, v)| *v));
		want.sort_unstable();
		let got = m.find(Triple(&t.0, &t.1, &t.2));
		l.checks += 1;
		if got != want {
			return Err(format!(
				"looking up {} {} {} in {} gives {got:?}, expected {want:?}",
				t.0, t.1, t.2, M::NAME
			));
		}
		all = all.wrapping_mul(31).wrapping_add(want.len() as u64);
	}
	l.outcome(fp(&(M::NAME, all)));
	Ok(())
}

fn insert_all<M: PMap>(
	h: &[Entry],
	model: &mut BTreeSet<Entry>,
	m: &mut M,
	l: &mut Local,
) -> Result<(), String> {
	for (p, v) in h {
		l.transitions += 1;
		let fresh = model.insert((*p, *v));
		ensure_eq!(m.put(p, *v), fresh, "insertion of {v} under {p:?} into {}", M::NAME);
		l.checks += 1;
	}
	Ok(())
}

fn show(h: &[Entry]) -> String {
	let v: Vec<String> = h.iter().map(|(p, v)| format!("{v} under {p:?}")).collect();
	format!("[{}]", v.join("; "))
}

/// All insertion histories of length `depth` in the given part.
fn histories<M: PMap>(ctx: &mut Ctx, entries: &[Entry], depth: usize, univ: &[(Q, (String, String, String))]) {
	let es: Vec<Entry> = entries.iter().copied().filter(|e| M::stores(&e.0)).collect();
	ctx.space(&format!("{}: all histories of {depth} of {} insertions", M::NAME, es.len()), es.len(), |j, l| {
		fn go<M: PMap>(
			h: &mut Vec<Entry>,
			depth: usize,
			es: &[Entry],
			univ: &[(Q, (String, String, String))],
			l: &mut Local,
		) -> Check {
			if h.len() == depth {
				l.case(|| show(h));
				l.traces += 1;
				return guard_check(|| {
					let mut m = M::default();
					let mut model = BTreeSet::new();
					insert_all(h, &mut model, &mut m, l)?;
					lookups(&m, &model, univ, l)
				})
				.map_err(|e| Fail::new(show(h), e));
			}
			for e in es {
				h.push(*e);
				go::<M>(h, depth, es, univ, l)?;
				h.pop();
			}
			Ok(())
		}
		let mut h = vec![es[j]];
		go::<M>(&mut h, depth, &es, univ, l)?;
		l.sample(|| format!("{}: histories starting with {}", M::NAME, show(&h)));
		Ok(())
	});
}

/// All pairs of maps of up to two entries each, united; then a third one.
fn unions<M: PMap>(ctx: &mut Ctx, entries: &[Entry], third: usize, univ: &[(Q, (String, String, String))]) {
	let es: Vec<Entry> = entries.iter().copied().filter(|e| M::stores(&e.0)).collect();
	let mut sides: Vec<Vec<Entry>> = vec![vec![]];
	for i in 0..es.len() {
		sides.push(vec![es[i]]);
		for j in 0..i {
			sides.push(vec![es[j], es[i]]);
		}
	}
	let thirds: Vec<Vec<Entry>> = sides.iter().filter(|s| s.len() <= third).cloned().collect();
	let (sides, thirds) = (&sides, &thirds);
	ctx.space(
		&format!("{}: unions of all pairs of {} maps, and a third of {}", M::NAME, sides.len(), thirds.len()),
		sides.len(),
		|j, l| {
			for b in sides {
				for c in thirds {
					let case = || format!("{} united with {} and {}", show(&sides[j]), show(b), show(c));
					l.case(case);
					l.traces += 1;
					guard_check(|| {
						let mut m = M::default();
						let mut model = BTreeSet::new();
						insert_all(&sides[j], &mut model, &mut m, l)?;
						for side in [b, c] {
							if side.is_empty() && third > 0 {
								continue;
							}
							let mut o = M::default();
							insert_all(side, &mut BTreeSet::new(), &mut o, l)?;
							m.union(o);
							l.transitions += 1;
							model.extend(side.iter().copied());
						}
						lookups(&m, &model, univ, l)?;
						// The union behaves like a map built by insertions.
						if let Some(&(p, v)) = b.first().or(c.first()) {
							ensure_eq!(m.put(&p, v), false, "reinsertion of {v} under {p:?} after the union");
							let v2 = v ^ 0x80;
							ensure_eq!(m.put(&p, v2), true, "insertion of a new value under {p:?} after the union");
							model.insert((p, v2));
							lookups(&m, &model, univ, l)?;
						}
						Ok(())
					})
					.map_err(|e| Fail::new(case(), e))?;
				}
			}
			Ok(())
		},
	);
}

/// Large maps: sizes around the growth of the tables, united both ways with every overlap.
fn large<M: PMap>(ctx: &mut Ctx, entries: &[Entry]) {
	let es: Vec<Entry> = entries.iter().copied().filter(|e| M::stores(&e.0)).collect();
	// Neighbouring entries must not all share a table: take them with a stride.
	let es: Vec<Entry> = (0..es.len()).map(|i| es[i * 7919 % es.len()]).collect();
	let distinct: BTreeSet<Entry> = es.iter().copied().collect();
	assert_eq!(distinct.len(), es.len(), "the stride must be coprime to the number of entries");
	let sizes: Vec<usize> = [0, 1, 3, 4, 7, 8, 14, 15, 28, 29, 57, 113, 230].into_iter().filter(|&n| n <= es.len()).collect();
	let cases: Vec<(usize, usize, usize)> = sizes
		.iter()
		.flat_map(|&a| sizes.iter().flat_map(move |&b| [0, a / 2, a].map(|o| (a, b, o))))
		.filter(|&(_, b, o)| o + b <= es.len())
		.collect();
	let probe: Vec<(Q, (String, String, String))> = all_triples(3)
		.into_iter()
		.chain((3..10).flat_map(|k| [q(k, k, k, None), q(0, k, k, None), q(k, 0, 1, None), q(0, 0, k, None), q(k, k, 0, None), q(0, k, 0, None)]))
		.map(|e| (e, tri(e)))
		.collect();
	let (es, probe) = (&es, &probe[..]);
	ctx.space(&format!("{}: large maps, {} unions", M::NAME, cases.len()), cases.len(), |j, l| {
		let (a, b, o) = cases[j];
		let case = format!("a map of {a} entries united with one of {b}, sharing {}", a.saturating_sub(o).min(b));
		l.case(|| case.clone());
		l.traces += 1;
		guard_check(|| {
			let mut model = BTreeSet::new();
			let mut m = M::default();
			insert_all(&es[..a], &mut model, &mut m, l)?;
			lookups(&m, &model, probe, l)?;
			let mut other = M::default();
			insert_all(&es[o..o + b], &mut BTreeSet::new(), &mut other, l)?;
			if m.union(other) {
				model.extend(es[o..o + b].iter().copied());
			}
			lookups(&m, &model, probe, l)?;
			for (_, t) in probe {
				m.drive(Triple(&t.0, &t.1, &t.2), l)?;
			}
			insert_all(es, &mut model, &mut m, l)?;
			lookups(&m, &model, probe, l)
		})
		.map_err(|e| Fail::new(case.clone(), e))
	});
}

fn run15(ctx: &mut Ctx) {
	let vals = [0u16, 1];
	let pats = triple_patterns(&vals);
	let univ: Vec<(Q, (String, String, String))> = all_triples(3).into_iter().map(|e| (e, tri(e))).collect();
	let u = &univ[..];
	let one: Vec<Entry> = pats.iter().map(|p| (*p, 1)).collect();
	let two: Vec<Entry> = pats.iter().flat_map(|p| [(*p, 1), (*p, 2)]).collect();

	type M = TriplePatternMap<u8, String>;
	// Every pattern at once, each with its own value (and shared values).
	ctx.space("all patterns at once", 4, |j, l| {
		let vals: Vec<u16> = (0..2 + j as u16 % 2).collect();
		let pats = triple_patterns(&vals);
		let mut h: Vec<Entry> = pats.iter().enumerate().map(|(i, p)| (*p, if j < 2 { i as u8 } else { 0 })).collect();
		h.extend(h.clone());
		let big: Vec<_> = all_triples(4).into_iter().map(|e| (e, tri(e))).collect();
		guard_check(|| {
			let mut m = M::default();
			let mut model = BTreeSet::new();
			for e in &h {
				insert_all(&[*e], &mut model, &mut m, l)?;
				lookups(&m, &model, &big, l)?;
			}
			Ok(())
		})
		.map_err(|m| Fail::new(format!("all {} patterns inserted one after the other", pats.len()), m))
	});
	let (d, e) = ctx.pick((3, &two), (4, &two));
	histories::<M>(ctx, e, 3, u);
	histories::<M>(ctx, &one, 4, u);
	histories::<tm::AnySubjectMap<u8, String>>(ctx, e, 3, u);
	histories::<tm::GivenSubjectMap<u8, String>>(ctx, e, 3, u);
	histories::<tm::AnySubjectAnyPredicateMap<u8, String>>(ctx, e, d, u);
	histories::<tm::AnySubjectGivenPredicateMap<u8, String>>(ctx, e, d, u);
	histories::<tm::GivenSubjectAnyPredicateMap<u8, String>>(ctx, e, d, u);
	histories::<tm::GivenSubjectGivenPredicateMap<u8, String>>(ctx, e, d, u);
	let many = triple_patterns(&(0..10).collect::<Vec<u16>>());
	let many: Vec<Entry> = many.iter().flat_map(|p| (0..11u8).map(|v| (*p, v))).collect();
	large::<M>(ctx, &many);
	large::<tm::AnySubjectMap<u8, String>>(ctx, &many);
	large::<tm::GivenSubjectMap<u8, String>>(ctx, &many);
	large::<tm::AnySubjectAnyPredicateMap<u8, String>>(ctx, &many);
	large::<tm::AnySubjectGivenPredicateMap<u8, String>>(ctx, &many);
	large::<tm::GivenSubjectAnyPredicateMap<u8, String>>(ctx, &many);
	large::<tm::GivenSubjectGivenPredicateMap<u8, String>>(ctx, &many);
	// Unions, with values over three given components for the small parts.
	let pats3 = triple_patterns(&[0, 1, 2]);
	let two3: Vec<Entry> = pats3.iter().flat_map(|p| [(*p, 1), (*p, 2)]).collect();
	let (t_small, big) = ctx.pick((1, &one), (1, &two));
	unions::<tm::AnySubjectMap<u8, String>>(ctx, &two, 0, u);
	unions::<tm::GivenSubjectMap<u8, String>>(ctx, &two, 0, u);
	unions::<tm::AnySubjectMap<u8, String>>(ctx, big, 1, u);
	unions::<tm::GivenSubjectMap<u8, String>>(ctx, big, 1, u);
	unions::<tm::AnySubjectAnyPredicateMap<u8, String>>(ctx, &two3, t_small, u);
	unions::<tm::AnySubjectGivenPredicateMap<u8, String>>(ctx, &two3, t_small, u);
	unions::<tm::GivenSubjectAnyPredicateMap<u8, String>>(ctx, &two3, t_small, u);
	unions::<tm::GivenSubjectGivenPredicateMap<u8, String>>(ctx, &two3, t_small, u);
}

#[allow(dead_code)]
fn _assert_debug<T: Debug>() {}
