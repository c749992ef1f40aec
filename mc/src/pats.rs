//! Pattern specifications, their meaning, and the translation to and from the
//! nested canonical pattern types of the library (by constructing/matching
//! the public enums directly, independently of the library's accessors).
use crate::model::Q;
use rdf_types::pattern::quad::canonical as qc;
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};

/// Constraint on one component.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum C {
	Any,
	SameS,
	SameP,
	SameO,
	/// The default graph.
	Default,
	Given(u16),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Pat {
	pub s: C,
	pub p: C,
	pub o: C,
	pub g: C,
}

/// The meaning of a pattern.
pub fn accepts(pt: &Pat, e: Q) -> bool {
	let ok = |c: C, v: Option<u16>| match c {
		C::Any => true,
		C::SameS => v == Some(e.s),
		C::SameP => v == Some(e.p),
		C::SameO => v == Some(e.o),
		C::Default => v.is_none(),
		C::Given(x) => v == Some(x),
	};
	ok(pt.s, Some(e.s)) && ok(pt.p, Some(e.p)) && ok(pt.o, Some(e.o)) && ok(pt.g, e.g)
}

/// As [`accepts`], ignoring the graph component.
pub fn accepts_triple(pt: &Pat, e: Q) -> bool {
	accepts(&Pat { g: C::Any, ..*pt }, e)
}

macro_rules! leaf {
	($name:ident, $build:ident, $read:ident, [$($c:ident => $v:ident),*]) => {
		fn $build<T>(g: C, f: &mut impl FnMut(u16) -> T) -> Option<qc::$name<T>> {
			Some(match g {
				C::Any => qc::$name::AnyGraph,
				C::Default => qc::$name::GivenGraph(None),
				C::Given(x) => qc::$name::GivenGraph(Some(f(x))),
				$(C::$c => qc::$name::$v,)*
				#[allow(unreachable_patterns)]
				_ => return None,
			})
		}
		fn $read<T>(l: &qc::$name<T>, f: &impl Fn(&T) -> u16) -> C {
			match l {
				qc::$name::AnyGraph => C::Any,
				qc::$name::GivenGraph(None) => C::Default,
				qc::$name::GivenGraph(Some(x)) => C::Given(f(x)),
				$(qc::$name::$v => C::$c,)*
			}
		}
	};
}

leaf!(AnySubjectAnyPredicateAnyObject, b_aaa, r_aaa, [SameS => SameAsSubject, SameP => SameAsPredicate, SameO => SameAsObject]);
leaf!(AnySubjectAnyPredicateGivenObject, b_aag, r_aag, [SameS => SameAsSubject, SameP => SameAsPredicate]);
leaf!(AnySubjectGivenPredicateAnyObject, b_aga, r_aga, [SameS => SameAsSubject, SameO => SameAsObject]);
leaf!(AnySubjectGivenPredicateGivenObject, b_agg, r_agg, [SameS => SameAsSubject]);
leaf!(GivenSubjectAnyPredicateAnyObject, b_gaa, r_gaa, [SameP => SameAsPredicate, SameO => SameAsObject]);
leaf!(GivenSubjectAnyPredicateGivenObject, b_gag, r_gag, [SameP => SameAsPredicate]);
leaf!(GivenSubjectGivenPredicateAnyObject, b_gga, r_gga, [SameO => SameAsObject]);
leaf!(GivenSubjectGivenPredicateGivenObject, b_ggg, r_ggg, []);

/// Builds the canonical quad pattern denoted by `pt`, if `pt` is in canonical
/// form.
pub fn build_quad<T>(pt: &Pat, mut f: impl FnMut(u16) -> T) -> Option<CanonicalQuadPattern<T>> {
	let f = &mut f;
	Some(match pt.s {
		C::Any => CanonicalQuadPattern::AnySubject(match pt.p {
			C::Any => qc::AnySubject::AnyPredicate(match pt.o {
				C::Any => qc::AnySubjectAnyPredicate::AnyObject(b_aaa(pt.g, f)?),
				C::SameS => qc::AnySubjectAnyPredicate::SameAsSubject(b_aag(pt.g, f)?),
				C::SameP => qc::AnySubjectAnyPredicate::SameAsPredicate(b_aag(pt.g, f)?),
				C::Given(o) => qc::AnySubjectAnyPredicate::GivenObject(f(o), b_aag(pt.g, f)?),
				_ => return None,
			}),
			C::SameS => qc::AnySubject::SameAsSubject(asgp(pt, f)?),
			C::Given(p) => qc::AnySubject::GivenPredicate(f(p), asgp(pt, f)?),
			_ => return None,
		}),
		C::Given(s) => CanonicalQuadPattern::GivenSubject(
			f(s),
			match pt.p {
				C::Any => qc::GivenSubject::AnyPredicate(match pt.o {
					C::Any => qc::GivenSubjectAnyPredicate::AnyObject(b_gaa(pt.g, f)?),
					C::SameP => qc::GivenSubjectAnyPredicate::SameAsPredicate(b_gag(pt.g, f)?),
					C::Given(o) => {
						qc::GivenSubjectAnyPredicate::GivenObject(f(o), b_gag(pt.g, f)?)
					}
					_ => return None,
				}),
				C::Given(p) => qc::GivenSubject::GivenPredicate(
					f(p),
					match pt.o {
						C::Any => qc::GivenSubjectGivenPredicate::AnyObject(b_gga(pt.g, f)?),
						C::Given(o) => {
							qc::GivenSubjectGivenPredicate::GivenObject(f(o), b_ggg(pt.g, f)?)
						}
						_ => return None,
					},
				),
				_ => return None,
			},
		),
		_ => return None,
	})
}

fn asgp<T>(pt: &Pat, f: &mut impl FnMut(u16) -> T) -> Option<qc::AnySubjectGivenPredicate<T>> {
	Some(match pt.o {
		C::Any => qc::AnySubjectGivenPredicate::AnyObject(b_aga(pt.g, f)?),
		C::SameS => qc::AnySubjectGivenPredicate::SameAsSubject(b_agg(pt.g, f)?),
		C::Given(o) => qc::AnySubjectGivenPredicate::GivenObject(f(o), b_agg(pt.g, f)?),
		_ => return None,
	})
}

/// Reads a canonical quad pattern structurally.
pub fn read_quad<T>(pt: &CanonicalQuadPattern<T>, f: impl Fn(&T) -> u16) -> Pat {
	let f = &f;
	let asgp = |x: &qc::AnySubjectGivenPredicate<T>| match x {
		qc::AnySubjectGivenPredicate::AnyObject(g) => (C::Any, r_aga(g, f)),
		qc::AnySubjectGivenPredicate::SameAsSubject(g) => (C::SameS, r_agg(g, f)),
		qc::AnySubjectGivenPredicate::GivenObject(o, g) => (C::Given(f(o)), r_agg(g, f)),
	};
	match pt {
		CanonicalQuadPattern::AnySubject(a) => {
			let (p, (o, g)) = match a {
				qc::AnySubject::AnyPredicate(x) => (
					C::Any,
					match x {
						qc::AnySubjectAnyPredicate::AnyObject(g) => (C::Any, r_aaa(g, f)),
						qc::AnySubjectAnyPredicate::SameAsSubject(g) => (C::SameS, r_aag(g, f)),
						qc::AnySubjectAnyPredicate::SameAsPredicate(g) => (C::SameP, r_aag(g, f)),
						qc::AnySubjectAnyPredicate::GivenObject(o, g) => {
							(C::Given(f(o)), r_aag(g, f))
						}
					},
				),
				qc::AnySubject::SameAsSubject(x) => (C::SameS, asgp(x)),
				qc::AnySubject::GivenPredicate(p, x) => (C::Given(f(p)), asgp(x)),
			};
			Pat { s: C::Any, p, o, g }
		}
		CanonicalQuadPattern::GivenSubject(s, x) => {
			let (p, (o, g)) = match x {
				qc::GivenSubject::AnyPredicate(x) => (
					C::Any,
					match x {
						qc::GivenSubjectAnyPredicate::AnyObject(g) => (C::Any, r_gaa(g, f)),
						qc::GivenSubjectAnyPredicate::SameAsPredicate(g) => (C::SameP, r_gag(g, f)),
						qc::GivenSubjectAnyPredicate::GivenObject(o, g) => {
							(C::Given(f(o)), r_gag(g, f))
						}
					},
				),
				qc::GivenSubject::GivenPredicate(p, x) => (
					C::Given(f(p)),
					match x {
						qc::GivenSubjectGivenPredicate::AnyObject(g) => (C::Any, r_gga(g, f)),
						qc::GivenSubjectGivenPredicate::GivenObject(o, g) => {
							(C::Given(f(o)), r_ggg(g, f))
						}
					},
				),
			};
			Pat {
				s: C::Given(f(s)),
				p,
				o,
				g,
			}
		}
	}
}

/// Builds the canonical triple pattern denoted by `pt` (graph ignored).
pub fn build_triple<T>(pt: &Pat, mut f: impl FnMut(u16) -> T) -> Option<CanonicalTriplePattern<T>> {
	let f = &mut f;
	Some(match pt.s {
		C::Any => CanonicalTriplePattern::AnySubject(match pt.p {
			C::Any => tc::AnySubject::AnyPredicate(match pt.o {
				C::Any => tc::AnySubjectAnyPredicate::AnyObject,
				C::SameS => tc::AnySubjectAnyPredicate::SameAsSubject,
				C::SameP => tc::AnySubjectAnyPredicate::SameAsPredicate,
				C::Given(o) => tc::AnySubjectAnyPredicate::GivenObject(f(o)),
				_ => return None,
			}),
			C::SameS => tc::AnySubject::SameAsSubject(t_asgp(pt, f)?),
			C::Given(p) => tc::AnySubject::GivenPredicate(f(p), t_asgp(pt, f)?),
			_ => return None,
		}),
		C::Given(s) => CanonicalTriplePattern::GivenSubject(
			f(s),
			match pt.p {
				C::Any => tc::GivenSubject::AnyPredicate(match pt.o {
					C::Any => tc::GivenSubjectAnyPredicate::AnyObject,
					C::SameP => tc::GivenSubjectAnyPredicate::SameAsPredicate,
					C::Given(o) => tc::GivenSubjectAnyPredicate::GivenObject(f(o)),
					_ => return None,
				}),
				C::Given(p) => tc::GivenSubject::GivenPredicate(
					f(p),
					match pt.o {
						C::Any => tc::GivenSubjectGivenPredicate::AnyObject,
						C::Given(o) => tc::GivenSubjectGivenPredicate::GivenObject(f(o)),
						_ => return None,
					},
				),
				_ => return None,
			},
		),
		_ => return None,
	})
}

fn t_asgp<T>(pt: &Pat, f: &mut impl FnMut(u16) -> T) -> Option<tc::AnySubjectGivenPredicate<T>> {
	Some(match pt.o {
		C::Any => tc::AnySubjectGivenPredicate::AnyObject,
		C::SameS => tc::AnySubjectGivenPredicate::SameAsSubject,
		C::Given(o) => tc::AnySubjectGivenPredicate::GivenObject(f(o)),
		_ => return None,
	})
}

/// Reads a canonical triple pattern structurally (graph: any).
pub fn read_triple<T>(pt: &CanonicalTriplePattern<T>, f: impl Fn(&T) -> u16) -> Pat {
	let f = &f;
	let g = C::Any;
	let asgp = |x: &tc::AnySubjectGivenPredicate<T>| match x {
		tc::AnySubjectGivenPredicate::AnyObject => C::Any,
		tc::AnySubjectGivenPredicate::SameAsSubject => C::SameS,
		tc::AnySubjectGivenPredicate::GivenObject(o) => C::Given(f(o)),
	};
	match pt {
		CanonicalTriplePattern::AnySubject(a) => {
			let (p, o) = match a {
				tc::AnySubject::AnyPredicate(x) => (
					C::Any,
					match x {
						tc::AnySubjectAnyPredicate::AnyObject => C::Any,
						tc::AnySubjectAnyPredicate::SameAsSubject => C::SameS,
						tc::AnySubjectAnyPredicate::SameAsPredicate => C::SameP,
						tc::AnySubjectAnyPredicate::GivenObject(o) => C::Given(f(o)),
					},
				),
				tc::AnySubject::SameAsSubject(x) => (C::SameS, asgp(x)),
				tc::AnySubject::GivenPredicate(p, x) => (C::Given(f(p)), asgp(x)),
			};
			Pat { s: C::Any, p, o, g }
		}
		CanonicalTriplePattern::GivenSubject(s, x) => {
			let (p, o) = match x {
				tc::GivenSubject::AnyPredicate(x) => (
					C::Any,
					match x {
						tc::GivenSubjectAnyPredicate::AnyObject => C::Any,
						tc::GivenSubjectAnyPredicate::SameAsPredicate => C::SameP,
						tc::GivenSubjectAnyPredicate::GivenObject(o) => C::Given(f(o)),
					},
				),
				tc::GivenSubject::GivenPredicate(p, x) => (
					C::Given(f(p)),
					match x {
						tc::GivenSubjectGivenPredicate::AnyObject => C::Any,
						tc::GivenSubjectGivenPredicate::GivenObject(o) => C::Given(f(o)),
					},
				),
			};
			Pat {
				s: C::Given(f(s)),
				p,
				o,
				g,
			}
		}
	}
}

fn comps(vals: &[u16], extra: &[C]) -> Vec<C> {
	let mut v = extra.to_vec();
	v.extend(vals.iter().map(|&x| C::Given(x)));
	v
}

/// All canonical triple patterns over the given values.
pub fn triple_patterns(vals: &[u16]) -> Vec<Pat> {
	quad_like(vals)
		.into_iter()
		.filter(|pt| pt.g == C::Any && build_triple(pt, |x| x).is_some())
		.collect()
}

/// All canonical quad patterns over the given values.
pub fn quad_patterns(vals: &[u16]) -> Vec<Pat> {
	quad_like(vals)
		.into_iter()
		.filter(|pt| build_quad(pt, |x| x).is_some())
		.collect()
}

fn quad_like(vals: &[u16]) -> Vec<Pat> {
	let mut v = Vec::new();
	for &s in &comps(vals, &[C::Any]) {
		for &p in &comps(vals, &[C::Any, C::SameS]) {
			for &o in &comps(vals, &[C::Any, C::SameS, C::SameP]) {
				for &g in &comps(vals, &[C::Any, C::Default, C::SameS, C::SameP, C::SameO]) {
					v.push(Pat { s, p, o, g });
				}
			}
		}
	}
	v
}
