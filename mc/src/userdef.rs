//! C20: the provided methods and adaptors of the dataset and graph traits,
//! over datasets and graphs defined outside the library, including ones that
//! fail: every fault point of every lookup is enumerated.
use crate::containers::*;
use crate::containers2::*;
use crate::engine::*;
use crate::explore::subsets;
use crate::model::*;
use crate::pats::*;
use crate::sut::*;
use crate::{ensure, ensure_eq};
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};
use std::vec::IntoIter;

/// A graph or dataset implementing only what the traits require: a list of
/// elements, in a given order.
struct Elements {
	els: Vec<(Q, u32, u32, u32, Option<u32>)>,
	listed: Vec<(Role, Vec<u32>)>,
	all: Vec<u32>,
}

impl Elements {
	fn new(els: &[Q]) -> Self {
		let m: Model = els.iter().copied().collect();
		let mk = <u32 as Res>::mk;
		let mut all: Vec<u32> = Vec::new();
		for e in els {
			for x in [Some(e.o), e.g, Some(e.s), Some(e.p)].into_iter().flatten() {
				if !all.contains(&mk(x)) {
					all.push(mk(x));
				}
			}
		}
		Self {
			els: els.iter().map(|&e| (e, mk(e.s), mk(e.p), mk(e.o), e.g.map(mk))).collect(),
			listed: [Role::Subject, Role::Predicate, Role::Object, Role::Graph]
				.map(|r| (r, m_role(&m, r).into_iter().rev().map(mk).collect()))
				.into(),
			all,
		}
	}

	fn role(&self, r: Role) -> IntoIter<&u32> {
		let (_, v) = self.listed.iter().find(|(x, _)| *x == r).unwrap();
		v.iter().collect::<Vec<_>>().into_iter()
	}

	fn res(&self) -> IntoIter<&u32> {
		self.all.iter().collect::<Vec<_>>().into_iter()
	}

	fn quads_of(&self, pt: &Pat) -> Vec<Quad<&u32>> {
		self.els
			.iter()
			.filter(|x| accepts(pt, x.0))
			.map(|(_, s, p, o, g)| Quad(s, p, o, g.as_ref()))
			.collect()
	}

	fn triples_of(&self, pt: &Pat) -> Vec<Triple<&u32>> {
		self.quads_of(pt).into_iter().map(|q| Triple(q.0, q.1, q.2)).collect()
	}
}

const EVERY: Pat = Pat { s: C::Any, p: C::Any, o: C::Any, g: C::Any };

struct UserGraph(Elements);
struct UserDataset(Elements);

impl Graph for UserGraph {
	type Resource = u32;
}
impl TraversableGraph for UserGraph {
	type Triples<'a> = IntoIter<Triple<&'a u32>>;
	fn triples(&self) -> Self::Triples<'_> {
		self.0.triples_of(&EVERY).into_iter()
	}
}
impl ResourceTraversableGraph for UserGraph {
	type GraphResources<'a> = IntoIter<&'a u32>;
	fn graph_resources(&self) -> Self::GraphResources<'_> {
		self.0.res()
	}
}
impl SubjectTraversableGraph for UserGraph {
	type GraphSubjects<'a> = IntoIter<&'a u32>;
	fn graph_subjects(&self) -> Self::GraphSubjects<'_> {
		self.0.role(Role::Subject)
	}
}
impl PredicateTraversableGraph for UserGraph {
	type GraphPredicates<'a> = IntoIter<&'a u32>;
	fn graph_predicates(&self) -> Self::GraphPredicates<'_> {
		self.0.role(Role::Predicate)
	}
}
impl ObjectTraversableGraph for UserGraph {
	type GraphObjects<'a> = IntoIter<&'a u32>;
	fn graph_objects(&self) -> Self::GraphObjects<'_> {
		self.0.role(Role::Object)
	}
}
impl PatternMatchingGraph for UserGraph {
	type TriplePatternMatching<'a, 'p> = IntoIter<Triple<&'a u32>>;
	fn triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p u32>) -> Self::TriplePatternMatching<'_, 'p> {
		self.0.triples_of(&read_triple(&p, |x| x.idx())).into_iter()
	}
}

impl Dataset for UserDataset {
	type Resource = u32;
}
impl TraversableDataset for UserDataset {
	type Quads<'a> = IntoIter<Quad<&'a u32>>;
	fn quads(&self) -> Self::Quads<'_> {
		self.0.quads_of(&EVERY).into_iter()
	}
}
impl ResourceTraversableDataset for UserDataset {
	type Resources<'a> = IntoIter<&'a u32>;
	fn resources(&self) -> Self::Resources<'_> {
		self.0.res()
	}
}
impl SubjectTraversableDataset for UserDataset {
	type Subjects<'a> = IntoIter<&'a u32>;
	fn subjects(&self) -> Self::Subjects<'_> {
		self.0.role(Role::Subject)
	}
}
impl PredicateTraversableDataset for UserDataset {
	type Predicates<'a> = IntoIter<&'a u32>;
	fn predicates(&self) -> Self::Predicates<'_> {
		self.0.role(Role::Predicate)
	}
}
impl ObjectTraversableDataset for UserDataset {
	type Objects<'a> = IntoIter<&'a u32>;
	fn objects(&self) -> Self::Objects<'_> {
		self.0.role(Role::Object)
	}
}
impl NamedGraphTraversableDataset for UserDataset {
	type NamedGraphs<'a> = IntoIter<&'a u32>;
	fn named_graphs(&self) -> Self::NamedGraphs<'_> {
		self.0.role(Role::Graph)
	}
}
impl PatternMatchingDataset for UserDataset {
	type QuadPatternMatching<'a, 'p> = IntoIter<Quad<&'a u32>>;
	fn quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p u32>) -> Self::QuadPatternMatching<'_, 'p> {
		self.0.quads_of(&read_quad(&p, |x| x.idx())).into_iter()
	}
}

/// Fails at the `fail`-th item of every listing.
struct Broken {
	e: Elements,
	fail: usize,
}

#[derive(Debug, PartialEq, Eq)]
struct Fault(usize);

struct BrokenGraph(Broken);
struct BrokenDataset(Broken);

impl Broken {
	fn list<T>(&self, v: Vec<T>) -> IntoIter<Result<T, Fault>> {
		let mut r: Vec<Result<T, Fault>> = v.into_iter().map(Ok).collect();
		if self.fail <= r.len() {
			r.insert(self.fail, Err(Fault(self.fail)));
		}
		r.into_iter()
	}
}

impl FallibleGraph for BrokenGraph {
	type Resource = u32;
	type Error = Fault;
}
impl fallible_graph::FalliblePatternMatchingGraph for BrokenGraph {
	type TryTriplePatternMatching<'a, 'p> = IntoIter<Result<Triple<&'a u32>, Fault>>;
	fn try_triple_pattern_matching<'p>(
		&self,
		p: CanonicalTriplePattern<&'p u32>,
	) -> Self::TryTriplePatternMatching<'_, 'p> {
		self.0.list(self.0.e.triples_of(&read_triple(&p, |x| x.idx())))
	}
}
impl FallibleDataset for BrokenDataset {
	type Resource = u32;
	type Error = Fault;
}
impl fallible::FalliblePatternMatchingDataset for BrokenDataset {
	type TryQuadPatternMatching<'a, 'p> = IntoIter<Result<Quad<&'a u32>, Fault>>;
	fn try_quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p u32>) -> Self::TryQuadPatternMatching<'_, 'p> {
		self.0.list(self.0.e.quads_of(&read_quad(&p, |x| x.idx())))
	}
}

/// The provided methods of the graph traits.
fn graph_defaults(d: &UserGraph, m: &Model, vals: &[u16], l: &mut Local) -> Result<(), String> {
	let n = |r| m_role(m, r).len();
	l.checks += 3;
	ensure_eq!(d.graph_subject_count(), n(Role::Subject), "graph_subject_count");
	ensure_eq!(d.graph_predicate_count(), n(Role::Predicate), "graph_predicate_count");
	ensure_eq!(d.graph_object_count(), n(Role::Object), "graph_object_count");
	for &s in vals {
		let sr = <u32 as Res>::mk(s);
		let has = |r| m_role(m, r).contains(&s);
		l.checks += 4;
		ensure_eq!(d.contains_triple_subject(&sr), has(Role::Subject), "contains_triple_subject({s})");
		ensure_eq!(d.contains_triple_predicate(&sr), has(Role::Predicate), "contains_triple_predicate({s})");
		ensure_eq!(d.contains_triple_object(&sr), has(Role::Object), "contains_triple_object({s})");
		let mut exp: Vec<(u16, Vec<u16>)> = Vec::new();
		for e in m.iter().filter(|e| e.s == s) {
			match exp.last_mut() {
				Some((p, os)) if *p == e.p => os.push(e.o),
				_ => exp.push((e.p, vec![e.o])),
			}
		}
		let mut got: Vec<(u16, Vec<u16>)> = d
			.triple_predicates_objects(&sr)
			.take(LIM)
			.map(|(p, os)| (p.idx(), idx_all(os)))
			.collect();
		got.sort();
		ensure_eq!(got, exp, "triple_predicates_objects({s})");
		for &p in vals {
			let pr = <u32 as Res>::mk(p);
			let exp: Vec<u16> = m.iter().filter(|e| (e.s, e.p) == (s, p)).map(|e| e.o).collect();
			l.checks += 1;
			ensure_eq!(idx_all(d.triple_objects(&sr, &pr)), exp, "triple_objects({s}, {p})");
			for &o in vals {
				let or = <u32 as Res>::mk(o);
				l.checks += 1;
				ensure_eq!(
					d.contains_triple(Triple(&sr, &pr, &or)),
					m.contains(&q(s, p, o, None)),
					"contains_triple({s} {p} {o})"
				);
			}
		}
	}
	Ok(())
}

/// A lookup over a failing store: a fault met before the answer is known is
/// reported, never turned into "absent".
fn faulty(
	got: Result<bool, Fault>,
	matches: usize,
	fail: usize,
	what: &str,
	l: &mut Local,
) -> Result<(), String> {
	l.checks += 1;
	let ok = match &got {
		// Any item before the fault settles the question.
		Ok(true) => fail > 0 && matches > 0,
		Ok(false) => fail > matches && matches == 0,
		Err(Fault(k)) => *k == fail && fail <= matches,
	};
	ensure!(ok, "{what} with {matches} matching elements and a fault at item {fail}: {got:?}");
	Ok(())
}

pub fn run(ctx: &mut Ctx) {
	let vals = [0, 1, ABSENT];
	let pats = quad_patterns(&vals);
	let (t, u) = (triples(2), quads(2));
	let gsets: Vec<Vec<Q>> = (0..=t.len()).flat_map(|k| subsets(&t, k)).collect();
	let dsets: Vec<Vec<Q>> = (0..=ctx.pick(3usize, 3)).flat_map(|k| subsets(&u, k)).collect();
	for graph in [true, false] {
		let sets = if graph { &gsets } else { &dsets };
		let name = if graph {
			"user-defined graphs: every set of 8 triples, 2 orders, every fault point"
		} else {
			"user-defined datasets: every small set of 24 quads, 2 orders, every fault point"
		};
		ctx.space(name, sets.len(), |j, l| {
			let m: Model = sets[j].iter().copied().collect();
			for rev in [false, true] {
				let mut els = sets[j].clone();
				if rev {
					els.reverse();
				}
				let case = format!("user-defined {} {els:?}", if graph { "graph" } else { "dataset" });
				l.case(|| case.clone());
				l.states += 1;
				l.traces += 1;
				l.transitions += 1;
				l.outcome(fp(&els.iter().map(|e| (e.s, e.p, e.o, e.g)).collect::<Vec<_>>()));
				let fails = 0..=els.len() + 1;
				guard_check(|| {
					if graph {
						let d = UserGraph(Elements::new(&els));
						as_graph(&d, &m, l)?;
						graph_defaults(&d, &m, &vals, l)?;
						ensure_eq!(idx_all(d.triples().map(|t| t.0)).len(), els.len(), "triples");
						let got: Vec<Q> = TraversableDataset::quads(&d).map(of_quad).collect();
						ensure_eq!(got, els, "quads of the graph, in its order");
						graph_dataset(&d, &m, &vals, &pats, l)?;
					} else {
						let d = UserDataset(Elements::new(&els));
						as_dataset(&d, &m, l)?;
						as_matching(&d, &m, &vals, &pats, l)?;
					}
					for fail in fails {
						let b = Broken { e: Elements::new(&els), fail };
						let (bg, bd) = if graph { (Some(BrokenGraph(b)), None) } else { (None, Some(BrokenDataset(b))) };
						for &s in &vals {
							for &p in &vals {
								for &o in &vals {
									let (a, b, c) = (<u32 as Res>::mk(s), <u32 as Res>::mk(p), <u32 as Res>::mk(o));
									let t = Triple(&a, &b, &c);
									let all = els.iter().filter(|e| (e.s, e.p, e.o) == (s, p, o)).count();
									let what = format!("try_contains_triple({s} {p} {o})");
									l.transitions += 1;
									if let Some(g) = &bg {
										let got = fallible_graph::FalliblePatternMatchingGraph::try_contains_triple(g, t);
										faulty(got, all, fail, &what, l)?;
									}
									if let Some(d) = &bd {
										// A triple of a named graph only may count or not.
										let def = m.contains(&q(s, p, o, None)) as usize;
										let got = || fallible::FalliblePatternMatchingDataset::try_contains_triple(d, t);
										if faulty(got(), all, fail, &what, l).is_err() {
											faulty(got(), def, fail, &what, l)?;
										}
									}
								}
							}
						}
					}
					Ok(())
				})
				.map_err(|e| Fail::new(case.clone(), e))?;
				l.sample(|| case.clone());
			}
			Ok(())
		});
	}
}

/// A user-defined graph seen as a dataset.
fn graph_dataset(d: &UserGraph, m: &Model, vals: &[u16], pats: &[Pat], l: &mut Local) -> Result<(), String> {
	as_dataset(d, m, l)?;
	as_matching(d, m, vals, pats, l)
}
