//! Uniform view of the four containers, calling their real public API.
use crate::model::*;
use crate::pats::{build_quad, build_triple, Pat};
use rdf_types::dataset::*;
use std::fmt::Debug;
use std::hash::Hash;

/// Cut-off for iterators that would never end.
pub const LIM: usize = 20_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
	Subject,
	Predicate,
	Object,
	Graph,
}

pub trait Sut: Clone + Eq + Ord + Hash + Debug + Default + Send + Sync + 'static {
	type R: Res;
	const NAME: &'static str;
	const DATASET: bool;
	const INDEXED: bool;

	fn new() -> Self;
	fn insert(&mut self, e: Q) -> bool;
	fn remove(&mut self, e: Q) -> bool;
	fn contains(&self, e: Q) -> bool;
	fn len(&self) -> usize;
	fn is_empty(&self) -> bool;
	/// Every way of listing the elements by reference.
	fn listings(&self) -> Vec<(&'static str, Vec<Q>)>;
	fn iter_vec(&self) -> Vec<Q>;
	fn counts(&self) -> Vec<(&'static str, usize)>;
	fn resources(&self) -> Vec<u16>;
	fn resources_trait(&self) -> Vec<u16>;
	fn resource_counts(&self) -> Vec<(&'static str, usize)>;
	fn contains_resource(&self, r: u16) -> bool;
	fn into_vec(self) -> Vec<Q>;
	/// The first `k` elements of the consuming iterator, which is then dropped.
	fn into_prefix(self, k: usize) -> Vec<Q>;
	fn collect(v: &[Q]) -> Self;
	fn extend(&mut self, v: &[Q]);
	/// The same from iterators that say (truthfully) less about their length.
	fn collect_unsized(v: &[Q], hint: (usize, Option<usize>)) -> Self;
	fn extend_unsized(&mut self, v: &[Q], hint: (usize, Option<usize>));
	/// Insertion/removal through the generic mutable traits.
	fn trait_insert(&mut self, e: Q);
	fn trait_try_insert(&mut self, e: Q);
	fn trait_remove(&mut self, e: Q);
	fn try_listing(&self) -> Vec<Q>;
}

pub trait Idx: Sut {
	/// (how, listed resources) for every way of listing a role.
	fn role(&self, r: Role) -> Vec<(&'static str, Vec<u16>)>;
	fn role_counts(&self, r: Role) -> Vec<(&'static str, usize)>;
	fn matching(&self, pt: &Pat) -> Vec<Q>;
	fn matching_trait(&self, pt: &Pat) -> Vec<Q>;
	fn try_matching(&self, pt: &Pat) -> Vec<Q>;
	fn patterns(vals: &[u16]) -> Vec<Pat>;
	fn contains_role(&self, r: Role, v: u16) -> bool;
	fn contains_trait(&self, e: Q) -> bool;
	fn objects_of(&self, g: Option<u16>, s: u16, p: u16) -> Vec<u16>;
	fn predicates_objects_of(&self, g: Option<u16>, s: u16) -> Vec<(u16, Vec<u16>)>;
}

/// An iterator with the given size hint.
struct Unsized<I>(I, (usize, Option<usize>));

impl<I: Iterator> Iterator for Unsized<I> {
	type Item = I::Item;
	fn next(&mut self) -> Option<I::Item> {
		self.0.next()
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		let (lo, hi) = self.0.size_hint();
		(lo.min(self.1 .0), hi.max(self.1 .1).filter(|_| self.1 .1.is_some()))
	}
}

macro_rules! graph_sut {
	($ty:ident, $name:literal, $indexed:expr) => {
		impl<R: Res> Sut for $ty<R> {
			type R = R;
			const NAME: &'static str = $name;
			const DATASET: bool = false;
			const INDEXED: bool = $indexed;

			fn new() -> Self {
				$ty::new()
			}
			fn insert(&mut self, e: Q) -> bool {
				$ty::insert(self, mk_triple(e))
			}
			fn remove(&mut self, e: Q) -> bool {
				let t = mk_triple::<R>(e);
				$ty::remove(self, t.as_ref())
			}
			fn contains(&self, e: Q) -> bool {
				let t = mk_triple::<R>(e);
				$ty::contains(self, t.as_ref())
			}
			fn len(&self) -> usize {
				$ty::len(self)
			}
			fn is_empty(&self) -> bool {
				$ty::is_empty(self)
			}
			fn iter_vec(&self) -> Vec<Q> {
				self.iter().take(LIM).map(of_triple).collect()
			}
			fn listings(&self) -> Vec<(&'static str, Vec<Q>)> {
				let by_ref: Vec<Q> = (&*self).into_iter().take(LIM).map(of_triple).collect();
				let it = self.iter();
				let it2 = it.clone();
				vec![
					("iter", it.take(LIM).map(of_triple).collect()),
					("iter (cloned iterator)", it2.take(LIM).map(of_triple).collect()),
					("into_iter by reference", by_ref),
					(
						"triples (generic graph interface)",
						TraversableGraph::triples(self).take(LIM).map(of_triple).collect(),
					),
					(
						"quads (generic dataset interface)",
						TraversableDataset::quads(self).take(LIM).map(of_quad).collect(),
					),
				]
			}
			fn counts(&self) -> Vec<(&'static str, usize)> {
				vec![
					("len", $ty::len(self)),
					("triples_count", TraversableGraph::triples_count(self)),
					("quads_count", TraversableDataset::quads_count(self)),
				]
			}
			fn resources(&self) -> Vec<u16> {
				$ty::resources(self).take(LIM).map(|r| r.idx()).collect()
			}
			fn resources_trait(&self) -> Vec<u16> {
				ResourceTraversableGraph::graph_resources(self)
					.take(LIM)
					.map(|r| r.idx())
					.collect()
			}
			fn resource_counts(&self) -> Vec<(&'static str, usize)> {
				vec![
					(
						"graph_resource_count",
						ResourceTraversableGraph::graph_resource_count(self),
					),
					(
						"resource_count (dataset interface)",
						ResourceTraversableDataset::resource_count(self),
					),
				]
			}
			fn contains_resource(&self, r: u16) -> bool {
				$ty::contains_resource(self, &R::mk(r))
			}
			fn into_vec(self) -> Vec<Q> {
				self.into_iter().take(LIM).map(|t| of_triple(t.as_ref())).collect()
			}
			fn into_prefix(self, k: usize) -> Vec<Q> {
				self.into_iter().take(k).map(|t| of_triple(t.as_ref())).collect()
			}
			fn collect(v: &[Q]) -> Self {
				v.iter().map(|&e| mk_triple(e)).collect()
			}
			fn collect_unsized(v: &[Q], hint: (usize, Option<usize>)) -> Self {
				Unsized(v.iter().map(|&e| mk_triple(e)), hint).collect()
			}
			fn extend(&mut self, v: &[Q]) {
				Extend::extend(self, v.iter().map(|&e| mk_triple(e)))
			}
			fn extend_unsized(&mut self, v: &[Q], hint: (usize, Option<usize>)) {
				Extend::extend(self, Unsized(v.iter().map(|&e| mk_triple(e)), hint))
			}
			fn trait_insert(&mut self, e: Q) {
				GraphMut::insert(self, mk_triple(e))
			}
			fn trait_try_insert(&mut self, e: Q) {
				fallible_graph::FallibleGraphMut::try_insert(self, mk_triple(e)).unwrap()
			}
			fn trait_remove(&mut self, e: Q) {
				let t = mk_triple::<R>(e);
				GraphMut::remove(self, t.as_ref())
			}
			fn try_listing(&self) -> Vec<Q> {
				fallible_graph::FallibleTraversableGraph::try_triples(self)
					.take(LIM)
					.map(|t| of_triple(t.unwrap()))
					.collect()
			}
		}
	};
}

graph_sut!(BTreeGraph, "BTreeGraph", false);
graph_sut!(IndexedBTreeGraph, "IndexedBTreeGraph", true);

macro_rules! dataset_sut {
	($ty:ident, $name:literal, $indexed:expr) => {
		impl<R: Res> Sut for $ty<R> {
			type R = R;
			const NAME: &'static str = $name;
			const DATASET: bool = true;
			const INDEXED: bool = $indexed;

			fn new() -> Self {
				$ty::new()
			}
			fn insert(&mut self, e: Q) -> bool {
				$ty::insert(self, mk_quad(e))
			}
			fn remove(&mut self, e: Q) -> bool {
				let t = mk_quad::<R>(e);
				$ty::remove(self, t.as_ref())
			}
			fn contains(&self, e: Q) -> bool {
				let t = mk_quad::<R>(e);
				$ty::contains(self, t.as_ref())
			}
			fn len(&self) -> usize {
				$ty::len(self)
			}
			fn is_empty(&self) -> bool {
				$ty::is_empty(self)
			}
			fn iter_vec(&self) -> Vec<Q> {
				self.iter().take(LIM).map(of_quad).collect()
			}
			fn listings(&self) -> Vec<(&'static str, Vec<Q>)> {
				let by_ref: Vec<Q> = (&*self).into_iter().take(LIM).map(of_quad).collect();
				let it = self.iter();
				let it2 = it.clone();
				vec![
					("iter", it.take(LIM).map(of_quad).collect()),
					("iter (cloned iterator)", it2.take(LIM).map(of_quad).collect()),
					("into_iter by reference", by_ref),
					(
						"quads (generic dataset interface)",
						TraversableDataset::quads(self).take(LIM).map(of_quad).collect(),
					),
				]
			}
			fn counts(&self) -> Vec<(&'static str, usize)> {
				vec![
					("len", $ty::len(self)),
					("quads_count", TraversableDataset::quads_count(self)),
				]
			}
			fn resources(&self) -> Vec<u16> {
				$ty::resources(self).take(LIM).map(|r| r.idx()).collect()
			}
			fn resources_trait(&self) -> Vec<u16> {
				ResourceTraversableDataset::resources(self)
					.take(LIM)
					.map(|r| r.idx())
					.collect()
			}
			fn resource_counts(&self) -> Vec<(&'static str, usize)> {
				vec![(
					"resource_count",
					ResourceTraversableDataset::resource_count(self),
				)]
			}
			fn contains_resource(&self, r: u16) -> bool {
				$ty::contains_resource(self, &R::mk(r))
			}
			fn into_vec(self) -> Vec<Q> {
				self.into_iter().take(LIM).map(|t| of_quad(t.as_ref())).collect()
			}
			fn into_prefix(self, k: usize) -> Vec<Q> {
				self.into_iter().take(k).map(|t| of_quad(t.as_ref())).collect()
			}
			fn collect(v: &[Q]) -> Self {
				v.iter().map(|&e| mk_quad(e)).collect()
			}
			fn collect_unsized(v: &[Q], hint: (usize, Option<usize>)) -> Self {
				Unsized(v.iter().map(|&e| mk_quad(e)), hint).collect()
			}
			fn extend(&mut self, v: &[Q]) {
				Extend::extend(self, v.iter().map(|&e| mk_quad(e)))
			}
			fn extend_unsized(&mut self, v: &[Q], hint: (usize, Option<usize>)) {
				Extend::extend(self, Unsized(v.iter().map(|&e| mk_quad(e)), hint))
			}
			fn trait_insert(&mut self, e: Q) {
				DatasetMut::insert(self, mk_quad(e))
			}
			fn trait_try_insert(&mut self, e: Q) {
				fallible::FallibleDatasetMut::try_insert(self, mk_quad(e)).unwrap()
			}
			fn trait_remove(&mut self, e: Q) {
				let t = mk_quad::<R>(e);
				DatasetMut::remove(self, t.as_ref())
			}
			fn try_listing(&self) -> Vec<Q> {
				fallible::FallibleTraversableDataset::try_quads(self)
					.take(LIM)
					.map(|t| of_quad(t.unwrap()))
					.collect()
			}
		}
	};
}

dataset_sut!(BTreeDataset, "BTreeDataset", false);
dataset_sut!(IndexedBTreeDataset, "IndexedBTreeDataset", true);

fn ids<'a, R: Res>(it: impl Iterator<Item = &'a R>) -> Vec<u16> {
	it.take(LIM).map(|r| r.idx()).collect()
}

impl<R: Res> Idx for IndexedBTreeGraph<R> {
	fn role(&self, r: Role) -> Vec<(&'static str, Vec<u16>)> {
		match r {
			Role::Subject => vec![
				("subjects", ids(IndexedBTreeGraph::subjects(self))),
				("graph_subjects", ids(self.graph_subjects())),
				(
					"subjects (dataset interface)",
					ids(SubjectTraversableDataset::subjects(self)),
				),
			],
			Role::Predicate => vec![
				("predicates", ids(IndexedBTreeGraph::predicates(self))),
				("graph_predicates", ids(self.graph_predicates())),
				(
					"predicates (dataset interface)",
					ids(PredicateTraversableDataset::predicates(self)),
				),
			],
			Role::Object => vec![
				("objects", ids(IndexedBTreeGraph::objects(self))),
				("graph_objects", ids(self.graph_objects())),
				(
					"objects (dataset interface)",
					ids(ObjectTraversableDataset::objects(self)),
				),
			],
			Role::Graph => vec![(
				"named_graphs (dataset interface)",
				ids(NamedGraphTraversableDataset::named_graphs(self)),
			)],
		}
	}
	fn role_counts(&self, r: Role) -> Vec<(&'static str, usize)> {
		match r {
			Role::Subject => vec![
				("graph_subject_count", self.graph_subject_count()),
				(
					"subject_count",
					SubjectTraversableDataset::subject_count(self),
				),
			],
			Role::Predicate => vec![
				("graph_predicate_count", self.graph_predicate_count()),
				(
					"predicate_count",
					PredicateTraversableDataset::predicate_count(self),
				),
			],
			Role::Object => vec![
				("graph_object_count", self.graph_object_count()),
				(
					"object_count",
					ObjectTraversableDataset::object_count(self),
				),
			],
			Role::Graph => vec![(
				"named_graph_count",
				NamedGraphTraversableDataset::named_graph_count(self),
			)],
		}
	}
	fn matching(&self, pt: &Pat) -> Vec<Q> {
		let pt = build_triple(pt, R::mk).unwrap();
		self.pattern_matching(triple_as_ref(&pt))
			.take(LIM)
			.map(of_triple)
			.collect()
	}
	fn matching_trait(&self, pt: &Pat) -> Vec<Q> {
		let pt = build_triple(pt, R::mk).unwrap();
		self.triple_pattern_matching(triple_as_ref(&pt))
			.take(LIM)
			.map(of_triple)
			.collect()
	}
	fn try_matching(&self, pt: &Pat) -> Vec<Q> {
		let pt = build_triple(pt, R::mk).unwrap();
		fallible_graph::FalliblePatternMatchingGraph::try_triple_pattern_matching(
			self,
			triple_as_ref(&pt),
		)
		.take(LIM)
		.map(|t| of_triple(t.unwrap()))
		.collect()
	}
	fn patterns(vals: &[u16]) -> Vec<Pat> {
		crate::pats::triple_patterns(vals)
	}
	fn contains_role(&self, r: Role, v: u16) -> bool {
		let v = R::mk(v);
		match r {
			Role::Subject => self.contains_triple_subject(&v),
			Role::Predicate => self.contains_triple_predicate(&v),
			Role::Object => self.contains_triple_object(&v),
			Role::Graph => PatternMatchingDataset::contains_named_graph(self, &v),
		}
	}
	fn contains_trait(&self, e: Q) -> bool {
		let t = mk_triple::<R>(e);
		PatternMatchingGraph::contains_triple(self, t.as_ref())
	}
	fn objects_of(&self, _g: Option<u16>, s: u16, p: u16) -> Vec<u16> {
		let (s, p) = (R::mk(s), R::mk(p));
		let v = ids(self.triple_objects(&s, &p));
		v
	}
	fn predicates_objects_of(&self, _g: Option<u16>, s: u16) -> Vec<(u16, Vec<u16>)> {
		let s = R::mk(s);
		let v = self
			.triple_predicates_objects(&s)
			.take(LIM)
			.map(|(p, os)| (p.idx(), ids(os)))
			.collect();
		v
	}
}

impl<R: Res> Idx for IndexedBTreeDataset<R> {
	fn role(&self, r: Role) -> Vec<(&'static str, Vec<u16>)> {
		match r {
			Role::Subject => vec![
				("subjects", ids(IndexedBTreeDataset::subjects(self))),
				(
					"subjects (trait)",
					ids(SubjectTraversableDataset::subjects(self)),
				),
			],
			Role::Predicate => vec![
				("predicates", ids(IndexedBTreeDataset::predicates(self))),
				(
					"predicates (trait)",
					ids(PredicateTraversableDataset::predicates(self)),
				),
			],
			Role::Object => vec![
				("objects", ids(IndexedBTreeDataset::objects(self))),
				(
					"objects (trait)",
					ids(ObjectTraversableDataset::objects(self)),
				),
			],
			Role::Graph => vec![
				("named_graphs", ids(IndexedBTreeDataset::named_graphs(self))),
				(
					"named_graphs (trait)",
					ids(NamedGraphTraversableDataset::named_graphs(self)),
				),
			],
		}
	}
	fn role_counts(&self, r: Role) -> Vec<(&'static str, usize)> {
		vec![match r {
			Role::Subject => (
				"subject_count",
				SubjectTraversableDataset::subject_count(self),
			),
			Role::Predicate => (
				"predicate_count",
				PredicateTraversableDataset::predicate_count(self),
			),
			Role::Object => (
				"object_count",
				ObjectTraversableDataset::object_count(self),
			),
			Role::Graph => (
				"named_graph_count",
				NamedGraphTraversableDataset::named_graph_count(self),
			),
		}]
	}
	fn matching(&self, pt: &Pat) -> Vec<Q> {
		let vals = QuadPat::<R>::new(pt);
		self.pattern_matching(vals.get())
			.take(LIM)
			.map(of_quad)
			.collect()
	}
	fn matching_trait(&self, pt: &Pat) -> Vec<Q> {
		let vals = QuadPat::<R>::new(pt);
		self.quad_pattern_matching(vals.get())
			.take(LIM)
			.map(of_quad)
			.collect()
	}
	fn try_matching(&self, pt: &Pat) -> Vec<Q> {
		let vals = QuadPat::<R>::new(pt);
		fallible::FalliblePatternMatchingDataset::try_quad_pattern_matching(self, vals.get())
			.take(LIM)
			.map(|t| of_quad(t.unwrap()))
			.collect()
	}
	fn patterns(vals: &[u16]) -> Vec<Pat> {
		crate::pats::quad_patterns(vals)
	}
	fn contains_role(&self, r: Role, v: u16) -> bool {
		let v = R::mk(v);
		match r {
			Role::Subject => self.contains_quad_subject(&v),
			Role::Predicate => self.contains_quad_predicate(&v),
			Role::Object => self.contains_quad_object(&v),
			Role::Graph => self.contains_named_graph(&v),
		}
	}
	fn contains_trait(&self, e: Q) -> bool {
		let t = mk_quad::<R>(e);
		PatternMatchingDataset::contains_quad(self, t.as_ref())
	}
	fn objects_of(&self, g: Option<u16>, s: u16, p: u16) -> Vec<u16> {
		let (g, s, p) = (g.map(R::mk), R::mk(s), R::mk(p));
		let v = ids(self.quad_objects(g.as_ref(), &s, &p));
		v
	}
	fn predicates_objects_of(&self, g: Option<u16>, s: u16) -> Vec<(u16, Vec<u16>)> {
		let (g, s) = (g.map(R::mk), R::mk(s));
		let v = self
			.quad_predicates_objects(g.as_ref(), &s)
			.take(LIM)
			.map(|(p, os)| (p.idx(), ids(os)))
			.collect();
		v
	}
}

/// Values of a quad pattern, kept alive so that a pattern over references can
/// be built without going through the library's own `as_ref`/`map`.
pub struct QuadPat<R> {
	pat: Pat,
	vals: Vec<R>,
}

impl<R: Res> QuadPat<R> {
	pub fn new(pt: &Pat) -> Self {
		let mut vals = Vec::with_capacity(4);
		build_quad(pt, |x| vals.push(R::mk(x))).unwrap();
		Self { pat: *pt, vals }
	}
	pub fn get(&self) -> rdf_types::pattern::CanonicalQuadPattern<&R> {
		let mut i = 0;
		build_quad(&self.pat, |_| {
			i += 1;
			&self.vals[i - 1]
		})
		.unwrap()
	}
}

/// The same for a triple pattern.
pub struct TriplePat<R>(rdf_types::pattern::CanonicalTriplePattern<R>);

impl<R: Res> TriplePat<R> {
	pub fn new(pt: &Pat) -> Self {
		Self(build_triple(pt, R::mk).unwrap())
	}
	pub fn get(&self) -> rdf_types::pattern::CanonicalTriplePattern<&R> {
		triple_as_ref(&self.0)
	}
}

fn triple_as_ref<R>(
	pt: &rdf_types::pattern::CanonicalTriplePattern<R>,
) -> rdf_types::pattern::CanonicalTriplePattern<&R> {
	use rdf_types::pattern::triple::canonical::*;
	use rdf_types::pattern::CanonicalTriplePattern as P;
	fn asgp<R>(x: &AnySubjectGivenPredicate<R>) -> AnySubjectGivenPredicate<&R> {
		match x {
			AnySubjectGivenPredicate::AnyObject => AnySubjectGivenPredicate::AnyObject,
			AnySubjectGivenPredicate::SameAsSubject => AnySubjectGivenPredicate::SameAsSubject,
			AnySubjectGivenPredicate::GivenObject(o) => AnySubjectGivenPredicate::GivenObject(o),
		}
	}
	match pt {
		P::AnySubject(x) => P::AnySubject(match x {
			AnySubject::AnyPredicate(x) => AnySubject::AnyPredicate(match x {
				AnySubjectAnyPredicate::AnyObject => AnySubjectAnyPredicate::AnyObject,
				AnySubjectAnyPredicate::SameAsSubject => AnySubjectAnyPredicate::SameAsSubject,
				AnySubjectAnyPredicate::SameAsPredicate => AnySubjectAnyPredicate::SameAsPredicate,
				AnySubjectAnyPredicate::GivenObject(o) => AnySubjectAnyPredicate::GivenObject(o),
			}),
			AnySubject::SameAsSubject(x) => AnySubject::SameAsSubject(asgp(x)),
			AnySubject::GivenPredicate(p, x) => AnySubject::GivenPredicate(p, asgp(x)),
		}),
		P::GivenSubject(s, x) => P::GivenSubject(
			s,
			match x {
				GivenSubject::AnyPredicate(x) => GivenSubject::AnyPredicate(match x {
					GivenSubjectAnyPredicate::AnyObject => GivenSubjectAnyPredicate::AnyObject,
					GivenSubjectAnyPredicate::SameAsPredicate => {
						GivenSubjectAnyPredicate::SameAsPredicate
					}
					GivenSubjectAnyPredicate::GivenObject(o) => {
						GivenSubjectAnyPredicate::GivenObject(o)
					}
				}),
				GivenSubject::GivenPredicate(p, x) => GivenSubject::GivenPredicate(
					p,
					match x {
						GivenSubjectGivenPredicate::AnyObject => {
							GivenSubjectGivenPredicate::AnyObject
						}
						GivenSubjectGivenPredicate::GivenObject(o) => {
							GivenSubjectGivenPredicate::GivenObject(o)
						}
					},
				),
			},
		),
	}
}
