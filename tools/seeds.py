"""Planted bugs: edits of /repo, a demonstration, and what they break."""
S = {}
SEEDS = S
BD="src/dataset/impl/btree_dataset.rs"; ID="src/dataset/impl/indexed_btree_dataset.rs"
BG="src/dataset/graph/impl/btree_graph.rs"; IG="src/dataset/graph/impl/indexed_btree_graph.rs"
ISO="src/dataset/isomorphism.rs"
def seed(id, property, edits, needs, breaks, demo, also=()):
    S[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also))

seed("c02-graph-subject-occurrence", "C02",
 [(BD, "Some((_, Some(g_i))) => {\n\t\t\t\t\tself.resources[g_i].occurrences += 1;", "Some((_, Some(g_i))) => {\n\t\t\t\t\tif g_i != s_i {\n\t\t\t\t\t\tself.resources[g_i].occurrences += 1;\n\t\t\t\t\t}")],
 "a plain dataset holding a quad whose graph is its own subject, and another quad using that resource; then the first is removed",
 "the resource's occurrence count is one too low, so removing the self-graph quad makes the dataset forget a resource still in use",
 '''use rdf_types::{Quad, dataset::BTreeDataset};
fn main() {
	let mut d = BTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, Some(1)));
	d.insert(Quad(4, 5, 1, None));
	d.remove(Quad(&1, &2, &3, Some(&1)));
	let r: Vec<u32> = d.resources().copied().collect();
	assert_eq!(r, [1, 4, 5]);
	assert!(d.contains(Quad(&4, &5, &1, None)));
}
''', ["C01"])

seed("c04-same-graph-default", "C04",
 [(ID, "if Some(quad.0) == quad.3 {", "if quad.3.map_or(true, |g| g == quad.0) {")],
 "a canonical pattern whose graph is 'same as subject', and quads in the default graph",
 "quads of the default graph match a pattern requiring the graph to be the subject",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset, pattern::{ResourceOrVar::*, CanonicalQuadPattern}};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(1u32, 2, 3, Some(1)));
	d.insert(Quad(1u32, 2, 3, Some(2)));
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_pattern(Quad(Var(0), Resource(&2), Var(1), Some(Var(0))));
	let r: Vec<_> = d.pattern_matching(p).map(|q| q.into_copied()).collect();
	assert_eq!(r, [Quad(1, 2, 3, Some(1))]);
}
''')

seed("c05-unsorted-predicates", "C05",
 [(ID, "indexes.extend(predicate.as_predicate.iter().copied());\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\tif indexes.is_empty() {\n\t\t\t\t\tSelf::None\n\t\t\t\t} else {\n\t\t\t\t\tindexes.sort_unstable();", "indexes.extend(predicate.as_predicate.iter().copied());\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\tif indexes.is_empty() {\n\t\t\t\t\tSelf::None\n\t\t\t\t} else {")],
 "several alternatives for the predicate, the earlier inserted one listed last",
 "multi-pattern matching misses quads when predicate alternatives are not listed in insertion order",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(1u32, 4, 3, None));
	let alt = [&4u32, &2];
	let p: CanonicalQuadPattern<[&u32; 2]> = Quad(None, Some(alt), None, None).into();
	let r: Vec<_> = d.multi_pattern_matching(p).map(|q| q.into_copied()).collect();
	assert_eq!(r.len(), 2);
}
''')

seed("c06-default-graph-stale", "C06",
 [(ID, "None => {\n\t\t\t\tself.default_graph.remove(&i);\n\t\t\t}", "None => {\n\t\t\t\tif !remove_index {\n\t\t\t\t\tself.default_graph.remove(&i);\n\t\t\t\t}\n\t\t\t}")],
 "a default-graph quad removed by extraction or graph removal, then its storage slot reused by a quad of a named graph, then a default-graph query",
 "after extraction, quads of a named graph are reported as being in the default graph",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	let p: CanonicalQuadPattern<&u32> = Quad(None, None, None, Some(None)).into();
	assert_eq!(d.extract_pattern_matching(p).count(), 1);
	d.insert(Quad(5u32, 6, 7, Some(8)));
	assert_eq!(d.pattern_matching(p).count(), 0);
	let _ = d.remove_graph(None);
	assert_eq!(d.len(), 1);
}
''', ["C04"])

seed("c07-conversion-enumerates", "C07",
 [(ID, "for &i in &dataset.quads_indexes {\n\t\t\tlet Quad(s, p, o, g) = dataset.quads[i];", "for (i, (_, &Quad(s, p, o, g))) in dataset.quads.iter().enumerate() {")],
 "a plain dataset from which a quad was removed (leaving a vacant slot before a used one), then converted into an indexed one and queried by pattern",
 "the converted dataset indexes quads under the wrong slots: pattern matching misses quads",
 '''use rdf_types::{Quad, dataset::BTreeDataset, pattern::CanonicalQuadPattern};
fn main() {
	let mut d = BTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(4u32, 5, 6, None));
	d.remove(Quad(&1, &2, &3, None));
	let mut d = d.into_indexed();
	let p: CanonicalQuadPattern<&u32> = Quad(Some(&4), None, None, None).into();
	assert_eq!(d.pattern_matching(p).count(), 1);
	assert_eq!(d.extract_pattern_matching(p).count(), 1);
	assert!(d.is_empty());
}
''', ["C04"])

seed("c08-equality-prefix", "C08",
 [(IG, "self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a == b)", "self.iter().zip(other).all(|(a, b)| a == b)")],
 "two indexed graphs of different sizes, one listing a prefix of the other",
 "graphs with different triples compare equal",
 '''use rdf_types::{Triple, dataset::IndexedBTreeGraph};
fn main() {
	let a: IndexedBTreeGraph<u32> = [Triple(1, 2, 3)].into_iter().collect();
	let b: IndexedBTreeGraph<u32> = [Triple(1, 2, 3), Triple(1, 2, 4)].into_iter().collect();
	assert!(a != b && b != a);
	assert!(a == a.clone());
}
''')

ISO_DEMO = '''use rdf_types::{BlankIdBuf, IriBuf, LocalTerm, Quad, dataset::{BTreeDataset, isomorphism::*}};
fn b(s: &str) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::from_suffix(s).unwrap()) }
fn i(s: &str) -> LocalTerm { LocalTerm::Named(rdf_types::Term::Iri(IriBuf::new(format!("http://e/{s}")).unwrap())) }
'''
seed("c09-default-graph-wildcard", "C09",
 [(ISO, "self.resource_matches_with(interpretation, a, b),\n\t\t\t\t(None, None) => true,", "self.resource_matches_with(interpretation, a, b),\n\t\t\t\t(None, _) => true,"),
  (ISO, "(Some(a), Some(b)) => resource_matches(interpretation, a, b),\n\t\t\t(None, None) => true,", "(Some(a), Some(b)) => resource_matches(interpretation, a, b),\n\t\t\t(None, _) => true,")],
 "a quad with a blank node in the default graph on the left, the same quad in a named graph on the right",
 "datasets that differ by the graph of a quad are reported isomorphic",
 ISO_DEMO + '''fn main() {
	let x: BTreeDataset = [Quad(b("x"), i("p"), i("o"), None)].into_iter().collect();
	let y: BTreeDataset = [Quad(b("y"), i("p"), i("o"), Some(i("g")))].into_iter().collect();
	assert!(!are_isomorphic(&x, &y));
	assert!(!are_isomorphic(&y, &x));
	assert!(are_isomorphic(&x, &x.clone()));
}
''')

seed("c10-not-injective", "C10",
 [(ISO, "if !self.backward.contains_key(b_candidate) {", "if self.backward.get(b_candidate) != Some(a_blank_id) {")],
 "two blank nodes of the left dataset that both fit the same blank node of the right one",
 "the returned mapping sends two blank nodes to the same one: it is not a bijection",
 ISO_DEMO + '''fn main() {
	let x: BTreeDataset = [Quad(b("x"), i("p"), i("o"), None), Quad(b("z"), i("p"), i("o"), None)].into_iter().collect();
	let y: BTreeDataset = [Quad(b("y"), i("p"), i("o"), None), Quad(b("t"), i("p"), i("o"), None)].into_iter().collect();
	let m = find_bijection(&x, &y).unwrap();
	assert_eq!(m.forward.len(), 2);
	assert_eq!(m.backward.len(), 2);
	for (a, b) in &m.forward { assert_eq!(m.backward[b], *a); }
}
''', ["C09"])

seed("c11-greek-question-mark", "C11",
 [("src/blankid.rs", "'\\u{0370}'..='\\u{037d}' | '\\u{037f}'..='\\u{1fff}'", "'\\u{0370}'..='\\u{1fff}'")],
 "a blank node identifier containing U+037E",
 "an invalid blank node identifier is accepted",
 '''use rdf_types::{BlankId, BlankIdBuf};
fn main() {
	assert!(BlankId::new("_:a\\u{37e}").is_err());
	assert!(BlankIdBuf::from_suffix("a\\u{37e}").is_err());
	assert!(BlankId::new("_:a\\u{37d}\\u{37f}").is_ok());
}
''')

seed("c12-carriage-return", "C12",
 [("src/display.rs", "\t\t\t\t'\\r' => write!(f, \"\\\\r\"),\n", "")],
 "a literal containing a carriage return",
 "the printed literal contains a raw line break, which no RDF reader accepts",
 '''use rdf_types::{Literal, LiteralType, RdfDisplay, XSD_STRING};
fn main() {
	let l = Literal::new("a\\rb".to_string(), LiteralType::Any(XSD_STRING.to_owned()));
	assert_eq!(l.rdf_display().to_string(), "\\"a\\\\rb\\"");
}
''')

seed("c14-same-object-lost", "C14",
 [("src/pattern/triple/canonical.rs", "Self::GivenSubject(\n\t\t\t\t\ts.clone(),\n\t\t\t\t\tGivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(s)),\n\t\t\t\t),", "Self::GivenSubject(\n\t\t\t\t\ts,\n\t\t\t\t\tGivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::AnyObject),\n\t\t\t\t),")],
 "set_subject on a pattern with a given predicate whose object is 'same as subject'",
 "fixing the subject drops the constraint that the object equals it",
 '''use rdf_types::{Triple, pattern::{ResourceOrVar::*, CanonicalTriplePattern}};
fn main() {
	let p: CanonicalTriplePattern<u32> = CanonicalTriplePattern::from_pattern(Triple(Var(0), Resource(2), Var(0)));
	let q = p.with_subject(7);
	assert_eq!(q, CanonicalTriplePattern::from_triple(Triple(7, 2, 7)));
}
''')

seed("c15-exclusive-same-as", "C15",
 [("src/pattern/triple/map.rs", "same_as_predicate: if triple.predicate() == triple.object() {\n\t\t\t\tSome(self.same_as_predicate.iter())\n\t\t\t} else {\n\t\t\t\tNone\n\t\t\t},\n\t\t\tgiven: self.given.get(triple.object()).map(|o| o.iter()),\n\t\t}\n\t}\n}\n\n// impl<V: Eq + Hash + ReplaceId> ReplaceId for AnySubjectAnyPredicateMap", "same_as_predicate: if triple.predicate() == triple.object()\n\t\t\t\t&& triple.subject() != triple.object()\n\t\t\t{\n\t\t\t\tSome(self.same_as_predicate.iter())\n\t\t\t} else {\n\t\t\t\tNone\n\t\t\t},\n\t\t\tgiven: self.given.get(triple.object()).map(|o| o.iter()),\n\t\t}\n\t}\n}\n\n// impl<V: Eq + Hash + ReplaceId> ReplaceId for AnySubjectAnyPredicateMap")],
 "a triple whose three components are equal, looked up against the pattern (?x, ?y, ?y)",
 "a matching pattern's values are not returned",
 '''use rdf_types::{Triple, pattern::{ResourceOrVar::*, CanonicalTriplePattern, triple::TriplePatternMap}};
fn main() {
	let mut m = TriplePatternMap::default();
	let p: CanonicalTriplePattern<u32> = CanonicalTriplePattern::from_pattern(Triple(Var(0), Var(1), Var(1)));
	m.insert(p, "v");
	assert_eq!(m.get(Triple(&1, &2, &2)).count(), 1);
	assert_eq!(m.get(Triple(&2, &2, &2)).count(), 1);
}
''')

seed("c17-truncated-counter", "C17",
 [("src/term/generator/blank.rs", 'format!("_:{}{}", self.prefix, self.count)', 'format!("_:{}{}", self.prefix, self.count as u32)')],
 "a generator offset beyond 2^32",
 "identifiers repeat after 2^32 numbers and do not follow the requested offset",
 '''use rdf_types::generator::Blank;
fn main() {
	let mut g = Blank::new_with_offset(1 << 32);
	let mut h = Blank::new();
	assert_ne!(g.next_blank_id().as_str(), h.next_blank_id().as_str());
}
''')

seed("c03-subject-listed-once", "C03",
 [(IG, "let s_i = self.resources.insert(Resource::subject(triple.0, i));", "let s_i = self.resources.insert(Resource::subject(triple.0, i));\n\t\t\t\t\tself.subjects.insert(s_i);"),
  (IG, "\t\t\tself.subjects.insert(s_i);\n\t\t\tself.predicates.insert(p_i);", "\t\t\tself.predicates.insert(p_i);")],
 "an indexed graph where a resource is first used as object or predicate and later as subject",
 "the resource is not listed among the subjects",
 '''use rdf_types::{Triple, dataset::IndexedBTreeGraph};
fn main() {
	let mut g = IndexedBTreeGraph::new();
	g.insert(Triple(1u32, 2, 3));
	g.insert(Triple(3u32, 2, 1));
	let mut s: Vec<u32> = g.subjects().copied().collect();
	s.sort();
	assert_eq!(s, [1, 3]);
}
''')

# ---- second batch -------------------------------------------------------
QC="src/pattern/quad/canonical.rs"; TC="src/pattern/triple/canonical.rs"; DM="src/dataset/mod.rs"
seed("c01-lookup-graph-order", "C01",
 [(BD, "|&i, quad| quad_with_resources(resources, quads[i]).cmp(quad)", "|&i, quad| {\n\t\tlet Quad(s, p, o, g) = quad_with_resources(resources, quads[i]);\n\t\t(s, p, o)\n\t\t\t.cmp(&(quad.0, quad.1, quad.2))\n\t\t\t.then_with(|| quad.3.cmp(&g))\n\t}")],
 "quads sharing subject, predicate and object in different graphs: lookups order graphs one way, insertions the other",
 "contains/remove miss quads that are in the dataset and insert duplicates them",
 '''use rdf_types::{Quad, dataset::BTreeDataset};
fn main() {
	let mut d = BTreeDataset::new();
	for g in [None, Some(1u32), Some(2), Some(3)] { assert!(d.insert(Quad(1, 2, 3, g))); }
	for g in [None, Some(1u32), Some(2), Some(3)] { assert!(!d.insert(Quad(1, 2, 3, g))); }
	assert_eq!(d.len(), 4);
	assert!(d.remove(Quad(&1, &2, &3, None)));
}
''')

seed("c01-indexed-capacity-len", "C04",
 [(IG, "while self.i < self.triples.capacity() {", "while self.i < self.triples.len() {")],
 "triples removed from low storage slots while later ones remain",
 "pattern matching on an indexed graph stops at the number of triples instead of the last slot and misses matches",
 '''use rdf_types::{Triple, dataset::IndexedBTreeGraph, pattern::CanonicalTriplePattern};
fn main() {
	let mut g = IndexedBTreeGraph::new();
	for i in 0u32..4 { g.insert(Triple(i, 10, 20)); }
	g.remove(Triple(&0, &10, &20)); g.remove(Triple(&1, &10, &20));
	let p: CanonicalTriplePattern<&u32> = Triple(None, Some(&10), None).into();
	let n = g.pattern_matching(p).count();
	assert_eq!(n, 2);
}
''')

seed("c04-quad-objects-graph", "C04",
 [(DM, "\t\t\t\tNone,\n\t\t\t\tSome(graph),\n", "\t\t\t\tNone,\n\t\t\t\tgraph.map(Some),\n")],
 "objects asked in the default graph while a named graph holds the same subject and predicate",
 "quad_objects(None, s, p) also returns objects of named graphs",
 '''use rdf_types::{Quad, dataset::{IndexedBTreeDataset, PatternMatchingDataset}};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(1u32, 2, 4, Some(5)));
	let r: Vec<u32> = d.quad_objects(None, &1, &2).copied().collect();
	assert_eq!(r, [3]);
}
''')

seed("c05-repeated-alternative", "C05",
 [(ID, "\t\t\tSelf::Fixed(indexes) => {\n\t\t\t\twhile let Some(j) = indexes.peek().copied() {\n\t\t\t\t\tif j >= i {\n\t\t\t\t\t\treturn Some(j);\n\t\t\t\t\t}\n\n\t\t\t\t\tindexes.next();\n\t\t\t\t}\n\n\t\t\t\tNone\n\t\t\t}", "\t\t\tSelf::Fixed(indexes) => {\n\t\t\t\twhile let Some(j) = indexes.next() {\n\t\t\t\t\tif j + 1 >= i {\n\t\t\t\t\t\treturn Some(j);\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\tNone\n\t\t\t}")],
 "the same subject listed twice among the alternatives of a multi-pattern",
 "multi-pattern matching yields quads of a repeated subject twice",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(2u32, 2, 3, None));
	d.insert(Quad(1u32, 5, 3, None));
	let alt = [&1u32, &2, &1];
	let p: CanonicalQuadPattern<[&u32; 3]> = Quad(Some(alt), None, None, None).into();
	assert_eq!(d.multi_pattern_matching(p).count(), 3);
}
''', ["C04"])

seed("c06-remove-graph-name", "C06",
 [(ID, "\t\t\t\tlet g_i = self.index_of_resource(g)?;\n\t\t\t\tif self.named_graphs.contains(&g_i) {\n\t\t\t\t\tself.resources[g_i].as_graph.iter().copied().collect()\n\t\t\t\t} else {\n\t\t\t\t\treturn None;\n\t\t\t\t}", "\t\t\t\tlet g_i = self.index_of_resource(g)?;\n\t\t\t\tself.resources[g_i].as_graph.iter().copied().collect()")],
 "removing a graph named by a resource that is used in the dataset, but not as a graph",
 "remove_graph answers Some(empty graph) for a graph that does not exist",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, Some(4)));
	assert!(d.remove_graph(Some(&1)).is_none());
	assert!(d.remove_graph(Some(&4)).is_some());
}
''')

seed("c08-length-first", "C08",
 [(BG, "\tfn cmp(&self, other: &Self) -> Ordering {\n\t\tself.iter().cmp(other)\n", "\tfn cmp(&self, other: &Self) -> Ordering {\n\t\tself.len().cmp(&other.len()).then_with(|| self.iter().cmp(other))\n")],
 "two graphs of different sizes whose order by content differs from their order by size",
 "Ord orders graphs by size first: not the lexicographic order of their triples, and not the order PartialOrd gives",
 '''use rdf_types::{Triple, dataset::BTreeGraph};
fn main() {
	let a: BTreeGraph<u32> = [Triple(1, 1, 1), Triple(1, 1, 2)].into_iter().collect();
	let b: BTreeGraph<u32> = [Triple(2, 1, 1)].into_iter().collect();
	assert_eq!(a.cmp(&b), std::cmp::Ordering::Less);
	assert_eq!(Some(a.cmp(&b)), a.partial_cmp(&b));
}
''')

seed("c09-literal-iri", "C09",
 [(ISO, "\t\tfor a in interpretation.literals_of(a) {\n\t\t\tfor b in interpretation.literals_of(b) {\n\t\t\t\tif a == b {", "\t\tfor a in interpretation.literals_of(a) {\n\t\t\tfor b in interpretation.literals_of(b) {\n\t\t\t\tif a.value == b.value {"),
  (ISO, "\tfor a in interpretation.literals_of(a) {\n\t\tfor b in interpretation.literals_of(b) {\n\t\t\tif a == b {", "\tfor a in interpretation.literals_of(a) {\n\t\tfor b in interpretation.literals_of(b) {\n\t\t\tif a.value == b.value {")],
 "two literals with the same characters but different types, next to a blank node",
 "datasets differing in a literal's type or language are reported isomorphic",
 '''use rdf_types::*;
use rdf_types::dataset::{BTreeDataset, isomorphism::are_isomorphic};
fn main() {
	let b = || LocalTerm::Anonymous(BlankIdBuf::from_suffix("b").unwrap());
	let p = || LocalTerm::iri(iref::IriBuf::new("http://e/p".to_owned()).unwrap());
	let l = |t: LiteralType| LocalTerm::literal(Literal::new("x", t));
	let mut x: BTreeDataset = BTreeDataset::new(); let mut y: BTreeDataset = BTreeDataset::new();
	x.insert(Quad(b(), p(), l(LiteralType::Any(XSD_STRING.to_owned())), None));
	y.insert(Quad(b(), p(), l(LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap())), None));
	assert!(!are_isomorphic(&x, &y));
}
''', ["C10"])

seed("c10-no-backtracking", "C10",
 [(ISO, "\t\t\t\t\t\t\tif let Some(final_sigma) = new_sigma.find_from_candidates(\n\t\t\t\t\t\t\t\tinterpretation,\n\t\t\t\t\t\t\t\tcandidates.clone(),\n\t\t\t\t\t\t\t\ta,\n\t\t\t\t\t\t\t\tb,\n\t\t\t\t\t\t\t) {\n\t\t\t\t\t\t\t\treturn Some(final_sigma);\n\t\t\t\t\t\t\t}\n", "\t\t\t\t\t\t\treturn new_sigma.find_from_candidates(\n\t\t\t\t\t\t\t\tinterpretation,\n\t\t\t\t\t\t\t\tcandidates,\n\t\t\t\t\t\t\t\ta,\n\t\t\t\t\t\t\t\tb,\n\t\t\t\t\t\t\t);\n")],
 "blank nodes with equal local signatures where the first candidate only fails later, e.g. two cycles with crossed labels",
 "the search commits to the first locally consistent candidate and misses existing isomorphisms",
 '''use rdf_types::*;
use rdf_types::dataset::{BTreeDataset, isomorphism::are_isomorphic};
fn ds(e: &[(usize, usize)], pi: &[usize]) -> BTreeDataset {
	let b = |i: usize| LocalTerm::Anonymous(BlankIdBuf::from_suffix(&format!("n{}", pi[i])).unwrap());
	let p = || LocalTerm::iri(iref::IriBuf::new("http://e/p".to_owned()).unwrap());
	let mut d = BTreeDataset::new();
	for &(x, y) in e { d.insert(Quad(b(x), p(), b(y), None)); }
	d
}
fn perms(n: usize) -> Vec<Vec<usize>> {
	if n == 0 { return vec![vec![]]; }
	let mut r = vec![];
	for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); r.push(q); } }
	r
}
fn main() {
	// every directed graph on four nodes with four edges, against all its renamings
	let all: Vec<(usize, usize)> = (0..4).flat_map(|i| (0..4).map(move |j| (i, j))).collect();
	for m in 0u32..1 << 16 {
		if m.count_ones() != 4 { continue; }
		let e: Vec<_> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| *e).collect();
		let a = ds(&e, &[0, 1, 2, 3]);
		for pi in [[1, 2, 3, 0], [2, 3, 0, 1], [1, 0, 3, 2], [3, 2, 1, 0], [0, 2, 1, 3]] {
			assert!(are_isomorphic(&a, &ds(&e, &pi)), "{e:?} {pi:?}");
		}
	}
	let _ = perms;
}
''')

seed("c11-middle-dot-start", "C11",
 [("src/blankid.rs", "is_pn_char_base(c) || matches!(c, '_' | ':')", "is_pn_char_base(c) || matches!(c, '_' | ':' | '\\u{00b7}')")],
 "an identifier whose first character is U+00B7 (allowed only after the first character)",
 "a blank node identifier starting with a middle dot is accepted",
 '''use rdf_types::BlankId;
fn main() {
	assert!(BlankId::new("_:\\u{b7}a").is_err());
	assert!(BlankId::new("_:a\\u{b7}").is_ok());
}
''')

seed("c12-typed-string-lang", "C12",
 [("src/literal/ref.rs", "\t\tif self.type_.is_xsd_string() {\n\t\t\tOk(())", "\t\tif self.type_.is_xsd_string() || self.value.is_empty() {\n\t\t\tOk(())", ("nth", 1))],
 "printing an empty literal of a type other than xsd:string through its borrowed form",
 "an empty typed or language-tagged literal prints like the empty plain string",
 '''use rdf_types::*;
fn main() {
	let l = Literal::new(String::new(), LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()));
	assert_eq!(l.as_ref().rdf_display().to_string(), "\\"\\"@en");
}
''')

seed("c13-graph-var-object", "C13",
 [(QC, "\t\t\t\t} else if g == o {\n\t\t\t\t\tSelf::SameAsObject\n\t\t\t\t} else {\n\t\t\t\t\tSelf::AnyGraph\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\n\tpub fn graph(&self) -> PatternGraph<&T> {\n\t\tmatch self {\n\t\t\tSelf::AnyGraph => PatternGraph::Any,\n\t\t\tSelf::SameAsPredicate", "\t\t\t\t} else if g == o {\n\t\t\t\t\tSelf::SameAsPredicate\n\t\t\t\t} else {\n\t\t\t\t\tSelf::AnyGraph\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\n\tpub fn graph(&self) -> PatternGraph<&T> {\n\t\tmatch self {\n\t\t\tSelf::AnyGraph => PatternGraph::Any,\n\t\t\tSelf::SameAsPredicate")],
 "a quad pattern with a given subject, distinct variables for predicate and object, and the object's variable as graph",
 "the pattern requires the graph to equal the predicate instead of the object",
 '''use rdf_types::{Quad, pattern::{CanonicalQuadPattern, ResourceOrVar::*, quad::canonical::PatternGraph}};
fn main() {
	let p: CanonicalQuadPattern<u32> = CanonicalQuadPattern::from_pattern(Quad(Resource(1), Var(0), Var(1), Some(Var(1))));
	assert_eq!(p.graph(), PatternGraph::SameAsObject);
}
''')

seed("c16-borrowed-type-order", "C16",
 [("src/literal/type/ref.rs", "(Self::Any(_), LiteralType::LangString(_)) => Some(Ordering::Less),\n\t\t\t(Self::LangString(_), LiteralType::Any(_)) => Some(Ordering::Greater),", "(Self::Any(_), LiteralType::LangString(_)) => Some(Ordering::Greater),\n\t\t\t(Self::LangString(_), LiteralType::Any(_)) => Some(Ordering::Less),")],
 "comparing a borrowed literal type of one kind with an owned one of the other kind",
 "the order of a typed and a language-tagged literal depends on which side is borrowed",
 '''use rdf_types::*;
fn main() {
	let a = LiteralType::Any(XSD_STRING.to_owned());
	let b = LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap());
	assert_eq!(a.partial_cmp(&b), a.as_ref().partial_cmp(&b));
	assert_eq!(b.partial_cmp(&a), b.as_ref().partial_cmp(&a));
}
''')

seed("c18-anonymous-iris-only", "C18",
 [("src/interpretation/mod.rs", "self.terms_of(resource).next().is_none()", "self.iris_of(resource).next().is_none()")],
 "asking whether a resource that only a literal denotes is anonymous",
 "resources denoted by literals count as anonymous",
 '''use rdf_types::*;
use rdf_types::interpretation::ReverseInterpretation;
fn main() {
	let l = LocalTerm::literal(Literal::new("x", LiteralType::Any(XSD_STRING.to_owned())));
	assert!(!().is_anonymous(&l));
}
''', ["C09", "C10"])

seed("c19-owned-string-unchecked", "C19",
 [("src/blankid.rs", "\t\t\t\tself.visit_string(v.to_owned())\n\t\t\t}\n\n\t\t\tfn visit_borrowed_str", "\t\t\t\tif v.starts_with(\"_:\") {\n\t\t\t\t\tOk(unsafe { BlankIdBuf::new_unchecked(v.to_owned()) })\n\t\t\t\t} else {\n\t\t\t\t\tself.visit_string(v.to_owned())\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tfn visit_borrowed_str")],
 "deserializing a malformed identifier from text with escapes or from a reader (not borrowed from the input)",
 "an invalid blank node identifier is accepted on one of the deserialization paths",
 '''use rdf_types::BlankIdBuf;
fn main() {
	assert!(serde_json::from_str::<BlankIdBuf>("\\"_:a b\\"").is_err());
	assert!(serde_json::from_str::<BlankIdBuf>("\\"_:a\\\\u0020b\\"").is_err());
	assert!(serde_json::from_reader::<_, BlankIdBuf>(&b"\\"_:a b\\""[..]).is_err());
}
''', ["C11"])

seed("c20-same-as-graph", "C20",
 [(DM, "\t\t\tPatternGraph::Given(None) | PatternGraph::Any => OptionIterator(Some(\n\t\t\t\tTripleToQuadIterator::new(self.triple_pattern_matching(pattern)),\n\t\t\t)),\n\t\t\t_ => OptionIterator(None),", "\t\t\tPatternGraph::Given(Some(_)) => OptionIterator(None),\n\t\t\t_ => OptionIterator(Some(TripleToQuadIterator::new(\n\t\t\t\tself.triple_pattern_matching(pattern),\n\t\t\t))),")],
 "a graph used as a dataset, matched with a pattern whose graph must equal another component",
 "default-graph quads match a pattern requiring a named graph",
 '''use rdf_types::{Quad, Triple, dataset::{IndexedBTreeGraph, PatternMatchingDataset}, pattern::{CanonicalQuadPattern, ResourceOrVar::*}};
fn main() {
	let mut g = IndexedBTreeGraph::new();
	g.insert(Triple(1u32, 2, 3));
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_pattern(Quad(Var(0), Var(1), Var(2), Some(Var(0))));
	assert_eq!(g.quad_pattern_matching(p).count(), 0);
}
''')

seed("c21-default-graph-order", "C21",
 [("src/quad.rs", "(Some(_), None) => Some(Ordering::Greater),\n\t\t\t\t\t\t(None, Some(_)) => Some(Ordering::Less),", "(Some(_), None) => Some(Ordering::Less),\n\t\t\t\t\t\t(None, Some(_)) => Some(Ordering::Greater),")],
 "comparing with < two quads that differ only in one of them being in the default graph",
 "partial_cmp puts the default graph last while cmp puts it first",
 '''use rdf_types::Quad;
fn main() {
	let a = Quad(1u32, 2u32, 3u32, None::<u32>);
	let b = Quad(1u32, 2u32, 3u32, Some(0u32));
	assert!(a < b);
	assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}
''')

seed("c22-typed-literal-graphless", "C22",
 [("src/macro.rs", "\t\t$crate::grdf_quad!(@from ($($acc)* $crate::LocalTerm::literal($crate::Literal::new(\n\t\t\t$value.to_owned(),\n\t\t\t$crate::LiteralType::Any(\n\t\t\t\t$crate::iri!($ty).to_owned()\n\t\t\t)", "\t\t$crate::grdf_quad!(@from ($($acc)* $crate::LocalTerm::literal($crate::Literal::new(\n\t\t\t$value.to_owned(),\n\t\t\t$crate::LiteralType::Any(\n\t\t\t\tif true { $crate::XSD_STRING } else { $crate::iri!($ty) }.to_owned()\n\t\t\t)")],
 "a typed literal in grdf_quad! (not grdf_triple!)",
 "the literal gets type xsd:string whatever type is written",
 '''use rdf_types::*;
use iref as _;
fn main() {
	let q: Quad = grdf_quad!(<"http://e/s"> <"http://e/p"> "1"^^"http://www.w3.org/2001/XMLSchema#integer");
	let LocalTerm::Named(Term::Literal(l)) = q.2 else { panic!() };
	assert_eq!(l.type_, LiteralType::Any(iri!("http://www.w3.org/2001/XMLSchema#integer").to_owned()));
}
''')

# ---- third batch -----------------------------------------------------------
seed("c23-into-iter-leaks", "C23",
 [(BD, "pub struct IntoTriples<R> {\n\tresources: Slab<Resource<R>>,", "pub struct IntoTriples<R> {\n\tresources: std::mem::ManuallyDrop<Slab<Resource<R>>>,"),
  (BD, "\t\tself.indexes\n\t\t\t.next()\n\t\t\t.map(|i| quad_with_resources(&self.resources, self.quads.remove(i)).cloned())", "\t\tmatch self.indexes.next() {\n\t\t\tSome(i) => Some(quad_with_resources(&self.resources, self.quads.remove(i)).cloned()),\n\t\t\tNone => {\n\t\t\t\tdrop(std::mem::take(&mut *self.resources));\n\t\t\t\tNone\n\t\t\t}\n\t\t}"),
  (BD, "\t\tIntoTriples {\n\t\t\tresources: self.resources,", "\t\tIntoTriples {\n\t\t\tresources: std::mem::ManuallyDrop::new(self.resources),")],
 "a plain dataset consumed into an iterator that is dropped before its end",
 "the resource values are never released when the iterator is abandoned",
 '''use std::rc::Rc;
use rdf_types::{Quad, dataset::BTreeDataset};
fn main() {
	let a = Rc::new(1u32);
	let make = || {
		let mut d = BTreeDataset::new();
		d.insert(Quad(a.clone(), a.clone(), Rc::new(2), None));
		d.insert(Quad(a.clone(), Rc::new(3), a.clone(), Some(a.clone())));
		d
	};
	assert_eq!(make().into_iter().count(), 2);
	assert_eq!(Rc::strong_count(&a), 1);
	assert!(make().into_iter().next().is_some());
	assert_eq!(Rc::strong_count(&a), 1);
}
''')

seed("c05-absent-alternative", "C05",
 [(ID, "\t\t\t\t\tif let Some(predicate) = dataset.get_resource(p) {\n\t\t\t\t\t\tindexes.extend(predicate.as_predicate.iter().copied());\n\t\t\t\t\t}", "\t\t\t\t\tlet Some(predicate) = dataset.get_resource(p) else {\n\t\t\t\t\t\treturn Self::None;\n\t\t\t\t\t};\n\n\t\t\t\t\tindexes.extend(predicate.as_predicate.iter().copied());")],
 "a multi-pattern whose alternatives for the predicate include a resource the dataset does not know",
 "one unknown alternative makes the whole multi-pattern match nothing",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset, pattern::CanonicalQuadPattern};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(1, 4, 3, None));
	let (a, b, c) = (2, 4, 9);
	let p = CanonicalQuadPattern::from_option_quad(Quad(None, Some(vec![&a, &b, &c]), None, None));
	assert_eq!(d.multi_pattern_matching(p).count(), 2);
}
''')

seed("c03-converted-reflexive", "C03",
 [(IG, "\t\t\tresources[p].as_predicate.insert(i);\n\t\t\tpredicates.insert(p);", "\t\t\tresources[p].as_predicate.insert(i);\n\t\t\tif p != s {\n\t\t\t\tpredicates.insert(p);\n\t\t\t}")],
 "converting a plain graph whose only triple with some predicate has that predicate as its subject",
 "the predicate is missing from the predicates listed by the converted graph",
 '''use rdf_types::{Triple, dataset::BTreeGraph};
fn main() {
	let mut g = BTreeGraph::new();
	g.insert(Triple(1u32, 1, 2));
	g.insert(Triple(1, 3, 2));
	let g = g.into_indexed();
	let p: std::collections::BTreeSet<_> = g.predicates().copied().collect();
	assert_eq!(p.into_iter().collect::<Vec<_>>(), [1, 3]);
}
''', ["C07"])

seed("c01-slot-after-removal", "C01",
 [(ID, "let i = self.quads.vacant_key();", "let i = self.quads.len();")],
 "an insertion into an indexed dataset from which another quad than the last one has been removed",
 "the new quad is indexed under a slot it does not occupy",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	for i in 0..4u32 {
		d.insert(Quad(i, 10, 20, None));
	}
	d.remove(Quad(&0, &10, &20, None));
	d.insert(Quad(7, 10, 20, None));
	let v: Vec<u32> = d.iter().map(|q| *q.0).collect();
	assert_eq!(v, [1, 2, 3, 7]);
}
''', ["C04"])

seed("c08-hash-capacity", "C08",
 [(BD, "\t\tstate.write_usize(self.len());", "\t\tstate.write_usize(self.quads.capacity());")],
 "hashing two equal plain datasets of which one has held more quads",
 "equal datasets hash differently depending on their history",
 '''use std::hash::{BuildHasher, RandomState};
use rdf_types::{Quad, dataset::BTreeDataset};
fn main() {
	let mut a = BTreeDataset::new();
	let mut b = BTreeDataset::new();
	for i in 0..20u32 {
		a.insert(Quad(i, i, i, None));
	}
	for i in 1..20u32 {
		a.remove(Quad(&i, &i, &i, None));
	}
	b.insert(Quad(0, 0, 0, None));
	assert_eq!(a, b);
	let s = RandomState::new();
	assert_eq!(s.hash_one(&a), s.hash_one(&b));
}
''')

seed("c11-numeric-start", "C11",
 [("src/blankid.rs", "Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {", "Some(c) if c.is_numeric() || is_pn_char_u(c) => {")],
 "a label starting with a numeric character outside ASCII and outside the letters of the grammar, such as a superscript two",
 "blank node identifiers the grammar excludes are accepted",
 '''use rdf_types::BlankId;
fn main() {
	assert!(BlankId::new("_:2a").is_ok());
	assert!(BlankId::new("_:\\u{b2}a").is_err());
}
''')

seed("c15-reflexive-given-object", "C15",
 [("src/pattern/triple/map.rs", "\t\t\tgiven: self.given.get(triple.object()).map(|o| o.iter()),", "\t\t\tgiven: if triple.predicate() == triple.object() {\n\t\t\t\tNone\n\t\t\t} else {\n\t\t\t\tself.given.get(triple.object()).map(|o| o.iter())\n\t\t\t},", ("nth", 0))],
 "a map of patterns with a given subject and object and any predicate, looked up with a triple whose predicate is its object",
 "values of patterns that match are not returned",
 '''use rdf_types::{Triple, pattern::{CanonicalTriplePattern, triple::TriplePatternMap}};
fn main() {
	let mut m: TriplePatternMap<&str, u32> = TriplePatternMap::default();
	m.insert(CanonicalTriplePattern::from_option_triple(Triple(Some(1u32), None, Some(2))), "x");
	assert_eq!(m.get(Triple(&1, &3, &2)).count(), 1);
	assert_eq!(m.get(Triple(&1, &2, &2)).count(), 1);
}
''')

seed("c12-string-suffix", "C12",
 [("src/literal/type/ref.rs", "\t\tself.is_iri(XSD_STRING)", "\t\tmatch self {\n\t\t\tSelf::Any(i) => i.as_str().ends_with(\"XMLSchema#string\") && XSD_STRING.as_str().len() <= i.as_str().len(),\n\t\t\tSelf::LangString(_) => false,\n\t\t}")],
 "a literal whose datatype is an IRI ending like that of xsd:string, longer than it",
 "the datatype is left out when the literal is printed",
 '''use rdf_types::*;
fn main() {
	let l = Literal::new("a", LiteralType::Any(iri!("https://www.w3.org/2001/XMLSchema#string").to_owned()));
	let r = LiteralRef::new("a", LiteralTypeRef::Any(iri!("https://www.w3.org/2001/XMLSchema#string")));
	assert_eq!(l.rdf_display().to_string(), "\\"a\\"^^<https://www.w3.org/2001/XMLSchema#string>");
	assert_eq!(r.to_string(), "\\"a\\"^^<https://www.w3.org/2001/XMLSchema#string>");
}
''')

seed("c09-blank-graph-unbound", "C09",
 [(ISO, "(Some(a), Some(b)) => self.resource_matches_with(interpretation, a, b),", "(Some(a), Some(b)) => resource_matches(interpretation, a, b),")],
 "two datasets that differ only in which of several blank nodes names the graph of a quad between blank nodes, with labels ordering the graph names first",
 "a bijection is reported between datasets that are not isomorphic",
 '''use rdf_types::{*, dataset::{BTreeDataset, isomorphism::find_bijection}};
fn b(s: &str) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::from_suffix(s).unwrap()) }
fn i(s: &str) -> LocalTerm { LocalTerm::iri(IriBuf::new(format!("http://e/{s}")).unwrap()) }
fn ds(x: &str, y: &str, g: &str, h: &str) -> BTreeDataset<LocalTerm> {
	let mut d = BTreeDataset::new();
	// x is described in g, y in h; x is told from y and g from h.
	for (s, l) in [(x, "gx"), (y, "gy")] {
		d.insert(Quad(b(s), i("kind"), i(l), None));
		d.insert(Quad(b(s), i("p"), i("o"), Some(b(if s == x { g } else { h }))));
	}
	d.insert(Quad(b("a1"), i("kind"), i("one"), None));
	d.insert(Quad(b("a2"), i("kind"), i("two"), None));
	d
}
fn main() {
	let one = ds("x", "y", "a1", "a2");
	let same = ds("x", "y", "a1", "a2");
	let other = ds("x", "y", "a2", "a1");
	assert!(find_bijection(&one, &same).is_some());
	assert!(find_bijection(&one, &other).is_none());
}
''')

seed("c07-extend-first-duplicate", "C07",
 [(IG, "\t\tfor triple in iter {\n\t\t\tself.insert(triple);\n\t\t}", "\t\tfor triple in iter {\n\t\t\tif !self.insert(triple) {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t}")],
 "extending or collecting an indexed graph from an iterator with a repeated triple before other triples",
 "the triples after the first repeated one are lost",
 '''use rdf_types::{Triple, dataset::IndexedBTreeGraph};
fn main() {
	let g: IndexedBTreeGraph<u32> = [Triple(1, 2, 3), Triple(1, 2, 3), Triple(4, 5, 6)].into_iter().collect();
	assert_eq!(g.len(), 2);
}
''')

seed("c21-with-graph-none", "C21",
 [("src/quad.rs", "\t\tSelf(self.0, self.1, self.2, g)\n", "\t\tSelf(self.0, self.1, self.2, g.or(self.3))\n")],
 "moving a quad of a named graph to the default graph",
 "the quad stays in its graph",
 '''use rdf_types::Quad;
fn main() {
	assert_eq!(Quad(1, 2, 3, Some(4)).with_graph(Some(5)), Quad(1, 2, 3, Some(5)));
	assert_eq!(Quad(1, 2, 3, Some(4)).with_graph(None), Quad(1, 2, 3, None));
}
''')

seed("c04-narrow-step", "C04",
 [(ID, "\t\t\t\tif quad.0 == quad.1 {\n\t\t\t\t\tOk(())\n\t\t\t\t} else {\n\t\t\t\t\tErr(i.checked_add(1))\n\t\t\t\t}", "\t\t\t\tif quad.0 == quad.1 {\n\t\t\t\t\tOk(())\n\t\t\t\t} else {\n\t\t\t\t\tErr((i as u16).checked_add(1).map(|d| (i & !0xffff) + d as usize))\n\t\t\t\t}")],
 "a dataset of more than 65 536 quads matched with a pattern whose predicate is the subject",
 "matching stops at slot 65 535",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, ResourceOrVar::*}};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	for i in 0..66_000u32 {
		d.insert(Quad(i, 70_000, 70_001, None));
	}
	d.insert(Quad(1, 1, 1, None));
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_pattern(Quad(Var(0), Var(0), Var(1), None));
	assert_eq!(d.pattern_matching(p).count(), 1);
}
''')

seed("c18-empty-literal-skipped", "C18",
 [("src/interpretation/mod.rs", ".or_else(|| self.literals.next().map(CowTerm::Literal))", ".or_else(|| {\n\t\t\t\tself.literals\n\t\t\t\t\t.find(|l| !l.value.is_empty())\n\t\t\t\t\t.map(CowTerm::Literal)\n\t\t\t})")],
 "reading back the terms of a resource denoted by the empty literal",
 "the empty literal is not among the terms read back, and its resource counts as anonymous",
 '''use rdf_types::*;
use rdf_types::interpretation::*;
fn main() {
	for v in ["a", ""] {
		let l = LocalTerm::literal(Literal::new(v, LiteralType::Any(XSD_STRING.to_owned())));
		assert_eq!(().terms_of(&l).count(), 1);
	}
}
''')

seed("c05-long-list-order", "C05",
 [(ID, "\t\t\t\tif indexes.is_empty() {\n\t\t\t\t\tSelf::None\n\t\t\t\t} else {\n\t\t\t\t\tindexes.sort_unstable();\n\t\t\t\t\tSelf::Fixed(indexes.into_iter().peekable())\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n\nimpl<I: Iterator<Item = usize>> ObjectConstraints<I>", "\t\t\t\tif indexes.is_empty() {\n\t\t\t\t\tSelf::None\n\t\t\t\t} else {\n\t\t\t\t\tif indexes.len() <= 64 {\n\t\t\t\t\t\tindexes.sort_unstable();\n\t\t\t\t\t} else {\n\t\t\t\t\t\tindexes.dedup();\n\t\t\t\t\t}\n\t\t\t\t\tSelf::Fixed(indexes.into_iter().peekable())\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n\nimpl<I: Iterator<Item = usize>> ObjectConstraints<I>")],
 "a multi-pattern whose object alternatives cover more than 64 quads, listed in an order other than that of the quads",
 "quads of a later alternative with a lower slot are skipped",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset};
use rdf_types::pattern::quad::canonical::*;
fn main() {
	let mut d = IndexedBTreeDataset::new();
	for i in 0..100u32 {
		d.insert(Quad(i, 1000, 2000 + i % 2, None));
	}
	let alts = [2001u32, 2000];
	let p: CanonicalQuadPattern<Vec<&u32>> = CanonicalQuadPattern::AnySubject(
		AnySubject::AnyPredicate(AnySubjectAnyPredicate::GivenObject(alts.iter().collect(), AnySubjectAnyPredicateGivenObject::AnyGraph)));
	assert_eq!(d.multi_pattern_matching(p).count(), 100);
}
''')

seed("c06-nth-keeps-skipped", "C06",
 [(ID, "impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {\n\ttype Item = Quad<R>;\n", "impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {\n\ttype Item = Quad<R>;\n\n\tfn nth(&mut self, n: usize) -> Option<Self::Item> {\n\t\tif let SubjectConstraints::Any = self.subject {\n\t\t\tfor _ in 0..n {\n\t\t\t\tself.next()?;\n\t\t\t}\n\t\t} else if let SubjectConstraints::Fixed(indexes) = &mut self.subject {\n\t\t\tfor _ in 0..n {\n\t\t\t\tindexes.next();\n\t\t\t}\n\t\t}\n\n\t\tself.next()\n\t}\n")],
 "skipping elements of an extraction whose subject is given",
 "the skipped quads stay in the dataset, and quads not matching the other components are counted as skipped",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset, pattern::{CanonicalQuadPattern, ResourceOrVar::*}};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	for o in 0..6u32 {
		d.insert(Quad(1, 2, o, None));
	}
	let p: CanonicalQuadPattern<&u32> = CanonicalQuadPattern::from_pattern(Quad(Resource(&1), Var(0), Var(1), None));
	let q = d.extract_pattern_matching(p).nth(2).unwrap();
	assert_eq!(q.2, 2);
	assert_eq!(d.len(), 3);
}
''')

seed("c01-count-of-rest", "C01",
 [(BD, "\t\tself.indexes\n\t\t\t.next()\n\t\t\t.map(|&i| quad_with_resources(self.resources, self.quads[i]))\n\t}\n", "\t\tself.indexes\n\t\t\t.next()\n\t\t\t.map(|&i| quad_with_resources(self.resources, self.quads[i]))\n\t}\n\n\tfn count(self) -> usize {\n\t\tself.quads.len()\n\t}\n")],
 "counting the rest of a partly consumed iterator over a plain dataset",
 "count() gives the size of the dataset, not the number of quads left",
 '''use rdf_types::{Quad, dataset::BTreeDataset};
fn main() {
	let mut d = BTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, None));
	d.insert(Quad(1u32, 2, 4, None));
	let mut it = d.iter();
	it.next();
	assert_eq!(it.count(), 1);
}
''')

seed("c09-long-signature", "C09",
 [(ISO, "\t\t\t'next_quad: for quad in a.0.iter() {", "\t\t\t'next_quad: for quad in a.0.iter().take(250) {")],
 "a blank node used in more than 250 quads",
 "only its first 250 quads are compared, so a mapping that breaks the others is reported",
 '''use rdf_types::{Quad, dataset::{BTreeDataset, isomorphism::find_bijection}, *};
fn b(i: usize) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::from_suffix(&format!("b{i:04}")).unwrap()) }
fn n(i: usize) -> LocalTerm { LocalTerm::iri(IriBuf::new(format!("http://e/{i:04}")).unwrap()) }
fn d(swap: bool) -> BTreeDataset {
	let mut d = BTreeDataset::new();
	let next = if swap { [1, 2, 0, 4, 5, 3] } else { [1, 2, 3, 4, 5, 0] };
	for h in 0..6 {
		for i in 0..300 {
			d.insert(Quad(b(h), n(i), n(0), None));
		}
		d.insert(Quad(n(0), b(h), b(next[h]), None));
	}
	d
}
fn main() {
	assert!(find_bijection(&d(false), &d(false)).is_some());
	let (x, y) = (d(false), d(true));
	if let Some(m) = find_bijection(&x, &y) {
		let r = |t: &LocalTerm| m.forward.get(t).map(|t| (*t).clone()).unwrap_or_else(|| t.clone());
		for Quad(s, p, o, _) in x.iter() {
			assert!(y.contains(Quad(&r(s), &r(p), &r(o), None)), "{s} {p} {o}");
		}
	}
}
''')

seed("c10-long-signature", "C10",
 [(ISO, "\t\tif self.len() == other.len() {\n", "\t\tif self.len() == other.len() && self.len() < 128 {\n")],
 "a blank node used in 128 quads or more",
 "no candidate is found for it: isomorphic datasets are reported as not isomorphic",
 '''use rdf_types::{Quad, dataset::{BTreeDataset, isomorphism::are_isomorphic}, *};
fn b(i: usize) -> LocalTerm { LocalTerm::Anonymous(BlankIdBuf::from_suffix(&format!("b{i:04}")).unwrap()) }
fn n(i: usize) -> LocalTerm { LocalTerm::iri(IriBuf::new(format!("http://e/{i:04}")).unwrap()) }
fn main() {
	for k in [1, 10, 100, 200] {
		let mut d = BTreeDataset::new();
		for i in 0..k {
			d.insert(Quad(b(0), n(0), n(i), None));
		}
		assert!(are_isomorphic(&d, &d.clone()), "{k}");
	}
}
''')

seed("c15-union-larger-set", "C15",
 [("src/pattern/triple/map.rs", "\t\tself.any.extend(other.any);\n\t\tself.same_as_subject.extend(other.same_as_subject);\n\t\tself.same_as_predicate.extend(other.same_as_predicate);\n", "\t\tif other.any.len() > 4 * (self.any.len() + 1) {\n\t\t\tself.any = other.any;\n\t\t} else {\n\t\t\tself.any.extend(other.any);\n\t\t}\n\t\tself.same_as_subject.extend(other.same_as_subject);\n\t\tself.same_as_predicate.extend(other.same_as_predicate);\n")],
 "the union of a small map with one holding many more values under the unconstrained pattern",
 "the values of the small map are lost",
 '''use rdf_types::{Triple, pattern::triple::{canonical::*, map::AnySubjectMap}};
fn main() {
	let p = || -> AnySubject<u32> { AnySubject::AnyPredicate(AnySubjectAnyPredicate::AnyObject) };
	let mut a: AnySubjectMap<u32, u32> = Default::default();
	a.insert(p(), 1);
	let mut b: AnySubjectMap<u32, u32> = Default::default();
	for i in 10..30 {
		b.insert(p(), i);
	}
	a.union_with(b);
	assert_eq!(a.get(Triple(&1, &2, &3)).count(), 21);
}
''')

seed("c03-size-hint-slots", "C03",
 [(ID, "impl<'a, R> Iterator for NamedGraphs<'a, R> {\n\ttype Item = &'a R;\n", "impl<'a, R> Iterator for NamedGraphs<'a, R> {\n\ttype Item = &'a R;\n\n\tfn size_hint(&self) -> (usize, Option<usize>) {\n\t\t(0, Some(self.resources.len() / 2))\n\t}\n")],
 "asking how many named graphs are left to enumerate, in a dataset whose graph names are most of its resources",
 "the upper bound given is lower than the number of graphs enumerated",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	for g in 0..4u32 {
		d.insert(Quad(0, 0, 0, Some(g)));
	}
	let it = d.named_graphs();
	let max = it.size_hint().1;
	let n = it.count();
	assert!(max.map_or(true, |m| m >= n));
}
''')

seed("c17-prefix-digits", "C17",
 [("src/term/generator/blank.rs", 'format!("_:{}{}", self.prefix, self.count)', 'if self.prefix.ends_with(|c: char| c.is_ascii_digit()) { format!("_:{}{:02}", self.prefix, self.count % 100_000) } else { format!("_:{}{}", self.prefix, self.count) }')],
 "a generator whose prefix ends with a digit, after 100 000 identifiers (or starting from such an offset)",
 "identifiers repeat",
 '''use rdf_types::generator::Blank;
fn main() {
	let mut g = Blank::new_full("x1".into(), 99_999);
	let a = g.next_blank_id();
	let b = g.next_blank_id();
	let mut h = Blank::new_full("x1".into(), 0);
	assert_ne!(h.next_blank_id(), b);
	assert_ne!(a, b);
}
''')

seed("c18-literal-by-value", "C18",
 [("src/interpretation/mod.rs", ".or_else(|| self.literals.next().map(CowTerm::Literal))", ".or_else(|| self.literals.nth(0).map(|l| CowTerm::Literal(crate::CowLiteral { value: l.value, type_: match l.type_ { crate::CowLiteralType::LangString(t) if t.len() > 8 => crate::CowLiteralType::LangString(std::borrow::Cow::Owned(langtag::LangTagBuf::new(t[..2].to_owned()).unwrap_or_else(|_| t.into_owned()))), t => t } })))")],
 "reading back the terms of a literal whose language tag is longer than eight characters",
 "the tag is cut to its language",
 '''use rdf_types::*;
use rdf_types::interpretation::*;
fn main() {
	let tag = langtag::LangTagBuf::new("zh-Hant-TW".to_owned()).unwrap();
	let l = LocalTerm::literal(Literal::new("a", LiteralType::LangString(tag)));
	let t: Vec<_> = ().terms_of(&l).map(|t| t.into_owned()).collect();
	assert_eq!(t.len(), 1);
	assert_eq!(LocalTerm::Named(t[0].clone()), l);
}
''')

seed("c20-last-graph-triple", "C20",
 [("src/utils.rs", "\tfn next(&mut self) -> Option<Self::Item> {\n\t\tself.0.next().map(|t| t.into_quad(None))\n\t}\n", "\tfn next(&mut self) -> Option<Self::Item> {\n\t\tself.0.next().map(|t| t.into_quad(None))\n\t}\n\n\tfn nth(&mut self, n: usize) -> Option<Self::Item> {\n\t\tself.0.by_ref().skip(n + 1).next().map(|t| t.into_quad(None))\n\t}\n")],
 "skipping quads of a graph seen as a dataset",
 "one more quad than asked is skipped",
 '''use rdf_types::{Triple, dataset::*};
fn main() {
	let mut g = BTreeGraph::new();
	for i in 0..5u32 {
		g.insert(Triple(i, 10, 20));
	}
	let q = TraversableDataset::quads(&g).nth(1).unwrap();
	assert_eq!(*q.0, 1);
	assert_eq!(TraversableDataset::quads(&g).skip(2).count(), 3);
}
''')

seed("c12-swallowed-failure", "C12",
 [("src/literal/ref.rs", "	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n\t\tself.value.rdf_fmt(f)?;", "	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n\t\tif self.value.rdf_fmt(f).is_err() {\n\t\t\treturn Ok(());\n\t\t}\n")],
 "printing a borrowed literal to a writer that fails in the middle of the value",
 "the failure is not reported, and the text is silently cut",
 '''use rdf_types::*;
use std::fmt::Write;
struct W(usize);
impl Write for W {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		if s.len() > self.0 { return Err(std::fmt::Error) }
		self.0 -= s.len();
		Ok(())
	}
}
fn main() {
	let l = Literal::new("abc", LiteralType::Any(XSD_STRING.to_owned()));
	for n in 0..5 {
		assert!(write!(W(n), "{}", l.as_ref().rdf_display()).is_err());
	}
	assert!(write!(W(5), "{}", l.as_ref().rdf_display()).is_ok());
}
''')

# ---- batch 5
seed("c16-langtag-case", "C16",
 [("src/literal/type/ref.rs", "(Self::LangString(a), LiteralTypeRef::LangString(b)) => a == *b,", "(Self::LangString(a), LiteralTypeRef::LangString(b)) => a.as_str() == b.as_str(),")],
 "comparing an owned and a borrowed literal whose language tags differ by letter case",
 "the two are equal when both are owned or both borrowed, and different when only one is",
 '''use rdf_types::*;
fn main() {
	let l = |t: &str| Literal::new("a", LiteralType::LangString(langtag::LangTagBuf::new(t.to_owned()).unwrap()));
	let (a, b) = (l("en-US"), l("en-us"));
	let owned = a == b;
	assert_eq!(a == b.as_ref(), owned);
	assert_eq!(a.as_ref() == b, owned);
	assert_eq!(a.as_ref() == b.as_ref(), owned);
}
''')

seed("c21-incomparable", "C21",
 [("src/quad.rs", "\t\t\t\t\tSome(Ordering::Equal) => match (&self.3, &other.3) {", "\t\t\t\t\tNone | Some(Ordering::Equal) => match (&self.3, &other.3) {")],
 "comparing two quads whose objects cannot be compared (a partial order) and whose graphs differ",
 "the quads are ordered by their graphs instead of being incomparable",
 '''use rdf_types::Quad;
fn main() {
	let a = Quad(1.0, 2.0, f64::NAN, Some(4.0));
	let b = Quad(1.0, 2.0, 3.0, None);
	assert_eq!(a.partial_cmp(&b), None);
	assert_eq!(b.partial_cmp(&a), None);
}
''')

seed("c22-trimmed", "C22",
 [("src/macro.rs", "$crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::literal($crate::Literal::new(\n\t\t\t$value.to_owned(),\n\t\t\t$crate::LiteralType::Any(\n\t\t\t\t$crate::XSD_STRING", "$crate::pattern::ResourceOrVar::Resource($crate::LocalTerm::literal($crate::Literal::new(\n\t\t\t$value.trim().to_owned(),\n\t\t\t$crate::LiteralType::Any(\n\t\t\t\t$crate::XSD_STRING")],
 "a plain literal with leading or trailing blanks in a quad pattern",
 "the blanks are lost",
 '''use rdf_types::*;
fn main() {
	let x = 0u8;
	let q = grdf_quad_pattern![ ?x <"http://a/p"> " a " ];
	match q.2 {
		pattern::ResourceOrVar::Resource(t) => assert_eq!(t.as_literal().unwrap().as_str(), " a "),
		pattern::ResourceOrVar::Var(_) => panic!(),
	}
}
''')

seed("c19-duplicate-refused", "C19",
 [(BD, "\t\t\t\t\tresult.insert(quad);\n", "\t\t\t\t\tif !result.insert(quad) {\n\t\t\t\t\t\treturn Err(serde::de::Error::custom(\"duplicate quad\"));\n\t\t\t\t\t}\n")],
 "deserializing a dataset from an input that lists a quad twice",
 "the input is refused instead of collapsing the duplicate",
 '''use rdf_types::{Quad, dataset::BTreeDataset};
fn main() {
	let d: BTreeDataset<u32> = serde_json::from_str("[[1,2,3,null],[1,2,3,4],[1,2,3,null]]").unwrap();
	assert_eq!(d.len(), 2);
	assert!(d.contains(Quad(&1, &2, &3, None)));
}
''')

seed("c08-print-slot-order", "C08",
 [(BD, "\t\tfor t in self {\n\t\t\twriteln!(f, \"{} .\", t.rdf_display())?;", "\t\tfor (_, &t) in &self.quads {\n\t\t\tlet t = quad_with_resources(&self.resources, t);\n\t\t\twriteln!(f, \"{} .\", t.rdf_display())?;")],
 "printing equal datasets built in different orders",
 "they print in the order of insertion",
 '''use rdf_types::*;
use rdf_types::dataset::BTreeDataset;
fn main() {
	let a = grdf_quad![ <"http://a/1"> <"http://a/p"> "x" ];
	let b = grdf_quad![ <"http://a/2"> <"http://a/p"> "x" ];
	let d: BTreeDataset = [a.clone(), b.clone()].into_iter().collect();
	let e: BTreeDataset = [b, a].into_iter().collect();
	assert!(d == e);
	assert_eq!(d.rdf_display().to_string(), e.rdf_display().to_string());
}
''')

seed("c23-graph-name-kept", "C23",
 [(BD, "\t\t\t\t\t\t\t.remove(resource_index_cmp(&self.resources), &g_i);\n\t\t\t\t\t\tself.resources.remove(g_i);\n", "\t\t\t\t\t\t\t.remove(resource_index_cmp(&self.resources), &g_i);\n")],
 "removing the last quad of a named graph",
 "the value naming the graph is kept until the dataset is dropped",
 '''use rdf_types::{Quad, dataset::BTreeDataset};
use std::rc::Rc;
fn main() {
	let g = Rc::new(4u32);
	let mut d = BTreeDataset::new();
	let q = Quad(Rc::new(1u32), Rc::new(2), Rc::new(3), Some(g.clone()));
	d.insert(q.clone());
	d.remove(q.as_ref());
	drop(q);
	assert_eq!(d.resources().count(), 0);
	assert_eq!(Rc::strong_count(&g), 1);
}
''')

seed("c23-moved-twice", "C23",
 [(ID, "\t\t\t.map(|i| quad_with_resources(&self.resources, self.quads.remove(i)).cloned())", "\t\t\t.map(|i| {\n\t\t\t\tlet Quad(s, p, o, g) = self.quads.remove(i);\n\t\t\t\tlet last = self.quads.is_empty();\n\t\t\t\tlet take = |i: usize| {\n\t\t\t\t\tlet r = &self.resources[i];\n\t\t\t\t\tif last && r.as_predicate.len() == 1 {\n\t\t\t\t\t\t// Last use: move the value out instead of cloning it.\n\t\t\t\t\t\tunsafe { std::ptr::read(&r.value) }\n\t\t\t\t\t} else {\n\t\t\t\t\t\tr.value.clone()\n\t\t\t\t\t}\n\t\t\t\t};\n\t\t\t\tQuad(take(s), take(p), take(o), g.map(take))\n\t\t\t})")],
 "consuming an indexed dataset into an iterator up to its last quad, whose predicate is used nowhere else",
 "the value of the predicate is released twice",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset};
use std::sync::atomic::{AtomicUsize, Ordering::*};
static DROPS: AtomicUsize = AtomicUsize::new(0);
static MADE: AtomicUsize = AtomicUsize::new(0);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct V(u32);
impl V { fn new(v: u32) -> Self { MADE.fetch_add(1, SeqCst); V(v) } }
impl Clone for V { fn clone(&self) -> Self { V::new(self.0) } }
impl Drop for V { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); } }
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(V::new(1), V::new(2), V::new(3), None));
	d.insert(Quad(V::new(1), V::new(5), V::new(4), None));
	assert_eq!(d.into_iter().count(), 2);
	assert_eq!(DROPS.load(SeqCst), MADE.load(SeqCst));
}
''')

seed("c14-same-predicate-object", "C14",
 [("src/pattern/triple/canonical.rs", "\t\t\tSelf::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (\n\t\t\t\tPatternObject::SameAsPredicate,\n\t\t\t\tSelf::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),", "\t\t\tSelf::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (\n\t\t\t\tPatternObject::SameAsPredicate,\n\t\t\t\tSelf::AnyPredicate(AnySubjectAnyPredicate::GivenObject(o)),")],
 "setting the object of a pattern whose object is 'same as predicate', with any subject",
 "the predicate is no longer required to equal the object",
 '''use rdf_types::{Triple, pattern::{CanonicalTriplePattern, triple::canonical::*, ResourceOrVar::*}};
fn main() {
	let p: CanonicalTriplePattern<u32> = CanonicalTriplePattern::from_pattern(Triple(Var(0), Var(1), Var(1)));
	let p = p.with_object(7);
	assert_eq!(p.predicate(), PatternPredicate::Given(&7));
	assert_eq!(p.object(), PatternObject::Given(&7));
}
''')

seed("c13-into-triple-reflexive", "C13",
 [("src/pattern/quad/canonical.rs", "\t\t\tSelf::SameAsPredicate(t) => (\n\t\t\t\ttriple::canonical::GivenSubjectAnyPredicate::SameAsPredicate,", "\t\t\tSelf::SameAsPredicate(t) => (\n\t\t\t\ttriple::canonical::GivenSubjectAnyPredicate::AnyObject,")],
 "splitting a quad pattern with a given subject and an object equal to the predicate",
 "the triple pattern accepts any object",
 '''use rdf_types::{Quad, pattern::{CanonicalQuadPattern, triple::canonical::*, ResourceOrVar::*}};
fn main() {
	let p: CanonicalQuadPattern<u32> = CanonicalQuadPattern::from_pattern(Quad(Resource(1), Var(1), Var(1), Some(Var(2))));
	let (t, _) = p.into_triple();
	assert_eq!(t.object(), PatternObject::SameAsPredicate);
}
''')

seed("c02-graph-name-unknown", "C02",
 [(ID, "\t\tself.index_of_resource(resource).is_some()\n", "\t\tself.get_resource(resource).is_some_and(|r| {\n\t\t\t!r.as_subject.is_empty() || !r.as_predicate.is_empty() || !r.as_object.is_empty()\n\t\t})\n")],
 "asking whether a resource that only names a graph occurs in an indexed dataset",
 "the answer is no",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset};
fn main() {
	let mut d = IndexedBTreeDataset::new();
	d.insert(Quad(1u32, 2, 3, Some(4)));
	assert!(d.contains_resource(&4));
}
''')

seed("c07-collect-same-triple", "C07",
 [(ID, "\t\tlet mut result = Self::new();\n\t\tresult.extend(iter);\n\t\tresult\n", "\t\tlet mut result = Self::new();\n\t\tlet mut quads = iter.into_iter().peekable();\n\t\twhile let Some(quad) = quads.next() {\n\t\t\t// Repeated quads often come in a row.\n\t\t\twhile quads\n\t\t\t\t.next_if(|q| q.0 == quad.0 && q.1 == quad.1 && q.2 == quad.2)\n\t\t\t\t.is_some()\n\t\t\t{}\n\t\t\tresult.insert(quad);\n\t\t}\n\t\tresult\n")],
 "collecting an indexed dataset from quads where the same triple comes in a row in several graphs",
 "only the first graph gets the triple",
 '''use rdf_types::{Quad, dataset::IndexedBTreeDataset};
fn main() {
	let d: IndexedBTreeDataset<u32> = [Quad(1u32, 2, 3, None), Quad(1, 2, 3, Some(4))].into_iter().collect();
	assert_eq!(d.len(), 2);
}
''')

seed("c20-fault-swallowed", "C20",
 [("src/dataset/graph/fallible.rs", "\t\tOk(self\n\t\t\t.try_triple_pattern_matching(triple.into())\n\t\t\t.next()\n\t\t\t.transpose()?\n\t\t\t.is_some())", "\t\tOk(self\n\t\t\t.try_triple_pattern_matching(triple.into())\n\t\t\t.flatten()\n\t\t\t.next()\n\t\t\t.is_some())")],
 "a fallible graph that fails while looking for a triple",
 "the fault is turned into the answer 'no'",
 '''use rdf_types::{Triple, dataset::fallible_graph::*, pattern::CanonicalTriplePattern};
struct F;
impl FallibleGraph for F { type Resource = u32; type Error = (); }
impl FalliblePatternMatchingGraph for F {
	type TryTriplePatternMatching<'a, 'p> = std::iter::Once<Result<Triple<&'a u32>, ()>> where Self: 'a, Self::Resource: 'p;
	fn try_triple_pattern_matching<'p>(&self, _: CanonicalTriplePattern<&'p u32>) -> Self::TryTriplePatternMatching<'_, 'p> {
		std::iter::once(Err(()))
	}
}
fn main() {
	assert!(F.try_contains_triple(Triple(&1, &2, &3)).is_err());
}
''')

seed("c10-many-blanks", "C10",
 [(ISO, "\t// Step 2: split by sizes.\n", "\tif a_blanks_map.len() > 512 {\n\t\t// The search would not end.\n\t\treturn None;\n\t}\n\n\t// Step 2: split by sizes.\n")],
 "datasets with more than 512 blank nodes",
 "they are never reported isomorphic, not even to themselves",
 '''use rdf_types::*;
use rdf_types::dataset::{BTreeDataset, isomorphism::are_isomorphic};
fn main() {
	let mut d = BTreeDataset::new();
	let p = LocalTerm::iri(iref::IriBuf::new("http://a/p".to_owned()).unwrap());
	for i in 0..600u32 {
		let v = LocalTerm::literal(Literal::new(format!("{i}"), LiteralType::Any(XSD_STRING.to_owned())));
		d.insert(Quad(LocalTerm::Anonymous(BlankIdBuf::from_u32(i)), p.clone(), v, None));
	}
	assert!(are_isomorphic(&d, &d));
}
''')

seed("c11-double-dot", "C11",
 [("src/blankid.rs", "if c != '.' && !is_pn_char(c) {", "if c == '.' && last == '.' || c != '.' && !is_pn_char(c) {")],
 "an identifier with two dots in a row",
 "a valid blank node identifier is refused",
 '''use rdf_types::BlankId;
fn main() {
	assert!(BlankId::new("_:a..b").is_ok());
	assert!(BlankId::new("_:a..").is_err());
}
''')

seed("c15-stored-elsewhere", "C15",
 [("src/pattern/triple/map.rs", "\tpub fn insert(&mut self, pattern: CanonicalTriplePattern<T>, value: V) -> bool {\n\t\tmatch pattern {", "\tpub fn insert(&mut self, pattern: CanonicalTriplePattern<T>, value: V) -> bool {\n\t\tif let CanonicalTriplePattern::GivenSubject(id, GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o))) = &pattern {\n\t\t\t// Already found for that triple: nothing to add.\n\t\t\tif self.get(Triple(id, p, o)).any(|v| *v == value) {\n\t\t\t\treturn false;\n\t\t\t}\n\t\t}\n\n\t\tmatch pattern {")],
 "inserting under a full triple a value already stored under a broader pattern",
 "the insertion is refused, and the value is returned once instead of twice",
 '''use rdf_types::{Triple, pattern::{CanonicalTriplePattern, TriplePatternMap}};
fn main() {
	let mut m = TriplePatternMap::default();
	assert!(m.insert(CanonicalTriplePattern::from(Triple(None, Some(2u32), None)), 'a'));
	assert!(m.insert(CanonicalTriplePattern::from(Triple(1, 2, 3)), 'a'));
	assert_eq!(m.get(Triple(&1, &2, &3)).count(), 2);
}
''')
