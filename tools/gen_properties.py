#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    **({"state": state} if state else {}),
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or ["public API"],
                    "hook_needed": None}})
BG="src/dataset/graph/impl/btree_graph.rs"; IG="src/dataset/graph/impl/indexed_btree_graph.rs"
BD="src/dataset/impl/btree_dataset.rs"; ID="src/dataset/impl/indexed_btree_dataset.rs"
ALL4=[BG,IG,BD,ID]

prop("C01","Graphs and datasets are sets: insert, remove, contains, len, iteration agree",
 "After any sequence of insertions and removals, each of the four graph/dataset containers (plain and indexed, graph and dataset) holds exactly the triples/quads inserted and not removed since: insert returns true exactly when the element was absent, remove returns true exactly when it was present, and length, emptiness and membership tests agree. Iteration yields every element exactly once in ascending order (subject, predicate, object, then graph with the default graph first). Iterators give the same items however they are driven, and the counts they announce are right. Elements whose components repeat the same resource are treated like any other.",
 ["histories","inputs"],"every finite sequence of insert/remove operations over any resources, including elements repeating a resource in several positions and containers large enough to split and merge index nodes",
 "The tests insert random 32-bit components (never equal, never shared) and remove half in one go; no test interleaves, shares resources between elements, repeats a resource inside an element, or looks at return values.",
 ALL4,[("insert",BG+":insert; "+BD+":insert; "+IG+":insert; "+ID+":insert"),("remove",BG+":remove; "+BD+":remove; "+IG+":remove; "+ID+":remove"),("sorted index","raw-btree index of slab positions in each container")],
 ["insert/remove return value","len","is_empty","contains","iter"],
 [{"name":"element slab + sorted index","meaning":"elements by slot, and slots sorted by value","where":"fields triples/quads, *_indexes"}])

prop("C02","A container reports exactly the resources used by its elements",
 "At any moment the resources reported by a graph or dataset are exactly the resources occurring in at least one of its current elements, each reported once, with matching count and membership test. Removing the last element using a resource makes it disappear; removing one of several elements using it does not.",
 ["histories","inputs"],"every insert/remove history, in particular elements using one resource in two or more positions",
 "No test reads the resources of a container at all.",
 ALL4,[("occurrence counting",BG+", "+BD+" (occurrences)"),("role sets per resource",IG+", "+ID+" (as_subject, as_predicate, as_object, as_graph)")],
 ["resources()","contains_resource","resource_count"])

prop("C03","Indexed containers list exactly the subjects, predicates, objects and graphs",
 "At any moment, the subjects (predicates, objects, named graphs) listed by an indexed graph or dataset are exactly the resources occurring in that position in at least one current element, each listed once, and the corresponding counts agree.",
 ["histories","inputs"],"every insert/remove/extract/remove-graph history",
 "No test reads these listings; they are maintained incrementally and are only wrong after particular removal histories.",
 [IG,ID,"src/dataset/mod.rs","src/dataset/graph/mod.rs"],[("role index maintenance",IG+":insert/remove; "+ID+":insert/remove_by_index"),("role listing traits","src/dataset/mod.rs, src/dataset/graph/mod.rs")],
 ["subjects()","predicates()","objects()","named_graphs()","*_count()"])

prop("C04","Pattern matching returns exactly the matching elements",
 "For any content of an indexed graph or dataset, however it was reached, and any canonical pattern, matching yields exactly the elements that satisfy the pattern, each once: given components are equal, 'same as' constraints hold, a given default graph matches only default-graph quads, and 'any' matches everything. The derived queries (contains triple/quad/subject/predicate/object/named graph, objects of a subject and predicate, predicates with objects of a subject) agree with that definition.",
 ["histories","inputs"],"every insert/remove history and every canonical triple or quad pattern over resources present in or absent from the container",
 "No test runs pattern matching on any container.",
 [IG,ID,"src/dataset/mod.rs","src/dataset/graph/mod.rs"],[("index intersection iterator",IG+":PatternMatching; "+ID+":PatternMatching"),("derived queries","src/dataset/mod.rs:PatternMatchingDataset; src/dataset/graph/mod.rs:PatternMatchingGraph")],
 ["pattern_matching","quad_pattern_matching","triple_pattern_matching","contains_*","quad_objects","quad_predicates_objects"])

prop("C05","Multi-pattern matching is the union over the given alternatives",
 "Matching an indexed dataset against a pattern whose given components are collections of alternatives yields exactly the quads matched when some alternative is chosen for each given component, each quad once, whatever the order or repetition of alternatives and including empty collections.",
 ["histories","inputs"],"every history, every canonical quad pattern shape and every finite collection of alternatives per component",
 "No test calls multi-pattern matching.",
 [ID],[("multi constraints",ID+":multi_pattern_matching, new_multi")],["multi_pattern_matching","quad_multi_pattern_matching"])

prop("C06","Extraction and graph removal take out exactly what they return",
 "Extracting the quads matching a pattern from an indexed dataset yields each matching quad once and leaves exactly the non-matching ones; if the extraction is stopped early, exactly the quads already yielded are gone and the dataset stays fully consistent. Removing a graph returns exactly the triples of that graph (nothing when the named graph has no quads) and leaves every other quad untouched.",
 ["histories","inputs"],"every history, every canonical quad pattern, every stopping point of the extraction, every graph label",
 "No test calls extraction or graph removal.",
 [ID],[("draining iterator",ID+":ExtractPatternMatching"),("graph removal",ID+":remove_graph, remove_by_index")],["extract_pattern_matching","remove_graph","all observers afterwards"])

prop("C07","Converting, cloning, collecting and consuming a container preserve content",
 "Converting a plain container into its indexed form, cloning it, collecting it from an iterator, extending it and consuming it into an iterator preserve exactly the elements, and every later operation on the result behaves as on a container with the same content built by plain insertions. A clone and its original never affect one another.",
 ["histories","inputs"],"every history before and after the conversion, clone or collection",
 "No test converts, clones or collects containers after removals, nor operates on the result.",
 ALL4,[("re-indexing",IG+":from_non_indexed; "+ID+":from_non_indexed"),("FromIterator/Extend/IntoIterator",", ".join(ALL4))],["into_indexed","From","clone","collect","extend","into_iter"])

prop("C08","Container equality, order, hash and printing depend on content only",
 "Two containers of the same type compare equal exactly when they hold the same elements, regardless of how they were built; equal containers hash alike and print alike, and ordering is the lexicographic order of their sorted element sequences.",
 ["histories","inputs"],"every pair of insert/remove histories",
 "Tests compare containers built by insertion only, once each.",
 ALL4,[("PartialEq/Ord/Hash over sorted iteration",", ".join(ALL4))],["==","cmp","hash","Debug","RDF display"])

prop("C09","A bijection reported between datasets really maps one onto the other",
 "Whenever a blank node bijection is reported between two datasets, it is a one-to-one correspondence between all blank nodes of the first and all blank nodes of the second, its backward map is the inverse of its forward map, and renaming the blank nodes of the first dataset with it gives exactly the second dataset. In particular datasets differing in a quad without blank nodes, or in an IRI or literal, are never reported isomorphic.",
 ["inputs","configurations"],"every pair of datasets, and every interpretation in which distinct resources denote distinct terms",
 "The 200 generated positive cases rename one dataset; the few negative cases do not cover ground quads or differing IRIs and literals.",
 ["src/dataset/isomorphism.rs"],[("candidate search and signature check","src/dataset/isomorphism.rs:find_bijection_with, find_from_candidates, signature_matches_with")],["find_bijection","find_bijection_with"])

prop("C10","Isomorphism is found whenever one exists, symmetrically, by every entry point",
 "Two datasets are reported isomorphic exactly when some renaming of blank nodes turns one into the other, so a dataset is isomorphic to itself and to every renamed copy, and the answer does not depend on argument order or on the container type holding the datasets. The yes/no test and the bijection search agree, with and without an explicit interpretation.",
 ["inputs","configurations"],"every pair of datasets",
 "Tests sample 200 renamed random datasets; incompleteness needs particular symmetric shapes where the search must backtrack.",
 ["src/dataset/isomorphism.rs"],[("candidate pruning and backtracking","src/dataset/isomorphism.rs")],["are_isomorphic","are_isomorphic_with","find_bijection","find_bijection_with"])

prop("C11","Blank node identifiers are accepted exactly when they follow the grammar",
 "A string is accepted as a blank node identifier by every constructor, conversion and deserializer exactly when it matches '_:' followed by (letter-like | '_' | ':' | digit) and optionally any number of name characters or dots not ending with a dot, the grammar documented with the type; the suffix accessors and suffix constructors are inverse to adding the '_:' prefix. Accepted strings are preserved verbatim and rejected ones are handed back unchanged.",
 ["inputs"],"every string (every Unicode scalar value in every position)",
 "No test validates identifiers beyond a handful of valid literals; the grammar has 15 character ranges and position-dependent rules.",
 ["src/blankid.rs"],[("grammar check","src/blankid.rs:check")],["BlankId::new","BlankIdBuf::new","from_suffix","TryFrom","FromStr","serde"])

prop("C12","Printed terms, triples, quads and datasets read back as what was printed",
 "The RDF text printed for any term, triple, quad, graph or dataset is valid N-Triples/N-Quads syntax that an independent reader decodes to exactly the same value, so different values never print alike. The owned, borrowed and context-based printing forms print the same text, and displaying a term displays the IRI, blank node or literal it is. A formatting width may surround the text with blanks but never alters it, and a writer that fails at any point has its failure reported, after a prefix of the text.",
 ["inputs","fault_sequences"],"every literal value (every Unicode scalar value, every combination of special characters), every IRI, language tag and blank node identifier, every combination of term kinds per position; every point at which the writer fails",
 "No test reads printed output.",
 ["src/display.rs","src/literal/mod.rs","src/literal/type/mod.rs","src/term/local/mod.rs","src/blankid.rs","src/triple.rs","src/quad.rs"]+ALL4,[("string/IRI escaping","src/display.rs"),("term display dispatch","src/term/**, src/literal/**, src/id/**")],["rdf_display","Display of Triple/Quad","RdfDisplayWithContext"])

prop("C13","Canonical patterns denote the same set of matches as what they were built from",
 "A canonical triple or quad pattern built from a triple/quad, from one with optional components, or from one with variables (repeated variables meaning equal components) accepts exactly the triples/quads the source accepts. A triple (with or without optional components) used as a quad pattern leaves the graph unconstrained, while a triple pattern with variables used as a quad pattern means the default graph. Reading its components back, splitting it into parts or a triple pattern plus graph constraint, borrowing it and mapping its resources preserve that meaning.",
 ["inputs"],"every assignment of resources, variables (all equality shapes) and wildcards to the components, and every canonical pattern",
 "No test builds a canonical pattern.",
 ["src/pattern/triple/canonical.rs","src/pattern/quad/canonical.rs","src/pattern/resource_or_variable.rs"],[("from_pattern/from_option_*/From","src/pattern/*/canonical.rs"),("accessors and maps","src/pattern/quad/canonical.rs:into_parts, into_triple, map, map2, as_ref")],["from_*","subject/predicate/object/graph","into_parts","map"])

prop("C14","Fixing a component of a triple pattern restricts it to exactly that component",
 "Setting (or producing a copy with) a given subject, predicate or object in a canonical triple pattern results in a pattern that accepts exactly the triples the old pattern accepts once that component is replaced by the given resource, keeping every equality constraint the other components had with it. The previous constraint on that component is returned where the operation returns one. The same holds of the parts of a pattern (what follows its subject, or its predicate) set on their own.",
 ["inputs"],"every canonical triple pattern, every component and every resource",
 "No test calls these operations.",
 ["src/pattern/triple/canonical.rs"],[("set_*/with_*","src/pattern/triple/canonical.rs")],["set_subject","set_predicate","set_object","with_subject","with_predicate","with_object"])

prop("C15","A pattern map finds exactly the values stored under patterns matching a triple",
 "Looking up a triple in a pattern map yields exactly the values stored under the patterns that accept that triple, once for each accepting pattern they were stored under. Insertion reports true exactly when that value was not yet stored under that pattern, and the union of two (partial) maps holds every value of both sides under its pattern, losing no entry of either.",
 ["histories","inputs"],"every sequence of insertions and unions over all pattern shapes and values, and every looked up triple",
 "No test uses pattern maps.",
 ["src/pattern/triple/map.rs"],[("nested maps per pattern shape","src/pattern/triple/map.rs")],["get","insert","union_with"])

prop("C16","Owned, borrowed and copy-on-write terms are interchangeable",
 "Converting a term, identifier, literal or literal type between its owned, borrowed and copy-on-write forms (and between the narrower and wider term types) and back gives an equal value; equality and ordering give the same answer for every combination of forms, equality is an equivalence, ordering is total and agrees with equality, and equal values hash alike. Kind tests and accessors agree with the value they describe.",
 ["inputs"],"every pair and triple of terms of every kind, in every form",
 "No test compares terms across forms.",
 ["src/term","src/id","src/literal","src/triple.rs","src/quad.rs","src/blankid.rs"],[("cross-type Eq/Ord/From impls","src/term/**, src/id/**, src/literal/**")],["==","partial_cmp","cmp","hash","as_ref/to_owned/into_owned","is_*/as_*"])

prop("C17","Blank node generators never repeat and always produce valid identifiers",
 "A numbered generator yields pairwise distinct identifiers, each valid for a valid prefix and starting with it, counting up from its offset, and its counter accessor reports the next number. When the numbers are exhausted it stops with a panic, in every build mode, instead of repeating an identifier.",
 ["histories","configurations"],"every prefix, every offset (including the last representable numbers) and every number of calls",
 "No test runs a generator; exhaustion cannot be reached from offset 0.",
 ["src/term/generator/blank.rs","src/term/generator/mod.rs","src/term/generator/interpretation.rs"],[("counter","src/term/generator/blank.rs:next_blank_id")],["next_blank_id","next_local_term","count","prefix"])

prop("C18","Interpretations give each term one resource and read back the same terms",
 "In every provided interpretation, looking a term up again after interpreting it gives the same resource, different terms that were inserted do not share a resource, and the terms read back from a resource are exactly those it was obtained from. Interpretations combined with a generator interpret blank nodes and fresh resources with never-repeating generated terms, leave IRIs and literals to the underlying interpretation, and the fallible forms mirror the infallible ones.",
 ["histories","inputs","configurations"],"every sequence of lookups, insertions and fresh-resource requests over all term kinds",
 "No test exercises interpretations.",
 ["src/interpretation","src/term/generator/interpretation.rs"],[("term/resource mapping","src/interpretation/mod.rs, impl/none.rs, impl/with_generator.rs"),("fallible mirror","src/interpretation/fallible.rs")],["interpret*","insert*","iris_of/literals_of/blank_ids_of","new_resource"])

prop("C19","Serialized terms, statements, graphs and datasets deserialize to equal values",
 "Serializing and deserializing a term, literal, identifier, triple, quad, graph or dataset, in a textual or a binary format, gives back an equal value, which then behaves as the original did; the text depends only on the value, different values serialize differently, duplicate elements in the input collapse to one, and input containing an invalid blank node identifier, IRI or language tag is refused with an error.",
 ["inputs","histories"],"every value of every serializable type and every malformed identifier over the grammar's alphabet",
 "No test serializes anything.",
 ["src/blankid.rs","src/literal","src/id","src/term","src/triple.rs","src/quad.rs"]+ALL4,[("serde impls","derive attributes and manual impls in the listed files")],["serde_json::to_string/from_str","ciborium and bincode writers and readers"])

prop("C20","A graph used as a dataset is that dataset's default graph",
 "Any graph used through the dataset interface behaves as a dataset whose default graph is the graph and which has no named graph: its quads, counts, resources, subjects, predicates, objects, pattern matches and membership tests agree with the graph's own. The fallible dataset and graph interfaces report exactly what the infallible ones report, and mutation through the generic interfaces acts as the direct operations. What the traits provide over their required methods (counts, membership tests, per-subject listings, adaptors) holds for any implementation of them, and a fault raised by a fallible store is reported, never turned into an answer.",
 ["histories","inputs","fault_sequences"],"every history of a graph or dataset, every quad pattern, and every point at which a fallible store may fail",
 "No test goes through the generic dataset, graph or fallible interfaces.",
 ["src/dataset/mod.rs","src/dataset/graph/mod.rs","src/dataset/fallible.rs","src/dataset/graph/fallible.rs","src/utils.rs"],[("blanket impls","src/dataset/mod.rs; src/dataset/fallible.rs; src/dataset/graph/fallible.rs"),("iterator adapters","src/utils.rs")],["TraversableDataset","PatternMatchingDataset","Fallible*","DatasetMut/GraphMut"])

prop("C21","Triples and quads keep every component in place through all their conversions",
 "Every accessor, constructor, projection, mapping and conversion of triples and quads keeps each component in its own position: adding and removing a graph, borrowing, cloning, mapping one or all components and splitting into parts touch only the component they name. Comparison is lexicographic by subject, predicate, object, then graph, with the default graph before any named graph, for owned and borrowed components alike.",
 ["inputs"],"every triple and quad, every component function",
 "No test checks these; the iso tests use only a few of the constructors.",
 ["src/triple.rs","src/quad.rs"],[("accessors and maps","src/triple.rs, src/quad.rs")],["accessors","map_*","into_*","Ord/PartialOrd"])

prop("C22","The RDF macros build exactly the triples and quads they spell",
 "A triple, quad, quad pattern, or list of triples or quads written with the RDF macros evaluates to exactly the terms spelled, in order: IRIs, blank nodes, plain and typed literals and Rust variables (and, in quad patterns, pattern variables), in any position, with the graph component present or absent as written.",
 ["programs","inputs"],"every combination of term syntaxes over the positions of a statement, and every list of statements",
 "The macro tests discard the result: they only check that four invocations compile.",
 ["src/macro.rs"],[("token munchers","src/macro.rs")],["grdf_triple!","grdf_triples!","grdf_quad!","grdf_quads!","grdf_quad_pattern!"])

prop("C23","Containers own each resource value once: released exactly once, never used after",
 "Every resource value handed to a graph or dataset is released exactly once: at the latest as soon as no element of the container uses the resource, when the container is dropped, or when the iterator consuming it or extracting from it is dropped, however far it was advanced. A cloned or converted container owns its values independently of the original. No value is used after it was released, even when a user-supplied comparison or copy panics in the middle of an operation.",
 ["histories","inputs","fault_sequences"],"every history of insertions, removals, extractions, clones and conversions, every point at which a consumed container or iterator is given up, and every comparison or copy of a resource that may panic",
 "The tests hold 32-bit integers, for which a leak, a double release or a use after release cannot be seen; none drops an iterator half way.",
 ALL4+["src/utils.rs"],[("occurrence counting and release",", ".join(ALL4)),("consuming and extracting iterators",IG+":IntoIter; "+ID+":IntoIter, ExtractPatternMatching; "+BG+":IntoIter; "+BD+":IntoIter")],["values alive after each operation, drop of containers and iterators"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
