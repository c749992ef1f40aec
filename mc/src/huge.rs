//! Contents beyond 2^16 elements and 2^17 resources: one history per
//! container and size, with spot observations. Complements the exhaustive
//! histories (which stay small) on whatever depends on the magnitude of the
//! internal numbers only.
use crate::engine::*;
use crate::pats::*;
use crate::{ensure, ensure_eq};
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};

type E = (u32, u32, u32, Option<u32>);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
	Set,
	Resources,
	Roles,
	Patterns,
	Extract,
	Convert,
	Compare,
}

trait Huge: Clone + Ord + std::hash::Hash + std::fmt::Debug + Sized {
	const NAME: &'static str;
	const DATASET: bool;
	fn new() -> Self;
	fn ins(&mut self, e: E) -> bool;
	fn rem(&mut self, e: E) -> bool;
	fn has(&self, e: E) -> bool;
	fn count(&self) -> usize;
	fn list(&self) -> Vec<E>;
	fn res(&self) -> Vec<u32>;
	fn has_res(&self, r: u32) -> bool;
	/// Subjects, predicates, objects, graphs.
	fn roles(&self) -> Option<[Vec<u32>; 4]> {
		None
	}
	/// Elements with the given subject / predicate / object / graph.
	fn find(&self, _position: usize, _r: u32) -> Vec<E> {
		unreachable!()
	}
	/// Elements matching a pattern whose only resource is `r`.
	fn shaped(&self, _pt: &Pat, _r: &u32) -> Option<Vec<E>> {
		unreachable!()
	}
	fn extract(&mut self, _position: usize, _r: u32, _max: usize) -> Vec<E> {
		unreachable!()
	}
	/// Built by conversion from a plain container, where there is one.
	fn converted(_els: &[E], _removed: &[E]) -> Option<Self> {
		None
	}
}

fn t(e: E) -> Triple<u32> {
	Triple(e.0, e.1, e.2)
}
fn qd(e: E) -> Quad<u32> {
	Quad(e.0, e.1, e.2, e.3)
}
fn et(t: Triple<&u32>) -> E {
	(*t.0, *t.1, *t.2, None)
}
fn eq(q: Quad<&u32>) -> E {
	(*q.0, *q.1, *q.2, q.3.copied())
}

macro_rules! graph_common {
	() => {
		const DATASET: bool = false;
		fn new() -> Self {
			Self::new()
		}
		fn ins(&mut self, e: E) -> bool {
			self.insert(t(e))
		}
		fn rem(&mut self, e: E) -> bool {
			self.remove(t(e).as_ref())
		}
		fn has(&self, e: E) -> bool {
			self.contains(t(e).as_ref())
		}
		fn count(&self) -> usize {
			self.len()
		}
		fn list(&self) -> Vec<E> {
			self.iter().map(et).collect()
		}
		fn res(&self) -> Vec<u32> {
			Self::resources(self).copied().collect()
		}
		fn has_res(&self, r: u32) -> bool {
			self.contains_resource(&r)
		}
	};
}

macro_rules! dataset_common {
	() => {
		const DATASET: bool = true;
		fn new() -> Self {
			Self::new()
		}
		fn ins(&mut self, e: E) -> bool {
			self.insert(qd(e))
		}
		fn rem(&mut self, e: E) -> bool {
			self.remove(qd(e).as_ref())
		}
		fn has(&self, e: E) -> bool {
			self.contains(qd(e).as_ref())
		}
		fn count(&self) -> usize {
			self.len()
		}
		fn list(&self) -> Vec<E> {
			self.iter().map(eq).collect()
		}
		fn res(&self) -> Vec<u32> {
			Self::resources(self).copied().collect()
		}
		fn has_res(&self, r: u32) -> bool {
			self.contains_resource(&r)
		}
	};
}

impl Huge for BTreeGraph<u32> {
	const NAME: &'static str = "BTreeGraph";
	graph_common!();
}

impl Huge for BTreeDataset<u32> {
	const NAME: &'static str = "BTreeDataset";
	dataset_common!();
}

/// The pattern fixing one position.
fn fixing(position: usize) -> Pat {
	let k = |i: usize| if i == position { C::Given(0) } else { C::Any };
	Pat { s: k(0), p: k(1), o: k(2), g: k(3) }
}

fn triple_pattern(position: usize, r: &u32) -> CanonicalTriplePattern<&u32> {
	build_triple(&fixing(position), |_| r).unwrap()
}

fn quad_pattern(position: usize, r: &u32) -> CanonicalQuadPattern<&u32> {
	build_quad(&fixing(position), |_| r).unwrap()
}

impl Huge for IndexedBTreeGraph<u32> {
	const NAME: &'static str = "IndexedBTreeGraph";
	graph_common!();
	fn roles(&self) -> Option<[Vec<u32>; 4]> {
		Some([
			Self::subjects(self).copied().collect(),
			Self::predicates(self).copied().collect(),
			Self::objects(self).copied().collect(),
			vec![],
		])
	}
	fn find(&self, position: usize, r: u32) -> Vec<E> {
		if position == 3 {
			return vec![];
		}
		self.pattern_matching(triple_pattern(position, &r)).map(et).collect()
	}
	fn shaped(&self, pt: &Pat, r: &u32) -> Option<Vec<E>> {
		Some(self.pattern_matching(build_triple(pt, |_| r)?).map(et).collect())
	}
	fn converted(els: &[E], removed: &[E]) -> Option<Self> {
		let mut g: BTreeGraph<u32> = els.iter().map(|&e| t(e)).collect();
		for &e in removed {
			g.remove(t(e).as_ref());
		}
		Some(g.into_indexed())
	}
}

impl Huge for IndexedBTreeDataset<u32> {
	const NAME: &'static str = "IndexedBTreeDataset";
	dataset_common!();
	fn roles(&self) -> Option<[Vec<u32>; 4]> {
		Some([
			Self::subjects(self).copied().collect(),
			Self::predicates(self).copied().collect(),
			Self::objects(self).copied().collect(),
			Self::named_graphs(self).copied().collect(),
		])
	}
	fn find(&self, position: usize, r: u32) -> Vec<E> {
		self.pattern_matching(quad_pattern(position, &r)).map(eq).collect()
	}
	fn shaped(&self, pt: &Pat, r: &u32) -> Option<Vec<E>> {
		Some(self.pattern_matching(build_quad(pt, |_| r)?).map(eq).collect())
	}
	fn extract(&mut self, position: usize, r: u32, max: usize) -> Vec<E> {
		self.extract_pattern_matching(quad_pattern(position, &r))
			.take(max)
			.map(|Quad(s, p, o, g)| (s, p, o, g))
			.collect()
	}
	fn converted(els: &[E], removed: &[E]) -> Option<Self> {
		let mut d: BTreeDataset<u32> = els.iter().map(|&e| qd(e)).collect();
		for &e in removed {
			d.remove(qd(e).as_ref());
		}
		Some(d.into_indexed())
	}
}

/// The meaning of a pattern whose only resource is `r`.
fn meant(pt: &Pat, r: u32, e: &E) -> bool {
	let ok = |c: C, v: Option<u32>| match c {
		C::Any => true,
		C::SameS => v == Some(e.0),
		C::SameP => v == Some(e.1),
		C::SameO => v == Some(e.2),
		C::Default => v.is_none(),
		C::Given(_) => v == Some(r),
	};
	ok(pt.s, Some(e.0)) && ok(pt.p, Some(e.1)) && ok(pt.o, Some(e.2)) && ok(pt.g, e.3)
}

/// `present` is sorted.
fn check<S: Huge>(c: &S, what: What, present: &[E], gone: &[E], l: &mut Local) -> Result<(), String> {
	let beat = |l: &mut Local| l.case(|| format!("{} of {} elements", S::NAME, present.len()));
	beat(l);
	l.states += 1;
	l.checks += 1;
	ensure_eq!(c.count(), present.len(), "len");
	let distinct = |f: &dyn Fn(&E) -> Option<u32>| {
		let mut v: Vec<u32> = present.iter().filter_map(f).collect();
		v.sort();
		v.dedup();
		v
	};
	let sorted = |mut v: Vec<u32>| {
		v.sort();
		v
	};
	match what {
		What::Set | What::Convert => {
			l.checks += (present.len() + gone.len() + 1) as u64;
			ensure!(c.list() == present, "the elements listed are not those expected");
			for &e in present {
				ensure!(c.has(e), "contains {e:?} is false");
			}
			for &e in gone {
				ensure!(!c.has(e), "contains {e:?} is true");
			}
		}
		_ => (),
	}
	if matches!(what, What::Resources | What::Convert | What::Extract) {
		let mut exp: Vec<u32> = present.iter().flat_map(|e| [Some(e.0), Some(e.1), Some(e.2), e.3]).flatten().collect();
		exp.sort();
		exp.dedup();
		l.checks += 1 + exp.len() as u64;
		ensure!(sorted(c.res()) == exp, "the resources listed are not those expected");
		for &r in &exp {
			ensure!(c.has_res(r), "contains_resource {r} is false");
		}
		for e in gone.iter().filter(|e| exp.binary_search(&e.0).is_err()) {
			ensure!(!c.has_res(e.0), "contains_resource {} is true", e.0);
		}
	}
	beat(l);
	if matches!(what, What::Roles | What::Convert | What::Extract) {
		if let Some(r) = c.roles() {
			let exp = [
				distinct(&|e| Some(e.0)),
				distinct(&|e| Some(e.1)),
				distinct(&|e| Some(e.2)),
				distinct(&|e| e.3),
			];
			for (i, (got, exp)) in r.into_iter().zip(exp).enumerate() {
				l.checks += 1;
				ensure!(sorted(got) == exp, "the resources listed for position {i} are not those expected");
			}
		}
	}
	if matches!(what, What::Patterns | What::Convert | What::Extract) && c.roles().is_some() {
		for &(s, p, o, g) in present.iter().step_by(present.len() / 500 + 1) {
			for (i, r) in [(0, Some(s)), (2, Some(o)), (3, g)] {
				let Some(r) = r else { continue };
				if r == p {
					continue;
				}
				beat(l);
				l.checks += 1;
				ensure_eq!(c.find(i, r), vec![(s, p, o, g)], "elements with {r} at position {i}");
			}
		}
		for &(s, p, o, g) in gone.iter().step_by(gone.len() / 200 + 1) {
			for (i, r) in [(0, Some(s)), (2, Some(o)), (3, g)] {
				let Some(r) = r else { continue };
				if r == p {
					continue;
				}
				beat(l);
				l.checks += 1;
				ensure_eq!(c.find(i, r), vec![], "elements with {r} at position {i}");
			}
		}
		if what == What::Patterns {
			let r = present[1].1;
			for pt in if S::DATASET { quad_patterns(&[0]) } else { triple_patterns(&[0]) } {
				beat(l);
				let Some(mut got) = c.shaped(&pt, &r) else { continue };
				let exp: Vec<E> = present.iter().copied().filter(|e| meant(&pt, r, e)).collect();
				got.sort();
				l.checks += 1;
				ensure!(
					got == exp,
					"{} elements match {pt:?} with resource {r}, expected {}; first difference: {:?}",
					got.len(),
					exp.len(),
					got.iter().zip(&exp).find(|(a, b)| a != b)
				);
			}
		}
		let common: Vec<u32> = distinct(&|e| Some(e.1)).into_iter().filter(|r| present.binary_search_by(|e| e.0.cmp(r)).is_err()).collect();
		for r in common {
			beat(l);
			let mut got = c.find(1, r);
			got.sort();
			let exp: Vec<E> = present.iter().copied().filter(|e| e.1 == r).collect();
			l.checks += 1;
			ensure!(got == exp, "{} elements with predicate {r}, expected {}", got.len(), exp.len());
		}
	}
	Ok(())
}

fn history<S: Huge>(n: u32, what: What, l: &mut Local) -> Result<(), String> {
	let graph = |i: u32| if i % 2 == 0 || !S::DATASET { None } else { Some(2 * n + 8 + i) };
	// Most elements share one predicate.
	let predicate = |i: u32| n + if i % 16 == 0 { 0 } else if i % 17 == 0 { 1 } else { 2 };
	let els: Vec<E> = (0..n)
		.map(|i| {
			// Now and then, one component repeats another.
			let (s, p, o, g) = (i, predicate(i), n + 3 + i, graph(i));
			let og = |x| if S::DATASET { Some(x) } else { None };
			match i % 2500 {
				7 => (s, p, s, g),
				11 => (s, s, o, g),
				13 => (s, p, p, g),
				17 => (s, p, o, og(s)),
				19 => (s, p, o, og(p)),
				23 => (s, p, o, og(o)),
				29 => (s, s, s, g),
				31 => (s, s, s, og(s)),
				37 => (s, s, o, og(s)),
				41 => (s, p, s, og(p)),
				43 => (s, p, p, og(p)),
				_ => (s, p, o, g),
			}
		})
		.collect();
	// A stride through the elements, so that ids and order differ.
	let stride = 7919 % n;
	let order: Vec<E> = (0..n).map(|i| els[(i as u64 * stride as u64 % n as u64) as usize]).collect();
	let mut seen = vec![false; n as usize];
	order.iter().for_each(|e| seen[e.0 as usize] = true);
	assert!(seen.iter().all(|s| *s), "the stride must reach every element");
	let out: Vec<E> = order.iter().copied().filter(|e| e.0 % 3 == 1).collect();
	let kept: Vec<E> = els.iter().copied().filter(|e| e.0 % 3 != 1).collect();
	let mut c = match what {
		What::Convert => match S::converted(&order, &out) {
			Some(c) => {
				check(&c, what, &kept, &out, l).map_err(|e| format!("converted: {e}"))?;
				c
			}
			None => kept.iter().rev().fold(S::new(), |mut c, &e| {
				c.ins(e);
				c
			}),
		},
		_ => S::new(),
	};
	let fresh = what != What::Convert;
	for &e in &order {
		let r = c.ins(e);
		ensure_eq!(r, fresh || e.0 % 3 == 1, "insert {e:?}");
	}
	check(&c, what, &els, &[], l).map_err(|e| format!("after the insertions: {e}"))?;
	let d = c.clone();
	for &e in &out {
		ensure!(c.rem(e), "remove {e:?} returned false");
	}
	check(&c, what, &kept, &out, l).map_err(|e| format!("after the removals: {e}"))?;
	if what == What::Convert {
		check(&d, what, &els, &[], l).map_err(|e| format!("a clone, after removals from the original: {e}"))?;
	}
	for &e in &out[..out.len() / 2] {
		ensure!(c.ins(e), "insert {e:?} returned false");
	}
	let (back, gone) = out.split_at(out.len() / 2);
	let mut now = kept.clone();
	now.extend(back);
	now.sort();
	check(&c, what, &now, gone, l).map_err(|e| format!("after inserting half of them again: {e}"))?;
	l.transitions += (order.len() + out.len() * 3 / 2) as u64;
	if what == What::Extract {
		let r = n + 2;
		let half: Vec<E> = c.extract(1, r, (n / 6) as usize);
		ensure_eq!(half.len(), (n / 6) as usize, "elements extracted");
		let taken: std::collections::HashSet<E> = half.iter().copied().collect();
		let rest: Vec<E> = now.iter().copied().filter(|e| !taken.contains(e)).collect();
		ensure_eq!(rest.len() + half.len(), now.len(), "elements left after the extraction");
		check(&c, what, &rest, &half, l).map_err(|e| format!("after an interrupted extraction: {e}"))?;
		let more = c.extract(1, r, usize::MAX);
		let rest: Vec<E> = now.iter().copied().filter(|e| e.1 != r).collect();
		ensure_eq!(half.len() + more.len() + rest.len(), now.len(), "elements extracted in all");
		check(&c, what, &rest, &more, l).map_err(|e| format!("after the extraction: {e}"))?;
	}
	if what == What::Convert {
		let fresh: Vec<E> = c.list();
		ensure!(c == c.clone() && c != d, "equality of clones");
		ensure!(fresh == now, "final elements");
	}
	l.traces += 1;
	Ok(())
}

/// Contents differing in a single element, wherever it is.
fn compare<S: Huge>(n: u32, _: What, l: &mut Local) -> Result<(), String> {
	use std::hash::{DefaultHasher, Hasher};
	let el = |i: u32, k: u32| (2 * i + k, n, i % 7, if S::DATASET && i % 2 == 1 { Some(i % 5) } else { None });
	let (mut a, mut b) = (S::new(), S::new());
	for i in 0..n {
		a.ins(el(i, 0));
		b.ins(el((i as u64 * 7919 % n as u64) as u32, 0));
	}
	let hash = |c: &S| {
		let mut h = DefaultHasher::new();
		c.hash(&mut h);
		h.finish()
	};
	let equal = |a: &S, b: &S| -> Result<(), String> {
		ensure!(a == b && b == a, "equal contents compare different");
		ensure_eq!(a.cmp(b), std::cmp::Ordering::Equal, "cmp");
		ensure_eq!(hash(a), hash(b), "hashes of equal contents");
		Ok(())
	};
	equal(&a, &b)?;
	ensure!(format!("{a:?}") == format!("{b:?}"), "equal contents print differently");
	let mut places = vec![0, 1, 99, 255, 256, 257, 999, 1023, 1024, 4095, 4096, 9999, 32767, 32768, n / 2, n - 2, n - 1];
	places.extend([65534, 65535, 65536, 65537]);
	for i in places {
		l.case(|| format!("{} of {n} elements, differing at element {i}", S::NAME));
		// One element greater than that of the other.
		ensure!(b.rem(el(i, 0)) && b.ins(el(i, 1)), "replacing element {i}");
		ensure!(a != b && b != a, "contents differing at element {i} of {n} compare equal");
		ensure_eq!(a.cmp(&b), std::cmp::Ordering::Less, "cmp of contents differing at element {i}");
		ensure_eq!(b.cmp(&a), std::cmp::Ordering::Greater, "cmp of contents differing at element {i}");
		// One element fewer.
		ensure!(b.rem(el(i, 1)), "removing element {i}");
		ensure!(a != b && b != a, "contents of which one lacks element {i} compare equal");
		let exp = if i == n - 1 { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less };
		ensure_eq!(a.cmp(&b), exp, "cmp of contents of which one lacks element {i}");
		ensure!(b.ins(el(i, 0)), "inserting element {i} again");
		equal(&a, &b)?;
		l.states += 3;
		l.transitions += 4;
		l.checks += 12;
	}
	l.traces += 1;
	Ok(())
}

pub fn run(ctx: &mut Ctx, what: What) {
	let n = ctx.pick(75_011u32, 300_007);
	type Job = (&'static str, fn(u32, What, &mut Local) -> Result<(), String>);
	let mut jobs: Vec<Job> = vec![(IndexedBTreeDataset::<u32>::NAME, history::<IndexedBTreeDataset<u32>>)];
	if what != What::Extract {
		jobs.push((IndexedBTreeGraph::<u32>::NAME, history::<IndexedBTreeGraph<u32>>));
	}
	if matches!(what, What::Set | What::Resources | What::Convert) {
		jobs.push((BTreeGraph::<u32>::NAME, history::<BTreeGraph<u32>>));
		jobs.push((BTreeDataset::<u32>::NAME, history::<BTreeDataset<u32>>));
	}
	if what == What::Compare {
		jobs = vec![
			(BTreeGraph::<u32>::NAME, compare::<BTreeGraph<u32>>),
			(IndexedBTreeGraph::<u32>::NAME, compare::<IndexedBTreeGraph<u32>>),
			(BTreeDataset::<u32>::NAME, compare::<BTreeDataset<u32>>),
			(IndexedBTreeDataset::<u32>::NAME, compare::<IndexedBTreeDataset<u32>>),
		];
	}
	ctx.space(&format!("contents of {n} elements"), jobs.len(), |j, l| {
		let (name, f) = jobs[j];
		l.case(|| format!("{name} of {n} elements"));
		l.sample(|| format!("{name} of {n} elements"));
		guard_check(|| f(n, what, l)).map_err(|m| Fail::new(format!("{name} of {n} elements"), m))
	});
}
