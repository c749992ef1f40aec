//! C07 (conversions, clones, collection), C08 (comparison), C20 (generic
//! interfaces).
use crate::containers::*;
use crate::engine::*;
use crate::explore::*;
use crate::model::*;
use crate::pats::*;
use crate::sut::*;
use crate::{ensure, ensure_eq, PropSpec};
use rdf_types::dataset::*;
use rdf_types::{LocalTerm, Quad, RdfDisplay, Triple};
use std::any::Any;
use std::cmp::Ordering;

const ASSUME: &[&str] = &[
	"histories up to the stated depth over the stated universes, plus the listed bulk families; resources are u32, String and LocalTerm values with a lawful total order",
	"reference model: a sorted set of tuples",
	"release build semantics, single thread",
];

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec { id: "C07", run: c07, assumptions: ASSUME });
	v.push(PropSpec { id: "C08", run: c08, assumptions: ASSUME });
	v.push(PropSpec { id: "C20", run: c20, assumptions: ASSUME });
}

/// Everything observable about a container.
pub trait Full: Sut {
	type To: Full;
	fn full(&self, m: &Model, vals: &[u16], pats: &[Pat], l: &mut Local) -> Result<(), String>;
	/// Every conversion to the indexed form.
	fn conversions(&self) -> Vec<(&'static str, Self::To)>;
	fn full_patterns(vals: &[u16]) -> Vec<Pat>;
}

fn simple(pats: Vec<Pat>) -> Vec<Pat> {
	pats.into_iter()
		.filter(|p| [p.s, p.p, p.o, p.g].iter().filter(|&&c| c != C::Any).count() <= 1)
		.collect()
}

macro_rules! full {
	($plain:ident, $indexed:ident, $pats:ident, $extra:expr) => {
		impl<R: Res> Full for $plain<R> {
			type To = $indexed<R>;
			fn full(&self, m: &Model, vals: &[u16], _: &[Pat], l: &mut Local) -> Result<(), String> {
				obs_set(self, m, &[], l)?;
				obs_resources(self, m, vals, l)
			}
			fn conversions(&self) -> Vec<(&'static str, Self::To)> {
				let mut v = vec![
					("into_indexed", self.clone().into_indexed()),
					("from_non_indexed", $indexed::from_non_indexed(self.clone())),
				];
				$extra(self, &mut v);
				v
			}
			fn full_patterns(_: &[u16]) -> Vec<Pat> {
				Vec::new()
			}
		}
		impl<R: Res> Full for $indexed<R> {
			type To = $indexed<R>;
			fn full(&self, m: &Model, vals: &[u16], pats: &[Pat], l: &mut Local) -> Result<(), String> {
				obs_all(self, m, vals, pats, l)
			}
			fn conversions(&self) -> Vec<(&'static str, Self::To)> {
				Vec::new()
			}
			fn full_patterns(vals: &[u16]) -> Vec<Pat> {
				simple($pats(vals))
			}
		}
	};
}

fn graph_extra<R: Res>(c: &BTreeGraph<R>, v: &mut Vec<(&'static str, IndexedBTreeGraph<R>)>) {
	v.push(("From", c.clone().into()));
}

/// `From` exists for datasets of lexical terms only.
fn dataset_extra<R: Res>(c: &BTreeDataset<R>, v: &mut Vec<(&'static str, IndexedBTreeDataset<R>)>) {
	let b: Box<dyn Any> = Box::new(c.clone());
	if let Ok(x) = b.downcast::<BTreeDataset<LocalTerm>>() {
		let i: IndexedBTreeDataset<LocalTerm> = (*x).into();
		let b: Box<dyn Any> = Box::new(i);
		v.push(("From", *b.downcast::<IndexedBTreeDataset<R>>().unwrap()));
	}
}

full!(BTreeGraph, IndexedBTreeGraph, triple_patterns, graph_extra);
full!(BTreeDataset, IndexedBTreeDataset, quad_patterns, dataset_extra);

// ---------------------------------------------------------------- C07

fn toggle<S: Sut>(c: &mut S, m: &mut Model, e: Q, l: &mut Local) {
	l.transitions += 1;
	if m.remove(&e) {
		c.remove(e);
	} else {
		m.insert(e);
		c.insert(e);
	}
}

struct C7<'a> {
	/// Elements toggled after the conversion.
	after: &'a [Q],
	vals: &'a [u16],
	deep: bool,
}

impl C7<'_> {
	/// `d` must behave like a container with content `m`, now and after
	/// further operations.
	fn behaves<S: Full>(&self, d: &S, m: &Model, what: &str, l: &mut Local) -> Result<(), String> {
		let pats = S::full_patterns(self.vals);
		d.full(m, self.vals, &pats, l).map_err(|e| format!("{what}: {e}"))?;
		l.states += 1;
		for &e in self.after {
			let (mut d2, mut m2) = (d.clone(), m.clone());
			toggle(&mut d2, &mut m2, e, l);
			d2.full(&m2, self.vals, &pats, l)
				.map_err(|x| format!("{what}, then an operation on {e:?}: {x}"))?;
			if self.deep {
				for &f in self.after {
					let (mut d3, mut m3) = (d2.clone(), m2.clone());
					toggle(&mut d3, &mut m3, f, l);
					d3.full(&m3, self.vals, &pats[..pats.len().min(3)], l)
						.map_err(|x| format!("{what}, then operations on {e:?} and {f:?}: {x}"))?;
				}
			}
		}
		Ok(())
	}

	fn obs<S: Full>(&self, c: &S, m: &Model, l: &mut Local) -> Result<(), String> {
		// Clones and originals are independent, in both directions.
		let pats = S::full_patterns(self.vals);
		let light = &pats[..pats.len().min(4)];
		for (i, &e) in self.after.iter().enumerate() {
			let f = self.after[(i + 1) % self.after.len()];
			let (mut a, mut ma) = (c.clone(), m.clone());
			let (mut b, mut mb) = (a.clone(), m.clone());
			toggle(&mut a, &mut ma, e, l);
			b.full(&mb, self.vals, light, l)
				.map_err(|x| format!("clone, after the original changed by {e:?}: {x}"))?;
			toggle(&mut b, &mut mb, f, l);
			a.full(&ma, self.vals, light, l)
				.map_err(|x| format!("original, after the clone changed by {f:?}: {x}"))?;
			b.full(&mb, self.vals, light, l)
				.map_err(|x| format!("clone changed by {f:?}: {x}"))?;
			// Drained clone, dropped clone, overwritten clone.
			let mut d = a.clone();
			for &x in ma.iter() {
				d.remove(x);
			}
			ensure!(d.is_empty(), "clone emptied element by element is not empty");
			b.clone_from(&a);
			drop(d);
			b.full(&ma, self.vals, light, l)
				.map_err(|x| format!("clone_from: {x}"))?;
			drop(a);
			toggle(&mut b, &mut ma, f, l);
			b.full(&ma, self.vals, light, l)
				.map_err(|x| format!("clone_from, then an operation on {f:?}: {x}"))?;
		}
		self.behaves(&c.clone(), m, "clone", l)?;

		for (how, d) in c.conversions() {
			l.transitions += 1;
			self.behaves(&d, m, how, l)?;
		}

		// Consuming iteration, complete and interrupted.
		let exp: Vec<Q> = m.iter().copied().collect();
		ensure_eq!(c.clone().into_vec(), exp, "into_iter");
		for k in [0, 1, exp.len() / 2, exp.len().saturating_sub(1)] {
			ensure_eq!(
				c.clone().into_prefix(k),
				exp[..k.min(exp.len())].to_vec(),
				"first {k} elements of into_iter"
			);
		}
		for (how, mut d) in c.conversions() {
			ensure_eq!(d.clone().into_vec(), exp, "into_iter after {how}");
			// Emptying and refilling a converted container.
			let mut m2 = m.clone();
			for &e in &exp {
				toggle(&mut d, &mut m2, e, l);
			}
			d.full(&m2, self.vals, &[], l)
				.map_err(|x| format!("{how}, then emptied: {x}"))?;
			for &e in exp.iter().rev() {
				toggle(&mut d, &mut m2, e, l);
			}
			d.full(&m2, self.vals, &[], l)
				.map_err(|x| format!("{how}, then emptied and refilled: {x}"))?;
		}

		// Collection, in several orders and with duplicates.
		let mut lists: Vec<Vec<Q>> = vec![exp.clone()];
		if !exp.is_empty() {
			lists.push(exp.iter().rev().copied().collect());
			lists.push(order(2, &exp));
			lists.push(exp.iter().flat_map(|&e| [e, e]).collect());
			lists.push(exp.iter().chain(exp.iter().rev()).copied().collect());
		}
		for (i, v) in lists.iter().enumerate() {
			let d = S::collect(v);
			if i < 2 {
				self.behaves(&d, m, "collect", l)?;
			} else {
				d.full(m, self.vals, &pats, l)
					.map_err(|x| format!("collect from {v:?}: {x}"))?;
			}
			l.transitions += 1;
		}
		for hint in [(0, None), (1, None), (0, Some(usize::MAX))] {
			let v = lists.last().unwrap();
			let d = S::collect_unsized(v, hint);
			d.full(m, self.vals, light, l)
				.map_err(|x| format!("collect from {v:?}, announced as {hint:?}: {x}"))?;
			let mut d = S::default();
			d.extend_unsized(v, hint);
			d.full(m, self.vals, light, l)
				.map_err(|x| format!("extend by {v:?}, announced as {hint:?}: {x}"))?;
			l.transitions += 2;
		}
		// Extension of the current content.
		let mut more: Vec<Q> = self.after.to_vec();
		more.extend(exp.first().copied());
		let mut d = c.clone();
		d.extend(&more);
		let mut m2 = m.clone();
		m2.extend(&more);
		self.behaves(&d, &m2, "extend", l)?;
		let mut d = c.clone();
		d.extend(&[]);
		d.full(m, self.vals, light, l)
			.map_err(|x| format!("extend by nothing: {x}"))?;
		let mut d = S::default();
		d.extend(&c.clone().into_vec());
		d.full(m, self.vals, light, l)
			.map_err(|x| format!("extend of an empty container by the content of another: {x}"))
	}
}

fn c07(ctx: &mut Ctx) {
	let (t2, t3, q2) = (triples(2), triples(3), quads(2));
	const T: &str = "conversion, clone, collect";
	crate::huge::run(ctx, crate::huge::What::Convert);
	crate::iters::run(ctx, crate::iters::What::Consuming);
	fn run<S: Full>(ctx: &mut Ctx, u: &[Q], depth: usize, step: usize, deep: bool) {
		let n = u.iter().map(|e| e.s).max().unwrap() + 1;
		let mut vals: Vec<u16> = (0..n).collect();
		vals.push(ABSENT);
		let after: Vec<Q> = u.iter().copied().step_by(step).collect();
		histories::<S>(ctx, T, u, depth, false, |c: &S, m: &Model, l: &mut Local| {
			C7 { after: &after, vals: &vals, deep }.obs(c, m, l)
		});
	}
	fn bulky<S: Full>(ctx: &mut Ctx, max: u16) {
		let sizes: Vec<u16> = bulk_sizes(ctx).into_iter().filter(|&n| n <= max).collect();
		bulk::<S>(ctx, T, &sizes, false, |c: &S, m: &Model, l: &mut Local| {
			let vals = probe_values(m);
			let mut after = vec![q(vals[0], vals[0], vals[0], None)];
			let v: Vec<Q> = m.iter().copied().collect();
			if !v.is_empty() {
				after.push(v[0]);
				after.push(v[v.len() / 2]);
				after.push(v[v.len() - 1]);
			}
			after.dedup();
			C7 { after: &after, vals: &vals, deep: false }.obs(c, m, l)
		});
	}
	let d = ctx.pick(3, 4);
	run::<BTreeGraph<u32>>(ctx, &t2, d, 1, true);
	run::<IndexedBTreeGraph<u32>>(ctx, &t2, d, 1, true);
	run::<BTreeGraph<u32>>(ctx, &t2, ctx.pick(5, 6), 4, false);
	run::<BTreeGraph<String>>(ctx, &t3, 2, 5, false);
	run::<IndexedBTreeGraph<String>>(ctx, &t3, 2, 5, false);
	run::<BTreeGraph<LocalTerm>>(ctx, &t3, 2, 5, false);
	run::<IndexedBTreeGraph<LocalTerm>>(ctx, &t3, 2, 5, false);
	let d = ctx.pick(3, 4);
	run::<BTreeDataset<u32>>(ctx, &q2, d, 5, false);
	run::<IndexedBTreeDataset<u32>>(ctx, &q2, d.min(3), 5, false);
	run::<BTreeDataset<u32>>(ctx, &q2, 2, 1, true);
	run::<BTreeDataset<LocalTerm>>(ctx, &q2, d.min(3), 7, false);
	run::<IndexedBTreeDataset<LocalTerm>>(ctx, &q2, 2, 5, false);
	let m = ctx.pick(40, 260);
	bulky::<BTreeGraph<String>>(ctx, m);
	bulky::<IndexedBTreeGraph<String>>(ctx, m);
	bulky::<BTreeDataset<String>>(ctx, m);
	bulky::<IndexedBTreeDataset<String>>(ctx, m);
	bulky::<BTreeGraph<u32>>(ctx, m * 4);
	bulky::<BTreeDataset<u32>>(ctx, m * 4);
}

// ---------------------------------------------------------------- C08

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
	fp(t)
}

/// Builds a container with content `m` in way `w`.
const WAYS: usize = 6;
fn build<S: Sut>(m: &[Q], universe: &[Q], w: usize) -> S {
	let mut c = S::new();
	match w {
		0 => m.iter().for_each(|&e| {
			c.insert(e);
		}),
		1 => m.iter().rev().for_each(|&e| {
			c.insert(e);
		}),
		2 => {
			// Everything first, then the rest is removed.
			universe.iter().for_each(|&e| {
				c.insert(e);
			});
			universe.iter().filter(|e| !m.contains(e)).for_each(|&e| {
				c.remove(e);
			});
		}
		3 => {
			universe.iter().rev().for_each(|&e| {
				c.insert(e);
			});
			universe.iter().filter(|e| !m.contains(e)).for_each(|&e| {
				c.remove(e);
			});
		}
		4 => {
			m.iter().for_each(|&e| {
				c.insert(e);
			});
			m.iter().for_each(|&e| {
				c.remove(e);
			});
			m.iter().rev().for_each(|&e| {
				c.insert(e);
			});
		}
		_ => {
			let v: Vec<Q> = m.iter().chain(m.iter()).copied().collect();
			c = S::collect(&v);
		}
	}
	c
}

trait Cmp: Sut {
	fn printed(&self) -> Option<String>;
}

macro_rules! cmp_impl {
	($($ty:ident)*) => {$(
		impl<R: Res> Cmp for $ty<R> {
			fn printed(&self) -> Option<String> {
				let b: &dyn Any = self;
				b.downcast_ref::<$ty<LocalTerm>>().map(|d| d.rdf_display().to_string())
			}
		}
	)*};
}
cmp_impl!(BTreeGraph IndexedBTreeGraph BTreeDataset IndexedBTreeDataset);

fn compare<S: Cmp>(a: &S, b: &S, ma: &[Q], mb: &[Q], text: bool, l: &mut Local) -> Result<(), String> {
	let eq = ma == mb;
	let ord = ma.cmp(mb);
	l.checks += 6;
	ensure_eq!(a == b, eq, "==");
	ensure_eq!(a != b, !eq, "!=");
	ensure_eq!(a.cmp(b), ord, "cmp");
	ensure_eq!(a.partial_cmp(b), Some(ord), "partial_cmp");
	ensure_eq!(a < b, ord == Ordering::Less, "<");
	ensure_eq!(a >= b, ord != Ordering::Less, ">=");
	if eq {
		l.checks += 1;
		ensure_eq!(hash_of(a), hash_of(b), "hash of equal containers");
	}
	if text {
		l.checks += 2;
		ensure_eq!(format!("{a:?}") == format!("{b:?}"), eq, "equality of the Debug texts");
		if let (Some(x), Some(y)) = (a.printed(), b.printed()) {
			ensure_eq!(x == y, eq, "equality of the printed RDF texts");
			ensure_eq!(x.lines().count(), ma.len(), "number of printed lines in {x:?}");
		}
	}
	Ok(())
}

fn pairs<S: Cmp>(ctx: &mut Ctx, u: &[Q], max: usize, ways: &[(usize, usize)], text: bool) {
	let mut sets: Vec<Vec<Q>> = Vec::new();
	for k in 0..=max {
		sets.extend(subsets(u, k));
	}
	for s in &mut sets {
		s.sort();
	}
	let name = format!(
		"{}<{}> comparison: all pairs of {} contents over {} elements, {} pairs of construction histories each",
		S::NAME,
		S::R::NAME,
		sets.len(),
		u.len(),
		ways.len()
	);
	ctx.space(&name, sets.len(), |j, l| {
		let mut conts: Vec<S> = Vec::new();
		let mut last = usize::MAX;
		for &(wa, wb) in ways {
			if last != wb {
				conts = sets.iter().map(|s| build(s, u, wb)).collect();
				last = wb;
			}
			let a: S = build(&sets[j], u, wa);
			l.states += 1;
			for (k, b) in conts.iter().enumerate() {
				l.case(|| format!("{:?} (way {wa}) against {:?} (way {wb})", sets[j], sets[k]));
				l.transitions += 1;
				let r = guard_check(|| compare(&a, b, &sets[j], &sets[k], text, l));
				r.map_err(|e| {
					Fail::new(
						format!("{}<{}> {:?} (built in way {wa}) against {:?} (built in way {wb})", S::NAME, S::R::NAME, sets[j], sets[k]),
						e,
					)
				})?;
			}
		}
		l.traces += 1;
		l.outcome(fp(&sets[j]));
		l.sample(|| format!("{} content {:?} against all", S::NAME, sets[j]));
		Ok(())
	});
}

fn c08(ctx: &mut Ctx) {
	let (t2, q2) = (triples(2), quads(2));
	let all: Vec<(usize, usize)> = (0..WAYS).flat_map(|b| (0..WAYS).map(move |a| (a, b))).collect();
	let few: Vec<(usize, usize)> = vec![(0, 2), (3, 2), (4, 1), (5, 0)];
	let k = ctx.pick(6, 8);
	pairs::<BTreeGraph<u32>>(ctx, &t2, k, &all, false);
	pairs::<IndexedBTreeGraph<u32>>(ctx, &t2, k, &all, false);
	pairs::<BTreeGraph<LocalTerm>>(ctx, &t2, 4, &few, true);
	pairs::<IndexedBTreeGraph<LocalTerm>>(ctx, &t2, 4, &few, true);
	let k = ctx.pick(3, 4);
	let w = if ctx.quick() { &few } else { &all };
	pairs::<BTreeDataset<u32>>(ctx, &q2, k, w, false);
	pairs::<IndexedBTreeDataset<u32>>(ctx, &q2, k, w, false);
	pairs::<BTreeDataset<LocalTerm>>(ctx, &q2, 2, &few, true);
	pairs::<IndexedBTreeDataset<LocalTerm>>(ctx, &q2, 2, &few, true);
	// Large contents: each pair differs in at most one element.
	fn bulky<S: Cmp>(ctx: &mut Ctx) {
		let sizes: Vec<u16> = bulk_sizes(ctx).into_iter().filter(|&n| n <= 130).collect();
		let mut cfgs = Vec::new();
		for &n in &sizes {
			for f in 0..FAMILIES {
				cfgs.push((n, f));
			}
		}
		ctx.space(
			&format!("{}<{}> comparison of large contents, sizes {sizes:?}", S::NAME, S::R::NAME),
			cfgs.len(),
			|j, l| {
				let (n, f) = cfgs[j];
				let fam = order(0, &family(f, n, S::DATASET));
				let mut contents = vec![fam.clone()];
				let cuts = [0, 1, fam.len() / 2, fam.len() - 1];
				for c in cuts {
					let mut v = fam.clone();
					v.remove(c.min(fam.len() - 1));
					contents.push(v);
				}
				for (x, mx) in contents.iter().enumerate() {
					for (y, my) in contents.iter().enumerate() {
						for wa in 0..WAYS {
							let wb = (wa * 2 + 1) % WAYS;
							l.case(|| format!("family {f} size {n} {x} {y}"));
							l.transitions += 1;
							l.states += 1;
							let (a, b): (S, S) = (build(mx, &fam, wa), build(my, &fam, wb));
							guard_check(|| compare(&a, &b, mx, my, false, l)).map_err(|e| {
								Fail::new(format!("{} family {f} size {n} variants {x} (way {wa}) and {y} (way {wb})", S::NAME), e)
							})?;
						}
					}
				}
				l.traces += 1;
				Ok(())
			},
		);
	}
	bulky::<BTreeGraph<u32>>(ctx);
	bulky::<IndexedBTreeGraph<u32>>(ctx);
	bulky::<BTreeDataset<u32>>(ctx);
	bulky::<IndexedBTreeDataset<u32>>(ctx);
	// Comparison of datasets over different resource types.
	let mut sets: Vec<Vec<Q>> = Vec::new();
	for k in 0..=2 {
		sets.extend(subsets(&q2, k));
	}
	for s in &mut sets {
		s.sort();
	}
	ctx.space(
		"BTreeDataset<String> == BTreeDataset<&str>: all pairs of contents",
		sets.len(),
		|j, l| {
			let a: BTreeDataset<String> = build(&sets[j], &q2, 2);
			for s in &sets {
				let names: Vec<String> = (0..2).map(String::mk).collect();
				let r = |x: u16| names[x as usize].as_str();
				let mut b: BTreeDataset<&str> = BTreeDataset::new();
				for e in s {
					b.insert(Quad(r(e.s), r(e.p), r(e.o), e.g.map(r)));
				}
				l.checks += 1;
				l.transitions += 1;
				if (a == b) != (sets[j] == *s) {
					return Err(Fail::new(
						format!("{:?} against {s:?}", sets[j]),
						format!("== across resource types is {}", a == b),
					));
				}
			}
			l.states += 1;
			Ok(())
		},
	);
	crate::huge::run(ctx, crate::huge::What::Compare);
}

// ---------------------------------------------------------------- C20

pub fn idx_all<'a, R: Res>(it: impl Iterator<Item = &'a R>) -> Vec<u16> {
	let mut v: Vec<u16> = it.take(LIM).map(|r| r.idx()).collect();
	v.sort();
	v
}

/// The dataset interface of a plain or indexed graph.
pub fn as_dataset<D, R: Res>(d: &D, m: &Model, l: &mut Local) -> Result<(), String>
where
	D: TraversableDataset + ResourceTraversableDataset + NamedGraphTraversableDataset + Dataset<Resource = R>,
{
	let exp: Vec<Q> = m.iter().copied().collect();
	let got: Vec<Q> = d.quads().take(LIM).map(of_quad).collect();
	l.checks += 7;
	ensure_eq!(sorted(got), exp, "quads");
	ensure_eq!(d.quads_count(), exp.len(), "quads_count");
	let res: Vec<u16> = m_resources(m).into_iter().collect();
	ensure_eq!(idx_all(d.resources()), res, "resources");
	ensure_eq!(d.resource_count(), res.len(), "resource_count");
	ensure_eq!(idx_all(d.named_graphs()), m_role(m, Role::Graph), "named_graphs");
	ensure_eq!(d.named_graph_count(), m_role(m, Role::Graph).len(), "named_graph_count");
	let got: Vec<Q> = fallible::FallibleTraversableDataset::try_quads(d)
		.take(LIM)
		.map(|x| of_quad(x.unwrap()))
		.collect();
	ensure_eq!(sorted(got), exp, "try_quads");
	Ok(())
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
	v.sort();
	v
}

/// The pattern-matching dataset interface; `pats` are quad patterns.
pub fn as_matching<D, R: Res>(d: &D, m: &Model, vals: &[u16], pats: &[Pat], l: &mut Local) -> Result<(), String>
where
	D: PatternMatchingDataset
		+ SubjectTraversableDataset
		+ PredicateTraversableDataset
		+ ObjectTraversableDataset
		+ Dataset<Resource = R>,
{
	use fallible::FalliblePatternMatchingDataset as F;
	l.checks += 6;
	ensure_eq!(idx_all(d.subjects()), m_role(m, Role::Subject), "subjects");
	ensure_eq!(idx_all(d.predicates()), m_role(m, Role::Predicate), "predicates");
	ensure_eq!(idx_all(d.objects()), m_role(m, Role::Object), "objects");
	ensure_eq!(d.subject_count(), m_role(m, Role::Subject).len(), "subject_count");
	ensure_eq!(d.predicate_count(), m_role(m, Role::Predicate).len(), "predicate_count");
	ensure_eq!(d.object_count(), m_role(m, Role::Object).len(), "object_count");
	for pt in pats {
		let exp = m_match(m, pt);
		let vals = QuadPat::<R>::new(pt);
		let got: Vec<Q> = d.quad_pattern_matching(vals.get()).take(LIM).map(of_quad).collect();
		l.checks += 2;
		ensure_eq!(sorted(got), exp, "quad_pattern_matching {pt:?}");
		let got: Vec<Q> = F::try_quad_pattern_matching(d, vals.get())
			.take(LIM)
			.map(|x| of_quad(x.unwrap()))
			.collect();
		ensure_eq!(sorted(got), exp, "try_quad_pattern_matching {pt:?}");
	}
	let graphs: Vec<Option<u16>> = std::iter::once(None).chain(vals.iter().map(|&v| Some(v))).collect();
	for &v in vals {
		let r = R::mk(v);
		let has = |role| m_role(m, role).binary_search(&v).is_ok();
		l.checks += 4;
		ensure_eq!(d.contains_quad_subject(&r), has(Role::Subject), "contains_quad_subject({v})");
		ensure_eq!(d.contains_quad_predicate(&r), has(Role::Predicate), "contains_quad_predicate({v})");
		ensure_eq!(d.contains_quad_object(&r), has(Role::Object), "contains_quad_object({v})");
		ensure_eq!(d.contains_named_graph(&r), has(Role::Graph), "contains_named_graph({v})");
		for &g in &graphs {
			let gr = g.map(R::mk);
			let mut exp: Vec<(u16, Vec<u16>)> = Vec::new();
			for e in m.iter().filter(|e| e.s == v && e.g == g) {
				match exp.last_mut() {
					Some((p, os)) if *p == e.p => os.push(e.o),
					_ => exp.push((e.p, vec![e.o])),
				}
			}
			let got: Vec<(u16, Vec<u16>)> = d
				.quad_predicates_objects(gr.as_ref(), &r)
				.take(LIM)
				.map(|(p, os)| (p.idx(), idx_all(os)))
				.collect();
			l.checks += 1;
			ensure_eq!(sorted(got), exp, "quad_predicates_objects({g:?}, {v})");
			for &p in vals {
				let pr = R::mk(p);
				let exp: Vec<u16> = m
					.iter()
					.filter(|e| e.s == v && e.p == p && e.g == g)
					.map(|e| e.o)
					.collect();
				l.checks += 1;
				ensure_eq!(
					idx_all(d.quad_objects(gr.as_ref(), &r, &pr)),
					exp,
					"quad_objects({g:?}, {v}, {p})"
				);
				for &o in vals {
					let e = q(v, p, o, g);
					let quad = mk_quad::<R>(e);
					l.checks += 1;
					ensure_eq!(d.contains_quad(quad.as_ref()), m.contains(&e), "contains_quad {e:?}");
					if g.is_none() {
						let t = Triple(&r, &pr, &quad.2);
						let got = F::try_contains_triple(d, t).unwrap();
						let in_default = m.contains(&e);
						let anywhere = m.iter().any(|x| (x.s, x.p, x.o) == (v, p, o));
						// A triple found in named graphs only may count or not.
						ensure!(
							if got { anywhere } else { !in_default },
							"try_contains_triple {e:?}: got {got}, in the default graph: {in_default}, in any graph: {anywhere}"
						);
					}
				}
			}
		}
	}
	Ok(())
}

/// The graph interface itself.
pub fn as_graph<D, R: Res>(d: &D, m: &Model, l: &mut Local) -> Result<(), String>
where
	D: TraversableGraph + ResourceTraversableGraph + Graph<Resource = R>,
{
	let exp: Vec<Q> = m.iter().copied().collect();
	l.checks += 4;
	let got: Vec<Q> = d.triples().take(LIM).map(of_triple).collect();
	ensure_eq!(sorted(got), exp, "triples");
	ensure_eq!(d.triples_count(), exp.len(), "triples_count");
	let got: Vec<Q> = fallible_graph::FallibleTraversableGraph::try_triples(d)
		.take(LIM)
		.map(|x| of_triple(x.unwrap()))
		.collect();
	ensure_eq!(sorted(got), exp, "try_triples");
	let res: Vec<u16> = m_resources(m).into_iter().collect();
	ensure_eq!(idx_all(d.graph_resources()), res, "graph_resources");
	ensure_eq!(d.graph_resource_count(), res.len(), "graph_resource_count");
	Ok(())
}

fn mutations<S: Sut>(c: &S, m: &Model, probes: &[Q], l: &mut Local) -> Result<(), String> {
	for &e in probes {
		for k in 0..3 {
			let (mut d, mut m2) = (c.clone(), m.clone());
			let what = match k {
				0 => {
					d.trait_insert(e);
					m2.insert(e);
					"insert"
				}
				1 => {
					d.trait_try_insert(e);
					m2.insert(e);
					"try_insert"
				}
				_ => {
					d.trait_remove(e);
					m2.remove(&e);
					"remove"
				}
			};
			l.transitions += 1;
			l.checks += 1;
			let exp: Vec<Q> = m2.iter().copied().collect();
			ensure_eq!(d.iter_vec(), exp, "content after generic {what} {e:?}");
			ensure_eq!(d.len(), exp.len(), "len after generic {what} {e:?}");
			let mut direct = c.clone();
			match k {
				2 => direct.remove(e),
				_ => direct.insert(e),
			};
			ensure!(direct == d, "generic {what} {e:?} differs from the direct operation");
		}
	}
	Ok(())
}

fn try_graph<R: Res>(c: &IndexedBTreeGraph<R>, m: &Model, vals: &[u16], l: &mut Local) -> Result<(), String> {
	for pt in triple_patterns(vals) {
		l.checks += 1;
		ensure_eq!(
			sorted(c.try_matching(&pt)),
			m_match(m, &pt),
			"try_triple_pattern_matching {pt:?}"
		);
	}
	for &s in vals {
		for &p in vals {
			for &o in vals {
				let e = q(s, p, o, None);
				let t = mk_triple::<R>(e);
				l.checks += 1;
				ensure_eq!(
					fallible_graph::FalliblePatternMatchingGraph::try_contains_triple(c, t.as_ref()).unwrap(),
					m.contains(&e),
					"try_contains_triple {e:?}"
				);
			}
		}
	}
	Ok(())
}

fn c20(ctx: &mut Ctx) {
	let (t2, t3, q2) = (triples(2), triples(3), quads(2));
	const T: &str = "generic interfaces";
	crate::iters::run(ctx, crate::iters::What::Generic);
	let vals = [0, 1, ABSENT];
	let pats = quad_patterns(&vals);
	fn plain_graph<R: Res>(ctx: &mut Ctx, u: &[Q], d: usize) {
		histories::<BTreeGraph<R>>(ctx, T, u, d, false, |c: &BTreeGraph<R>, m: &Model, l: &mut Local| {
			as_graph(c, m, l)?;
			as_dataset(c, m, l)?;
			mutations(c, m, &u[..u.len().min(9)], l)
		});
	}
	fn indexed_graph<R: Res>(ctx: &mut Ctx, u: &[Q], d: usize, vals: &[u16], pats: &[Pat]) {
		histories::<IndexedBTreeGraph<R>>(ctx, T, u, d, false, |c: &IndexedBTreeGraph<R>, m: &Model, l: &mut Local| {
			as_graph(c, m, l)?;
			as_dataset(c, m, l)?;
			as_matching(c, m, vals, pats, l)?;
			try_graph(c, m, vals, l)?;
			mutations(c, m, &u[..u.len().min(9)], l)
		});
	}
	fn plain_dataset<R: Res>(ctx: &mut Ctx, u: &[Q], d: usize) {
		histories::<BTreeDataset<R>>(ctx, T, u, d, false, |c: &BTreeDataset<R>, m: &Model, l: &mut Local| {
			let exp: Vec<Q> = m.iter().copied().collect();
			l.checks += 4;
			ensure_eq!(sorted(c.try_listing()), exp, "try_quads");
			ensure_eq!(TraversableDataset::quads_count(c), exp.len(), "quads_count");
			let got: Vec<Q> = TraversableDataset::quads(c).take(LIM).map(of_quad).collect();
			ensure_eq!(sorted(got), exp, "quads");
			let res: Vec<u16> = m_resources(m).into_iter().collect();
			ensure_eq!(idx_all(ResourceTraversableDataset::resources(c)), res, "resources");
			mutations(c, m, u, l)
		});
	}
	fn indexed_dataset<R: Res>(ctx: &mut Ctx, u: &[Q], d: usize, vals: &[u16], pats: &[Pat]) {
		histories::<IndexedBTreeDataset<R>>(ctx, T, u, d, false, |c: &IndexedBTreeDataset<R>, m: &Model, l: &mut Local| {
			as_dataset(c, m, l)?;
			as_matching(c, m, vals, pats, l)?;
			mutations(c, m, &u[..u.len().min(9)], l)
		});
	}
	plain_graph::<u32>(ctx, &t2, ctx.pick(5, 6));
	plain_graph::<u32>(ctx, &t3, 3);
	plain_graph::<LocalTerm>(ctx, &t2, 4);
	indexed_graph::<u32>(ctx, &t2, ctx.pick(5, 6), &vals, &pats);
	indexed_graph::<u32>(ctx, &t3, ctx.pick(2, 3), &[0, 2, ABSENT], &quad_patterns(&[0, 2, ABSENT]));
	indexed_graph::<LocalTerm>(ctx, &t2, ctx.pick(3, 4), &vals, &pats);
	plain_dataset::<u32>(ctx, &q2, ctx.pick(3, 4));
	indexed_dataset::<u32>(ctx, &q2, 2, &vals, &pats);
	indexed_dataset::<u32>(ctx, &q2, 3, &vals, &quad_patterns(&ctx.pick(vec![0], vec![0, 1])));
	indexed_dataset::<LocalTerm>(ctx, &q2, 2, &vals, &pats);
	let sizes: Vec<u16> = bulk_sizes(ctx).into_iter().filter(|&n| n <= ctx.pick(130, 260)).collect();
	bulk::<IndexedBTreeGraph<u32>>(ctx, T, &sizes, false, |c: &IndexedBTreeGraph<u32>, m: &Model, l: &mut Local| {
		let v = probe_values(m);
		as_graph(c, m, l)?;
		as_dataset(c, m, l)?;
		as_matching(c, m, &v, &quad_patterns(&v[..1]), l)
	});
	bulk::<BTreeGraph<u32>>(ctx, T, &sizes, false, |c: &BTreeGraph<u32>, m: &Model, l: &mut Local| {
		as_graph(c, m, l)?;
		as_dataset(c, m, l)
	});
	crate::userdef::run(ctx);
}
