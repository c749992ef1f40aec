//! The iterators of the containers as iterators: whichever way they are driven (one by one, skipping, counting,
//! folding, after the end), they give the same items. Shared by C01–C07 and C20.
use crate::engine::*;
use crate::explore::*;
use crate::model::*;
use crate::pats::*;
use crate::sut::*;
use crate::{ensure, ensure_eq};
use rdf_types::dataset::*;
use std::fmt::Debug;

/// Drives fresh iterators from `mk` in every way; `f` reads an item.
pub fn protocol<I, T>(what: &str, mk: impl Fn() -> I, f: impl Fn(I::Item) -> T, l: &mut Local) -> Result<usize, String>
where
	I: Iterator,
	T: PartialEq + Debug + Clone,
{
	let mut all = Vec::new();
	let mut hints = Vec::new();
	let mut it = mk();
	loop {
		hints.push(it.size_hint());
		match it.next() {
			Some(x) => all.push(f(x)),
			None => break,
		}
		ensure!(all.len() < LIM, "{what}: never ends");
	}
	let n = all.len();
	for (i, (lo, hi)) in hints.into_iter().enumerate() {
		let left = n - i;
		ensure!(
			lo <= left && hi.is_none_or(|h| left <= h),
			"{what}: size_hint after {i} items is ({lo}, {hi:?}) but {left} items follow"
		);
	}
	for _ in 0..2 {
		ensure!(it.next().is_none(), "{what}: yields an item after its end");
	}
	l.checks += 6 + n as u64;
	ensure_eq!(mk().count(), n, "{what}: count()");
	ensure_eq!(mk().last().map(&f), all.last().cloned(), "{what}: last()");
	let mut v = Vec::new();
	mk().for_each(|x| v.push(f(x)));
	ensure_eq!(v, all, "{what}: for_each");
	let step: Vec<T> = mk().step_by(2).map(&f).collect();
	let exp: Vec<T> = all.iter().step_by(2).cloned().collect();
	ensure_eq!(step, exp, "{what}: step_by(2)");
	// Skip `k` items, then read on.
	for k in (0..=n + 1).filter(|&k| k < 4 || k % 7 == 0 || k + 2 >= n) {
		let mut it = mk();
		ensure_eq!(it.nth(k).map(&f), all.get(k).cloned(), "{what}: nth({k})");
		if k < n {
			let rest: Vec<T> = it.map(&f).collect();
			ensure_eq!(rest[..], all[k + 1..], "{what}: what follows nth({k})");
		} else {
			ensure!(it.next().is_none(), "{what}: an item after nth({k}) of {n}");
		}
		if k <= n {
			let mut it = mk();
			it.by_ref().take(k).for_each(drop);
			ensure_eq!(it.count(), n - k, "{what}: count() after {k} items");
			let mut it = mk();
			it.by_ref().take(k).for_each(drop);
			ensure_eq!(it.last().map(&f), all[k..].last().cloned(), "{what}: last() after {k} items");
		}
	}
	Ok(n)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
	Elements,
	Resources,
	Roles,
	Matches,
	Alternatives,
	Extraction,
	Consuming,
	Generic,
}

pub trait Iters: Sut {
	fn drive(&self, what: What, pats: &[Pat], l: &mut Local) -> Result<(), String>;
}

fn rid<R: Res>(r: &R) -> u16 {
	r.idx()
}

macro_rules! common {
	($s:expr, $what:expr, $l:expr, $of:ident) => {
		match $what {
			What::Elements => {
				protocol("iter", || $s.iter(), $of, $l)?;
				protocol("into_iter by reference", || $s.into_iter(), $of, $l)?;
				protocol("quads (dataset interface)", || TraversableDataset::quads($s), of_quad, $l)?;
			}
			What::Resources => {
				protocol("resources", || $s.resources(), rid, $l)?;
				protocol("resources (dataset interface)", || ResourceTraversableDataset::resources($s), rid, $l)?;
			}
			What::Consuming => {
				protocol("into_iter", || $s.clone().into_iter(), |x| $of(x.as_ref()), $l)?;
			}
			What::Generic => {
				protocol("quads (dataset interface)", || TraversableDataset::quads($s), of_quad, $l)?;
				protocol("resources (dataset interface)", || ResourceTraversableDataset::resources($s), rid, $l)?;
				protocol(
					"try_quads",
					|| fallible::FallibleTraversableDataset::try_quads($s),
					|x| of_quad(x.unwrap()),
					$l,
				)?;
			}
			_ => {}
		}
	};
}

fn graph_common<R: Res, G>(s: &G, what: What, l: &mut Local) -> Result<(), String>
where
	G: TraversableGraph<Resource = R> + ResourceTraversableGraph,
{
	match what {
		What::Elements => protocol("triples (graph interface)", || s.triples(), of_triple, l)?,
		What::Resources => protocol("graph_resources", || s.graph_resources(), rid, l)?,
		What::Generic => protocol(
			"try_triples",
			|| fallible_graph::FallibleTraversableGraph::try_triples(s),
			|x| of_triple(x.unwrap()),
			l,
		)?,
		_ => 0,
	};
	Ok(())
}

impl<R: Res> Iters for BTreeGraph<R> {
	fn drive(&self, what: What, _: &[Pat], l: &mut Local) -> Result<(), String> {
		common!(self, what, l, of_triple);
		graph_common(self, what, l)
	}
}

impl<R: Res> Iters for BTreeDataset<R> {
	fn drive(&self, what: What, _: &[Pat], l: &mut Local) -> Result<(), String> {
		common!(self, what, l, of_quad);
		Ok(())
	}
}

macro_rules! roles {
	($s:expr, $l:expr) => {
		protocol("subjects", || $s.subjects(), rid, $l)?;
		protocol("predicates", || $s.predicates(), rid, $l)?;
		protocol("objects", || $s.objects(), rid, $l)?;
		protocol("subjects (dataset interface)", || SubjectTraversableDataset::subjects($s), rid, $l)?;
		protocol("predicates (dataset interface)", || PredicateTraversableDataset::predicates($s), rid, $l)?;
		protocol("objects (dataset interface)", || ObjectTraversableDataset::objects($s), rid, $l)?;
		protocol("named_graphs (dataset interface)", || NamedGraphTraversableDataset::named_graphs($s), rid, $l)?;
	};
}

impl<R: Res> Iters for IndexedBTreeGraph<R> {
	fn drive(&self, what: What, pats: &[Pat], l: &mut Local) -> Result<(), String> {
		common!(self, what, l, of_triple);
		graph_common(self, what, l)?;
		match what {
			What::Roles => {
				roles!(self, l);
				protocol("graph_subjects", || self.graph_subjects(), rid, l)?;
				protocol("graph_predicates", || self.graph_predicates(), rid, l)?;
				protocol("graph_objects", || self.graph_objects(), rid, l)?;
			}
			What::Matches => {
				for pt in pats.iter().filter(|p| p.g == C::Any && build_triple(p, |x| x).is_some()) {
					let v = TriplePat::<R>::new(pt);
					protocol(&format!("pattern_matching {pt:?}"), || self.pattern_matching(v.get()), of_triple, l)?;
					protocol(
						&format!("triple_pattern_matching {pt:?}"),
						|| self.triple_pattern_matching(v.get()),
						of_triple,
						l,
					)?;
				}
				for s in [0, 1, ABSENT] {
					let s = R::mk(s);
					protocol("triple_predicates_objects", || self.triple_predicates_objects(&s), |x| rid(x.0), l)?;
					for (p, _) in self.triple_predicates_objects(&s) {
						let os = || self.triple_predicates_objects(&s).find(|x| x.0 == p).unwrap().1;
						protocol("objects of triple_predicates_objects", os, rid, l)?;
					}
					for p in [0, 1] {
						let p = R::mk(p);
						protocol("triple_objects", || self.triple_objects(&s, &p), rid, l)?;
					}
				}
			}
			What::Generic => {
				roles!(self, l);
				for pt in pats.iter().filter(|p| p.g == C::Any && build_triple(p, |x| x).is_some()) {
					let v = TriplePat::<R>::new(pt);
					protocol(
						&format!("try_triple_pattern_matching {pt:?}"),
						|| fallible_graph::FalliblePatternMatchingGraph::try_triple_pattern_matching(self, v.get()),
						|x| of_triple(x.unwrap()),
						l,
					)?;
				}
				for pt in pats {
					let v = QuadPat::<R>::new(pt);
					protocol(
						&format!("quad_pattern_matching {pt:?}"),
						|| self.quad_pattern_matching(v.get()),
						of_quad,
						l,
					)?;
				}
			}
			_ => {}
		}
		Ok(())
	}
}

impl<R: Res> Iters for IndexedBTreeDataset<R> {
	fn drive(&self, what: What, pats: &[Pat], l: &mut Local) -> Result<(), String> {
		common!(self, what, l, of_quad);
		match what {
			What::Roles => {
				roles!(self, l);
				protocol("named_graphs", || self.named_graphs(), rid, l)?;
			}
			What::Matches => {
				for pt in pats {
					let v = QuadPat::<R>::new(pt);
					protocol(&format!("pattern_matching {pt:?}"), || self.pattern_matching(v.get()), of_quad, l)?;
					protocol(
						&format!("quad_pattern_matching {pt:?}"),
						|| self.quad_pattern_matching(v.get()),
						of_quad,
						l,
					)?;
				}
				for g in [None, Some(0), Some(1)] {
					let g = g.map(R::mk);
					let g = g.as_ref();
					for s in [0, 1, ABSENT] {
						let s = R::mk(s);
						protocol("quad_predicates_objects", || self.quad_predicates_objects(g, &s), |x| rid(x.0), l)?;
						for (p, _) in self.quad_predicates_objects(g, &s) {
							let os = || self.quad_predicates_objects(g, &s).find(|x| x.0 == p).unwrap().1;
							protocol("objects of quad_predicates_objects", os, rid, l)?;
						}
						for p in [0, 1] {
							let p = R::mk(p);
							protocol("quad_objects", || self.quad_objects(g, &s, &p), rid, l)?;
						}
					}
				}
			}
			What::Alternatives => {
				for pt in pats {
					// Each given component becomes a list of alternatives.
					for lists in [vec![0u16, 1], vec![1, 0, 1], vec![ABSENT, 0]] {
						let vals: Vec<R> = lists.iter().map(|&x| R::mk(x)).collect();
						protocol(
							&format!("multi_pattern_matching {pt:?} with given components among {lists:?}"),
							|| self.multi_pattern_matching(build_quad(pt, |_| vals.iter()).unwrap()),
							of_quad,
							l,
						)?;
						protocol(
							&format!("quad_multi_pattern_matching {pt:?} with given components among {lists:?}"),
							|| self.quad_multi_pattern_matching(build_quad(pt, |_| vals.iter()).unwrap()),
							of_quad,
							l,
						)?;
					}
				}
			}
			What::Generic => {
				for pt in pats {
					let v = QuadPat::<R>::new(pt);
					protocol(
						&format!("try_quad_pattern_matching {pt:?}"),
						|| fallible::FalliblePatternMatchingDataset::try_quad_pattern_matching(self, v.get()),
						|x| of_quad(x.unwrap()),
						l,
					)?;
				}
			}
			What::Extraction => {
				for pt in pats {
					self.extraction(pt, l)?;
				}
			}
			_ => {}
		}
		Ok(())
	}
}

trait Extraction {
	fn extraction(&self, pt: &Pat, l: &mut Local) -> Result<(), String>;
}

impl<R: Res> Extraction for IndexedBTreeDataset<R> {
	/// However the extraction is driven, what it passed over is gone and the rest is there.
	fn extraction(&self, pt: &Pat, l: &mut Local) -> Result<(), String> {
		let v = QuadPat::<R>::new(pt);
		let before: Model = self.iter().map(of_quad).collect();
		let n = before.iter().filter(|&&e| accepts(pt, e)).count();
		for k in 0..=n + 1 {
			for (how, mode) in [("nth", 0), ("next and then count", 1), ("next and then last", 2), ("next, size_hint and drop", 3), ("skip", 4)] {
				let mut d = self.clone();
				let mut it = d.extract_pattern_matching(v.get());
				let mut seen: Vec<Q> = Vec::new();
				let gone = match mode {
					0 => {
						seen.extend(it.nth(k).map(|x| of_quad(x.as_ref())));
						ensure_eq!(seen.len(), (k < n) as usize, "extraction of {pt:?}: nth({k}) of {n}");
						(k + 1).min(n)
					}
					1 | 2 => {
						seen.extend(it.by_ref().take(k).map(|x| of_quad(x.as_ref())));
						if mode == 1 {
							ensure_eq!(it.count(), n - k.min(n), "extraction of {pt:?}: count() after {k}");
						} else {
							ensure_eq!(it.last().is_some(), k < n, "extraction of {pt:?}: last() after {k}");
						}
						n
					}
					3 => {
						for i in 0..k {
							let (lo, hi) = it.size_hint();
							let left = n - i.min(n);
							ensure!(
								lo <= left && hi.is_none_or(|h| left <= h),
								"extraction of {pt:?}: size_hint after {i} items is ({lo}, {hi:?}) but {left} follow"
							);
							seen.extend(it.next().map(|x| of_quad(x.as_ref())));
						}
						drop(it);
						k.min(n)
					}
					_ => {
						seen.extend(it.skip(k).map(|x| of_quad(x.as_ref())));
						ensure_eq!(seen.len(), n - k.min(n), "extraction of {pt:?}: skip({k})");
						n
					}
				};
				l.checks += 1;
				l.transitions += 1;
				let what = || format!("extraction of {pt:?} driven by {how} ({k} of {n})");
				let after: Model = d.iter().map(of_quad).collect();
				ensure_eq!(d.len(), before.len() - gone, "len after the {}", what());
				ensure_eq!(after.len(), before.len() - gone, "elements left after the {}", what());
				ensure!(
					after.is_subset(&before)
						&& before.difference(&after).all(|&e| accepts(pt, e))
						&& seen.iter().all(|e| before.contains(e) && !after.contains(e) && accepts(pt, *e)),
					"{}: from {before:?} left {after:?}, yielded {seen:?}",
					what()
				);
			}
		}
		Ok(())
	}
}

fn single(pats: &[Pat]) -> Vec<Pat> {
	pats.iter()
		.copied()
		.filter(|p| [p.s, p.p, p.o, p.g].iter().filter(|&&c| c != C::Any).count() <= 1)
		.collect()
}

fn one<S: Iters>(ctx: &mut Ctx, what: What) {
	let u = if S::DATASET { quads(2) } else { triples(2) };
	let all = quad_patterns(&[0, 1]);
	let few = single(&all);
	let tag = format!("iterators driven in every way ({what:?})");
	let few = &few;
	let d = match what {
		What::Elements | What::Resources | What::Roles | What::Consuming => ctx.pick(3, 4) + !S::DATASET as usize,
		_ => ctx.pick(2, 3),
	};
	histories::<S>(ctx, &tag, &u, d, false, |c: &S, _: &Model, l: &mut Local| c.drive(what, few, l));
	if matches!(what, What::Matches | What::Alternatives | What::Extraction) {
		let all = &all;
		histories::<S>(ctx, &format!("{tag}, all patterns"), &u, ctx.pick(1, 2), false, |c: &S, _: &Model, l: &mut Local| {
			c.drive(what, all, l)
		});
	}
	let sizes: Vec<u16> = if ctx.quick() { vec![9, 18, 40] } else { vec![9, 18, 40, 70, 130] };
	bulk::<S>(ctx, &tag, &sizes, false, |c: &S, m: &Model, l: &mut Local| {
		if what == What::Extraction && m.len() > 18 {
			return Ok(());
		}
		c.drive(what, &few[..few.len().min(6)], l)
	});
}

pub fn run(ctx: &mut Ctx, what: What) {
	match what {
		What::Elements | What::Resources | What::Consuming | What::Generic => {
			one::<BTreeGraph<u32>>(ctx, what);
			one::<BTreeDataset<u32>>(ctx, what);
			one::<IndexedBTreeGraph<u32>>(ctx, what);
			one::<IndexedBTreeDataset<u32>>(ctx, what);
		}
		What::Roles | What::Matches => {
			one::<IndexedBTreeGraph<u32>>(ctx, what);
			one::<IndexedBTreeDataset<u32>>(ctx, what);
		}
		What::Alternatives | What::Extraction => one::<IndexedBTreeDataset<u32>>(ctx, what),
	}
}
