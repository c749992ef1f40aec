//! C01–C06: container semantics.
use crate::engine::*;
use crate::explore::*;
use crate::mixed::*;
use crate::model::*;
use crate::pats::*;
use crate::sut::*;
use crate::{ensure, ensure_eq, PropSpec};
use rdf_types::dataset::*;
use rdf_types::LocalTerm;

const ASSUME: &[&str] = &[
	"histories up to the stated depth over the stated universes, plus the listed bulk families; resources are u32, String and LocalTerm values with a lawful total order",
	"reference model: a sorted set of tuples; order of resource/role/pattern listings is not prescribed",
	"release build semantics, single thread (the containers have no interior mutability)",
];

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec { id: "C01", run: c01, assumptions: ASSUME });
	v.push(PropSpec { id: "C02", run: c02, assumptions: ASSUME });
	v.push(PropSpec { id: "C03", run: c03, assumptions: ASSUME });
	v.push(PropSpec { id: "C04", run: c04, assumptions: ASSUME });
	v.push(PropSpec { id: "C05", run: c05, assumptions: ASSUME });
	v.push(PropSpec { id: "C06", run: c06, assumptions: ASSUME });
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
	v.sort();
	v
}

fn content(m: &Model) -> Vec<Q> {
	m.iter().copied().collect()
}

// ---------------------------------------------------------------- C01

pub fn obs_set<S: Sut>(c: &S, m: &Model, probes: &[Q], l: &mut Local) -> Result<(), String> {
	let exp = content(m);
	for (how, got) in c.listings() {
		l.checks += 1;
		ensure_eq!(got, exp, "{how}");
	}
	for (how, n) in c.counts() {
		l.checks += 1;
		ensure_eq!(n, exp.len(), "{how}");
	}
	ensure_eq!(c.is_empty(), exp.is_empty(), "is_empty");
	for &e in probes {
		l.checks += 1;
		ensure_eq!(c.contains(e), m.contains(&e), "contains{e:?}");
	}
	Ok(())
}

/// Operations that must not change anything, on a clone.
fn obs_noops<S: Sut>(c: &S, m: &Model, probes: &[Q], l: &mut Local) -> Result<(), String> {
	let mut d = c.clone();
	for &e in probes {
		l.checks += 1;
		l.transitions += 1;
		if m.contains(&e) {
			ensure!(!d.insert(e), "insert{e:?} of a present element returned true");
		} else {
			ensure!(!d.remove(e), "remove{e:?} of an absent element returned true");
		}
	}
	ensure_eq!(d.iter_vec(), content(m), "content after operations without effect");
	ensure_eq!(d.len(), m.len(), "len after operations without effect");
	Ok(())
}

fn with_absent(u: &[Q]) -> Vec<Q> {
	let mut v = u.to_vec();
	v.push(q(ABSENT, 0, 0, None));
	v.push(q(0, ABSENT, 0, None));
	v.push(q(0, 0, ABSENT, None));
	v
}

fn absent_graph(u: &[Q]) -> Vec<Q> {
	let mut v = with_absent(u);
	v.push(q(0, 0, 0, Some(ABSENT)));
	v.push(q(ABSENT, ABSENT, ABSENT, Some(ABSENT)));
	v
}

/// Probes for bulk contents: a fixed selection around the content.
fn bulk_probes(m: &Model, dataset: bool) -> Vec<Q> {
	let mut v: Vec<Q> = m.iter().copied().collect();
	let near: Vec<Q> = v
		.iter()
		.flat_map(|e| {
			let mut w = vec![q(e.o, e.p, e.s, e.g), q(e.s, e.p, e.o + 1, e.g)];
			if dataset {
				w.push(q(e.s, e.p, e.o, if e.g.is_some() { None } else { Some(e.s) }));
			}
			w
		})
		.collect();
	v.extend(near);
	v
}

pub fn bulk_sizes(ctx: &Ctx) -> Vec<u16> {
	if ctx.quick() {
		vec![3, 7, 9, 16, 18, 40, 70, 130]
	} else {
		vec![3, 5, 7, 8, 9, 10, 14, 15, 16, 17, 18, 33, 40, 70, 130, 260, 520, 1100]
	}
}

fn c01_one<S: Sut>(ctx: &mut Ctx, u: &[Q], depth: usize) {
	let probes = if S::DATASET { absent_graph(u) } else { with_absent(u) };
	histories::<S>(ctx, "set semantics", u, depth, true, |c: &S, m: &Model, l: &mut Local| {
		obs_set(c, m, &probes, l)?;
		obs_noops(c, m, &probes, l)
	});
}

fn c01_bulk<S: Sut>(ctx: &mut Ctx) {
	let sizes = bulk_sizes(ctx);
	bulk::<S>(ctx, "set semantics", &sizes, true, |c: &S, m: &Model, l: &mut Local| {
		let probes = bulk_probes(m, S::DATASET);
		obs_set(c, m, &probes, l)?;
		obs_noops(c, m, &probes, l)
	});
}

fn c01(ctx: &mut Ctx) {
	let (t2, t3, q2) = (triples(2), triples(3), quads(2));
	crate::huge::run(ctx, crate::huge::What::Set);
	crate::iters::run(ctx, crate::iters::What::Elements);
	let d = ctx.pick(5, 7);
	c01_one::<BTreeGraph<u32>>(ctx, &t2, d);
	c01_one::<IndexedBTreeGraph<u32>>(ctx, &t2, d);
	let d = ctx.pick(3, 5);
	c01_one::<BTreeGraph<u32>>(ctx, &t3, d.min(4));
	c01_one::<IndexedBTreeGraph<u32>>(ctx, &t3, d.min(4));
	let d = ctx.pick(4, 5);
	c01_one::<BTreeDataset<u32>>(ctx, &q2, d);
	c01_one::<IndexedBTreeDataset<u32>>(ctx, &q2, d);
	// Lexical terms as resources.
	let d = ctx.pick(3, 4);
	c01_one::<BTreeGraph<LocalTerm>>(ctx, &t3, d.min(3));
	c01_one::<IndexedBTreeGraph<LocalTerm>>(ctx, &t3, d.min(3));
	c01_one::<BTreeDataset<LocalTerm>>(ctx, &q2, d);
	c01_one::<IndexedBTreeDataset<LocalTerm>>(ctx, &q2, d);
	let probes = absent_graph(&q2);
	fn sub<S: Sut>(ctx: &mut Ctx, u: &[Q], k: usize, d: usize, probes: &[Q]) {
		subset_histories::<S>(ctx, "set semantics", u, k, d, true, |c: &S, m: &Model, l: &mut Local| {
			obs_set(c, m, probes, l)
		});
	}
	for (k, d) in ctx.pick([(3, 6), (4, 5)], [(3, 9), (4, 7)]) {
		sub::<BTreeDataset<u32>>(ctx, &q2, k, d, &probes);
		sub::<IndexedBTreeDataset<u32>>(ctx, &q2, k, d, &probes);
	}
	fn mix<S: Mixed>(ctx: &mut Ctx, n: usize, d: usize) {
		let u = mixed_universe(S::DATASET, 8);
		let probes = if S::DATASET { absent_graph(&u) } else { with_absent(&u) };
		mixed::<S>(ctx, "set semantics", n, d, |c: &S, m: &Model, l: &mut Local| {
			obs_set(c, m, &probes, l)?;
			obs_noops(c, m, &probes, l)
		});
	}
	let d = ctx.pick(4, 5);
	mix::<BTreeGraph<u32>>(ctx, 4, d);
	mix::<IndexedBTreeGraph<u32>>(ctx, 4, d);
	mix::<BTreeDataset<u32>>(ctx, 6, d);
	mix::<IndexedBTreeDataset<u32>>(ctx, 4, ctx.pick(4, 5));
	mix::<IndexedBTreeDataset<String>>(ctx, 6, ctx.pick(3, 4));
	c01_bulk::<BTreeGraph<u32>>(ctx);
	c01_bulk::<IndexedBTreeGraph<u32>>(ctx);
	c01_bulk::<BTreeDataset<u32>>(ctx);
	c01_bulk::<IndexedBTreeDataset<u32>>(ctx);
	c01_bulk::<BTreeGraph<String>>(ctx);
	c01_bulk::<IndexedBTreeDataset<String>>(ctx);
}

fn space_mixed<S: Mixed>(
	ctx: &mut Ctx,
	tag: &str,
	n: usize,
	depth: usize,
	f: fn(&S, &Model, &[u16], &mut Local) -> Result<(), String>,
) {
	mixed::<S>(ctx, tag, n, depth, move |c: &S, m: &Model, l: &mut Local| {
		f(c, m, &[0, 1, ABSENT], l)
	});
}

// ---------------------------------------------------------------- C02

pub fn obs_resources<S: Sut>(c: &S, m: &Model, vals: &[u16], l: &mut Local) -> Result<(), String> {
	let exp: Vec<u16> = m_resources(m).into_iter().collect();
	l.checks += 2;
	ensure_eq!(sorted(c.resources()), exp, "resources");
	ensure_eq!(sorted(c.resources_trait()), exp, "resources (generic interface)");
	for (how, n) in c.resource_counts() {
		l.checks += 1;
		ensure_eq!(n, exp.len(), "{how}");
	}
	for &v in vals {
		l.checks += 1;
		ensure_eq!(
			c.contains_resource(v),
			exp.binary_search(&v).is_ok(),
			"contains_resource({v})"
		);
	}
	Ok(())
}

fn space_set<S: Sut>(
	ctx: &mut Ctx,
	tag: &str,
	u: &[Q],
	depth: usize,
	f: fn(&S, &Model, &[u16], &mut Local) -> Result<(), String>,
) {
	let n = u.iter().map(|e| e.s).max().unwrap() + 1;
	let mut vals: Vec<u16> = (0..n).collect();
	vals.push(ABSENT);
	histories::<S>(ctx, tag, u, depth, false, move |c: &S, m: &Model, l: &mut Local| {
		f(c, m, &vals, l)
	});
}

fn space_sub<S: Sut>(
	ctx: &mut Ctx,
	tag: &str,
	u: &[Q],
	k: usize,
	depth: usize,
	f: fn(&S, &Model, &[u16], &mut Local) -> Result<(), String>,
) {
	let n = u.iter().map(|e| e.s).max().unwrap() + 1;
	let mut vals: Vec<u16> = (0..n).collect();
	vals.push(ABSENT);
	subset_histories::<S>(ctx, tag, u, k, depth, false, move |c: &S, m: &Model, l: &mut Local| {
		f(c, m, &vals, l)
	});
}

fn space_bulk<S: Sut>(
	ctx: &mut Ctx,
	tag: &str,
	f: fn(&S, &Model, &[u16], &mut Local) -> Result<(), String>,
) {
	let sizes = bulk_sizes(ctx);
	bulk::<S>(ctx, tag, &sizes, false, move |c: &S, m: &Model, l: &mut Local| {
		let vals = probe_values(m);
		f(c, m, &vals, l)
	});
}

/// A fixed selection of resource numbers for large contents: both ends, the
/// middle, and an absent one.
pub fn probe_values(m: &Model) -> Vec<u16> {
	let r: Vec<u16> = m_resources(m).into_iter().collect();
	let mut v: Vec<u16> = match r.len() {
		0 => vec![0],
		n => vec![r[0], r[n / 2], r[n - 1]],
	};
	v.push(ABSENT);
	v.dedup();
	v
}

fn c02(ctx: &mut Ctx) {
	let (t2, t3, q2) = (triples(2), triples(3), quads(2));
	const T: &str = "resources";
	crate::huge::run(ctx, crate::huge::What::Resources);
	crate::iters::run(ctx, crate::iters::What::Resources);
	let d = ctx.pick(5, 7);
	space_set::<BTreeGraph<u32>>(ctx, T, &t2, d, obs_resources);
	space_set::<IndexedBTreeGraph<u32>>(ctx, T, &t2, d, obs_resources);
	let d = ctx.pick(3, 4);
	space_set::<BTreeGraph<u32>>(ctx, T, &t3, d, obs_resources);
	space_set::<IndexedBTreeGraph<u32>>(ctx, T, &t3, d, obs_resources);
	let d = ctx.pick(4, 5);
	space_set::<BTreeDataset<u32>>(ctx, T, &q2, d, obs_resources);
	space_set::<IndexedBTreeDataset<u32>>(ctx, T, &q2, d, obs_resources);
	let d = ctx.pick(3, 4);
	space_set::<BTreeGraph<LocalTerm>>(ctx, T, &t3, 3, obs_resources);
	space_set::<BTreeDataset<LocalTerm>>(ctx, T, &q2, d, obs_resources);
	space_set::<IndexedBTreeGraph<LocalTerm>>(ctx, T, &t3, 3, obs_resources);
	space_set::<IndexedBTreeDataset<LocalTerm>>(ctx, T, &q2, d, obs_resources);
	for (k, d) in ctx.pick([(3, 6), (4, 5)], [(3, 9), (4, 7)]) {
		space_sub::<BTreeDataset<u32>>(ctx, T, &q2, k, d, obs_resources);
		space_sub::<IndexedBTreeDataset<u32>>(ctx, T, &q2, k, d, obs_resources);
	}
	let d = ctx.pick(4, 5);
	space_mixed::<BTreeGraph<u32>>(ctx, T, 6, d, obs_resources);
	space_mixed::<BTreeDataset<u32>>(ctx, T, 6, d, obs_resources);
	space_mixed::<IndexedBTreeGraph<u32>>(ctx, T, 6, d, obs_resources);
	space_mixed::<IndexedBTreeDataset<u32>>(ctx, T, 6, d, obs_resources);
	space_bulk::<BTreeGraph<u32>>(ctx, T, obs_resources);
	space_bulk::<BTreeDataset<u32>>(ctx, T, obs_resources);
	space_bulk::<IndexedBTreeGraph<u32>>(ctx, T, obs_resources);
	space_bulk::<IndexedBTreeDataset<u32>>(ctx, T, obs_resources);
	space_bulk::<IndexedBTreeDataset<String>>(ctx, T, obs_resources);
}

// ---------------------------------------------------------------- C03

pub fn m_role(m: &Model, r: Role) -> Vec<u16> {
	let s: std::collections::BTreeSet<u16> = m
		.iter()
		.filter_map(|e| match r {
			Role::Subject => Some(e.s),
			Role::Predicate => Some(e.p),
			Role::Object => Some(e.o),
			Role::Graph => e.g,
		})
		.collect();
	s.into_iter().collect()
}

pub const ROLES: [Role; 4] = [Role::Subject, Role::Predicate, Role::Object, Role::Graph];

pub fn obs_roles<S: Idx>(c: &S, m: &Model, _vals: &[u16], l: &mut Local) -> Result<(), String> {
	for r in ROLES {
		let exp = m_role(m, r);
		for (how, got) in c.role(r) {
			l.checks += 1;
			ensure_eq!(sorted(got), exp, "{how}");
		}
		for (how, n) in c.role_counts(r) {
			l.checks += 1;
			ensure_eq!(n, exp.len(), "{how}");
		}
	}
	Ok(())
}

fn c03(ctx: &mut Ctx) {
	let (t2, t3, q2) = (triples(2), triples(3), quads(2));
	const T: &str = "role listings";
	crate::huge::run(ctx, crate::huge::What::Roles);
	crate::iters::run(ctx, crate::iters::What::Roles);
	let d = ctx.pick(6, 7);
	space_set::<IndexedBTreeGraph<u32>>(ctx, T, &t2, d, obs_roles);
	let d = ctx.pick(3, 4);
	space_set::<IndexedBTreeGraph<u32>>(ctx, T, &t3, d, obs_roles);
	let d = ctx.pick(4, 5);
	space_set::<IndexedBTreeDataset<u32>>(ctx, T, &q2, d, obs_roles);
	let d = ctx.pick(3, 4);
	space_set::<IndexedBTreeGraph<LocalTerm>>(ctx, T, &t3, 3, obs_roles);
	space_set::<IndexedBTreeDataset<LocalTerm>>(ctx, T, &q2, d, obs_roles);
	for (k, d) in ctx.pick([(3, 6), (4, 5)], [(3, 9), (4, 7)]) {
		space_sub::<IndexedBTreeDataset<u32>>(ctx, T, &q2, k, d, obs_roles);
	}
	let d = ctx.pick(4, 5);
	space_mixed::<IndexedBTreeGraph<u32>>(ctx, T, 6, d, obs_roles);
	space_mixed::<IndexedBTreeDataset<u32>>(ctx, T, 6, d, obs_roles);
	space_bulk::<IndexedBTreeGraph<u32>>(ctx, T, obs_roles);
	space_bulk::<IndexedBTreeDataset<u32>>(ctx, T, obs_roles);
}

// ---------------------------------------------------------------- C04

pub fn m_match(m: &Model, pt: &Pat) -> Vec<Q> {
	m.iter().copied().filter(|&e| accepts(pt, e)).collect()
}

/// Patterns over the value set, cached per thread.
fn patterns_for<S: Idx>(vals: &[u16]) -> std::rc::Rc<Vec<Pat>> {
	use std::cell::RefCell;
	use std::collections::HashMap;
	use std::rc::Rc;
	thread_local! {
		static CACHE: RefCell<HashMap<(bool, Vec<u16>), Rc<Vec<Pat>>>> = RefCell::new(HashMap::new());
	}
	CACHE.with(|c| {
		let mut c = c.borrow_mut();
		if c.len() > 256 {
			c.clear();
		}
		c.entry((S::DATASET, vals.to_vec()))
			.or_insert_with(|| Rc::new(S::patterns(vals)))
			.clone()
	})
}

pub fn obs_patterns<S: Idx>(c: &S, m: &Model, vals: &[u16], l: &mut Local) -> Result<(), String> {
	for pt in patterns_for::<S>(vals).iter() {
		let exp = m_match(m, pt);
		l.checks += 2;
		ensure_eq!(sorted(c.matching(pt)), exp, "pattern_matching {pt:?}");
		ensure_eq!(sorted(c.matching_trait(pt)), exp, "pattern matching (generic interface) {pt:?}");
	}
	obs_derived(c, m, vals, l)
}

fn obs_derived<S: Idx>(c: &S, m: &Model, vals: &[u16], l: &mut Local) -> Result<(), String> {
	let mut graphs = vec![None];
	if S::DATASET {
		graphs.extend(vals.iter().map(|&v| Some(v)));
	}
	for &v in vals {
		for r in ROLES {
			l.checks += 1;
			ensure_eq!(
				c.contains_role(r, v),
				m_role(m, r).binary_search(&v).is_ok(),
				"contains {r:?} {v}"
			);
		}
		for &g in &graphs {
			let mut exp: Vec<(u16, Vec<u16>)> = Vec::new();
			for e in m.iter().filter(|e| e.s == v && e.g == g) {
				match exp.last_mut() {
					Some((p, os)) if *p == e.p => os.push(e.o),
					_ => exp.push((e.p, vec![e.o])),
				}
			}
			let got = c
				.predicates_objects_of(g, v)
				.into_iter()
				.map(|(p, os)| (p, sorted(os)))
				.collect();
			l.checks += 1;
			ensure_eq!(sorted(got), exp, "predicates and objects of subject {v} in graph {g:?}");
			for &p in vals {
				let exp: Vec<u16> = m
					.iter()
					.filter(|e| e.s == v && e.p == p && e.g == g)
					.map(|e| e.o)
					.collect();
				l.checks += 1;
				ensure_eq!(
					sorted(c.objects_of(g, v, p)),
					exp,
					"objects of ({v}, {p}) in graph {g:?}"
				);
				for &o in vals {
					l.checks += 1;
					let e = q(v, p, o, g);
					ensure_eq!(c.contains_trait(e), m.contains(&e), "contains {e:?} (generic interface)");
				}
			}
		}
	}
	Ok(())
}

fn c04(ctx: &mut Ctx) {
	let (t2, t3, q2) = (triples(2), triples(3), quads(2));
	const T: &str = "pattern matching";
	crate::huge::run(ctx, crate::huge::What::Patterns);
	crate::iters::run(ctx, crate::iters::What::Matches);
	let d = ctx.pick(5, 7);
	space_set::<IndexedBTreeGraph<u32>>(ctx, T, &t2, d, obs_patterns);
	let d = ctx.pick(3, 4);
	space_set::<IndexedBTreeGraph<u32>>(ctx, T, &t3, d, obs_patterns);
	let d = ctx.pick(3, 4);
	space_set::<IndexedBTreeDataset<u32>>(ctx, T, &q2, d, obs_patterns);
	space_set::<IndexedBTreeDataset<LocalTerm>>(ctx, T, &q2, d.min(3), obs_patterns);
	for (k, d) in ctx.pick(vec![(3, 5)], vec![(3, 7), (4, 5)]) {
		space_sub::<IndexedBTreeDataset<u32>>(ctx, T, &q2, k, d, obs_patterns);
	}
	space_mixed::<IndexedBTreeGraph<u32>>(ctx, T, 4, ctx.pick(4, 5), obs_patterns);
	space_mixed::<IndexedBTreeDataset<u32>>(ctx, T, 8, 3, obs_patterns);
	if !ctx.quick() {
		space_mixed::<IndexedBTreeDataset<u32>>(ctx, T, 4, 4, obs_patterns);
	}
	space_bulk::<IndexedBTreeGraph<u32>>(ctx, T, obs_patterns);
	space_bulk::<IndexedBTreeDataset<u32>>(ctx, T, obs_patterns);
}

// ---------------------------------------------------------------- C05

/// Choice of alternatives for a given component.
fn alt_lists(vals: &[u16], full: bool) -> Vec<Vec<u16>> {
	let (a, b, x) = (vals[0], vals[1], ABSENT);
	let mut v = vec![vec![], vec![a, b], vec![b, a, b]];
	if full {
		v.extend([vec![a], vec![b], vec![b, b], vec![x], vec![x, a], vec![b, x]]);
	}
	v
}

fn multi_accepts(pt: &Pat, alts: &[Vec<u16>], e: Q) -> bool {
	let ok = |c: C, v: Option<u16>| match c {
		C::Given(k) => v.map(|v| alts[k as usize].contains(&v)).unwrap_or(false),
		C::Any => true,
		C::SameS => v == Some(e.s),
		C::SameP => v == Some(e.p),
		C::SameO => v == Some(e.o),
		C::Default => v.is_none(),
	};
	ok(pt.s, Some(e.s)) && ok(pt.p, Some(e.p)) && ok(pt.o, Some(e.o)) && ok(pt.g, e.g)
}

fn obs_multi_with<R: Res>(
	c: &IndexedBTreeDataset<R>,
	m: &Model,
	pats: &[Pat],
	alts: &[Vec<u16>],
	l: &mut Local,
) -> Result<(), String> {
	let res: Vec<Vec<R>> = alts
		.iter()
		.map(|a| a.iter().map(|&x| R::mk(x)).collect())
		.collect();
	for (i, pt) in pats.iter().enumerate() {
		let exp: Vec<Q> = m
			.iter()
			.copied()
			.filter(|&e| multi_accepts(pt, alts, e))
			.collect();
		let real = build_quad(pt, |k| &res[k as usize]).unwrap();
		let got: Vec<Q> = c
			.multi_pattern_matching(real)
			.take(LIM)
			.map(of_quad)
			.collect();
		l.checks += 1;
		ensure_eq!(sorted(got), exp, "multi_pattern_matching {pt:?} with alternatives {alts:?}");
		if i % 3 == 0 {
			// The same through the generic interface, with iterators that are
			// not collections.
			let real = build_quad(pt, |k| res[k as usize].iter().rev()).unwrap();
			let got: Vec<Q> = MultiPatternMatchingDataset::quad_multi_pattern_matching(c, real)
				.take(LIM)
				.map(of_quad)
				.collect();
			l.checks += 1;
			ensure_eq!(sorted(got), exp, "quad_multi_pattern_matching {pt:?} with alternatives {alts:?}");
		}
	}
	Ok(())
}

/// Long lists of alternatives, in several orders, with repetitions and absent ones, at every given component.
fn long_lists(ctx: &mut Ctx) {
	let sizes: &[u16] = ctx.pick(&[40, 140], &[40, 140, 300]);
	let lens: &[usize] = ctx.pick(&[7, 9, 17, 33, 65, 257], &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600]);
	let mut cfgs = Vec::new();
	for &n in sizes {
		for f in 0..FAMILIES {
			for &len in lens {
				cfgs.push((n, f, len));
			}
		}
	}
	ctx.space(
		&format!("IndexedBTreeDataset<u32>: lists of {lens:?} alternatives over contents of {sizes:?} elements"),
		cfgs.len(),
		|j, l| {
			let (n, f, len) = cfgs[j];
			let fam = order(2, &family(f, n, true));
			let (mut c, mut m) = (IndexedBTreeDataset::<u32>::new(), Model::new());
			for &e in &fam {
				Sut::insert(&mut c, e);
				m.insert(e);
			}
			for &e in fam.iter().step_by(5) {
				Sut::remove(&mut c, e);
				m.remove(&e);
			}
			let used: Vec<u16> = m_resources(&m).into_iter().collect();
			let pick = |k: usize| used[k % used.len()];
			// Starting at both ends, striding, repeating and with absent ones.
			let lists: Vec<Vec<u16>> = vec![
				(0..len).map(pick).collect(),
				(0..len).map(|k| used[used.len() - 1 - k % used.len()]).collect(),
				(0..len).map(|k| pick(k * 37 + 5)).collect(),
				(0..len).map(|k| if k % 2 == 0 { pick(k / 2) } else { 20_000 + k as u16 }).collect(),
				(0..len).map(|k| if k + 1 == len { pick(used.len() - 1) } else { pick(0) }).collect(),
			];
			let what = format!("family {f} of {n} elements, every fifth removed; lists of {len}");
			l.case(|| what.clone());
			for list in &lists {
				let alts = vec![list.clone(), vec![pick(3)], lists[0].clone()];
				let pats: Vec<Pat> = quad_patterns(&[0, 1])
					.into_iter()
					.chain(quad_patterns(&[0, 2]))
					.filter(|p| [p.s, p.p, p.o, p.g].contains(&C::Given(0)))
					.collect();
				l.states += 1;
				guard_check(|| obs_multi_with(&c, &m, &pats, &alts, l)).map_err(|e| Fail::new(what.clone(), e))?;
			}
			l.traces += 1;
			l.sample(|| what.clone());
			Ok(())
		},
	);
}

fn c05(ctx: &mut Ctx) {
	long_lists(ctx);
	let q2 = quads(2);
	const T: &str = "multi-pattern matching";
	crate::iters::run(ctx, crate::iters::What::Alternatives);
	fn run<R: Res>(ctx: &mut Ctx, u: &[Q], depth: usize, full: bool) {
		let alts = alt_lists(&[0, 1], full);
		let ks: Vec<u16> = (0..alts.len() as u16).collect();
		let pats = quad_patterns(&ks);
		let tag = format!("{T} ({} patterns)", pats.len());
		histories::<IndexedBTreeDataset<R>>(
			ctx,
			&tag,
			u,
			depth,
			false,
			|c: &IndexedBTreeDataset<R>, m: &Model, l: &mut Local| obs_multi_with(c, m, &pats, &alts, l),
		);
	}
	let d = ctx.pick(3, 4);
	run::<u32>(ctx, &q2, 2, true);
	run::<u32>(ctx, &q2, d, false);
	run::<LocalTerm>(ctx, &q2, 2, false);
	// Deeper histories over few elements (holes in the storage).
	let alts = alt_lists(&[0, 1], false);
	let ks: Vec<u16> = (0..alts.len() as u16).collect();
	let pats = quad_patterns(&ks);
	let some: Vec<Pat> = pats.iter().copied().step_by(ctx.pick(2, 1)).collect();
	let d = ctx.pick(4, 6);
	subset_histories::<IndexedBTreeDataset<u32>>(
		ctx,
		T,
		&q2,
		3,
		d,
		false,
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| obs_multi_with(c, m, &some, &alts, l),
	);
	mixed::<IndexedBTreeDataset<u32>>(
		ctx,
		T,
		5,
		ctx.pick(3, 4),
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| obs_multi_with(c, m, &some, &alts, l),
	);
	let sizes: Vec<u16> = bulk_sizes(ctx).into_iter().filter(|&n| n <= 300).collect();
	bulk::<IndexedBTreeDataset<u32>>(
		ctx,
		T,
		&sizes,
		false,
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| {
			let v = probe_values(m);
			let hi = *v.iter().rev().nth(1).unwrap_or(&v[0]);
			let mut alts = alt_lists(&[v[0], hi], false);
			alts.push(m_resources(m).into_iter().step_by(3).collect());
			let ks: Vec<u16> = (0..alts.len() as u16).collect();
			let pats: Vec<Pat> = quad_patterns(&ks).into_iter().step_by(5).collect();
			obs_multi_with(c, m, &pats, &alts, l)
		},
	);
}

// ---------------------------------------------------------------- C06

/// Full consistency of a dataset that was modified by an extraction.
pub fn obs_all<S: Idx>(
	c: &S,
	m: &Model,
	vals: &[u16],
	pats: &[Pat],
	l: &mut Local,
) -> Result<(), String> {
	obs_set(c, m, &[], l)?;
	obs_resources(c, m, vals, l)?;
	obs_roles(c, m, vals, l)?;
	for pt in pats {
		l.checks += 1;
		ensure_eq!(sorted(c.matching(pt)), m_match(m, pt), "pattern_matching {pt:?}");
	}
	Ok(())
}

fn extract_checks<R: Res>(
	c: &IndexedBTreeDataset<R>,
	m: &Model,
	pats: &[Pat],
	vals: &[u16],
	after: &[Pat],
	deep: bool,
	l: &mut Local,
) -> Result<(), String> {
	for pt in pats {
		let exp = m_match(m, pt);
		let owned = QuadPat::<R>::new(pt);
		for k in 0..=exp.len() {
			l.case(|| format!("{m:?}: extract {k} of {pt:?}"));
			let full = k == exp.len();
			let mut d = c.clone();
			l.transitions += 1;
			let got: Vec<Q> = {
				let mut it = d.extract_pattern_matching(owned.get());
				let mut v: Vec<Q> = it
					.by_ref()
					.take(if full { LIM } else { k })
					.map(|x| of_quad(x.as_ref()))
					.collect();
				if full {
					// The iterator stays exhausted.
					v.extend(it.map(|x| of_quad(x.as_ref())));
				}
				v
			};
			let what = || format!("after extracting {k} of {} matches of {pt:?}", exp.len());
			l.states += 1;
			if full {
				ensure_eq!(sorted(got.clone()), exp, "extract_pattern_matching {pt:?}");
			} else {
				ensure_eq!(got.len(), k, "number of quads extracted for {pt:?}");
				let set: Model = got.iter().copied().collect();
				ensure_eq!(set.len(), k, "distinct quads extracted {got:?} for {pt:?}");
				ensure!(
					set.iter().all(|e| exp.contains(e)),
					"extracted {got:?} for {pt:?}, which matches only {exp:?}"
				);
			}
			let mut rest = m.clone();
			for e in &got {
				rest.remove(e);
			}
			obs_all(&d, &rest, vals, after, l).map_err(|e| format!("{}: {e}", what()))?;
			if deep {
				// The remainder keeps behaving under further operations.
				for &e in got.iter().take(1).chain(m.iter().next()) {
					let mut d2 = d.clone();
					let mut r2 = rest.clone();
					l.transitions += 1;
					let ret = if r2.remove(&e) {
						d2.remove(mk_quad::<R>(e).as_ref())
					} else {
						r2.insert(e);
						d2.insert(mk_quad::<R>(e))
					};
					ensure!(ret, "{}, operation on {e:?} returned false", what());
					obs_all(&d2, &r2, vals, after, l)
						.map_err(|x| format!("{}, then an operation on {e:?}: {x}", what()))?;
				}
			}
		}
	}
	let mut graphs = vec![None];
	graphs.extend(vals.iter().map(|&v| Some(v)));
	for g in graphs {
		l.case(|| format!("{m:?}: remove_graph({g:?})"));
		let exp: Vec<Q> = m
			.iter()
			.filter(|e| e.g == g)
			.map(|e| q(e.s, e.p, e.o, None))
			.collect();
		let mut d = c.clone();
		l.transitions += 1;
		l.states += 1;
		let r = g.map(R::mk);
		let got = d.remove_graph(r.as_ref());
		let rest: Model = m.iter().copied().filter(|e| e.g != g).collect();
		match got {
			Some(graph) => {
				ensure!(
					g.is_none() || !exp.is_empty(),
					"remove_graph({g:?}) returned a graph although it has no quads"
				);
				let gm: Model = exp.iter().copied().collect();
				obs_set(&graph, &gm, &[], l).map_err(|e| format!("graph returned by remove_graph({g:?}): {e}"))?;
				obs_resources(&graph, &gm, vals, l)
					.map_err(|e| format!("graph returned by remove_graph({g:?}): {e}"))?;
			}
			// An empty default graph may be reported either way.
			None => ensure!(
				exp.is_empty(),
				"remove_graph({g:?}) returned nothing, expected {exp:?}"
			),
		}
		obs_all(&d, &rest, vals, after, l).map_err(|e| format!("after remove_graph({g:?}): {e}"))?;
	}
	Ok(())
}

fn c06(ctx: &mut Ctx) {
	let q2 = quads(2);
	const T: &str = "extraction";
	crate::huge::run(ctx, crate::huge::What::Extract);
	crate::iters::run(ctx, crate::iters::What::Extraction);
	let vals = [0, 1, ABSENT];
	let pats = quad_patterns(&[0, 1]);
	let mut absent: Vec<Pat> = quad_patterns(&[ABSENT]);
	absent.retain(|p| [p.s, p.p, p.o, p.g].contains(&C::Given(ABSENT)));
	let mut all = pats.clone();
	all.extend(absent);
	// Patterns evaluated on remainders: everything, and each single constraint.
	let after: Vec<Pat> = all
		.iter()
		.copied()
		.filter(|p| [p.s, p.p, p.o, p.g].iter().filter(|&&c| c != C::Any).count() <= 1)
		.collect();
	let d = ctx.pick(2, 3);
	histories::<IndexedBTreeDataset<u32>>(
		ctx,
		&format!("{T} ({} patterns, every stopping point)", all.len()),
		&q2,
		d,
		false,
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| {
			extract_checks(c, m, &all, &vals, &after, true, l)
		},
	);
	let few: Vec<Pat> = after.clone();
	let d = ctx.pick(3, 4);
	histories::<IndexedBTreeDataset<u32>>(
		ctx,
		&format!("{T} ({} patterns, every stopping point)", few.len()),
		&q2,
		d,
		false,
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| {
			extract_checks(c, m, &few, &vals, &after, false, l)
		},
	);
	histories::<IndexedBTreeDataset<LocalTerm>>(
		ctx,
		&format!("{T} ({} patterns)", few.len()),
		&q2,
		2,
		false,
		|c: &IndexedBTreeDataset<LocalTerm>, m: &Model, l: &mut Local| {
			extract_checks(c, m, &few, &vals, &after, false, l)
		},
	);
	let d = ctx.pick(5, 7);
	let step: Vec<Pat> = all.iter().copied().step_by(ctx.pick(29, 7)).collect();
	subset_histories::<IndexedBTreeDataset<u32>>(
		ctx,
		T,
		&q2,
		3,
		d,
		false,
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| {
			if m.len() < 2 {
				return Ok(());
			}
			extract_checks(c, m, &step, &vals, &after[..4], false, l)
		},
	);
	// Extractions and graph removals following one another.
	mixed::<IndexedBTreeDataset<u32>>(
		ctx,
		T,
		ctx.pick(4, 6),
		4,
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| obs_all(c, m, &vals, &after, l),
	);
	mixed::<IndexedBTreeDataset<u32>>(
		ctx,
		T,
		8,
		ctx.pick(2, 3),
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| {
			extract_checks(c, m, &few, &vals, &after, false, l)
		},
	);
	let sizes: Vec<u16> = bulk_sizes(ctx).into_iter().filter(|&n| n <= ctx.pick(40, 130)).collect();
	bulk::<IndexedBTreeDataset<u32>>(
		ctx,
		T,
		&sizes,
		false,
		|c: &IndexedBTreeDataset<u32>, m: &Model, l: &mut Local| {
			let v = probe_values(m);
			let pats: Vec<Pat> = quad_patterns(&v[..1])
				.into_iter()
				.filter(|p| [p.s, p.p, p.o, p.g].iter().filter(|&&c| c != C::Any).count() <= 1)
				.collect();
			extract_checks(c, m, &pats, &v, &pats[..2], false, l)
		},
	);
}
