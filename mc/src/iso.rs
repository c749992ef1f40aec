//! C09/C10: dataset isomorphism, against brute-force canonical forms.
use crate::engine::*;
use crate::explore::subsets;
use crate::model::*;
use crate::{ensure, ensure_eq, PropSpec};
use rdf_types::dataset::isomorphism::*;
use rdf_types::dataset::*;
use rdf_types::interpretation::{Interpretation, ReverseInterpretation};
use rdf_types::{
	BlankIdBuf, CowLiteral, Iri, IriBuf, Literal, LiteralRef, LiteralType, LocalTerm, Quad, Term, Triple,
};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const ASSUME: &[&str] = &[
	"all pairs of datasets within the stated universes (numbers of blank nodes, ground terms and quads); oracle: minimum over all permutations of the blank nodes",
	"interpretations in which distinct resources denote distinct terms",
];

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec { id: "C09", run: |c| run(c, true), assumptions: ASSUME });
	v.push(PropSpec { id: "C10", run: |c| run(c, false), assumptions: ASSUME });
}

fn permutations(k: usize) -> Vec<Vec<u16>> {
	fn go(k: usize, cur: &mut Vec<u16>, out: &mut Vec<Vec<u16>>) {
		if cur.len() == k {
			out.push(cur.clone());
			return;
		}
		for i in 0..k as u16 {
			if !cur.contains(&i) {
				cur.push(i);
				go(k, cur, out);
				cur.pop();
			}
		}
	}
	let mut out = Vec::new();
	go(k, &mut Vec::new(), &mut out);
	out
}

/// A universe: terms `0..k` are blank nodes, the others ground.
struct Uni {
	name: String,
	k: usize,
	ground: Vec<Term>,
	sets: Vec<Vec<Q>>,
	/// Isomorphism class of each set, by brute force.
	class: Vec<usize>,
	classes: usize,
}

fn canon(set: &[Q], k: usize, perms: &[Vec<u16>]) -> Vec<Q> {
	let mut best: Option<Vec<Q>> = None;
	let mut cur = Vec::with_capacity(set.len());
	for p in perms {
		let f = |x: u16| if (x as usize) < k { p[x as usize] } else { x };
		cur.clear();
		cur.extend(set.iter().map(|e| q(f(e.s), f(e.p), f(e.o), e.g.map(f))));
		cur.sort_unstable();
		if best.as_ref().map(|b| cur < *b).unwrap_or(true) {
			best = Some(cur.clone());
		}
	}
	best.unwrap_or_default()
}

impl Uni {
	fn new(name: &str, k: usize, ground: Vec<Term>, universe: &[Q], max: usize) -> Self {
		let mut sets = Vec::new();
		for n in 0..=max {
			sets.extend(subsets(universe, n));
		}
		Self::of_sets(name, k, ground, sets)
	}

	fn of_sets(name: &str, k: usize, ground: Vec<Term>, mut sets: Vec<Vec<Q>>) -> Self {
		for s in &mut sets {
			s.sort();
		}
		let perms = permutations(k);
		// Canonical forms in parallel, class numbers in order.
		let n = sets.len();
		let chunk = n.div_ceil(8).max(1);
		let canons: Vec<Vec<Q>> = std::thread::scope(|sc| {
			let hs: Vec<_> = sets
				.chunks(chunk)
				.map(|c| {
					let perms = &perms;
					sc.spawn(move || c.iter().map(|s| canon(s, k, perms)).collect::<Vec<_>>())
				})
				.collect();
			hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
		});
		let mut ids: HashMap<Vec<Q>, usize> = HashMap::new();
		let mut class = Vec::with_capacity(n);
		for c in canons {
			let next = ids.len();
			class.push(*ids.entry(c).or_insert(next));
		}
		let classes = ids.len();
		Self {
			name: format!("{name} ({n} datasets, {classes} isomorphism classes)"),
			k,
			ground,
			sets,
			class,
			classes,
		}
	}

	fn label(&self, x: u16, side: usize) -> LocalTerm {
		let x = x as usize;
		if x >= self.k {
			return LocalTerm::Named(self.ground[x - self.k].clone());
		}
		let s = match side {
			0 => format!("_:b{x}"),
			// Disjoint labels, in the opposite order.
			1 => format!("_:s{}", self.k - x),
			// Overlapping labels, shifted.
			_ => format!("_:b{}", (x + 1) % self.k.max(1)),
		};
		LocalTerm::Anonymous(BlankIdBuf::new(s).unwrap())
	}

	fn labels(&self, side: usize) -> Vec<LocalTerm> {
		(0..(self.k + self.ground.len()) as u16).map(|x| self.label(x, side)).collect()
	}

	/// Resource numbers for the integer interpretation.
	fn number(&self, x: u16, side: usize) -> u32 {
		let k = self.k as u32;
		let x = x as u32;
		if x >= k {
			return 1000 + x - k;
		}
		match side {
			0 => x,
			1 => 100 + k - x,
			_ => (x + 1) % k,
		}
	}
}

fn quad_of<R: Clone>(e: &Q, t: &[R]) -> Quad<R> {
	let f = |x: u16| t[x as usize].clone();
	Quad(f(e.s), f(e.p), f(e.o), e.g.map(f))
}

fn dataset_of<R: Clone + Ord>(set: &[Q], t: &[R]) -> BTreeDataset<R> {
	let mut d = BTreeDataset::new();
	for e in set {
		d.insert(quad_of(e, t));
	}
	d
}

/// A dataset implementation of our own, iterating in insertion order.
struct Listed<R>(Vec<Quad<R>>);

impl<R> Dataset for Listed<R> {
	type Resource = R;
}

impl<R> TraversableDataset for Listed<R> {
	type Quads<'a>
		= std::iter::Map<std::slice::Iter<'a, Quad<R>>, fn(&'a Quad<R>) -> Quad<&'a R>>
	where
		R: 'a;
	fn quads(&self) -> Self::Quads<'_> {
		fn r<R>(q: &Quad<R>) -> Quad<&R> {
			Quad(&q.0, &q.1, &q.2, q.3.as_ref())
		}
		self.0.iter().map(r)
	}
}

/// Numbers below 1000 are anonymous, the others denote the listed terms.
struct Numbers(Vec<Vec<Term>>);

impl Interpretation for Numbers {
	type Resource = u32;
	fn iri(&self, iri: &Iri) -> Option<u32> {
		self.0
			.iter()
			.position(|ts| ts.iter().any(|t| matches!(t, Term::Iri(i) if i.as_iri() == iri)))
			.map(|i| i as u32 + 1000)
	}
	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<u32> {
		let l = literal.into().to_owned();
		self.0
			.iter()
			.position(|ts| ts.iter().any(|t| matches!(t, Term::Literal(x) if *x == l)))
			.map(|i| i as u32 + 1000)
	}
}

impl ReverseInterpretation for Numbers {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		let ts: &[Term] = if *r < 1000 { &[] } else { &self.0[*r as usize - 1000] };
		ts.iter()
			.filter_map(|t| match t {
				Term::Iri(i) => Some(Cow::Borrowed(i.as_iri())),
				_ => None,
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a u32) -> Self::Literals<'a> {
		let ts: &[Term] = if *r < 1000 { &[] } else { &self.0[*r as usize - 1000] };
		ts.iter()
			.filter_map(|t| match t {
				Term::Literal(l) => Some(CowLiteral {
					value: Cow::Borrowed(l.value.as_str()),
					type_: match &l.type_ {
						LiteralType::Any(i) => rdf_types::CowLiteralType::Any(Cow::Borrowed(i.as_iri())),
						LiteralType::LangString(t) => {
							rdf_types::CowLiteralType::LangString(Cow::Owned(t.clone()))
						}
					},
				}),
				_ => None,
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
}

/// Checks a reported bijection against the definition.
fn valid<R: Ord + std::fmt::Debug>(
	b: &BTreeBijection<'_, '_, R>,
	sa: &[Q],
	sb: &[Q],
	ta: &[R],
	tb: &[R],
	k: usize,
) -> Result<(), String> {
	let blanks = |s: &[Q]| -> BTreeSet<u16> {
		s.iter()
			.flat_map(|e| [Some(e.s), Some(e.p), Some(e.o), e.g])
			.flatten()
			.filter(|&x| (x as usize) < k)
			.collect()
	};
	let find = |t: &[R], r: &R| t[..k].iter().position(|x| x == r).map(|i| i as u16);
	let mut map: BTreeMap<u16, u16> = BTreeMap::new();
	for (x, y) in &b.forward {
		let (Some(i), Some(j)) = (find(ta, x), find(tb, y)) else {
			return Err(format!("bijection relates {x:?} to {y:?}, which are not blank nodes of the two datasets"));
		};
		map.insert(i, j);
	}
	ensure_eq!(map.keys().copied().collect::<BTreeSet<_>>(), blanks(sa), "blank nodes mapped by the bijection");
	let image: BTreeSet<u16> = map.values().copied().collect();
	ensure_eq!(image.len(), map.len(), "distinct images of the bijection {map:?}");
	ensure_eq!(image, blanks(sb), "blank nodes reached by the bijection");
	ensure_eq!(b.backward.len(), b.forward.len(), "size of the backward map");
	for (x, y) in &b.forward {
		ensure!(b.backward.get(*y).map(|z| *z == *x).unwrap_or(false), "the backward map does not invert {x:?} -> {y:?}");
	}
	let f = |x: u16| if (x as usize) < k { map[&x] } else { x };
	let renamed: BTreeSet<Q> = sa.iter().map(|e| q(f(e.s), f(e.p), f(e.o), e.g.map(f))).collect();
	let target: BTreeSet<Q> = sb.iter().copied().collect();
	ensure_eq!(renamed, target, "first dataset renamed by the bijection {map:?}");
	Ok(())
}

struct Side<R> {
	terms: Vec<R>,
	ds: Vec<BTreeDataset<R>>,
}

fn side<R: Clone + Ord>(u: &Uni, terms: Vec<R>) -> Side<R> {
	Side {
		ds: u.sets.iter().map(|s| dataset_of(s, &terms)).collect(),
		terms,
	}
}

fn case_of(u: &Uni, i: usize, j: usize, side: usize) -> String {
	format!(
		"{}: {:?} against {:?} (blank nodes: 0..{}, labelling {side})",
		u.name, u.sets[i], u.sets[j], u.k
	)
}

/// One ordered pair, lexical terms.
fn pair<A, B>(
	u: &Uni,
	a: &A,
	b: &B,
	(i, j): (usize, usize),
	(ta, tb): (&[LocalTerm], &[LocalTerm]),
	sound: bool,
	l: &mut Local,
) -> Result<(), String>
where
	A: TraversableDataset<Resource = LocalTerm>,
	B: TraversableDataset<Resource = LocalTerm>,
{
	l.transitions += 1;
	let exp = u.class[i] == u.class[j];
	if sound {
		l.checks += 1;
		if let Some(x) = find_bijection(a, b) {
			valid(&x, &u.sets[i], &u.sets[j], ta, tb, u.k)?;
		}
	} else {
		l.checks += 1;
		ensure_eq!(are_isomorphic(a, b), exp, "are_isomorphic");
		if !exp && (i + j) % 8 != 0 {
			return Ok(());
		}
		l.checks += 3;
		ensure_eq!(find_bijection(a, b).is_some(), exp, "find_bijection finds one");
		ensure_eq!(are_isomorphic_with(&(), a, b), exp, "are_isomorphic_with");
		ensure_eq!(find_bijection_with(&(), a, b).is_some(), exp, "find_bijection_with finds one");
	}
	Ok(())
}

/// All ordered pairs of datasets of a universe.
fn all_pairs(ctx: &mut Ctx, u: &Uni, sides: &[usize], sound: bool) {
	let a = side(u, u.labels(0));
	for &sd in sides {
		let b = side(u, u.labels(sd));
		ctx.space(&format!("all pairs, labelling {sd}: {}", u.name), u.sets.len(), |i, l| {
			for j in 0..u.sets.len() {
				l.case(|| case_of(u, i, j, sd));
				guard_check(|| pair(u, &a.ds[i], &b.ds[j], (i, j), (&a.terms, &b.terms), sound, l))
					.map_err(|m| Fail::new(case_of(u, i, j, sd), m))?;
			}
			l.states += 1;
			l.traces += 1;
			l.outcome(u.class[i] as u64);
			l.sample(|| format!("{:?} against every dataset of {}", u.sets[i], u.name));
			Ok(())
		});
	}
}

/// Every dataset against the representative of its class (must be
/// isomorphic), and representatives against each other (must not).
fn by_class(ctx: &mut Ctx, u: &Uni, sound: bool) {
	let mut rep = vec![usize::MAX; u.classes];
	for (i, &c) in u.class.iter().enumerate().rev() {
		rep[c] = i;
	}
	let (ta, tb) = (u.labels(0), u.labels(1));
	ctx.space(&format!("each dataset against its class representative: {}", u.name), u.sets.len(), |i, l| {
		let r = rep[u.class[i]];
		l.case(|| case_of(u, i, r, 1));
		let a = dataset_of(&u.sets[i], &ta);
		let b = dataset_of(&u.sets[r], &tb);
		l.states += 1;
		l.traces += 1;
		l.outcome(u.class[i] as u64);
		guard_check(|| {
			pair(u, &a, &b, (i, r), (&ta, &tb), sound, l)?;
			let b2 = dataset_of(&u.sets[r], &ta);
			pair(u, &b2, &a, (r, i), (&ta, &ta), sound, l)
		})
		.map_err(|m| Fail::new(case_of(u, i, r, 1), m))
	});
	let a: Vec<_> = rep.iter().map(|&r| dataset_of(&u.sets[r], &ta)).collect();
	let b: Vec<_> = rep.iter().map(|&r| dataset_of(&u.sets[r], &tb)).collect();
	ctx.space(&format!("class representatives against each other: {}", u.name), u.classes, |x, l| {
		for y in 0..u.classes {
			// Different sizes are rejected by counting; one such pair per job.
			if u.sets[rep[x]].len() != u.sets[rep[y]].len() && y != (x * 7 + 1) % u.classes {
				continue;
			}
			let (i, j) = (rep[x], rep[y]);
			l.case(|| case_of(u, i, j, 1));
			guard_check(|| pair(u, &a[x], &b[y], (i, j), (&ta, &tb), sound, l))
				.map_err(|m| Fail::new(case_of(u, i, j, 1), m))?;
		}
		l.states += 1;
		l.traces += 1;
		Ok(())
	});
}

/// Other containers, other interpretations.
fn other_forms(ctx: &mut Ctx, u: &Uni, sound: bool) {
	let n = u.sets.len();
	let (ta, tb) = (u.labels(0), u.labels(1));
	let graphs = u.sets.iter().all(|s| s.iter().all(|e| e.g.is_none()));
	let listed = |s: &[Q], t: &[LocalTerm]| Listed(s.iter().rev().map(|e| quad_of(e, t)).collect());
	let a: Vec<_> = u.sets.iter().map(|s| dataset_of(s, &ta)).collect();
	let bi: Vec<_> = u.sets.iter().map(|s| dataset_of(s, &tb).into_indexed()).collect();
	let bl: Vec<_> = u.sets.iter().map(|s| listed(s, &tb)).collect();
	ctx.space(&format!("indexed and listed containers: {}", u.name), n, |i, l| {
		for j in 0..n {
			l.case(|| case_of(u, i, j, 1));
			guard_check(|| {
				pair(u, &a[i], &bi[j], (i, j), (&ta, &tb), sound, l)?;
				pair(u, &a[i], &bl[j], (i, j), (&ta, &tb), sound, l)?;
				pair(u, &bl[j], &a[i], (j, i), (&tb, &ta), sound, l)?;
				pair(u, &bi[j], &bl[i], (j, i), (&tb, &tb), sound, l)
			})
			.map_err(|m| Fail::new(case_of(u, i, j, 1), m))?;
		}
		l.states += 1;
		l.traces += 1;
		Ok(())
	});
	if graphs {
		let ga: Vec<BTreeGraph<LocalTerm>> = u
			.sets
			.iter()
			.map(|s| {
				s.iter()
					.map(|e| {
						let Quad(s, p, o, _) = quad_of(e, &ta);
						Triple(s, p, o)
					})
					.collect()
			})
			.collect();
		let gi: Vec<IndexedBTreeGraph<LocalTerm>> = ga.iter().map(|g| g.clone().into_indexed()).collect();
		ctx.space(&format!("graphs: {}", u.name), n, |i, l| {
			for j in 0..n {
				l.case(|| case_of(u, i, j, 1));
				guard_check(|| {
					pair(u, &ga[i], &bi[j], (i, j), (&ta, &tb), sound, l)?;
					pair(u, &gi[i], &ga[j], (i, j), (&ta, &ta), sound, l)?;
					pair(u, &a[i], &gi[j], (i, j), (&ta, &ta), sound, l)
				})
				.map_err(|m| Fail::new(case_of(u, i, j, 1), m))?;
			}
			l.states += 1;
			l.traces += 1;
			Ok(())
		});
	}
	// Numbers as resources; ground ones may denote several terms each.
	for multi in [false, true] {
		let terms: Vec<Vec<Term>> = u
			.ground
			.iter()
			.enumerate()
			.map(|(i, t)| {
				let mut v = vec![t.clone()];
				if multi {
					v.push(Term::Iri(iri(&format!("http://other/{i}"))));
					v.insert(0, lit(&format!("other{i}"), "http://t/t"));
				}
				v
			})
			.collect();
		let int = Numbers(terms);
		let m = (u.k + u.ground.len()) as u16;
		let na: Vec<u32> = (0..m).map(|x| u.number(x, 0)).collect();
		for sd in [1, 2] {
			let nb: Vec<u32> = (0..m).map(|x| u.number(x, sd)).collect();
			let a: Vec<_> = u.sets.iter().map(|s| dataset_of(s, &na)).collect();
			let b: Vec<_> = u.sets.iter().map(|s| dataset_of(s, &nb)).collect();
			ctx.space(
				&format!("explicit interpretation (several terms per resource: {multi}), numbering {sd}: {}", u.name),
				n,
				|i, l| {
					for j in 0..n {
						l.case(|| case_of(u, i, j, sd));
						l.transitions += 1;
						l.checks += 2;
						guard_check(|| {
							let exp = u.class[i] == u.class[j];
							let r = find_bijection_with(&int, &a[i], &b[j]);
							if sound {
								if let Some(x) = r {
									valid(&x, &u.sets[i], &u.sets[j], &na, &nb, u.k)?;
								}
							} else {
								ensure_eq!(r.is_some(), exp, "find_bijection_with finds one");
								ensure_eq!(are_isomorphic_with(&int, &a[i], &b[j]), exp, "are_isomorphic_with");
							}
							Ok(())
						})
						.map_err(|m| Fail::new(case_of(u, i, j, sd), m))?;
					}
					l.states += 1;
					l.traces += 1;
					Ok(())
				},
			);
		}
	}
}

fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_string()).unwrap()
}

fn lit(v: &str, ty: &str) -> Term {
	Term::Literal(Literal::new(v.to_string(), LiteralType::Any(iri(ty))))
}

fn lang(v: &str, tag: &str) -> Term {
	Term::Literal(Literal::new(
		v.to_string(),
		LiteralType::LangString(langtag::LangTagBuf::new(tag.to_string()).unwrap()),
	))
}

fn product(s: &[u16], p: &[u16], o: &[u16], g: &[Option<u16>]) -> Vec<Q> {
	let mut v = Vec::new();
	for &s in s {
		for &p in p {
			for &o in o {
				for &g in g {
					v.push(q(s, p, o, g));
				}
			}
		}
	}
	v
}

/// All digraphs on `k` blank nodes given by a bit mask over `edges`.
fn masks(edges: &[Vec<Q>], min: u32, max: u32) -> Vec<Vec<Q>> {
	(0u32..1 << edges.len())
		.filter(|m| (min..=max).contains(&m.count_ones()))
		.map(|m| {
			edges
				.iter()
				.enumerate()
				.filter(|(i, _)| m >> i & 1 == 1)
				.flat_map(|(_, e)| e.iter().copied())
				.collect()
		})
		.collect()
}

fn digraph_edges(k: u16, p: u16, loops: bool) -> Vec<Vec<Q>> {
	let mut v = Vec::new();
	for x in 0..k {
		for y in 0..k {
			if x != y || loops {
				v.push(vec![q(x, p, y, None)]);
			}
		}
	}
	v
}

fn graph_edges(k: u16, p: u16) -> Vec<Vec<Q>> {
	let mut v = Vec::new();
	for x in 0..k {
		for y in 0..x {
			v.push(vec![q(x, p, y, None), q(y, p, x, None)]);
		}
	}
	v
}

// ------------------------------------------------------ structured datasets

/// Whether a renaming of the blank nodes `0..k` turns `a` into `b`: assigns
/// the blank nodes of `a` one by one, following its quads, and undoes the
/// last choice as soon as a quad without image is complete.
fn renames(a: &[Q], b: &[Q], k: usize) -> bool {
	fn comps(e: &Q) -> [Option<u16>; 4] {
		[Some(e.s), Some(e.p), Some(e.o), e.g]
	}
	fn blanks(e: &Q, k: usize) -> impl Iterator<Item = u16> {
		comps(e).into_iter().flatten().filter(move |&x| (x as usize) < k)
	}
	if a.len() != b.len() {
		return false;
	}
	// Order in which the quads of `a` are placed: neighbours first.
	let mut left: Vec<Q> = a.to_vec();
	let mut seen = BTreeSet::new();
	let mut order = Vec::new();
	while !left.is_empty() {
		let i = (0..left.len())
			.min_by_key(|&i| (blanks(&left[i], k).filter(|x| !seen.contains(x)).collect::<BTreeSet<_>>().len(), i))
			.unwrap();
		// Prefer quads that touch what is placed, over unrelated ones.
		let i = (0..left.len())
			.find(|&i| {
				let n: BTreeSet<u16> = blanks(&left[i], k).collect();
				n.iter().all(|x| seen.contains(x)) || n.iter().any(|x| seen.contains(x)) && n.iter().filter(|x| !seen.contains(*x)).count() <= 1
			})
			.unwrap_or(i);
		let e = left.remove(i);
		seen.extend(blanks(&e, k));
		order.push(e);
	}
	// A blank node can only be renamed to one that is in as many quads.
	let degrees = |set: &[Q]| -> Vec<usize> {
		let mut d = vec![0; k];
		for e in set {
			for x in blanks(e, k) {
				d[x as usize] += 1;
			}
		}
		d
	};
	let (da, db) = (degrees(a), degrees(b));
	#[allow(clippy::too_many_arguments)]
	fn place(order: &[Q], b: &[Q], deg: (&[usize], &[usize]), used: &mut Vec<bool>, map: &mut Vec<Option<u16>>, inv: &mut Vec<Option<u16>>, k: usize) -> bool {
		let Some((e, rest)) = order.split_first() else { return true };
		for j in 0..b.len() {
			if used[j] {
				continue;
			}
			let mut set = Vec::new();
			let mut ok = e.g.is_some() == b[j].g.is_some();
			for (x, y) in comps(e).into_iter().zip(comps(&b[j])) {
				let (Some(x), Some(y)) = (x, y) else { continue };
				if !ok {
					break;
				}
				if x as usize >= k || y as usize >= k {
					ok = x == y;
				} else {
					match (map[x as usize], inv[y as usize]) {
						(Some(z), _) => ok = z == y,
						(None, Some(_)) => ok = false,
						(None, None) if deg.0[x as usize] != deg.1[y as usize] => ok = false,
						(None, None) => {
							map[x as usize] = Some(y);
							inv[y as usize] = Some(x);
							set.push((x, y));
						}
					}
				}
			}
			if ok {
				used[j] = true;
				if place(rest, b, deg, used, map, inv, k) {
					return true;
				}
				used[j] = false;
			}
			for (x, y) in set {
				map[x as usize] = None;
				inv[y as usize] = None;
			}
		}
		false
	}
	place(&order, b, (&da, &db), &mut vec![false; b.len()], &mut vec![None; k], &mut vec![None; k], k)
}

/// A dataset and everything one small change away from it (`few`: only
/// changes of its first, middle and last quads).
fn changes(base: &[Q], k: usize, fresh: u16, few: bool) -> Vec<Vec<Q>> {
	let mut out: BTreeSet<Vec<Q>> = BTreeSet::new();
	let set = |v: Vec<Q>| -> Vec<Q> { v.into_iter().collect::<BTreeSet<_>>().into_iter().collect() };
	let base = set(base.to_vec());
	let mut put = |v: Vec<Q>| {
		let v = set(v);
		if v.len() == base.len() {
			out.insert(v);
		}
	};
	let next = |x: u16| (x + 1) % k as u16;
	let n = base.len();
	for i in (0..n).filter(|&i| !few || [0, n / 2, n.saturating_sub(2), n - 1].contains(&i)) {
		let e = base[i];
		let with = |f: &dyn Fn(&mut Q)| {
			let mut v = base.clone();
			f(&mut v[i]);
			v
		};
		put(with(&|e| e.s = fresh));
		put(with(&|e| e.p = fresh));
		put(with(&|e| e.o = fresh));
		put(with(&|e| e.g = if e.g.is_some() { None } else { Some(fresh) }));
		put(with(&|e| e.g = e.g.map(|_| fresh)));
		put(with(&|e| std::mem::swap(&mut e.s, &mut e.o)));
		for c in 0..4 {
			put(with(&|e| {
				let x = match c {
					0 => &mut e.s,
					1 => &mut e.p,
					2 => &mut e.o,
					_ => match &mut e.g {
						Some(g) => g,
						None => return,
					},
				};
				if (*x as usize) < k {
					*x = next(*x);
				}
			}));
		}
		// Exchange one component with the next quad.
		if i + 1 < base.len() {
			for c in 0..4 {
				let mut v = base.clone();
				let f = v[i + 1];
				match c {
					0 => (v[i].s, v[i + 1].s) = (f.s, e.s),
					1 => (v[i].p, v[i + 1].p) = (f.p, e.p),
					2 => (v[i].o, v[i + 1].o) = (f.o, e.o),
					_ => (v[i].g, v[i + 1].g) = (f.g, e.g),
				}
				put(v);
			}
		}
	}
	out.remove(&base);
	std::iter::once(base).chain(out).collect()
}

/// (name, blank nodes, ground terms needed, quads). Ground terms are
/// numbered from `k`; the first one is a predicate.
fn structures(quick: bool) -> Vec<(String, u16, u16, Vec<Q>)> {
	let mut v: Vec<(String, u16, u16, Vec<Q>)> = Vec::new();
	let sizes = |q: &[u16], t: &[u16]| -> Vec<u16> { if quick { q.to_vec() } else { t.to_vec() } };
	for n in sizes(&[1, 2, 5, 9, 17, 33, 66], &[1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 66, 130, 258]) {
		v.push((format!("one blank node in {n} quads"), 1, n + 1, (0..n).map(|j| q(0, 1, 2 + j, None)).collect()));
		v.push((
			format!("one blank node graph of {n} quads"),
			1,
			n + 1,
			(0..n).map(|j| q(1, 1, 2 + j, Some(0))).collect(),
		));
	}
	for n in sizes(&[2, 3, 9, 17, 34], &[2, 3, 4, 5, 8, 9, 16, 17, 34, 66, 100]) {
		let k = n;
		v.push((
			format!("{n} blank nodes told apart by two literals each"),
			k,
			1 + 2 * n,
			(0..n).flat_map(|i| [q(i, k, k + 1 + 2 * i, None), q(i, k, k + 2 + 2 * i, None)]).collect(),
		));
		v.push((
			format!("{n} blank node graphs told apart by two quads each"),
			k,
			1 + 2 * n,
			(0..n).flat_map(|i| [q(k, k, k + 1 + 2 * i, Some(i)), q(k + 1 + 2 * i, k, k + 2 + 2 * i, Some(i))]).collect(),
		));
		v.push((
			format!("{n} blank node predicates told apart by their subjects"),
			k,
			1 + n,
			(0..n).flat_map(|i| [q(k + 1 + i, i, k, None), q(k, i, k + 1 + i, None)]).collect(),
		));
		v.push((format!("path of {n} blank nodes"), k, 1, (1..n).map(|i| q(i - 1, k, i, None)).collect()));
		v.push((
			format!("path of {n} blank nodes through blank graphs"),
			k,
			1,
			(2..n).map(|i| q(i - 2, k, i, Some(i - 1))).collect(),
		));
		v.push((
			format!("{n} blank nodes around another, told apart by a literal"),
			k + 1,
			1 + n,
			(0..n).flat_map(|i| [q(n, k + 1, i, None), q(i, k + 1, k + 2 + i, None)]).collect(),
		));
	}
	// Two kinds of blank nodes, each told apart on its own, related in pairs.
	for n in sizes(&[2, 3, 9], &[2, 3, 4, 9, 17]) {
		for a in 0..4usize {
			for b in 0..4usize {
				if a == b {
					continue;
				}
				let k = 2 * n;
				let mut e = Vec::new();
				for i in 0..n {
					let mut c = [k + 1 + n, k, k + 1 + n, k + 1 + n];
					c[a] = i;
					c[b] = n + i;
					let g = if a == 3 || b == 3 { Some(c[3]) } else { None };
					e.push(q(c[0], c[1], c[2], g));
				}
				for i in 0..k {
					e.push(q(i, k, k + 1 + i % n, Some(k)));
				}
				v.push((format!("{n} pairs of blank nodes at positions {a} and {b}"), k, 2 + n, e));
			}
		}
		// Three kinds, related in threes, in all positions but one.
		for free in 0..4usize {
			let k = 3 * n;
			let mut e = Vec::new();
			for i in 0..n {
				let mut c = [k; 4];
				let mut x = 0;
				for (j, c) in c.iter_mut().enumerate() {
					if j != free {
						*c = x * n + i;
						x += 1;
					}
				}
				e.push(q(c[0], c[1], c[2], if free == 3 { None } else { Some(c[3]) }));
			}
			for i in 0..k {
				e.push(q(i, k, k + 1 + i % n, Some(k)));
			}
			v.push((format!("{n} triples of blank nodes at all positions but {free}"), k, 2 + n, e));
		}
	}
	for n in sizes(&[9, 40, 130], &[9, 17, 40, 130, 300]) {
		v.push((
			format!("{n} ground quads in three graphs and a blank node"),
			1,
			n + 1,
			(0..n)
				.map(|j| q(1 + j, 1, 2 + j % 5, [None, Some(1), Some(2)][j as usize % 3]))
				.chain([q(0, 1, 1, None)])
				.collect(),
		));
	}
	for n in sizes(&[3, 4], &[3, 4, 5, 6]) {
		let k = 2 * n;
		let cyc = |o: u16, n: u16, k: u16| (0..n).map(move |i| q(o + i, k, o + (i + 1) % n, None));
		v.push((format!("two cycles of {n}"), k, 1, cyc(0, n, k).chain(cyc(n, n, k)).collect()));
		v.push((format!("cycle of {}", 2 * n), k, 1, cyc(0, 2 * n, k).collect()));
	}
	for d in sizes(&[3, 4], &[3, 4, 5]) {
		let k = (1u16 << d) - 1;
		v.push((format!("binary tree of {k} blank nodes"), k, 1, (1..k).map(|i| q((i - 1) / 2, k, i, None)).collect()));
	}
	v
}

/// Datasets with more blank nodes, quads per blank node or quads than a byte counts.
fn large(sizes: &[u16]) -> Vec<(String, u16, u16, Vec<Q>)> {
	let mut v: Vec<(String, u16, u16, Vec<Q>)> = Vec::new();
	for &n in sizes {
		let k = n;
		v.push((format!("one blank node in {n} quads"), 1, n + 1, (0..n).map(|j| q(0, 1, 2 + j, None)).collect()));
		v.push((format!("one blank node graph of {n} quads"), 1, n + 1, (0..n).map(|j| q(1, 1, 2 + j, Some(0))).collect()));
		v.push((
			format!("{n} blank nodes told apart by two literals each"),
			k,
			1 + 2 * n,
			(0..n).flat_map(|i| [q(i, k, k + 1 + 2 * i, None), q(i, k, k + 2 + 2 * i, None)]).collect(),
		));
		v.push((
			format!("{n} blank nodes around another, told apart by a literal"),
			k + 1,
			1 + n,
			(0..n).flat_map(|i| [q(n, k + 1, i, None), q(i, k + 1, k + 2 + i, None)]).collect(),
		));
		v.push((
			format!("chain of {n} blank nodes, told apart by a literal and a graph"),
			k,
			2 + n,
			(0..n).flat_map(|i| [q(i, k, (i + 1) % n, Some(k + 1)), q(k + 1, k, k + 2 + i, Some(i))]).collect(),
		));
		v.push((
			format!("{n} blank node predicates told apart by their subjects"),
			k,
			1 + n,
			(0..n).map(|i| q(k + 1 + i, i, k, None)).collect(),
		));
		v.push((
			format!("{n} ground quads in three graphs and two blank nodes"),
			2,
			n + 1,
			(0..n)
				.map(|j| q(2 + j, 2, 3 + j % 5, [None, Some(2), Some(3)][j as usize % 3]))
				.chain([q(0, 2, 1, None), q(1, 2, 1, None)])
				.collect(),
		));
		// Blank nodes with 1, 2, 3, ... quads, so that there is a group of each size.
		let m = n / 6;
		v.push((
			format!("{m} blank nodes with 1, 2, 3, ... quads"),
			m,
			1 + m,
			(0..m).flat_map(|i| (0..=i).map(move |j| q(i, m, m + 1 + j, None))).collect(),
		));
	}
	v
}

fn structured(ctx: &mut Ctx, sound: bool, few: bool) {
	let all = if few {
		large(if ctx.quick() { &[130, 258] } else { &[130, 258, 300, 520] })
	} else {
		structures(ctx.quick())
	};
	let names: Vec<String> = all.iter().map(|s| s.0.clone()).collect();
	ctx.space(
		&if few {
			format!("large datasets against those one change away in a first, middle or last quad ({} datasets)", names.len())
		} else {
			format!("structured datasets against everything one change away ({} datasets)", names.len())
		},
		all.len() * 8,
		|job, l| {
			// Eight jobs per dataset, the changes dealt out among them.
			let (name, k, g, base) = &all[job / 8];
			let (k, part) = (*k as usize, job % 8);
			let ground: Vec<Term> = (0..*g + 1)
				.map(|i| match i {
					0 => Term::Iri(iri("http://a/p")),
					i if i % 3 == 0 => Term::Iri(iri(&format!("http://a/{i}"))),
					i if i % 3 == 1 => lit(&format!("v{i}"), "http://a/t"),
					i => lit("v", &format!("http://a/t{i}")),
				})
				.collect();
			let sets = changes(base, k, k as u16 + *g, few);
			let class: Vec<usize> =
				(0..sets.len()).map(|i| if i % 8 == part && renames(&sets[0], &sets[i], k) { 0 } else { i }).collect();
			let u = Uni {
				name: name.clone(),
				k,
				ground,
				classes: 0,
				sets,
				class,
			};
			for sd in [1, 2] {
				let (ta, tb) = (u.labels(0), u.labels(sd));
				let (a0, b0) = (dataset_of(&u.sets[0], &ta), dataset_of(&u.sets[0], &tb));
				for i in (part..u.sets.len()).step_by(8) {
					let (a, b) = (dataset_of(&u.sets[i], &ta), dataset_of(&u.sets[i], &tb));
					l.case(|| case_of(&u, 0, i, sd));
					guard_check(|| {
						pair(&u, &a0, &b, (0, i), (&ta, &tb), sound, l)?;
						pair(&u, &a, &b0, (i, 0), (&ta, &tb), sound, l)?;
						pair(&u, &a, &b, (i, i), (&ta, &tb), sound, l)
					})
					.map_err(|m| Fail::new(case_of(&u, 0, i, sd), m))?;
					l.states += 1;
					l.traces += 3;
					l.outcome(fp(&(name, u.class[i])));
				}
			}
			l.sample(|| format!("{name}: {} changes", u.sets.len() - 1));
			Ok(())
		},
	);
}

/// Hundreds to thousands of blank nodes: every dataset against its renamed
/// copies and a few datasets one change away from it.
fn vast(ctx: &mut Ctx, sound: bool) {
	let all: Vec<_> = large(if ctx.quick() { &[520, 1030] } else { &[520, 1030, 2060, 4100] })
		.into_iter()
		.filter(|s| s.1 >= 500)
		.collect();
	ctx.space(
		&format!("datasets of many blank nodes against those one change away in their last quads ({} datasets)", all.len()),
		all.len(),
		|job, l| {
			let (name, k, g, base) = &all[job];
			let k = *k as usize;
			let mut ground = vec![Term::Iri(iri("http://a/p"))];
			ground.extend((0..*g).map(|i| match i % 2 {
				0 => Term::Iri(iri(&format!("http://a/{i}"))),
				_ => lit(&format!("v{i}"), "http://a/t"),
			}));
			let mut sets = vec![base.clone(), base.clone(), base.clone()];
			let fresh = k as u16 + *g;
			let n = base.len();
			sets[1][n - 1].o = fresh;
			sets[2][n - 2].g = if base[n - 2].g.is_some() { None } else { Some(fresh) };
			let u = Uni {
				name: name.clone(),
				k,
				ground,
				classes: 3,
				sets,
				class: vec![0, 1, 2],
			};
			for sd in [1, 2] {
				let (ta, tb) = (u.labels(0), u.labels(sd));
				for (i, j) in [(0, 0), (0, 1), (2, 0), (1, 1), (2, 2)] {
					let (a, b) = (dataset_of(&u.sets[i], &ta), dataset_of(&u.sets[j], &tb));
					l.case(|| case_of(&u, i, j, sd));
					guard_check(|| pair(&u, &a, &b, (i, j), (&ta, &tb), sound, l))
						.map_err(|m| Fail::new(format!("{name}: dataset {i} against {j}, labelling {sd}"), m))?;
					l.states += 1;
					l.traces += 1;
					l.outcome(fp(&(name, i, j)));
				}
			}
			l.sample(|| name.clone());
			Ok(())
		},
	);
}

fn partitions(n: usize, max: usize) -> Vec<Vec<usize>> {
	if n == 0 {
		return vec![vec![]];
	}
	let mut v = Vec::new();
	for a in (1..=n.min(max)).rev() {
		for mut r in partitions(n - a, a) {
			r.insert(0, a);
			v.push(r);
		}
	}
	v
}

/// Blank nodes each in many quads, alike but for the way they are linked: one
/// dataset for each cycle structure, with the links before or after the rest.
fn heavy(ctx: &mut Ctx, sound: bool) {
	let n = ctx.pick(5, 6);
	for w in if ctx.quick() { vec![130, 260] } else { vec![20, 130, 260, 520] } {
		for (links, link) in [
			"as subject and object",
			"as predicate and object",
			"as subject and graph",
			"as object and graph",
		]
		.into_iter()
		.enumerate()
		{
			for first in [true, false] {
				let k = n as u16;
				// Ground: one predicate, the values, one for the links.
				let mut ground = vec![Term::Iri(iri("http://a/p"))];
				ground.extend((0..w).map(|i| Term::Iri(iri(&format!("http://a/v{i:04}")))));
				ground.push(Term::Iri(iri("http://a/zz")));
				let z = k + w as u16 + 1;
				let sets: Vec<Vec<Q>> = partitions(n, n)
					.into_iter()
					.map(|cycles| {
						let mut set = Vec::new();
						let mut b = 0;
						for len in cycles {
							for i in 0..len {
								let (x, y) = ((b + i) as u16, (b + (i + 1) % len) as u16);
								set.push(match links {
									0 => q(x, z, y, None),
									1 => q(z, x, y, None),
									2 => q(x, z, z, Some(y)),
									_ => q(z, z, x, Some(y)),
								});
							}
							b += len;
						}
						for x in 0..k {
							for j in 0..w as u16 {
								set.push(if first { q(k + 1 + j, k, x, None) } else { q(x, k, k + 1 + j, None) });
							}
						}
						set
					})
					.collect();
				let u = Uni {
					name: format!("{n} blank nodes linked in cycles {link}, each in {w} other quads as {}", if first { "object" } else { "subject" }),
					k: n,
					ground,
					classes: sets.len(),
					class: (0..sets.len()).collect(),
					sets,
				};
				all_pairs(ctx, &u, &[1, 2], sound);
			}
		}
	}
}

fn run(ctx: &mut Ctx, sound: bool) {
	let p = || Term::Iri(iri("http://a/p"));
	let i0 = || Term::Iri(iri("http://a/x"));
	let i1 = || Term::Iri(iri("http://a/y"));
	// U1: one predicate, edges between three blank nodes and an IRI.
	{
		let u = product(&[0, 1, 2, 4], &[3], &[0, 1, 2, 4], &[None]);
		let uni = Uni::new("edges over 3 blank nodes and an IRI", 3, vec![p(), i0()], &u, ctx.pick(4, 5));
		if ctx.quick() {
			all_pairs(ctx, &uni, &[1], sound);
		} else {
			all_pairs(ctx, &uni, &[0, 1, 2], sound);
		}
		let small = Uni::new("edges over 3 blank nodes and an IRI", 3, vec![p(), i0()], &u, ctx.pick(2, 3));
		all_pairs(ctx, &small, &[0, 2], sound);
		other_forms(ctx, &small, sound);
	}
	// U2: blank nodes in every position, default and named graphs.
	{
		// 0, 1 blank; 2: IRI; 3: literal.
		let u = product(&[0, 1, 2], &[0, 2], &[0, 1, 2, 3], &[None, Some(0), Some(2)]);
		let uni = Uni::new("quads with 2 blank nodes in any position", 2, vec![i0(), lang("x", "en")], &u, 2);
		all_pairs(ctx, &uni, &[1], sound);
		let u = product(&[0, 1], &[0, 1, 2], &[0, 1, 2], &[None, Some(0), Some(1)]);
		let uni = Uni::new("quads with 2 blank nodes, mostly anonymous", 2, vec![i0()], &u, 2);
		all_pairs(ctx, &uni, &[0, 1], sound);
		let u = product(&[0, 2], &[0, 2], &[0, 1], &[None, Some(0), Some(1), Some(2)]);
		let uni = Uni::new("named graphs", 2, vec![i0()], &u, ctx.pick(2, 3));
		other_forms(ctx, &uni, sound);
	}
	// U3: ground terms that differ in one respect only.
	{
		// 0: blank; 1: IRI a; 2: IRI b; 3..: literals.
		let g = vec![
			i0(),
			i1(),
			lit("http://a/x", "http://a/x"),
			lit("http://a/x", "http://a/y"),
			lit("y", "http://a/x"),
			lang("y", "en"),
			lang("y", "fr"),
		];
		let u = product(&[0, 1], &[1, 2], &[0, 1, 2, 3, 4, 5, 6, 7], &[None, Some(1)]);
		let uni = Uni::new("terms differing in one respect", 1, g.clone(), &u, 2);
		all_pairs(ctx, &uni, &[1], sound);
		let u = product(&[0, 1], &[1], &[0, 2, 3, 4, 5, 6, 7], &[None]);
		let uni = Uni::new("terms differing in one respect", 1, g, &u, ctx.pick(3, 4));
		all_pairs(ctx, &uni, &[0], sound);
		let small = Uni::new("terms differing in one respect", 1, uni.ground.clone(), &u, 2);
		other_forms(ctx, &small, sound);
	}
	// U4: ground quads with two predicates around two blank nodes.
	{
		let u = product(&[0, 1, 2], &[3, 4], &[0, 1, 2], &[None]);
		let uni = Uni::new(
			"two predicates, 2 blank nodes, one IRI",
			2,
			vec![i0(), p(), Term::Iri(iri("http://a/q"))],
			&u,
			ctx.pick(3, 4),
		);
		all_pairs(ctx, &uni, &[0, 1], sound);
	}
	// U5: all digraphs, where the search has to backtrack.
	{
		let uni = Uni::of_sets("digraphs with loops on 3 blank nodes", 3, vec![p()], masks(&digraph_edges(3, 3, true), 0, 9));
		all_pairs(ctx, &uni, &[0, 1, 2], sound);
		let uni = Uni::of_sets("digraphs on 4 blank nodes", 4, vec![p()], masks(&digraph_edges(4, 4, false), 0, 12));
		by_class(ctx, &uni, sound);
		let e = digraph_edges(5, 5, false);
		let uni = Uni::of_sets(
			"digraphs on 5 blank nodes",
			5,
			vec![p()],
			masks(&e, 0, ctx.pick(7, 20)),
		);
		by_class(ctx, &uni, sound);
		let uni = Uni::of_sets("graphs on 5 blank nodes", 5, vec![p()], masks(&graph_edges(5, 5), 0, 10));
		by_class(ctx, &uni, sound);
		let uni = Uni::of_sets("graphs on 6 blank nodes", 6, vec![p()], masks(&graph_edges(6, 6), 0, 15));
		by_class(ctx, &uni, sound);
	}
	// U6: edge-coloured graphs: the named graph carries the colour.
	{
		let mut edges = Vec::new();
		for x in 0..4u16 {
			for y in 0..x {
				edges.push(vec![q(x, 4, y, None)]);
				edges.push(vec![q(y, 4, x, Some(5))]);
			}
		}
		let uni = Uni::of_sets("coloured graphs on 4 blank nodes", 4, vec![p(), i0()], masks(&edges, 0, ctx.pick(6, 12)));
		by_class(ctx, &uni, sound);
		// Colour given by a blank predicate or graph.
		let edges: Vec<Vec<Q>> = (0..3u16)
			.flat_map(|x| (0..3u16).map(move |y| (x, y)))
			.flat_map(|(x, y)| {
				[vec![q(x, (x + y) % 3, y, None)], vec![q(x, 3, y, Some((x + 2 * y) % 3))]]
			})
			.collect();
		let uni = Uni::of_sets(
			"blank predicates and graphs on 3 blank nodes",
			3,
			vec![p()],
			masks(&edges, 0, ctx.pick(4, 7)),
		);
		by_class(ctx, &uni, sound);
	}
	structured(ctx, sound, false);
	structured(ctx, sound, true);
	heavy(ctx, sound);
	vast(ctx, sound);
}
