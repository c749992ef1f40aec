//! History spaces shared by the container properties.
use crate::engine::*;
use crate::model::*;
use crate::sut::Sut;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op {
	Ins(Q),
	Rem(Q),
}

impl std::fmt::Debug for Op {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self {
			Op::Ins(e) => write!(f, "insert{e:?}"),
			Op::Rem(e) => write!(f, "remove{e:?}"),
		}
	}
}

/// An observer evaluates the property on one reached state.
pub trait Obs<S>: Fn(&S, &Model, &mut Local) -> Result<(), String> + Sync {}
impl<S, F: Fn(&S, &Model, &mut Local) -> Result<(), String> + Sync> Obs<S> for F {}

pub fn describe<S: Sut>(h: &[Op]) -> String {
	format!("{}<{}> history {:?}", S::NAME, S::R::NAME, h)
}

use crate::model::Res;

/// Applies the productive operation on `e` (insert when absent, remove when
/// present); `rets` tells whether the returned flag is checked.
fn step<S: Sut>(c: &mut S, m: &mut Model, e: Q, rets: bool, l: &mut Local) -> Result<Op, (Op, String)> {
	l.transitions += 1;
	let (op, r) = if m.contains(&e) {
		m.remove(&e);
		(Op::Rem(e), guard(|| c.remove(e)))
	} else {
		m.insert(e);
		(Op::Ins(e), guard(|| c.insert(e)))
	};
	match r {
		Ok(true) => Ok(op),
		Ok(false) if !rets => Ok(op),
		Ok(false) => Err((op, format!("{op:?} returned false"))),
		Err(p) => Err((op, p)),
	}
}

struct Dfs<'a, S, O> {
	universe: &'a [Q],
	depth: usize,
	rets: bool,
	obs: &'a O,
	/// Observe only nodes at a depth in this range.
	from: usize,
	_s: std::marker::PhantomData<S>,
}

impl<S: Sut, O: Obs<S>> Dfs<'_, S, O> {
	fn node(&self, c: &S, m: &Model, h: &mut Vec<Op>, l: &mut Local) -> Check {
		l.case(|| describe::<S>(h));
		if h.len() >= self.from {
			l.states += 1;
			l.outcome(fp(m));
			guard_check(|| (self.obs)(c, m, l)).map_err(|msg| Fail::new(describe::<S>(h), msg))?;
		}
		if h.len() >= self.depth {
			return self.leaf(m, h, l);
		}
		for &e in self.universe {
			let mut c2 = c.clone();
			let mut m2 = m.clone();
			match step(&mut c2, &mut m2, e, self.rets, l) {
				Ok(op) => {
					h.push(op);
					self.node(&c2, &m2, h, l)?;
					h.pop();
				}
				Err((op, msg)) => {
					h.push(op);
					return Err(Fail::new(describe::<S>(h), msg));
				}
			}
		}
		Ok(())
	}

	/// Re-executes a maximal history from scratch, without any clone.
	fn leaf(&self, m: &Model, h: &[Op], l: &mut Local) -> Check {
		l.traces += 1;
		l.sample(|| describe::<S>(h));
		let c = guard(|| {
			let mut c = S::new();
			for op in h {
				match *op {
					Op::Ins(e) => c.insert(e),
					Op::Rem(e) => c.remove(e),
				};
			}
			c
		})
		.map_err(|p| Fail::new(describe::<S>(h), p))?;
		guard_check(|| (self.obs)(&c, m, l))
			.map_err(|msg| Fail::new(format!("{} (no clones)", describe::<S>(h)), msg))
	}
}

/// All histories of productive operations over `universe` up to `depth`.
/// Every prefix state is observed; every maximal history is also executed
/// from scratch without clones.
pub fn histories<S: Sut>(
	ctx: &mut Ctx,
	tag: &str,
	universe: &[Q],
	depth: usize,
	rets: bool,
	obs: impl Obs<S>,
) {
	let n = universe.len();
	let pre = if depth >= 3 { 2 } else { 1 };
	let jobs = n.pow(pre as u32);
	let name = format!(
		"{}<{}> {tag}: all histories of {n} elements, depth {depth}",
		S::NAME,
		S::R::NAME
	);
	ctx.space(&name, jobs, |j, l| {
		let dfs = Dfs::<S, _> {
			universe,
			depth,
			rets,
			obs: &obs,
			from: 0,
			_s: std::marker::PhantomData,
		};
		let mut c = S::new();
		let mut m = Model::new();
		let mut h = Vec::new();
		let firsts: Vec<Q> = if pre == 2 {
			vec![universe[j / n], universe[j % n]]
		} else {
			vec![universe[j]]
		};
		if j % n == 0 || pre == 1 {
			// Ancestors of this job's subtree that no other job observes.
			if j == 0 {
				guard_check(|| obs(&c, &m, l)).map_err(|msg| Fail::new(describe::<S>(&h), msg))?;
			}
		}
		for (i, &e) in firsts.iter().enumerate() {
			match step(&mut c, &mut m, e, rets, l) {
				Ok(op) => h.push(op),
				Err((op, msg)) => {
					h.push(op);
					return Err(Fail::new(describe::<S>(&h), msg));
				}
			}
			if i + 1 < firsts.len() && j % n == 0 {
				l.states += 1;
				guard_check(|| obs(&c, &m, l)).map_err(|msg| Fail::new(describe::<S>(&h), msg))?;
			}
		}
		dfs.node(&c, &m, &mut h, l)
	});
}

/// Histories over every `k`-element subset of `universe`, up to `depth`.
pub fn subset_histories<S: Sut>(
	ctx: &mut Ctx,
	tag: &str,
	universe: &[Q],
	k: usize,
	depth: usize,
	rets: bool,
	obs: impl Obs<S>,
) {
	let subs = subsets(universe, k);
	let name = format!(
		"{}<{}> {tag}: all histories over each {k}-subset of {} elements, depth {depth}",
		S::NAME,
		S::R::NAME,
		universe.len()
	);
	ctx.space(&name, subs.len(), |j, l| {
		Dfs::<S, _> {
			universe: &subs[j],
			depth,
			rets,
			obs: &obs,
			from: 3,
			_s: std::marker::PhantomData,
		}
		.node(&S::new(), &Model::new(), &mut Vec::new(), l)
	});
}

pub fn subsets<T: Copy>(u: &[T], k: usize) -> Vec<Vec<T>> {
	fn go<T: Copy>(u: &[T], k: usize, start: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
		if cur.len() == k {
			out.push(cur.clone());
			return;
		}
		for i in start..u.len() {
			cur.push(u[i]);
			go(u, k, i + 1, cur, out);
			cur.pop();
		}
	}
	let mut out = Vec::new();
	go(u, k, 0, &mut Vec::new(), &mut out);
	out
}

pub const FAMILIES: usize = 8;

/// Element families for large contents.
pub fn family(f: usize, n: u16, dataset: bool) -> Vec<Q> {
	let mut v: Vec<Q> = (0..n)
		.map(|i| {
			let mut e = match f {
				0 => q(
					4 * i,
					4 * i + 1,
					4 * i + 2,
					if i % 3 == 0 { None } else { Some(4 * i + 3) },
				),
				1 => q(0, 1, 2 + i, if i % 2 == 0 { None } else { Some(1) }),
				2 => q(i, n + 1, i + 1, if i % 2 == 0 { Some(i) } else { None }),
				3 => q(i, i, i, if i % 3 == 0 { None } else { Some(i) }),
				4 => q(i % 7, i % 5, i % 11, [None, Some(1), Some(12)][(i % 3) as usize]),
				5 => q(i, 0, n - i, Some(0)),
				6 => q(i / 16, i % 4, (i / 4) % 4, if i % 5 == 0 { Some(i % 4) } else { None }),
				_ => q(3, i, i / 2, Some(i / 8)),
			};
			if !dataset {
				e.g = None;
			}
			e
		})
		.collect();
	let mut seen = Model::new();
	v.retain(|e| seen.insert(*e));
	v
}

pub const ORDERS: usize = 4;

pub fn order(o: usize, v: &[Q]) -> Vec<Q> {
	let n = v.len();
	let mut v = v.to_vec();
	v.sort();
	match o {
		0 => v,
		1 => {
			v.reverse();
			v
		}
		2 => {
			// A stride coprime with n.
			let mut k = (n * 5 / 8).max(1);
			while gcd(k, n) != 1 {
				k += 1;
			}
			(0..n).map(|i| v[(i * k) % n]).collect()
		}
		_ => {
			// From the middle outwards.
			let mid = n / 2;
			let mut r = Vec::with_capacity(n);
			for d in 0..=n {
				if d == 0 {
					r.push(v[mid]);
				} else {
					if mid + d < n {
						r.push(v[mid + d]);
					}
					if d <= mid {
						r.push(v[mid - d]);
					}
				}
			}
			r
		}
	}
}

fn gcd(a: usize, b: usize) -> usize {
	if b == 0 {
		a
	} else {
		gcd(b, a % b)
	}
}

/// Large contents: insert a family in some order, remove half of it in
/// another order, insert it back, remove everything; for every family,
/// size, insertion order and removal order.
pub fn bulk<S: Sut>(ctx: &mut Ctx, tag: &str, sizes: &[u16], rets: bool, obs: impl Obs<S>) {
	let mut cfgs = Vec::new();
	for &n in sizes {
		for f in 0..FAMILIES {
			for oi in 0..ORDERS {
				for or in 0..ORDERS {
					cfgs.push((n, f, oi, or));
				}
			}
		}
	}
	let name = format!("{}<{}> {tag}: bulk families, sizes {sizes:?}", S::NAME, S::R::NAME);
	ctx.space(&name, cfgs.len(), |j, l| {
		let (n, f, oi, or) = cfgs[j];
		let fam = family(f, n, S::DATASET);
		let ins = order(oi, &fam);
		let rem = order(or, &fam);
		let every = if n <= 20 {
			1
		} else if n <= 80 {
			5
		} else {
			23
		};
		let half = rem.len() / 2;
		let script = ins
			.iter()
			.chain(&rem[..half])
			.chain(rem[..half].iter().rev())
			.chain(&rem);
		let mut c = S::new();
		let mut m = Model::new();
		let what = format!(
			"{}<{}> bulk family {f} size {n} insertion order {oi} removal order {or}",
			S::NAME,
			S::R::NAME
		);
		let total = ins.len() + half * 2 + rem.len();
		for (i, &e) in script.enumerate() {
			l.case(|| format!("{what} step {i}"));
			let at = || format!("{what}, at step {i}");
			step(&mut c, &mut m, e, rets, l).map_err(|(_, msg)| Fail::new(at(), msg))?;
			if i % every == 0 || i + 1 == total || i + 1 == ins.len() || i + 1 == ins.len() + half {
				l.states += 1;
				l.outcome(fp(&m));
				guard_check(|| obs(&c, &m, l)).map_err(|msg| Fail::new(at(), msg))?;
			}
		}
		l.traces += 1;
		l.sample(|| what.clone());
		Ok(())
	});
}
