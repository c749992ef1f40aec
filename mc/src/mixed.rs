//! Histories mixing insertions and removals with every other operation that
//! changes or replaces a container: extraction (complete or abandoned), graph
//! removal, cloning, collecting, extending, converting from a plain container.
use crate::engine::*;
use crate::explore::Obs;
use crate::model::*;
use crate::pats::*;
use crate::sut::*;
use rdf_types::dataset::*;

#[derive(Clone, Copy, PartialEq)]
pub enum MOp {
	/// Insert when absent, remove when present.
	Toggle(Q),
	RemoveGraph(Option<u16>),
	/// Extract the matches of a pattern, at most so many.
	Extract(Pat, usize),
	/// Go on with a clone, dropping the original.
	Clone,
	/// Go on with the original after a clone was emptied and dropped.
	CloneDrop,
	/// Rebuild from an iterator in descending order, with repetitions.
	Collect,
	/// Insert the whole universe in bulk.
	Extend,
	/// Rebuild by converting a plain container; `true`: one that went through
	/// insertions and removals of the rest of the universe.
	Convert(bool),
}

impl std::fmt::Debug for MOp {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self {
			MOp::Toggle(e) => write!(f, "toggle{e:?}"),
			MOp::RemoveGraph(g) => write!(f, "remove_graph({g:?})"),
			MOp::Extract(p, k) => write!(f, "extract({p:?}, at most {k})"),
			MOp::Clone => write!(f, "clone"),
			MOp::CloneDrop => write!(f, "clone-and-drop"),
			MOp::Collect => write!(f, "collect"),
			MOp::Extend => write!(f, "extend"),
			MOp::Convert(h) => write!(f, "convert({h})"),
		}
	}
}

pub trait Mixed: Sut {
	/// Operations beyond insertion and removal.
	fn specials() -> Vec<MOp>;
	fn convert(_plain_ops: &[(bool, Q)]) -> Self {
		unreachable!()
	}
	fn remove_graph_model(&mut self, _g: Option<u16>) {
		unreachable!()
	}
	fn extract(&mut self, _p: &Pat, _k: usize) -> Vec<Q> {
		unreachable!()
	}
}

const COMMON: [MOp; 4] = [MOp::Clone, MOp::CloneDrop, MOp::Collect, MOp::Extend];

impl<R: Res> Mixed for BTreeGraph<R> {
	fn specials() -> Vec<MOp> {
		COMMON.to_vec()
	}
}

impl<R: Res> Mixed for BTreeDataset<R> {
	fn specials() -> Vec<MOp> {
		COMMON.to_vec()
	}
}

impl<R: Res> Mixed for IndexedBTreeGraph<R> {
	fn specials() -> Vec<MOp> {
		let mut v = COMMON.to_vec();
		v.extend([MOp::Convert(false), MOp::Convert(true)]);
		v
	}
	fn convert(ops: &[(bool, Q)]) -> Self {
		let mut c = BTreeGraph::<R>::new();
		for &(ins, e) in ops {
			if ins {
				c.insert(mk_triple(e));
			} else {
				c.remove(mk_triple::<R>(e).as_ref());
			}
		}
		c.into_indexed()
	}
}

impl<R: Res> Mixed for IndexedBTreeDataset<R> {
	fn specials() -> Vec<MOp> {
		let mut v = COMMON.to_vec();
		v.extend([MOp::Convert(false), MOp::Convert(true)]);
		v.extend([None, Some(0), Some(1)].map(MOp::RemoveGraph));
		let any = Pat {
			s: C::Any,
			p: C::Any,
			o: C::Any,
			g: C::Any,
		};
		for p in [
			any,
			Pat { s: C::Given(0), ..any },
			Pat { p: C::Given(1), ..any },
			Pat { o: C::Given(0), ..any },
			Pat { g: C::Given(1), ..any },
			Pat { g: C::Default, ..any },
			Pat { o: C::SameS, g: C::SameP, ..any },
		] {
			v.push(MOp::Extract(p, LIM));
			v.push(MOp::Extract(p, 1));
		}
		v
	}
	fn convert(ops: &[(bool, Q)]) -> Self {
		let mut c = BTreeDataset::<R>::new();
		for &(ins, e) in ops {
			if ins {
				c.insert(mk_quad(e));
			} else {
				c.remove(mk_quad::<R>(e).as_ref());
			}
		}
		c.into_indexed()
	}
	fn remove_graph_model(&mut self, g: Option<u16>) {
		let r = g.map(R::mk);
		self.remove_graph(r.as_ref());
	}
	fn extract(&mut self, p: &Pat, k: usize) -> Vec<Q> {
		let owned = QuadPat::<R>::new(p);
		let v = self
			.extract_pattern_matching(owned.get())
			.take(k)
			.map(|x| of_quad(x.as_ref()))
			.collect();
		v
	}
}

pub fn apply<S: Mixed>(mut c: S, m: &mut Model, op: MOp, u: &[Q]) -> Result<S, String> {
	Ok(match op {
		MOp::Toggle(e) => {
			if m.remove(&e) {
				c.remove(e);
			} else {
				m.insert(e);
				c.insert(e);
			}
			c
		}
		MOp::RemoveGraph(g) => {
			c.remove_graph_model(g);
			m.retain(|e| e.g != g);
			c
		}
		MOp::Extract(p, k) => {
			let got = c.extract(&p, k);
			let exp = m.iter().filter(|&&e| accepts(&p, e)).count();
			if got.len() != exp.min(k) {
				return Err(format!("{op:?} of {m:?} yielded {got:?}"));
			}
			for e in &got {
				if !accepts(&p, *e) || !m.remove(e) {
					return Err(format!("{op:?} yielded {got:?}"));
				}
			}
			c
		}
		MOp::Clone => {
			let d = c.clone();
			drop(c);
			d
		}
		MOp::CloneDrop => {
			let mut d = c.clone();
			for &e in u {
				if m.contains(&e) {
					d.remove(e);
				} else {
					d.insert(e);
				}
			}
			drop(d);
			c
		}
		MOp::Collect => {
			let mut v: Vec<Q> = m.iter().rev().copied().collect();
			v.extend(m.iter().copied());
			drop(c);
			S::collect(&v)
		}
		MOp::Extend => {
			m.extend(u.iter().copied());
			c.extend(u);
			c
		}
		MOp::Convert(holes) => {
			let mut ops: Vec<(bool, Q)> = Vec::new();
			if holes {
				ops.extend(u.iter().map(|&e| (true, e)));
				ops.extend(u.iter().filter(|e| !m.contains(e)).map(|&e| (false, e)));
			}
			ops.extend(m.iter().map(|&e| (true, e)));
			S::convert(&ops)
		}
	})
}

fn describe<S: Sut>(h: &[MOp]) -> String {
	format!("{}<{}> history {:?}", S::NAME, S::R::NAME, h)
}

fn node<S: Mixed>(
	c: &S,
	m: &Model,
	h: &mut Vec<MOp>,
	ops: &[MOp],
	u: &[Q],
	left: usize,
	obs: &impl Obs<S>,
	l: &mut Local,
) -> Check {
	l.case(|| describe::<S>(h));
	l.states += 1;
	l.outcome(fp(m));
	guard_check(|| obs(c, m, l)).map_err(|e| Fail::new(describe::<S>(h), e))?;
	if left == 0 {
		l.traces += 1;
		l.sample(|| describe::<S>(h));
		// Without the clones of the exploration.
		let r = guard(|| {
			let mut c = S::new();
			let mut m = Model::new();
			for &op in h.iter() {
				c = apply(c, &mut m, op, u)?;
			}
			Ok::<_, String>((c, m))
		})
		.and_then(|r| r);
		let (c, m) = r.map_err(|e| Fail::new(describe::<S>(h), e))?;
		return guard_check(|| obs(&c, &m, l))
			.map_err(|e| Fail::new(format!("{} (no clones)", describe::<S>(h)), e));
	}
	for &op in ops {
		// Replacing an untouched or just replaced container adds nothing.
		if matches!(op, MOp::Clone | MOp::CloneDrop) && h.last() == Some(&op) {
			continue;
		}
		let mut m2 = m.clone();
		l.transitions += 1;
		let r = guard(|| apply(c.clone(), &mut m2, op, u)).and_then(|r| r);
		h.push(op);
		let c2 = r.map_err(|e| Fail::new(describe::<S>(h), e))?;
		node(&c2, &m2, h, ops, u, left - 1, obs, l)?;
		h.pop();
	}
	Ok(())
}

/// Small universes whose elements share resources across positions.
pub fn mixed_universe(dataset: bool, n: usize) -> Vec<Q> {
	let v = if dataset {
		vec![
			q(0, 1, 0, None),
			q(0, 1, 0, Some(1)),
			q(1, 1, 0, Some(1)),
			q(0, 0, 1, Some(0)),
			q(1, 0, 1, None),
			q(1, 1, 1, Some(1)),
			q(0, 1, 1, Some(0)),
			q(0, 0, 0, None),
		]
	} else {
		vec![
			q(0, 1, 0, None),
			q(1, 1, 0, None),
			q(0, 0, 1, None),
			q(1, 1, 1, None),
			q(1, 0, 0, None),
			q(0, 0, 0, None),
		]
	};
	v.into_iter().take(n).collect()
}

/// All mixed histories up to `depth` over the first `n` elements of the mixed
/// universe.
pub fn mixed<S: Mixed>(ctx: &mut Ctx, tag: &str, n: usize, depth: usize, obs: impl Obs<S>) {
	let u = mixed_universe(S::DATASET, n);
	let mut ops: Vec<MOp> = u.iter().map(|&e| MOp::Toggle(e)).collect();
	ops.extend(S::specials());
	let k = ops.len();
	let name = format!(
		"{}<{}> {tag}: all mixed histories of {k} operations on {} elements, depth {depth}",
		S::NAME,
		S::R::NAME,
		u.len()
	);
	ctx.space(&name, k * k, |j, l| {
		let mut c = S::new();
		let mut m = Model::new();
		let mut h = Vec::new();
		for op in [ops[j / k], ops[j % k]] {
			h.push(op);
			let r = guard(|| apply(c.clone(), &mut m, op, &u)).and_then(|r| r);
			c = r.map_err(|e| Fail::new(describe::<S>(&h), e))?;
		}
		node(&c, &m, &mut h, &ops, &u, depth - 2, &obs, l)
	});
}
