//! C23: who owns the resource values. Containers are run on a resource type
//! whose values are registered one by one: every creation, copy, use and
//! release is recorded, and a comparison can be made to panic.
use crate::engine::*;
use crate::explore::*;
use crate::mixed::*;
use crate::model::*;
use crate::pats::*;
use crate::sut::*;
use crate::PropSpec;
use rdf_types::dataset::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C23",
		run: c23,
		assumptions: &[
			"a value counts as kept when it is neither released nor owned by the caller; a container may keep several values of a resource, but no more than it has occurrences",
			"after a panic raised by a comparison only memory safety is required: values may be leaked and the content is not specified",
			"memory safety is judged through the registered values (release of a released value, use of a released value) and by the process surviving",
		],
	});
}

/// The values alive on this thread.
struct Reg {
	alive: Vec<bool>,
	/// Values alive per resource.
	live: Vec<u32>,
	total: usize,
	fault: Option<String>,
	/// Comparisons left before one panics.
	budget: u64,
}

const MAXI: usize = ABSENT as usize + 1;

thread_local! {
	static REG: RefCell<Reg> = const { RefCell::new(Reg { alive: Vec::new(), live: Vec::new(), total: 0, fault: None, budget: u64::MAX }) };
}

fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
	REG.with(|r| f(&mut r.borrow_mut()))
}

impl Reg {
	fn reset(&mut self) {
		self.alive.clear();
		self.live.clear();
		self.live.resize(MAXI, 0);
		self.total = 0;
		self.fault = None;
		self.budget = u64::MAX;
	}
	fn fault(&mut self, m: String) {
		if self.fault.is_none() {
			self.fault = Some(m);
		}
	}
	fn new_tok(&mut self, idx: u16) -> Tok {
		self.alive.push(true);
		self.live[idx as usize] += 1;
		self.total += 1;
		Tok {
			idx,
			serial: self.alive.len() as u32 - 1,
		}
	}
}

/// A resource value with an identity.
struct Tok {
	idx: u16,
	serial: u32,
}

impl Tok {
	fn using(&self, what: &str) {
		reg(|r| {
			if !r.alive.get(self.serial as usize).copied().unwrap_or(false) {
				r.fault(format!("{what} of a value of resource {} already released", self.idx));
			}
		})
	}
	fn compared(&self, other: &Tok) {
		self.using("comparison");
		other.using("comparison");
		spend();
	}
}

/// One step of user code: panics when the budget is exhausted.
fn spend() {
	let out = reg(|r| {
		if r.budget == 0 {
			return true;
		}
		if r.budget != u64::MAX {
			r.budget -= 1;
		}
		false
	});
	if out {
		panic!("injected");
	}
}

impl Clone for Tok {
	fn clone(&self) -> Self {
		self.using("copy");
		spend();
		reg(|r| r.new_tok(self.idx))
	}
}

impl Drop for Tok {
	fn drop(&mut self) {
		reg(|r| {
			let s = self.serial as usize;
			if !r.alive.get(s).copied().unwrap_or(false) {
				r.fault(format!("a value of resource {} was released twice", self.idx));
				return;
			}
			r.alive[s] = false;
			r.live[self.idx as usize] -= 1;
			r.total -= 1;
		})
	}
}

impl PartialEq for Tok {
	fn eq(&self, o: &Self) -> bool {
		self.compared(o);
		self.idx == o.idx
	}
}
impl Eq for Tok {}
impl PartialOrd for Tok {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Tok {
	fn cmp(&self, o: &Self) -> Ordering {
		self.compared(o);
		self.idx.cmp(&o.idx)
	}
}
impl Hash for Tok {
	fn hash<H: Hasher>(&self, h: &mut H) {
		self.using("hashing");
		spend();
		self.idx.hash(h)
	}
}
impl std::fmt::Debug for Tok {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		self.using("printing");
		write!(f, "t{}", self.idx)
	}
}

impl Res for Tok {
	const NAME: &'static str = "registered value";
	fn mk(i: u16) -> Self {
		reg(|r| r.new_tok(i))
	}
	fn idx(&self) -> u16 {
		self.using("access");
		self.idx
	}
}

/// What a container of content `m` keeps, beyond what was alive before.
fn kept(before: &[u32], m: &Model, n: u16, what: &str) -> Result<(), String> {
	reg(|r| {
		if let Some(f) = r.fault.take() {
			return Err(format!("{what}: {f}"));
		}
		let mut occ = vec![0u32; n as usize];
		for e in m {
			for x in [Some(e.s), Some(e.p), Some(e.o), e.g].into_iter().flatten() {
				occ[x as usize] += 1;
			}
		}
		let mut sum = 0;
		for i in 0..n as usize {
			let k = r.live[i].wrapping_sub(before[i]);
			let ok = if occ[i] == 0 { k == 0 } else { (1..=occ[i]).contains(&k) };
			if !ok {
				return Err(format!(
					"{what}: {} values of resource {i} are kept, which {} component(s) of {m:?} use",
					k as i32, occ[i]
				));
			}
			sum += k as usize;
		}
		let old: usize = before.iter().map(|&x| x as usize).sum();
		if r.total != old + sum {
			return Err(format!("{what}: values of resources that were only asked for are kept"));
		}
		Ok(())
	})
}

fn live_now(n: u16) -> Vec<u32> {
	reg(|r| r.live[..n as usize].to_vec())
}

fn nothing(what: &str) -> Result<(), String> {
	reg(|r| match r.fault.take() {
		Some(f) => Err(format!("{what}: {f}")),
		None if r.total != 0 => Err(format!("{what}: {} value(s) never released", r.total)),
		None => Ok(()),
	})
}

#[derive(Clone, Copy, PartialEq)]
pub enum Act {
	Ins(Q),
	Rem(Q),
	Mix(MOp),
}

impl std::fmt::Debug for Act {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self {
			Act::Ins(e) => write!(f, "insert{e:?}"),
			Act::Rem(e) => write!(f, "remove{e:?}"),
			Act::Mix(m) => m.fmt(f),
		}
	}
}

fn act<S: Mixed>(mut c: S, m: &mut Model, a: Act, u: &[Q]) -> Result<S, String> {
	match a {
		Act::Ins(e) => {
			c.insert(e);
			m.insert(e);
			Ok(c)
		}
		Act::Rem(e) => {
			c.remove(e);
			m.remove(&e);
			Ok(c)
		}
		Act::Mix(op) => apply(c, m, op, u),
	}
}

/// Ways of giving up a container.
trait Ends: Mixed {
	/// Turns the container into another one with the same content, changes
	/// that one and drops it.
	fn converted(self, _remove: &[Q]) {}
	/// Read-only operations, for the fault points.
	fn looked_up(&self, _which: usize, _e: Q) {}
	const LOOKUPS: usize = 0;
}

fn after<S: Sut>(mut c: S, remove: &[Q]) {
	for &e in remove {
		c.remove(e);
	}
}

impl Ends for BTreeGraph<Tok> {
	fn converted(self, remove: &[Q]) {
		after(self.into_indexed(), remove)
	}
}
impl Ends for BTreeDataset<Tok> {
	fn converted(self, remove: &[Q]) {
		after(self.into_indexed(), remove)
	}
}

fn idx_lookup<S: Idx>(c: &S, which: usize, e: Q) {
	let any = Pat { s: C::Any, p: C::Any, o: C::Any, g: if S::DATASET { C::Any } else { C::Default } };
	let g = e.g.map_or(C::Default, C::Given);
	match which {
		0 => drop(c.matching(&Pat { s: C::Given(e.s), ..any })),
		1 => drop(c.matching(&Pat { s: C::Given(e.s), p: C::Given(e.p), o: C::Given(e.o), g })),
		2 => drop(c.matching(&Pat { p: C::Given(e.p), o: C::SameS, ..any })),
		3 => drop(c.contains_trait(e)),
		4 => drop(c.objects_of(e.g, e.s, e.p)),
		_ => drop(c.predicates_objects_of(e.g, e.s)),
	}
}

impl Ends for IndexedBTreeGraph<Tok> {
	fn looked_up(&self, which: usize, e: Q) {
		idx_lookup(self, which, e)
	}
	const LOOKUPS: usize = 6;
}
impl Ends for IndexedBTreeDataset<Tok> {
	fn looked_up(&self, which: usize, e: Q) {
		idx_lookup(self, which, e)
	}
	const LOOKUPS: usize = 6;
}

fn describe<S: Sut>(h: &[Act]) -> String {
	format!("{}<{}> history {h:?}", S::NAME, S::R::NAME)
}

fn run_one<S: Ends>(h: &[Act], u: &[Q], n: u16, l: &mut Local) -> Result<(), String> {
	reg(|r| r.reset());
	let zero = vec![0; n as usize];
	let mut c = S::new();
	let mut m = Model::new();
	for &a in h {
		l.transitions += 1;
		c = act(c, &mut m, a, u)?;
	}
	l.states += 1;
	l.checks += 1;
	l.outcome(fp(&m));
	kept(&zero, &m, n, "after the last operation")?;
	let base = live_now(n);
	// Lookups keep nothing.
	let _ = (c.contains(u[0]), c.iter_vec(), c.resources(), c.contains_resource(1), c.contains_resource(ABSENT));
	for k in 0..S::LOOKUPS {
		c.looked_up(k, u[h.len() % u.len()]);
	}
	kept(&zero, &m, n, "after lookups")?;
	// Clones share nothing with the original, and release what they own
	// however they end.
	let all: Vec<Q> = m.iter().copied().collect();
	for k in 0..=all.len() + 1 {
		let d = c.clone();
		kept(&base, &m, n, "by a clone")?;
		if k <= all.len() {
			d.into_prefix(k);
		} else {
			d.converted(&all);
		}
		kept(&base, &Model::new(), n, &format!("after a clone was consumed up to element {k}"))?;
		l.checks += 2;
	}
	if all.len() >= 2 {
		c.clone().converted(&all[1..]);
		kept(&base, &Model::new(), n, "after a clone was converted and reduced")?;
	}
	let mut d = S::collect(&all);
	Sut::extend(&mut d, &all);
	kept(&base, &m, n, "by a container collected and extended with its own elements")?;
	// The original goes first.
	let used = m_resources(&m);
	drop(c);
	reg(|r| {
		let left = (0..n).filter(|&i| (r.live[i as usize] > 0) != used.contains(&i)).count();
		if left > 0 {
			return Err("dropping a container released values of its copy".to_string());
		}
		Ok(())
	})?;
	drop(d);
	l.traces += 1;
	nothing("at the end")
}

fn guarded<S: Sut>(h: &[Act], f: impl FnOnce() -> Result<(), String>) -> Check {
	guard_check(f).map_err(|e| Fail::new(describe::<S>(h), e))
}

/// Runs `f` on all histories of exactly 1..=depth actions starting with the
/// given ones.
fn each(h: &mut Vec<Act>, acts: &[Act], left: usize, f: &mut impl FnMut(&[Act]) -> Check) -> Check {
	f(h)?;
	if left > 0 {
		for &a in acts {
			h.push(a);
			each(h, acts, left - 1, f)?;
			h.pop();
		}
	}
	Ok(())
}

fn acts<S: Mixed>(nu: usize) -> (Vec<Act>, Vec<Q>) {
	let u = mixed_universe(S::DATASET, nu);
	let mut v: Vec<Act> = u.iter().flat_map(|&e| [Act::Ins(e), Act::Rem(e)]).collect();
	v.extend(S::specials().into_iter().map(Act::Mix));
	(v, u)
}

fn histories<S: Ends>(ctx: &mut Ctx, nu: usize, depth: usize) {
	let (acts, u) = acts::<S>(nu);
	let k = acts.len();
	let name = format!("{} ownership: all histories of up to {depth} of {k} operations on {nu} elements, every way of giving up the container", S::NAME);
	ctx.space(&name, k * k, |j, l| {
		let mut h = vec![acts[j / k], acts[j % k]];
		if j % k == 0 {
			guarded::<S>(&h[..1], || run_one::<S>(&h[..1], &u, 2, l))?;
		}
		let r = each(&mut h, &acts, depth - 2, &mut |h| {
			l.case(|| describe::<S>(h));
			l.sample(|| describe::<S>(h));
			guarded::<S>(h, || run_one::<S>(h, &u, 2, l))
		});
		reg(|r| r.reset());
		r
	});
}

fn large<S: Ends>(ctx: &mut Ctx, sizes: &[u16]) {
	let mut cfgs = Vec::new();
	for &n in sizes {
		for f in 0..FAMILIES {
			for o in 0..ORDERS {
				cfgs.push((n, f, o, (o + f) % ORDERS));
			}
		}
	}
	let name = format!("{} ownership: contents of {sizes:?} elements", S::NAME);
	ctx.space(&name, cfgs.len(), |j, l| {
		let (n, f, oi, or) = cfgs[j];
		let fam = family(f, n, S::DATASET);
		let top = m_resources(&fam.iter().copied().collect()).last().unwrap() + 1;
		let what = format!("{} family {f} size {n} orders {oi}, {or}", S::NAME);
		l.case(|| what.clone());
		let r = guard_check(|| {
			reg(|r| r.reset());
			let zero = vec![0; top as usize];
			let mut c = S::new();
			let mut m = Model::new();
			let (ins, rem) = (order(oi, &fam), order(or, &fam));
			let half = rem.len() / 2;
			let every = 1 + n as usize / 12;
			let script: Vec<(bool, Q)> = (ins.iter().map(|&e| (true, e)))
				.chain(rem[..half].iter().map(|&e| (false, e)))
				.chain(rem[..half].iter().rev().map(|&e| (true, e)))
				.chain(rem[half / 2..].iter().map(|&e| (false, e)))
				.collect();
			for (i, &(add, e)) in script.iter().enumerate() {
				l.transitions += 1;
				if add {
					c.insert(e);
					m.insert(e);
				} else {
					c.remove(e);
					m.remove(&e);
				}
				if i % every == 0 {
					l.states += 1;
					l.checks += 1;
					kept(&zero, &m, top, &format!("after step {i}"))?;
				}
			}
			kept(&zero, &m, top, "at the end of the script")?;
			for &e in &ins {
				c.insert(e);
				m.insert(e);
			}
			let base = live_now(top);
			for k in [0, 1, m.len() / 2, m.len()] {
				c.clone().into_prefix(k);
				kept(&base, &Model::new(), top, "after consuming a clone")?;
			}
			let d = c.clone();
			kept(&base, &m, top, "by a clone")?;
			d.converted(&order(or, &fam)[..half]);
			kept(&base, &Model::new(), top, "after converting a clone")?;
			drop(c);
			l.traces += 1;
			nothing("at the end")
		})
		.map_err(|e| Fail::new(what, e));
		reg(|r| r.reset());
		r
	});
}

/// The last action of a history, interrupted at every call of user code.
fn faults<S: Ends>(ctx: &mut Ctx, nu: usize, depth: usize) {
	let (acts, u) = acts::<S>(nu);
	let k = acts.len();
	let lookups: Vec<usize> = (0..S::LOOKUPS * nu).collect();
	let name = format!("{} ownership: every history of up to {depth} of {k} operations on {nu} elements with its last operation or a lookup interrupted at every comparison or copy", S::NAME);
	ctx.space(&name, k * k, |j, l| {
		let mut h = vec![acts[j / k], acts[j % k]];
		let mut one = |h: &[Act], look: Option<usize>| -> Check {
			for point in 0..100_000u64 {
				let mut what = describe::<S>(h);
				l.case(|| what.clone());
				let r = guard_check(|| {
					reg(|r| r.reset());
					let mut c = S::new();
					let mut m = Model::new();
					let pre = if look.is_some() { h } else { &h[..h.len() - 1] };
					for &a in pre {
						l.transitions += 1;
						c = act(c, &mut m, a, &u)?;
					}
					reg(|r| r.budget = point);
					let last = h[h.len() - 1];
					// Operations by reference leave a container behind.
					let mut slot = Some(c);
					let done = guard(|| match (look, last) {
						(Some(w), _) => {
							slot.as_ref().unwrap().looked_up(w / nu, u[w % nu]);
							Ok(())
						}
						(None, Act::Ins(e)) => {
							slot.as_mut().unwrap().insert(e);
							Ok(())
						}
						(None, Act::Rem(e)) => {
							slot.as_mut().unwrap().remove(e);
							Ok(())
						}
						(None, Act::Mix(op)) => {
							let by_ref = match op {
								MOp::RemoveGraph(g) => {
									slot.as_mut().unwrap().remove_graph_model(g);
									true
								}
								MOp::Extract(p, k) => {
									slot.as_mut().unwrap().extract(&p, k);
									true
								}
								MOp::Extend => {
									Sut::extend(slot.as_mut().unwrap(), &u);
									true
								}
								MOp::Clone => {
									drop(slot.as_ref().unwrap().clone());
									true
								}
								_ => false,
							};
							if by_ref {
								Ok(())
							} else {
								apply(slot.take().unwrap(), &mut m, op, &u).map(|c| slot = Some(c))
							}
						}
					});
					reg(|r| r.budget = u64::MAX);
					l.states += 1;
					l.checks += 1;
					let fault = |w: &str| reg(|r| r.fault.take().map_or(Ok(()), |f| Err(format!("{w}: {f}"))));
					fault("interrupted operation")?;
					let complete = match done {
						Ok(r) => {
							r?;
							true
						}
						Err(_) => false,
					};
					if let Some(c) = slot {
						// What is left may be inconsistent, but never hands out
						// released values.
						let _ = guard(|| c.iter_vec());
						let _ = guard(|| c.resources());
						fault("listing after an interruption")?;
						drop(c);
						fault("dropping after an interruption")?;
					}
					if complete {
						nothing("at the end")?;
					}
					Ok(if complete { Err(String::new()) } else { Ok(()) })
						.and_then(|r| r)
				});
				match r {
					Ok(()) => continue,
					Err(e) if e.is_empty() => {
						l.traces += 1;
						return Ok(());
					}
					Err(e) => {
						what.push_str(&match look {
							Some(w) => format!(", lookup {} of {:?}", w / nu, u[w % nu]),
							None => String::new(),
						});
						return Err(Fail::new(format!("{what}, interrupted at call {point}"), e));
					}
				}
			}
			Ok(())
		};
		let r = each(&mut h, &acts, depth - 2, &mut |h| {
			one(h, None)?;
			if h.len() < depth || depth == 2 {
				for &w in &lookups {
					one(h, Some(w))?;
				}
			}
			Ok(())
		});
		reg(|r| r.reset());
		r
	});
}

fn c23(ctx: &mut Ctx) {
	let d = ctx.pick(4, 5);
	let plain = ctx.pick(5, 6);
	histories::<BTreeGraph<Tok>>(ctx, 4, plain);
	histories::<BTreeDataset<Tok>>(ctx, 5, plain);
	histories::<IndexedBTreeGraph<Tok>>(ctx, 4, plain);
	histories::<IndexedBTreeDataset<Tok>>(ctx, 5, d);
	let sizes: &[u16] = ctx.pick(&[3, 7, 9, 18, 70, 130], &[3, 5, 7, 9, 16, 18, 40, 70, 130, 400, 1100]);
	large::<BTreeGraph<Tok>>(ctx, sizes);
	large::<BTreeDataset<Tok>>(ctx, sizes);
	large::<IndexedBTreeGraph<Tok>>(ctx, sizes);
	large::<IndexedBTreeDataset<Tok>>(ctx, sizes);
	let f = ctx.pick(2, 3);
	faults::<BTreeGraph<Tok>>(ctx, 4, f + 1);
	faults::<BTreeDataset<Tok>>(ctx, 4, f + 1);
	faults::<IndexedBTreeGraph<Tok>>(ctx, 4, f + 1);
	faults::<IndexedBTreeDataset<Tok>>(ctx, 4, f);
}
