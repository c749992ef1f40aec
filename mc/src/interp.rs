//! C18: interpretations. All histories of lookups, insertions and fresh
//! resources, up to a depth, against an interning model.
use crate::engine::*;
use crate::print::{build, iri, T};
use crate::terms::v_local;
use crate::{ensure, ensure_eq, PropSpec};
use rdf_types::generator::{Blank, Generator, LocalGenerator, LocalGeneratorInterpretation};
use rdf_types::interpretation::fallible::{
	FallibleGenerativeInterpretation, TraversableFallibleInterpretation,
};
use rdf_types::interpretation::{
	ConstGenerativeInterpretation, GenerativeInterpretation, Interpretation, InterpretationMut, LocalInterpretation,
	LocalInterpretationMut, ReverseInterpretation, ReverseLocalInterpretation, TraversableInterpretation,
	WithGenerator, WithLocalGenerator,
};
use rdf_types::{
	BlankId, BlankIdBuf, CowId, CowLiteral, CowLocalTerm, CowTerm, Id, Iri, Literal, LiteralRef, LiteralType,
	LocalTerm, Term, XSD_STRING,
};
use std::borrow::Cow;
use std::collections::BTreeMap;

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C18",
		run,
		assumptions: &[
			"the interpretation wrapped by WithGenerator/WithLocalGenerator is an interning table of the harness (one resource per term, or several terms per resource), or the unit interpretation",
			"generators: the numbered blank node generator, and a harness generator alternating IRIs and literals",
		],
	});
}

// ------------------------------------------------------- base interpretation

/// Interning table. `class` says which terms share a resource.
#[derive(Clone)]
struct Base {
	class: fn(&T) -> String,
	map: BTreeMap<String, usize>,
	terms: Vec<Vec<T>>,
	nums: Vec<usize>,
}

fn by_term(t: &T) -> String {
	format!("{t:?}")
}

/// One resource for several terms of different kinds.
fn by_tail(t: &T) -> String {
	match t {
		T::Iri(s) | T::Blank(s) | T::Lit(s, _) | T::Lang(s, _) => s.chars().last().into_iter().collect(),
	}
}

/// One resource for all terms.
fn by_none(_: &T) -> String {
	String::new()
}

impl Base {
	fn new(class: fn(&T) -> String) -> Self {
		Self {
			class,
			map: BTreeMap::new(),
			terms: Vec::new(),
			nums: Vec::new(),
		}
	}

	fn get(&self, t: &T) -> Option<usize> {
		let i = *self.map.get(&(self.class)(t))?;
		self.terms[i].contains(t).then_some(i)
	}

	fn put(&mut self, t: T) -> usize {
		let n = self.terms.len();
		let i = *self.map.entry((self.class)(&t)).or_insert(n);
		if i == n {
			self.terms.push(Vec::new());
			self.nums.push(n);
		}
		if !self.terms[i].contains(&t) {
			self.terms[i].push(t);
		}
		i
	}
}

fn t_lit(l: LiteralRef) -> T {
	match l.type_ {
		rdf_types::LiteralTypeRef::Any(i) => T::Lit(l.value.into(), i.as_str().into()),
		rdf_types::LiteralTypeRef::LangString(t) => T::Lang(l.value.into(), t.as_str().into()),
	}
}

fn as_literal(t: &T) -> Literal {
	match build(t) {
		LocalTerm::Named(Term::Literal(l)) => l,
		_ => unreachable!(),
	}
}

impl Interpretation for Base {
	type Resource = usize;

	fn iri(&self, iri: &Iri) -> Option<usize> {
		self.get(&T::Iri(iri.as_str().into()))
	}

	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<usize> {
		self.get(&t_lit(literal.into()))
	}
}

impl LocalInterpretation for Base {
	fn blank_id(&self, b: &BlankId) -> Option<usize> {
		self.get(&T::Blank(b.as_str().into()))
	}
}

impl InterpretationMut for Base {
	fn insert_iri<'a>(&mut self, iri: impl Into<Cow<'a, Iri>>) -> usize {
		self.put(T::Iri(iri.into().as_str().into()))
	}

	fn insert_literal<'a>(&mut self, literal: impl Into<CowLiteral<'a>>) -> usize {
		let l: CowLiteral = literal.into();
		self.put(t_lit(LiteralRef {
			value: &l.value,
			type_: match &l.type_ {
				rdf_types::CowLiteralType::Any(i) => rdf_types::LiteralTypeRef::Any(i),
				rdf_types::CowLiteralType::LangString(t) => rdf_types::LiteralTypeRef::LangString(t),
			},
		}))
	}
}

impl LocalInterpretationMut for Base {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> usize {
		self.put(T::Blank(b.into().as_str().into()))
	}
}

impl ReverseInterpretation for Base {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;

	fn iris_of<'a>(&'a self, r: &'a usize) -> Self::Iris<'a> {
		let f = |t: &T| match t {
			T::Iri(s) => Some(Cow::Owned(iri(s))),
			_ => None,
		};
		self.terms[*r].iter().filter_map(f).collect::<Vec<_>>().into_iter()
	}

	fn literals_of<'a>(&'a self, r: &'a usize) -> Self::Literals<'a> {
		let f = |t: &T| match t {
			T::Lit(..) | T::Lang(..) => Some(as_literal(t).into_cow()),
			_ => None,
		};
		self.terms[*r].iter().filter_map(f).collect::<Vec<_>>().into_iter()
	}
}

impl ReverseLocalInterpretation for Base {
	type BlankIds<'a> = std::vec::IntoIter<Cow<'a, BlankId>>;

	fn blank_ids_of<'a>(&'a self, r: &'a usize) -> Self::BlankIds<'a> {
		let f = |t: &T| match t {
			T::Blank(s) => Some(Cow::Owned(BlankIdBuf::new(s.clone()).unwrap())),
			_ => None,
		};
		self.terms[*r].iter().filter_map(f).collect::<Vec<_>>().into_iter()
	}
}

impl TraversableInterpretation for Base {
	type Resources<'a> = std::slice::Iter<'a, usize>;

	fn resources(&self) -> Self::Resources<'_> {
		self.nums.iter()
	}
}

/// Generates IRIs and literals, alternately.
#[derive(Default)]
struct TermGen(usize);

fn gen_term(n: usize) -> T {
	if n % 2 == 0 {
		T::Iri(format!("http://gen/{n}"))
	} else {
		T::Lit(format!("gen{n}"), XSD_STRING.as_str().into())
	}
}

impl Generator for TermGen {
	fn next_term(&mut self) -> Term {
		let n = self.0;
		self.0 += 1;
		if n % 2 == 0 {
			Term::Iri(iri(&format!("http://gen/{n}")))
		} else {
			Term::Literal(Literal {
				value: format!("gen{n}"),
				type_: LiteralType::Any(XSD_STRING.to_owned()),
			})
		}
	}
}

// ------------------------------------------------------------------- system

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Via {
	/// iri / literal / blank_id
	Kind,
	/// term (IRIs and literals)
	Term,
	/// local_term
	Local,
	/// id (IRIs and blank nodes)
	Id,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Op {
	Look(Via, usize),
	/// `true`: from a borrowed copy-on-write value.
	Insert(Via, usize, bool),
	New,
	TryNew,
	ConstNew,
	/// Draws from the generator directly.
	Draw,
	/// Inserts in the wrapped interpretation directly.
	Inner(usize),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Res {
	Num(usize),
	Term(T),
}

trait ToRes {
	fn res(&self) -> Res;
}

impl ToRes for usize {
	fn res(&self) -> Res {
		Res::Num(*self)
	}
}

impl ToRes for LocalTerm {
	fn res(&self) -> Res {
		Res::Term(v_local(self))
	}
}

#[derive(PartialEq, Eq, Debug)]
struct Back {
	iris: Vec<T>,
	literals: Vec<T>,
	terms: Vec<T>,
	blanks: Option<Vec<T>>,
	locals: Option<Vec<T>>,
	anonymous: bool,
	driven: Result<(), String>,
}

fn cow_term(t: CowTerm) -> T {
	match t {
		CowTerm::Iri(i) => T::Iri(i.as_str().into()),
		CowTerm::Literal(l) => cow_lit(l),
	}
}

fn cow_lit(l: CowLiteral) -> T {
	t_lit(LiteralRef {
		value: &l.value,
		type_: match &l.type_ {
			rdf_types::CowLiteralType::Any(i) => rdf_types::LiteralTypeRef::Any(i),
			rdf_types::CowLiteralType::LangString(t) => rdf_types::LiteralTypeRef::LangString(t),
		},
	})
}

/// Lookup through the named-term interface.
fn look_named<I: Interpretation>(i: &I, via: Via, t: &LocalTerm) -> Option<Option<I::Resource>> {
	Some(match (via, t) {
		(Via::Kind, LocalTerm::Named(Term::Iri(x))) => i.iri(x),
		(Via::Kind, LocalTerm::Named(Term::Literal(x))) => i.literal(x.as_ref()),
		(Via::Term, LocalTerm::Named(n)) => i.term(n.as_ref()),
		_ => return None,
	})
}

fn look_local<I: LocalInterpretation>(i: &I, via: Via, t: &LocalTerm) -> Option<Option<I::Resource>> {
	Some(match (via, t) {
		(Via::Kind, LocalTerm::Anonymous(b)) => i.blank_id(b),
		(Via::Local, t) => i.local_term(t.as_ref()),
		(Via::Id, LocalTerm::Anonymous(b)) => {
			let id = Id::BlankId(b.clone());
			i.id(id.as_ref())
		}
		(Via::Id, LocalTerm::Named(Term::Iri(x))) => {
			let id = Id::Iri(x.clone());
			i.id(id.as_ref())
		}
		_ => return look_named(i, via, t),
	})
}

fn put_named<I: InterpretationMut>(i: &mut I, via: Via, t: &LocalTerm, borrowed: bool) -> Option<I::Resource> {
	Some(match (via, t) {
		(Via::Kind, LocalTerm::Named(Term::Iri(x))) => {
			if borrowed {
				i.insert_iri(Cow::Borrowed(x.as_iri()))
			} else {
				i.insert_iri(Cow::<Iri>::Owned(x.clone()))
			}
		}
		(Via::Kind, LocalTerm::Named(Term::Literal(x))) => {
			if borrowed {
				i.insert_literal(x.as_cow())
			} else {
				i.insert_literal(x.clone().into_cow())
			}
		}
		(Via::Term, LocalTerm::Named(n)) => {
			if borrowed {
				i.insert_term(n.as_cow())
			} else {
				i.insert_term(n.clone())
			}
		}
		_ => return None,
	})
}

fn put_local<I: LocalInterpretationMut>(i: &mut I, via: Via, t: &LocalTerm, borrowed: bool) -> Option<I::Resource> {
	Some(match (via, t) {
		(Via::Kind, LocalTerm::Anonymous(b)) => {
			if borrowed {
				i.insert_blank_id(Cow::Borrowed(b.as_blank_id_ref()))
			} else {
				i.insert_blank_id(Cow::Owned(b.clone()))
			}
		}
		(Via::Local, t) => {
			if borrowed {
				i.insert_local_term(t.as_cow())
			} else {
				i.insert_local_term(t.clone())
			}
		}
		(Via::Id, LocalTerm::Anonymous(b)) => {
			if borrowed {
				i.insert_id(Id::BlankId(b.clone()).as_cow())
			} else {
				i.insert_id(CowId::BlankId(Cow::Owned(b.clone())))
			}
		}
		(Via::Id, LocalTerm::Named(Term::Iri(x))) => {
			if borrowed {
				i.insert_id(Id::Iri(x.clone()).as_cow())
			} else {
				i.insert_id(CowId::Iri(Cow::Owned(x.clone())))
			}
		}
		_ => return put_named(i, via, t, borrowed),
	})
}

fn back<I: ReverseInterpretation>(i: &I, r: &I::Resource) -> Back {
	Back {
		iris: i.iris_of(r).map(|x| T::Iri(x.as_str().into())).collect(),
		literals: i.literals_of(r).map(cow_lit).collect(),
		terms: i.terms_of(r).map(cow_term).collect(),
		blanks: None,
		locals: None,
		anonymous: i.is_anonymous(r),
		driven: driven("iris_of", || i.iris_of(r), |x| T::Iri(x.as_str().into()))
			.and(driven("literals_of", || i.literals_of(r), cow_lit))
			.and(driven("terms_of", || i.terms_of(r), cow_term)),
	}
}

/// The iterator gives the same items whichever way it is driven.
fn driven<I: Iterator>(what: &str, mk: impl Fn() -> I, f: impl Fn(I::Item) -> T) -> Result<(), String> {
	let mut all = Vec::new();
	let mut hints = Vec::new();
	let mut it = mk();
	loop {
		hints.push(it.size_hint());
		match it.next() {
			Some(x) => all.push(f(x)),
			None => break,
		}
		ensure!(all.len() < 1000, "{what}: never ends");
	}
	ensure!(it.next().is_none(), "{what}: a term after the end");
	let n = all.len();
	for (i, (lo, hi)) in hints.into_iter().enumerate() {
		ensure!(lo <= n - i && hi.is_none_or(|h| n - i <= h), "{what}: size_hint ({lo}, {hi:?}) with {} left", n - i);
	}
	ensure_eq!(mk().count(), n, "{what}: count()");
	ensure_eq!(mk().last().map(&f), all.last().cloned(), "{what}: last()");
	for k in 0..=n {
		let mut it = mk();
		ensure_eq!(it.nth(k).map(&f), all.get(k).cloned(), "{what}: nth({k})");
		ensure_eq!(it.next().map(&f), all.get(k + 1).cloned(), "{what}: what follows nth({k})");
		let mut it = mk();
		it.by_ref().take(k).for_each(drop);
		ensure_eq!(it.count(), n - k, "{what}: count() after {k}");
	}
	Ok(())
}

fn back_local<I: ReverseLocalInterpretation>(i: &I, r: &I::Resource) -> Back {
	let named = back(i, r);
	Back {
		blanks: Some(i.blank_ids_of(r).map(|b| T::Blank(b.as_str().into())).collect()),
		locals: Some(
			i.local_terms_of(r)
				.map(|t| match t {
					CowLocalTerm::Anonymous(b) => T::Blank(b.as_str().into()),
					CowLocalTerm::Named(t) => cow_term(t),
				})
				.collect(),
		),
		driven: driven("blank_ids_of", || i.blank_ids_of(r), |b| T::Blank(b.as_str().into())).and(driven(
			"local_terms_of",
			|| i.local_terms_of(r),
			|t| match t {
				CowLocalTerm::Anonymous(b) => T::Blank(b.as_str().into()),
				CowLocalTerm::Named(t) => cow_term(t),
			},
		))
		.and(named.driven),
		..named
	}
}

/// A system under exploration. Methods return `None` for operations the
/// configuration does not offer.
trait Sys {
	fn look(&self, via: Via, t: &LocalTerm) -> Option<Option<Res>>;
	fn put(&mut self, via: Via, t: &LocalTerm, borrowed: bool) -> Option<Res>;
	fn fresh(&mut self, op: &Op) -> Option<Res>;
	fn draw(&mut self) -> Option<T> {
		None
	}
	fn inner(&mut self, _t: &LocalTerm) -> Option<Res> {
		None
	}
	fn back(&self, r: &Res) -> Back;
	/// Number of terms drawn from the generator.
	fn drawn(&self) -> Option<usize>;
	fn finish(self: Box<Self>) -> (Option<usize>, Option<Base>);
}

fn opt<R: ToRes>(r: Option<Option<R>>) -> Option<Option<Res>> {
	r.map(|r| r.map(|r| r.res()))
}

fn num(r: &Res) -> usize {
	match r {
		Res::Num(n) => *n,
		_ => unreachable!(),
	}
}

fn term(r: &Res) -> LocalTerm {
	match r {
		Res::Term(t) => build(t),
		_ => unreachable!(),
	}
}

impl Sys for () {
	fn look(&self, via: Via, t: &LocalTerm) -> Option<Option<Res>> {
		opt(look_named(self, via, t))
	}
	fn put(&mut self, via: Via, t: &LocalTerm, b: bool) -> Option<Res> {
		put_named(self, via, t, b).map(|r| r.res())
	}
	fn fresh(&mut self, _: &Op) -> Option<Res> {
		None
	}
	fn back(&self, r: &Res) -> Back {
		back(self, &term(r))
	}
	fn drawn(&self) -> Option<usize> {
		None
	}
	fn finish(self: Box<Self>) -> (Option<usize>, Option<Base>) {
		(None, None)
	}
}

impl Sys for LocalGeneratorInterpretation<Blank> {
	fn look(&self, via: Via, t: &LocalTerm) -> Option<Option<Res>> {
		opt(look_local(self, via, t))
	}
	fn put(&mut self, via: Via, t: &LocalTerm, b: bool) -> Option<Res> {
		put_named(self, via, t, b).map(|r| r.res())
	}
	fn fresh(&mut self, op: &Op) -> Option<Res> {
		Some(match op {
			Op::New => GenerativeInterpretation::new_resource(self).res(),
			Op::TryNew => match self.try_new_resource() {
				Ok(r) => r.res(),
				Err(e) => match e {},
			},
			_ => ConstGenerativeInterpretation::new_resource(self).res(),
		})
	}
	fn back(&self, r: &Res) -> Back {
		back_local(self, &term(r))
	}
	fn drawn(&self) -> Option<usize> {
		None
	}
	fn finish(self: Box<Self>) -> (Option<usize>, Option<Base>) {
		(Some(self.into_generator().count()), None)
	}
}

impl Sys for WithGenerator<TermGen, ()> {
	fn look(&self, via: Via, t: &LocalTerm) -> Option<Option<Res>> {
		opt(look_named(self, via, t))
	}
	fn put(&mut self, via: Via, t: &LocalTerm, b: bool) -> Option<Res> {
		put_named(self, via, t, b).map(|r| r.res())
	}
	fn fresh(&mut self, op: &Op) -> Option<Res> {
		Some(match op {
			Op::New => self.new_resource().res(),
			Op::TryNew => match self.try_new_resource() {
				Ok(r) => r.res(),
				Err(e) => match e {},
			},
			_ => return None,
		})
	}
	fn draw(&mut self) -> Option<T> {
		Some(v_local(&LocalTerm::Named((&mut self.generator_mut()).next_term())))
	}
	fn back(&self, r: &Res) -> Back {
		back(self, &term(r))
	}
	fn drawn(&self) -> Option<usize> {
		Some(self.generator().0)
	}
	fn finish(self: Box<Self>) -> (Option<usize>, Option<Base>) {
		(Some(self.into_generator().0), None)
	}
}

impl Sys for WithGenerator<TermGen, Base> {
	fn look(&self, via: Via, t: &LocalTerm) -> Option<Option<Res>> {
		opt(look_named(self, via, t))
	}
	fn put(&mut self, via: Via, t: &LocalTerm, b: bool) -> Option<Res> {
		put_named(self, via, t, b).map(|r| r.res())
	}
	fn fresh(&mut self, op: &Op) -> Option<Res> {
		Some(match op {
			Op::New => self.new_resource().res(),
			Op::TryNew => match self.try_new_resource() {
				Ok(r) => r.res(),
				Err(e) => match e {},
			},
			_ => return None,
		})
	}
	fn draw(&mut self) -> Option<T> {
		Some(v_local(&LocalTerm::Named(self.generator_mut().next_term())))
	}
	fn inner(&mut self, t: &LocalTerm) -> Option<Res> {
		Some(Res::Num(self.inner_interpretation_mut().put(v_local(t))))
	}
	fn back(&self, r: &Res) -> Back {
		back(self, &num(r))
	}
	fn drawn(&self) -> Option<usize> {
		Some(self.generator().0)
	}
	fn finish(self: Box<Self>) -> (Option<usize>, Option<Base>) {
		let seen = self.inner_interpretation().terms.len();
		if seen % 2 == 1 {
			let n = self.generator().0;
			let i = self.into_inner_interpretation();
			assert_eq!(seen, i.terms.len());
			return (Some(n), Some(i));
		}
		let (i, g) = self.into_parts();
		assert_eq!(seen, i.terms.len());
		(Some(g.0), Some(i))
	}
}

/// The generator behind a mutable reference, refilled for every draw.
struct ByRef(WithLocalGenerator<Blank, Base>, bool);

impl Sys for ByRef {
	fn look(&self, via: Via, t: &LocalTerm) -> Option<Option<Res>> {
		opt(look_local(&self.0, via, t))
	}
	fn put(&mut self, via: Via, t: &LocalTerm, b: bool) -> Option<Res> {
		put_local(&mut self.0, via, t, b).map(|r| r.res())
	}
	fn fresh(&mut self, op: &Op) -> Option<Res> {
		if self.1 {
			// Same interpretation and generator, moved through a wrapper
			// holding the generator by mutable reference.
			let this = std::mem::replace(&mut self.0, WithLocalGenerator::new(Base::new(by_term), Blank::new()));
			let (i, mut g) = this.into_parts();
			let mut w = WithLocalGenerator::new(i, &mut g);
			let r = match op {
				Op::New => w.new_resource(),
				Op::TryNew => match w.try_new_resource() {
					Ok(r) => r,
					Err(e) => match e {},
				},
				_ => {
					let i = w.into_inner_interpretation();
					self.0 = WithLocalGenerator::new(i, g);
					return None;
				}
			};
			let i = w.into_inner_interpretation();
			self.0 = WithLocalGenerator::new(i, g);
			return Some(r.res());
		}
		Some(match op {
			Op::New => self.0.new_resource().res(),
			Op::TryNew => match self.0.try_new_resource() {
				Ok(r) => r.res(),
				Err(e) => match e {},
			},
			_ => return None,
		})
	}
	fn draw(&mut self) -> Option<T> {
		Some(v_local(&self.0.generator_mut().next_local_term()))
	}
	fn inner(&mut self, t: &LocalTerm) -> Option<Res> {
		Some(Res::Num(self.0.inner_interpretation_mut().put(v_local(t))))
	}
	fn back(&self, r: &Res) -> Back {
		back_local(&self.0, &num(r))
	}
	fn drawn(&self) -> Option<usize> {
		Some(self.0.generator().count())
	}
	fn finish(self: Box<Self>) -> (Option<usize>, Option<Base>) {
		let this = self.0;
		let n = this.inner_interpretation().terms.len();
		let c = this.generator().count();
		if self.1 {
			let g = this.into_generator();
			assert_eq!(c, g.count());
			return (Some(g.count()), None);
		}
		let (i, g) = this.into_parts();
		assert_eq!((n, c), (i.terms.len(), g.count()));
		(Some(c), Some(i))
	}
}

// -------------------------------------------------------------- exploration

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Config {
	Unit,
	LocalGen(usize),
	GenUnit,
	GenBase,
	GenAlias,
	LocalBase(bool),
	LocalAlias,
	GenOne,
	LocalOne,
}

fn make(c: Config) -> Box<dyn Sys> {
	match c {
		Config::Unit => Box::new(()),
		Config::LocalGen(n) => Box::new(LocalGeneratorInterpretation::new(Blank::new_full("g".into(), n))),
		Config::GenUnit => Box::new(WithGenerator::new((), TermGen::default())),
		Config::GenBase => Box::new(WithGenerator::new(Base::new(by_term), TermGen::default())),
		Config::GenAlias => Box::new(WithGenerator::new(Base::new(by_tail), TermGen::default())),
		Config::LocalBase(r) => Box::new(ByRef(
			WithLocalGenerator::new(Base::new(by_term), Blank::new_with_prefix("g".into())),
			r,
		)),
		Config::LocalAlias => Box::new(ByRef(
			WithLocalGenerator::new(Base::new(by_tail), Blank::new_with_prefix("g".into())),
			false,
		)),
		Config::GenOne => Box::new(WithGenerator::new(Base::new(by_none), TermGen::default())),
		Config::LocalOne => Box::new(ByRef(
			WithLocalGenerator::new(Base::new(by_none), Blank::new_with_prefix("g".into())),
			false,
		)),
	}
}

/// Reference model: which terms denote which resource, and what the
/// generator yields next.
struct Model {
	c: Config,
	base: Option<Base>,
	known: Vec<Res>,
	drawn: usize,
}

impl Model {
	fn new(c: Config) -> Self {
		let base = match c {
			Config::GenBase | Config::LocalBase(_) => Some(Base::new(by_term)),
			Config::GenAlias | Config::LocalAlias => Some(Base::new(by_tail)),
			Config::GenOne | Config::LocalOne => Some(Base::new(by_none)),
			_ => None,
		};
		Self {
			c,
			base,
			known: Vec::new(),
			drawn: 0,
		}
	}

	fn next(&mut self) -> T {
		let n = self.drawn;
		self.drawn += 1;
		match self.c {
			Config::LocalGen(o) => T::Blank(format!("_:g{}", o + n)),
			Config::LocalBase(_) | Config::LocalAlias | Config::LocalOne => T::Blank(format!("_:g{n}")),
			_ => gen_term(n),
		}
	}

	fn look(&self, t: &T) -> Option<Res> {
		match &self.base {
			Some(b) => b.get(t).map(Res::Num),
			None => Some(Res::Term(t.clone())),
		}
	}

	fn put(&mut self, t: &T) -> Res {
		let r = match &mut self.base {
			Some(b) => Res::Num(b.put(t.clone())),
			None => Res::Term(t.clone()),
		};
		if !self.known.contains(&r) {
			self.known.push(r.clone());
		}
		r
	}

	fn terms(&self, r: &Res) -> Vec<T> {
		match r {
			Res::Num(n) => self.base.as_ref().unwrap().terms[*n].clone(),
			Res::Term(t) => vec![t.clone()],
		}
	}
}

fn sorted(mut v: Vec<T>) -> Vec<T> {
	v.sort();
	v
}

fn observe(m: &Model, s: &dyn Sys, terms: &[(T, LocalTerm)], checks: &mut u64) -> Result<(), String> {
	for (t, b) in terms {
		for via in [Via::Kind, Via::Term, Via::Local, Via::Id] {
			if let Some(r) = s.look(via, b) {
				*checks += 1;
				ensure_eq!(r, m.look(t), "looking up {t:?} via {via:?}");
			}
		}
	}
	let mut rs = m.known.clone();
	if m.base.is_none() {
		rs.extend(terms.iter().map(|(t, _)| Res::Term(t.clone())));
	}
	for r in &rs {
		let b = s.back(r);
		b.driven?;
		let all = m.terms(r);
		let iris: Vec<T> = all.iter().filter(|t| matches!(t, T::Iri(_))).cloned().collect();
		let lits: Vec<T> = all.iter().filter(|t| matches!(t, T::Lit(..) | T::Lang(..))).cloned().collect();
		let blanks: Vec<T> = all.iter().filter(|t| matches!(t, T::Blank(_))).cloned().collect();
		let named: Vec<T> = iris.iter().chain(&lits).cloned().collect();
		ensure_eq!(b.anonymous, named.is_empty(), "is_anonymous of {r:?} ({all:?})");
		ensure_eq!(sorted(b.iris), sorted(iris), "IRIs of {r:?}");
		ensure_eq!(sorted(b.literals), sorted(lits), "literals of {r:?}");
		ensure_eq!(sorted(b.terms), sorted(named), "terms of {r:?}");
		if let Some(x) = b.blanks {
			ensure_eq!(sorted(x), sorted(blanks), "blank node identifiers of {r:?}");
		}
		if let Some(x) = b.locals {
			ensure_eq!(sorted(x), sorted(all), "local terms of {r:?}");
		}
		*checks += 6;
	}
	if let Some(d) = s.drawn() {
		*checks += 1;
		ensure_eq!(d, m.drawn, "terms drawn from the generator");
	}
	Ok(())
}

/// Runs a history from scratch. `Ok(false)`: the last operation is not
/// offered by the configuration.
fn run_history(c: Config, ops: &[&Op], terms: &[(T, LocalTerm)], l: &mut Local) -> Result<bool, String> {
	let mut s = make(c);
	let mut m = Model::new(c);
	for (k, op) in ops.iter().enumerate() {
		let last = k + 1 == ops.len();
		match op {
			Op::Look(via, t) => {
				let Some(r) = s.look(*via, &terms[*t].1) else { return Ok(false) };
				ensure_eq!(r, m.look(&terms[*t].0), "{op:?} {:?}", terms[*t].0);
			}
			Op::Insert(via, t, b) => {
				let Some(r) = s.put(*via, &terms[*t].1, *b) else { return Ok(false) };
				ensure_eq!(r, m.put(&terms[*t].0), "{op:?} {:?}", terms[*t].0);
			}
			Op::New | Op::TryNew | Op::ConstNew => {
				let Some(r) = s.fresh(op) else { return Ok(false) };
				let t = m.next();
				ensure_eq!(r, m.put(&t), "{op:?} generating {t:?}");
			}
			Op::Draw => {
				let Some(t) = s.draw() else { return Ok(false) };
				ensure_eq!(t, m.next(), "drawing from the generator");
			}
			Op::Inner(t) => {
				let Some(r) = s.inner(&terms[*t].1) else { return Ok(false) };
				ensure_eq!(r, m.put(&terms[*t].0), "inserting {:?} in the wrapped interpretation", terms[*t].0);
			}
		}
		if last {
			l.transitions += 1;
			let mut checks = 1;
			observe(&m, &*s, terms, &mut checks)?;
			l.checks += checks;
		}
	}
	l.states += 1;
	l.traces += 1;
	let (drawn, base) = s.finish();
	if let Some(d) = drawn {
		let offset = match c {
			Config::LocalGen(n) => n,
			_ => 0,
		};
		ensure_eq!(d, m.drawn + offset, "position of the generator taken back out");
	}
	if let (Some(b), Some(mb)) = (&base, &m.base) {
		ensure_eq!(b.terms, mb.terms, "the interpretation taken back out");
		let listed: Vec<usize> = b.resources().copied().collect();
		let tried: Vec<usize> = b
			.try_resources()
			.map(|r| match r {
				Ok(r) => *r,
				Err(e) => match e {},
			})
			.collect();
		ensure_eq!(tried, listed, "fallible listing of the resources");
		ensure!(tried.len() == mb.terms.len(), "number of resources");
	}
	l.outcome(fp(&(format!("{c:?}"), m.known.len(), m.drawn, format!("{:?}", m.base.as_ref().map(|b| &b.terms)))));
	Ok(true)
}

fn show(c: Config, ops: &[&Op], terms: &[(T, LocalTerm)]) -> String {
	let ops: Vec<String> = ops
		.iter()
		.map(|o| match o {
			Op::Look(v, t) => format!("look {:?} via {v:?}", terms[*t].0),
			Op::Insert(v, t, b) => format!("insert {:?} via {v:?} borrowed={b}", terms[*t].0),
			Op::Inner(t) => format!("insert {:?} inside", terms[*t].0),
			o => format!("{o:?}"),
		})
		.collect();
	format!("{c:?}: [{}]", ops.join(", "))
}

fn extend<'a>(
	c: Config,
	ops: &'a [Op],
	terms: &[(T, LocalTerm)],
	path: &mut Vec<&'a Op>,
	depth: usize,
	l: &mut Local,
) -> Check {
	for op in ops {
		path.push(op);
		l.case(|| show(c, path, terms));
		let r = match guard(|| run_history(c, path, terms, l)) {
			Ok(r) => r,
			Err(e) => Err(e),
		};
		match r {
			Ok(true) => {
				l.sample(|| show(c, path, terms));
				if path.len() < depth {
					extend(c, ops, terms, path, depth, l)?;
				}
			}
			Ok(false) => (),
			Err(m) => return Err(Fail::new(show(c, path, terms), m)),
		}
		path.pop();
	}
	Ok(())
}

fn run(ctx: &mut Ctx) {
	let xsd = XSD_STRING.as_str();
	let corpus: Vec<T> = vec![
		T::Iri("http://e/a".into()),
		T::Iri("http://gen/0".into()),
		T::Lit("a".into(), xsd.into()),
		T::Lang("a".into(), "en".into()),
		T::Lit("gen1".into(), xsd.into()),
		T::Blank("_:a".into()),
		T::Blank("_:g0".into()),
		T::Iri("http://e/b".into()),
		T::Lit("http://e/a".into(), "http://e/a".into()),
	];
	let terms: Vec<(T, LocalTerm)> = corpus.into_iter().map(|t| (t.clone(), build(&t))).collect();
	let mut full = Vec::new();
	for t in 0..terms.len() {
		for via in [Via::Kind, Via::Term, Via::Local, Via::Id] {
			full.push(Op::Look(via, t));
			full.push(Op::Insert(via, t, false));
			full.push(Op::Insert(via, t, true));
		}
		full.push(Op::Inner(t));
	}
	full.extend([Op::New, Op::TryNew, Op::ConstNew, Op::Draw]);
	// Reduced alphabet for deeper histories: observation after every step
	// makes explicit lookups redundant there.
	let mut small = Vec::new();
	for t in 0..7 {
		small.push(Op::Insert(if t < 5 { Via::Term } else { Via::Local }, t, t % 2 == 0));
	}
	small.extend([Op::New, Op::TryNew, Op::ConstNew, Op::Draw, Op::Inner(5)]);
	let configs = [
		Config::Unit,
		Config::LocalGen(0),
		Config::LocalGen(7),
		Config::GenUnit,
		Config::GenBase,
		Config::GenAlias,
		Config::LocalBase(false),
		Config::LocalBase(true),
		Config::LocalAlias,
	];
	// A wide corpus, shallow histories.
	let mut wide_corpus: Vec<T> = Vec::new();
	for s in [
		"http://e/", "http://e/a", "http://e/A", "http://e/a#", "http://e/a?", "http://e/a#b", "http://e/%61", "urn:a:b",
		"a:", "http://gen/0", "http://\u{e9}.e/\u{10000}", "https://e/a",
	] {
		wide_corpus.push(T::Iri(s.into()));
	}
	let values = [
		"", " ", "a", "A", "aa", "\0", "\n", "\"", "\\", "\u{e9}", "e\u{301}", "\u{10ffff}", "0", "00", "true", "http://e/a", "_:a",
		"gen1",
	];
	for v in values {
		wide_corpus.push(T::Lit(v.into(), xsd.into()));
	}
	for v in ["", "a", "0", "_:a"] {
		for t in [
			"http://e/a", "http://www.w3.org/2001/XMLSchema#integer", "http://www.w3.org/2001/XMLSchema#String",
			"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "urn:a:b",
		] {
			wide_corpus.push(T::Lit(v.into(), t.into()));
		}
		for t in ["en", "en-GB", "de", "x-a", "zh-Hant-TW", "de-CH-1901-x-phonebk"] {
			wide_corpus.push(T::Lang(v.into(), t.into()));
		}
	}
	for s in ["_:a", "_:A", "_:aa", "_:0", "_:_", "_:a.b", "_:g0", "_:g1", "_:00", "_:\u{e9}", "_:a-b"] {
		wide_corpus.push(T::Blank(s.into()));
	}
	let wide_terms: Vec<(T, LocalTerm)> = wide_corpus.into_iter().map(|t| (t.clone(), build(&t))).collect();
	let mut wide = Vec::new();
	for t in 0..wide_terms.len() {
		let via = match wide_terms[t].0 {
			T::Blank(_) => Via::Local,
			_ => Via::Term,
		};
		wide.push(Op::Insert(via, t, t % 2 == 0));
	}
	wide.extend([Op::New, Op::TryNew, Op::ConstNew]);
	let mut all_configs = configs.to_vec();
	all_configs.extend([Config::GenOne, Config::LocalOne]);
	let one = [Config::GenOne, Config::LocalOne];
	for (name, ops, depth, terms, configs) in [
		("all entry points", &full, ctx.pick(3, 3), &terms, &configs[..]),
		("insertions and fresh resources", &small, ctx.pick(5, 6), &terms, &configs[..]),
		("insertions and fresh resources, a single resource", &small, ctx.pick(4, 6), &terms, &one[..]),
		("wide corpus", &wide, ctx.pick(2, 2), &wide_terms, &all_configs[..]),
	] {
		let n = ops.len() * configs.len();
		ctx.space(&format!("{name}, histories up to length {depth}"), n, |j, l| {
			let (c, first) = (configs[j / ops.len()], j % ops.len());
			let mut path = Vec::new();
			if first == 0 {
				// The empty history.
				let m = Model::new(c);
				let s = make(c);
				let mut checks = 0;
				observe(&m, &*s, terms, &mut checks).map_err(|m| Fail::new(format!("{c:?}: []"), m))?;
				l.checks += checks;
				l.states += 1;
			}
			path.push(&ops[first]);
			l.case(|| show(c, &path, terms));
			match guard(|| run_history(c, &path, terms, l)).unwrap_or_else(Err) {
				Ok(true) => extend(c, ops, terms, &mut path, depth, l),
				Ok(false) => Ok(()),
				Err(m) => Err(Fail::new(show(c, &path, terms), m)),
			}
		});
	}
}
