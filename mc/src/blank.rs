//! C11 (blank node identifier grammar) and C17 (generators).
use crate::engine::*;
use crate::{ensure, ensure_eq, PropSpec};
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::ConstGenerativeInterpretation;
use rdf_types::{BlankId, BlankIdBuf, InvalidBlankId, LocalGenerator, LocalTerm};
use serde::de::value::{BorrowedStrDeserializer, Error as DeError, StrDeserializer, StringDeserializer};
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::borrow::{Borrow, Cow};
use std::collections::HashSet;
use std::hash::{BuildHasher, RandomState};
use std::str::FromStr;

pub fn register(v: &mut Vec<PropSpec>) {
	v.push(PropSpec {
		id: "C11",
		run: run11,
		assumptions: &[
			"every Unicode scalar value in every listed position; longer strings only over the boundary characters of every range of the grammar",
			"oracle: the BLANK_NODE_LABEL production, transcribed as a table of ranges and matched right to left",
		],
	});
	v.push(PropSpec {
		id: "C17",
		run: run17,
		assumptions: &[
			"prefixes that are themselves valid blank node labels, as the generator requires (the prefix is documented as unchecked)",
			"the UUID generators do not compile at the pinned commit and are out of scope",
		],
	});
}

// ---------------------------------------------------------------- grammar

const BASE: &[(u32, u32)] = &[
	(0x41, 0x5a),
	(0x61, 0x7a),
	(0xc0, 0xd6),
	(0xd8, 0xf6),
	(0xf8, 0x2ff),
	(0x370, 0x37d),
	(0x37f, 0x1fff),
	(0x200c, 0x200d),
	(0x2070, 0x218f),
	(0x2c00, 0x2fef),
	(0x3001, 0xd7ff),
	(0xf900, 0xfdcf),
	(0xfdf0, 0xfffd),
	(0x10000, 0xeffff),
];
const EXTRA_U: &[(u32, u32)] = &[(0x5f, 0x5f), (0x3a, 0x3a)];
const DIGIT: &[(u32, u32)] = &[(0x30, 0x39)];
const EXTRA: &[(u32, u32)] = &[(0x2d, 0x2d), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)];

fn within(t: &[(u32, u32)], c: char) -> bool {
	t.iter().any(|&(a, b)| a <= c as u32 && c as u32 <= b)
}

fn first(c: char) -> bool {
	within(BASE, c) || within(EXTRA_U, c) || within(DIGIT, c)
}

fn name(c: char) -> bool {
	first(c) || within(EXTRA, c)
}

/// `'_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?`
pub fn valid(s: &str) -> bool {
	let v: Vec<char> = s.chars().collect();
	if v.len() < 3 || v[0] != '_' || v[1] != ':' || !first(v[2]) {
		return false;
	}
	let rest = &v[3..];
	match rest.split_last() {
		None => true,
		Some((last, mid)) => name(*last) && mid.iter().all(|&c| c == '.' || name(c)),
	}
}

pub fn boundary_chars() -> Vec<char> {
	let mut v = vec!['.', ' ', '\0', '\n', '"', '\\', '/', '<', '\u{7f}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{ffff}'];
	for t in [BASE, EXTRA_U, DIGIT, EXTRA] {
		for &(a, b) in t {
			for x in [a.wrapping_sub(1), a, b, b + 1] {
				v.extend(char::from_u32(x));
			}
		}
	}
	v.sort_unstable();
	v.dedup();
	v
}

// ------------------------------------------------------------------- C11

fn check_str(s: &str, l: &mut Local, h: &RandomState) -> Result<(), String> {
	let ok = valid(s);
	l.states += 1;
	l.outcome(fp(&(ok, s.chars().take(4).map(|c| (first(c), name(c), c == '.')).collect::<Vec<_>>())));

	// BlankId::new
	l.transitions += 1;
	let r = BlankId::new(s);
	ensure_eq!(r.is_ok(), ok, "BlankId::new accepts");
	match r {
		Err(InvalidBlankId(x)) => ensure_eq!(x, s, "value handed back by BlankId::new"),
		Ok(b) => {
			ensure_eq!(b.as_str(), s, "BlankId::as_str");
			ensure_eq!(b.suffix(), &s[2..], "BlankId::suffix");
			ensure_eq!(b.to_string(), s, "BlankId as Display");
			let (r1, r2, r3): (&str, &[u8], &str) = (b.as_ref(), b.as_ref(), b.borrow());
			ensure!(r1 == s && r2 == s.as_bytes() && r3 == s, "AsRef/Borrow of BlankId change the text");
			ensure!(&**b == s && *b == *s, "Deref / comparison with str of BlankId");
			let o: BlankIdBuf = b.to_owned();
			ensure_eq!(o.as_str(), s, "BlankId::to_owned");
			ensure!(o == *b && o == b && *b == o && b == o, "owned and borrowed identifiers differ");
			let back: &BlankId = (&o).into();
			ensure_eq!(back.as_str(), s, "&BlankId from &BlankIdBuf");
			ensure_eq!(h.hash_one(b), h.hash_one(&o), "hash of owned/borrowed");
			ensure_eq!(h.hash_one(b), h.hash_one(s), "hash of BlankId / str it borrows as");
			let again = BlankIdBuf::from_suffix(b.suffix());
			ensure!(matches!(&again, Ok(x) if x.as_str() == s), "from_suffix(suffix()) is {again:?}");
			l.checks += 12;
		}
	}

	// BlankIdBuf::new
	l.transitions += 1;
	match BlankIdBuf::new(s.to_string()) {
		Err(InvalidBlankId(x)) => {
			ensure!(!ok, "BlankIdBuf::new rejects a valid identifier");
			ensure_eq!(x, s, "value handed back by BlankIdBuf::new");
		}
		Ok(b) => {
			ensure!(ok, "BlankIdBuf::new accepts an invalid identifier");
			ensure_eq!(b.as_str(), s, "BlankIdBuf::as_str");
			ensure_eq!(b.suffix(), &s[2..], "BlankIdBuf::suffix");
			ensure_eq!(b.to_string(), s, "BlankIdBuf as Display");
			ensure_eq!(b.as_blank_id_ref().as_str(), s, "as_blank_id_ref");
			let (r1, r2, r3): (&str, &[u8], &str) = (b.as_ref(), b.as_ref(), b.borrow());
			let (r4, r5): (&BlankId, &BlankId) = (b.as_ref(), b.borrow());
			ensure!(
				r1 == s && r2 == s.as_bytes() && r3 == s && r4.as_str() == s && r5.as_str() == s,
				"AsRef/Borrow of BlankIdBuf change the text"
			);
			let rb = &b;
			let (r6, r7): (&BlankId, &str) = (Borrow::<BlankId>::borrow(&rb), Borrow::<str>::borrow(&rb));
			ensure!(r6.as_str() == s && r7 == s, "Borrow of &BlankIdBuf changes the text");
			ensure_eq!(b.clone().as_str(), s, "clone");
			ensure_eq!(h.hash_one(&b), h.hash_one(s), "hash of BlankIdBuf / str it borrows as");
			ensure_eq!(
				serde_json::to_string(&b).map_err(|e| e.to_string())?,
				serde_json::to_string(s).unwrap(),
				"serialized identifier"
			);
			l.checks += 10;
		}
	}

	// FromStr, from_suffix
	l.transitions += 1;
	match BlankIdBuf::from_str(s) {
		Err(InvalidBlankId(x)) => ensure!(!ok && x == s, "from_str rejects with {x:?}"),
		Ok(b) => ensure!(ok && b.as_str() == s, "from_str accepts as {b:?}"),
	}
	if let Some(suffix) = s.strip_prefix("_:") {
		l.transitions += 1;
		match BlankIdBuf::from_suffix(suffix) {
			Err(InvalidBlankId(x)) => ensure!(!ok && x == s, "from_suffix rejects with {x:?}"),
			Ok(b) => ensure!(ok && b.as_str() == s && b.suffix() == suffix, "from_suffix accepts as {b:?}"),
		}
	}

	// Deserializers (borrowed, transient, owned).
	let ds: [Result<BlankIdBuf, DeError>; 4] = [
		BlankIdBuf::deserialize(BorrowedStrDeserializer::new(s)),
		BlankIdBuf::deserialize({
			let d: StrDeserializer<DeError> = s.into_deserializer();
			d
		}),
		BlankIdBuf::deserialize({
			let d: StringDeserializer<DeError> = s.to_string().into_deserializer();
			d
		}),
		BlankIdBuf::deserialize({
			let d: serde::de::value::CowStrDeserializer<DeError> = Cow::Borrowed(s).into_deserializer();
			d
		}),
	];
	for (i, d) in ds.iter().enumerate() {
		l.transitions += 1;
		match d {
			Ok(b) => ensure!(ok && b.as_str() == s, "deserializer {i} accepts as {b:?}"),
			Err(_) => ensure!(!ok, "deserializer {i} rejects a valid identifier"),
		}
	}
	l.transitions += 1;
	let j = serde_json::to_string(s).unwrap();
	match serde_json::from_str::<BlankIdBuf>(&j) {
		Ok(b) => ensure!(ok && b.as_str() == s, "JSON deserialization accepts as {b:?}"),
		Err(_) => ensure!(!ok, "JSON deserialization rejects a valid identifier"),
	}
	l.checks += 8;
	Ok(())
}

fn test_str(s: &str, l: &mut Local, h: &RandomState) -> Check {
	l.case(|| format!("{s:?}"));
	guard_check(|| check_str(s, l, h)).map_err(|m| Fail::new(format!("{s:?}"), m))
}

fn all_strings(prefix: &str, alpha: &[char], max: usize, l: &mut Local, h: &RandomState) -> Check {
	test_str(prefix, l, h)?;
	if max > 0 {
		for &c in alpha {
			let mut s = prefix.to_string();
			s.push(c);
			all_strings(&s, alpha, max - 1, l, h)?;
		}
	}
	Ok(())
}

fn run11(ctx: &mut Ctx) {
	let hasher = RandomState::new();
	let h = &hasher;
	// Every Unicode scalar value, in every position of an identifier.
	let forms: &[(&str, &str)] = &[
		("", ""),
		("_", ""),
		("", ":a"),
		("_", "a"),
		("_:", ""),
		("_:", "a"),
		("_:a", ""),
		("_:a", "b"),
		("_:a.", ""),
		("_:a", "."),
		("_:a.", ".b"),
		("", "_:a"),
	];
	ctx.space("every scalar value in every position", 0x1100, |j, l| {
		for x in j as u32 * 0x100..(j as u32 + 1) * 0x100 {
			let Some(c) = char::from_u32(x) else { continue };
			for (a, b) in forms {
				test_str(&format!("{a}{c}{b}"), l, h)?;
			}
			l.traces += forms.len() as u64;
		}
		l.sample(|| format!("U+{:06X}..: {} forms each", j * 0x100, forms.len()));
		Ok(())
	});
	// All strings over the boundary characters of the grammar's ranges.
	let alpha = boundary_chars();
	let n = ctx.pick(3, 4);
	ctx.space(&format!("labels of up to {n} boundary characters"), alpha.len(), |j, l| {
		all_strings(&format!("_:{}", alpha[j]), &alpha, n - 1, l, h)?;
		l.sample(|| format!("labels starting with {:?}", alpha[j]));
		Ok(())
	});
	// Longer strings over one representative per class, with broken prefixes.
	let small: Vec<char> = "_:.aA0-é\u{b7}\u{300} ".chars().collect();
	let n = ctx.pick(5, 6);
	let starts: Vec<String> = small.iter().map(|c| c.to_string()).chain([String::new()]).collect();
	ctx.space(&format!("strings of up to {n} class representatives"), starts.len(), |j, l| {
		if starts[j].is_empty() {
			return test_str("", l, h);
		}
		all_strings(&starts[j], &small, n - 1, l, h)
	});
	let labels: Vec<String> = small.iter().map(|c| format!("_:{c}")).collect();
	ctx.space(&format!("labels of up to {n} class representatives"), labels.len(), |j, l| {
		all_strings(&labels[j], &small, n - 1, l, h)
	});
	// Long labels: one odd character at each position.
	let odd: Vec<char> = vec!['.', ' ', '-', '\u{b7}', '\u{e9}', '\u{10000}', '\u{f0000}', '\u{d7}'];
	let max = ctx.pick(70, 300);
	ctx.space("long labels with one or two odd characters", max, |n, l| {
		for &o in &odd {
			for i in 0..=n {
				let mut v = vec!['b'; n];
				if i < n {
					v[i] = o;
				}
				test_str(&format!("_:{}", v.iter().collect::<String>()), l, h)?;
				if i + 1 < n {
					v[i + 1] = '.';
					test_str(&format!("_:{}", v.iter().collect::<String>()), l, h)?;
				}
			}
		}
		Ok(())
	});
	// Ordering is the one of the text.
	let pool: Vec<String> = ["_:a", "_:A", "_:a.b", "_:ab", "_:0", "_:00", "_:é", "_:_", "_::", "_:b", "_:\u{10000}", "_:\u{fffd}"]
		.iter()
		.map(|s| s.to_string())
		.collect();
	ctx.space("order of identifiers", pool.len(), |i, l| {
		let a = BlankIdBuf::new(pool[i].clone()).unwrap();
		for s in &pool {
			let b = BlankIdBuf::new(s.clone()).unwrap();
			l.states += 1;
			l.checks += 3;
			let want = pool[i].cmp(s);
			guard_check(|| {
				ensure_eq!(a.cmp(&b), want, "cmp of {a} and {b}");
				ensure_eq!(a.as_blank_id_ref().cmp(b.as_blank_id_ref()), want, "cmp of borrowed {a} and {b}");
				ensure_eq!(a == b, want.is_eq(), "equality of {a} and {b}");
				ensure_eq!(a.as_blank_id_ref() == &b, want.is_eq(), "mixed equality of {a} and {b}");
				Ok(())
			})
			.map_err(|m| Fail::new(format!("{} / {s}", pool[i]), m))?;
		}
		Ok(())
	});
	// Numeric constructors.
	ctx.space("numbered identifiers", 0x10000, |j, l| {
		let mut nums: Vec<u64> = vec![j as u64];
		if j < 64 {
			let p = 1u64 << j;
			nums.extend([p - 1, p, p + 1, u64::MAX - j as u64, u32::MAX as u64 - j as u64]);
			let mut d = 1u64;
			for _ in 0..19 {
				nums.extend([d - 1, d, d.wrapping_mul(j as u64)]);
				d = d.wrapping_mul(10);
			}
		}
		for x in nums {
			let want = format!("_:{x}");
			let case = || Fail::new(want.clone(), String::new());
			l.states += 1;
			let mut got = vec![BlankIdBuf::from_u64(x)];
			if let Ok(y) = u32::try_from(x) {
				got.push(BlankIdBuf::from_u32(y));
			}
			if let Ok(y) = u16::try_from(x) {
				got.push(BlankIdBuf::from_u16(y));
			}
			if let Ok(y) = u8::try_from(x) {
				got.push(BlankIdBuf::from_u8(y));
			}
			l.transitions += got.len() as u64;
			for g in got {
				l.checks += 1;
				if g.as_str() != want || !valid(g.as_str()) {
					return Err(Fail {
						msg: format!("number {x} gives {g}"),
						..case()
					});
				}
			}
		}
		Ok(())
	});
}

// ------------------------------------------------------------------- C17

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Via {
	Id,
	Term,
	Mut,
	Interp,
}

/// Draws one identifier.
fn draw(g: &mut Blank, via: Via) -> Result<String, String> {
	let text = |t: LocalTerm| match t.as_blank_id() {
		Some(b) => Ok(b.as_str().to_string()),
		None => Err(format!("generated term {t:?} is not a blank node")),
	};
	match via {
		Via::Id => Ok(g.next_blank_id().as_str().to_string()),
		Via::Term => text(g.next_local_term()),
		Via::Mut => {
			let mut r = &mut *g;
			text(<&mut Blank as LocalGenerator>::next_local_term(&mut r))
		}
		Via::Interp => {
			let i = LocalGeneratorInterpretation::new(&mut *g);
			text(ConstGenerativeInterpretation::new_resource(&i))
		}
	}
}

fn check_gen(prefix: &str, offset: usize, make: usize, seq: &[Via], l: &mut Local) -> Result<(), String> {
	let mut g = match make {
		0 => Blank::new_full(prefix.to_string(), offset),
		1 => Blank::new_with_offset(offset),
		2 => Blank::new_with_prefix(prefix.to_string()),
		3 => Blank::new(),
		_ => Blank::default(),
	};
	let mut seen = HashSet::new();
	let mut next: Option<usize> = Some(offset);
	l.traces += 1;
	for &via in seq {
		ensure_eq!(g.prefix(), prefix, "prefix()");
		l.states += 1;
		l.transitions += 1;
		let n = next.unwrap();
		ensure_eq!(g.count(), n, "count()");
		let r = guard(|| draw(&mut g, via));
		// The numbers `offset..usize::MAX` are available.
		if n == usize::MAX {
			match r {
				Err(_) => (),
				Ok(Ok(id)) => {
					// Using the last number is harmless, repeating one is not.
					ensure!(valid(&id), "generated {id:?} is not a valid identifier");
					ensure!(seen.insert(id.clone()), "{id} was already generated");
					for _ in 0..3 {
						if let Ok(Ok(id)) = guard(|| draw(&mut g, via)) {
							return Err(format!("exhausted generator produced {id}"));
						}
					}
				}
				Ok(Err(e)) => return Err(e),
			}
			l.checks += 1;
			// Still exhausted afterwards.
			for via in [Via::Id, Via::Term] {
				if let Ok(Ok(id)) = guard(|| draw(&mut g, via)) {
					return Err(format!("exhausted generator produced {id}"));
				}
			}
			return Ok(());
		}
		let id = r.map_err(|m| format!("at number {n}: {m}"))??;
		ensure_eq!(id, format!("_:{prefix}{n}"), "generated identifier");
		ensure!(valid(&id) && BlankId::new(&id).is_ok(), "generated {id:?} is not a valid identifier");
		ensure!(seen.insert(id.clone()), "{id} was already generated");
		l.checks += 3;
		l.outcome(fp(&(prefix, offset, seen.len())));
		next = Some(n + 1);
	}
	ensure_eq!(g.count(), next.unwrap(), "count()");
	Ok(())
}

fn run17(ctx: &mut Ctx) {
	let vias = [Via::Id, Via::Term, Via::Mut, Via::Interp];
	let depth = ctx.pick(7usize, 9);
	let prefixes = ["", "b", "_", ":", "gen-", "a.b", "é", "0", "1", "10", "\u{10000}x", "a."];
	let offsets: Vec<usize> = {
		let mut v: Vec<usize> = (0..12).collect();
		for p in [100usize, 1000, 0xff, 0xffff, 0xffff_ffff] {
			v.extend([p - 1, p, p + 1, p - 3]);
		}
		v.extend((0..=depth + 2).map(|i| usize::MAX - i));
		for b in [7, 8, 15, 16, 31, 32, 62, 63] {
			v.extend([(1usize << b) - 2, 1 << b]);
		}
		v.sort_unstable();
		v.dedup();
		v
	};
	let seqs: Vec<Vec<Via>> = {
		let mut v: Vec<Vec<Via>> = vec![vec![]];
		for _ in 0..depth {
			v = v
				.into_iter()
				.flat_map(|s| {
					vias.iter().map(move |&x| {
						let mut s = s.clone();
						s.push(x);
						s
					})
				})
				.collect();
		}
		v
	};
	let n = prefixes.len() * offsets.len();
	ctx.space(&format!("all call sequences of length {depth} from every prefix and offset"), n, |j, l| {
		let (p, o) = (prefixes[j / offsets.len()], offsets[j % offsets.len()]);
		for make in 0..5 {
			if (matches!(make, 1 | 3 | 4) && !p.is_empty()) || (make >= 2 && o != 0) {
				continue;
			}
			for seq in &seqs {
				let case = || format!("Blank (constructor {make}) prefix {p:?} offset {o}: {seq:?}");
				l.case(case);
				guard_check(|| check_gen(p, o, make, seq, l)).map_err(|m| Fail::new(case(), m))?;
			}
		}
		l.sample(|| format!("prefix {p:?}, offset {o}: {} call sequences", seqs.len()));
		Ok(())
	});
	let len = ctx.pick(200_000usize, 3_000_000);
	ctx.space(&format!("long runs of {len} identifiers"), 8, |j, l| {
		let (p, o) = [("", 0), ("b", 0), ("", 95), ("x1", 0), ("", 65000), ("é", 9), ("_:", 4294967000), ("", usize::MAX - len)][j];
		let seq: Vec<Via> = (0..len).map(|i| vias[i % vias.len()]).collect();
		let case = format!("long run, prefix {p:?} offset {o}");
		l.case(|| case.clone());
		guard_check(|| check_gen(p, o, 0, &seq, l)).map_err(|m| Fail::new(case, m))
	});
	// The generator moved in and out of an interpretation keeps its place.
	ctx.space("generator recovered from the interpretation", 64, |j, l| {
		let (a, b) = (j / 8, j % 8);
		l.states += 1;
		guard_check(|| {
			let mut g = Blank::new_full("g".into(), 5);
			let mut n = 5;
			for _ in 0..a {
				ensure_eq!(g.next_blank_id().as_str(), format!("_:g{n}"), "direct");
				n += 1;
			}
			let i = LocalGeneratorInterpretation::new(g);
			for _ in 0..b {
				let r = i.new_resource();
				ensure_eq!(r.as_blank_id().map(|b| b.as_str().to_string()), Some(format!("_:g{n}")), "new_resource");
				n += 1;
			}
			let mut g = i.into_generator();
			ensure_eq!(g.count(), n, "count of the recovered generator");
			ensure_eq!(g.prefix(), "g", "prefix of the recovered generator");
			ensure_eq!(g.next_blank_id().as_str(), format!("_:g{n}"), "recovered generator");
			l.transitions += (a + b) as u64 + 1;
			l.checks += (a + b) as u64 + 3;
			Ok(())
		})
		.map_err(|m| Fail::new(format!("{a} direct draws, {b} through the interpretation"), m))
	});
}
