//! Strings in their several representations.
use std::{
    borrow::{Borrow, Cow},
    collections::HashMap,
    hash::{DefaultHasher, Hash, Hasher},
};

use asciidoc_parser::strings::{CowStr, InlineStr};

use crate::{common::*, fail_if, rng::Rng};

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn reps(s: &str) -> Vec<(&'static str, CowStr<'_>)> {
    let mut v: Vec<(&'static str, CowStr<'_>)> = vec![
        ("borrowed", CowStr::from(s)),
        ("from String", CowStr::from(s.to_string())),
        ("boxed", CowStr::Boxed(s.into())),
        ("from borrowed Cow", CowStr::from(Cow::Borrowed(s))),
        ("from owned Cow", CowStr::from(Cow::<str>::Owned(s.to_string()))),
    ];
    if let Ok(i) = InlineStr::try_from(s) {
        v.push(("inlined", CowStr::Inlined(i)));
    }
    let mut cs = s.chars();
    if let (Some(c), None) = (cs.next(), cs.next()) {
        v.push(("from char", CowStr::from(c)));
        v.push(("from Cow of char", CowStr::from(Cow::<char>::Owned(c))));
        v.push(("inlined char", CowStr::Inlined(InlineStr::from(c))));
    }
    v
}

fn check(case: &[String]) -> Out {
    let [a, b] = case else { return Out::Skip };
    let max = 3 * std::mem::size_of::<isize>() - 2;
    for s in [a, b] {
        match InlineStr::try_from(s.as_str()) {
            Ok(i) => {
                fail_if!(s.len() > max, "{s:?} ({} bytes) is stored inline", s.len());
                fail_if!(&*i != s.as_str() || i.as_ref() != s || i.to_string() != *s, "{s:?} stored inline is {:?}", &*i);
                fail_if!(hash(&i) != hash(s.as_str()), "{s:?} stored inline hashes differently");
                let j = i;
                fail_if!(j != i, "{s:?} stored inline differs from its copy");
            }
            Err(_) => fail_if!(s.len() <= max, "{s:?} ({} bytes) is refused", s.len()),
        }
    }
    if let (Ok(i), Ok(j)) = (InlineStr::try_from(a.as_str()), InlineStr::try_from(b.as_str())) {
        fail_if!((i == j) != (a == b), "{a:?} == {b:?} is {} inline", i == j);
    }
    let rb = reps(b);
    for (n, x) in reps(a) {
        let all = [("", x.clone()), (" cloned", x.clone().clone())];
        fail_if!(x != all[0].1, "{n} {a:?} differs from its clone");
        for (how, y) in all.iter().chain([&("", x)]) {
            fail_if!(&**y != a.as_str(), "{n}{how} {a:?} is {:?}", &**y);
            fail_if!(y.as_ref() as &str != a.as_str() || Borrow::<str>::borrow(y) != a.as_str(), "{n}{how} {a:?} as text is {:?}", y.as_ref() as &str);
            fail_if!(format!("{y}") != *a, "{n}{how} {a:?} displays as {y}");
            fail_if!(format!("{y:#?}") != format!("{a:?}"), "{n}{how} {a:?} prints as {y:#?}");
            fail_if!(hash(y) != hash(a.as_str()), "{n}{how} {a:?} hashes differently");
            fail_if!(y.clone().into_string() != *a, "{n}{how} {a:?} becomes the string {:?}", y.clone().into_string());
            let c: Cow<'_, str> = y.clone().into();
            fail_if!(c != a.as_str(), "{n}{how} {a:?} becomes {c:?}");
            let m: HashMap<CowStr<'_>, u8> = [(y.clone(), 1)].into();
            fail_if!(m.get(a.as_str()).is_none() || (a != b && m.get(b.as_str()).is_some()), "{n}{how} {a:?} isn't found as a key");
            for (n2, z) in &rb {
                fail_if!((y == z) != (a == b), "{n}{how} {a:?} == {n2} {b:?} is {}", y == z);
            }
            for (n2, z) in &reps(a) {
                fail_if!(y != z, "{n}{how} and {n2} {a:?} differ");
            }
        }
    }
    Out::Pass(a.len() > 1)
}

const ATOMS: &[&str] = &["a", "é", "中", "🙌", "\u{0}", " "];

fn ex_count(_: bool) -> u64 {
    // Every length about the limit, one odd character at every place; and short pairs.
    26 * 27 * 6 * 3 + 43 * 43
}

fn ex_case(mut i: u64, _: bool) -> Vec<String> {
    if i < 43 * 43 {
        return vec![seq_nth(ATOMS, 2, i % 43).concat(), seq_nth(ATOMS, 2, i / 43).concat()];
    }
    i -= 43 * 43;
    let (len, at, odd, other) = (i % 26, i / 26 % 27, i / 26 / 27 % 6, i / 26 / 27 / 6);
    let mut s: String = (0..len).map(|k| (b'b' + k as u8 % 20) as char).collect();
    s.insert_str((at as usize).min(s.len()), ATOMS[odd as usize]);
    let t = match other {
        0 => s.clone(),
        1 => format!("{s}x"),
        _ => {
            let mut t = s.clone();
            t.pop();
            t
        }
    };
    vec![s, t]
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let mk = |r: &mut Rng| (0..r.range(0, 30)).map(|_| if r.pct(50) { r.pick(ATOMS).to_string() } else { char::from_u32(r.range(1, 0x2ffff) as u32).unwrap_or('x').to_string() }).collect::<String>();
    let a = mk(r);
    let b = match r.range(0, 3) {
        0 => a.clone(),
        1 => a.chars().rev().collect(),
        2 => a.chars().skip(1).collect(),
        _ => mk(r),
    };
    vec![a, b]
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "texts of every length up to 29 bytes with one odd character at every place, and random texts, in every representation; text, equality, hash, key lookup and conversions compared with the plain string's; non-trivial = longer than a byte",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (150_000, 5_000_000),
        random_case,
        check,
    }
}
