pub enum Out {
    /// Property held; `true` if the case was non-trivial for the property.
    Pass(bool),
    /// The case lies outside the class the oracle covers.
    Skip,
    Fail(String),
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Number of systematically enumerated cases (quick, thorough).
    pub exhaustive: fn(bool) -> u64,
    pub exhaustive_case: fn(u64, bool) -> Vec<String>,
    /// Cap on seeded random cases (quick, thorough).
    pub random: (u64, u64),
    pub random_case: fn(&mut crate::rng::Rng) -> Vec<String>,
    pub check: fn(&[String]) -> Out,
}

pub fn none_exhaustive(_: bool) -> u64 {
    0
}
pub fn no_case(_: u64, _: bool) -> Vec<String> {
    vec![]
}

/// Enumerate all sequences over `alpha` of length 0..=max: number of them.
pub fn seq_count(alpha: usize, max: usize) -> u64 {
    (0..=max).map(|n| (alpha as u64).pow(n as u32)).sum()
}

/// The `i`th such sequence, joined.
pub fn seq_nth(alpha: &[&str], max: usize, mut i: u64) -> Vec<String> {
    for n in 0..=max {
        let c = (alpha.len() as u64).pow(n as u32);
        if i < c {
            let mut v = vec![];
            for _ in 0..n {
                v.push(alpha[(i % alpha.len() as u64) as usize].to_string());
                i /= alpha.len() as u64;
            }
            return v;
        }
        i -= c;
    }
    vec![]
}

#[macro_export]
macro_rules! fail_if {
    ($c:expr, $($a:tt)*) => { if $c { return $crate::common::Out::Fail(format!($($a)*)); } };
}
