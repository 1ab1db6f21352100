//! Cases that can be written down, observations, and the interface of a check.

use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub kind: String,
    pub texts: Vec<String>,
    pub nums: Vec<u64>,
}
impl Case {
    pub fn new(kind: &str, text: &str) -> Case {
        Case { kind: kind.into(), texts: vec![text.into()], nums: vec![] }
    }
    pub fn with(kind: &str, texts: Vec<String>, nums: Vec<u64>) -> Case {
        Case { kind: kind.into(), texts, nums }
    }
    pub fn text(&self) -> &str {
        &self.texts[0]
    }
    pub fn encode(&self) -> String {
        let mut s = self.kind.clone();
        s.push('\t');
        for (i, n) in self.nums.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&n.to_string());
        }
        for t in &self.texts {
            s.push('\t');
            escape_into(t, &mut s);
        }
        s
    }
    pub fn decode(s: &str) -> Option<Case> {
        let mut it = s.split('\t');
        let kind = it.next()?.to_string();
        let nums = it.next()?;
        let nums = if nums.is_empty() { vec![] } else { nums.split(',').map(|n| n.parse().ok()).collect::<Option<Vec<u64>>>()? };
        let texts = it.map(unescape).collect::<Option<Vec<String>>>()?;
        Some(Case { kind, texts, nums })
    }
    pub fn hash(&self) -> u64 {
        let mut h = hash_str(&self.kind);
        for t in &self.texts {
            h = h.rotate_left(9) ^ hash_str(t);
        }
        for n in &self.nums {
            h = (h.rotate_left(7) ^ n).wrapping_mul(0x100_0000_01b3);
        }
        h
    }
}

pub fn escape_into(t: &str, s: &mut String) {
    for c in t.chars() {
        match c {
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            ' '..='~' => s.push(c),
            c => {
                s.push_str(&format!("\\u{{{:x}}}", c as u32));
            }
        }
    }
}
pub fn escape(t: &str) -> String {
    let mut s = String::new();
    escape_into(t, &mut s);
    s
}
pub fn unescape(t: &str) -> Option<String> {
    let mut s = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            s.push(c);
            continue;
        }
        match it.next()? {
            '\\' => s.push('\\'),
            'n' => s.push('\n'),
            'r' => s.push('\r'),
            't' => s.push('\t'),
            'u' => {
                if it.next()? != '{' {
                    return None;
                }
                let mut v = 0u32;
                loop {
                    let c = it.next()?;
                    if c == '}' {
                        break;
                    }
                    v = v * 16 + c.to_digit(16)?;
                }
                s.push(char::from_u32(v)?);
            }
            _ => return None,
        }
    }
    Some(s)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

/// What a run has actually observed.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    sample_kinds: BTreeMap<String, u64>,
    /// of the current case
    pub nontrivial: bool,
}
impl Obs {
    pub fn hit(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(what) {
            *c += n;
        } else {
            self.counts.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let what = format!("max: {}", what);
        let c = self.counts.entry(what).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn sample(&mut self, kind: &str, text: &str) {
        let c = self.sample_kinds.entry(kind.to_string()).or_insert(0);
        *c += 1;
        if c.is_power_of_two() && *c > 2 && *c < 200 && self.samples.len() < 24 {
            self.samples.push(format!("{}: {}", kind, crate::mon::clip(&escape(text), 300)));
        }
    }
}

pub struct Tier {
    pub thorough: bool,
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// Number of random cases.
    fn random(&self, t: &Tier) -> u64;
    /// Number of enumerated cases.
    fn enumerated(&self, _t: &Tier) -> u64 {
        0
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case;
    fn nth(&self, _i: u64, _t: &Tier) -> Case {
        unreachable!()
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String>;
    /// Whether any text may be put in the place of this case's.
    fn shrinks(&self, _c: &Case) -> bool {
        false
    }
}
