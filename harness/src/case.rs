//! One case = one execution of the real code under a monitor; Ctx = what the monitors observed.
use crate::model::{POpts, ROpts};
use crate::rng::{hash_str, mix, Rng};
use crate::snap::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub src: String,
    pub po: u32,
    pub ro: u32,
    pub aux: u64,
    pub tag: String,
}
impl Case {
    pub fn new(src: String, po: u32, ro: u32, aux: u64) -> Case {
        Case { src, po, ro, aux, tag: String::new() }
    }
    pub fn p(&self) -> POpts {
        POpts::from_bits(self.po)
    }
    pub fn r(&self) -> ROpts {
        ROpts::from_bits(self.ro)
    }
    pub fn rng(&self) -> Rng {
        Rng::from_parts(&[self.aux, 77])
    }
    pub fn hash(&self) -> u64 {
        mix(hash_str(&self.src, self.po as u64) ^ mix(self.ro as u64 ^ (self.aux << 9)) ^ hash_str(&self.tag, 5))
    }
    pub fn show_full(&self) -> String {
        format!("src={:?} parse={:?} render={:?} aux={} {}", self.src, on_p(self.po), on_r(self.ro), self.aux, clip(&self.tag))
    }
    pub fn show(&self) -> String {
        format!("src={:?} parse={:?} render={:?} aux={} {}", clip(&self.src), on_p(self.po), on_r(self.ro), self.aux, self.tag)
    }
}
pub fn on_p(b: u32) -> Vec<&'static str> {
    ["case_sensitive", "eq_keys", "self_closing", "fix_unclosed", "fix_endtag", "fix_lt"].iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|(_, s)| *s).collect()
}
pub fn on_r(b: u32) -> Vec<&'static str> {
    ["minify", "lowercase", "endtag_space", "attr_quote", "comment", "close_void", "decode", "encode", "inner"].iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|(_, s)| *s).collect()
}

#[derive(Default)]
pub struct Ctx {
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub quiet: bool, // while shrinking
}
impl Ctx {
    pub fn hit(&mut self, k: &'static str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        if !self.quiet && n > 0 {
            *self.counters.entry(k).or_insert(0) += n;
        }
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        if !self.quiet {
            let e = self.counters.entry(k).or_insert(0);
            *e = (*e).max(n);
        }
    }
    /// the case exercised the property for real
    pub fn nontrivial(&mut self, c: &Case) {
        if self.quiet {
            return;
        }
        if self.distinct.len() >= 3_000_000 {
            return; // counted up to here; keeps long runs in memory
        }
        if self.distinct.insert(c.hash()) && self.samples.len() < 3 && c.src.len() > 10 && c.src.len() < 300 {
            let s = c.show_full();
            self.samples.push(s);
        }
    }
    /// what kinds of constructs the monitor compared
    pub fn features(&mut self, s: &Snap) {
        if self.quiet {
            return;
        }
        let mut f = [0u64; 10];
        let mut stack: Vec<(&Snap, u64)> = vec![(s, 1)];
        let mut depth = 0;
        while let Some((n, d)) = stack.pop() {
            depth = depth.max(d);
            match n.kind {
                Kind::Tag => {
                    f[0] += 1;
                    f[1] += n.attrs.len() as u64;
                    f[2] += n.is_void as u64;
                    f[3] += n.self_closed as u64;
                    f[4] += n.content.is_some() as u64;
                }
                Kind::Text => f[5] += 1,
                Kind::Spaces => f[6] += 1,
                Kind::Comment => f[7] += 1,
                Kind::Cdata => f[8] += 1,
                Kind::Doctype => f[9] += 1,
                _ => {}
            }
            for c in &n.childs {
                stack.push((c, d + 1));
            }
        }
        for (i, k) in ["seen_elements", "seen_attributes", "seen_void", "seen_self_closed", "seen_raw_text", "seen_text", "seen_spaces", "seen_comments", "seen_cdata", "seen_doctypes"].iter().enumerate() {
            self.add(k, f[i]);
        }
        self.max("max_depth", depth);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub cpu_limit: u64, // seconds of CPU time one case may take before it counts as a hang
    pub gen: fn(u64, &mut Rng, bool) -> Case,
    pub check: fn(&Case, &mut Ctx) -> Res<()>,
    pub need: &'static [(&'static str, u64)],
    pub extra: Option<fn(&Env, &mut Ctx) -> Res<()>>,
    pub assumptions: &'static [&'static str],
    pub exhaustive: &'static str,
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub exe: std::path::PathBuf,
    pub scratch: std::path::PathBuf,
}
