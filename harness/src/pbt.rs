//! A small property-based testing engine.
//!
//! Every random decision of a generator is one bounded draw (`Src::below`) recorded in a list (the
//! "choices"). A case is a pure function of its choices and of the code under test, so replaying a
//! list replays the case, and shrinking a case means editing the list. Zero is always the simplest
//! decision.

use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x1234_5678_9abc_def1);
    let mut acc = 0u64;
    for p in parts {
        r.0 ^= *p;
        acc = r.next();
        r.0 ^= acc.rotate_left(17);
    }
    acc
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    mix(&[h, s.len() as u64])
}

enum Mode {
    Rand(Rng),
    Replay(Vec<u32>, usize),
    Bytes(Vec<u8>, usize),
}

/// Source of the decisions of one case
pub struct Src {
    mode: Mode,
    pub rec: Vec<u32>,
    log: Option<File>,
}

const MAX_DRAWS: usize = 400_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Rand(Rng::new(seed)), rec: vec![], log: None }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { mode: Mode::Replay(choices, 0), rec: vec![], log: None }
    }
    pub fn bytes(data: &[u8]) -> Self {
        Src { mode: Mode::Bytes(data.to_vec(), 0), rec: vec![], log: None }
    }
    /// write every draw at once to a file, to know the choices of a case that kills the process
    pub fn log_to(mut self, f: File) -> Self {
        self.log = Some(f);
        self
    }

    /// a number in 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if self.rec.len() >= MAX_DRAWS {
            0
        } else {
            match &mut self.mode {
                Mode::Rand(r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
                Mode::Replay(d, i) => {
                    let v = d.get(*i).copied().unwrap_or(0);
                    *i += 1;
                    v.min(n - 1)
                }
                Mode::Bytes(d, i) => {
                    let mut v = 0u32;
                    let nbytes = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 4 };
                    for _ in 0..nbytes {
                        v = (v << 8) | d.get(*i).copied().unwrap_or(0) as u32;
                        *i += 1;
                    }
                    v % n
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    /// index chosen with the given weights (put the simplest first)
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// 0,1,2,... with geometric tail (continue with probability num/den), at most max
    pub fn geo(&mut self, num: u32, den: u32, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(num, den) {
            n += 1;
        }
        n
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 keeps the order
            let j = i - self.below(i as u32 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// What a case tells about itself
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub hashes: Vec<u64>,
    pub want_desc: bool,
    pub desc: String,
    pub tier: Tier,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Ctx {
    pub fn new(tier: Tier, want_desc: bool) -> Self {
        Ctx { labels: BTreeMap::new(), evals: 0, hashes: vec![], want_desc, desc: String::new(), tier }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            let s = f();
            self.desc.push_str(&s);
            self.desc.push('\n');
        }
    }
    /// one evaluation; `key` identifies the case among all, when it is non-trivial
    pub fn eval(&mut self, nontrivial: bool, key: u64) {
        self.evals += 1;
        if nontrivial {
            self.hashes.push(key);
        }
    }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

/// The description and failure of a case given by its choices
pub fn run_choices(f: CaseFn, choices: &[u32], tier: Tier, want: bool) -> (CaseResult, Vec<u32>, Ctx) {
    let mut src = Src::replay(choices.to_vec());
    let mut ctx = Ctx::new(tier, want);
    let r = f(&mut src, &mut ctx);
    (r, src.rec, ctx)
}

fn simpler(a: &[u32], b: &[u32]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Shrink a failing list of choices. `fails` says whether a list still fails and gives the choices
/// that were really used.
pub fn shrink<F: FnMut(&[u32]) -> Option<Vec<u32>>>(start: Vec<u32>, max_tries: usize, mut fails: F) -> Vec<u32> {
    let mut best = start;
    let mut tries = 0;
    // drop a trailing run of zeros: they are implied
    let strip = |mut v: Vec<u32>| {
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    best = strip(best);
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && tries < max_tries {
            let mut i = 0;
            while i < best.len() && tries < max_tries {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                tries += 1;
                match fails(&c).map(strip) {
                    Some(used) if simpler(&used, &best) => best = used,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        for size in [32usize, 8, 3] {
            let mut i = 0;
            while i < best.len() && tries < max_tries {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    tries += 1;
                    if let Some(used) = fails(&c).map(strip) {
                        if simpler(&used, &best) {
                            best = used;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && tries < max_tries {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u32;
                for cand in [0, v / 2, v - 1] {
                    if cand >= v || cand < lo {
                        continue;
                    }
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = cand;
                    tries += 1;
                    if let Some(used) = fails(&c).map(strip) {
                        if simpler(&used, &best) {
                            best = used;
                            break;
                        }
                    }
                    lo = cand;
                }
            }
            // lower a value and delete the next draws: sizes come before their elements
            if i + 1 < best.len() && best[i] > 0 && tries < max_tries {
                for k in [1usize, 2, 4] {
                    if i + 1 + k > best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    tries += 1;
                    if let Some(used) = fails(&c).map(strip) {
                        if simpler(&used, &best) {
                            best = used;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || tries >= max_tries {
            return best;
        }
    }
}
