//! The reference side: grammars, trees, a reference PEG interpreter, reference tree operations.
//! Nothing here calls the code under test, apart from the conversions at the end.

use crate::pbt::Src;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum G {
    Lit(String),
    Class(String, Vec<(char, char)>),
    Dot,
    Eof,
    Err(String),
    Seq(Vec<G>),
    Alt(Vec<G>),
    Not(Box<G>),
    Rep(Box<G>, usize, Option<usize>),
    Ref(String),
}

pub type Rules = BTreeMap<String, G>;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum T {
    Val(String),
    Rule(String, Vec<T>),
    Eof,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum F {
    Val(String),
    Begin(String),
    End(String),
    Eof,
}

pub fn lit(s: &str) -> G {
    G::Lit(s.to_string())
}
pub fn rf(s: &str) -> G {
    G::Ref(s.to_string())
}
pub fn rep(g: G, m: usize, mx: Option<usize>) -> G {
    G::Rep(Box::new(g), m, mx)
}
pub fn not(g: G) -> G {
    G::Not(Box::new(g))
}
pub fn class(s: &str, r: &[(char, char)]) -> G {
    G::Class(s.to_string(), r.to_vec())
}
pub fn err(s: &str) -> G {
    G::Err(s.to_string())
}
pub fn rules(rs: &[(&str, G)]) -> Rules {
    rs.iter().map(|(n, g)| (n.to_string(), g.clone())).collect()
}

impl G {
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a G)) {
        f(self);
        match self {
            G::Seq(v) | G::Alt(v) => v.iter().for_each(|g| g.walk(f)),
            G::Not(g) => g.walk(f),
            G::Rep(g, _, _) => g.walk(f),
            _ => {}
        }
    }
    pub fn size(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            G::Seq(v) | G::Alt(v) => v.iter().map(|g| g.depth()).max().unwrap_or(0),
            G::Not(g) => g.depth(),
            G::Rep(g, _, _) => g.depth(),
            _ => 0,
        }
    }
    pub fn map(&self, f: &mut dyn FnMut(G) -> G) -> G {
        let g = match self {
            G::Seq(v) => G::Seq(v.iter().map(|g| g.map(f)).collect()),
            G::Alt(v) => G::Alt(v.iter().map(|g| g.map(f)).collect()),
            G::Not(g) => G::Not(Box::new(g.map(f))),
            G::Rep(g, m, x) => G::Rep(Box::new(g.map(f)), *m, *x),
            g => g.clone(),
        };
        f(g)
    }
}

/// A compact notation, for samples and replay files
pub fn show_g(g: &G) -> String {
    let list = |v: &Vec<G>| v.iter().map(show_g).collect::<Vec<_>>().join(", ");
    match g {
        G::Lit(s) => format!("{:?}", s),
        G::Class(c, r) => format!("[{:?}{}]", c, r.iter().map(|(a, b)| format!(" {:?}-{:?}", a, b)).collect::<String>()),
        G::Dot => ".".into(),
        G::Eof => "EOF".into(),
        G::Err(m) => format!("error({:?})", m),
        G::Seq(v) => format!("and({})", list(v)),
        G::Alt(v) => format!("or({})", list(v)),
        G::Not(g) => format!("not({})", show_g(g)),
        G::Rep(g, m, x) => format!("rep({},{},{})", show_g(g), m, x.map(|x| x.to_string()).unwrap_or("inf".into())),
        G::Ref(n) => format!("ref({:?})", n),
    }
}
pub fn show_rules(r: &Rules) -> String {
    clip(&r.iter().map(|(n, g)| format!("{:?} => {}", n, show_g(g))).collect::<Vec<_>>().join("; "), 4000)
}
pub fn show_t(t: &T) -> String {
    match t {
        T::Val(v) => format!("{:?}", v),
        T::Eof => "EOF".into(),
        T::Rule(n, v) => format!("{:?}({})", n, v.iter().map(show_t).collect::<Vec<_>>().join(" ")),
    }
}
pub fn clip(s: &str, max: usize) -> String {
    if s.chars().count() <= max {
        s.to_string()
    } else {
        format!("{}...({} chars)", s.chars().take(max).collect::<String>(), s.chars().count())
    }
}

//-----------------------------------------------------------------------
//  reference interpreter

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Why {
    Lit(String),
    Class,
    Dot,
    Eof,
    Not,
    Error(String),
    Missing(String),
    NoAlternative,
    NotConsumed,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub n: usize,
    pub why: Why,
    pub trace: Trace,
}
impl Fail {
    pub fn critical(&self) -> bool {
        matches!(self.why, Why::Error(_) | Why::Missing(_))
    }
    pub fn trace_names(&self) -> Vec<String> {
        let mut v = vec![];
        let mut t = &self.trace;
        while let Some(c) = t {
            v.push(c.name.to_string());
            t = &c.prev;
        }
        v.reverse();
        v
    }
}
pub struct Cons {
    name: Rc<str>,
    prev: Trace,
}
impl std::fmt::Debug for Cons {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.name)
    }
}
impl Drop for Cons {
    fn drop(&mut self) {
        // long traces must not need a deep stack
        let mut p = self.prev.take();
        while let Some(rc) = p {
            match Rc::try_unwrap(rc) {
                Ok(mut c) => p = c.prev.take(),
                Err(_) => break,
            }
        }
    }
}
pub type Trace = Option<Rc<Cons>>;

#[derive(Clone)]
struct St {
    pos: usize,
    pot: Option<Rc<Fail>>,
    trace: Trace,
}

enum Stop {
    Fail(Fail),
    Abort,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub backtracks: u64,
    pub iterations: u64,
    pub empty_iterations: u64,
    pub lookaheads: u64,
    pub refs: u64,
    pub max_depth: u64,
    pub crit: u64,
    pub eof_hits: u64,
    pub swallowed: u64,
    /// failures made
    pub fails: u64,
    /// the longest literal, class, name or message met, in bytes
    pub literal: u64,
}
impl Stats {
    /// parse, and parse_debug unless it is too slow here (each step copies the names of the rules entered before)
    pub fn modes(&self, most: u64) -> &'static [bool] {
        if self.steps.saturating_mul(self.refs) <= most {
            &[false, true]
        } else {
            &[false]
        }
    }
}
/// most failures x line length for one call
pub const MOST_COPIED: u64 = 2 << 30;
/// most steps x rule references for parse_debug
pub const DEBUG_COST: u64 = 10_000_000;

#[derive(Clone, Debug)]
pub enum Out {
    Tree(T),
    Fail(Fail),
    /// more work than the limit: the case is not used
    Abort,
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Tree(_))
    }
}

pub struct Interp<'a> {
    rules: &'a Rules,
    text: &'a [char],
    limit: u64,
    depth_limit: u64,
    depth: u64,
    pub stats: Stats,
}

pub const STEPS: u64 = 30_000;

impl<'a> Interp<'a> {
    pub fn new(rules: &'a Rules, text: &'a [char], limit: u64) -> Self {
        Interp { rules, text, limit, depth_limit: 3000, depth: 0, stats: Stats::default() }
    }

    /// parse the whole text from a rule
    pub fn run(&mut self, start: &str) -> Out {
        let st = St { pos: 0, pot: None, trace: None };
        match self.rule(start, st) {
            Err(Stop::Abort) => Out::Abort,
            Err(Stop::Fail(f)) => Out::Fail(f),
            Ok((st, tree)) => {
                if st.pos == self.text.len() {
                    Out::Tree(tree)
                } else if let Some(p) = st.pot {
                    Out::Fail((*p).clone())
                } else {
                    Out::Fail(Fail { n: st.pos, why: Why::NotConsumed, trace: st.trace })
                }
            }
        }
    }

    fn rule(&mut self, name: &str, mut st: St) -> Result<(St, T), Stop> {
        self.stats.refs += 1;
        st.trace = Some(Rc::new(Cons { name: Rc::from(name), prev: st.trace.take() }));
        let rules = self.rules;
        let g = match rules.get(name) {
            None => return self.fail(st.pos, Why::Missing(name.to_string()), &st),
            Some(g) => g,
        };
        let mut kids = vec![];
        let st = self.expr(g, st, &mut kids)?;
        Ok((st, T::Rule(name.to_string(), kids)))
    }

    fn fail<X>(&mut self, n: usize, why: Why, st: &St) -> Result<X, Stop> {
        self.stats.fails += 1;
        let f = Fail { n, why, trace: st.trace.clone() };
        if f.critical() {
            self.stats.crit += 1;
        }
        Err(Stop::Fail(f))
    }

    fn expr(&mut self, g: &G, st: St, out: &mut Vec<T>) -> Result<St, Stop> {
        self.stats.steps += 1;
        self.depth += 1;
        self.stats.max_depth = self.stats.max_depth.max(self.depth);
        if self.stats.steps > self.limit || self.depth > self.depth_limit {
            self.depth -= 1;
            return Err(Stop::Abort);
        }
        let r = self.expr_in(g, st, out);
        self.depth -= 1;
        r
    }

    fn expr_in(&mut self, g: &G, mut st: St, out: &mut Vec<T>) -> Result<St, Stop> {
        let size = match g {
            G::Lit(s) | G::Err(s) | G::Ref(s) => s.len(),
            G::Class(cs, rs) => cs.len() + 10 * rs.len(),
            _ => 0,
        };
        self.stats.literal = self.stats.literal.max(size as u64);
        match g {
            G::Lit(s) => {
                let mut p = st.pos;
                for c in s.chars() {
                    self.stats.steps += 1;
                    match self.text.get(p) {
                        Some(x) if *x == c => p += 1,
                        Some(_) => return self.fail(p + 1, Why::Lit(s.clone()), &st),
                        None => return self.fail(p, Why::Lit(s.clone()), &st),
                    }
                }
                st.pos = p;
                out.push(T::Val(s.clone()));
                Ok(st)
            }
            G::Class(cs, rs) => match self.text.get(st.pos) {
                None => self.fail(st.pos, Why::Class, &st),
                Some(&c) => {
                    if in_class(c, cs, rs) {
                        st.pos += 1;
                        out.push(T::Val(c.to_string()));
                        Ok(st)
                    } else {
                        self.fail(st.pos + 1, Why::Class, &st)
                    }
                }
            },
            G::Dot => match self.text.get(st.pos) {
                None => self.fail(st.pos, Why::Dot, &st),
                Some(&c) => {
                    st.pos += 1;
                    out.push(T::Val(c.to_string()));
                    Ok(st)
                }
            },
            G::Eof => {
                if st.pos == self.text.len() {
                    self.stats.eof_hits += 1;
                    out.push(T::Eof);
                    Ok(st)
                } else {
                    self.fail(st.pos + 1, Why::Eof, &st)
                }
            }
            G::Err(m) => self.fail(st.pos, Why::Error(m.clone()), &st),
            G::Seq(v) => {
                for g in v {
                    st = self.expr(g, st, out)?;
                }
                Ok(st)
            }
            G::Alt(v) => {
                let mut best: Option<Fail> = None;
                let mark = out.len();
                for g in v {
                    match self.expr(g, st.clone(), out) {
                        Ok(s) => return Ok(s),
                        Err(Stop::Abort) => return Err(Stop::Abort),
                        Err(Stop::Fail(f)) => {
                            out.truncate(mark);
                            if f.critical() {
                                return Err(Stop::Fail(f));
                            }
                            self.stats.backtracks += 1;
                            best = match best {
                                Some(b) if b.n > f.n => Some(b),
                                _ => Some(f),
                            };
                        }
                    }
                }
                match best {
                    Some(f) => Err(Stop::Fail(f)),
                    None => self.fail(st.pos, Why::NoAlternative, &st),
                }
            }
            G::Not(g) => {
                self.stats.lookaheads += 1;
                let mut scratch = vec![];
                match self.expr(g, st.clone(), &mut scratch) {
                    Err(Stop::Abort) => Err(Stop::Abort),
                    Ok(_) => self.fail(st.pos, Why::Not, &st),
                    Err(Stop::Fail(f)) => {
                        if f.critical() {
                            self.stats.swallowed += 1;
                        }
                        Ok(st)
                    }
                }
            }
            G::Rep(g, min, max) => {
                let mut count = 0usize;
                if *max == Some(0) {
                    return Ok(st);
                }
                loop {
                    let mark = out.len();
                    match self.expr(g, st.clone(), out) {
                        Err(Stop::Abort) => return Err(Stop::Abort),
                        Err(Stop::Fail(f)) => {
                            out.truncate(mark);
                            if f.critical() || count < *min {
                                return Err(Stop::Fail(f));
                            }
                            st.pot = Some(Rc::new(f));
                            return Ok(st);
                        }
                        Ok(s) => {
                            count += 1;
                            self.stats.iterations += 1;
                            let stuck = s.pos == st.pos;
                            if stuck {
                                self.stats.empty_iterations += 1;
                            }
                            st = s;
                            if Some(count) == *max || (stuck && count >= *min) {
                                return Ok(st);
                            }
                        }
                    }
                }
            }
            G::Ref(n) => {
                let (s, t) = self.rule(n, st)?;
                out.push(t);
                Ok(s)
            }
        }
    }
}

pub fn in_class(c: char, cs: &str, rs: &[(char, char)]) -> bool {
    cs.chars().any(|x| x == c) || rs.iter().any(|(a, b)| *a <= c && c <= *b)
}

/// What parse(text, rules) has to give
pub fn reference(rules: &Rules, text: &str) -> (Out, Stats) {
    reference_from(rules, text, "main", STEPS)
}
/// for large cases
pub fn reference_large(rules: &Rules, text: &str, limit: u64) -> (Out, Stats) {
    let chars: Vec<char> = text.chars().collect();
    let mut i = Interp::new(rules, &chars, limit);
    i.depth_limit = 20_000;
    let o = i.run("main");
    // each failure copies its line: too much for the budgets of one call
    let line = text.split('\n').map(|l| l.len()).max().unwrap_or(0) as u64;
    if i.stats.fails.saturating_mul(line + i.stats.literal) > MOST_COPIED {
        return (Out::Abort, i.stats);
    }
    (o, i.stats)
}
pub fn reference_from(rules: &Rules, text: &str, start: &str, limit: u64) -> (Out, Stats) {
    let chars: Vec<char> = text.chars().collect();
    let mut i = Interp::new(rules, &chars, limit);
    let o = i.run(start);
    (o, i.stats)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Loc {
    pub n: usize,
    pub row: usize,
    pub col: usize,
    pub start_line: usize,
    pub before: String,
    pub after: String,
}
/// The location fields of position n of the text
pub fn location(text: &str, n: usize) -> Loc {
    let cs: Vec<char> = text.chars().collect();
    let n2 = n.min(cs.len());
    let head = &cs[..n2];
    let start_line = head.iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
    let start_col = head.iter().rposition(|c| *c == '\n' || *c == '\r').map_or(0, |i| i + 1);
    Loc {
        n,
        row: head.iter().filter(|c| **c == '\n').count(),
        col: n2 - start_col,
        start_line,
        before: head[start_line..].iter().collect(),
        after: cs[n2..].iter().take_while(|c| **c != '\n' && **c != '\r').collect(),
    }
}

//-----------------------------------------------------------------------
//  reference tree operations

pub fn leaves(t: &T, out: &mut Vec<T>) {
    match t {
        T::Rule(_, v) => v.iter().for_each(|t| leaves(t, out)),
        t => out.push(t.clone()),
    }
}
pub fn leaf_text(t: &T) -> String {
    let mut v = vec![];
    leaves(t, &mut v);
    v.iter().map(|t| if let T::Val(s) = t { s.as_str() } else { "" }).collect()
}
pub fn t_size(t: &T) -> usize {
    match t {
        T::Rule(_, v) => 1 + v.iter().map(t_size).sum::<usize>(),
        _ => 1,
    }
}

pub fn t_compact(t: &T) -> T {
    match t {
        T::Rule(n, v) => {
            let mut out = vec![];
            let mut run: Option<String> = None;
            for k in v {
                match k {
                    T::Val(s) => run = Some(run.unwrap_or_default() + s),
                    k => {
                        if let Some(r) = run.take() {
                            out.push(T::Val(r));
                        }
                        out.push(t_compact(k));
                    }
                }
            }
            if let Some(r) = run {
                out.push(T::Val(r));
            }
            T::Rule(n.clone(), out)
        }
        t => t.clone(),
    }
}
pub fn t_prune(t: &T, names: &[&str]) -> T {
    match t {
        T::Rule(n, v) => T::Rule(
            n.clone(),
            v.iter()
                .filter(|k| if let T::Rule(kn, _) = k { !names.iter().any(|x| x == kn) } else { true })
                .map(|k| t_prune(k, names))
                .collect(),
        ),
        t => t.clone(),
    }
}
pub fn t_pass(t: &T, keep: &[&str]) -> T {
    fn kids(v: &[T], keep: &[&str], out: &mut Vec<T>) {
        for k in v {
            match k {
                T::Rule(n, kv) if !keep.iter().any(|x| x == n) => kids(kv, keep, out),
                k => out.push(t_pass(k, keep)),
            }
        }
    }
    match t {
        T::Rule(n, v) => {
            let mut out = vec![];
            kids(v, keep, &mut out);
            T::Rule(n.clone(), out)
        }
        t => t.clone(),
    }
}
pub fn t_flatten(t: &T) -> Vec<F> {
    fn go(t: &T, out: &mut Vec<F>) {
        match t {
            T::Val(s) => out.push(F::Val(s.clone())),
            T::Eof => out.push(F::Eof),
            T::Rule(n, v) => {
                out.push(F::Begin(n.clone()));
                v.iter().for_each(|k| go(k, out));
                out.push(F::End(n.clone()));
            }
        }
    }
    let mut v = vec![];
    go(t, &mut v);
    v
}
/// rebuild a tree from its flat form
pub fn t_unflatten(v: &[F]) -> Option<T> {
    let mut stack: Vec<(String, Vec<T>)> = vec![];
    let mut done: Option<T> = None;
    for f in v {
        if done.is_some() {
            return None;
        }
        let node = match f {
            F::Begin(n) => {
                stack.push((n.clone(), vec![]));
                continue;
            }
            F::End(n) => {
                let (b, kids) = stack.pop()?;
                if b != *n {
                    return None;
                }
                T::Rule(b, kids)
            }
            F::Val(s) => T::Val(s.clone()),
            F::Eof => T::Eof,
        };
        match stack.last_mut() {
            Some((_, k)) => k.push(node),
            None => done = Some(node),
        }
    }
    if stack.is_empty() {
        done
    } else {
        None
    }
}

//-----------------------------------------------------------------------
//  properties of grammars

/// rules that may succeed without consuming, expressions likewise (missing rules count as nullable)
pub struct Nullable(BTreeMap<String, bool>);
impl Nullable {
    pub fn new(rules: &Rules) -> Self {
        let mut m: BTreeMap<String, bool> = rules.keys().map(|k| (k.clone(), false)).collect();
        loop {
            let cur = Nullable(m.clone());
            let next: BTreeMap<String, bool> = rules.iter().map(|(k, g)| (k.clone(), cur.expr(g))).collect();
            if next == m {
                return cur;
            }
            m = next;
        }
    }
    pub fn expr(&self, g: &G) -> bool {
        match g {
            G::Lit(s) => s.is_empty(),
            G::Class(..) | G::Dot => false,
            G::Eof | G::Not(_) | G::Err(_) => true,
            G::Seq(v) => v.iter().all(|g| self.expr(g)),
            G::Alt(v) => v.iter().any(|g| self.expr(g)),
            G::Rep(g, m, x) => *m == 0 || *x == Some(0) || self.expr(g),
            G::Ref(n) => self.0.get(n).copied().unwrap_or(true),
        }
    }
}

/// true when some rule can reach itself without consuming a character
pub fn left_recursive(rules: &Rules) -> bool {
    let nl = Nullable::new(rules);
    fn first<'a>(g: &'a G, nl: &Nullable, out: &mut BTreeSet<&'a str>) {
        match g {
            G::Seq(v) => {
                for g in v {
                    first(g, nl, out);
                    if !nl.expr(g) {
                        break;
                    }
                }
            }
            G::Alt(v) => v.iter().for_each(|g| first(g, nl, out)),
            G::Not(g) => first(g, nl, out),
            G::Rep(g, _, _) => first(g, nl, out),
            G::Ref(n) => {
                out.insert(n);
            }
            _ => {}
        }
    }
    let mut edges: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for (n, g) in rules {
        let mut s = BTreeSet::new();
        first(g, &nl, &mut s);
        edges.insert(n, s);
    }
    for start in rules.keys() {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<&str> = edges[start.as_str()].iter().copied().collect();
        while let Some(x) = todo.pop() {
            if x == start {
                return true;
            }
            if seen.insert(x) {
                if let Some(e) = edges.get(x) {
                    todo.extend(e.iter().copied());
                }
            }
        }
    }
    false
}

/// the characters mentioned in a grammar (and, for ranges, just inside and outside of the ends)
pub fn alphabet(rules: &Rules) -> Vec<char> {
    let mut s = BTreeSet::new();
    for g in rules.values() {
        g.walk(&mut |g| match g {
            G::Lit(l) => s.extend(l.chars().take(50)),
            G::Class(c, r) => {
                s.extend(c.chars().take(200));
                for (a, b) in r.iter().take(60) {
                    for c in [*a, *b] {
                        s.insert(c);
                        s.extend(char::from_u32((c as u32).wrapping_sub(1)));
                        s.extend(char::from_u32(c as u32 + 1));
                    }
                }
            }
            _ => {}
        });
    }
    s.into_iter().collect()
}

/// A text that the expression probably matches
pub fn sample(rules: &Rules, g: &G, src: &mut Src, extra: &[char], max: usize) -> String {
    let mut out = String::new();
    sample_in(rules, g, src, extra, max, (0, &mut 100_000), &mut out);
    out
}
/// `left`: a text may stay short however many expressions are gone through
fn sample_in(rules: &Rules, g: &G, src: &mut Src, extra: &[char], max: usize, (depth, left): (usize, &mut u32), out: &mut String) {
    if out.len() > max || depth > 60 || *left == 0 {
        return;
    }
    *left -= 1;
    match g {
        G::Lit(s) => out.push_str(s),
        G::Class(cs, rs) => out.extend(class_char(cs, rs, src)),
        G::Dot => {
            if extra.is_empty() {
                out.push(*src.pick(&['a', 'b', '\n', 'é']))
            } else {
                out.push(*src.pick(extra))
            }
        }
        G::Eof | G::Err(_) | G::Not(_) => {}
        G::Seq(v) => v.iter().for_each(|g| sample_in(rules, g, src, extra, max, (depth + 1, left), out)),
        G::Alt(v) => {
            if !v.is_empty() {
                let i = src.below(v.len() as u32) as usize;
                sample_in(rules, &v[i], src, extra, max, (depth + 1, left), out)
            }
        }
        G::Rep(g, m, x) => {
            let extra_n = if depth > 12 { 0 } else { src.geo(1, 2, 12) };
            let n = m.saturating_add(extra_n).min(x.unwrap_or(usize::MAX)).min(70_000);
            for _ in 0..n {
                if out.len() > max {
                    break;
                }
                let before = out.len();
                sample_in(rules, g, src, extra, max, (depth + 1, left), out);
                if out.len() == before {
                    break;
                }
            }
        }
        G::Ref(n) => {
            if let Some(g) = rules.get(n) {
                sample_in(rules, g, src, extra, max, (depth + 1, left), out)
            }
        }
    }
}
fn class_char(cs: &str, rs: &[(char, char)], src: &mut Src) -> Option<char> {
    let k = cs.chars().count();
    if k + rs.len() == 0 {
        return None;
    }
    let i = src.below((k + rs.len()) as u32) as usize;
    if i < k {
        return cs.chars().nth(i);
    }
    let (a, b) = rs[i - k];
    if a > b {
        return Some(a);
    }
    match src.below(4) {
        0 => Some(a),
        1 => Some(b),
        _ => {
            let w = b as u32 - a as u32;
            char::from_u32(a as u32 + src.below(w + 1)).or(Some(b))
        }
    }
}

//-----------------------------------------------------------------------
//  equivalence of grammars

/// nested sequences and choices flattened, classes as sorted sets
pub fn normalise(g: &G) -> G {
    g.map(&mut |g| match g {
        G::Seq(v) => {
            let mut out = vec![];
            for g in v {
                match g {
                    G::Seq(w) => out.extend(w),
                    g => out.push(g),
                }
            }
            if out.len() == 1 {
                out.pop().unwrap()
            } else {
                G::Seq(out)
            }
        }
        G::Alt(v) => {
            let mut out = vec![];
            for g in v {
                match g {
                    G::Alt(w) if !w.is_empty() => out.extend(w),
                    g => out.push(g),
                }
            }
            if out.len() == 1 {
                out.pop().unwrap()
            } else {
                G::Alt(out)
            }
        }
        G::Class(cs, rs) => {
            let mut iv: Vec<(u32, u32)> = cs.chars().map(|c| (c as u32, c as u32)).collect();
            iv.extend(rs.iter().filter(|(a, b)| a <= b).map(|(a, b)| (*a as u32, *b as u32)));
            iv.sort();
            let mut out: Vec<(u32, u32)> = vec![];
            for (a, b) in iv {
                match out.last_mut() {
                    Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                    _ => out.push((a, b)),
                }
            }
            let c = |x: u32| char::from_u32(x).unwrap_or('\u{fffd}');
            G::Class(String::new(), out.into_iter().map(|(a, b)| (c(a), c(b))).collect())
        }
        g => g,
    })
}

fn same_shape(a: &G, b: &G) -> bool {
    match (a, b) {
        (G::Lit(_), G::Lit(_)) | (G::Class(..), G::Class(..)) | (G::Dot, G::Dot) | (G::Eof, G::Eof) | (G::Err(_), G::Err(_)) | (G::Ref(_), G::Ref(_)) => true,
        (G::Seq(a), G::Seq(b)) | (G::Alt(a), G::Alt(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_shape(a, b)),
        (G::Not(a), G::Not(b)) => same_shape(a, b),
        (G::Rep(a, _, _), G::Rep(b, _, _)) => same_shape(a, b),
        _ => false,
    }
}

/// Ok when the two grammars mean the same as far as can be told: equal after normalisation, or equal
/// verdicts, trees and error messages from every rule on texts sampled from both. Grammars of the same
/// shape that differ in a character, a bound, a message or a name are different.
pub fn equivalent(want: &Rules, got: &Rules, src: &mut Src) -> Result<(), String> {
    let wk: Vec<&String> = want.keys().collect();
    let gk: Vec<&String> = got.keys().collect();
    if wk != gk {
        return Err(format!("rule names differ: expected {:?}, got {:?}", wk, gk));
    }
    let nw: Rules = want.iter().map(|(k, g)| (k.clone(), normalise(g))).collect();
    let ng: Rules = got.iter().map(|(k, g)| (k.clone(), normalise(g))).collect();
    if nw == ng {
        return Ok(());
    }
    for (k, w) in &nw {
        let g = &ng[k];
        if w != g && same_shape(w, g) {
            return Err(format!("rule {:?} differs: expected {}, got {}", k, show_g(w), show_g(g)));
        }
    }
    let mut al = alphabet(want);
    al.extend(alphabet(got));
    al.sort();
    al.dedup();
    for (k, w) in &nw {
        if *w == ng[k] {
            continue;
        }
        for i in 0..40 {
            let (rs, g) = if i % 2 == 0 { (want, &want[k]) } else { (got, &got[k]) };
            let mut text = sample(rs, g, src, &al, 400);
            if i % 4 >= 2 && !al.is_empty() {
                text = crate::gen::mutate(&text, &al, src);
            }
            let (a, _) = reference_from(want, &text, k, STEPS);
            let (b, _) = reference_from(got, &text, k, STEPS);
            let same = match (&a, &b) {
                (Out::Tree(x), Out::Tree(y)) => x == y,
                (Out::Fail(x), Out::Fail(y)) => x.critical() == y.critical() && (!x.critical() || x.why == y.why),
                (Out::Abort, _) | (_, Out::Abort) => true,
                _ => false,
            };
            if !same {
                return Err(format!(
                    "rule {:?} differs on text {:?}: expected {} as {}, got {} as {}",
                    k,
                    text,
                    show_g(w),
                    show_out(&a),
                    show_g(&ng[k]),
                    show_out(&b)
                ));
            }
        }
    }
    Ok(())
}

pub fn show_out(o: &Out) -> String {
    match o {
        Out::Tree(t) => format!("tree {}", clip(&show_t(t), 1500)),
        Out::Fail(f) => format!("failure {:?} at {}", f.why, f.n),
        Out::Abort => "abort".into(),
    }
}

//-----------------------------------------------------------------------
//  conversion to and from the types of the crate

use dynparser::ast;
use dynparser::ast::flat;
use dynparser::parser::atom::{Atom, MatchRules};
use dynparser::parser::expression::{Expression, MultiExpr, RepInfo, SetOfRules};

pub fn to_expr(g: &G) -> Expression {
    match g {
        G::Lit(s) => Expression::Simple(Atom::Literal(s.clone())),
        G::Class(c, r) => Expression::Simple(Atom::Match(MatchRules::init(c, r.clone()))),
        G::Dot => Expression::Simple(Atom::Dot),
        G::Eof => Expression::Simple(Atom::EOF),
        G::Err(m) => Expression::Simple(Atom::Error(m.clone())),
        G::Seq(v) => Expression::And(MultiExpr::new(v.iter().map(to_expr).collect())),
        G::Alt(v) => Expression::Or(MultiExpr::new(v.iter().map(to_expr).collect())),
        G::Not(g) => Expression::Not(Box::new(to_expr(g))),
        G::Rep(g, m, x) => Expression::Repeat(RepInfo::new(Box::new(to_expr(g)), *m, *x)),
        G::Ref(n) => Expression::RuleName(n.clone()),
    }
}
pub fn to_set(r: &Rules) -> SetOfRules {
    SetOfRules::new(r.iter().map(|(n, g)| (n.clone(), to_expr(g))).collect())
}
pub fn from_expr(e: &Expression) -> G {
    match e {
        Expression::Simple(Atom::Literal(s)) => G::Lit(s.clone()),
        Expression::Simple(Atom::Match(m)) => G::Class(m.chars().to_string(), m.ranges().clone()),
        Expression::Simple(Atom::Dot) => G::Dot,
        Expression::Simple(Atom::EOF) => G::Eof,
        Expression::Simple(Atom::Error(m)) => G::Err(m.clone()),
        Expression::And(m) => G::Seq(m.0.iter().map(from_expr).collect()),
        Expression::Or(m) => G::Alt(m.0.iter().map(from_expr).collect()),
        Expression::Not(e) => G::Not(Box::new(from_expr(e))),
        Expression::Repeat(r) => {
            let num = |s: String| s.parse::<usize>().unwrap_or(usize::MAX);
            G::Rep(Box::new(from_expr(&r.expression)), num(r.min.to_string()), r.max.as_ref().map(|m| num(m.to_string())))
        }
        Expression::RuleName(n) => G::Ref(n.clone()),
    }
}
pub fn from_set(s: &SetOfRules) -> Rules {
    s.0.iter().map(|(n, e)| (n.clone(), from_expr(e))).collect()
}
pub fn from_node(n: &ast::Node) -> T {
    match n {
        ast::Node::Val(s) => T::Val(s.clone()),
        ast::Node::EOF => T::Eof,
        ast::Node::Rule((n, v)) => T::Rule(n.clone(), v.iter().map(from_node).collect()),
    }
}
pub fn to_node(t: &T) -> ast::Node {
    match t {
        T::Val(s) => ast::Node::Val(s.clone()),
        T::Eof => ast::Node::EOF,
        T::Rule(n, v) => ast::Node::Rule((n.clone(), v.iter().map(to_node).collect())),
    }
}
pub fn from_flat(n: &flat::Node) -> F {
    match n {
        flat::Node::Val(s) => F::Val(s.clone()),
        flat::Node::EOF => F::Eof,
        flat::Node::BeginRule(n) => F::Begin(n.clone()),
        flat::Node::EndRule(n) => F::End(n.clone()),
    }
}
pub fn to_flat(f: &F) -> flat::Node {
    match f {
        F::Val(s) => flat::Node::Val(s.clone()),
        F::Eof => flat::Node::EOF,
        F::Begin(n) => flat::Node::BeginRule(n.clone()),
        F::End(n) => flat::Node::EndRule(n.clone()),
    }
}
