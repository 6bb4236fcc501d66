//! Metamorphic and history properties: C09 C21 C22 C23

use super::engine::{gen_case, make, Case};
use super::{Prop, NO_LR};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::pegref::{self, Read};
use crate::scale::*;
use crate::sut::{self, sut, PegRes, SRes};
use dynparser::peg;
use dynparser::parser::expression::SetOfRules;
use std::collections::{BTreeMap, HashMap};

//-----------------------------------------------------------------------
//  C09

pub static C09: Prop = Prop {
    id: "C09",
    rule: "histories of up to 40 operations (new, from a map, add, merge, rules! macro) over up to 4 rule sets and a few names that collide, compared with a map model after every operation; at the end texts are parsed and compared with a set built afresh and with the reference interpreter. Non-trivial: at least one add replaced a rule and one merge met a common name; distinct by history",
    quick: 300_000,
    thorough: 2_000_000,
    case: c09,
    fixed: &[("large merge", f_c09), ("names that look alike", f_c09_alike)],
    special: None,
    child: None,
    assumptions: &[NO_LR, "rule sets of a history: up to about 40 rules, one fixed case with 3000"],
    cpu_secs: 60,
};

const C09_NAMES: &[&str] = &["main", "a", "b", "ab", "", "Main", "main ", "é", "a.b", ".a", "_", "日本", "A"];

/// expressions that refer to any name: only compared and not always parsed
fn parts(src: &mut Src) -> usize {
    if src.chance(1, 12) {
        0
    } else {
        src.range(1, 3)
    }
}
fn small_expr(src: &mut Src, al: &[char], names: &[String], depth: usize) -> G {
    match src.weighted(&[5, 2, 1, 4, 1, 1, 2, 2, 1, 2]) {
        0 => G::Lit((0..1 + src.geo(1, 3, 3)).map(|_| *src.pick(al)).collect()),
        1 => gen_class(src, al, false, false, false),
        2 => G::Dot,
        3 => rf(src.pick(names)),
        4 => G::Eof,
        5 => err("stop"),
        k if depth > 0 => match k {
            6 => G::Seq((0..parts(src)).map(|_| small_expr(src, al, names, depth - 1)).collect()),
            7 => G::Alt((0..parts(src)).map(|_| small_expr(src, al, names, depth - 1)).collect()),
            8 => not(small_expr(src, al, names, depth - 1)),
            _ => {
                let m = src.range(0, 2);
                let x = if src.bool() { Some(m + src.range(0, 2)) } else { None };
                rep(small_expr(src, al, names, depth - 1), m, x)
            }
        },
        _ => lit("x"),
    }
}

fn same_rules(what: &str, want: &Rules, set: &SetOfRules) -> CaseResult {
    let got = sut(|| from_set(set))?;
    if *want != got {
        return Err(format!("{}: expected {}\ngot {}", what, show_rules(want), show_rules(&got)));
    }
    Ok(())
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let al: Vec<char> = vec!['a', 'b', 'é'];
    let mut pool: Vec<String> = C09_NAMES.iter().map(|s| s.to_string()).collect();
    if src.chance(1, 3) {
        // few names, that differ little
        src.shuffle(&mut pool[..]);
        pool.truncate(src.range(1, 4));
        for _ in 0..src.range(1, 5) {
            let n = src.pick(&pool).clone();
            pool.push(like_string(src, &n));
        }
    }
    let mut sets: Vec<(SetOfRules, Rules)> = vec![];
    let mut log = String::new();
    let (mut replaced, mut common) = (false, false);
    let steps = src.range(1, 40);
    let mut run = |src: &mut Src, log: &mut String| -> CaseResult {
        for _ in 0..steps {
            let op = if sets.is_empty() { src.below(3) } else { src.weighted(&[1, 1, 1, 8, 4]) as u32 };
            match op {
                0 => {
                    if sets.len() < 4 {
                        log.push_str("new; ");
                        sets.push((sut(|| rules! {})?, Rules::new()));
                    }
                }
                1 => {
                    if sets.len() < 4 {
                        let n = if src.chance(1, 100) {
                            size(src).min(1500)
                        } else if src.chance(1, 20) {
                            src.range(10, 30)
                        } else {
                            src.range(0, 5)
                        };
                        let (first, stem) = if n > 6 { (src.below(40) as usize, if src.chance(1, 4) { "n".repeat(size(src).min(600)) } else { "n".into() }) } else { (0, String::new()) };
                        let mut m = Rules::new();
                        for i in 0..n {
                            let name = if n > 6 { format!("{}{}", stem, first + i) } else { src.pick(&pool).to_string() };
                            let e = small_expr(src, &al, &pool, 2);
                            m.insert(name, e);
                        }
                        log.push_str(&format!("from map {{{}}}; ", show_rules(&m)));
                        let mut h = HashMap::new();
                        for (k, g) in &m {
                            h.insert(k.clone(), to_expr(g));
                        }
                        let s = sut(|| SetOfRules::new(h))?;
                        same_rules("new", &m, &s)?;
                        sets.push((s, m));
                    }
                }
                2 => {
                    if sets.len() < 4 {
                        let all: Vec<(String, G)> = (0..src.range(1, 6)).map(|_| (src.pick(&pool).to_string(), small_expr(src, &al, &pool, 2))).collect();
                        log.push_str(&format!("rules! [{}]; ", all.iter().map(|(n, g)| format!("{:?} => {}", n, show_g(g))).collect::<Vec<_>>().join(", ")));
                        let n = |k: usize| all[k].0.as_str();
                        let e = |k: usize| to_expr(&all[k].1);
                        let s = sut(|| match all.len() {
                            1 => rules! { n(0) => e(0) },
                            2 => rules! { n(0) => e(0), n(1) => e(1) },
                            3 => rules! { n(0) => e(0), n(1) => e(1), n(2) => e(2) },
                            4 => rules! { n(0) => e(0), n(1) => e(1), n(2) => e(2), n(3) => e(3) },
                            5 => rules! { n(0) => e(0), n(1) => e(1), n(2) => e(2), n(3) => e(3), n(4) => e(4) },
                            _ => rules! { n(0) => e(0), n(1) => e(1), n(2) => e(2), n(3) => e(3), n(4) => e(4), n(5) => e(5) },
                        })?;
                        let m: Rules = all.into_iter().collect();
                        same_rules("rules!", &m, &s)?;
                        sets.push((s, m));
                    }
                }
                3 => {
                    let i = src.below(sets.len() as u32) as usize;
                    let (s, mut m) = sets.remove(i);
                    let name = src.pick(&pool).to_string();
                    let e = small_expr(src, &al, &pool, 2);
                    log.push_str(&format!("add to {}: {:?} => {}; ", i, name, show_g(&e)));
                    let x = to_expr(&e);
                    let s = sut(|| s.add(&name, x))?;
                    replaced |= m.insert(name, e).is_some();
                    same_rules("add", &m, &s)?;
                    sets.insert(i, (s, m));
                }
                _ => {
                    if sets.len() > 1 {
                        let i = src.below(sets.len() as u32) as usize;
                        let (s, mut m) = sets.remove(i);
                        let j = src.below(sets.len() as u32) as usize;
                        let (s2, m2) = sets.remove(j);
                        log.push_str(&format!("merge {} with {}; ", i, j));
                        let s = sut(|| s.merge(s2))?;
                        for (k, g) in m2 {
                            match m.get(&k) {
                                Some(h) => common |= *h != g,
                                None => {
                                    m.insert(k, g);
                                }
                            }
                        }
                        same_rules("merge", &m, &s)?;
                        sets.push((s, m));
                    }
                }
            }
        }
        for (s, m) in &sets {
            if left_recursive(m) {
                continue;
            }
            let fresh = sut::build(m)?;
            for _ in 0..2 {
                let text = gen_text(src, m, &al, 4);
                let (out, _) = reference(m, &text);
                if let Out::Abort = out {
                    continue;
                }
                let a = sut::run(&text, s, false)?;
                let b = sut::run(&text, &fresh, false)?;
                let ok = match (&a, &out) {
                    (SRes::Tree(x), Out::Tree(y)) => x == y,
                    (SRes::Fail(_), Out::Fail(_)) => true,
                    _ => false,
                };
                if a != b || !ok {
                    return Err(format!("rules: {}\ntext: {:?}\nexpected {}\ngot {}\nwith the set built at once {}", show_rules(m), text, show_out(&out), sut::show_sres(&a), sut::show_sres(&b)));
                }
            }
        }
        Ok(())
    };
    let r = run(src, &mut log);
    ctx.note(|| format!("history: {}", clip(&log, 1200)));
    r.map_err(|m| format!("history: {}\n{}", clip(&log, 3000), m))?;
    ctx.label_if(replaced, "an add replaces a rule");
    ctx.label_if(common, "a merge meets a common name with another definition");
    ctx.eval(replaced && common, hash_str(&log));
    Ok(())
}
fn f_c09_alike(ctx: &mut Ctx) -> CaseResult {
    for (a, b) in alike_pairs() {
        let (x, y, z) = (lit("1"), lit("2"), lit("3"));
        let s = sut(|| rules! {}.add(&a, to_expr(&x)).add(&b, to_expr(&y)).add(&a, to_expr(&z)))?;
        let m = rules(&[(&a, z.clone()), (&b, y.clone())]);
        same_rules("add", &m, &s)?;
        let t = sut(|| rules! {}.add(&a, to_expr(&x)).merge(rules! {}.add(&b, to_expr(&y))))?;
        same_rules("merge", &rules(&[(&a, x), (&b, y)]), &t)?;
        ctx.eval(true, hash_str(&format!("{:?}{:?}", a, b)));
    }
    Ok(())
}
fn f_c09(ctx: &mut Ctx) -> CaseResult {
    let n = 3000;
    let (mut s, mut s2) = (sut(|| rules! {})?, sut(|| rules! {})?);
    let mut m = Rules::new();
    for i in 0..n {
        let name = format!("r{}", i);
        s = sut(|| s.add(&name, lit!(format!("{}", i))))?;
        m.insert(name, lit(&format!("{}", i)));
    }
    for i in (0..n).map(|i| i + n / 2).rev() {
        let name = format!("r{}", i);
        s2 = sut(|| s2.add(&name, lit!(format!("x{}", i))))?;
        m.entry(name).or_insert(lit(&format!("x{}", i)));
    }
    let s = sut(|| s.merge(s2))?;
    ctx.eval(true, 9);
    same_rules("merge", &m, &s)
}

//-----------------------------------------------------------------------
//  C21

pub static C21: Prop = Prop {
    id: "C21",
    rule: "one to three rule sets with the same rule names and different definitions, some texts; the results of all pairs are taken once, then again in random order mixed with parse_debug, readings of good and bad PEG texts, tree operations and building and dropping of further sets, then from two to eight threads at once (PEG texts too), then with rules added in other orders and with unreachable rules added; all compared with the first ones and with the reference interpreter, rule sets unchanged. Non-trivial: both a tree and an error among the results, or two sets that differ on one text; distinct by rule sets and texts",
    quick: 8_000,
    thorough: 300_000,
    case: c21,
    fixed: &[],
    special: None,
    child: None,
    assumptions: &[NO_LR, "schedules of threads are those the operating system happens to give"],
    cpu_secs: 60,
};

struct Shared<'a>(&'a [Case], &'a [String]);
// sharing is what the property is about: whether the types allow it is decided by the crate's users' compilers
unsafe impl Sync for Shared<'_> {}

fn agree(out: &Out, r: &SRes) -> bool {
    match (out, r) {
        (Out::Tree(a), SRes::Tree(b)) => a == b,
        (Out::Fail(_), SRes::Fail(_)) => true,
        _ => false,
    }
}
/// another rule set with the same names
fn sibling(src: &mut Src, rs: &Rules) -> Rules {
    let names: Vec<String> = rs.keys().cloned().collect();
    let mut out = Rules::new();
    // change some literals, classes and bounds
    for n in &names {
        let g = rs[n].map(&mut |g| match g {
            G::Lit(s) if src.chance(1, 3) => {
                let mut v: Vec<char> = s.chars().collect();
                match v.pop() {
                    Some('a') => v.push('b'),
                    Some('b') => v.push('a'),
                    Some(c) => v.extend([c, c]),
                    None => v.push('a'),
                }
                G::Lit(v.into_iter().collect())
            }
            G::Class(s, r) if src.chance(1, 3) => G::Class(format!("{}b", s), r),
            G::Dot if src.chance(1, 4) => G::Class("a".into(), vec![]),
            G::Alt(mut v) if src.chance(1, 3) => {
                v.reverse();
                G::Alt(v)
            }
            G::Rep(b, m, x) if src.chance(1, 4) => G::Rep(b, m + 1, x.map(|x| x.saturating_add(1))),
            g => g,
        });
        out.insert(n.clone(), g);
    }
    out
}
fn c21(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let base = gen_case(src, |cfg, src| {
        cfg.odd = false;
        cfg.big = false;
        cfg.n_rules = src.range(1, 5);
    })?;
    let mut cases = vec![base];
    for _ in 0..src.range(0, 2) {
        let mut r = sibling(src, &cases[0].rules);
        if src.chance(1, 3) {
            // a name like the one in the other sets
            let names: Vec<String> = r.keys().filter(|n| *n != "main").cloned().collect();
            if !names.is_empty() {
                let n = src.pick(&names).clone();
                let to = like_string(src, &n);
                if !r.contains_key(&to) {
                    r = r
                        .into_iter()
                        .map(|(k, g)| {
                            let g = g.map(&mut |g| match g {
                                G::Ref(x) if x == n => G::Ref(to.clone()),
                                g => g,
                            });
                            (if k == n { to.clone() } else { k }, g)
                        })
                        .collect();
                }
            }
        }
        if !left_recursive(&r) {
            let al = cases[0].al.clone();
            cases.push(make(r, al)?);
        }
    }
    let mut texts: Vec<String> = vec![];
    for c in &cases {
        for _ in 0..src.range(1, 3) {
            texts.push(gen_text(src, &c.rules, &c.al, 4));
        }
    }
    let al = cases[0].al.clone();
    if src.bool() {
        // texts of the same length and other contents
        let t = mutate(&texts[0], &al, src);
        texts.push(t);
    }
    ctx.note(|| format!("rules: {}\ntexts: {:?}", cases.iter().map(|c| show_rules(&c.rules)).collect::<Vec<_>>().join("\n  | "), texts));
    let context = || format!("rules: {}\ntexts: {:?}\n", cases.iter().map(|c| show_rules(&c.rules)).collect::<Vec<_>>().join("\n  | "), texts);

    let mut first: BTreeMap<(usize, usize, bool), SRes> = BTreeMap::new();
    let mut pairs = vec![];
    let (mut trees, mut fails, mut differ) = (false, false, false);
    for (j, t) in texts.iter().enumerate() {
        let mut verdicts = vec![];
        for (i, c) in cases.iter().enumerate() {
            let (out, st) = reference(&c.rules, t);
            if matches!(out, Out::Abort) || st.modes(DEBUG_COST).len() < 2 {
                continue;
            }
            for debug in [false, true] {
                let r = sut::run(t, &c.set, debug)?;
                if !agree(&out, &r) {
                    return Err(format!("{}rule set {} text {}: expected {}\ngot {}", context(), i, j, show_out(&out), sut::show_sres(&r)));
                }
                match &r {
                    SRes::Tree(_) => trees = true,
                    SRes::Fail(_) => fails = true,
                }
                verdicts.push(format!("{:?}", r));
                first.insert((i, j, debug), r);
                pairs.push((i, j, debug));
            }
        }
        differ |= verdicts.chunks(2).any(|v| v[0] != verdicts[0]);
    }
    if pairs.is_empty() {
        return Ok(());
    }
    let compare = |i: usize, j: usize, d: bool, r: &SRes, what: &str| -> CaseResult {
        let f = &first[&(i, j, d)];
        if f != r {
            return Err(format!("{}rule set {} text {} debug {} {}: first {}\nthen {}", context(), i, j, d, what, sut::show_sres(f), sut::show_sres(r)));
        }
        Ok(())
    };
    let good_peg = "main = 'a' b / c+\nb = [a-z] 'x'?\nc = !b . / error('no')\n";
    let bad_peg = "main = ('a' b / c+\nb = [a-z 'x'?\n";
    let (g0, b0) = (peg_shown(good_peg)?, peg_shown(bad_peg)?);
    // PEG texts of one length, all read from the same place in memory
    let mut buf = String::with_capacity(1 << 16);
    if src.chance(1, 3) {
        let mut pegs: Vec<String> = vec![];
        for c in &cases {
            let (rs, _) = super::peg::peg_rules(src);
            let order: Vec<(&String, &G)> = if src.bool() { rs.iter().take(3).collect() } else { vec![] };
            let t = Printer::new(src).grammar(&order, &[]);
            let m = mutate(&t, &c.al, src);
            pegs.extend([t, m, "main = 'a'\n".to_string(), "main = 'b'\n".to_string(), "main = b'\n\n".to_string()]);
        }
        let longest = pegs.iter().map(|p| p.len()).max().unwrap_or(0).min(2000);
        for p in pegs.iter_mut() {
            while p.len() < longest {
                p.push('\n');
            }
        }
        let mut shown = vec![];
        for p in &pegs {
            shown.push(peg_shown(p)?);
        }
        for _ in 0..pegs.len() {
            let k = src.below(pegs.len() as u32) as usize;
            buf.clear();
            buf.push_str(&pegs[k]);
            let s = peg_shown(&buf)?;
            if s != shown[k] {
                return Err(format!("the PEG text {:?} gives different results: first {}\nthen, read from where other texts were read, {}", pegs[k], shown[k], s));
            }
        }
        ctx.label("PEG texts in one place");
    }
    // again, in random order among other calls
    let n = pairs.len() * 2;
    for _ in 0..n {
        let &(i, j, d) = src.pick(&pairs);
        match src.below(8) {
            0 => {
                if peg_shown(good_peg)? != g0 || peg_shown(bad_peg)? != b0 {
                    return Err(format!("{}the PEG texts {:?} and {:?} give different results at different times", context(), good_peg, bad_peg));
                }
            }
            1 => {
                // a set built, used and dropped, maybe where another one was
                let k = src.below(cases.len() as u32) as usize;
                let tmp = Box::new(sut::build(&cases[k].rules)?);
                if first.contains_key(&(k, j, d)) {
                    compare(k, j, d, &sut::run(&texts[j], &tmp, d)?, "with a set built afresh")?;
                }
            }
            2 => {
                // a copy of the text where other texts are written too
                buf.clear();
                buf.push_str(&texts[j]);
                compare(i, j, d, &sut::run(&buf, &cases[i].set, d)?, "with a copy of the text")?;
            }
            3 => {
                if let Ok(node) = sut::run_node(&texts[j], &cases[i].set)? {
                    let t = from_node(&node);
                    let names: Vec<&str> = cases[i].rules.keys().map(|s| s.as_str()).take(2).collect();
                    let once = sut(|| (node.compact(), node.prune(&names), node.pass_through_except(&names), node.flatten()))?;
                    let again = sut(|| (node.compact(), node.prune(&names), node.pass_through_except(&names), node.flatten()))?;
                    if once != again || from_node(&node) != t {
                        return Err(format!("{}a tree operation gives different results, or changes the tree {}", context(), show_t(&t)));
                    }
                }
            }
            _ => compare(i, j, d, &sut::run(&texts[j], &cases[i].set, d)?, "again")?,
        }
    }
    // different sets, of the same size too, one after the other in the same place
    if src.chance(1, 2) {
        let mut variants: Vec<Rules> = cases.iter().map(|c| c.rules.clone()).collect();
        for _ in 0..src.range(1, 3) {
            let mut r = src.pick(&variants).clone();
            let names: Vec<String> = r.keys().cloned().collect();
            if names.is_empty() {
                continue;
            }
            let n = if src.chance(1, 3) { "main".to_string() } else { src.pick(&names).clone() };
            let g = r.remove(&n);
            if let Some(g) = g {
                match src.below(3) {
                    0 => {
                        let other = like_string(src, &n);
                        r.entry(other).or_insert(g);
                    }
                    1 => {
                        r.insert("another rule".into(), g);
                    }
                    _ => {}
                }
            }
            if !left_recursive(&r) {
                variants.push(r);
            }
        }
        let sets: Vec<SetOfRules> = variants.iter().map(sut::build).collect::<Result<_, _>>()?;
        let mut want: BTreeMap<(usize, usize), SRes> = BTreeMap::new();
        for (k, r) in variants.iter().enumerate() {
            for (j, t) in texts.iter().enumerate() {
                let (out, st) = reference(r, t);
                if matches!(out, Out::Abort) || st.modes(DEBUG_COST).len() < 2 {
                    continue;
                }
                let x = sut::run(t, &sets[k], true)?;
                if !agree(&out, &x) {
                    return Err(format!("rules: {}\ntext: {:?}\nexpected {}\ngot {}", show_rules(r), t, show_out(&out), sut::show_sres(&x)));
                }
                want.insert((k, j), x);
            }
        }
        let mut slot = sut::build(&variants[0])?;
        let mut now = 0;
        for _ in 0..src.range(2, 12) {
            let k = src.below(variants.len() as u32) as usize;
            if src.chance(1, 4) {
                // rule by rule in the map itself
                slot.0.retain(|n, _| variants[k].contains_key(n));
                for (n, g) in &variants[k] {
                    slot.0.insert(n.clone(), to_expr(g));
                }
            } else {
                slot = sut::build(&variants[k])?;
            }
            let before = now;
            now = k;
            let j = src.below(texts.len() as u32) as usize;
            if let Some(w) = want.get(&(k, j)) {
                buf.clear();
                buf.push_str(&texts[j]);
                let x = sut::run(if src.bool() { &buf } else { &texts[j] }, &slot, true)?;
                if x != *w {
                    return Err(format!(
                        "rules: {}\nin the place where these were before: {}\ntext: {:?}\nfirst {}\nthen {}",
                        show_rules(&variants[k]),
                        show_rules(&variants[before]),
                        texts[j],
                        sut::show_sres(w),
                        sut::show_sres(&x)
                    ));
                }
            }
        }
        ctx.label("sets in one place");
    }
    // threads
    if src.chance(1, 3) {
        let n = *src.pick(&[2usize, 4, 8]);
        let rounds = src.range(1, 3);
        let orders: Vec<Vec<(usize, usize, bool)>> = (0..n)
            .map(|_| {
                let mut v = pairs.clone();
                src.shuffle(&mut v);
                v
            })
            .collect();
        // PEG texts read at the same time
        let mut pegs: Vec<String> = vec![];
        if src.bool() {
            pegs = vec![good_peg.into(), bad_peg.into(), "main = ((('a')))\n".into(), "main = 'b'\n".into()];
            let (rs, _) = super::peg::peg_rules(src);
            let order: Vec<(&String, &G)> = rs.iter().take(3).collect();
            let t = Printer::new(src).grammar(&order, &[]);
            pegs.push(mutate(&t, &al, src));
            pegs.push(t);
        }
        let mut shown = vec![];
        for p in &pegs {
            shown.push(peg_shown(p)?);
        }
        let shared = Shared(&cases, &texts);
        let sh = &shared;
        let (pegs_, shown_) = (&pegs, &shown);
        let start = &std::sync::Barrier::new(n);
        let results: Vec<Result<Vec<SRes>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .enumerate()
                .map(|(k, o)| {
                    // one bears the name of a program's first thread, one a name of its own
                    let mut b = std::thread::Builder::new();
                    match k % 3 {
                        0 => b = b.name("main".into()),
                        1 => b = b.name(format!("worker {}", k)),
                        _ => (),
                    }
                    b.stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let Shared(cases, texts) = *sh;
                            let mut out = vec![];
                            start.wait();
                            for round in 0..rounds {
                                for (at, &(i, j, d)) in o.iter().enumerate() {
                                    out.push(sut::run(&texts[j], &cases[i].set, d)?);
                                    if !pegs_.is_empty() && at % 2 == 0 {
                                        let p = (k + at / 2 + round) % pegs_.len();
                                        let x = peg_shown(&pegs_[p])?;
                                        if x != shown_[p] {
                                            return Err(format!("the PEG text {:?}\nfirst {}\nthen, in a thread among others, {}", pegs_[p], shown_[p], x));
                                        }
                                    }
                                }
                            }
                            Ok(out)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (o, rs) in orders.iter().zip(results) {
            for (k, r) in rs?.into_iter().enumerate() {
                let (i, j, d) = o[k % o.len()];
                compare(i, j, d, &r, "from a thread")?;
            }
        }
        ctx.label("from several threads");
        ctx.label_if(!pegs.is_empty(), "PEG texts from several threads");
    }
    // another order of construction, rules never reached
    for (i, c) in cases.iter().enumerate() {
        let mut v: Vec<(&String, &G)> = c.rules.iter().collect();
        src.shuffle(&mut v);
        let mut set = sut(|| rules! {})?;
        let extra = src.bool();
        let mut junk: Vec<(String, G)> = vec![];
        if extra {
            for k in 0..src.range(1, 4) {
                let name = format!("{} unreached {}", k, src.pick(NAME_POOL));
                let g = match src.below(5) {
                    0 => rf(&name),
                    1 => err("never"),
                    2 => rf("undefined rule"),
                    3 => G::Alt(vec![]),
                    _ => G::Seq(vec![rf("main"), rf("main")]),
                };
                junk.push((name, g));
            }
        }
        let at = src.below(v.len() as u32 + 1) as usize;
        for (k, (n, g)) in v.iter().enumerate() {
            if k == at {
                for (n, g) in &junk {
                    set = sut(|| set.add(n, to_expr(g)))?;
                }
            }
            set = sut(|| set.add(n, to_expr(g)))?;
        }
        for (j, t) in texts.iter().enumerate() {
            for d in [false, true] {
                if first.contains_key(&(i, j, d)) {
                    compare(i, j, d, &sut::run(t, &set, d)?, if extra { "with unreached rules, built in another order" } else { "built in another order" })?;
                }
            }
        }
        same_rules("the rule set after all calls", &c.rules, &c.set).map_err(|m| format!("{}{}", context(), m))?;
    }
    ctx.label_if(differ, "sets that differ on one text");
    ctx.eval((trees && fails) || differ, mix(&[cases[0].key, hash_str(&texts.join("\0"))]));
    Ok(())
}
fn peg_shown(t: &str) -> Result<String, String> {
    Ok(match sut::read_peg(t)? {
        PegRes::Rules(r, _) => show_rules(&r),
        PegRes::Err { shown, .. } => shown,
    })
}

//-----------------------------------------------------------------------
//  C22

pub static C22: Prop = Prop {
    id: "C22",
    rule: "one dimension grown to 20000..60000: text under a repetition (of characters, rules, groups, with bounds), elements of a sequence, alternatives, literal, class, rules of a set, children and flat nodes of a tree, or to 4000..7000: rules, modules, alternatives, elements, escapes, ranges, name parts, blanks, comments of a PEG text, or to 12000..15000: elements, alternatives, ranges, rules, characters for generated code; run in a thread with a stack of 2 MB, in a build of the crate without optimisation, verdict and tree compared with the reference interpreter, the reference operations and the reference reader. Non-trivial: every case; distinct by kind and size",
    quick: 480,
    thorough: 4_000,
    case: c22,
    fixed: &[],
    special: None,
    child: None,
    assumptions: &["an ordinary thread stack is taken to be 2 MB; nesting of expressions and trees is small in these cases"],
    cpu_secs: 300,
};

const SMALL_STACK: usize = 2 << 20;

fn on_small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(SMALL_STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn c22(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = *src.pick(&[20_000usize, 25_000, 32_768, 40_000, 60_000, 65_500, 70_000]) + src.below(50) as usize;
    let kind = src.below(21);
    ctx.note(|| format!("kind {} size {}", kind, n));
    let key = mix(&[22, kind as u64, n as u64]);
    let near = |src: &mut Src| n + src.below(3) as usize - 1;
    let chars = |k: usize| -> String { (0..k).map(|i| if i % 71 == 70 { '\n' } else { (b'a' + (i % 7) as u8) as char }).collect() };
    let check = |rs: Rules, texts: Vec<String>| -> CaseResult {
        let mut out: Vec<(String, Option<T>, &'static [bool])> = vec![];
        for t in texts {
            let (o, st) = reference_from(&rs, &t, "main", 20_000_000);
            let o = match o {
                Out::Abort => return Err("harness: reference gave up".to_string()),
                Out::Fail(_) => None,
                Out::Tree(t) => Some(t),
            };
            out.push((t, o, st.modes(5 * DEBUG_COST)));
        }
        on_small_stack(move || {
            sut::set_budget(2_000_000_000, 64 << 30);
            let set = sut::build(&rs)?;
            for (t, o, modes) in &out {
                for &debug in *modes {
                    let r = sut::run(t, &set, debug)?;
                    let same = match (o, &r) {
                        (Some(a), SRes::Tree(b)) => a == b,
                        (None, SRes::Fail(_)) => true,
                        _ => false,
                    };
                    if !same {
                        return Err(format!(
                            "rules: {}\ntext of {} characters {:?}\nexpected {}\ngot {}",
                            clip(&show_rules(&rs), 600),
                            t.chars().count(),
                            clip(t, 80),
                            o.as_ref().map_or("a failure".to_string(), |t| clip(&show_t(t), 600)),
                            clip(&sut::show_sres(&r), 600)
                        ));
                    }
                }
                if let Some(tree) = o {
                    let node = match sut::run_node(t, &set)? {
                        Ok(n) => n,
                        Err(_) => return Err("parse fails the second time".into()),
                    };
                    tree_ops(tree, &node, &["item", "none"])?;
                    sut(move || drop(node))?;
                }
            }
            sut(move || drop(set))?;
            Ok(())
        })
    };
    let sizes = |src: &mut Src| vec![near(src), n];
    let r = match kind {
        16..=19 => return long_peg(src, ctx),
        20 => return long_code(src, ctx),
        0 => {
            // characters
            let t = chars(n);
            let e = *src.pick(&[0usize, 1, 2]);
            let b = [G::Dot, class("\n", &[('a', 'z')]), G::Alt(vec![lit("x"), lit("\n"), class("", &[('a', 'z')])])][e].clone();
            check(rules(&[("main", rep(b, 0, None))]), vec![t])
        }
        1 => {
            // bounds
            let ts = sizes(src).into_iter().map(|k| "a".repeat(k)).collect();
            let (m, x) = *src.pick(&[(n, None), (0, Some(n)), (n, Some(n)), (1, None)]);
            check(rules(&[("main", rep(lit("a"), m, x))]), ts)
        }
        2 => {
            // rules under a repetition
            let t = "ab\n".repeat(n / 2) + src.pick(&["", "a", "x"]);
            check(rules(&[("main", rep(rf("item"), 0, None)), ("item", G::Seq(vec![rf("a"), lit("b"), rep(lit("\n"), 0, Some(1))])), ("a", lit("a"))]), vec![t])
        }
        3 => {
            // repetitions inside a repetition
            let t = (0..n / 20).map(|i| "a".repeat(i % 30) + "b\n").collect::<String>();
            check(rules(&[("main", G::Seq(vec![rep(G::Seq(vec![rep(lit("a"), 0, None), lit("b\n")]), 0, None), G::Eof]))]), vec![t])
        }
        4 | 5 => {
            // elements
            let v: Vec<G> = (0..n)
                .map(|i| match (kind, i % 4) {
                    (4, _) => lit("a"),
                    (_, 0) => lit("a"),
                    (_, 1) => rep(lit("b"), 0, Some(1)),
                    (_, 2) => not(lit("c")),
                    _ => rf("item"),
                })
                .collect();
            // (a failure copies its line: short lines)
            let t = if kind == 4 {
                "a".repeat(n)
            } else {
                (0..n / 4).map(|i| if i % 30 == 29 { "a\n" } else { "ax" }).collect::<String>() + &"a".repeat(if n % 4 > 0 { 1 } else { 0 })
            };
            let u = t[..t.len() - 1].to_string();
            check(rules(&[("main", G::Seq(v)), ("item", class("x\n", &[]))]), vec![t, u])
        }
        6 | 7 => {
            // alternatives
            let v: Vec<G> = (0..n).map(|i| if kind == 6 { lit(&format!("k{};", i)) } else if i % 2 == 0 { rf("item") } else { G::Seq(vec![lit("k"), lit(&format!("{};", i))]) }).collect();
            let at = src.below(n as u32) as usize | 1;
            check(rules(&[("main", G::Alt(v)), ("item", lit("item"))]), vec![format!("k{};", at), format!("k{};", n - 1), "k".into(), format!("k{};", n + 1)])
        }
        8 => {
            let s = chars(n);
            let mut u = s.clone();
            u.pop();
            check(rules(&[("main", lit(&s))]), vec![s, u])
        }
        9 => {
            let cs: String = (0..n as u32).filter_map(|i| char::from_u32(0x100 + i)).collect();
            let rs: Vec<(char, char)> = (0..n as u32 / 4).filter_map(|i| char::from_u32(0x20000 + 3 * i)).map(|c| (c, c)).collect();
            let last = cs.chars().last().unwrap();
            check(rules(&[("main", rep(G::Class(cs, rs), 1, None))]), vec![format!("\u{100}{}", last), "\u{20000}\u{20003}".into(), "\u{20001}".into(), "z".into()])
        }
        10 => {
            // rules of the set
            let mut rs = Rules::new();
            for i in 0..n {
                rs.insert(format!("r{}", i), lit(&format!("<{}>", i)));
            }
            rs.insert("main".into(), G::Seq(vec![rf("r0"), rf(&format!("r{}", n - 1)), rep(rf("r7"), 0, None)]));
            check(rs, vec![format!("<0><{}><7><7>", n - 1), "<0><1>".into()])
        }
        11 => {
            // lookaheads and failing repetitions along the text
            let t = ("ab".repeat(20) + "\n").repeat(n / 41);
            check(rules(&[("main", G::Seq(vec![rep(G::Seq(vec![not(lit("x")), G::Alt(vec![lit("abx"), G::Seq(vec![rep(lit("c"), 0, None), G::Dot])])]), 0, None), G::Eof]))]), vec![t])
        }
        _ => {
            // trees
            let kids: Vec<T> = (0..n)
                .map(|i| match kind {
                    12 => T::Val(if i % 5 == 0 { "é".into() } else { "v".into() }),
                    13 => T::Rule(if i % 3 == 0 { "item".into() } else { "other".into() }, vec![T::Val("x".into()), T::Val("y".into())]),
                    14 => match i % 4 {
                        0 => T::Val("v".into()),
                        1 => T::Rule("item".into(), vec![]),
                        2 => T::Eof,
                        _ => T::Val("w".into()),
                    },
                    _ => {
                        if i % 10 == 0 {
                            T::Rule("other".into(), (0..20).map(|k| if k % 3 == 0 { T::Rule("item".into(), vec![T::Eof]) } else { T::Val("z".into()) }).collect())
                        } else {
                            T::Val("v".into())
                        }
                    }
                })
                .collect();
            let t = T::Rule("main".into(), vec![T::Rule("other".into(), kids), T::Val("end".into())]);
            let names: Vec<&str> = [&["item"][..], &["other"], &[], &["item", "other"]][src.below(4) as usize].to_vec();
            on_small_stack(move || {
                sut::set_budget(2_000_000_000, 64 << 30);
                let node = to_node(&t);
                tree_ops(&t, &node, &names)
            })
        }
    };
    r.map_err(|m| format!("kind {} size {}: {}", kind, n, m))?;
    ctx.label(
        [
            "characters", "bounds", "rules repeated", "repetitions repeated", "elements", "elements of all kinds", "alternatives", "alternatives of all kinds", "literal", "class", "rules of a set", "lookaheads", "values", "rules", "mixed", "two levels",
        ][kind as usize],
    );
    ctx.eval(true, key);
    Ok(())
}
/// generating the code of rules with a lot of one thing
fn long_code(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // (the time it takes grows with the square)
    let n = src.range(12_000, 15_000);
    let kind = src.below(5);
    ctx.note(|| format!("code of {} parts, kind {}", n, kind));
    let parts = |f: &dyn Fn(usize) -> G| -> Vec<G> { (0..n).map(f).collect() };
    let some = |i: usize| match i % 4 {
        0 => lit("a"),
        1 => rf("b"),
        2 => not(lit("c")),
        _ => rep(G::Dot, 1, None),
    };
    let rs = match kind {
        0 => rules(&[("main", G::Seq(parts(&some)))]),
        1 => rules(&[("main", G::Alt(parts(&some)))]),
        2 => (0..n).map(|i| (format!("r{}", i), some(i))).collect(),
        3 => rules(&[("main", G::Class("x".into(), (0..n as u32).map(|i| char::from_u32(0x4e00 + i).unwrap()).map(|c| (c, c)).collect()))]),
        _ => rules(&[("main", G::Lit("a\"\n'é".repeat(n / 5)))]),
    };
    let r = on_small_stack(|| {
        sut::set_budget(2_000_000_000, 64 << 30);
        let set = sut::build(&rs)?;
        let code = sut(|| peg::gcode::rust_from_rules(&set))?;
        if code.len() < n {
            return Err(format!("only {} bytes of code", code.len()));
        }
        drop(set);
        Ok(())
    });
    r.map_err(|m: String| format!("rust_from_rules of {} parts, kind {}: {}", n, kind, m))?;
    ctx.label("code");
    ctx.eval(true, mix(&[n as u64, kind as u64]));
    Ok(())
}
/// PEG texts with a lot of one thing (short lines: every failure copies its line)
fn long_peg(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = *src.pick(&[4_000usize, 5_000, 7_000]) + src.below(50) as usize;
    let kind = src.below(12);
    ctx.note(|| format!("PEG kind {} size {}", kind, n));
    let each = |k: usize, f: &dyn Fn(usize) -> String| -> String { (0..k).map(f).collect() };
    let mut text = match kind {
        0 => "main = r1 r2\n".to_string() + &each(n, &|i| format!("r{} = 'k{}'\n", i % (n - 7), i)),
        1 => "main = a\n".to_string() + &each(n / 4, &|i| format!("m{} {{\nr{} = 'k{}'\n}}\n", i, i % 900, i)),
        2 => "main = 'k'\n".to_string() + &each(n, &|i| format!(" / {}\n", [format!("'k{};'", i), format!("r{}", i), "[a-z] 'x'".into(), "'y'+".into()][i % 4])),
        3 => "main = 'k'\n".to_string() + &each(n, &|i| format!(" {}\n", [format!("'k{};'", i), format!("r{}", i), "[a-z]".into(), "!'y'".into(), "error('no')".into(), "(a / b)*".into()][i % 6])),
        4 => format!("main = (\n'k'\n{}) 'z'\n", each(n, &|i| format!(" / 'a{}' 'b'\n", i))),
        5 => format!("main = \"{}\" 'z'\n", each(n, &|i| ["\\n", "\\\\", "\\0x41", "é\n", "\\\"", "\\t"][i % 6].to_string())),
        6 => format!("main = [{}]\n", each(n, &|i| format!("{}-{}", char::from_u32(0x4e00 + i as u32).unwrap(), char::from_u32(0x4e01 + i as u32).unwrap()))),
        7 => format!("main = a{} 'z'\na{} = 'b'\n", each(n, &|i| format!(".b{}", i % 10)), each(n, &|i| format!(".b{}", i % 10))),
        8 => format!("{}main =\n{}'a'{}\n{}", each(n, &|_| "\n".into()), each(n, &|i| format!(" // comment {}\n", i)), each(60, &|_| " ".into()), each(n, &|i| if i % 2 == 0 { "\r\n".into() } else { " ".into() })),
        9 => format!("/*{}*/\nmain = 'a' {}'b'\n", each(n, &|i| format!("line {}\n", i)), each(n, &|i| format!("/* {} */\n", i))),
        10 => format!("main = '{}'\n / error(\"{}\")\n", each(n, &|i| format!("line {}\n", i)), each(n, &|i| format!("{}\n", i))),
        _ => format!("main = [{}\n] {}\n", each(n, &|i| if i % 40 == 39 { "\n".into() } else { char::from_u32(0x4e00 + i as u32).unwrap().to_string() }), each(n, &|i| if i % 40 == 39 { "\n".into() } else { "s".to_string() })),
    };
    let broken = src.chance(1, 4);
    if broken {
        text.push_str(src.pick(&["r = \n", "x", "= 'a'\n", "r = (a\n", "}\n"]));
    }
    let want = pegref::read(&text);
    let verdict = on_small_stack(|| {
        sut::set_budget(2_000_000_000, 64 << 30);
        sut::read_peg(&text).map(|r| match r {
            PegRes::Rules(r, s) => {
                // (also dropping them)
                drop(s);
                Ok(r)
            }
            PegRes::Err { shown, .. } => Err(shown),
        })
    })?;
    let label = ["rules", "modules", "alternatives", "elements", "alternatives in parentheses", "escapes", "ranges", "dots in a name", "blank lines and line comments", "block comments", "long literals", "class and name"][kind as usize];
    match (want, verdict) {
        (Read::Grammar(a), Ok(b)) => {
            if a != b {
                let d = a.iter().find(|(k, v)| b.get(*k) != Some(v)).map(|(k, _)| k.clone());
                return Err(format!("PEG text with {} {}: the rules read are not those written (rule {:?}; {} and {} rules)\n{}", n, label, d.map(|d| clip(&d, 60)), a.len(), b.len(), clip(&text, 300)));
            }
        }
        (Read::Reject, Err(_)) | (Read::Unbalanced(_), Err(_)) => {}
        (Read::Abort, _) => return Err("harness: reference reader gave up".to_string()),
        (a, b) => {
            return Err(format!(
                "PEG text with {} {}: expected {}, got {}\n{}",
                n,
                label,
                if let Read::Grammar(_) = a { "rules" } else { "an error" },
                match b {
                    Ok(_) => "rules".to_string(),
                    Err(e) => clip(&e, 400),
                },
                clip(&text, 300)
            ))
        }
    }
    ctx.label(["PEG rules", "PEG modules", "PEG alternatives", "PEG elements", "PEG alternatives", "PEG escapes", "PEG ranges", "PEG names", "PEG blanks", "PEG comments", "PEG literals", "PEG class"][kind as usize]);
    ctx.eval(true, mix(&[2222, kind as u64, n as u64, broken as u64]));
    Ok(())
}
fn tree_ops(t: &T, node: &dynparser::ast::Node, names: &[&str]) -> CaseResult {
    let bad = |what: &str| Err(format!("{} of a tree of {} nodes ({}...) is wrong", what, t_size(t), clip(&show_t(t), 200)));
    if sut(|| from_node(&node.compact()))? != t_compact(t) {
        return bad("compact");
    }
    if sut(|| from_node(&node.prune(names)))? != t_prune(t, names) {
        return bad(&format!("prune({:?})", names));
    }
    if sut(|| from_node(&node.pass_through_except(names)))? != t_pass(t, names) {
        return bad(&format!("pass_through_except({:?})", names));
    }
    if sut(|| node.flatten().iter().map(from_flat).collect::<Vec<F>>())? != t_flatten(t) {
        return bad("flatten");
    }
    Ok(())
}

//-----------------------------------------------------------------------
//  C23

pub static C23: Prop = Prop {
    id: "C23",
    rule: "random rule sets, a random place in one of their expressions, and two equivalent ways to write it (regrouping, literal or class in parts, unrolled repetitions, named subexpressions, repeated alternatives, double negation, common prefixes) x 6 texts; verdict and tree of the two compared, both made by the code under test. Non-trivial: the rewritten place is used on the text (the two verdicts are acceptance and the text is not empty, or matching passed through an alternative, iteration or lookahead); distinct by rules, rewriting and text",
    quick: 110_000,
    thorough: 2_500_000,
    case: c23,
    fixed: &[("wide expressions written otherwise", f_c23_wide), ("long repetitions written otherwise", f_c23_long)],
    special: None,
    child: None,
    assumptions: &[NO_LR, "unrolling of repetitions only for bodies that cannot match nothing"],
    cpu_secs: 60,
};

/// verdict and tree of two forms on texts, and the reference's verdict
fn two_forms(ctx: &mut Ctx, what: &str, one: &Rules, two: &Rules, texts: &[String], compact: bool) -> CaseResult {
    let (a, b) = (sut::build(one)?, sut::build(two)?);
    for t in texts {
        let (x, y) = (sut::run(t, &a, false)?, sut::run(t, &b, false)?);
        let same = match (&x, &y) {
            (SRes::Tree(x), SRes::Tree(y)) if compact => splice(&t_compact(x), FRESH) == splice(&t_compact(y), FRESH),
            (SRes::Tree(x), SRes::Tree(y)) => splice(x, FRESH) == splice(y, FRESH),
            (SRes::Fail(_), SRes::Fail(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!("{}\nrules: {}\ntext: {:?}\n{}\nwritten otherwise: {}\n{}", what, clip(&show_rules(one), 2000), clip(t, 300), clip(&sut::show_sres(&x), 500), clip(&show_rules(two), 2000), clip(&sut::show_sres(&y), 500)));
        }
        ctx.eval(true, mix(&[hash_str(what), hash_str(t), hash_str(&show_rules(two))]));
    }
    Ok(())
}
fn f_c23_wide(ctx: &mut Ctx) -> CaseResult {
    for n in [8usize, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025] {
        let word = |i: usize, apart: bool| if apart { format!("{}{}", std::char::from_u32(0x4e00 + i as u32).unwrap(), i) } else { format!("a{}b", i) };
        for apart in [false, true] {
            for odd in [None, Some(lit("")), Some(rep(lit("a"), 0, None)), Some(G::Eof), Some(not(lit("a"))), Some(rf("x")), Some(G::Seq(vec![])), Some(G::Dot)] {
                for at in [0, n / 2, n] {
                    if odd.is_none() && at != n || n > 300 && at == n / 2 {
                        continue;
                    }
                    let mut v: Vec<G> = (0..n).map(|i| lit(&word(i, apart))).collect();
                    if let Some(g) = &odd {
                        v.insert(at, g.clone());
                    }
                    let rest = |g: G| rules(&[("main", G::Seq(vec![g, rep(G::Dot, 0, Some(3))])), ("x", lit("x"))]);
                    let mut texts = vec![String::new(), "x".into(), "y".into()];
                    for i in [0, 1, n / 2, n - 1, n] {
                        let w = word(i, apart);
                        texts.push(w.clone() + "c");
                        texts.push(w.chars().take(1).chain("y".chars()).collect());
                        texts.push(w);
                    }
                    let one = rest(G::Alt(v.clone()));
                    for k in [1usize, 7, 16.min(n), n - 1] {
                        let two = rest(G::Alt(v.chunks(k).map(|c| if c.len() == 1 { c[0].clone() } else { G::Alt(c.to_vec()) }).collect()));
                        if k > 1 {
                            two_forms(ctx, "choice regrouped", &one, &two, &texts, false)?;
                        }
                    }
                    // one after the other
                    let mut g = v[v.len() - 1].clone();
                    for x in v[..v.len() - 1].iter().rev() {
                        g = G::Alt(vec![x.clone(), g]);
                    }
                    two_forms(ctx, "choice as nested pairs", &one, &rest(g), &texts, false)?;
                }
            }
        }
        // sequences
        let v: Vec<G> = (0..n).map(|i| if i % 5 == 4 { rep(lit("b"), 0, Some(1)) } else { class("ab", &[]) }).collect();
        let one = rules(&[("main", G::Seq(v.clone()))]);
        let texts: Vec<String> = [n, n - 1, n - n / 5, n - n / 5 - 1, n - n / 10, n + 1].iter().map(|k| "ab".chars().cycle().take(*k).collect()).collect();
        for k in [2usize, 7, 16.min(n / 2), n - 1] {
            let two = rules(&[("main", G::Seq(v.chunks(k).map(|c| G::Seq(c.to_vec())).collect()))]);
            two_forms(ctx, "sequence regrouped", &one, &two, &texts, false)?;
            let named = rules(&[("main", G::Seq(v.chunks(k).map(|_| rf(FRESH)).collect())), (FRESH, G::Seq(v[..k].to_vec()))]);
            let flat = rules(&[("main", G::Seq(v.chunks(k).flat_map(|_| v[..k].to_vec()).collect()))]);
            two_forms(ctx, "parts of a sequence named", &flat, &named, &texts, false)?;
        }
        // literals and classes
        let s: String = "aé日🎈b".chars().cycle().take(n).collect();
        let cs: Vec<char> = s.chars().collect();
        let mut late = cs.clone();
        late[n - 1] = 'x';
        let texts = [s.clone(), late.iter().collect(), cs[..n - 1].iter().collect(), format!("{}a", s)];
        for k in [1usize, 3, 16.min(n), n - 1] {
            let two = rules(&[("main", G::Seq(cs.chunks(k).map(|c| lit(&c.iter().collect::<String>())).collect()))]);
            two_forms(ctx, "literal in parts", &rules(&[("main", lit(&s))]), &two, &texts, true)?;
        }
        let cs: Vec<char> = (0..n as u32).filter_map(|i| std::char::from_u32(0x3000 + 2 * i)).collect();
        let all: String = cs.iter().collect();
        let one = rules(&[("main", G::Class(all.clone(), vec![]))]);
        let texts: Vec<String> = cs.iter().chain(&['\u{3001}', '\u{2fff}', 'a']).map(|c| c.to_string()).collect();
        for two in [G::Alt(cs.iter().map(|c| lit(&c.to_string())).collect()), G::Class(String::new(), cs.iter().map(|c| (*c, *c)).collect()), G::Class(cs.iter().rev().collect(), vec![]), G::Class(cs[..n / 2].iter().collect(), cs[n / 2..].iter().map(|c| (*c, *c)).collect())] {
            if n > 300 && matches!(two, G::Alt(_)) {
                continue;
            }
            two_forms(ctx, "class written otherwise", &one, &rules(&[("main", two)]), &texts, false)?;
        }
        // a chain of names
        let mut rs: Rules = (0..n).map(|i| (format!("n{}", i), if i + 1 < n { G::Seq(vec![lit("a"), rf(&format!("n{}", i + 1))]) } else { lit("b") })).collect();
        rs.insert("main".into(), rf("n0"));
        let set = sut::build(&rs)?;
        let flat = sut::build(&rules(&[("main", G::Seq((0..n).map(|i| lit(if i + 1 < n { "a" } else { "b" })).collect()))]))?;
        for t in ["a".repeat(n - 1) + "b", "a".repeat(n - 1), "a".repeat(n), "a".repeat(n - 1) + "bb"] {
            let (x, y) = (sut::run(&t, &set, false)?, sut::run(&t, &flat, false)?);
            let same = match (&x, &y) {
                (SRes::Tree(x), SRes::Tree(y)) => leaf_text(x) == leaf_text(y) && t_size(x) == n + t_size(y),
                (SRes::Fail(x), SRes::Fail(y)) => x.n == y.n,
                _ => false,
            };
            if !same {
                return Err(format!("{} rules, each below the one before, text {:?}: {}\nas one sequence: {}", n, clip(&t, 50), clip(&sut::show_sres(&x), 500), clip(&sut::show_sres(&y), 500)));
            }
            ctx.eval(true, mix(&[77, n as u64, hash_str(&t)]));
        }
    }
    Ok(())
}
fn f_c23_long(ctx: &mut Ctx) -> CaseResult {
    for n in [32usize, 64, 100, 255, 256, 257, 1000, 4096, 5000, 65_537] {
        let t = |k: usize| -> String { "a\né".chars().cycle().take(k).collect() };
        let texts = [t(n), t(n - 1), t(n + 1), t(n) + "!", t(n - 1) + "!"];
        for b in [G::Dot, G::Alt(vec![lit("!"), class("a\né", &[])]), rf("item")] {
            let rs = |g: G| rules(&[("main", g), ("item", class("a\né!", &[]))]);
            let one = rs(rep(b.clone(), n, Some(n)));
            for two in [
                G::Seq((0..n).map(|_| b.clone()).collect()),
                G::Seq(vec![rep(b.clone(), n / 2, Some(n / 2)), rep(b.clone(), n - n / 2, Some(n - n / 2))]),
                G::Seq(vec![rep(b.clone(), 0, Some(n)), not(not(G::Eof))]),
                rep(rep(b.clone(), n, Some(n)), 1, Some(1)),
            ] {
                if n > 5000 && matches!(&two, G::Seq(v) if v.len() > 2) {
                    continue;
                }
                // at most n is the same for texts that are not shorter
                let ts = if matches!(&two, G::Seq(v) if matches!(v[1], G::Not(_))) { vec![texts[0].clone(), texts[2].clone(), texts[3].clone(), texts[4].clone()] } else { texts.to_vec() };
                two_forms(ctx, "repetition written otherwise", &one, &rs(two), &ts, false)?;
            }
            let star = rs(rep(b.clone(), 0, None));
            for two in [G::Seq(vec![rep(b.clone(), 0, Some(n)), rep(b.clone(), 0, None)]), G::Alt(vec![rep(b.clone(), n, None), rep(b.clone(), 0, None)]), rep(b.clone(), 0, Some(usize::MAX)), G::Alt(vec![rep(b.clone(), n + 2, None), rep(b.clone(), 0, None)])] {
                two_forms(ctx, "repetition without end written otherwise", &star, &rs(two), &texts, false)?;
            }
        }
    }
    Ok(())
}

#[derive(PartialEq)]
enum Cmp {
    Exact,
    Compact,
    /// the nodes of this rule are spliced out
    Splice(&'static str),
}
const FRESH: &str = "fresh name";

/// replace the k-th expression (in order of walk) of g
fn replace_at(g: &G, k: &mut isize, new: &G) -> G {
    if *k == 0 {
        *k -= 1;
        return new.clone();
    }
    *k -= 1;
    let mut go = |g: &G| replace_at(g, k, new);
    match g {
        G::Seq(v) => G::Seq(v.iter().map(&mut go).collect()),
        G::Alt(v) => G::Alt(v.iter().map(&mut go).collect()),
        G::Not(b) => G::Not(Box::new(go(b))),
        G::Rep(b, m, x) => G::Rep(Box::new(go(b)), *m, *x),
        g => g.clone(),
    }
}
fn nth<'a>(g: &'a G, k: usize) -> &'a G {
    let mut i = 0;
    let mut r = g;
    g.walk(&mut |x| {
        if i == k {
            r = x;
        }
        i += 1;
    });
    r
}
fn splice(t: &T, name: &str) -> T {
    match t {
        T::Rule(n, v) => {
            let mut out = vec![];
            for k in v {
                match splice(k, name) {
                    T::Rule(kn, kv) if kn == name => out.extend(kv),
                    k => out.push(k),
                }
            }
            T::Rule(n.clone(), out)
        }
        t => t.clone(),
    }
}

/// two forms, label, comparison, new rules of the second form
type Rewriting = (G, G, &'static str, Cmp, Vec<(String, G)>);

fn rewriting(src: &mut Src, e: &G, other: &G, nl: &Nullable) -> Option<Rewriting> {
    let seq2 = |a: G, b: G| G::Seq(vec![a, b]);
    let fixed_kinds = 9;
    // forms that depend on what is there come first
    let special = matches!(e, G::Seq(_) | G::Alt(_) | G::Lit(_) | G::Class(..) | G::Rep(..) | G::Dot);
    if special && src.chance(2, 3) {
        match e {
            G::Seq(v) if !v.is_empty() => {
                let i = src.range(0, v.len());
                let j = src.range(i, v.len());
                let mut w: Vec<G> = v[..i].to_vec();
                w.push(G::Seq(v[i..j].to_vec()));
                w.extend_from_slice(&v[j..]);
                return Some((e.clone(), G::Seq(w), "sequence regrouped", Cmp::Exact, vec![]));
            }
            G::Alt(v) if !v.is_empty() => {
                if src.bool() {
                    let i = src.range(0, v.len() - 1);
                    let j = src.range(i + 1, v.len());
                    let mut w: Vec<G> = v[..i].to_vec();
                    w.push(G::Alt(v[i..j].to_vec()));
                    w.extend_from_slice(&v[j..]);
                    return Some((e.clone(), G::Alt(w), "choice regrouped", Cmp::Exact, vec![]));
                }
                let i = src.range(0, v.len() - 1);
                let mut w = v.clone();
                let at = src.range(i + 1, v.len());
                w.insert(at, v[i].clone());
                return Some((e.clone(), G::Alt(w), "alternative repeated", Cmp::Exact, vec![]));
            }
            G::Lit(s) => {
                let cs: Vec<char> = s.chars().collect();
                let mut parts = vec![];
                let mut i = 0;
                while i < cs.len() {
                    let j = (i + src.range(1, 3)).min(cs.len());
                    parts.push(G::Lit(cs[i..j].iter().collect()));
                    i = j;
                }
                if cs.is_empty() {
                    // "" gives a node, an empty sequence none
                    return None;
                }
                if cs.len() == 1 && src.bool() {
                    return Some((e.clone(), G::Class(s.clone(), vec![]), "character as class", Cmp::Exact, vec![]));
                }
                return Some((e.clone(), G::Seq(parts), "literal in parts", Cmp::Compact, vec![]));
            }
            G::Class(cs, rs) => {
                let mut all: Vec<char> = cs.chars().collect();
                let mut small = true;
                for (a, b) in rs {
                    if *b as u32 > *a as u32 + 80 {
                        small = false;
                    } else {
                        all.extend((*a as u32..=*b as u32).filter_map(char::from_u32));
                    }
                }
                if small && src.bool() {
                    src.shuffle(&mut all);
                    if src.bool() {
                        let v = all.iter().map(|c| lit(&c.to_string())).collect();
                        return Some((e.clone(), G::Alt(v), "class as choice of literals", Cmp::Exact, vec![]));
                    }
                    let k = src.range(0, all.len());
                    let c2: String = all[..k].iter().collect();
                    let r2 = all[k..].iter().map(|c| (*c, *c)).collect();
                    return Some((e.clone(), G::Class(c2, r2), "class written otherwise", Cmp::Exact, vec![]));
                }
                let mut c2: Vec<char> = cs.chars().collect();
                let mut r2 = rs.clone();
                src.shuffle(&mut c2);
                src.shuffle(&mut r2);
                if let (Some(c), true) = (c2.first().copied(), src.bool()) {
                    c2.push(c);
                }
                let r3: Vec<(char, char)> = r2
                    .iter()
                    .flat_map(|&(a, b)| {
                        // cut in two
                        let m = char::from_u32(a as u32 + (b as u32).saturating_sub(a as u32) / 2);
                        match m {
                            Some(m) if a < b && m < b => match char::from_u32(m as u32 + 1) {
                                Some(n) => vec![(n, b), (a, m)],
                                None => vec![(a, b)],
                            },
                            _ => vec![(a, b)],
                        }
                    })
                    .collect();
                let two = G::Alt(vec![G::Class(String::new(), r3.clone()), G::Class(c2.iter().collect(), vec![])]);
                let one = G::Class(c2.iter().collect(), r3);
                return Some((e.clone(), if src.bool() { one } else { two }, "class written otherwise", Cmp::Exact, vec![]));
            }
            G::Dot => return Some((e.clone(), class("", &[('\0', '\u{10ffff}')]), "any character as class", Cmp::Exact, vec![])),
            G::Rep(b, m, x) => {
                if *x == Some(1) && *m == 0 {
                    return Some((e.clone(), G::Alt(vec![(**b).clone(), G::Seq(vec![])]), "e? as e or nothing", Cmp::Exact, vec![]));
                }
                if !nl.expr(b) && x.map_or(true, |x| x >= *m) && *m < 20 {
                    if *m > 0 {
                        let k = src.range(1, *m);
                        let mut v: Vec<G> = (0..k).map(|_| (**b).clone()).collect();
                        v.push(rep((**b).clone(), m - k, x.map(|x| x - k)));
                        return Some((e.clone(), G::Seq(v), "repetition unrolled", Cmp::Exact, vec![]));
                    }
                    match x {
                        Some(x) if *x > 0 && *x < 12 => {
                            let f = if src.bool() {
                                G::Seq((0..*x).map(|_| rep((**b).clone(), 0, Some(1))).collect())
                            } else {
                                let mut g = G::Seq(vec![]);
                                for _ in 0..*x {
                                    g = G::Alt(vec![seq2((**b).clone(), g), G::Seq(vec![])]);
                                }
                                g
                            };
                            return Some((e.clone(), f, "repetition with maximum as optionals", Cmp::Exact, vec![]));
                        }
                        Some(0) => return Some((e.clone(), G::Seq(vec![]), "no repetition", Cmp::Exact, vec![])),
                        _ => {
                            let k = src.range(1, 3);
                            return Some((e.clone(), seq2(rep((**b).clone(), 0, Some(k)), rep((**b).clone(), 0, x.map(|x| x.saturating_sub(k)))), "repetition in two", Cmp::Exact, vec![]));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let b = other.clone();
    Some(match src.below(fixed_kinds) {
        0 => (e.clone(), rf(FRESH), "subexpression named", Cmp::Splice(FRESH), vec![(FRESH.to_string(), e.clone())]),
        1 => (e.clone(), seq2(not(not(e.clone())), e.clone()), "!!e before e", Cmp::Exact, vec![]),
        2 => {
            let c = nth(&b, src.below(b.size() as u32) as usize).clone();
            // a sequence in the list goes on as elements of it
            let pre = |x: &G| match x {
                G::Seq(v) if !v.is_empty() => G::Seq(std::iter::once(e.clone()).chain(v.iter().cloned()).collect()),
                x => seq2(e.clone(), x.clone()),
            };
            let mut tails = vec![b.clone(), c];
            if src.bool() {
                tails.push(nth(&b, src.below(b.size() as u32) as usize).clone());
                src.shuffle(&mut tails);
            }
            let mut one: Vec<G> = tails.iter().map(pre).collect();
            let two = seq2(e.clone(), G::Alt(tails));
            if src.bool() {
                let d = nth(&b, src.below(b.size() as u32) as usize).clone();
                one.push(d.clone());
                return Some((G::Alt(one), G::Alt(vec![two, d]), "common prefix", Cmp::Exact, vec![]));
            }
            (G::Alt(one), two, "common prefix", Cmp::Exact, vec![])
        }
        3 => (e.clone(), if src.bool() { G::Seq(vec![e.clone()]) } else { G::Alt(vec![e.clone()]) }, "wrapped alone", Cmp::Exact, vec![]),
        4 => (e.clone(), if src.bool() { seq2(e.clone(), G::Seq(vec![])) } else { seq2(G::Seq(vec![]), e.clone()) }, "with an empty sequence", Cmp::Exact, vec![]),
        5 => (e.clone(), G::Alt(vec![e.clone(), e.clone()]), "alternative repeated", Cmp::Exact, vec![]),
        6 => (not(e.clone()), not(not(not(e.clone()))), "!!!e", Cmp::Exact, vec![]),
        7 => (rep(e.clone(), 0, Some(1)), G::Alt(vec![e.clone(), G::Seq(vec![])]), "e? as e or nothing", Cmp::Exact, vec![]),
        _ => {
            if nl.expr(e) {
                return None;
            }
            match src.below(3) {
                0 => (rep(e.clone(), 1, None), seq2(e.clone(), rep(e.clone(), 0, None)), "e+ as e e*", Cmp::Exact, vec![]),
                1 => (rep(e.clone(), 2, Some(4)), G::Seq(vec![e.clone(), e.clone(), rep(seq2(e.clone(), rep(e.clone(), 0, Some(1))), 0, Some(1))]), "n..m unrolled", Cmp::Exact, vec![]),
                _ => (rep(e.clone(), 1, Some(1)), e.clone(), "exactly once", Cmp::Exact, vec![]),
            }
        }
    })
}

fn c23(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = Cfg::general(src);
    cfg.w_err = 0;
    cfg.w_missing = 0;
    cfg.odd = false;
    let (rs, texts) = if src.chance(1, 80) {
        let s = gen_scaled(src, true);
        cfg.alphabet = s.alphabet;
        ctx.label(s.kind);
        (s.rules, s.texts)
    } else {
        (gen_rules(src, &cfg), vec![])
    };
    let limit = if texts.is_empty() { STEPS } else { STEPS_LARGE };
    let nl = Nullable::new(&rs);
    let keys: Vec<String> = rs.keys().cloned().collect();
    let k = if src.bool() { "main".to_string() } else { src.pick(&keys).clone() };
    let e = &rs[&k];
    let at = src.below(e.size().min(100) as u32) as usize;
    let other = {
        let o = &rs[src.pick(&keys)];
        let i = src.below(o.size() as u32) as usize;
        nth(o, i).clone()
    };
    let site = nth(e, at).clone();
    let (fa, fb, label, cmp, new) = match rewriting(src, &site, &other, &nl) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut a = rs.clone();
    a.insert(k.clone(), replace_at(e, &mut (at as isize), &fa));
    let mut b = rs.clone();
    b.insert(k.clone(), replace_at(e, &mut (at as isize), &fb));
    for (n, g) in new {
        b.insert(n, g);
    }
    let (mut compact, mut splices) = (cmp == Cmp::Compact, vec![]);
    if let Cmp::Splice(n) = cmp {
        splices.push(n.to_string());
    }
    // more of them on top, anywhere in the second form
    let mut more = vec![];
    for i in 0..src.geo(1, 2, 5) {
        let nl = Nullable::new(&b);
        let keys: Vec<String> = b.keys().cloned().collect();
        let k2 = if src.bool() { k.clone() } else { src.pick(&keys).clone() };
        let e2 = b[&k2].clone();
        let at2 = src.below(e2.size().min(200) as u32) as usize;
        let site2 = nth(&e2, at2).clone();
        if site2.size() > 200 {
            continue;
        }
        let (fa2, fb2, label2, cmp2, new2) = match rewriting(src, &site2, &G::Dot, &nl) {
            Some(x) => x,
            None => continue,
        };
        if fa2 != site2 {
            continue;
        }
        let mut fb2 = fb2;
        for (n, g) in new2 {
            // (a name of its own)
            let n2 = format!("{} {}", n, i);
            fb2 = rf(&n2);
            b.insert(n2.clone(), g);
            splices.push(n2);
        }
        compact |= cmp2 == Cmp::Compact;
        b.insert(k2, replace_at(&e2, &mut (at2 as isize), &fb2));
        more.push(label2);
    }
    ctx.label_if(!more.is_empty(), "several rewritings");
    if left_recursive(&a) || left_recursive(&b) {
        ctx.label("left recursive, not used");
        return Ok(());
    }
    ctx.label(label);
    ctx.note(|| format!("{}: {}\nas {}\nrules: {}", label, show_g(&fa), show_g(&fb), show_rules(&a)));
    let (sa, sb) = (sut::build(&a)?, sut::build(&b)?);
    for i in 0..6 {
        let text = if texts.is_empty() { gen_text(src, if i % 2 == 0 { &a } else { &b }, &cfg.alphabet, 4) } else { src.pick(&texts).clone() };
        let (out, st) = reference_large(&a, &text, limit);
        if matches!(out, Out::Abort) || matches!(reference_large(&b, &text, limit).0, Out::Abort) {
            ctx.label("over the step limit, not used");
            continue;
        }
        ctx.note(|| format!("text: {:?}", clip(&text, 300)));
        let ra = sut::run(&text, &sa, false)?;
        let rb = sut::run(&text, &sb, false)?;
        let same = match (&ra, &rb) {
            (SRes::Tree(x), SRes::Tree(y)) => {
                let y = splices.iter().fold(y.clone(), |y, n| splice(&y, n));
                if compact {
                    t_compact(x) == t_compact(&y)
                } else {
                    *x == y
                }
            }
            (SRes::Fail(_), SRes::Fail(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!(
                "{}\n  {}\nas\n  {}\nin rule {:?} of {}{}\ntext: {:?}\nthe first form gives {}\nthe second {}",
                label,
                show_g(&fa),
                show_g(&fb),
                k,
                show_rules(&a),
                if more.is_empty() { String::new() } else { format!("\nand ({}): {}", more.join(", "), show_rules(&b)) },
                clip(&text, 1500),
                sut::show_sres(&ra),
                sut::show_sres(&rb)
            ));
        }
        let used = (out.ok() && !text.is_empty()) || st.backtracks + st.iterations + st.lookaheads > 0;
        ctx.eval(used, mix(&[hash_str(&show_rules(&a)), hash_str(&show_rules(&b)), hash_str(&text)]));
    }
    Ok(())
}
