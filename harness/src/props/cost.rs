//! Work: C28

use dynparser::rules;
use super::engine::{full_alphabet, gen_case, make, Case};
use super::{Prop, NO_LR};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::scale::*;
use crate::sut::{self, sut_cost, Cost};

pub static C28: Prop = Prop {
    id: "C28",
    rule: "rule sets (random, and large in one direction) x texts, PEG texts and trees; allocations of each call against the steps of the reference interpreter, the characters of the PEG text or the nodes of the tree. Non-trivial: more than 50 steps, characters or nodes; distinct by input",
    quick: 45_000,
    thorough: 1_000_000,
    case: c28,
    fixed: &[("long texts, by CPU time", f_cpu), ("wide trees, by CPU time", f_cpu_tree), ("deep trees, by CPU time", f_cpu_deep), ("long PEG texts, by CPU time", f_cpu_peg), ("many rules, by CPU time", f_cpu_rules)],
    special: None,
    child: None,
    assumptions: &[NO_LR, "work is counted in allocations (for trees also bytes); CPU time only for some long texts and deep trees"],
    cpu_secs: 120,
};

// on the tree as it is, at most: 7.1 allocations per step and rule reference, 3.9 per node, 123 per
// character of PEG text, 0.7 per character of generated code, 3 per rule; 67 bytes per node and byte
const K_PARSE: u64 = 100;
const K_TREE: u64 = 50;
const K_PEG: u64 = 1500;
const K_CODE: u64 = 20;
const K_RULES: u64 = 50;
const K_BYTES: u64 = 1500;
const K_LINE: u64 = 40;
const K_LINE_FIXED: u64 = 12;

/// at most k units of work for each of n
fn within(what: &str, c: Cost, k: u64, n: u64) -> CaseResult {
    if c.allocs > k * n {
        return Err(format!("{}: {} allocations where at most {} are expected (a generous constant times {})", what, c.allocs, k * n, n));
    }
    Ok(())
}

/// bytes allocated, for each node and byte of text in the tree
fn within_bytes(what: &str, c: Cost, n: u64) -> CaseResult {
    if c.bytes > K_BYTES * n {
        return Err(format!("{}: {} bytes allocated where at most {} are expected (a generous constant times {} nodes and bytes)", what, c.bytes, K_BYTES * n, n));
    }
    Ok(())
}
/// nodes and bytes of names and values
fn t_bytes(t: &T) -> u64 {
    match t {
        T::Val(s) => 1 + s.len() as u64,
        T::Rule(n, v) => 1 + n.len() as u64 + v.iter().map(t_bytes).sum::<u64>(),
        T::Eof => 1,
    }
}
/// nodes that pass_through_except moves up, one level at a time; the second: nodes left where it was
fn moved(t: &T, keep: &[&str], root: bool) -> (u64, u64) {
    match t {
        T::Rule(n, v) => {
            let (mut m, mut left) = (0, 0);
            for c in v {
                let (a, b) = moved(c, keep, false);
                m += a;
                left += b;
            }
            if root || keep.contains(&n.as_str()) {
                (m, 1)
            } else {
                (m + left, left)
            }
        }
        _ => (0, 1),
    }
}

fn parse_cost(c: &Case, text: &str, st: &Stats) -> CaseResult {
    let (_, cost) = sut_cost(1, || dynparser::parse(text, &c.set).is_ok())?;
    within("parse", cost, K_PARSE, st.steps + st.refs + 10)?;
    within_line("parse", cost, K_LINE, text, st)
}

fn c28(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.weighted(&[8, 4, 6, 4, 4, 1]) {
        0 => {
            let c = gen_case(src, |_, _| {})?;
            ctx.note(|| format!("rules: {}", show_rules(&c.rules)));
            let al = full_alphabet(&c.rules, &c.al);
            for _ in 0..5 {
                let text = gen_text(src, &c.rules, &al, 3);
                let (out, st) = reference(&c.rules, &text);
                if let Out::Abort = out {
                    continue;
                }
                ctx.note(|| format!("text: {:?}", clip(&text, 300)));
                parse_cost(&c, &text, &st).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), clip(&text, 2000), m))?;
                ctx.eval(st.steps > 50, mix(&[c.key, hash_str(&text)]));
            }
            ctx.label("parse");
        }
        1 => {
            let s = gen_scaled(src, false);
            let c = make(s.rules, s.alphabet)?;
            ctx.label("parse, large");
            ctx.note(|| format!("large case, {}; rules: {}", s.kind, clip(&show_rules(&c.rules), 1500)));
            for text in &s.texts {
                let (out, st) = reference_large(&c.rules, text, STEPS_LARGE);
                if let Out::Abort = out {
                    continue;
                }
                ctx.note(|| format!("text: {:?}", clip(text, 300)));
                parse_cost(&c, text, &st).map_err(|m| format!("{}\nrules: {}\ntext: {:?}\n{}", s.kind, clip(&show_rules(&c.rules), 8000), clip(text, 8000), m))?;
                ctx.eval(st.steps > 50, mix(&[c.key, hash_str(text)]));
            }
        }
        2 => {
            let (t, names, vals) = gen_any_tree(src);
            let keep = gen_names(src, &names, &vals);
            let list: Vec<&str> = keep.iter().map(|s| s.as_str()).collect();
            let n = t_size(&t) as u64 + 10;
            let node = to_node(&t);
            ctx.note(|| format!("tree: {}\nlist: {:?}", clip(&show_t(&t), 1000), keep));
            let e = |m| format!("tree: {}\nlist: {:?}\n{}", clip(&show_t(&t), 4000), keep, m);
            let (_, c) = sut_cost(1, || std::mem::forget(node.compact()))?;
            within("compact", c, K_TREE, n).map_err(e)?;
            let (_, c) = sut_cost(1, || std::mem::forget(node.prune(&list)))?;
            within("prune", c, K_TREE, n).map_err(e)?;
            let b = t_bytes(&t) + 10;
            within_bytes("prune", c, b).map_err(e)?;
            let (_, c) = sut_cost(1, || std::mem::forget(node.pass_through_except(&list)))?;
            within("pass_through_except", c, K_TREE, n).map_err(e)?;
            within_bytes("pass_through_except", c, b + moved(&t, &list, true).0).map_err(e)?;
            let (_, c) = sut_cost(1, || std::mem::forget(node.flatten()))?;
            within("flatten", c, K_TREE, n).map_err(e)?;
            within_bytes("flatten", c, b).map_err(e)?;
            ctx.label("tree operations");
            ctx.eval(n > 60, mix(&[hash_str(&show_t(&t)), hash_str(&keep.join("\u{1}"))]));
        }
        3 => {
            let (rs, _) = if src.chance(1, 30) {
                let s = gen_scaled_peg(src, 2000);
                (s.rules, vec![])
            } else {
                super::peg::peg_rules(src)
            };
            let text = {
                let mut p = Printer::new(src);
                let order: Vec<(&String, &G)> = rs.iter().collect();
                p.grammar(&order, &[])
            };
            read_cost(ctx, &text)?;
            let set = sut::build(&rs)?;
            let n: u64 = rs.iter().map(|(k, g)| (k.len() + show_g(g).len()) as u64).sum();
            let (_, c) = sut_cost(1, || dynparser::peg::gcode::rust_from_rules(&set).len())?;
            within("rust_from_rules", c, K_CODE, n + 10).map_err(|m| format!("rules: {}\n{}", clip(&show_rules(&rs), 4000), m))?;
            ctx.label("PEG text of a grammar");
        }
        5 => {
            // histories of add and merge: each costs what it adds (merge: the rules of both sets)
            let n = size(src);
            let names = ["main", "a", "b"];
            let mut set = sut::build(&rules(&[("main", G::Dot)]))?;
            let (mut work, mut have) = (10u64, 1u64);
            let mut allocs = 0;
            for i in 0..n {
                let name = if src.chance(1, 5) { src.pick(&names).to_string() } else { format!("r{}", i) };
                have += 1;
                let c = if src.chance(1, 50) {
                    let k = src.range(0, 30);
                    let more = sut::build(&(0..k).map(|j| (format!("m{}.{}", i, j), lit("m"))).collect())?;
                    have += k as u64;
                    work += have;
                    let (s, c) = sut_cost(1, || set.merge(more))?;
                    set = s;
                    c
                } else {
                    work += 1;
                    let e = to_expr(&lit("x"));
                    let (s, c) = sut_cost(1, || set.add(&name, e))?;
                    set = s;
                    c
                };
                allocs += c.allocs;
            }
            ctx.note(|| format!("{} calls of add and merge", n));
            within("add and merge", Cost { allocs, bytes: 0, cpu: 0 }, K_RULES, work)?;
            ctx.label("add and merge");
            ctx.eval(n > 50, mix(&[n as u64, work]));
        }
        _ => {
            let text = if src.chance(1, 3) { near_peg_text(src).1 } else { nested_peg(src) };
            read_cost(ctx, &text)?;
            ctx.label("other PEG text");
        }
    }
    Ok(())
}

fn read_cost(ctx: &mut Ctx, text: &str) -> CaseResult {
    ctx.note(|| format!("PEG text: {:?}", clip(text, 1500)));
    let (r, c) = sut_cost(1, || dynparser::rules_from_peg(text).is_ok())?;
    let n = text.chars().count() as u64 + 10;
    within("rules_from_peg", c, K_PEG, n).map_err(|m| format!("PEG text: {:?}\n{}", clip(text, 8000), m))?;
    ctx.label_if(!r, "PEG text refused");
    ctx.eval(n > 60, hash_str(text));
    Ok(())
}

/// nesting, and layout in large quantities
fn nested_peg(src: &mut Src) -> String {
    let d = src.range(1, 30);
    let mut e = String::from(*src.pick(&["'a'", "a", ".", "[a-z]", "\"x\\n\"", "error('e')"]));
    let ws = |src: &mut Src| -> String {
        match src.below(8) {
            0 => "\n".repeat(src.range(1, 40)),
            1 => " ".repeat(src.range(1, 40)),
            2 => "/* c */".repeat(src.range(1, 10)),
            3 => format!("// {}\n", "c".repeat(src.range(0, 30))),
            4 => " ".into(),
            _ => String::new(),
        }
    };
    for _ in 0..d {
        let (x, y) = (ws(src), ws(src));
        e = match src.below(8) {
            0 | 1 => format!("({}{}{})", x, e, y),
            2 => format!("!({}{})", x, e),
            3 => format!("({}{})*", e, y),
            4 => format!("(b {}/ {})", x, e),
            5 => format!("({} {}/{} b)", e, x, y),
            6 => format!("(b {} {})?", x, e),
            _ => format!("({} b{})+", e, x),
        };
    }
    if src.chance(1, 4) {
        // broken off somewhere
        let n = e.chars().count();
        e = e.chars().take(src.range(0, n)).collect();
    }
    format!("main = {}{}\n{}a = 'a'\nb = 'b'\n", e, ws(src).replace('\n', " "), ws(src))
}

/// parsing of long texts of short lines against the CPU time of the reference interpreter
fn f_cpu(ctx: &mut Ctx) -> CaseResult {
    let dots = rules(&[("main", rep(G::Dot, 0, None))]);
    let lines = rules(&[
        ("main", G::Seq(vec![rep(rf("line"), 0, None), G::Eof])),
        ("line", G::Seq(vec![rep(G::Seq(vec![not(lit("\n")), G::Alt(vec![lit("x!"), rf("w"), G::Dot])]), 0, None), lit("\n")])),
        ("w", rep(class("_", &[('a', 'z'), ('é', 'é')]), 1, None)),
    ]);
    let rec = rules(&[("main", rep(G::Seq(vec![lit("a"), rep(lit("b"), 0, Some(3)), rep(lit("c\n"), 0, Some(1))]), 0, None))]);
    for (k, rs, unit, times) in [("one repetition", dots, "aé\n", 300_000usize), ("lines", lines, "some wörds, é x!\n", 6000), ("nested repetitions", rec, "aabbabbbc\n", 20_000)] {
        let text = unit.repeat(times);
        let c = make(rs, vec![])?;
        let t0 = sut::cpu_now();
        let (out, st) = reference_large(&c.rules, &text, 100_000_000);
        let t1 = sut::cpu_now() - t0;
        let (ok, cost) = sut_cost(10, || {
            let r = dynparser::parse(&text, &c.set);
            let ok = r.is_ok();
            std::mem::forget(r);
            ok
        })?;
        if ok != out.ok() {
            return Err(format!("{}: {} times {:?}: the verdict is {}", k, times, unit, ok));
        }
        within(k, cost, K_PARSE, st.steps + st.refs + 10)?;
        by_cpu(&format!("parsing {} times {:?} with {}", times, unit, show_rules(&c.rules)), cost.cpu, t1)?;
        ctx.eval(true, hash_str(k));
    }
    // failures after much text
    let star = |g: G| rep(g, 0, None);
    let a = || lit("a");
    let shapes = [
        ("a repetition, then something missing", rules(&[("main", G::Seq(vec![star(a()), lit("b")]))])),
        ("the same in an alternative", rules(&[("main", G::Alt(vec![G::Seq(vec![star(a()), lit("b")]), G::Seq(vec![star(rf("a")), lit("c")])])), ("a", a())])),
        ("rest of the text", rules(&[("main", star(a()))])),
        ("a lookahead over all of it", rules(&[("main", G::Seq(vec![not(G::Seq(vec![star(rf("a")), lit("b")])), star(G::Dot), lit("c")])), ("a", a())])),
        ("least number missing", rules(&[("main", rep(G::Dot, 70_000, None))])),
        ("a class that ends", rules(&[("main", G::Seq(vec![rep(class("", &[('a', 'z')]), 1, None), G::Eof]))])),
    ];
    let text = "a".repeat(60_000) + "!";
    for (k, rs) in shapes {
        cpu_case(ctx, k, rs, &text)?;
    }
    let wide = "\u{10ffff}日".repeat(10_000);
    cpu_case(ctx, "a class of all characters", rules(&[("main", star(class("", &[('\0', '\u{10ffff}')])))]), &wide)?;
    cpu_case(ctx, "a class of wide ranges", rules(&[("main", star(class("", &[('\0', '\u{d7ff}'), ('\u{ffff}', '\u{10ffff}')])))]), &wide)?;
    cpu_case(ctx, "all but the last of wide ranges", rules(&[("main", star(G::Seq(vec![not(class("", &[('\0', '\u{ffff}'), ('\u{10000}', '\u{10fffe}')])), G::Dot])))]), &"\u{10ffff}".repeat(10_000))?;
    let long: String = "aé日".repeat(40_000);
    cpu_case(ctx, "a long literal", rules(&[("main", lit(&long))]), &long)?;
    cpu_case(ctx, "a long literal that fails at its end", rules(&[("main", G::Alt(vec![lit(&(long.clone() + "x")), lit(&long)]))]), &long)?;
    let seq = |g: &dyn Fn(usize) -> G| G::Seq((0..40_000).map(g).collect());
    cpu_case(ctx, "a long sequence", rules(&[("main", seq(&|_| lit("a")))]), &text[..40_000])?;
    cpu_case(ctx, "a long sequence that fails at its end", rules(&[("main", seq(&|i| if i == 39_999 { lit("b") } else { rf("a") })), ("a", a())]), &text[..40_000])?;
    let alt = G::Alt((0..60_000).map(|i| if i == 59_999 { rf("a") } else { lit("b") }).collect());
    cpu_case(ctx, "many alternatives", rules(&[("main", alt), ("a", a())]), "a")?;
    for n in [2, 3, 4, 5, 6, 8, 12, 17] {
        // the last alternative, over and over, in lines and in one line
        let alt = |last: G| {
            let mut v: Vec<G> = (1..n).map(|i| lit(&((b'a' + i as u8) as char).to_string())).collect();
            v.push(last);
            star(G::Alt(v))
        };
        let lines = "aaaa\n".repeat(100_000 / n);
        cpu_case(ctx, &format!("the last of {} alternatives", n), rules(&[("main", alt(G::Dot))]), &lines)?;
        cpu_case(ctx, &format!("the last of {} alternatives, a rule", n), rules(&[("main", alt(rf("x"))), ("x", G::Seq(vec![not(lit("!")), G::Dot]))]), &lines)?;
    }
    for (k, g) in [
        ("optional", rep(lit("b"), 0, Some(1))),
        ("a bounded repetition", rep(lit("a"), 1, Some(3))),
        ("a negation", not(lit("x"))),
        ("a double negation", not(not(G::Dot))),
        ("a failing alternative of two elements", G::Alt(vec![G::Seq(vec![G::Dot, lit("x")]), lit("")])),
        ("a nested sequence", G::Seq(vec![G::Seq(vec![lit(""), lit("")]), lit("")])),
        ("a rule that matches nothing", rf("n")),
    ] {
        let rs = rules(&[("main", star(G::Seq(vec![g, G::Dot]))), ("n", lit(""))]);
        cpu_case(ctx, &format!("{} before each character", k), rs, &"aab\n".repeat(15_000))?;
    }
    // one character over and over
    for unit in ["\r", "\n", " ", "a", "é", "\0", "\u{301}", "\t", "\\", "日", "🎈", "-", "'", "\u{2028}", "0", "\r\n", "\n\r"] {
        let text = unit.repeat(200_000 / unit.chars().count());
        let g = if unit == "\n" { class("\n", &[]) } else { G::Dot };
        let c = make(rules(&[("main", rep(g, 0, None))]), vec![])?;
        let t0 = sut::cpu_now();
        let (out, st) = reference_large(&c.rules, &text, 100_000_000);
        let t1 = sut::cpu_now() - t0;
        let (ok, cost) = sut_cost(10, || {
            let r = dynparser::parse(&text, &c.set);
            let ok = r.is_ok();
            std::mem::forget(r);
            ok
        })?;
        if ok != out.ok() {
            return Err(format!("200000 characters {:?}: the verdict is {}", unit, ok));
        }
        let what = format!("parsing 200000 characters {:?}", unit);
        within(&what, cost, K_PARSE, st.steps + st.refs + 10)?;
        by_cpu(&what, cost.cpu, t1)?;
        ctx.eval(true, hash_str(unit));
    }
    Ok(())
}

/// one parse of a large input: verdict, allocations, bytes and CPU time
fn cpu_case(ctx: &mut Ctx, k: &str, rs: Rules, text: &str) -> CaseResult {
    let c = make(rs, vec![])?;
    let t0 = sut::cpu_now();
    let (out, st) = reference_large(&c.rules, text, 100_000_000);
    let t1 = sut::cpu_now() - t0;
    if let Out::Abort = out {
        return Err(format!("harness: {}: too large for the reference", k));
    }
    let (ok, cost) = sut_cost(10, || {
        let r = dynparser::parse(text, &c.set);
        let ok = r.is_ok();
        std::mem::forget(r);
        ok
    })?;
    if ok != out.ok() {
        return Err(format!("{}: the verdict is {}", k, ok));
    }
    within(k, cost, K_PARSE, st.steps + st.refs + 10)?;
    within_line(k, cost, K_LINE_FIXED, text, &st)?;
    by_cpu(&format!("{} on {} characters", k, text.chars().count()), cost.cpu, t1)?;
    ctx.eval(true, hash_str(k));
    Ok(())
}

/// bytes of a parse: a failure may copy its line, nothing may copy more
fn within_line(what: &str, c: Cost, k: u64, text: &str, st: &Stats) -> CaseResult {
    let line = text.split('\n').map(|l| l.len()).max().unwrap_or(0) as u64;
    let most = k * (st.steps + st.refs + 10) * (line + st.literal + 100);
    if c.bytes > most {
        return Err(format!("{}: {} bytes allocated where at most {} are expected ({} steps, lines of up to {} bytes)", what, c.bytes, most, st.steps, line));
    }
    Ok(())
}

fn by_cpu(what: &str, t: u64, like: u64) -> CaseResult {
    if t > 50 * like + 1_000_000_000 {
        return Err(format!("{}: {} ms of CPU time, the reference {} ms", what, t / 1_000_000, like / 1_000_000));
    }
    Ok(())
}

fn f_cpu_tree(ctx: &mut Ctx) -> CaseResult {
    for (k, unit) in [("leaves and rules", vec![T::Val("v".into()), T::Rule("r".into(), vec![T::Val("w".into())]), T::Eof]), ("rules", vec![T::Rule("a".into(), vec![T::Rule("b".into(), vec![])]), T::Rule("r".into(), vec![])])] {
        let t = T::Rule("main".into(), unit.iter().cycle().take(200_000).cloned().collect());
        let node = to_node(&t);
        let n = t_size(&t) as u64;
        let ops: [(&str, fn(&dynparser::ast::Node), fn(&T)); 4] = [
            ("compact", |n| std::mem::forget(n.compact()), |t| std::mem::forget(t_compact(t))),
            ("prune", |n| std::mem::forget(n.prune(&["a", "x"])), |t| std::mem::forget(t_prune(t, &["a", "x"]))),
            ("pass_through_except", |n| std::mem::forget(n.pass_through_except(&["b", "x"])), |t| std::mem::forget(t_pass(t, &["b", "x"]))),
            ("flatten", |n| std::mem::forget(n.flatten()), |t| std::mem::forget(t_flatten(t))),
        ];
        for (op, f, g) in ops {
            let t0 = sut::cpu_now();
            g(&t);
            let t1 = sut::cpu_now() - t0;
            let (_, c) = sut_cost(10, || f(&node))?;
            let what = format!("{} of 200000 children ({})", op, k);
            within(&what, c, K_TREE, n)?;
            by_cpu(&what, c.cpu, t1)?;
            ctx.eval(true, hash_str(&what));
        }
    }
    Ok(())
}

/// deep trees: the work at each level may not depend on what is below
fn f_cpu_deep(ctx: &mut Ctx) -> CaseResult {
    const N: usize = 40_000;
    for (k, side) in [("chain", 0), ("a value at each level", 1), ("a rule at each level", 2)] {
        let build = || {
            let mut t = dynparser::ast::Node::Val("x".into());
            for i in 0..N {
                let mut kids = vec![];
                match side {
                    1 => kids.push(dynparser::ast::Node::Val("v".into())),
                    2 => kids.push(dynparser::ast::Node::Rule(("s".into(), vec![]))),
                    _ => {}
                }
                kids.push(t);
                if side == 2 && i % 2 == 0 {
                    kids.push(dynparser::ast::Node::EOF);
                }
                t = dynparser::ast::Node::Rule((if i % 2 == 0 { "a" } else { "b" }.into(), kids));
            }
            t
        };
        let t0 = sut::cpu_now();
        let node = build();
        let t1 = sut::cpu_now() - t0;
        let n = 4 * N as u64;
        let ops: [(&str, fn(&dynparser::ast::Node)); 4] = [
            ("compact", |n| std::mem::forget(n.compact())),
            ("prune", |n| std::mem::forget(n.prune(&["s", "x"]))),
            ("pass_through_except", |n| std::mem::forget(n.pass_through_except(&["a", "b"]))),
            ("flatten", |n| std::mem::forget(n.flatten())),
        ];
        for (op, f) in ops {
            let (_, c) = sut_cost(10, || f(&node))?;
            let what = format!("{} of {} levels ({})", op, N, k);
            within(&what, c, K_TREE, n)?;
            within_bytes(&what, c, n)?;
            by_cpu(&what, c.cpu, t1)?;
            ctx.eval(true, hash_str(&what));
        }
        std::mem::forget(node);
    }
    Ok(())
}

fn f_cpu_peg(ctx: &mut Ctx) -> CaseResult {
    let many: String = (0..1500).map(|i| format!("r{} = 'a' b* / ![x-z] r{}\n", i, i + 1)).collect();
    let alts: String = "main = 'a'\n".to_string() + &"  / b 'c'\n".repeat(3000) + "b = 'b'\n";
    let comments: String = "/* c */ // d\n".repeat(2000) + "main = 'a'\n" + &"// e\n\n".repeat(2000);
    let mods: String = (0..300).map(|i| format!("m{} {{\n  x = 'a' .m{}.x\n  y = x*\n}}\n", i, i)).collect();
    for (k, text) in [("rules", many), ("alternatives", alts), ("comments", comments), ("modules", mods)] {
        let (ok, c) = sut_cost(10, || {
            let r = dynparser::rules_from_peg(&text);
            let ok = r.is_ok();
            std::mem::forget(r);
            ok
        })?;
        if !ok {
            return Err(format!("a PEG text of many {} is refused: {:?}", k, clip(&text, 300)));
        }
        let n = text.chars().count() as u64;
        let what = format!("rules_from_peg on {} characters, many {}", n, k);
        within(&what, c, K_PEG, n)?;
        // about 10 µs per character
        by_cpu(&what, c.cpu, n * 4000)?;
        ctx.eval(true, hash_str(k));
    }
    Ok(())
}

fn f_cpu_rules(ctx: &mut Ctx) -> CaseResult {
    const N: usize = 40_000;
    let t0 = sut::cpu_now();
    let mut m = std::collections::HashMap::new();
    for i in 0..N {
        m.insert(format!("r{}", i), to_expr(&lit("x")));
    }
    let t1 = sut::cpu_now() - t0;
    let (set, c) = sut_cost(10, || {
        let mut s = sut::build(&rules(&[("main", rf("r7"))])).unwrap();
        for i in 0..N {
            s = s.add(&format!("r{}", i), to_expr(&lit("x")));
        }
        s
    })?;
    by_cpu("40000 rules added one by one", c.cpu, t1)?;
    let (ok, c) = sut_cost(10, || (0..2000).all(|_| dynparser::parse("x", &set).is_ok()))?;
    if !ok {
        return Err("a rule among 40000 is not found".into());
    }
    within("2000 parses with 40000 rules", c, K_PARSE, 2000 * 8)?;
    by_cpu("2000 parses with 40000 rules", c.cpu, t1)?;
    ctx.eval(true, 0x40000);
    for (k, from, n) in [("the same rules", 0, N), ("other rules", N, N), ("a few rules", 100, 50), ("one rule", N, 1)] {
        let mut more = rules! {};
        for i in from..from + n {
            more = more.add(&format!("r{}", i), to_expr(&lit("y")));
        }
        let copy = sut::build(&(0..N).map(|i| (format!("r{}", i), lit("x"))).collect())?;
        let (len, c) = sut_cost(10, || {
            let m = copy.merge(more);
            let len = m.0.len();
            std::mem::forget(m);
            len
        })?;
        if len != N.max(from + n) {
            return Err(format!("40000 rules merged with {} give {}", k, len));
        }
        let what = format!("40000 rules merged with {} ({})", k, n);
        within(&what, c, K_RULES, (N + n) as u64)?;
        by_cpu(&what, c.cpu, t1)?;
        ctx.eval(true, 0x40001 + n as u64);
    }
    // and in the other direction
    let mut few = rules! {};
    for i in 0..10 {
        few = few.add(&format!("q{}", i), to_expr(&lit("y")));
    }
    let (_, c) = sut_cost(10, || std::mem::forget(few.merge(set)))?;
    by_cpu("10 rules merged with 40000", c.cpu, t1)?;
    Ok(())
}
