//! Parsing: C01 C02 C03 C04 C05 C06 C07 C08 C24

use super::{Prop, NO_LR};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::scale::*;
use crate::sut::{self, SErr, SRes};
use dynparser::parser::expression::SetOfRules;
use std::collections::BTreeMap;

pub struct Case {
    pub rules: Rules,
    pub set: SetOfRules,
    pub al: Vec<char>,
    pub key: u64,
}

pub fn make(rules: Rules, al: Vec<char>) -> Result<Case, String> {
    let set = sut::build(&rules)?;
    let key = hash_str(&show_rules(&rules));
    Ok(Case { rules, set, al, key })
}

/// the alphabet of the case, with the characters of its grammar
pub fn full_alphabet(rules: &Rules, al: &[char]) -> Vec<char> {
    let mut v = al.to_vec();
    let a = alphabet(rules);
    v.extend(a.into_iter().take(200));
    v.dedup();
    v
}

pub fn gen_case(src: &mut Src, tweak: impl FnOnce(&mut Cfg, &mut Src)) -> Result<Case, String> {
    let mut cfg = Cfg::general(src);
    tweak(&mut cfg, src);
    let rules = gen_rules(src, &cfg);
    make(rules, cfg.alphabet)
}

/// run a check on a number of texts for the case; `p_mutate` of 10 are corrupted
pub fn with_texts(
    src: &mut Src,
    ctx: &mut Ctx,
    c: &Case,
    n: usize,
    p_mutate: u32,
    f: &mut dyn FnMut(&mut Ctx, &Case, &str, &Out, &Stats) -> Result<bool, String>,
) -> CaseResult {
    ctx.note(|| format!("rules: {}", show_rules(&c.rules)));
    let mut had_empty = false;
    for _ in 0..n {
        let mut text = gen_text(src, &c.rules, &c.al, p_mutate);
        if text.is_empty() {
            // once is enough
            if had_empty {
                text = (0..src.range(1, 4)).map(|_| if c.al.is_empty() || src.chance(1, 8) { any_char(src) } else { *src.pick(&c.al) }).collect();
            }
            had_empty = true;
        }
        let (out, st) = reference(&c.rules, &text);
        if let Out::Abort = out {
            ctx.label("over the step limit, not used");
            continue;
        }
        ctx.note(|| format!("text: {:?}", clip(&text, 300)));
        label_features(ctx, &text, &out, &st);
        let nontrivial = f(ctx, c, &text, &out, &st).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), clip(&text, 2000), m))?;
        ctx.eval(nontrivial, mix(&[c.key, hash_str(&text)]));
    }
    Ok(())
}

/// the same for a case that is large in one direction
pub fn with_scaled(src: &mut Src, ctx: &mut Ctx, plain: bool, f: &mut dyn FnMut(&mut Ctx, &Case, &str, &Out, &Stats) -> Result<bool, String>) -> CaseResult {
    let s = gen_scaled(src, plain);
    let c = make(s.rules, s.alphabet)?;
    ctx.label(s.kind);
    ctx.note(|| format!("large case, {}; rules: {}", s.kind, clip(&show_rules(&c.rules), 1500)));
    for text in &s.texts {
        let (out, st) = reference_large(&c.rules, text, STEPS_LARGE);
        if let Out::Abort = out {
            ctx.label("over the step limit, not used");
            continue;
        }
        ctx.note(|| format!("text: {:?}", clip(text, 300)));
        label_features(ctx, text, &out, &st);
        let nontrivial = f(ctx, &c, text, &out, &st).map_err(|m| format!("{}\nrules: {}\ntext: {:?}\n{}", s.kind, clip(&show_rules(&c.rules), 20_000), clip(text, 8000), clip(&m, 4000)))?;
        ctx.eval(nontrivial, mix(&[c.key, hash_str(text)]));
    }
    Ok(())
}
/// one case in so many is a large one
pub const SCALED: u32 = 40;

fn label_features(ctx: &mut Ctx, text: &str, out: &Out, st: &Stats) {
    ctx.label(if out.ok() { "reference accepts" } else { "reference rejects" });
    ctx.label_if(st.backtracks > 0, "some alternative abandoned");
    ctx.label_if(st.iterations > 1, "repetition with iterations");
    ctx.label_if(st.empty_iterations > 0, "iteration consuming nothing");
    ctx.label_if(st.lookaheads > 0, "lookahead");
    ctx.label_if(st.refs > 2, "nested rules");
    ctx.label_if(st.eof_hits > 0, "end of input matched");
    ctx.label_if(st.crit > 0, "critical error raised");
    ctx.label_if(st.swallowed > 0, "critical error inside a negation");
    ctx.label_if(text.is_empty(), "empty text");
    ctx.label_if(!text.is_ascii(), "non-ASCII text");
    ctx.label_if(text.len() > 300, "text longer than 300 bytes");
    ctx.label_if(text.contains('\n'), "text with line breaks");
}

fn interesting(st: &Stats, text: &str) -> bool {
    !text.is_empty() && (st.backtracks + st.iterations + st.lookaheads > 0 || st.refs > 1)
}

fn mismatch(out: &Out, got: &SRes) -> String {
    format!("expected {}\ngot {}", show_out(out), sut::show_sres(got))
}

fn check_verdict(text: &str, set: &SetOfRules, out: &Out) -> Result<SRes, String> {
    let got = sut::run(text, set, false)?;
    match (&got, out) {
        (SRes::Tree(_), Out::Tree(_)) | (SRes::Fail(_), Out::Fail(_)) => Ok(got),
        _ => Err(mismatch(out, &got)),
    }
}

/// verdict and tree for given rules and texts
fn fixed_eq(ctx: &mut Ctx, rs: Rules, texts: &[&str]) -> CaseResult {
    let c = make(rs, vec![])?;
    for t in texts {
        let (out, _) = reference(&c.rules, t);
        let got = check_verdict(t, &c.set, &out).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, m))?;
        if let (SRes::Tree(a), Out::Tree(b)) = (&got, &out) {
            if a != b {
                return Err(format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, mismatch(&out, &got)));
            }
        }
        ctx.eval(true, mix(&[c.key, hash_str(t)]));
    }
    Ok(())
}

/// what a check looks at in the huge cases
#[derive(Clone, Copy, PartialEq)]
enum Look {
    Verdict,
    Tree,
    Location,
    Failure,
    Critical,
}
const STEPS_HUGE: u64 = 20_000_000;
fn huge(ctx: &mut Ctx, look: Look, most: usize, part: usize) -> CaseResult {
    for (_, h) in huge_cases(most).into_iter().enumerate().filter(|(i, _)| i % PARTS == part) {
        let set = sut::build(&h.rules)?;
        for (i, t) in h.texts.iter().enumerate() {
            let (out, st) = reference_large(&h.rules, t, STEPS_HUGE);
            let wanted = match (&out, look) {
                (Out::Abort, _) => {
                    ctx.label("over the step limit, not used");
                    false
                }
                (Out::Tree(_), l) => matches!(l, Look::Verdict | Look::Tree),
                (Out::Fail(f), l) => matches!(l, Look::Verdict | Look::Location | Look::Failure) || (l == Look::Critical && f.critical()),
            };
            if !wanted {
                continue;
            }
            let bad = |m: String| format!("{}, text {}, of {} characters, beginning {:?}: {}", h.what, i + 1, t.chars().count(), clip(t, 60), clip(&m, 1500));
            let got = sut::run(t, &set, false).map_err(bad)?;
            let r = match (&got, &out) {
                (SRes::Tree(a), Out::Tree(b)) => {
                    if look == Look::Tree && a != b {
                        Err("the tree is not the one expected".to_string())
                    } else {
                        Ok(())
                    }
                }
                (SRes::Fail(e), Out::Fail(f)) => match look {
                    Look::Location => check_location(t, e, "parse").and_then(|_| if e.n == f.n { Ok(()) } else { Err(format!("expected at {}, got {}", f.n, e.n)) }),
                    Look::Failure | Look::Critical => check_failure(f, e),
                    _ => Ok(()),
                },
                _ => Err(mismatch(&out, &got)),
            };
            r.map_err(bad)?;
            ctx.label(if out.ok() { "huge, accepted" } else { "huge, rejected" });
            ctx.eval(true, mix(&[hash_str(&h.what), st.steps, t.len() as u64]));
        }
    }
    Ok(())
}
/// in parts, which run in parallel
const PARTS: usize = 4;
fn f_huge_verdict<const P: usize>(ctx: &mut Ctx) -> CaseResult {
    huge(ctx, Look::Verdict, 70_000, P)
}
fn f_huge_tree<const P: usize>(ctx: &mut Ctx) -> CaseResult {
    huge(ctx, Look::Tree, 1_100_000, P)
}
fn f_huge_location<const P: usize>(ctx: &mut Ctx) -> CaseResult {
    huge(ctx, Look::Location, 1_100_000, P)
}
fn f_huge_failure<const P: usize>(ctx: &mut Ctx) -> CaseResult {
    huge(ctx, Look::Failure, 300_000, P)
}
fn f_huge_critical<const P: usize>(ctx: &mut Ctx) -> CaseResult {
    huge(ctx, Look::Critical, 1_100_000, P)
}

/// every character of the first planes, and some of the others, against usual classes and literals
const SWEEP_PARTS: usize = 4;
fn sweep_texts() -> Vec<char> {
    let mut v: Vec<char> = vec![];
    for (a, b) in [(0u32, 0x1_1000), (0x1_d000, 0x1_fc00), (0x2_0000, 0x2_0080), (0x3_0000, 0x3_0020), (0xe_0000, 0xe_0200), (0xf_0000, 0xf_0080), (0x10_0000, 0x10_0080), (0x10_ff80, 0x11_0000)] {
        v.extend((a..b).filter_map(char::from_u32));
    }
    v
}
fn f_sweep<const P: usize>(ctx: &mut Ctx) -> CaseResult {
    // the text: all characters, some per line
    let mut text = String::new();
    for (i, c) in sweep_texts().into_iter().enumerate() {
        text.push(c);
        if i % 20 == 19 {
            text.push('\n');
        }
    }
    let r = |a, b| (a, b);
    let mut hits: Vec<G> = vec![
        class("", &[r('0', '9')]),
        class("0123456789", &[]),
        class("", &[r('a', 'z')]),
        class("", &[r('A', 'Z')]),
        class("_", &[r('a', 'z'), r('A', 'Z'), r('0', '9')]),
        class("", &[r('0', '9'), r('a', 'f'), r('A', 'F')]),
        class("abcdefghijklmnopqrstuvwxyz", &[]),
        class(" \t\n\r", &[]),
        class(" ", &[]),
        class("+-*/", &[]),
        class(".,;:!?", &[]),
        class("", &[r('\0', '\u{7f}')]),
        class("", &[r('\0', '\u{1f}')]),
        class("", &[r(' ', '~')]),
        class("", &[r('\u{80}', '\u{ff}')]),
        class("", &[r('à', 'ÿ')]),
        class("", &[r('\u{80}', '\u{ffff}')]),
        class("", &[r('\u{10000}', '\u{10ffff}')]),
        class("", &[r('\u{4e00}', '\u{9fff}')]),
        class("", &[r('z', 'a')]),
        class("", &[r('é', 'é')]),
        class("\0", &[]),
        class("\u{feff}", &[r('\u{300}', '\u{36f}')]),
    ];
    for c in "aAkKsSiIzZ09 1_-.'\"/\\\t\n\réÉßñÅΩωµςσǅﬁ日本语曰🎈𝄞\u{300}\u{301}\u{a0}\u{3000}\u{2028}\u{feff}\u{fffd}\u{ad}\0\u{7f}\u{ff}\u{100}\u{ffff}\u{10000}\u{10ffff}".chars() {
        hits.push(lit(&c.to_string()));
    }
    for (n, g) in hits.into_iter().enumerate().filter(|(n, _)| n % SWEEP_PARTS == P) {
        let what = show_g(&g);
        let fits = |c: char| match &g {
            G::Lit(s) => s.starts_with(c),
            G::Class(s, r) => s.contains(c) || r.iter().any(|&(a, b)| a <= c && c <= b),
            _ => false,
        };
        let set = sut::build(&rules(&[("main", rep(G::Alt(vec![rf("hit"), G::Dot]), 0, None)), ("hit", g.clone())]))?;
        let kids = match sut::run(&text, &set, false)? {
            SRes::Tree(T::Rule(_, v)) => v,
            o => return Err(format!("all characters against {}: {}", what, clip(&sut::show_sres(&o), 600))),
        };
        let mut chars = text.chars();
        for k in &kids {
            let c = chars.next().unwrap_or('\0');
            let (s, hit) = match k {
                T::Val(s) => (s, false),
                T::Rule(_, v) => match &v[..] {
                    [T::Val(s)] => (s, true),
                    _ => return Err(format!("the character {:?} against {}: {}", c, what, show_t(k))),
                },
                T::Eof => return Err(format!("all characters against {}: an end-of-file node", what)),
            };
            if *s != c.to_string() || hit != fits(c) {
                return Err(format!("the character {:?} (U+{:04X}) against {}: expected to {}fit\ngot {}", c, c as u32, what, if fits(c) { "" } else { "not " }, show_t(k)));
            }
        }
        if chars.next().is_some() {
            return Err(format!("all characters against {}: a tree of only {} characters", what, kids.len()));
        }
        ctx.eval(true, mix(&[4242, n as u64]));
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C01: Prop = Prop {
    id: "C01",
    rule: "random rule sets (1..60 rules, all constructs, all kinds of characters) x 6 texts sampled from them, corrupted or random; verdict compared with a reference PEG interpreter. Non-trivial: non-empty text whose matching involves a further rule, an abandoned alternative, an iteration or a lookahead; distinct by rules and text",
    quick: 250_000,
    thorough: 3_000_000,
    case: c01,
    fixed: &[("every character, part 1", f_sweep::<0>), ("every character, part 2", f_sweep::<1>), ("every character, part 3", f_sweep::<2>), ("every character, part 4", f_sweep::<3>), ("non-ASCII text", f_unicode), ("classes at their limits", f_classes), ("long text and literal", f_long), ("huge cases, part 1", f_huge_verdict::<0>), ("huge cases, part 2", f_huge_verdict::<1>), ("huge cases, part 3", f_huge_verdict::<2>), ("huge cases, part 4", f_huge_verdict::<3>), ("words that look alike", f_alike)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

fn c01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f: &mut dyn FnMut(&mut Ctx, &Case, &str, &Out, &Stats) -> Result<bool, String> = &mut |_ctx, c, t, out, st| {
        check_verdict(t, &c.set, out)?;
        Ok(interesting(st, t))
    };
    if src.chance(1, SCALED) {
        return with_scaled(src, ctx, false, f);
    }
    let c = gen_case(src, |_, _| {})?;
    with_texts(src, ctx, &c, 6, 5, f)
}
fn f_unicode(ctx: &mut Ctx) -> CaseResult {
    fixed_eq(ctx, rules(&[("main", rep(class("é", &[('日', '本')]), 1, None))]), &["é", "日本", "本é日", "éa", "", "a", "éé\n"])?;
    fixed_eq(ctx, rules(&[("main", G::Seq(vec![lit("🎈"), G::Dot, not(G::Dot)]))]), &["🎈𝄞", "🎈", "🎈aa", "🎈\u{300}"])
}
fn f_classes(ctx: &mut Ctx) -> CaseResult {
    for (cs, rs) in [("", vec![('a', 'c')]), ("xyz", vec![]), ("-]", vec![('0', '9'), ('A', 'A')]), ("", vec![('\0', '\u{10ffff}')]), ("é", vec![('\u{ff}', '\u{101}')])] {
        let g = G::Class(cs.to_string(), rs);
        let r = rules(&[("main", g)]);
        let al = alphabet(&r);
        let texts: Vec<String> = al.iter().map(|c| c.to_string()).chain(["`", "d", "@", "B", "/", ":", "\u{10ffff}", "\n", "\r"].iter().map(|s| s.to_string())).collect();
        fixed_eq(ctx, r, &texts.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
    }
    Ok(())
}
fn f_long(ctx: &mut Ctx) -> CaseResult {
    for n in [127usize, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 65535, 65536] {
        let s: String = "abcdefg".chars().cycle().take(n).collect();
        let mut t = s.clone();
        t.pop();
        let u = format!("{}z", t);
        fixed_eq(ctx, rules(&[("main", lit(&s))]), &[&s, &t, &u, &format!("{}a", s)])?;
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C02: Prop = Prop {
    id: "C02",
    rule: "random rule sets x 6 texts sampled from them (3 of 10 corrupted); for accepted ones the tree is compared with the one of the reference interpreter, its root with main, its leaves with the text. Non-trivial: the tree has more than two nodes; distinct by rules and text",
    quick: 250_000,
    thorough: 3_000_000,
    case: c02,
    fixed: &[("end of file node", f_eof), ("huge cases, part 1", f_huge_tree::<0>), ("huge cases, part 2", f_huge_tree::<1>), ("huge cases, part 3", f_huge_tree::<2>), ("huge cases, part 4", f_huge_tree::<3>), ("rules named alike", f_names), ("words that look alike", f_alike)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

fn c02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, SCALED) {
        return with_scaled(src, ctx, true, &mut |ctx, c, t, out, _st| check_tree(ctx, c, t, out));
    }
    let c = gen_case(src, |cfg, src| {
        cfg.w_err = 0;
        cfg.w_missing = 0;
        cfg.w_eof = *src.pick(&[0, 1, 2]);
    })?;
    with_texts(src, ctx, &c, 6, 3, &mut |ctx, c, t, out, _st| check_tree(ctx, c, t, out))
}
fn check_tree(ctx: &mut Ctx, c: &Case, t: &str, out: &Out) -> Result<bool, String> {
    let got = sut::run(t, &c.set, false)?;
    let tree = match &got {
        SRes::Tree(tree) => tree,
        SRes::Fail(_) => {
            ctx.label("not accepted");
            return Ok(false);
        }
    };
    if !matches!(tree, T::Rule(n, _) if n == "main") {
        return Err(format!("the root is not main: {}", show_t(tree)));
    }
    if leaf_text(tree) != t {
        return Err(format!("the values do not give the text: {:?}\n{}", leaf_text(tree), show_t(tree)));
    }
    if let Out::Tree(want) = out {
        if want != tree {
            return Err(mismatch(out, &got));
        }
    }
    Ok(t_size(tree) > 2)
}
fn f_eof(ctx: &mut Ctx) -> CaseResult {
    let r = rules(&[("main", G::Seq(vec![rep(lit("a"), 0, None), rf("end")])), ("end", G::Seq(vec![G::Eof, G::Eof]))]);
    fixed_eq(ctx, r, &["", "a", "aaa", "b", "ab", "EOF"])?;
    fixed_eq(ctx, rules(&[("main", G::Alt(vec![G::Eof, lit("EOF")]))]), &["", "EOF", "EO"])
}
/// literals, rule names and texts that differ little
fn f_alike(ctx: &mut Ctx) -> CaseResult {
    for (a, b) in alike_pairs() {
        fixed_eq(ctx, rules(&[("main", lit(&a))]), &[&a, &b])?;
        fixed_eq(ctx, rules(&[("main", G::Alt(vec![lit(&a), lit(&b)]))]), &[&a, &b])?;
        if a != "main" && b != "main" {
            fixed_eq(ctx, rules(&[("main", G::Seq(vec![rf(&a), rf(&b)])), (&a, lit("x")), (&b, lit("y"))]), &["xy", "yx", "xx", "yy"])?;
        }
    }
    Ok(())
}
fn f_names(ctx: &mut Ctx) -> CaseResult {
    let r = rules(&[
        ("main", G::Seq(vec![rf("a"), rf("ab"), rep(rf("a.b"), 0, None), rep(rf("a"), 0, None)])),
        ("a", G::Alt(vec![G::Seq(vec![rf("ab"), lit("!")]), lit("a")])),
        ("ab", G::Seq(vec![lit("a"), rep(rf("_"), 0, Some(1))])),
        ("a.b", lit("b")),
        ("_", lit(" ")),
    ]);
    fixed_eq(ctx, r, &["aa", "a a", "aa bb", "aabba!a", "a!a a", "a !a ba !", "aabaa", ""])
}

//-----------------------------------------------------------------------

pub static C03: Prop = Prop {
    id: "C03",
    rule: "repetitions with random bounds (0..300, 65535.., infinite), of bodies of every kind (empty ones included), alone, nested and followed by other expressions, x texts with a number of iterations around the bounds; verdict and tree compared with the reference interpreter, termination by a budget of allocations and CPU. Non-trivial: at least two iterations or an iteration consuming nothing; distinct by rules and text",
    quick: 200_000,
    thorough: 2_500_000,
    case: c03,
    fixed: &[("maximum 0", f_max0), ("huge cases, part 1", f_huge_tree::<0>), ("huge cases, part 2", f_huge_tree::<1>), ("huge cases, part 3", f_huge_tree::<2>), ("huge cases, part 4", f_huge_tree::<3>), ("bodies consuming nothing", f_nullable), ("large bounds", f_large_bounds)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

fn c03(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, SCALED) {
        return with_scaled(src, ctx, true, &mut |_ctx, c, t, out, st| {
            let got = check_verdict(t, &c.set, out)?;
            same_tree(&got, out)?;
            Ok(st.iterations > 1 || st.empty_iterations > 0)
        });
    }
    if src.chance(1, 2) {
        // one repetition in a frame, text with a given number of iterations
        let cfg = {
            let mut c = Cfg::general(src);
            c.n_rules = src.range(1, 3);
            c.deep = src.range(1, 2);
            c.w_err = 0;
            c.w_missing = 0;
            c.odd = false;
            c
        };
        let mut rs = gen_rules(src, &cfg);
        let body = match src.weighted(&[4, 2, 2, 2, 3]) {
            0 => G::Lit((0..src.range(1, 3)).map(|_| *src.pick(&cfg.alphabet)).collect()),
            1 => gen_class(src, &cfg.alphabet, false, false, false),
            2 => G::Dot,
            3 => lit(""),
            _ => rs["main"].clone(),
        };
        let cap = *src.pick(&[3usize, 3, 8, 40, 300]);
        let m = src.range(0, cap);
        let x = match src.below(4) {
            0 => None,
            1 => Some(m),
            2 => Some(m + 1),
            _ => Some(m + src.range(0, cap)),
        };
        let via = src.chance(1, 3);
        if via {
            rs.insert("body".into(), body.clone());
        }
        let r = rep(if via { rf("body") } else { body.clone() }, m, x);
        let tail = match src.below(5) {
            0 => G::Seq(vec![]),
            1 => body.clone(),
            2 => rep(body.clone(), 0, None),
            3 => rep(G::Dot, 0, None),
            _ => G::Seq(vec![not(body.clone()), rep(G::Dot, 0, None)]),
        };
        let e = match src.below(6) {
            0 => r,
            1 => rep(r, 0, None),
            2 => rep(r, 0, Some(2)),
            3 => G::Alt(vec![G::Seq(vec![r, tail]), rep(G::Dot, 0, None)]),
            4 => G::Seq(vec![not(not(r.clone())), r, tail]),
            _ => G::Seq(vec![r, tail]),
        };
        rs.insert("main".into(), e);
        if left_recursive(&rs) {
            ctx.label("left recursive, not used");
            return Ok(());
        }
        let c = make(rs, cfg.alphabet)?;
        ctx.note(|| format!("rules: {}", show_rules(&c.rules)));
        for _ in 0..5 {
            let around = *src.pick(&[m, x.unwrap_or(m), 0]);
            let k = (around + src.range(0, 4)).saturating_sub(2).min(700);
            let mut text = String::new();
            for _ in 0..k {
                text.push_str(&sample(&c.rules, &body, src, &c.al, 30));
            }
            if src.chance(1, 3) {
                text = mutate(&text, &c.al, src);
            }
            one_c03(ctx, &c, &text)?;
        }
        Ok(())
    } else {
        let c = gen_case(src, |cfg, _| {
            cfg.w_rep = 12;
            cfg.w_err = 0;
            cfg.w_missing = 0;
            cfg.odd = false;
        })?;
        with_texts(src, ctx, &c, 5, 4, &mut |_ctx, c, t, out, st| {
            let got = check_verdict(t, &c.set, out)?;
            same_tree(&got, out)?;
            Ok(st.iterations > 1 || st.empty_iterations > 0)
        })
    }
}
fn same_tree(got: &SRes, out: &Out) -> Result<(), String> {
    if let (SRes::Tree(a), Out::Tree(b)) = (got, out) {
        if a != b {
            return Err(mismatch(out, got));
        }
    }
    Ok(())
}
fn one_c03(ctx: &mut Ctx, c: &Case, text: &str) -> CaseResult {
    let (out, st) = reference(&c.rules, text);
    if let Out::Abort = out {
        ctx.label("over the step limit, not used");
        return Ok(());
    }
    label_features(ctx, text, &out, &st);
    ctx.note(|| format!("text: {:?}", clip(text, 300)));
    let e = |m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), clip(text, 1500), m);
    let got = check_verdict(text, &c.set, &out).map_err(e)?;
    same_tree(&got, &out).map_err(e)?;
    ctx.eval(st.iterations > 1 || st.empty_iterations > 0, mix(&[c.key, hash_str(text)]));
    Ok(())
}
fn f_max0(ctx: &mut Ctx) -> CaseResult {
    fixed_eq(ctx, rules(&[("main", rep(lit("a"), 0, Some(0)))]), &["", "a", "aa"])?;
    fixed_eq(ctx, rules(&[("main", G::Seq(vec![rep(lit("a"), 0, Some(0)), lit("a"), rep(err("x"), 0, Some(0))]))]), &["", "a", "aa"])
}
fn f_nullable(ctx: &mut Ctx) -> CaseResult {
    for (m, x) in [(0, None), (1, None), (3, None), (0, Some(1)), (2, Some(5)), (0, Some(usize::MAX))] {
        for b in [rep(lit(" "), 0, None), lit(""), G::Seq(vec![]), not(lit("a")), G::Eof, rf("n"), G::Alt(vec![lit("b"), rf("n")])] {
            let r = rules(&[("main", G::Seq(vec![rep(b, m, x), rep(lit("a"), 0, None)])), ("n", rep(lit("c"), 0, None))]);
            fixed_eq(ctx, r, &["", " ", "   ", "a", "  aa", "b", "cc", "bcb", "bcba"])?;
        }
    }
    Ok(())
}
fn f_large_bounds(ctx: &mut Ctx) -> CaseResult {
    for n in [255usize, 256, 257, 65535, 65536, 65537, 70000] {
        let c = make(rules(&[("main", rep(lit("a"), n, Some(n)))]), vec![])?;
        let d = make(rules(&[("main", rep(lit("a"), n, None))]), vec![])?;
        let e = make(rules(&[("main", G::Seq(vec![rep(lit("a"), 0, Some(n)), rep(lit("b"), 0, None)]))]), vec![])?;
        for k in [n - 1, n, n + 1] {
            let t = "a".repeat(k);
            for (c, ok) in [(&c, k == n), (&d, k >= n), (&e, k <= n)] {
                let got = sut::run(&t, &c.set, false)?;
                match (&got, ok) {
                    (SRes::Tree(T::Rule(_, v)), true) if v.len() == k => {}
                    (SRes::Fail(_), false) => {}
                    _ => return Err(format!("rules: {}\ntext: {} times 'a', expected to be {}: {}", show_rules(&c.rules), k, if ok { "accepted" } else { "rejected" }, clip(&sut::show_sres(&got), 200))),
                }
                ctx.eval(true, mix(&[c.key, k as u64]));
            }
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C04: Prop = Prop {
    id: "C04",
    rule: "random rule sets over ASCII or mixed alphabets x 4 texts x an order-preserving one-to-one renaming of all characters (line breaks fixed) into 1..4-byte characters; verdict, tree shape, n, row, col, start_line equal and texts renamed. Non-trivial: the renaming changes the number of bytes of a character of the text; distinct by rules, text and renaming",
    quick: 140_000,
    thorough: 2_000_000,
    case: c04,
    fixed: &[("every character, part 1", f_sweep::<0>), ("every character, part 2", f_sweep::<1>), ("every character, part 3", f_sweep::<2>), ("every character, part 4", f_sweep::<3>), ("non-ASCII text", f_unicode), ("error after non-ASCII text", f_c04)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

fn renaming(src: &mut Src, chars: &[char]) -> BTreeMap<char, char> {
    let mut m = BTreeMap::new();
    m.insert('\n', '\n');
    m.insert('\r', '\r');
    // characters below '\r' keep their place: there is little room there
    let mut low: Vec<char> = chars.iter().copied().filter(|c| *c <= '\r').collect();
    low.dedup();
    for c in low {
        m.insert(c, c);
    }
    let high: Vec<char> = chars.iter().copied().filter(|c| *c > '\r').collect();
    let k = high.len();
    let pool: Vec<char> = match src.below(6) {
        0 => ('\u{e0}'..'\u{7ff}').collect(),
        1 => ('日'..'龥').collect(),
        2 => ('\u{1f300}'..'\u{1fa00}').collect(),
        3 => (0..4000u32).filter_map(|i| char::from_u32(0x20 + i * 278)).collect(),
        4 => (0..2000u32).filter_map(|i| char::from_u32(0xff00 + i)).collect(),
        _ => (0..4000u32).filter_map(|i| char::from_u32(0x10ffff - 4000 + i)).collect(),
    };
    if k == 0 || pool.len() < k {
        for c in high {
            m.insert(c, c);
        }
        return m;
    }
    let mut at = 0usize;
    let slack = pool.len() - k;
    let mut used = 0usize;
    for (i, c) in high.into_iter().enumerate() {
        let room = (slack - used).min(1 + slack / k);
        let step = if i == 0 { src.below(room as u32 + 1) } else { src.below((room as u32 + 1).min(40)) } as usize;
        used += step;
        at += step;
        m.insert(c, pool[at]);
        at += 1;
    }
    m
}

fn c04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let large = src.chance(1, SCALED);
    let mut cfg = Cfg::general(src);
    cfg.arbitrary_names = false;
    if src.chance(2, 3) {
        cfg.alphabet.retain(|c| c.is_ascii());
        if cfg.alphabet.is_empty() {
            cfg.alphabet = vec!['a', 'b'];
        }
    }
    let mut texts = vec![];
    let rs = if large {
        let s = gen_scaled(src, false);
        ctx.label(s.kind);
        texts = s.texts;
        s.rules
    } else {
        let rs = gen_rules(src, &cfg);
        for _ in 0..4 {
            texts.push(gen_text(src, &rs, &cfg.alphabet, 5));
        }
        rs
    };
    let mut chars: Vec<char> = texts.iter().flat_map(|t| t.chars()).collect();
    for g in rs.values() {
        g.walk(&mut |g| match g {
            G::Lit(s) | G::Err(s) => chars.extend(s.chars()),
            G::Class(c, r) => {
                chars.extend(c.chars());
                r.iter().for_each(|(a, b)| {
                    chars.push(*a);
                    chars.push(*b)
                });
            }
            _ => {}
        });
    }
    chars.sort();
    chars.dedup();
    let map = renaming(src, &chars);
    let c = make(rs, cfg.alphabet)?;
    for t in texts {
        check_renaming(ctx, &c, &t, &map, if large { STEPS_LARGE } else { STEPS }).map_err(|m| clip(&m, 40_000))?;
    }
    Ok(())
}
fn ren(s: &str, m: &BTreeMap<char, char>) -> String {
    s.chars().map(|c| m.get(&c).copied().unwrap_or(c)).collect()
}
fn ren_t(t: &T, m: &BTreeMap<char, char>) -> T {
    match t {
        T::Val(s) => T::Val(ren(s, m)),
        T::Eof => T::Eof,
        T::Rule(n, v) => T::Rule(n.clone(), v.iter().map(|t| ren_t(t, m)).collect()),
    }
}
fn check_renaming(ctx: &mut Ctx, c: &Case, text: &str, m: &BTreeMap<char, char>, limit: u64) -> CaseResult {
    let (out, st) = reference_large(&c.rules, text, limit);
    if let Out::Abort = out {
        ctx.label("over the step limit, not used");
        return Ok(());
    }
    label_features(ctx, text, &out, &st);
    let rules2: Rules = c
        .rules
        .iter()
        .map(|(n, g)| {
            let g = g.map(&mut |g| match g {
                G::Lit(s) => G::Lit(ren(&s, m)),
                G::Err(s) => G::Err(ren(&s, m)),
                G::Class(s, r) => G::Class(ren(&s, m), r.iter().map(|(a, b)| (m[a], m[b])).collect()),
                g => g,
            });
            (n.clone(), g)
        })
        .collect();
    let text2 = ren(text, m);
    let set2 = sut::build(&rules2)?;
    ctx.note(|| format!("rules: {}\ntext: {:?}\nrenamed rules: {}\nrenamed text: {:?}", show_rules(&c.rules), clip(text, 300), show_rules(&rules2), clip(&text2, 300)));
    let a = sut::run(text, &c.set, false)?;
    let b = sut::run(&text2, &set2, false)?;
    let ok = match (&a, &b) {
        (SRes::Tree(x), SRes::Tree(y)) => ren_t(x, m) == *y,
        (SRes::Fail(x), SRes::Fail(y)) => {
            let needle = match &out {
                Out::Fail(f) => match &f.why {
                    Why::Lit(s) if x.descr.contains(s.as_str()) => Some(ren(s, m)),
                    Why::Error(s) if x.descr == *s => Some(ren(s, m)),
                    _ => None,
                },
                _ => None,
            };
            (x.n, x.row, x.col, x.start_line, x.critical) == (y.n, y.row, y.col, y.start_line, y.critical)
                && ren(&x.before, m) == y.before
                && ren(&x.after, m) == y.after
                && needle.map_or(true, |n| y.descr.contains(&n))
        }
        _ => false,
    };
    if !ok {
        return Err(format!(
            "rules: {}\ntext: {:?}\ngives {}\nrenamed rules: {}\nrenamed text: {:?}\ngives {}",
            show_rules(&c.rules),
            clip(text, 1000),
            sut::show_sres(&a),
            show_rules(&rules2),
            clip(&text2, 1000),
            sut::show_sres(&b)
        ));
    }
    let wider = text.chars().zip(text2.chars()).any(|(a, b)| a.len_utf8() != b.len_utf8());
    ctx.eval(wider, mix(&[c.key, hash_str(text), hash_str(&text2)]));
    Ok(())
}
fn f_c04(ctx: &mut Ctx) -> CaseResult {
    let r = rules(&[("main", G::Seq(vec![rep(G::Alt(vec![lit("a"), lit("\n")]), 0, None), lit("b"), G::Eof]))]);
    let c = make(r, vec![])?;
    for target in ['é', '日', '🎈', '\u{10fffe}'] {
        let m: BTreeMap<char, char> = [('\n', '\n'), ('\r', '\r'), ('a', 'a'), ('b', target), ('x', '\u{10ffff}')].into_iter().collect();
        let m2: BTreeMap<char, char> = [('\n', '\n'), ('\r', '\r'), ('a', '\u{80}'), ('b', target), ('x', '\u{10ffff}')].into_iter().collect();
        for t in ["aab", "aabx", "aax", "a\naab", "a\naax", "a\n\naabb", "b", ""] {
            check_renaming(ctx, &c, t, &m, STEPS)?;
            check_renaming(ctx, &c, t, &m2, STEPS)?;
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C05: Prop = Prop {
    id: "C05",
    rule: "random rule sets over alphabets with line breaks and wide characters x 6 mostly rejected texts (up to some thousand characters and hundreds of lines), and rejected PEG texts; every location field of every error recomputed from n and the text, for parse, parse_debug and rules_from_peg. Non-trivial: an error beyond the first character of a text with a line break or a non-ASCII character; distinct by rules and text",
    quick: 80_000,
    thorough: 2_500_000,
    case: c05,
    fixed: &[("multi-line errors", f_c05), ("huge cases, part 1", f_huge_location::<0>), ("huge cases, part 2", f_huge_location::<1>), ("huge cases, part 3", f_huge_location::<2>), ("huge cases, part 4", f_huge_location::<3>), ("very long texts", f_c05_long)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

pub fn check_location(text: &str, e: &SErr, what: &str) -> CaseResult {
    let len = text.chars().count();
    if e.n > len {
        return Err(format!("{}: position {} is beyond the text of {} characters", what, e.n, len));
    }
    let l = location(text, e.n);
    let got = Loc { n: e.n, row: e.row, col: e.col, start_line: e.start_line, before: e.before.clone(), after: e.after.clone() };
    if got != l {
        return Err(format!("{}: the location does not agree with the text\nexpected {:?}\ngot {:?}", what, l, got));
    }
    Ok(())
}
fn c05(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 5) {
        // errors about PEG texts
        let (rs, alphabet) = super::peg::peg_rules(src);
        let order: Vec<(&String, &G)> = rs.iter().collect();
        let text = Printer::new(src).grammar(&order, &[]);
        let mut al: Vec<char> = "()[]'\"=/ \n\r!*é日a-".chars().collect();
        al.extend(&alphabet);
        let n = src.range(1, 3);
        let mut text = text;
        for _ in 0..n {
            text = mutate(&text, &al, src);
        }
        ctx.note(|| format!("PEG text: {:?}", clip(&text, 600)));
        let r = sut::read_peg(&text)?;
        let mut nt = false;
        if let sut::PegRes::Err { parser: Some(e), .. } = &r {
            check_location(&text, e, "rules_from_peg").map_err(|m| format!("PEG text: {:?}\n{}", text, m))?;
            ctx.label("error about a PEG text");
            nt = e.n > 1 && (text.contains('\n') || !text.is_ascii());
        }
        ctx.eval(nt, hash_str(&text));
        return Ok(());
    }
    let c = gen_case(src, |cfg, src| {
        let extra: &[char] = match src.below(4) {
            0 => &['\n'],
            1 => &['\n', '\r'],
            2 => &['\n', 'é', '🎈'],
            _ => &['\r', '日', '\t', '\u{2028}'],
        };
        cfg.alphabet.extend(extra);
        cfg.alphabet.dedup();
        cfg.odd = false;
    })?;
    let many_lines = src.chance(1, 25);
    let f: &mut dyn FnMut(&mut Ctx, &Case, &str, &Out, &Stats) -> Result<bool, String> = &mut |ctx, c, t, _out, st| {
        let mut nt = false;
        for &debug in st.modes(DEBUG_COST) {
            if let SRes::Fail(e) = sut::run(t, &c.set, debug)? {
                check_location(t, &e, if debug { "parse_debug" } else { "parse" })?;
                ctx.label("error located");
                nt = e.n > 1 && (t.contains('\n') || t.contains('\r') || !t.is_ascii());
            }
        }
        Ok(nt)
    };
    if src.chance(1, SCALED) {
        return with_scaled(src, ctx, false, f);
    }
    with_texts(src, ctx, &c, 6, 7, f)?;
    if many_lines {
        // far from the start: many rows, long lines
        let n = src.range(200, 700);
        let mut t = String::new();
        for _ in 0..n {
            t.push(*src.pick(&['\n', 'a', 'b', '\r', 'é', '\n', '🎈', 'a', 'a', 'a']));
        }
        if src.bool() {
            for _ in 0..src.range(1, 300) {
                let i = src.below(4) as usize;
                t.push_str(["aaaaaaaaaa", "b\n", "é", "\n\n\n"][i]);
            }
        }
        let stop = *src.pick(&['x', '日', 'X']);
        t.push(stop);
        t.push_str(*src.pick(&["", "tail", "tail\n", "\rmore", "é\n\n", "x"]));
        let body = G::Seq(vec![not(G::Lit(stop.to_string())), G::Dot]);
        let e = match src.below(4) {
            0 => G::Seq(vec![rep(body, 0, None), lit("y")]),
            1 => G::Seq(vec![rep(body, 0, None), err("here")]),
            2 => G::Seq(vec![rep(body, 0, None), G::Eof]),
            _ => rep(body, 0, None),
        };
        let c = make(rules(&[("main", e)]), vec![])?;
        let er = |m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, m);
        for debug in [false, true] {
            match sut::run(&t, &c.set, debug).map_err(er)? {
                SRes::Fail(e) => check_location(&t, &e, "parse").map_err(er)?,
                SRes::Tree(_) => ctx.label("unexpectedly accepted"),
            }
        }
        ctx.label("text of hundreds of lines");
        ctx.eval(true, hash_str(&t));
    }
    Ok(())
}
fn f_c05(ctx: &mut Ctx) -> CaseResult {
    let r = rules(&[("main", G::Seq(vec![rep(class("ab\n\ré", &[]), 0, None), lit("!")]))]);
    let c = make(r, vec![])?;
    for t in ["", "x", "ax", "a\nbx", "a\r\nbx!", "é\néx\né", "\n\n\n", "ab\rax\rb", "é", "\r\r\n\r\u{10ffff}", "a!b", "aé\naé!\n"] {
        for d in [false, true] {
            if let SRes::Fail(e) = sut::run(t, &c.set, d)? {
                check_location(t, &e, "parse").map_err(|m| format!("text: {:?}\n{}", t, m))?;
            }
        }
        ctx.eval(true, hash_str(t));
    }
    Ok(())
}

fn f_c05_long(ctx: &mut Ctx) -> CaseResult {
    let r = rules(&[("main", G::Seq(vec![rep(class("ab\n\ré日", &[]), 0, None), lit("!")]))]);
    let c = make(r, vec![])?;
    for n in [255usize, 256, 4096, 65_535, 65_536, 65_537, 70_001] {
        for (unit, tail) in [("\n", "x"), ("a", "x"), ("日", "x\n"), ("\r", "ax"), ("a\n", "bbx"), ("\r\n", ""), ("é\n", "aax\r")] {
            let t = unit.repeat(n) + tail;
            if let SRes::Fail(e) = sut::run(&t, &c.set, false)? {
                check_location(&t, &e, "parse").map_err(|m| format!("text: {:?} repeated {} times, then {:?}\n{}", unit, n, tail, clip(&m, 600)))?;
                if e.n < n {
                    return Err(format!("text: {:?} repeated {} times, then {:?}\nthe failure is reported at {}", unit, n, tail, e.n));
                }
            }
            ctx.eval(true, mix(&[n as u64, hash_str(&t)]));
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C06: Prop = Prop {
    id: "C06",
    rule: "random rule sets x 6 mostly rejected texts; position, priority and kind (literal named, message, left-over input) of the reported failure compared with the reference interpreter. Non-trivial: rejected by both after an abandoned alternative, an iteration or a lookahead; distinct by rules and text",
    quick: 250_000,
    thorough: 3_000_000,
    case: c06,
    fixed: &[("furthest failure", f_c06), ("huge cases, part 1", f_huge_failure::<0>), ("huge cases, part 2", f_huge_failure::<1>), ("huge cases, part 3", f_huge_failure::<2>), ("huge cases, part 4", f_huge_failure::<3>)],
    special: None,
    child: None,
    assumptions: &[NO_LR, "the words of a failure are compared where they carry a literal, a message or a rule name; for end of input, any character, negation and left-over input with those of the expression failing alone; for classes not at all"],
    cpu_secs: 60,
};

/// the words of an expression that fails alone
fn words_alone(g: G, text: &str) -> String {
    let r = sut::build(&rules(&[("main", g)])).and_then(|set| sut::run(text, &set, false));
    match r {
        Ok(SRes::Fail(e)) => e.descr,
        _ => String::new(),
    }
}
/// end of input, any character, negation and left-over input are named as when they fail alone
fn check_words(f: &Fail, e: &SErr) -> CaseResult {
    static ALONE: std::sync::OnceLock<[String; 4]> = std::sync::OnceLock::new();
    let alone = ALONE.get_or_init(|| [words_alone(G::Eof, "a"), words_alone(G::Dot, ""), words_alone(not(G::Dot), "a"), words_alone(G::Seq(vec![]), "a")]);
    let i = match &f.why {
        Why::Eof => 0,
        Why::Dot => 1,
        Why::Not => 2,
        Why::NotConsumed => 3,
        _ => return Ok(()),
    };
    if e.descr != alone[i] {
        return Err(format!("expected the failure {:?} at {}, which alone is described {:?}\ngot {}", f.why, f.n, alone[i], sut::show_sres(&SRes::Fail(e.clone()))));
    }
    Ok(())
}
fn check_failure(f: &Fail, e: &SErr) -> CaseResult {
    let words = match &f.why {
        Why::Lit(s) => e.descr.contains(s.as_str()),
        Why::Error(m) => e.descr == *m,
        Why::Missing(n) => e.descr.contains(n.as_str()),
        Why::NotConsumed => e.descr.contains("consumed"),
        _ => true,
    };
    if e.n != f.n || e.critical != f.critical() || !words {
        return Err(format!("expected the failure {:?} at {}\ngot {}", f.why, f.n, sut::show_sres(&SRes::Fail(e.clone()))));
    }
    Ok(())
}
fn c06(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = gen_case(src, |cfg, src| {
        cfg.odd = cfg.odd && src.chance(1, 4);
    })?;
    let f: &mut dyn FnMut(&mut Ctx, &Case, &str, &Out, &Stats) -> Result<bool, String> = &mut |ctx, c, t, out, st| {
        let got = sut::run(t, &c.set, false)?;
        match (&got, out) {
            (SRes::Fail(e), Out::Fail(f)) => {
                check_failure(f, e)?;
                check_words(f, e)?;
                ctx.label(match f.why {
                    Why::Lit(_) => "literal mismatch reported",
                    Why::Class => "class mismatch reported",
                    Why::Dot => "any-character failure reported",
                    Why::Eof => "end-of-input failure reported",
                    Why::Not => "failed negation reported",
                    Why::Error(_) => "error constructor reported",
                    Why::Missing(_) => "undefined rule reported",
                    Why::NoAlternative => "empty choice reported",
                    Why::NotConsumed => "input left reported",
                });
                Ok(interesting(st, t))
            }
            _ => Ok(false),
        }
    };
    if src.chance(1, SCALED) {
        return with_scaled(src, ctx, false, f);
    }
    with_texts(src, ctx, &c, 6, 7, f)
}
fn f_c06(ctx: &mut Ctx) -> CaseResult {
    let sets = [
        rules(&[("main", G::Alt(vec![lit("abcd"), lit("ab"), lit("abx"), G::Seq(vec![lit("a"), class("z", &[])])]))]),
        rules(&[("main", G::Alt(vec![lit("xy"), lit("ay"), lit("az")]))]),
        rules(&[("main", G::Seq(vec![rep(lit("ab"), 0, None), rep(lit("c"), 0, Some(2))]))]),
        rules(&[("main", G::Seq(vec![rep(lit("ab"), 0, None), rf("t")])), ("t", G::Seq(vec![rep(lit("c"), 0, None), not(lit("x"))]))]),
        rules(&[("main", G::Seq(vec![lit("a"), G::Alt(vec![G::Eof, G::Seq(vec![lit("b"), G::Eof]), not(G::Dot)])]))]),
        rules(&[("main", rep(G::Alt(vec![rep(lit("ab"), 2, Some(3)), lit("a")]), 1, Some(2)))]),
    ];
    for r in sets {
        let c = make(r, vec![])?;
        for t in ["", "a", "ab", "abc", "abcx", "abx", "az", "abab", "ababa", "abccx", "abcccx", "aba", "abb", "x", "ababab", "abababab", "abcde"] {
            let got = sut::run(t, &c.set, false)?;
            if let (SRes::Fail(e), (Out::Fail(f), _)) = (&got, &reference(&c.rules, t)) {
                check_failure(f, e).and_then(|_| check_words(f, e)).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, m))?;
            }
            ctx.eval(true, mix(&[c.key, hash_str(t)]));
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C07: Prop = Prop {
    id: "C07",
    rule: "random rule sets rich in error constructors and undefined references (also without main) x 6 texts; when the reference interpreter reaches one outside a negation: error with exactly that message (or naming that rule), position and critical priority, also from parse_debug; when it reaches none: same verdict and no critical error. Non-trivial: one was reached outside a negation after at least one rule, alternative, iteration or character; distinct by rules and text",
    quick: 100_000,
    thorough: 3_000_000,
    case: c07,
    fixed: &[("constructors in every position", f_c07), ("huge cases, part 1", f_huge_critical::<0>), ("huge cases, part 2", f_huge_critical::<1>), ("huge cases, part 3", f_huge_critical::<2>), ("huge cases, part 4", f_huge_critical::<3>), ("undefined rules named nearly like defined ones", f_c07_alike)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

fn check_critical(ctx: &mut Ctx, c: &Case, t: &str, out: &Out, st: &Stats) -> Result<bool, String> {
    let mut hit = false;
    for &debug in st.modes(DEBUG_COST) {
        let got = sut::run(t, &c.set, debug)?;
        match (&got, out) {
            (SRes::Fail(e), Out::Fail(f)) if f.critical() => {
                check_failure(f, e)?;
                hit = true;
            }
            (SRes::Fail(e), Out::Fail(_)) if !e.critical => {}
            (SRes::Tree(_), Out::Tree(_)) => {}
            _ => return Err(mismatch(out, &got)),
        }
    }
    if let Out::Fail(f) = out {
        ctx.label_if(f.critical(), "stopped by a constructor or an undefined rule");
    }
    Ok(hit && interesting(st, t))
}
fn c07(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, SCALED) {
        return with_scaled(src, ctx, false, &mut |ctx, c, t, out, st| check_critical(ctx, c, t, out, st));
    }
    let mut cfg = Cfg::general(src);
    cfg.w_err = *src.pick(&[2, 4, 8]);
    cfg.w_missing = *src.pick(&[0, 1, 2]);
    cfg.w_not = *src.pick(&[0, 1, 2]);
    cfg.odd = false;
    let mut rs = gen_rules(src, &cfg);
    if src.chance(1, 60) {
        rs.remove("main");
        if src.bool() {
            rs.insert("Main".into(), G::Dot);
        }
    } else if rs.len() > 1 && src.chance(1, 12) {
        let k: Vec<String> = rs.keys().filter(|k| *k != "main").cloned().collect();
        let k = src.pick(&k).clone();
        rs.remove(&k);
    }
    let c = make(rs, cfg.alphabet)?;
    with_texts(src, ctx, &c, 6, 4, &mut |ctx, c, t, out, st| check_critical(ctx, c, t, out, st))
}
fn f_c07_alike(ctx: &mut Ctx) -> CaseResult {
    for (a, b) in alike_pairs() {
        if b == "main" {
            continue;
        }
        let mut rs = rules(&[(&a, G::Alt(vec![lit("a"), lit("b")]))]);
        rs.insert("main".into(), G::Alt(vec![lit("a"), rf(&b), rep(G::Dot, 0, None)]));
        let c = make(rs, vec![])?;
        for t in ["a", "b"] {
            let (out, st) = reference(&c.rules, t);
            check_critical(ctx, &c, t, &out, &st).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, m))?;
            ctx.eval(true, mix(&[c.key, hash_str(t)]));
        }
    }
    Ok(())
}
fn f_c07(ctx: &mut Ctx) -> CaseResult {
    for bad in [err("boom"), err(""), err("é {} %s <x>"), rf("nowhere"), G::Seq(vec![lit("a"), err("deep")]), rep(err("in rep"), 1, None), rep(err("in star"), 0, None), rf("sub")] {
        for m in [
            bad.clone(),
            G::Alt(vec![lit("a"), bad.clone(), rep(G::Dot, 0, None)]),
            G::Alt(vec![bad.clone(), rep(G::Dot, 0, None)]),
            G::Seq(vec![rep(G::Alt(vec![lit("a"), bad.clone()]), 0, None), rep(G::Dot, 0, None)]),
            G::Seq(vec![rep(G::Alt(vec![lit("a"), bad.clone()]), 3, Some(4)), rep(G::Dot, 0, None)]),
            G::Seq(vec![not(bad.clone()), rep(G::Dot, 0, None)]),
            G::Seq(vec![rep(G::Seq(vec![lit("a"), G::Alt(vec![lit("b"), bad.clone()])]), 0, None), rep(G::Dot, 0, None)]),
            G::Seq(vec![rep(rf("w"), 0, Some(1)), rep(G::Dot, 0, None)]),
        ] {
            let r = rules(&[("main", m), ("sub", G::Seq(vec![G::Dot, err("from sub")])), ("w", G::Alt(vec![G::Seq(vec![lit("a"), bad.clone()]), lit("b")]))]);
            let c = make(r, vec![])?;
            for t in ["", "a", "b", "aa", "ab", "abab", "aaaa", "abx", "é"] {
                let (out, st) = reference(&c.rules, t);
                check_critical(ctx, &c, t, &out, &st).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, m))?;
                ctx.eval(true, mix(&[c.key, hash_str(t)]));
            }
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C08: Prop = Prop {
    id: "C08",
    rule: "random rule sets (also with error constructors, undefined rules, recursion) x 6 texts; parse and parse_debug compared field by field, trace of parse empty, trace of parse_debug compared with the rules entered on the path of the reference interpreter. Non-trivial: a failure whose trace has at least two rules, or a tree with at least two; distinct by rules and text",
    quick: 80_000,
    thorough: 2_500_000,
    case: c08,
    fixed: &[("trace through alternatives and repetitions", f_c08)],
    special: None,
    child: None,
    assumptions: &[NO_LR, "the trace is compared when the two agree on the position of the failure"],
    cpu_secs: 60,
};

fn check_debug(ctx: &mut Ctx, c: &Case, t: &str, out: &Out) -> Result<bool, String> {
    let a = sut::run(t, &c.set, false)?;
    let b = sut::run(t, &c.set, true)?;
    match (&a, &b) {
        (SRes::Tree(x), SRes::Tree(y)) => {
            if x != y {
                return Err(format!("parse gives {}\nparse_debug gives {}", sut::show_sres(&a), sut::show_sres(&b)));
            }
            Ok(t_size(x) > 3)
        }
        (SRes::Fail(x), SRes::Fail(y)) => {
            let mut y2 = y.clone();
            y2.trace = x.trace.clone();
            if *x != y2 {
                return Err(format!("parse gives {}\nparse_debug gives {}", sut::show_sres(&a), sut::show_sres(&b)));
            }
            if !x.trace.is_empty() {
                return Err(format!("parse leaves a trace: {:?}", x.trace));
            }
            if let Out::Fail(f) = out {
                if f.n == x.n {
                    let want = f.trace_names();
                    let same = want.len() == y.trace.len() && want.iter().zip(&y.trace).all(|(w, g)| *g == format!("r:{}", w) || g == w);
                    if !same {
                        return Err(format!("expected the trace {:?}\ngot {:?} with {}", want, y.trace, sut::show_sres(&b)));
                    }
                    ctx.label_if(want.len() > 3, "trace of more than three rules");
                    return Ok(want.len() > 1);
                }
            }
            Ok(false)
        }
        _ => Err(format!("parse gives {}\nparse_debug gives {}", sut::show_sres(&a), sut::show_sres(&b))),
    }
}
fn c08(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = gen_case(src, |cfg, src| {
        cfg.n_rules = cfg.n_rules.max(src.range(2, 8));
        cfg.odd = false;
    })?;
    let f: &mut dyn FnMut(&mut Ctx, &Case, &str, &Out, &Stats) -> Result<bool, String> = &mut |ctx, c, t, out, st| {
        if st.modes(DEBUG_COST).len() < 2 {
            ctx.label("parse_debug too slow, not used");
            return Ok(false);
        }
        check_debug(ctx, c, t, out)
    };
    if src.chance(1, SCALED) {
        return with_scaled(src, ctx, false, f);
    }
    with_texts(src, ctx, &c, 6, 7, f)
}
fn f_c08(ctx: &mut Ctx) -> CaseResult {
    let r = rules(&[
        ("main", G::Seq(vec![rep(rf("item"), 0, None), rf("end")])),
        ("item", G::Alt(vec![rf("x"), rf("y"), G::Seq(vec![not(rf("x")), rf("paren")])])),
        ("x", G::Seq(vec![lit("x"), rf("d")])),
        ("d", class("", &[('0', '9')])),
        ("y", lit("y")),
        ("paren", G::Seq(vec![lit("("), rep(rf("item"), 1, Some(3)), G::Alt(vec![lit(")"), err("unclosed")])])),
        ("end", G::Seq(vec![not(lit("!")), G::Eof])),
    ]);
    let c = make(r, vec![])?;
    for t in ["", "x1", "x", "yy", "(y", "(yx1)y(", "((y))", "((y)", "!", "x1!", "yz", "(yyyy)"] {
        let (out, _) = reference(&c.rules, t);
        check_debug(ctx, &c, t, &out).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, m))?;
        ctx.eval(true, mix(&[c.key, hash_str(t)]));
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C24: Prop = Prop {
    id: "C24",
    rule: "odd rule sets (no main, empty sequences and choices, empty classes, reversed ranges, maximum below minimum, undefined references, empty iterations, extreme bounds, arbitrary names) x 5 Unicode texts; parse, parse_debug, every tree operation, Debug of the outcome and of the rule set, code generation: all return. Non-trivial: an odd feature is present in the rule set and the text is not empty; distinct by rules and text",
    quick: 80_000,
    thorough: 2_000_000,
    case: c24,
    fixed: &[("non-ASCII error location", f_c24)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

fn exercise(c: &Case, t: &str, names: &[String], st: &Stats) -> CaseResult {
    for &debug in st.modes(DEBUG_COST) {
        sut::sut_times(if debug { 20 } else { 1 }, || {
            let r = if debug { dynparser::parse_debug(t, &c.set) } else { dynparser::parse(t, &c.set) };
            let mut len = format!("{:?}", r).len();
            match r {
                Ok(n) => {
                    let ns: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                    let x = n.compact();
                    let y = n.prune(&ns);
                    let z = n.pass_through_except(&ns);
                    len += format!("{:?}{:?}{:?}", x, y, z).len() + n.flatten().len() + x.flatten().len() + y.compact().pass_through_except(&ns).flatten().len();
                }
                Err(e) => {
                    let pe = dynparser::peg::Error::from(e).ipush("outer");
                    len += format!("{} {:?}", pe, pe).len();
                }
            }
            len
        })?;
    }
    Ok(())
}
fn c24(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, SCALED) {
        let names = ["e", "r", "s"].map(String::from);
        return with_scaled(src, ctx, false, &mut |_ctx, c, t, _, st| {
            exercise(c, t, &names, st)?;
            Ok(t.len() > 100)
        });
    }
    let mut cfg = Cfg::general(src);
    cfg.odd = true;
    cfg.w_err = *src.pick(&[0, 1]);
    cfg.w_missing = *src.pick(&[0, 1]);
    cfg.arbitrary_names = src.bool();
    let mut rs = gen_rules(src, &cfg);
    if src.chance(1, 20) {
        rs.remove("main");
    }
    // extreme bounds around bodies that always consume
    if src.chance(1, 8) {
        let huge = *src.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 1 << 63, 65536]);
        let b = G::Seq(vec![G::Dot, rs.get("main").cloned().unwrap_or(G::Dot)]);
        let r = match src.below(4) {
            0 => rep(b, huge, None),
            1 => rep(b, 0, Some(huge)),
            2 => rep(b, huge, Some(huge)),
            _ => rep(b, huge, Some(1)),
        };
        rs.insert("main".into(), r);
    }
    if left_recursive(&rs) {
        ctx.label("left recursive, not used");
        return Ok(());
    }
    let mut odd = !rs.contains_key("main");
    for g in rs.values() {
        g.walk(&mut |g| match g {
            G::Seq(v) | G::Alt(v) if v.is_empty() => odd = true,
            G::Lit(s) if s.is_empty() => odd = true,
            G::Class(s, r) if (s.is_empty() && r.is_empty()) || r.iter().any(|(a, b)| a > b) => odd = true,
            G::Rep(_, m, Some(x)) if x < m => odd = true,
            G::Rep(_, m, _) if *m > 1000 => odd = true,
            G::Ref(n) if !rs.contains_key(n) => odd = true,
            _ => {}
        });
    }
    let c = make(rs, cfg.alphabet)?;
    sut::sut(|| (format!("{:?}", c.set).len(), dynparser::peg::gcode::rust_from_rules(&c.set).len())).map_err(|m| format!("rules: {}\n{}", show_rules(&c.rules), m))?;
    let names: Vec<String> = c.rules.keys().take(3).cloned().collect();
    ctx.label_if(odd, "odd rule set");
    with_texts(src, ctx, &c, 5, 6, &mut |_ctx, c, t, _, st| {
        exercise(c, t, &names, st)?;
        Ok(odd && !t.is_empty())
    })
}
fn f_c24(ctx: &mut Ctx) -> CaseResult {
    for m in [lit("é!"), G::Alt(vec![]), G::Seq(vec![]), rep(G::Alt(vec![]), 0, Some(0)), rep(rep(lit(""), 0, None), 0, None), G::Class("".into(), vec![('z', 'a')]), rep(G::Dot, 3, Some(1)), rf("main2"), rep(G::Seq(vec![]), 1, Some(usize::MAX)), G::Seq(vec![rep(G::Dot, 0, None), lit("x")])] {
        let c = make(rules(&[("main", m)]), vec![])?;
        for t in ["", "é", "éx", "日本\n語", "🎈\r\n🎈", "\u{10ffff}", "aé\naé\naé"] {
            exercise(&c, t, &["main".into()], &Stats::default()).map_err(|m| format!("rules: {}\ntext: {:?}\n{}", show_rules(&c.rules), t, m))?;
            ctx.eval(true, mix(&[c.key, hash_str(t)]));
        }
    }
    let c = make(Rules::new(), vec![])?;
    exercise(&c, "é", &[], &Stats::default())
}
