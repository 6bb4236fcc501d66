//! PEG texts, generated code, macros: C10 C11 C12 C13 C14 C25 C26 C27

use super::engine::full_alphabet;
use super::{Prop, NO_LR};
use crate::compile::{Got, Item, Pkg};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::pegref::{self, Read};
use crate::runner::{Opts, Report, Special};
use crate::scale;
use crate::sut::{self, sut, PegRes, SRes};
use dynparser::peg;

/// a grammar that PEG text can express
pub fn peg_rules(src: &mut Src) -> (Rules, Vec<char>) {
    if src.chance(1, 60) {
        let s = scale::gen_scaled_peg(src, 300);
        return (s.rules, s.alphabet);
    }
    let mut cfg = Cfg::peg(src);
    if src.chance(2, 3) {
        cfg.deep = cfg.deep.min(4);
    }
    let mut rs = gen_rules(src, &cfg);
    // "error" as the name of a rule reads as the beginning of error(...)
    if rs.contains_key("error") {
        let f = |g: &G| {
            g.map(&mut |g| match g {
                G::Ref(n) if n == "error" => rf("err"),
                g => g,
            })
        };
        let e = rs.remove("error").unwrap();
        rs.entry("err".into()).or_insert(e);
        rs = rs.iter().map(|(k, g)| (k.clone(), f(g))).collect();
    }
    // PEG text has no empty sequences, choices or classes
    let rs = rs
        .into_iter()
        .map(|(k, g)| {
            (
                k,
                g.map(&mut |g| match g {
                    G::Eof => lit(""),
                    G::Seq(mut v) | G::Alt(mut v) if v.len() == 1 => v.pop().unwrap(),
                    g => g,
                }),
            )
        })
        .collect();
    (rs, cfg.alphabet)
}

/// the text of the grammar, with the certainty of the independent reader that it denotes it
fn print_grammar(src: &mut Src, rs: &Rules) -> Result<(String, u32), &'static str> {
    let mut order: Vec<(&String, &G)> = rs.iter().collect();
    src.shuffle(&mut order);
    let decoys: Vec<G> = vec![lit("decoy"), G::Dot, G::Alt(vec![lit("x"), err("decoy")])];
    let mut p = Printer::new(src);
    let text = p.grammar(&order, &decoys);
    let features = p.features;
    // reading takes allocations in proportion to the length, and copies the line over and over
    let line = text.split('\n').map(|l| l.len()).max().unwrap_or(0);
    if text.len() > 60_000 || text.len() * line > 300_000_000 {
        return Err("printed text is too long, not used");
    }
    match pegref::read(&text) {
        Read::Grammar(r) => match equivalent(rs, &r, &mut Src::replay(vec![])) {
            Ok(()) => Ok((text, features)),
            Err(_) => Err("printed text denotes another grammar, not used"),
        },
        Read::Abort => Err("nested too deeply, not used"),
        _ => Err("printed text is not PEG, not used"),
    }
}

fn read_ok(text: &str) -> Result<(Rules, dynparser::parser::expression::SetOfRules), String> {
    match sut::read_peg(text)? {
        PegRes::Rules(r, s) => Ok((r, s)),
        PegRes::Err { shown, .. } => Err(format!("expected rules\ngot the error {}", clip(&shown, 600))),
    }
}

/// the text has to be read as the reference reads it
fn check_read(text: &str, src: &mut Src) -> Result<&'static str, String> {
    let r = pegref::read(text);
    let got = sut::read_peg(text)?;
    match (r, got) {
        (Read::Abort, _) => Ok("nested too deeply, not used"),
        (Read::Grammar(want), PegRes::Rules(got, _)) => {
            equivalent(&want, &got, src)?;
            Ok("read as a grammar")
        }
        (Read::Reject, PegRes::Err { .. }) => Ok("refused"),
        (Read::Unbalanced(_), PegRes::Err { parser: Some(e), shown }) => {
            if !e.critical || !e.descr.contains("unbalanced") || !shown.contains("unbalanced") {
                return Err(format!("expected the message about unbalanced parentheses\ngot {}", clip(&shown, 800)));
            }
            Ok("refused as unbalanced")
        }
        (Read::Unbalanced(_), PegRes::Err { shown, .. }) => Err(format!("expected the message about unbalanced parentheses\ngot {}", clip(&shown, 800))),
        (Read::Grammar(want), PegRes::Err { shown, .. }) => Err(format!("expected {}\ngot the error {}", show_rules(&want), clip(&shown, 800))),
        (Read::Reject, PegRes::Rules(got, _)) => Err(format!("expected to be refused\ngot {}", show_rules(&got))),
        (Read::Unbalanced(n), PegRes::Rules(got, _)) => Err(format!("expected to be refused as unbalanced at {}\ngot {}", n, show_rules(&got))),
    }
}

fn fixed_texts(ctx: &mut Ctx, texts: &[&str]) -> CaseResult {
    for t in texts {
        let l = check_read(t, &mut Src::replay(vec![])).map_err(|m| format!("PEG text: {:?}\n{}", t, m))?;
        ctx.label(l);
        ctx.eval(true, hash_str(t));
    }
    Ok(())
}

/// PEG texts that are large in one direction, and what they must be read as
fn big_texts() -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let mut add = |what: String, t: String| out.push((what, t));
    let w = |i: usize| format!("'<{}>'", i);
    for n in [31usize, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600, 1025] {
        let ws: Vec<String> = (0..n).map(w).collect();
        add(format!("{} alternatives", n), format!("main = {}\n", ws.join(" / ")));
        add(format!("a sequence of {}", n), format!("main = {}\n", ws.join(" ")));
        add(format!("{} alternatives in parentheses", n), format!("main = 'a' ({})* b\nb = 'b'\n", ws.join("\n  / ")));
        add(format!("a name of {} parts", n), format!("main = {0}\n{0} = 'a'\n", vec!["ab"; n].join(".")));
        add(format!("a name of {} letters", n), format!("main = {0}b {0}\n{0} = 'a'\n{0}b = 'c'\n", "n".repeat(n)));
        add(format!("a literal of {}", n), format!("main = '{}' \"{}\"\n", "aé".repeat(n / 2), "\\n日".repeat(n / 2)));
        add(format!("a message of {}", n), format!("main = 'a' / error('{}')\n", "ma ".repeat(n)));
        add(format!("a class of {}", n), format!("main = [{}]\n", (0..n as u32).filter_map(|i| std::char::from_u32(0x4e00 + 2 * i)).collect::<String>()));
        add(format!("{} ranges", n), format!("main = [{}]\n", (0..n as u32).map(|i| format!("{}-{}", std::char::from_u32(0x4e00 + 4 * i).unwrap(), std::char::from_u32(0x4e02 + 4 * i).unwrap())).collect::<String>()));
        add(format!("{} blanks and lines", n), format!("{1}main{0}={0}'a'{0}'b'{1}{0}/{0}b{1}b{0}={0}.{1}", " ".repeat(n), "\n".repeat(n)));
        add(format!("{} comments", n), format!("{}main = 'a' {} 'b'\n{}", "// c 'x' = \n".repeat(n), "/* d\n*/".repeat(n), "/* e */\n".repeat(n)));
        add(format!("a comment of {} characters", n), format!("// {0}\nmain = 'a' /* {0} */ // {0}\n", "c".repeat(n)));
        add(format!("{} modules", n), format!("{}main = 'a'\n", (0..n).map(|i| format!("m{} {{\nr{} = 'a'\n}}\n", i, i)).collect::<String>()));
    }
    for n in [10usize, 12, 20, 40] {
        add(format!("a name of {} parts", n), format!("main = {0} .{0}\n{0} = 'a'\n.{0} = 'b'\n", vec!["a"; n].join(".")));
        add(format!("{} operators", n), format!("main = {}\n", (0..n).map(|i| format!("a{}", ["*", "+", "?"][i % 3])).collect::<Vec<_>>().join(" ") + "\na = 'a'"));
    }
    for n in [255usize, 257, 999, 1001, 1200, 2500, 4100] {
        add(format!("{} rules", n), (0..n).map(|i| format!("r{} = '{}'\n", i, i)).collect());
        add(format!("{} rules defined twice", n / 2), (0..n / 2 * 2).map(|i| format!("r{} = '{}'\n", i % (n / 2), i)).collect());
        add(format!("{} rules that use each other", n), (0..n).map(|i| format!("r{} = 'a' r{} / 'b'\n", i, (i + 7) % n)).collect());
    }
    for n in [32_768usize, 65_536, 66_000, 131_072] {
        add(format!("{} bytes of comments", n), "// a comment\n".repeat(n / 13) + "main = 'a'\n");
        add(format!("{} bytes of rules and comments", n), (0..n / 40).map(|i| format!("// number {:10}\nr{:06} = 'a'  'b'\n", i, i)).collect());
        add(format!("{} empty lines", n), "\n".repeat(n / 2) + "main = 'a'\n" + &"\r\n".repeat(n / 4));
    }
    out
}
fn f_big<const P: usize>(ctx: &mut Ctx) -> CaseResult {
    for (_, (what, t)) in big_texts().into_iter().enumerate().filter(|(i, _)| i % 4 == P) {
        let l = check_read(&t, &mut Src::replay(vec![])).map_err(|m| format!("{}\nPEG text: {:?}\n{}", what, clip(&t, 3000), clip(&m, 3000)))?;
        if l != "read as a grammar" {
            return Err(format!("{}: {}\nPEG text: {:?}", what, l, clip(&t, 3000)));
        }
        ctx.label("large, read as a grammar");
        ctx.eval(true, hash_str(&t));
    }
    Ok(())
}

//-----------------------------------------------------------------------
//  C10

pub static C10: Prop = Prop {
    id: "C10",
    rule: "random grammars printed as PEG text with random layout (blanks, three kinds of line ends, line and block comments with any content, redundant parentheses, escapes, order of rules, replaced earlier definitions), read, and compared with the grammar printed: structure up to regrouping and class notation, or verdicts, trees and messages on sampled texts; and the same grammar printed twice. Texts that an independent hand-written reader of the documented syntax reads differently are not used (counted). Non-trivial: the grammar has a choice, sequence or operator and the text a comment, parentheses, escape or unusual line end; distinct by text",
    quick: 24_000,
    thorough: 1_200_000,
    case: c10,
    fixed: &[("comments and line ends", f_c10), ("large texts, part 1", f_big::<0>), ("large texts, part 2", f_big::<1>), ("large texts, part 3", f_big::<2>), ("large texts, part 4", f_big::<3>), ("precedence", f_c10_prec)],
    special: None,
    child: None,
    assumptions: &["grammars of the documented syntax: a rule named error, and classes that cannot be written, are left out", "nesting of parentheses up to about 40 levels"],
    cpu_secs: 60,
};

fn c10(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let rs = if src.chance(1, 60) {
        let s = scale::gen_scaled_peg(src, 1100);
        ctx.label(s.kind);
        s.rules
    } else {
        peg_rules(src).0
    };
    let mut first: Option<String> = None;
    for _ in 0..2 {
        let (text, features) = match print_grammar(src, &rs) {
            Ok(x) => x,
            Err(l) => {
                ctx.label(l);
                continue;
            }
        };
        ctx.note(|| format!("rules: {}\ntext: {:?}", clip(&show_rules(&rs), 500), clip(&text, 900)));
        let where_ = |m: String| format!("PEG text: {:?}\ngrammar: {}\n{}", clip(&text, 20_000), clip(&show_rules(&rs), 20_000), clip(&m, 8000));
        let (got, _) = read_ok(&text).map_err(where_)?;
        equivalent(&rs, &got, src).map_err(where_)?;
        ctx.label_if(features & F_LINE_COMMENT != 0, "with a line comment");
        ctx.label_if(features & F_BLOCK_COMMENT != 0, "with a block comment");
        ctx.label_if(features & F_PARENS != 0, "with parentheses");
        ctx.label_if(features & F_EOL_SEP != 0, "sequence over several lines");
        ctx.label_if(features & F_ESC != 0, "with a double-quoted literal");
        ctx.label_if(features & F_DUP != 0, "with an earlier definition replaced");
        ctx.label_if(features & F_MODULE != 0, "with a module");
        ctx.label_if(text.contains('\r'), "with a carriage return");
        let composite = rs.values().any(|g| matches!(g, G::Seq(_) | G::Alt(_) | G::Rep(..) | G::Not(_)));
        ctx.eval(composite && features != 0, hash_str(&text));
        if let Some(f) = &first {
            ctx.label_if(*f != text, "two layouts of one grammar");
        }
        first = Some(text);
    }
    Ok(())
}
fn f_c10(ctx: &mut Ctx) -> CaseResult {
    fixed_texts(
        ctx,
        &[
            "main = 'a'  // comment\nb = 'b'\n",
            "main = 'a'// comment\r\nb = 'b' /* x */ // y\r\n",
            "main = 'a' /* c */ 'b' /* d */ / 'c'\n",
            "// first\nmain = 'a'\n// last\n",
            "/* first */ main = // here\n 'a' // and\n 'b'\n",
            "main = ( // in\n 'a' / /**/ 'b' /***/ )\n",
            "main = 'a' // without end",
            "main = 'a'\n\n\n// end",
            "main = 'a'\r\n     / 'b'\r\n     / 'c' d\r\nd = .\r\n",
            "main = 'a'\r     / 'b' d\rd = .\r",
            "main='a'/'b'\n",
            "main = a b\na = 'x'\nb = 'y'\nmain = b a\n",
            "main = a // = not a rule\n 'b' // { neither\n",
            "main = 'a' /* * / ** */ 'b'\n",
            "main = a\na = 'x'\nm {\na = 'y'\nb = 'z'\n}\n",
            "m {\na = 'y'\n}\nmain = a\na = 'x'\n",
            "m {\na = 'y'\n}\nn {\na = 'z'\nmain = a\n}\n",
            "main = a\nm {\na = 'x'\nn {\na = 'y'\nb = 'b'\n}\na = 'z'\n}\n",
            "main = a b\nm{a='x'\nb='y'\n}\nb = 'b'\nm{b='c'\n}\n",
        ],
    )
}
fn f_c10_prec(ctx: &mut Ctx) -> CaseResult {
    for (t, g) in [
        ("a b / c d", G::Alt(vec![G::Seq(vec![rf("a"), rf("b")]), G::Seq(vec![rf("c"), rf("d")])])),
        ("a (b / c) d", G::Seq(vec![rf("a"), G::Alt(vec![rf("b"), rf("c")]), rf("d")])),
        ("!a b* / c+ d?", G::Alt(vec![G::Seq(vec![not(rf("a")), rep(rf("b"), 0, None)]), G::Seq(vec![rep(rf("c"), 1, None), rep(rf("d"), 0, Some(1))])])),
        ("!(a b)", not(G::Seq(vec![rf("a"), rf("b")]))),
        ("(a b)*", rep(G::Seq(vec![rf("a"), rf("b")]), 0, None)),
        ("a / b / c", G::Alt(vec![rf("a"), rf("b"), rf("c")])),
        ("((a))", rf("a")),
        ("(a / b)+ (c d)?", G::Seq(vec![rep(G::Alt(vec![rf("a"), rf("b")]), 1, None), rep(G::Seq(vec![rf("c"), rf("d")]), 0, Some(1))])),
        (". .a.b a.b", G::Seq(vec![G::Dot, rf(".a.b"), rf("a.b")])),
        ("a error(\"x\") b", G::Seq(vec![rf("a"), err("x"), rf("b")])),
        ("a / error('x')", G::Alt(vec![rf("a"), err("x")])),
        ("!!a", rf("never read")),
    ] {
        let text = format!("main = {}\na = 'a'\nb = 'b'\nc = 'c'\nd = 'd'\na.b = 'ab'\n.a.b = '.ab'\n", t);
        if t == "!!a" {
            if let PegRes::Rules(r, _) = sut::read_peg(&text)? {
                return Err(format!("PEG text: {:?}\nexpected to be refused (negation takes an atom or parentheses)\ngot {}", text, show_rules(&r)));
            }
            continue;
        }
        let want = rules(&[("main", g), ("a", lit("a")), ("b", lit("b")), ("c", lit("c")), ("d", lit("d")), ("a.b", lit("ab")), (".a.b", lit(".ab"))]);
        let (got, _) = read_ok(&text).map_err(|m| format!("PEG text: {:?}\n{}", text, m))?;
        equivalent(&want, &got, &mut Src::replay(vec![])).map_err(|m| format!("PEG text: {:?}\n{}", text, m))?;
        ctx.eval(true, hash_str(t));
    }
    Ok(())
}

//-----------------------------------------------------------------------
//  C11

pub static C11: Prop = Prop {
    id: "C11",
    rule: "random contents between quotes (all characters, escapes, broken and lower-case escapes) as literal and as message of error(...), random contents between brackets as class; what they denote by the documented syntax compared with the rule built and with what it matches: the denoted text itself, prefixes, corruptions, the raw contents; every character near the ends of the class. Non-trivial: the contents have a backslash, quote, bracket, dash, control or non-ASCII character; distinct by contents",
    quick: 350_000,
    thorough: 3_000_000,
    case: c11,
    fixed: &[("escapes", f_c11), ("classes", f_c11_class), ("words that look alike", f_c11_alike)],
    special: None,
    child: None,
    assumptions: &["contents up to a few hundred characters"],
    cpu_secs: 60,
};

fn raw_content(src: &mut Src, quote: char) -> String {
    let n = if src.chance(1, 100) { scale::size(src) } else { length(src, 200) };
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[5, 3, 3, 2, 2, 2]) {
            0 => s.push(any_char(src)),
            5 => {
                // near hexadecimal digits
                s.push_str("\\0x");
                for _ in 0..2 {
                    s.push(*src.pick(&['0', '4', '9', 'A', 'F', 'G', 'Z', '@', '/', ':', 'a', 'f', 'g', '`']));
                }
            }
            1 => s.push_str(src.pick(&["\\n", "\\r", "\\t", "\\\\", "\\\"", "\\'", "\\", "\\\\\\", "\\N", "\\0", "\\a", "\\u{41}", "\\e"])),
            2 => s.push_str(&format!("\\0x{:02X}", src.below(256))),
            3 => s.push_str(src.pick(&["\\0x4", "\\0xa1", "\\0xAg", "\\0X41", "0x41", "\\x41", "\\0x", "\\0xFF", "\\0x00", "\\0x7F", "\\0xff", "\\00x41", "\\\\0x41"])),
            _ => s.push(*src.pick(&['a', '"', '\'', '\n', '\r', ' ', 'é', '🎈', '/', '*', ']', '['])),
        }
    }
    s.retain(|c| c != quote || src.chance(1, 60));
    s
}

/// the rule set has to have the rule main that matches exactly the text
fn check_literal(s: &str, set: &dynparser::parser::expression::SetOfRules, tries: &[String]) -> CaseResult {
    match sut::run(s, set, false)? {
        SRes::Tree(t) if leaf_text(&t) == s => {}
        r => return Err(format!("the literal is {:?}: expected to match that text\ngot {}", s, sut::show_sres(&r))),
    }
    for t in tries {
        if t != s {
            if let SRes::Tree(x) = sut::run(t, set, false)? {
                return Err(format!("the literal is {:?}: expected not to match {:?}\ngot {}", s, t, show_t(&x)));
            }
        }
    }
    Ok(())
}
fn c11(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.below(3) {
        0 | 1 => {
            let single = src.bool();
            let q = if single { '\'' } else { '"' };
            let raw = raw_content(src, q);
            let is_error = src.chance(1, 3);
            let l = format!("{}{}{}", q, raw, q);
            let text = if is_error { format!("main = error({})\n", l) } else { format!("main = {}\n", l) };
            ctx.note(|| format!("text: {:?}", text));
            check_lit_text(src, ctx, &text, &raw)?;
            ctx.label(if is_error { "message" } else if single { "single-quoted" } else { "double-quoted" });
            Ok(())
        }
        _ => {
            let n = if src.chance(1, 100) { scale::size(src).min(1100) } else { src.geo(3, 4, 20) };
            let mut raw = String::new();
            for _ in 0..n {
                match src.weighted(&[4, 3, 2]) {
                    0 => raw.push(any_char(src)),
                    1 => {
                        let a = any_char(src);
                        let b = if src.bool() { any_char(src) } else { char::from_u32(a as u32 + src.below(30)).unwrap_or(a) };
                        raw.push(a);
                        raw.push('-');
                        raw.push(b);
                    }
                    _ => raw.push(*src.pick(&['a', '-', '[', '\\', '^', ']', '\'', '"', '0', '\n'])),
                }
            }
            let text = format!("main = [{}]\n", raw);
            ctx.note(|| format!("text: {:?}", text));
            check_class_text(src, ctx, &text)
        }
    }
}
fn check_lit_text(src: &mut Src, ctx: &mut Ctx, text: &str, raw: &str) -> CaseResult {
    let w = |m: String| format!("PEG text: {:?}\n{}", text, m);
    let got = sut::read_peg(text)?;
    match pegref::read(text) {
        Read::Grammar(want) => {
            let (got, set) = match got {
                PegRes::Rules(r, s) => (r, s),
                PegRes::Err { shown, .. } => return Err(w(format!("expected {}\ngot the error {}", show_rules(&want), clip(&shown, 500)))),
            };
            match want.get("main") {
                Some(G::Lit(s)) if want.len() == 1 => {
                    let mut tries = vec![raw.to_string(), format!("{}a", s)];
                    for _ in 0..3 {
                        tries.push(mutate(s, &['a', '\\', 'n', '\n'], src));
                    }
                    let mut p: Vec<char> = s.chars().collect();
                    if p.pop().is_some() {
                        tries.push(p.iter().collect());
                    }
                    check_literal(s, &set, &tries).map_err(w)?;
                }
                Some(G::Err(m)) if want.len() == 1 => match sut::run("a", &set, false)? {
                    SRes::Fail(e) if e.descr == *m && e.critical => {}
                    r => return Err(w(format!("expected the message {:?}\ngot {}", m, sut::show_sres(&r)))),
                },
                _ => {
                    equivalent(&want, &got, src).map_err(w)?;
                }
            }
        }
        Read::Abort => return Ok(()),
        _ => {
            ctx.label("not a grammar");
            if let PegRes::Rules(r, _) = got {
                return Err(w(format!("expected to be refused\ngot {}", show_rules(&r))));
            }
        }
    }
    ctx.eval(raw.chars().any(|c| !c.is_ascii_alphanumeric() && c != ' '), hash_str(text));
    Ok(())
}
fn check_class_text(src: &mut Src, ctx: &mut Ctx, text: &str) -> CaseResult {
    let w = |m: String| format!("PEG text: {:?}\n{}", text, m);
    let got = sut::read_peg(text)?;
    match pegref::read(text) {
        Read::Grammar(want) => {
            let (got, set) = match got {
                PegRes::Rules(r, s) => (r, s),
                PegRes::Err { shown, .. } => return Err(w(format!("expected {}\ngot the error {}", show_rules(&want), clip(&shown, 500)))),
            };
            match want.get("main") {
                Some(G::Class(cs, rs)) if want.len() == 1 => {
                    let mut probes = alphabet(&want);
                    probes.truncate(60);
                    for _ in 0..6 {
                        probes.push(any_char(src));
                    }
                    probes.extend(['\\', '-', ']', '[', '^', 'n', '\n', 'a']);
                    for (a, b) in rs {
                        if a < b {
                            probes.extend(char::from_u32((*a as u32 + *b as u32) / 2));
                        }
                    }
                    for c in probes {
                        let t = c.to_string();
                        let r = sut::run(&t, &set, false)?;
                        let ok = in_class(c, cs, rs);
                        if ok != matches!(r, SRes::Tree(_)) {
                            return Err(w(format!("the class is {:?} {:?}: expected {:?} to be {}\ngot {}", cs, rs, c, if ok { "in it" } else { "outside" }, sut::show_sres(&r))));
                        }
                    }
                }
                _ => equivalent(&want, &got, src).map_err(w)?,
            }
            ctx.label("class");
        }
        Read::Abort => return Ok(()),
        _ => {
            ctx.label("not a grammar");
            if let PegRes::Rules(r, _) = got {
                return Err(w(format!("expected to be refused\ngot {}", show_rules(&r))));
            }
        }
    }
    ctx.eval(text[8..].chars().any(|c| !c.is_ascii_alphanumeric()), hash_str(text));
    Ok(())
}
fn f_c11(ctx: &mut Ctx) -> CaseResult {
    let src = &mut Src::replay(vec![]);
    for raw in ["", "\\", "\\\\", "a\\", "\\n", "\\\"", "\\0x41", "é\\é", "\n", "\\\\n", "\"", "//", "/*", "\\0xE9", "\\0x0A", "\\0xFF", "\\0x00", "\\0x7F\\0x80", "0x41", "\\t\\r\\n", "\\'", "a'b"] {
        for q in ['\'', '"'] {
            for f in ["main = Q\n", "main = error(Q)\n", "main = 'x' Q 'y'\n", "main = (Q)*\n"] {
                let l = format!("{}{}{}", q, raw, q);
                check_lit_text(src, ctx, &f.replace('Q', &l), raw)?;
            }
        }
    }
    // all the hexadecimal escapes
    for k in 0..256u32 {
        for raw in [format!("\\0x{:02X}", k), format!("a\\0x{:02X}b", k)] {
            check_lit_text(src, ctx, &format!("main = \"{}\"\n", raw), &raw)?;
        }
    }
    Ok(())
}
fn f_c11_alike(ctx: &mut Ctx) -> CaseResult {
    let src = &mut Src::replay(vec![]);
    let mut words: Vec<String> = alike_pairs().into_iter().map(|p| p.0).collect();
    words.dedup();
    for raw in words {
        for q in ['\'', '"'] {
            let raw = raw.replace(q, "");
            check_lit_text(src, ctx, &format!("main = {}{}{}\n", q, raw, q), &raw)?;
        }
    }
    Ok(())
}
fn f_c11_class(ctx: &mut Ctx) -> CaseResult {
    let src = &mut Src::replay(vec![]);
    for raw in ["a", "abc", "a-z", "a-zA-Z0-9", "_a-z", "-a-z", "-", "--", "---", "a-", "-a", "+--", "\\n", "\\\\", "\\-a", "^a", "^a-z", "[", "[-]", "a-]", "]", "]-a", "", " ", "\n", "é-ñ", "日本", "🎈-🎉", "'\"", "z-a", "a-a", "a-bc-d", "abc-d", "a-b-c", "0-9-"] {
        check_class_text(src, ctx, &format!("main = [{}]\n", raw))?;
    }
    Ok(())
}

//-----------------------------------------------------------------------
//  C12

pub static C12: Prop = Prop {
    id: "C12",
    rule: "texts: printed random grammars, also inside modules; the project's own grammar; both corrupted by characters, tokens, cuts, and lines moved, characters that are no blanks added at the ends or next to blanks; sequences of random tokens; random strings; texts sampled from the documented syntax with one or two small changes to its rules. Reading compared with an independent hand-written reader of the documented syntax: the same grammar, or refused, or refused with the message about parentheses. Non-trivial: longer than 5 characters and either read as a grammar or one edit away from a valid one; distinct by text",
    quick: 48_000,
    thorough: 2_400_000,
    case: c12,
    fixed: &[("shapes", f_c12), ("large texts, part 1", f_big::<0>), ("large texts, part 2", f_big::<1>), ("large texts, part 3", f_big::<2>), ("large texts, part 4", f_big::<3>), ("the own grammar cut anywhere", f_c12_cut)],
    special: None,
    child: None,
    assumptions: &["texts whose parentheses or modules nest deeper than about 100 levels are not used", "rules of modules are taken to be added under the names written, as now"],
    cpu_secs: 60,
};

const TOKENS: &[&str] = &[
    "main", "a", "b", ".a", "a.b", "=", "=", "/", "(", ")", "*", "+", "?", "!", ".", "'a'", "'b c'", "\"x\"", "\"\\n\"", "[a-z]", "[abc]", "[", "]", "error", "error('x')", "error(\"y\")", " ", " ", " ", " ", "\n", "\n", "\r\n", "// c\n", "/* c */", "{", "}", "'", "\"", "\\", "-",
    "é", "''", "\"\"", "//", "/*", "*/", "\t", "mod", ",", "[]", "error (", "0", "_", "\r",
];

fn c12(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let kind = src.weighted(&[4, 6, 3, 1, 2, 2, 5, 2]);
    let valid = |src: &mut Src| -> String {
        if src.chance(1, 6) {
            return own_grammar().to_string();
        }
        let mut cfg_rules = || {
            let (mut rs, _) = peg_rules(src);
            // short grammars, so that edits matter
            while rs.len() > 3 {
                let k = rs.keys().find(|k| *k != "main").unwrap().clone();
                rs.remove(&k);
            }
            let mut order: Vec<(&String, &G)> = rs.iter().collect();
            src.shuffle(&mut order);
            let mut p = Printer::new(src);
            p.grammar(&order, &[lit("decoy")])
        };
        let t = cfg_rules();
        if src.chance(1, 6) {
            let name = *src.pick(&["mod", "a", "m1", "main", "_"]);
            let inner = t.clone();
            let nl = *src.pick(&["\n", "", " "]);
            let pre = *src.pick(&["", "main = 'a'\n", "x = m.y\n"]);
            let post = *src.pick(&["", "z = 'z'\n", "main = .\n"]);
            return format!("{}{} {{{}{}}}\n{}", pre, name, nl, inner, post);
        }
        t
    };
    let text = match kind {
        0 => valid(src),
        1 => {
            let t = valid(src);
            let al: Vec<char> = " \n='\"()[]/*+?!.{}-\\a\r".chars().collect();
            let mut t: Vec<char> = t.chars().collect();
            for _ in 0..1 + src.geo(1, 3, 3) {
                let n = t.len() as u32;
                let i = src.below(n + 1) as usize;
                match src.below(7) {
                    0 if n > 0 => {
                        t.remove(i.min(n as usize - 1));
                    }
                    1 => t.insert(i, *src.pick(&al)),
                    2 if n > 0 => {
                        let i = i.min(n as usize - 1);
                        t[i] = *src.pick(&al)
                    }
                    3 => t.truncate(i),
                    4 => {
                        let tok: Vec<char> = src.pick(TOKENS).chars().collect();
                        for (k, c) in tok.into_iter().enumerate() {
                            t.insert(i + k, c);
                        }
                    }
                    5 => {
                        t.drain(..i.min(4));
                    }
                    _ => t.insert(i, any_char(src)),
                }
            }
            t.into_iter().collect()
        }
        2 => {
            let n = src.range(1, 25);
            (0..n).map(|_| *src.pick(TOKENS)).collect()
        }
        3 => any_string(src, 100),
        6 => near_peg_text(src).0,
        7 => {
            // a character that is no blank where a blank may be
            let t: Vec<char> = valid(src).chars().collect();
            let c = if src.bool() { *src.pick(ODD) } else { *src.pick(&['\t', '\u{b}', '\u{c}', '\u{1a}', '\u{feff}', '\u{a0}', '\u{85}', '\u{2028}', '\u{2029}', '\u{3000}', '#', ';', ',', '\0']) };
            let mut places = vec![0, t.len()];
            for _ in 0..4 {
                places.extend((0..t.len()).filter(|i| " \n\r".contains(t[*i])).nth(src.below(1 + t.len() as u32 / 4) as usize));
            }
            let i = *src.pick(&places);
            t[..i].iter().chain(std::iter::once(&c)).chain(&t[i..]).collect()
        }
        4 => {
            // a rule of random tokens
            let n = src.range(1, 12);
            let mut s = String::from("main = ");
            for _ in 0..n {
                s.push_str(src.pick(TOKENS));
                if src.bool() {
                    s.push(' ');
                }
            }
            s.push('\n');
            s
        }
        _ => {
            // lines of a valid text moved
            let t = valid(src);
            let mut l: Vec<String> = t.split_inclusive('\n').map(|s| s.to_string()).collect();
            if l.len() > 1 {
                let i = src.below(l.len() as u32) as usize;
                let j = src.below(l.len() as u32) as usize;
                l.swap(i, j);
            }
            if src.bool() && !l.is_empty() {
                let i = src.below(l.len() as u32) as usize;
                l.remove(i);
            }
            l.concat()
        }
    };
    ctx.note(|| format!("text: {:?}", clip(&text, 500)));
    let l = check_read(&text, src).map_err(|m| format!("PEG text: {:?}\n{}", clip(&text, 5000), m))?;
    ctx.label(l);
    ctx.label(["valid", "valid, corrupted", "tokens", "random characters", "a rule of tokens", "lines moved", "of a syntax slightly different", "with a character that is no blank"][kind]);
    ctx.eval(text.chars().count() > 5 && (l == "read as a grammar" || kind == 1 || kind >= 5 || l == "refused as unbalanced"), hash_str(&text));
    Ok(())
}
/// What is reached inside the crate. When the hook does not build against the tree, run.sh builds
/// without it C13 looks from outside (`without_hook`), the other checks do not need it
pub mod hook {
    use dynparser::parser::expression::SetOfRules;
    pub const HERE: bool = cfg!(dynparser_verif);
    #[cfg(dynparser_verif)]
    pub fn peg_text() -> &'static str {
        dynparser::peg::peg2code::verif_peg_text()
    }
    #[cfg(dynparser_verif)]
    pub fn peg_rules() -> SetOfRules {
        dynparser::peg::verif_peg_rules()
    }
    #[cfg(not(dynparser_verif))]
    pub fn peg_text() -> &'static str {
        include_str!("../peg_syntax.txt")
    }
    #[cfg(not(dynparser_verif))]
    pub fn peg_rules() -> SetOfRules {
        unreachable!()
    }
}
fn own_grammar() -> &'static str {
    hook::peg_text()
}
fn f_c12(ctx: &mut Ctx) -> CaseResult {
    fixed_texts(
        ctx,
        &[
            "", " ", "\n", "main", "main =", "main = ", "main = \n", "main = 'a'", "main = 'a'\n", "= 'a'\n", "main = 'a' }\n", "main 'a'\n", "main = 'a\n", "main = a'\n", "main = \"a\n", "main = [a\n", "main = []\n", "main = ()\n",
            "main = (a\n", "main = a)\n", "main = ((a)\n", "main = (a))\n", "main = (a 'b' / c d\n", "main = a / \n", "main = / a\n", "main = a // b\n", "main = a / / b\n", "main = a**\n", "main = a+?\n", "main = !a*\n", "main = !!a\n",
            "main = !\n", "main = *\n", "main = a *\n", "main = error\n", "main = error()\n", "main = error(a)\n", "main = error('a')\n", "main = error('a') b\n", "main = a error('a') b\n", "main = error (  'a' )\n", "main = error('a'\n",
            "main = error('a') error('b') / c\n", "main = (error('a'))\n", "main = errors\n", "main = a=b\n", "main = a b = c\n", "main = a\nb\n", "main = a\n b = c\n", "main = a b\n= c\n", "a = b\nc\n= d\n", "main = 'a'\n\u{0}", "main\t= 'a'\n",
            "main =\t'a'\n", "m {\nmain = 'a'\n}\n", "m { main = 'a'\n }\n", "m {\n}\n", "m {\nmain = 'a'\n", "m {\nmain = 'a'\n}", "m {\nn {\nmain = 'a'\n}\n}\n", "main = 'a'\nm {\nb = 'b'\n}\nc = 'c'\n", "a.b {\nmain = 'a'\n}\n",
            "main = 'a' /* \n", "main = 'a' /* */\n", "main = 'a' //\n", "/* */\nmain = 'a'\n", "// x\nmain = 'a'\n", "main = . .a .a.b a.b\n", "main = ..a\n", "main = a..b\n", "main = a.\n", "main = .\n", ". = 'a'\n", ".main = 'a'\n", "9 = 'a'\n",
            "é = 'a'\n", "main = é\n", "'main' = 'a'\n", "main = 'a''b'\n", "main = 'a' 'b'\n", "main = a(b)\n", "main = (a)(b)\n", "main = [a][b]\n", "main = a!b\n", "main = a !b\n", "main = a'\n", "main = a\"b c\n",
            "main = 'a'\rb = 'c'\r\n\n", "main = ''\n", "main = \"\"\n", "main = '' / \"\"\n", "main = '\n'\n", "main = (\n'a'\n)\n", "main = (\n'a'\n\n", "main = 'a'\nmain = ('b'\n",
        ],
    )
}
fn f_c12_cut(ctx: &mut Ctx) -> CaseResult {
    let t = own_grammar();
    let ends: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
    for e in ends.iter().step_by(3).chain(std::iter::once(&t.len())) {
        let u = &t[..*e];
        check_read(u, &mut Src::replay(vec![])).map_err(|m| format!("PEG text: {:?}\n{}", u, m))?;
        ctx.eval(true, hash_str(u));
    }
    Ok(())
}

//-----------------------------------------------------------------------
//  C13

pub static C13: Prop = Prop {
    id: "C13",
    rule: "the shipped rules of the PEG reader against the rules obtained by reading the project's PEG description of PEG with them: structure compared once, then as parsers on printed grammars, corrupted ones, token sequences, texts of slightly different syntaxes and random strings, tree or error compared field by field, also from parse_debug; and once the code printed by print_rules2parse_peg is compiled and compared. Non-trivial: a tree, or an error beyond position 3; distinct by text",
    quick: 8_000,
    thorough: 600_000,
    case: c13,
    fixed: &[("structure", f_c13), ("the own grammar", f_c13_own)],
    special: Some(s_c13),
    child: None,
    assumptions: &["the two rule sets and the description are reached through a hook under cfg(dynparser_verif)"],
    cpu_secs: 60,
};

thread_local! {
    static BOTH: std::cell::RefCell<Option<(dynparser::parser::expression::SetOfRules, dynparser::parser::expression::SetOfRules)>> = const { std::cell::RefCell::new(None) };
}
fn both_run(text: &str, debug: bool) -> Result<(SRes, SRes), String> {
    BOTH.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            let a = sut(hook::peg_rules)?;
            let (_, s) = read_ok(own_grammar()).map_err(|m| format!("the project's own grammar: {}", m))?;
            *b = Some((a, s));
        }
        let (x, y) = b.as_ref().unwrap();
        Ok((sut::run(text, x, debug)?, sut::run(text, y, debug)?))
    })
}
fn check_both(text: &str) -> Result<bool, String> {
    let mut nontrivial = false;
    // parse_debug copies the names of all rules entered at each step
    let modes: &[bool] = if text.chars().count() < 150 { &[false, true] } else { &[false] };
    for &debug in modes {
        let (a, b) = both_run(text, debug)?;
        if a != b {
            return Err(format!("text: {:?}\nthe shipped rules give {}\nthe rules of the own grammar {}", clip(text, 3000), sut::show_sres(&a), sut::show_sres(&b)));
        }
        nontrivial |= match &a {
            SRes::Tree(_) => true,
            SRes::Fail(e) => e.n > 3,
        };
    }
    Ok(nontrivial)
}
fn c13_text(src: &mut Src) -> String {
    match src.weighted(&[3, 4, 2, 1, 1, 2, 4]) {
        6 => near_peg_text(src).0,
        k @ (0 | 1) => {
            let (rs, _) = peg_rules(src);
            let order: Vec<(&String, &G)> = rs.iter().take(4).collect();
            let t = Printer::new(src).grammar(&order, &[]);
            if k == 0 {
                t
            } else {
                let al: Vec<char> = " \n='\"()[]/*+?!.{}-\\a\r".chars().collect();
                mutate(&t, &al, src)
            }
        }
        2 => (0..src.range(1, 25)).map(|_| *src.pick(TOKENS)).collect(),
        3 => any_string(src, 60),
        4 => {
            let al: Vec<char> = " \n='\"()[]/*+?!.{}-\\a\r".chars().collect();
            mutate(own_grammar(), &al, src)
        }
        _ => format!("main = {}\n", (0..src.range(1, 10)).map(|_| *src.pick(TOKENS)).collect::<String>()),
    }
}
fn c13(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if !hook::HERE {
        return Ok(());
    }
    let text = c13_text(src);
    ctx.note(|| format!("text: {:?}", clip(&text, 400)));
    let nt = check_both(&text)?;
    ctx.label(if matches!(both_run(&text, false)?.0, SRes::Tree(_)) { "a tree" } else { "an error" });
    ctx.eval(nt, hash_str(&text));
    Ok(())
}
fn f_c13(ctx: &mut Ctx) -> CaseResult {
    if !hook::HERE {
        return Ok(());
    }
    let a = sut(|| from_set(&hook::peg_rules()))?;
    let (b, _) = read_ok(own_grammar()).map_err(|m| format!("the project's own grammar: {}", m))?;
    ctx.eval(true, 1);
    equivalent(&b, &a, &mut Src::random(7)).map_err(|m| format!("the shipped rules are not those of the project's grammar: {}", m))
}
fn f_c13_own(ctx: &mut Ctx) -> CaseResult {
    if !hook::HERE {
        return Ok(());
    }
    check_both(own_grammar())?;
    ctx.eval(true, 2);
    Ok(())
}
/// what can be seen of the shipped rules from outside: which texts they take, and the errors of the others
fn without_hook(o: &Opts, rep: &mut Report, r: &Rules) -> Special {
    let set = match sut::build(r) {
        Ok(s) => s,
        Err(m) => return Special::Violation(m, show_rules(r)),
    };
    for i in 0..8_000u64 {
        let text = c13_text(&mut Src::random(mix(&[o.seed, hash_str("C13 outside"), i])));
        let seen = sut(|| match peg::rules_from_peg(&text) {
            Err(peg::Error::Parser(e)) => Some(sut::conv_err(&e)),
            _ => None,
        });
        let (a, b) = match (seen, sut::run(&text, &set, false)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(m), _) | (_, Err(m)) => return Special::Violation(format!("text: {:?}\n{}", text, m), text),
        };
        let same = match (&a, &b) {
            (Some(a), SRes::Fail(b)) => a == b,
            (None, SRes::Tree(_)) => true,
            _ => false,
        };
        if !same {
            return Special::Violation(format!("text: {:?}\nrules_from_peg: {}\nthe printed rules: {}", clip(&text, 3000), a.map_or("taken".into(), |e| sut::show_sres(&SRes::Fail(e))), sut::show_sres(&b)), text);
        }
        rep.evals += 1;
        rep.hashes.insert(hash_str(&text));
        if i < 4 {
            rep.samples.push(clip(&text, 700));
        }
    }
    Special::Ok
}
fn s_c13(o: &Opts, rep: &mut Report) -> Special {
    let mut p = Pkg::new(&o.dir, "c13");
    let src = "extern crate dynparser;\nfn main() { std::thread::Builder::new().stack_size(256 << 20).spawn(|| dynparser::peg::peg2code::print_rules2parse_peg()).unwrap().join().unwrap(); }\n";
    let code = match p.programs(&[src.to_string()]) {
        Ok(mut v) => match v.remove(0) {
            Ok((out, true, _)) => out,
            Ok((_, false, err)) => return Special::Violation(format!("print_rules2parse_peg fails: {}", clip(&err, 2000)), String::new()),
            Err(e) => return Special::Error(e),
        },
        Err(e) => return Special::Error(e),
    };
    let got = match p.cases(&[Item { pre: String::new(), code: format!("rules!{{\n{}\n}}", code) }], 1) {
        Ok(mut v) => v.remove(0),
        Err(e) => return Special::Error(e),
    };
    rep.evals += 1;
    rep.hashes.insert(13);
    *rep.labels.entry("printed code compiled".into()).or_insert(0) += 1;
    if !hook::HERE {
        return match got {
            Got::Rules(r) => without_hook(o, rep, &r),
            Got::Skipped => Special::Error("not run".into()),
            Got::NoCompile(m) | Got::Panic(m) => Special::Violation(format!("the code printed by print_rules2parse_peg does not work: {}", m), code),
        };
    }
    let shipped = from_set(&hook::peg_rules());
    match got {
        Got::Rules(r) => match equivalent(&shipped, &r, &mut Src::random(3)) {
            Ok(()) => Special::Ok,
            Err(m) => Special::Violation(format!("the code printed by print_rules2parse_peg does not give the shipped rules: {}", m), code),
        },
        Got::NoCompile(m) => Special::Violation(format!("the code printed by print_rules2parse_peg does not compile: {}", m), code),
        Got::Panic(m) => Special::Violation(format!("the code printed by print_rules2parse_peg panics: {}", m), code),
        Got::Skipped => Special::Error("not run".into()),
    }
}

//-----------------------------------------------------------------------
//  C14

pub static C14: Prop = Prop {
    id: "C14",
    rule: "random rule sets (all constructs, any characters in names, literals, messages and classes, any bounds) are turned into code by rust_from_rules, compiled in batches by rustc against the crate, run, and the rule sets they build compared with the original. The batch is chosen from a larger number of rule sets: first those whose code a small reader of Rust expressions does not read back as the original (it only selects), then others. Non-trivial: at least three constructs, or a character that Rust source has to escape, or bounds beyond 0 and 1; distinct by rule set",
    quick: 20_000,
    thorough: 100_000,
    case: c14,
    fixed: &[],
    special: Some(s_c14),
    child: None,
    assumptions: &["rule sets up to about 60 rules, expressions nested up to about 45 levels"],
    cpu_secs: 120,
};

fn c14_rules(src: &mut Src) -> Rules {
    if src.chance(1, 20) {
        return scale::gen_scaled_to(src, false, 300).rules;
    }
    let mut cfg = Cfg::general(src);
    cfg.arbitrary_names = src.bool();
    cfg.w_err = 1;
    cfg.w_eof = 1;
    cfg.w_missing = 1;
    cfg.odd = src.chance(1, 2);
    if src.bool() {
        for _ in 0..6 {
            cfg.alphabet.push(any_char(src));
        }
    }
    let mut rs = gen_rules(src, &cfg);
    if src.chance(1, 3) {
        let n = any_string(src, 30);
        let m = any_string(src, 30);
        rs.insert(n.clone(), G::Seq(vec![G::Err(m), G::Lit(any_string(src, 60)), rf(&n)]));
    }
    rs
}
fn code_of(rs: &Rules) -> Result<String, String> {
    let set = sut::build(rs)?;
    sut(|| peg::gcode::rust_from_rules(&set))
}
fn c14(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // the code is made without failing and mentions every rule; whether it is right is seen by compiling
    let rs = c14_rules(src);
    ctx.note(|| format!("rules: {}", show_rules(&rs)));
    let set = sut::build(&rs)?;
    let code = sut(|| peg::gcode::rust_from_rules(&set))?;
    if code.is_empty() != rs.is_empty() {
        return Err(format!("rules: {}\nno code", show_rules(&rs)));
    }
    if sut(|| from_set(&set))? != rs {
        return Err(format!("rules: {}\nrust_from_rules changes the rule set", show_rules(&rs)));
    }
    ctx.label(match read_code(&code) {
        Some(r) if r == rs => "code made, read back",
        _ => "code made, left to the compiler",
    });
    ctx.eval(false, 0);
    Ok(())
}
fn rich(rs: &Rules) -> bool {
    let mut kinds = std::collections::HashSet::new();
    let mut r = false;
    for g in rs.values() {
        g.walk(&mut |g| {
            kinds.insert(std::mem::discriminant(g));
            r |= match g {
                G::Lit(s) | G::Err(s) | G::Class(s, _) => s.chars().any(|c| c.is_control() || !c.is_ascii() || "\"'\\{}".contains(c)),
                G::Rep(_, m, x) => *m > 1 || x.map_or(false, |x| x > 1),
                _ => false,
            };
        });
    }
    r || kinds.len() > 2
}
fn s_c14(o: &Opts, rep: &mut Report) -> Special {
    let (select, batch) = match o.tier {
        Tier::Quick => (20_000u64, 1_200usize),
        Tier::Thorough => (60_000, 12_000),
    };
    let mut odd: Vec<Rules> = fixed_c14();
    let mut plain: Vec<Rules> = vec![];
    let mut size = 0usize;
    for i in 0..select {
        let mut src = Src::random(mix(&[o.seed, hash_str("C14 batch"), i]));
        let rs = c14_rules(&mut src);
        let code = match code_of(&rs) {
            Ok(c) => c,
            Err(m) => return Special::Violation(format!("rules: {}\n{}", show_rules(&rs), m), show_rules(&rs)),
        };
        if code.len() > 40_000 {
            continue;
        }
        if read_code(&code).as_ref() != Some(&rs) {
            if odd.len() < batch / 4 {
                odd.push(rs);
            }
        } else if odd.len() + plain.len() < batch && size < batch * 3000 {
            size += code.len();
            plain.push(rs);
        }
    }
    *rep.labels.entry("not read back by the selecting reader".into()).or_insert(0) += odd.len() as u64;
    odd.sort_by_key(|r| r.values().map(|g| g.size()).sum::<usize>());
    let all: Vec<Rules> = odd.into_iter().chain(plain).take(batch).collect();
    compile_and_compare(o, rep, "c14", &all, |rs| Ok(Item { pre: String::new(), code: format!("rules!{{\n{}\n}}", code_of(rs)?) }))
}
fn fixed_c14() -> Vec<Rules> {
    let nasty = "\"'\\\n\r\t\0{}%é🎈\u{200d}\u{202e}\u{feff}\u{7f}\u{85}]-#";
    let mut v = vec![
        Rules::new(),
        rules(&[("main", G::Eof)]),
        rules(&[("a\"b", rf("a\"b")), ("", rf("")), ("\\", rf("\\")), ("{}", rf("{}")), ("é\n", rf("é\n"))]),
        rules(&[("main", G::Lit(nasty.into())), ("e", G::Err(nasty.into())), ("c", G::Class(nasty.into(), nasty.chars().map(|c| (c, c)).collect()))]),
        rules(&[("main", G::Class("".into(), vec![])), ("x", G::Seq(vec![])), ("y", G::Alt(vec![])), ("z", lit(""))]),
        rules(&[("main", rep(rep(rep(G::Dot, 0, Some(0)), usize::MAX, None), 1, Some(usize::MAX))), ("n", not(not(rep(lit("a"), 3, Some(2)))))]),
        rules(&[("main", G::Seq(vec![G::Alt(vec![G::Eof, G::Dot]), rep(G::Eof, 0, None), not(err("x"))]))]),
    ];
    for n in [31usize, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1025] {
        let ws: Vec<G> = (0..n).map(|i| lit(&format!("<{}>", i))).collect();
        let cs: String = (0..n as u32).filter_map(|i| std::char::from_u32(0x4e00 + 3 * i)).collect();
        v.push(rules(&[("a", G::Seq(ws.clone())), ("b", G::Alt(ws)), ("c", G::Class(cs.clone(), vec![])), ("d", G::Class(String::new(), cs.chars().map(|c| (c, c)).collect())), ("e", lit(&cs)), ("f", err(&cs)), (&cs, rf(&cs))]));
        v.push((0..n).map(|i| (format!("r{}", i), lit(&i.to_string()))).collect());
    }
    v.push(rules(&[("main", G::Class((0..5000).filter_map(|i| std::char::from_u32(0x4e00 + i)).collect(), vec![]))]));
    v.push(rules(&[("main", lit(&"ab\\\"é\n".repeat(5000)))]));
    v.push(rules(&[("main", G::Class("\\".into(), vec![('\'', '"'), ('\\', '\u{10ffff}'), ('\0', '\u{300}')]))]));
    v
}
fn compile_and_compare(o: &Opts, rep: &mut Report, name: &str, all: &[Rules], item: impl Fn(&Rules) -> Result<Item, String>) -> Special {
    let mut p = Pkg::new(&o.dir, name);
    let mut items = vec![];
    for rs in all {
        match item(rs) {
            Ok(i) => items.push(i),
            Err(m) => return Special::Violation(format!("rules: {}\n{}", show_rules(rs), m), show_rules(rs)),
        }
    }
    let mut todo: Vec<usize> = (0..all.len()).collect();
    while !todo.is_empty() {
        let part: Vec<usize> = todo.drain(..todo.len().min(800)).collect();
        let its: Vec<Item> = part.iter().map(|i| items[*i].clone()).collect();
        let got = match p.cases(&its, 8) {
            Ok(g) => g,
            Err(e) => return Special::Error(e),
        };
        // a case that does not compile hides others: show the smallest wrong one
        let mut worst: Option<(usize, String)> = None;
        for (i, g) in part.iter().zip(got) {
            let m = match g {
                Got::Rules(r) if r == all[*i] => {
                    rep.evals += 1;
                    if rich(&all[*i]) {
                        rep.hashes.insert(hash_str(&show_rules(&all[*i])));
                    }
                    continue;
                }
                Got::Rules(r) => match equivalent(&all[*i], &r, &mut Src::random(5)) {
                    Ok(()) => {
                        rep.evals += 1;
                        continue;
                    }
                    Err(m) => format!("the code builds other rules: {}", m),
                },
                Got::NoCompile(m) => format!("the code does not compile: {}", m),
                Got::Panic(m) => format!("the code panics: {}", m),
                Got::Skipped => continue,
            };
            let size = items[*i].code.len();
            if worst.as_ref().map_or(true, |w| size < items[w.0].code.len()) {
                worst = Some((*i, m));
            }
        }
        if let Some((i, m)) = worst {
            let (rs, code, m) = shrink_compiled(&mut p, &all[i], &item, m);
            return Special::Violation(format!("rules: {}\ncode:\n{}\n{}", show_rules(&rs), clip(&code, 3000), m), format!("rules: {}\n\n{}", show_rules(&rs), code));
        }
    }
    for rs in all.iter().filter(|r| rich(r)).take(4) {
        rep.samples.push(clip(&show_rules(rs), 700));
    }
    *rep.labels.entry("compiled and run".into()).or_insert(0) += all.len() as u64;
    Special::Ok
}
/// smaller rule sets, all tried at once, while one of them fails
fn shrink_compiled(p: &mut Pkg, start: &Rules, item: &impl Fn(&Rules) -> Result<Item, String>, msg: String) -> (Rules, String, String) {
    let mut best = (start.clone(), item(start).map(|i| i.code).unwrap_or_default(), msg);
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 60 {
        let mut cands: Vec<Rules> = vec![];
        let cur = &best.0;
        if cur.len() > 1 {
            for (n, g) in cur {
                cands.push([(n.clone(), g.clone())].into_iter().collect());
            }
        }
        for (n, g) in cur {
            let mut subs: Vec<&G> = vec![];
            match g {
                G::Seq(v) | G::Alt(v) => subs.extend(v),
                G::Not(b) | G::Rep(b, _, _) => subs.push(b),
                _ => {}
            }
            for s in subs {
                cands.push([(n.clone(), s.clone())].into_iter().collect());
            }
            let one = |g: G| -> Rules { [(n.clone(), g)].into_iter().collect() };
            match g {
                G::Lit(s) if s.chars().count() > 1 => cands.extend(s.chars().map(|c| one(lit(&c.to_string())))),
                G::Err(s) if s.chars().count() > 1 => cands.extend(s.chars().map(|c| one(err(&c.to_string())))),
                G::Class(s, r) if s.chars().count() + r.len() > 1 => {
                    cands.extend(s.chars().map(|c| one(class(&c.to_string(), &[]))));
                    cands.extend(r.iter().map(|x| one(class("", &[*x]))));
                }
                _ => {}
            }
        }
        cands.truncate(60);
        let cands: Vec<(Rules, Item)> = cands.into_iter().filter_map(|r| item(&r).ok().map(|i| (r, i))).collect();
        let items: Vec<Item> = cands.iter().map(|c| c.1.clone()).collect();
        if items.is_empty() {
            break;
        }
        let got = match p.cases(&items, items.len()) {
            Ok(g) => g,
            Err(_) => break,
        };
        let mut next = None;
        for ((r, i), g) in cands.into_iter().zip(got) {
            let m = match g {
                Got::Rules(x) => match equivalent(&r, &x, &mut Src::random(5)) {
                    Ok(()) => continue,
                    Err(m) => format!("the code builds other rules: {}", m),
                },
                Got::NoCompile(m) => format!("the code does not compile: {}", m),
                Got::Panic(m) => format!("the code panics: {}", m),
                Got::Skipped => continue,
            };
            next = Some((r, i.code, m));
            break;
        }
        match next {
            Some(n) => best = n,
            None => break,
        }
    }
    best
}

/// A reader of the code as it is generated now. It only selects what to compile first.
fn read_code(code: &str) -> Option<Rules> {
    struct R<'a> {
        t: &'a [u8],
        s: &'a str,
        p: usize,
    }
    impl R<'_> {
        fn ws(&mut self) {
            while self.p < self.t.len() && (self.t[self.p] as char).is_whitespace() {
                self.p += 1;
            }
        }
        fn eat(&mut self, x: &str) -> Option<()> {
            self.ws();
            if self.s[self.p..].starts_with(x) {
                self.p += x.len();
                Some(())
            } else {
                None
            }
        }
        fn escaped(&mut self, end: char) -> Option<Option<char>> {
            let c = self.s[self.p..].chars().next()?;
            self.p += c.len_utf8();
            if c == end {
                return Some(None);
            }
            if c != '\\' {
                // a bare carriage return, and characters that change direction, do not compile
                if c == '\r' || ('\u{202a}'..='\u{202e}').contains(&c) || ('\u{2066}'..='\u{2069}').contains(&c) {
                    return None;
                }
                return Some(Some(c));
            }
            let e = self.s[self.p..].chars().next()?;
            self.p += e.len_utf8();
            Some(Some(match e {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '0' => '\0',
                '\\' => '\\',
                '"' => '"',
                '\'' => '\'',
                'u' => {
                    self.eat("{")?;
                    let k = self.s[self.p..].find('}')?;
                    let v = u32::from_str_radix(&self.s[self.p..self.p + k], 16).ok()?;
                    self.p += k + 1;
                    char::from_u32(v)?
                }
                _ => return None,
            }))
        }
        fn string(&mut self) -> Option<String> {
            self.eat("\"")?;
            let mut o = String::new();
            while let Some(c) = self.escaped('"')? {
                o.push(c);
            }
            Some(o)
        }
        fn chr(&mut self) -> Option<char> {
            self.eat("'")?;
            if self.s[self.p..].starts_with('\'') {
                return None;
            }
            let c = self.escaped('\'')??;
            if !self.s[self.p..].starts_with('\'') {
                return None;
            }
            self.p += 1;
            Some(c)
        }
        fn num(&mut self) -> Option<usize> {
            self.ws();
            let k = self.s[self.p..].find(|c: char| !c.is_ascii_digit())?;
            let n = self.s[self.p..self.p + k].parse().ok()?;
            self.p += k;
            Some(n)
        }
        fn list(&mut self) -> Option<Vec<G>> {
            let mut v = vec![];
            if self.eat(")").is_some() {
                return Some(v);
            }
            loop {
                v.push(self.expr()?);
                if self.eat(")").is_some() {
                    return Some(v);
                }
                self.eat(",")?;
            }
        }
        fn expr(&mut self) -> Option<G> {
            self.ws();
            let k = self.s[self.p..].find('!')?;
            let name = self.s[self.p..self.p + k].to_string();
            self.p += k + 1;
            self.eat("(")?;
            Some(match name.as_str() {
                "lit" | "error" | "ref_rule" => {
                    let s = self.string()?;
                    self.eat(")")?;
                    match name.as_str() {
                        "lit" => G::Lit(s),
                        "error" => G::Err(s),
                        _ => G::Ref(s),
                    }
                }
                "dot" => {
                    self.eat(")")?;
                    G::Dot
                }
                "eof" => {
                    self.eat(")")?;
                    G::Eof
                }
                "and" => G::Seq(self.list()?),
                "or" => G::Alt(self.list()?),
                "not" => {
                    let g = self.expr()?;
                    self.eat(")")?;
                    not(g)
                }
                "rep" => {
                    let g = self.expr()?;
                    self.eat(",")?;
                    let m = self.num()?;
                    let x = if self.eat(",").is_some() { Some(self.num()?) } else { None };
                    self.eat(")")?;
                    rep(g, m, x)
                }
                "ematch" => {
                    self.eat("chlist")?;
                    let s = self.string()?;
                    self.eat(",")?;
                    self.eat("from2")?;
                    self.eat("vec!")?;
                    self.eat("[")?;
                    let mut v = vec![];
                    while self.eat("]").is_none() {
                        if !v.is_empty() {
                            self.eat(",")?;
                        }
                        self.eat("(")?;
                        let a = self.chr()?;
                        self.eat(",")?;
                        let b = self.chr()?;
                        self.eat(")")?;
                        v.push((a, b));
                    }
                    self.eat(")")?;
                    G::Class(s, v)
                }
                _ => return None,
            })
        }
    }
    let mut r = R { t: code.as_bytes(), s: code, p: 0 };
    let mut out = Rules::new();
    loop {
        r.ws();
        if r.p == r.t.len() {
            return Some(out);
        }
        if !out.is_empty() {
            r.eat(",")?;
        }
        let n = r.string()?;
        r.eat("=>")?;
        let g = r.expr()?;
        if out.insert(n, g).is_some() {
            return None;
        }
    }
}

//-----------------------------------------------------------------------
//  C25

pub static C25: Prop = Prop {
    id: "C25",
    rule: "errors of the three kinds (PEG, parser errors from real parses, tree errors), converted (parser errors with and without rule trace, and with random contents), with up to 60 random descriptions added, compared with a list model: what is shown, what matching on the value finds; also errors of rules_from_peg on corrupted texts. Non-trivial: at least two descriptions; distinct by base and descriptions",
    quick: 400_000,
    thorough: 1_500_000,
    case: c25,
    fixed: &[],
    special: None,
    child: None,
    assumptions: &["stacks of up to 60 descriptions"],
    cpu_secs: 60,
};

fn c25(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = |src: &mut Src| match src.below(4) {
        0 if src.chance(1, 60) => any_string(src, 30).repeat(src.range(1, 300)) + "end",
        0 => any_string(src, 30),
        1 => format!("rule {}", src.below(100)),
        2 => src.pick(&["", " > ", "a > b", "error", "{}", "Parser", "x"]).to_string(),
        _ => "reading ".to_string() + src.pick(NAME_POOL),
    };
    // the innermost error and what has to be found in it
    let kind = src.below(4);
    let mut contains: Vec<String> = vec![];
    let (mut e, label): (peg::Error, &'static str) = match kind {
        0 => {
            let d = text(src);
            contains.push(d.clone());
            (peg::Error::Peg((d, None)), "PEG error")
        }
        1 => {
            let d = text(src);
            let c = if src.bool() { Some(text(src)) } else { None };
            let a = sut(|| dynparser::ast::error(&d, c.as_deref()))?;
            if a.0 != d || a.1 != c {
                return Err(format!("ast::error({:?}, {:?}) gives {:?}", d, c, a));
            }
            let e: peg::Error = sut(|| a.into())?;
            match &e {
                peg::Error::Ast(a) if a.0 == d && a.1 == c => {}
                e => return Err(format!("the tree error ({:?}, {:?}) becomes {:?}", d, c, e)),
            }
            contains.push(dbg_inner(&d));
            contains.extend(c.map(|c| dbg_inner(&c)));
            (e, "tree error")
        }
        2 => {
            let m = text(src);
            let rs = rules(&[("main", G::Seq(vec![rep(lit("a\n"), 0, None), G::Alt(vec![lit("b"), err(&m)])]))]);
            let t = "a\n".repeat(src.range(0, 4)) + src.pick(&["", "x", "b ", "a"]);
            let set = sut::build(&rs)?;
            let r = if src.bool() { sut(|| dynparser::parse(&t, &set))? } else { sut(|| dynparser::parse_debug(&t, &set))? };
            match r {
                Ok(_) => return Err("harness: this text has to fail".into()),
                Err(mut p) => {
                    // any content, also such as no parse gives
                    if src.chance(1, 3) {
                        p.descr = text(src);
                        p.line_before = text(src);
                        p.line_after = text(src);
                        p.parsing_rules = (0..src.range(0, 4)).map(|_| text(src)).collect();
                        p.pos.n = src.below(1000) as usize;
                        p.pos.row = src.below(10) as usize;
                        p.pos.col = src.below(10) as usize;
                        p.pos.start_line = src.below(10) as usize;
                    }
                    let before = sut::conv_err(&p);
                    contains.push(dbg_inner(&before.descr));
                    let e: peg::Error = sut(|| p.into())?;
                    match &e {
                        peg::Error::Parser(p) if sut::conv_err(p) == before => {}
                        e => return Err(format!("the parser error {:?} becomes {:?}", before, e)),
                    }
                    (e, "parser error")
                }
            }
        }
        _ => {
            let t = *src.pick(&["main = ", "main = ('a'\n", "", "main = 'a", "main = [a\n", "x", "main = 'a' )\n", "a = b\nc = (d\n"]);
            match sut(|| peg::rules_from_peg(t))? {
                Ok(_) => return Err(format!("harness: {:?} has to be refused", t)),
                Err(e) => (e, "from rules_from_peg"),
            }
        }
    };
    let base = sut(|| e.to_string())?;
    for c in &contains {
        if !base.contains(c.as_str()) {
            return Err(format!("the error {:?} is shown as {:?}, without {:?}", e, base, c));
        }
    }
    if let peg::Error::Peg((d, None)) = &e {
        if base != *d {
            return Err(format!("the error {:?} is shown as {:?}", d, base));
        }
    }
    let n = if src.chance(1, 10) { src.range(0, 60) } else { src.range(0, 5) };
    let mut pushed: Vec<String> = vec![];
    for _ in 0..n {
        let d = text(src);
        e = sut(|| e.ipush(&d))?;
        pushed.push(d);
    }
    ctx.note(|| format!("{}: {:?} with {:?} added", label, clip(&base, 200), pushed));
    let mut want: Vec<String> = pushed.iter().rev().cloned().collect();
    want.push(base.clone());
    let want = want.join(" > ");
    let got = sut(|| e.to_string())?;
    if want != got {
        return Err(format!("{} {:?} with {:?} added: expected {:?}\ngot {:?}", label, base, pushed, want, got));
    }
    // the value itself
    let mut cur = &e;
    for d in pushed.iter().rev() {
        match cur {
            peg::Error::Peg((s, Some(b))) if s == d => cur = b,
            e => return Err(format!("{} {:?} with {:?} added: expected {:?} in {:?}", label, base, pushed, d, e)),
        }
    }
    if sut(|| cur.to_string())? != base {
        return Err(format!("{} {:?} with {:?} added: the innermost error becomes {:?}", label, base, pushed, cur));
    }
    ctx.label(label);
    ctx.eval(pushed.len() > 1, hash_str(&got));
    Ok(())
}
/// how the text appears inside a Debug rendering of a structure
fn dbg_inner(s: &str) -> String {
    let d = format!("{:?}", s);
    d[1..d.len() - 1].to_string()
}

//-----------------------------------------------------------------------
//  C26

pub static C26: Prop = Prop {
    id: "C26",
    rule: "random grammars printed as PEG text (only those the independent reader reads as the grammar printed), texts sampled from them or corrupted, parsed with the rules read, then 1..5 random tree operations (compact, prune, pass_through_except with names of the grammar) and flatten; every intermediate tree compared with reference reading, interpretation and operations; failures compared in verdict, position and message. Non-trivial: a tree of more than three nodes which some operation changes, or a failure beyond position 0; distinct by grammar, text and operations",
    quick: 24_000,
    thorough: 800_000,
    case: c26,
    fixed: &[("the example of the documentation", f_c26)],
    special: None,
    child: None,
    assumptions: &[NO_LR],
    cpu_secs: 60,
};

fn c26(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (rs, al, texts) = if src.chance(1, 60) {
        let s = scale::gen_scaled_peg(src, 600);
        ctx.label(s.kind);
        (s.rules, s.alphabet, s.texts)
    } else {
        let (r, a) = peg_rules(src);
        (r, a, vec![])
    };
    let (peg_text, _) = match print_grammar(src, &rs) {
        Ok(x) => x,
        Err(l) => {
            ctx.label(l);
            return Ok(());
        }
    };
    if left_recursive(&rs) {
        return Ok(());
    }
    let names: Vec<String> = rs.keys().cloned().collect();
    let (_, set) = read_ok(&peg_text).map_err(|m| format!("PEG text: {:?}\n{}", clip(&peg_text, 3000), m))?;
    ctx.note(|| format!("PEG text: {:?}", clip(&peg_text, 600)));
    let al = full_alphabet(&rs, &al);
    for _ in 0..3 {
        let text = if texts.is_empty() { gen_text(src, &rs, &al, 3) } else { src.pick(&texts).clone() };
        pipeline(src, ctx, &rs, &peg_text, &set, &text, &names)?;
    }
    Ok(())
}
fn pipeline(src: &mut Src, ctx: &mut Ctx, rs: &Rules, peg_text: &str, set: &dynparser::parser::expression::SetOfRules, text: &str, names: &[String]) -> CaseResult {
    let (out, _) = reference_large(rs, text, 4 * STEPS);
    if let Out::Abort = out {
        ctx.label("over the step limit, not used");
        return Ok(());
    }
    let mut done = String::new();
    let w = |done: &str, m: String| format!("PEG text: {:?}\ntext: {:?}\noperations:{}\n{}", clip(peg_text, 3000), clip(text, 1000), done, m);
    let node = sut::run_node(text, set)?;
    match (out, node) {
        (Out::Abort, _) => Ok(()),
        (Out::Fail(f), Err(e)) => {
            let msg = !matches!(f.why, Why::Error(_)) || matches!(&f.why, Why::Error(m) if e.descr == *m);
            if e.n != f.n || e.critical != f.critical() || !msg {
                return Err(w("", format!("expected the failure {:?} at {}\ngot {}", f.why, f.n, sut::show_sres(&SRes::Fail(e)))));
            }
            ctx.label("a failure");
            ctx.eval(f.n > 0, mix(&[hash_str(peg_text), hash_str(text)]));
            Ok(())
        }
        (Out::Tree(mut t), Ok(mut node)) => {
            if from_node(&node) != t {
                return Err(w("", format!("expected {}\ngot {}", show_t(&t), show_t(&from_node(&node)))));
            }
            let mut changed = false;
            for _ in 0..src.range(1, 5) {
                let k = src.below(3);
                let ns: Vec<String> = (0..src.range(0, 3)).map(|_| src.pick(names).clone()).collect();
                let ns: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
                let (u, m) = match k {
                    0 => {
                        done.push_str(" compact");
                        (t_compact(&t), sut(|| node.compact())?)
                    }
                    1 => {
                        done.push_str(&format!(" prune({:?})", ns));
                        (t_prune(&t, &ns), sut(|| node.prune(&ns))?)
                    }
                    _ => {
                        done.push_str(&format!(" pass_through_except({:?})", ns));
                        (t_pass(&t, &ns), sut(|| node.pass_through_except(&ns))?)
                    }
                };
                changed |= u != t;
                let g = from_node(&m);
                if g != u {
                    return Err(w(&done, format!("before: {}\nexpected {}\ngot {}", show_t(&t), show_t(&u), show_t(&g))));
                }
                t = u;
                node = m;
            }
            let fl: Vec<F> = sut(|| node.flatten().iter().map(from_flat).collect())?;
            if fl != t_flatten(&t) {
                return Err(w(&done, format!("flatten: expected {:?}\ngot {:?}", t_flatten(&t), fl)));
            }
            ctx.note(|| format!("text: {:?} operations:{}", clip(text, 200), done));
            ctx.label("a tree");
            ctx.eval(changed && t_size(&t) > 1, mix(&[hash_str(peg_text), hash_str(text), hash_str(&done)]));
            Ok(())
        }
        (o, n) => Err(w(
            "",
            format!(
                "expected {}\ngot {}",
                show_out(&o),
                match n {
                    Ok(n) => show_t(&from_node(&n)),
                    Err(e) => sut::show_sres(&SRes::Fail(e)),
                }
            ),
        )),
    }
}
fn f_c26(ctx: &mut Ctx) -> CaseResult {
    let peg_text = "\n    main    =   expr\n    expr    =   _  term ( _ ('+' / '-') _ term )* _   // sums\n    term    =   num / '(' expr ( ')' / error(\"unbalanced\") )\n    num     =   [0-9]+\n    _       =   ' '*\n";
    let want = match pegref::read(peg_text) {
        Read::Grammar(r) => r,
        _ => return Err("harness: not PEG".into()),
    };
    let (_, set) = read_ok(peg_text)?;
    let names: Vec<String> = want.keys().cloned().collect();
    for text in ["1", " 1 + 23 - (4+5) ", "(1", "1 +", "", "((1))-2", "(1+2)) "] {
        for seed in 0..10 {
            pipeline(&mut Src::random(seed), ctx, &want, peg_text, &set, text, &names)?;
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------
//  C27

/// (eof! itself is used in the compiled programs)
fn at_end() -> dynparser::parser::expression::Expression {
    dynparser::parser::expression::Expression::Simple(dynparser::parser::atom::Atom::EOF)
}

pub static C27: Prop = Prop {
    id: "C27",
    rule: "random rule sets written as macro invocations in random style (literal, raw, concatenated and computed arguments, variables, three kinds of brackets, both forms of ematch!, bounds as expressions, rules! with repeated names), compiled in batches by rustc against the crate, run, and the rule sets compared with the ones written; plus a fixed set of invocations evaluated in-process with generated strings, characters and bounds. Non-trivial: at least three constructs, or a character that Rust source has to escape, or bounds beyond 0 and 1; distinct by rule set",
    quick: 60_000,
    thorough: 500_000,
    case: c27,
    fixed: &[],
    special: Some(s_c27),
    child: None,
    assumptions: &["rule sets up to about 60 rules; trailing commas are not written, the macros do not take them"],
    cpu_secs: 120,
};

fn c27(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // the macros with generated arguments
    let (a, b, c, d) = (any_string(src, 20), any_string(src, 20), any_string(src, 20), any_string(src, 20));
    let (x, y, z, w) = (any_char(src), any_char(src), any_char(src), any_char(src));
    let m = src.range(0, 300);
    let n = *src.pick(&[0usize, 1, 2, 255, 256, 65535, 65536, usize::MAX]);
    let (v1, v2) = (vec![(x, y), (z, w)], vec![(w, x)]);
    let (got, want) = match src.below(6) {
        0 => (
            sut(|| {
                let r = rules! { &a => and!(lit!(b), ref_rule!(&c), error!(d)), &b => or!(dot!(), at_end(), not!(lit!("x"))) };
                from_set(&r)
            })?,
            vec![(a.clone(), G::Seq(vec![G::Lit(b.clone()), G::Ref(c.clone()), G::Err(d.clone())])), (b.clone(), G::Alt(vec![G::Dot, G::Eof, not(lit("x"))]))],
        ),
        1 => (
            sut(|| {
                let r = rules! { "main" => rep!(lit!(&a), m, n), &b => rep!(rep!(dot!(), n), m) };
                from_set(&r)
            })?,
            vec![("main".into(), rep(lit(&a), m, Some(n))), (b.clone(), rep(rep(G::Dot, n, None), m, None))],
        ),
        2 => (
            sut(|| {
                let r = rules! { "main" => ematch!(chlist &a, from x, to y, from z, to w), &c => ematch!(chlist &b, from y, to x) };
                from_set(&r)
            })?,
            vec![("main".into(), class(&a, &v1)), (c.clone(), class(&b, &[(y, x)]))],
        ),
        3 => (
            sut(|| {
                let r = rules! { "main" => ematch!(chlist &a, from2 v1.clone()), &c => not!(ematch!(chlist &b, from2 v2.clone())) };
                from_set(&r)
            })?,
            vec![("main".into(), class(&a, &v1)), (c.clone(), not(class(&b, &v2)))],
        ),
        4 => (
            sut(|| {
                let r = rules! { &a => and!(or!(lit!(x), and!()), or!(), and!(and!(dot!())), or!(not!(at_end()))), &b => lit!(n), &c => lit!(y) };
                from_set(&r)
            })?,
            vec![
                (a.clone(), G::Seq(vec![G::Alt(vec![lit(&x.to_string()), G::Seq(vec![])]), G::Alt(vec![]), G::Seq(vec![G::Seq(vec![G::Dot])]), G::Alt(vec![not(G::Eof)])])),
                (b.clone(), lit(&n.to_string())),
                (c.clone(), lit(&y.to_string())),
            ],
        ),
        _ => (
            sut(|| {
                let r = rules! { &a => or!(lit!("1"), lit!("2"), lit!("3"), lit!("4"), ref_rule!(&d)), &a => and!(lit!("1"), lit!("2"), lit!("3"), error!(&b)) };
                from_set(&r)
            })?,
            vec![(a.clone(), G::Seq(vec![lit("1"), lit("2"), lit("3"), err(&b)]))],
        ),
    };
    let mut map = Rules::new();
    for (k, g) in want {
        map.insert(k, g);
    }
    ctx.note(|| format!("rules: {}", show_rules(&map)));
    if map != got {
        return Err(format!("expected {}\ngot {}", show_rules(&map), show_rules(&got)));
    }
    ctx.eval(rich(&map), hash_str(&show_rules(&map)));
    Ok(())
}

/// Rust source of macros in a random style
struct Style<'a> {
    src: &'a mut Src,
    pre: String,
    vars: usize,
}
impl Style<'_> {
    fn str_lit(&mut self, s: &str) -> String {
        let raw_ok = !s.contains('"') && s.chars().all(|c| c != '\r' && c != '\0' && !(('\u{202a}'..='\u{202e}').contains(&c) || ('\u{2066}'..='\u{2069}').contains(&c)));
        if raw_ok && self.src.chance(1, 4) {
            return format!("r#\"{}\"#", s);
        }
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if c.is_ascii_graphic() || c == ' ' => o.push(c),
                c => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            }
        }
        o.push('"');
        o
    }
    fn chr(&mut self, c: char) -> String {
        if c.is_ascii_alphanumeric() {
            format!("'{}'", c)
        } else {
            format!("'\\u{{{:x}}}'", c as u32)
        }
    }
    fn var(&mut self, value: String) -> String {
        self.vars += 1;
        // names that the macros use inside
        let n = ["rules", "v", "amatch", "e", "expr", "n"][self.vars % 6].to_string() + &(self.vars / 6).to_string();
        let n = n.trim_end_matches('0').to_string();
        let n = if self.pre.contains(&format!("let {} ", n)) { format!("var{}", self.vars) } else { n };
        self.pre.push_str(&format!("    let {} = {};\n", n, value));
        n
    }
    /// something that is to_string'ed
    fn display(&mut self, s: &str) -> String {
        let l = self.str_lit(s);
        match self.src.weighted(&[6, 1, 1, 1, 1, 1]) {
            1 => format!("String::from({})", l),
            2 => self.var(l),
            3 => {
                let k = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0);
                let (a, b) = (self.str_lit(&s[..k]), self.str_lit(&s[k..]));
                format!("concat!({}, {})", a, b)
            }
            4 => format!("{{ let s = {}; s.to_owned() }}", l),
            5 if s.chars().count() == 1 => self.chr(s.chars().next().unwrap()),
            _ => l,
        }
    }
    /// something that is a &str
    fn name(&mut self, s: &str) -> String {
        let l = self.str_lit(s);
        match self.src.weighted(&[6, 1, 1]) {
            1 => format!("&String::from({})", l),
            2 => self.var(l),
            _ => l,
        }
    }
    fn number(&mut self, n: usize) -> String {
        match self.src.weighted(&[5, 1, 1, 1]) {
            1 if n > 0 => format!("{} + 1", n - 1),
            2 => format!("{}usize", n),
            3 if n > 255 => format!("{:#x}", n),
            3 => format!("(b'\\x{:02x}' as usize)", n),
            _ => n.to_string(),
        }
    }
    fn call(&mut self, m: &str, args: &str) -> String {
        match self.src.weighted(&[5, 1, 1]) {
            0 => format!("{}!({})", m, args),
            1 => format!("{}!{{ {} }}", m, args),
            _ => format!("dynparser::{}![\n{}\n]", m, args),
        }
    }
    fn expr(&mut self, g: &G) -> String {
        if self.src.chance(1, 12) {
            // through a variable
            let e = self.expr_in(g);
            return format!("{{ let e = {}; e }}", e);
        }
        self.expr_in(g)
    }
    fn expr_in(&mut self, g: &G) -> String {
        match g {
            G::Lit(s) => {
                let a = self.display(s);
                self.call("lit", &a)
            }
            G::Err(s) => {
                let a = self.display(s);
                self.call("error", &a)
            }
            G::Dot => self.call("dot", ""),
            G::Eof => self.call("eof", ""),
            G::Ref(s) => {
                let a = self.name(s);
                self.call("ref_rule", &a)
            }
            G::Not(b) => {
                let a = self.expr(b);
                self.call("not", &a)
            }
            G::Rep(b, m, x) => {
                let mut a = self.expr(b);
                let n = self.number(*m);
                a.push_str(&format!(", {}", n));
                if let Some(x) = x {
                    let n = self.number(*x);
                    a.push_str(&format!(", {}", n));
                }
                self.call("rep", &a)
            }
            G::Seq(v) | G::Alt(v) => {
                let a: Vec<String> = v.iter().map(|g| self.expr(g)).collect();
                self.call(if matches!(g, G::Seq(_)) { "and" } else { "or" }, &a.join(if v.len() > 4 { ",\n" } else { ", " }))
            }
            G::Class(s, r) => {
                let mut a = format!("chlist {}, ", self.name(s));
                if self.src.bool() && !r.is_empty() {
                    let p: Vec<String> = r
                        .iter()
                        .map(|(x, y)| {
                            let (x, y) = (self.chr(*x), self.chr(*y));
                            format!("from {}, to {}", x, y)
                        })
                        .collect();
                    a.push_str(&p.join(", "));
                } else {
                    let p: Vec<String> = r
                        .iter()
                        .map(|(x, y)| {
                            let (x, y) = (self.chr(*x), self.chr(*y));
                            format!("({}, {})", x, y)
                        })
                        .collect();
                    a.push_str(&format!("from2 vec![{}]", p.join(", ")));
                }
                self.call("ematch", &a)
            }
        }
    }
    fn set(&mut self, rs: &Rules) -> Item {
        let mut order: Vec<(&String, &G)> = rs.iter().collect();
        self.src.shuffle(&mut order);
        let mut parts = vec![];
        for (n, g) in order {
            if self.src.chance(1, 10) {
                let n = self.name(n);
                parts.push(format!("{} => lit!(\"replaced\")", n));
            }
            let (n, e) = (self.name(n), self.expr(g));
            parts.push(format!("{} => {}", n, e));
        }
        let code = format!("rules!{{\n{}\n}}", parts.join(",\n"));
        Item { pre: std::mem::take(&mut self.pre), code }
    }
}
fn s_c27(o: &Opts, rep: &mut Report) -> Special {
    let n = match o.tier {
        Tier::Quick => 1_200u64,
        Tier::Thorough => 12_000,
    };
    let mut all = fixed_c14();
    let mut i = 0;
    while (all.len() as u64) < n {
        let mut src = Src::random(mix(&[o.seed, hash_str("C27 batch"), i]));
        i += 1;
        let rs = c14_rules(&mut src);
        if rs.values().map(|g| g.size()).sum::<usize>() < 150 && show_rules(&rs).len() < 3900 {
            all.push(rs);
        }
    }
    let seed = o.seed;
    compile_and_compare(o, rep, "c27", &all, move |rs| {
        let mut src = Src::random(mix(&[seed, hash_str(&show_rules(rs))]));
        let item = Style { src: &mut src, pre: String::new(), vars: 0 }.set(rs);
        Ok(item)
    })
}
