//! Cases that are large in one direction: long literals, wide classes and choices, long sequences,
//! many iterations, deep recursion, late failures, many lines, long names, many rules.
//! Sizes crowd around powers of two.

use crate::gen::*;
use crate::model::*;
use crate::pbt::Src;

pub const STEPS_LARGE: u64 = 400_000;

/// 1..5000
pub fn size(src: &mut Src) -> usize {
    match src.weighted(&[3, 4, 4, 1]) {
        0 => src.range(1, 20),
        1 => src.range(20, 300),
        2 => {
            let p = *src.pick(&[16usize, 32, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2000, 2048, 4096]);
            p - 1 + src.range(0, 2)
        }
        _ => src.range(300, 3000),
    }
}

fn three(src: &mut Src) -> [char; 3] {
    *src.pick(&[['a', 'b', 'c'], ['é', '日', '🎈'], ['a', '\n', 'b'], ['0', 'é', '\r'], ['日', '本', '語'], ['\\', '"', '\''], ['\u{7f}', '\u{80}', '\u{7ff}']])
}

fn one(c: char) -> G {
    G::Lit(c.to_string())
}

pub struct Scaled {
    pub rules: Rules,
    pub texts: Vec<String>,
    pub kind: &'static str,
    pub alphabet: Vec<char>,
}

/// with `plain`, without error constructors and undefined rules
pub fn gen_scaled(src: &mut Src, plain: bool) -> Scaled {
    gen_scaled_to(src, plain, usize::MAX)
}
pub fn gen_scaled_to(src: &mut Src, plain: bool, most: usize) -> Scaled {
    let n = size(src).min(most);
    let [a, b, c] = three(src);
    let mut rs = Rules::new();
    let mut texts: Vec<String> = vec![];
    let cyc = |k: usize, pat: &[char]| -> String { pat.iter().cycle().take(k).collect() };
    let (kind, e): (&'static str, G) = match src.below(15) {
        0 => {
            let l = match src.below(3) {
                0 => cyc(n, &[a]),
                1 => cyc(n, &[a, b, a, a, b]),
                _ => (0..n).map(|_| *src.pick(&[a, b, c])).collect(),
            };
            let mut cs: Vec<char> = l.chars().collect();
            texts.push(l.clone());
            texts.push(cs[..cs.len() - 1].iter().collect());
            texts.push(l.clone() + &c.to_string());
            let k = src.range(0, n - 1);
            texts.push(cs[..k].iter().collect());
            cs[k] = if cs[k] == a { b } else { a };
            texts.push(cs.iter().collect());
            ("long literal", G::Lit(l))
        }
        1 => {
            let base = *src.pick(&[0x61u32, 0x4e00, 0x1f000, 0xa0, 0x20, 0xfff0]);
            let ch = |i: u32| char::from_u32(base + i).unwrap_or('\u{fffd}');
            let n = n.min(2000) as u32;
            let listed = src.bool();
            let mut cs: Vec<char> = vec![];
            let mut ranges: Vec<(char, char)> = vec![];
            if listed {
                cs = (0..n).map(|i| ch(2 * i)).collect();
                src.shuffle(&mut cs[..]);
            } else {
                ranges = (0..n).map(|i| (ch(4 * i), ch(4 * i + src.below(3)))).collect();
                if src.bool() {
                    src.shuffle(&mut ranges[..]);
                }
                if src.bool() {
                    cs.extend([a, b]);
                }
            }
            let top = if listed { 2 * n } else { 4 * n };
            for _ in 0..4 {
                texts.push((0..src.range(1, 30)).map(|_| ch(src.below(top + 1))).collect());
            }
            for i in [0, n / 2, n - 1] {
                let i = if listed { 2 * i } else { 4 * i };
                texts.push(ch(i).to_string());
                texts.push(ch(i + 1).to_string());
                texts.push(ch(i + 3).to_string());
                texts.push(like_char(src, ch(i)).to_string());
            }
            let g = G::Class(cs.into_iter().collect(), ranges);
            ("wide class", if src.bool() { rep(g, 0, None) } else { g })
        }
        2 => {
            let n = n.min(1500);
            let via = src.below(4);
            let apart = src.bool();
            // with a first character of its own, or not
            let word = |i: usize| if apart { format!("{}{}{}", std::char::from_u32(0x4e00 + i as u32).unwrap(), i, b) } else { format!("{}{}{}", a, i, b) };
            let mut v = vec![];
            for i in 0..n {
                let g = match via {
                    1 if apart => G::Lit(word(i)),
                    0 => G::Lit(word(i)),
                    1 => G::Seq(vec![one(a), lit(&i.to_string()), one(b)]),
                    2 => G::Seq(vec![G::Lit(word(i)), rep(one(c), 0, None)]),
                    _ => {
                        rs.insert(format!("r{}", i), G::Lit(word(i)));
                        rf(&format!("r{}", i))
                    }
                };
                v.push(g);
            }
            if src.bool() {
                // one that is not like the others
                let at = if src.bool() { n } else { src.range(0, n) };
                let g = match src.below(7) {
                    0 => lit(""),
                    1 => rep(one(c), 0, None),
                    2 => G::Eof,
                    3 => G::Dot,
                    4 => not(one(c)),
                    5 => G::Seq(vec![]),
                    _ => G::Seq(vec![one(a), rep(G::Dot, 0, Some(1))]),
                };
                v.insert(at, g);
                for i in [0, n - 1, src.range(0, n - 1)] {
                    let w: Vec<char> = word(i).chars().collect();
                    texts.push(w[..1].iter().collect::<String>() + "y");
                    texts.push(w[..w.len() - 1].iter().collect());
                }
                texts.push(String::new());
            }
            let many = src.bool();
            for i in [0, n - 1, n, src.range(0, n - 1), src.range(0, n - 1)] {
                texts.push(word(i));
                if many {
                    texts.push(word(i) + &word(src.range(0, n)) + &word(0));
                }
            }
            texts.push(format!("{}{}", a, n - 1));
            let g = if many { rep(G::Alt(v), 0, None) } else { G::Alt(v) };
            ("many alternatives", if src.bool() { G::Seq(vec![g, rep(G::Dot, 0, None)]) } else { g })
        }
        3 => {
            rs.insert("s".into(), G::Alt(vec![G::Seq(vec![one(a), one(c)]), one(a)]));
            let v: Vec<G> = (0..n)
                .map(|_| match src.below(7) {
                    0 | 1 => one(a),
                    2 => class(&format!("{}{}", a, b), &[]),
                    3 => G::Dot,
                    4 => rep(one(b), 0, Some(1)),
                    5 => rf("s"),
                    _ => not(one(c)),
                })
                .collect();
            let g = G::Seq(v);
            for _ in 0..3 {
                let t = sample(&rs, &g, src, &[a], n + 10);
                texts.push(mutate(&t, &[a, b, c], src));
                texts.push(t);
            }
            ("long sequence", g)
        }
        4 => {
            rs.insert("b".into(), G::Alt(vec![G::Seq(vec![one(a), one(b)]), one(a)]));
            let body = match src.below(5) {
                0 => one(a),
                1 => class(&format!("{}{}", a, b), &[]),
                2 => G::Seq(vec![one(a), rep(one(b), 0, Some(1))]),
                3 => rf("b"),
                _ => G::Seq(vec![not(one(c)), G::Dot]),
            };
            let (m, x) = *src.pick(&[(0, None), (n, None), (0, Some(n)), (n, Some(n)), (n - 1, Some(n + 1)), (1, None), (n, Some(2 * n))]);
            for k in [n - 1, n, n + 1, 2 * n + 1] {
                let mut t = String::new();
                for _ in 0..k {
                    t.push(a);
                    if src.chance(1, 6) {
                        t.push(b);
                    }
                }
                if src.chance(1, 3) {
                    t = mutate(&t, &[a, b, c], src);
                }
                texts.push(t.clone() + &c.to_string());
                texts.push(t);
            }
            let tail = match src.below(6) {
                0 => G::Seq(vec![]),
                1 => one(c),
                2 => rep(one(c), 0, None),
                3 => not(G::Dot),
                4 => G::Eof,
                _ => rep(rf("b"), 0, None),
            };
            ("many iterations", G::Seq(vec![rep(body, m, x), tail]))
        }
        5 => {
            let n = n.min(1200);
            match src.below(4) {
                0 => {
                    rs.insert("r".into(), G::Alt(vec![G::Seq(vec![one(a), rf("r"), one(b)]), rep(one(c), 0, Some(1))]));
                    for (i, j) in [(n, n), (n, n - 1), (n - 1, n), (n, n)] {
                        texts.push(cyc(i, &[a]) + &c.to_string() + &cyc(j, &[b]));
                    }
                    texts.push(cyc(n, &[a]) + &cyc(n, &[b]));
                }
                1 => {
                    rs.insert("r".into(), G::Alt(vec![G::Seq(vec![one(a), rf("r")]), one(b)]));
                    texts.extend([cyc(n, &[a]) + &b.to_string(), cyc(n, &[a]), cyc(n, &[a]) + &c.to_string(), cyc(n, &[a]) + &b.to_string() + &b.to_string()]);
                }
                2 => {
                    rs.insert("r".into(), G::Seq(vec![one(a), rep(rf("q"), 0, Some(1))]));
                    rs.insert("q".into(), G::Seq(vec![rf("r"), rep(one(b), 0, None)]));
                    texts.extend([cyc(n, &[a]), cyc(n, &[a]) + &cyc(3, &[b]), cyc(n, &[a]) + &c.to_string(), cyc(n, &[a]) + &b.to_string() + &a.to_string()]);
                }
                _ => {
                    for i in 0..n {
                        rs.insert(format!("r{}", i), if src.chance(1, 8) { G::Seq(vec![rep(one(b), 0, Some(1)), rf(&format!("r{}", i + 1))]) } else { rf(&format!("r{}", i + 1)) });
                    }
                    rs.insert(format!("r{}", n), one(a));
                    rs.insert("r".into(), rf("r0"));
                    texts.extend([a.to_string(), b.to_string() + &a.to_string(), b.to_string(), cyc(3, &[b]) + &a.to_string(), String::new()]);
                }
            }
            ("deep recursion", rf("r"))
        }
        6 => {
            let r = rep(if src.bool() { one(a) } else { class(&a.to_string(), &[]) }, 0, None);
            rs.insert("w".into(), r.clone());
            let r = if src.bool() { rf("w") } else { r };
            let mut v = vec![G::Seq(vec![r.clone(), one(b)]), G::Seq(vec![r.clone(), one(c)])];
            if src.bool() {
                v.push(G::Seq(vec![r.clone(), G::Eof]));
            }
            if src.bool() {
                v.insert(0, G::Seq(vec![one(a), one(a), one(b)]));
            }
            if src.bool() {
                v.push(one(a));
            }
            for k in [n, n - 1, 2] {
                texts.extend([cyc(k, &[a]) + &c.to_string(), cyc(k, &[a]) + &b.to_string(), cyc(k, &[a]), cyc(k, &[a]) + "!?"]);
            }
            ("late failure", G::Alt(v))
        }
        7 => {
            let ahead = G::Seq(vec![rep(G::Seq(vec![not(one(c)), G::Dot]), 0, None), one(c)]);
            let g = match src.below(3) {
                0 => G::Seq(vec![not(ahead), rep(G::Dot, 0, None)]),
                1 => G::Seq(vec![not(not(ahead.clone())), one(a), rep(class(&format!("{}{}", a, b), &[]), 0, None), one(c)]),
                _ => rep(G::Seq(vec![not(G::Seq(vec![one(a), one(b), one(c)])), G::Dot]), 0, None),
            };
            texts.extend([cyc(n, &[a, b]), cyc(n, &[a, b]) + &c.to_string(), cyc(n, &[a]) + &c.to_string() + &b.to_string(), cyc(n, &[b, a, a])]);
            ("long lookahead", g)
        }
        8 => {
            let nl = *src.pick(&["\n", "\r\n", "\r", "\n\n"]);
            rs.insert("line".into(), G::Seq(vec![rep(class(&format!("{}{}", a, b), &[]), 0, None), lit(nl)]));
            let mut t = String::new();
            for _ in 0..n {
                for _ in 0..src.geo(1, 2, 6) {
                    t.push(if src.bool() { a } else { b });
                }
                t.push_str(nl);
            }
            let g = match src.below(3) {
                0 => rep(rf("line"), 0, None),
                1 => G::Seq(vec![rep(rf("line"), 0, None), G::Eof]),
                _ => G::Seq(vec![rep(rf("line"), n, None), one(c)]),
            };
            let last: String = (0..src.range(0, 5)).map(|_| a).collect();
            texts.extend([t.clone(), t.clone() + &last, t.clone() + &last + "!", t.clone() + &c.to_string(), mutate(&t, &[a, b, c], src)]);
            ("many lines", g)
        }
        9 => {
            let stem: String = (0..n).map(|i| if i % 7 == 6 { '_' } else { 'n' }).collect();
            let (x, y) = (format!("{}x", stem), format!("{}y", stem));
            rs.insert(x.clone(), G::Alt(vec![one(a), G::Seq(vec![one(c), rf(&y)])]));
            rs.insert(y.clone(), one(b));
            rs.insert(stem.clone(), one(c));
            let last = if plain || src.bool() {
                rf(&stem)
            } else if src.bool() {
                err(&stem)
            } else {
                rf(&format!("{}z", stem))
            };
            texts.extend([format!("{}{}{}", a, b, c), format!("{}{}{}", c, b, c), format!("{}{}{}", a, b, a), format!("{}{}{}{}", c, b, b, c), format!("{}{}", a, a)]);
            ("long names", G::Seq(vec![rf(&x), rf(&y), last]))
        }
        10 => {
            let n = n.max(3);
            for i in 0..n {
                let g = match src.below(4) {
                    0 if i + 1 < n => rf(&format!("r{}", src.range(i + 1, n - 1))),
                    1 if i + 2 < n => G::Alt(vec![one(a), rf(&format!("r{}", src.range(i + 1, (i + 40).min(n - 1))))]),
                    2 if i + 2 < n => G::Seq(vec![one(b), rf(&format!("r{}", src.range(i + 1, (i + 200).min(n - 1))))]),
                    _ => class(&format!("{}{}", a, c), &[]),
                };
                rs.insert(format!("r{}", i), g);
            }
            let g = rep(G::Alt(vec![rf("r0"), rf(&format!("r{}", n - 1)), rf(&format!("r{}", src.range(0, n - 1)))]), 0, None);
            for _ in 0..4 {
                let t = sample(&rs, &g, src, &[a, b], 60);
                texts.push(mutate(&t, &[a, b, c], src));
                texts.push(t);
            }
            ("many rules", g)
        }
        11 => {
            rs.insert("x".into(), G::Seq(vec![one(a), one(b), one(c)]));
            rs.insert("y".into(), G::Seq(vec![one(a), rf("z")]));
            rs.insert("z".into(), G::Seq(vec![not(one(c)), G::Dot]));
            let g = rep(G::Alt(vec![rf("x"), rf("y"), one(a), one(b)]), 0, None);
            for _ in 0..4 {
                let t: String = (0..n).map(|_| *src.pick(&[a, a, b])).collect();
                texts.push(mutate(&t, &[a, b, c], src));
                texts.push(t);
            }
            ("many abandoned attempts", g)
        }
        12 | 13 => {
            // a tower of few kinds of levels, through rules or not
            let n = src.range(4, 45);
            let kinds: Vec<u32> = (0..src.range(1, 3)).map(|_| src.below(20)).collect();
            let via = src.below(3);
            let e = if plain { G::Class(String::new(), vec![]) } else { err("no") };
            let mut g = match src.below(5) {
                0 | 1 => one(a),
                2 => e.clone(),
                3 => G::Dot,
                _ if plain => G::Eof,
                _ => rf("undefined"),
            };
            for i in 0..n {
                g = match *src.pick(&kinds) {
                    0 => G::Seq(vec![g, rep(one(b), 0, Some(1))]),
                    1 => G::Seq(vec![rep(one(b), 0, Some(1)), g]),
                    2 => G::Alt(vec![g, one(c)]),
                    3 => G::Alt(vec![one(c), g]),
                    4 => G::Alt(vec![one(c), one(b), g]),
                    5 => G::Alt(vec![G::Seq(vec![one(a), one(b)]), g, one(c)]),
                    6 => rep(g, 0, Some(1)),
                    7 => rep(g, 1, None),
                    8 => rep(g, 0, None),
                    9 => rep(g, 1, Some(1)),
                    10 => not(g),
                    11 => not(not(g)),
                    12 => G::Seq(vec![not(g), e.clone()]),
                    13 => G::Alt(vec![not(g), e.clone()]),
                    14 => G::Alt(vec![g, e.clone()]),
                    15 => G::Seq(vec![g, e.clone()]),
                    16 => G::Seq(vec![not(one(c)), g]),
                    17 => G::Seq(vec![not(g), rep(G::Dot, 0, Some(1))]),
                    18 => G::Alt(vec![G::Seq(vec![g, one(b)]), one(a)]),
                    _ => G::Seq(vec![rep(one(a), 0, Some(1)), g, one(b)]),
                };
                if via == 1 || (via == 2 && src.bool()) {
                    let name = format!("t{}", i);
                    rs.insert(name.clone(), g);
                    g = rf(&name);
                }
            }
            texts.extend([a.to_string(), String::new(), cyc(n, &[a]), c.to_string(), cyc(n, &[a, b]), cyc(n, &[b]) + &cyc(2, &[a])]);
            ("tower", g)
        }
        _ => {
            let n = n.min(150);
            let mut g = one(a);
            for _ in 0..n {
                g = match src.below(6) {
                    0 => G::Seq(vec![g]),
                    1 => G::Alt(vec![g]),
                    2 => rep(g, 1, Some(1)),
                    3 => G::Seq(vec![g, rep(one(b), 0, Some(1))]),
                    4 => G::Alt(vec![one(c), g]),
                    _ => G::Seq(vec![rep(one(c), 0, Some(1)), g]),
                };
            }
            for _ in 0..3 {
                let t = sample(&rs, &g, src, &[], n + 10);
                texts.push(mutate(&t, &[a, b, c], src));
                texts.push(t);
            }
            ("deep nesting", g)
        }
    };
    let all = rep(G::Dot, 0, None);
    let main = match src.weighted(&[6, 2, 2, 2, 2, 2, 2, 2]) {
        0 => e,
        1 => {
            let p = *src.pick(&[a, c]);
            let old = texts.clone();
            texts = old.into_iter().enumerate().map(|(i, t)| if i % 4 == 3 { t } else { format!("{}{}", p, t) }).collect();
            G::Seq(vec![one(p), e])
        }
        2 => {
            rs.insert("e".into(), e);
            G::Alt(vec![G::Seq(vec![rf("e"), one(c)]), rf("e"), all])
        }
        3 => G::Seq(vec![e, G::Eof]),
        4 => {
            rs.insert("e".into(), e);
            rf("e")
        }
        5 => G::Seq(vec![rep(e, 0, Some(1)), all]),
        6 if !plain => G::Alt(vec![e, G::Seq(vec![rep(one(a), 0, None), err("no e here")])]),
        6 => G::Alt(vec![e, G::Seq(vec![rep(one(a), 0, None), one(c)])]),
        _ => G::Seq(vec![not(not(e.clone())), e]),
    };
    rs.insert("main".into(), main);
    texts.dedup();
    Scaled { rules: rs, texts, kind, alphabet: vec![a, b, c] }
}

/// a case that PEG text can express
pub fn gen_scaled_peg(src: &mut Src, most: usize) -> Scaled {
    let mut s = gen_scaled_to(src, false, most);
    let f = |g: &G| {
        g.map(&mut |g| match g {
            G::Eof => not(G::Dot),
            G::Rep(b, 0, Some(0)) => rep(*b, 0, Some(1)),
            G::Rep(b, 0, None) => G::Rep(b, 0, None),
            G::Rep(b, 0, Some(1)) => G::Rep(b, 0, Some(1)),
            G::Rep(b, 0, Some(_)) => rep(*b, 0, None),
            G::Rep(b, _, _) => rep(*b, 1, None),
            G::Class(mut cs, mut rs) => {
                fix_peg_class(&mut cs, &mut rs);
                G::Class(cs, rs)
            }
            G::Seq(v) | G::Alt(v) if v.is_empty() => lit(""),
            G::Seq(mut v) | G::Alt(mut v) if v.len() == 1 => v.pop().unwrap(),
            g => g,
        })
    };
    s.rules = s.rules.iter().map(|(k, g)| (k.clone(), f(g))).collect();
    s
}

pub struct Huge {
    pub what: String,
    pub rules: Rules,
    pub texts: Vec<String>,
}

/// Sizes beyond what a small integer holds: texts to 1.1 million characters, 70,000 children,
/// repetitions of 300,000 iterations, positions around 32,768, 65,536 and 1,048,576.
/// Lines are short, as each failure copies the one it is on.
pub fn huge_cases(most: usize) -> Vec<Huge> {
    let mut out: Vec<Huge> = vec![];
    let mut add = |what: String, rs: &[(&str, G)], texts: Vec<String>| out.push(Huge { what, rules: rs.iter().map(|(a, b)| (a.to_string(), b.clone())).collect(), texts });
    let lines = |n: usize| -> String { "a\n日\n".chars().cycle().take(n).collect() };
    let one = |c: &str| G::Lit(c.to_string());
    let rp = |g: G, a: usize, b: Option<usize>| G::Rep(Box::new(g), a, b);
    let rf = |c: &str| G::Ref(c.to_string());
    // many children, of one node or below one
    for n in [32_767usize, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073, 262_143, 262_145, 524_289, 1_048_577, 1_100_000] {
        if n > most {
            continue;
        }
        let t = lines(n);
        add(format!("{} children", n), &[("main", rp(G::Dot, 0, None))], vec![t.clone()]);
        add(format!("exactly {} iterations", n), &[("main", rp(G::Dot, n, Some(n)))], vec![t.clone(), t.chars().skip(1).collect(), format!("a{}", t)]);
        add(format!("at most {} iterations", n), &[("main", G::Seq(vec![rp(G::Dot, 0, Some(n)), rp(one("!"), 0, None)]))], vec![t.clone(), format!("{}!!", t), format!("{}a", t)]);
        // a failure far into the text, and alternatives that fail around it
        add(format!("a failure after {} characters", n), &[("main", G::Seq(vec![rp(G::Dot, n, Some(n)), one("!"), one("?")]))], vec![t.clone(), format!("{}!", t), format!("{}!a\nb", t), format!("{}a\nb", t)]);
        for k in [1usize, 2, 3] {
            let first = G::Seq(vec![rp(G::Dot, n - 1, Some(n - 1)), rp(G::Dot, k, Some(k)), one("!")]);
            let second = G::Seq(vec![rp(G::Dot, n - 1, Some(n - 1)), one("?")]);
            for (i, alts) in [vec![first.clone(), second.clone()], vec![second, first]].into_iter().enumerate() {
                if i == 1 && n > 300_000 {
                    continue;
                }
                add(format!("alternatives that fail around character {}", n), &[("main", G::Alt(alts))], vec![format!("{}aaaa\nb", t)]);
            }
            if n > 300_000 {
                break;
            }
        }
        // constructors and undefined rules far into the text
        for bad in [G::Err("too far".into()), rf("nowhere")] {
            add(
                format!("a constructor after {} characters", n),
                &[("main", G::Alt(vec![rf("sub"), rp(G::Dot, 0, None)])), ("sub", G::Seq(vec![rp(G::Dot, n, Some(n)), bad]))],
                vec![t.clone(), t.chars().skip(1).collect(), format!("{}a\nb", t)],
            );
        }
    }
    for n in [32_768usize, 65_535, 65_536, 65_537, 70_000] {
        if n > most {
            continue;
        }
        // many rule nodes
        let t = lines(n);
        add(format!("{} rule nodes", n), &[("main", rp(rf("x"), 0, None)), ("x", G::Dot)], vec![t.clone()]);
        add(format!("{} rule nodes then a failure", n), &[("main", G::Seq(vec![rp(rf("x"), 0, None), one("!")])), ("x", G::Alt(vec![one("a"), one("\n"), one("日")]))], vec![t.clone(), format!("{}!", t), format!("{}b", t)]);
        // long sequences, choices, literals, classes
        let cs: Vec<char> = t.chars().collect();
        add(format!("a sequence of {}", n), &[("main", G::Seq(cs.iter().map(|c| one(&c.to_string())).collect()))], vec![t.clone(), cs[..n - 1].iter().collect(), format!("{}a", t)]);
        let alts: Vec<G> = (0..n).map(|i| one(&format!("<{}>", i))).collect();
        add(format!("a choice of {}", n), &[("main", G::Alt(alts))], vec![format!("<{}>", n - 1), format!("<{}>", n / 2), "<0>".into(), format!("<{}>", n), "".into()]);
        let mut l = cs.clone();
        let good: String = t.clone();
        l[n - 1] = 'x';
        let late: String = l.iter().collect();
        add(format!("a literal of {}", n), &[("main", one(&good))], vec![good.clone(), late, cs[..n - 1].iter().collect(), format!("{}a", good)]);
        let chars: String = (0..n as u32).filter_map(|i| std::char::from_u32(0x1_0000 + i)).collect();
        let last = std::char::from_u32(0x1_0000 + n as u32 - 1).unwrap();
        let after = std::char::from_u32(0x1_0000 + n as u32).unwrap();
        add(format!("a class of {}", n), &[("main", G::Class(chars, vec![]))], vec![last.to_string(), after.to_string(), "\u{10000}".into(), "a".into()]);
        let rs: Vec<(char, char)> = (0..n as u32).map(|i| std::char::from_u32(0x1_0000 + 2 * i).unwrap()).map(|c| (c, c)).collect();
        let (last, next) = (rs[n - 1].0, std::char::from_u32(rs[n - 1].0 as u32 + 1).unwrap());
        add(format!("{} ranges", n), &[("main", G::Class(String::new(), rs))], vec![last.to_string(), next.to_string(), "\u{10000}".into(), "\u{10001}".into()]);
        // a negation far into the text
        add(format!("a negation after {} characters", n), &[("main", G::Seq(vec![rp(G::Seq(vec![G::Not(Box::new(one("!"))), G::Dot]), 0, None), G::Not(Box::new(one("!?"))), one("!")]))], vec![format!("{}!", t), format!("{}!?", t), t.clone()]);
    }
    // many rules, each below the one before it would be deep: here all below main
    for n in [32_769usize, 65_537] {
        if n > most {
            continue;
        }
        let mut rs: Rules = (0..n).map(|i| (format!("r{}", i), one(&format!("{}\n", i)))).collect();
        rs.insert("main".into(), G::Seq(vec![rf(&format!("r{}", n - 1)), rf("r0"), rf(&format!("r{}", n / 2)), rf("r255"), rf("r256")]));
        let t = format!("{}\n0\n{}\n255\n256\n", n - 1, n / 2);
        out.push(Huge { what: format!("{} rules", n), rules: rs, texts: vec![t.clone(), format!("{}x", t), t[1..].to_string(), format!("{}\n0\n{}\n255\n255\n", n - 1, n / 2)] });
    }
    out
}
