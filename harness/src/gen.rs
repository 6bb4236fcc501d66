//! Generators: rule sets without left recursion, texts, trees, PEG texts with random layout.

use crate::model::*;
use crate::pbt::Src;
use std::collections::BTreeMap;

pub const SPECIALS: &[char] = &[
    '"', '\'', '\\', '/', '[', ']', '(', ')', '-', '*', '+', '?', '!', '.', '=', '#', '{', '}', ' ', '\t', '<', '>', '|', '&', '%', ',', ';', ':', '_', '~', '^', '$', '@', '`',
];
pub const ODD: &[char] = &[
    '\0', '\u{1}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ff}', '\u{100}', '\u{300}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{200d}', '\u{202e}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{feff}',
    '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}',
];

/// any character, biased to interesting ones
pub fn any_char(src: &mut Src) -> char {
    match src.weighted(&[6, 4, 3, 3, 3, 2, 1]) {
        0 => *src.pick(&['a', 'b', 'c', 'x', 'z', 'A', 'Z', '0', '1', '9']),
        1 => *src.pick(SPECIALS),
        2 => *src.pick(&['\n', '\r', '\t', ' ']),
        3 => *src.pick(&['é', 'ñ', 'ß', 'Ω', '日', '本', '語', '🎈', '𝄞', '€', 'ÿ', '¡']),
        4 => *src.pick(ODD),
        5 => char::from_u32(32 + src.below(95)).unwrap(),
        _ => char::from_u32(src.below(0x110000)).unwrap_or('\u{fffd}'),
    }
}
pub fn any_string(src: &mut Src, max: usize) -> String {
    if max >= 20 && src.chance(1, 30) {
        return wide_string(src);
    }
    let n = length(src, max);
    (0..n).map(|_| any_char(src)).collect()
}
/// a long string in which most byte offsets are inside a character
pub fn wide_string(src: &mut Src) -> String {
    let mut s: String = "abc".chars().take(src.range(0, 3)).collect();
    let wide = *src.pick(&['é', '日', '🎈', '𝄞', '\u{7ff}', '\u{ffff}']);
    for _ in 0..src.range(10, 150) {
        s.push(if src.chance(1, 40) { any_char(src) } else { wide });
    }
    s
}
/// a length: mostly short, now and then long
pub fn length(src: &mut Src, max: usize) -> usize {
    if max > 12 && src.chance(1, 25) {
        src.range(0, max)
    } else {
        src.geo(2, 3, max.min(12))
    }
}

/// characters that a careless reader takes for each other
pub const PAIRS: &[(char, char)] = &[('\'', '"'), ('\'', '`'), ('"', '”'), ('(', '['), (')', ']'), ('(', '{'), (')', '}'), ('(', ')'), ('[', ']'), ('{', '}'), ('<', '>'), ('/', '\\'), ('-', '_'), ('-', '–'), ('\n', '\r'), (' ', '\t'), (' ', '\u{a0}'), ('.', ','), (':', ';'), ('0', 'O'), ('0', 'o'), ('1', 'l'), ('+', '*'), ('!', '?'), ('é', 'e'), ('ß', 's'), ('日', '曰'), ('\u{1f600}', '\u{1f601}'), ('K', '\u{212a}'), ('Ω', '\u{2126}'), ('Å', '\u{212b}'), ('å', '\u{212b}'), ('A', '\u{391}'), ('a', '\u{430}'), ('µ', '\u{3bc}'), ('s', '\u{17f}'), ('i', '\u{131}'), ('I', '\u{130}'), (' ', '\u{3000}'), (' ', '\u{2003}'), ('\n', '\u{85}'), ('\n', '\u{2028}'), ('\n', '\u{b}'), ('0', '\u{660}'), ('1', '\u{661}'), ('9', '\u{669}'), ('1', '\u{967}'), ('1', '¹'), ('1', '½'), ('9', '\u{7c9}'), ('a', 'ª'), ('.', '\u{3002}'), (',', '\u{60c}'), ('-', '\u{2212}'), ('-', '\u{ad}'), ('/', '\u{2215}'), ('\'', '\u{2019}'), ('*', '\u{d7}'), ('?', '\u{37e}'), (';', '\u{37e}'), ('é', 'É'), ('é', '\u{301}'), ('ñ', 'n'), ('日', '\u{2f47}'), ('z', 'ž')];

/// a character that a careless comparison takes for the given one
pub fn like_char(src: &mut Src, c: char) -> char {
    let u = c as u32;
    if src.chance(1, 3) {
        let near: Vec<char> = PAIRS.iter().filter_map(|&(a, b)| if a == c { Some(b) } else if b == c { Some(a) } else { None }).collect();
        if !near.is_empty() {
            return *src.pick(&near);
        }
    }
    let n = match src.below(15) {
        12 => u + 0x80,
        13 => u & 0x7f,
        14 => u + 0x80 * src.below(20),
        0 => u ^ 0x20,
        1 => u + 0x1_0000,
        2 => u.wrapping_sub(0x1_0000),
        3 => u + 0x100,
        4 => u.wrapping_sub(0x100),
        5 => u ^ 0x80,
        6 => u + 1,
        7 => u.wrapping_sub(1),
        8 => u + 0xfee0,
        9 => u & 0xff,
        10 => c.to_uppercase().next().unwrap_or(c) as u32,
        _ => c.to_lowercase().next().unwrap_or(c) as u32,
    };
    char::from_u32(n).unwrap_or(c)
}
/// a name or value that a careless comparison takes for the given one: patterns, prefixes, other case..
pub fn like_string(src: &mut Src, s: &str) -> String {
    let end = |c: char| format!("{}{}", s, c);
    let mut v: Vec<char> = s.chars().collect();
    match src.below(35) {
        32 => end('"'),
        33 | 34 if !v.is_empty() => {
            // the last one
            let i = v.len() - 1;
            v[i] = like_char(src, v[i]);
            v.into_iter().collect()
        }
        26 => format!("r#{}", s),
        27 => format!("{:?}", s),
        28 => s.trim().into(),
        29 | 30 if v.len() > 1 => {
            // the same sum c * k + d, for the usual k of string hashes: 31, 33, 1, 256, 131
            let i = src.below(v.len() as u32 - 1) as usize;
            let k = *src.pick(&[31u32, 31, 33, 1, 256, 131]);
            let up = src.bool();
            let (a, b) = (v[i] as u32, v[i + 1] as u32);
            let ab = if up { (a.wrapping_add(1), b.wrapping_sub(k)) } else { (a.wrapping_sub(1), b.wrapping_add(k)) };
            if let (Some(a), Some(b)) = (char::from_u32(ab.0), char::from_u32(ab.1)) {
                v[i] = a;
                v[i + 1] = b;
            }
            v.into_iter().collect()
        }
        0 => end('x'),
        1 => {
            v.pop();
            v.into_iter().collect()
        }
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => format!(" {}", s),
        5 => end(' '),
        6 => format!("{}{}", s, s),
        7 => end('\0'),
        8 | 9 if !v.is_empty() => {
            let i = src.below(v.len() as u32) as usize;
            v[i] = like_char(src, v[i]);
            v.into_iter().collect()
        }
        10 => "*".into(),
        11 => {
            let k = src.below(v.len() as u32 + 1) as usize;
            format!("{}*", v[..k].iter().collect::<String>())
        }
        12 => format!("{}.*", s.split('.').next().unwrap_or("")),
        13 => format!("x.{}", s),
        14 => format!("{}.x", s),
        15 => s.rsplit('.').next().unwrap_or("").into(),
        16 => s.split('.').next().unwrap_or("").into(),
        17 => v.into_iter().rev().collect(),
        18 => end('\''),
        19 => format!("_{}", s),
        20 => s.trim_matches(|c: char| !c.is_alphanumeric()).into(),
        21 => format!("!{}", s),
        22 => end('\u{301}'),
        23 => v.into_iter().skip(1).collect(),
        24 if v.len() > 1 => {
            let i = src.below(v.len() as u32 - 1) as usize;
            v.swap(i, i + 1);
            v.into_iter().collect()
        }
        25 => format!("r:{}", s),
        _ => end('1'),
    }
}

/// pairs of different words that a careless comparison takes for one
pub fn alike_pairs() -> Vec<(String, String)> {
    let bases = [
        "", "a", "A", "ab", "abc", "main", "a.b", "a b", "_", "_a", "a_b", "x1", "10", "aa", "aaa", "aba", "a'", "a\"", "(a)", "[a]", "a/b", "a\\n", "a\n", "a\r\n", "\t", " ", " a", "a ", "é", "éa", "É", "日本", "🎈", "ß", "SS", "ﬁ", "İ", "ı", "K", "a\0", "\0", "a*", "a?", "#a", "//a", "/*a*/", "-",
        "a-z", "0", "00", "+1", "1.0", "1e3", "true", "null", "EOF", "rule", "expr", "abcdefgh", "abcdefghijklmnop", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", "日日日日日日日日日日日日日日日日日日日日日日日日日日日日日日日日",
    ];
    let mut out = std::collections::BTreeSet::new();
    for b in bases {
        let v: Vec<char> = b.chars().collect();
        let mut other: Vec<String> = vec![];
        for c in ['x', 'a', '1', ' ', '\t', '\n', '\r', '\0', '\'', '"', '.', '*', '_', '-', '/', '\\', '?', '!', '+', '(', ')', '\u{301}', '\u{200b}', '\u{feff}', '\u{fe0f}', 'é', '🎈'] {
            other.push(format!("{}{}", b, c));
            other.push(format!("{}{}", c, b));
        }
        for (l, r) in [("'", "'"), ("\"", "\""), ("(", ")"), ("[", "]"), ("<", ">"), ("{", "}"), ("r:", ""), ("r#", ""), ("", "\r\n"), ("x.", ""), ("", ".x"), ("", ".*"), ("main.", ""), ("//", ""), ("/*", "*/"), ("\\", ""), ("0", ""), ("", "()")] {
            other.push(format!("{}{}{}", l, b, r));
        }
        other.extend([b.to_uppercase(), b.to_lowercase(), b.trim().to_string(), format!("{}{}", b, b), format!("{:?}", b), b.chars().rev().collect(), b.split('.').next().unwrap_or("").into(), b.rsplit('.').next().unwrap_or("").into()]);
        other.extend([b.replace(' ', ""), b.replace('_', ""), b.replace('-', "_"), b.replace('_', "-"), b.replace("\r\n", "\n"), b.replace('\n', " "), b.replace("\\n", "\n"), b.replace('é', "e\u{301}"), b.replace('a', "")]);
        for i in 0..v.len().min(20) {
            let with = |f: &dyn Fn(&mut Vec<char>)| {
                let mut w = v.clone();
                f(&mut w);
                w.into_iter().collect::<String>()
            };
            other.push(with(&|w| {
                w.remove(i);
            }));
            other.push(with(&|w| w.insert(i, v[i])));
            if i + 1 < v.len() {
                other.push(with(&|w| w.swap(i, i + 1)));
                for k in [1u32, 31, 33, 131, 256] {
                    for (a, b) in [((v[i] as u32).wrapping_add(1), (v[i + 1] as u32).wrapping_sub(k)), ((v[i] as u32).wrapping_sub(1), (v[i + 1] as u32).wrapping_add(k))] {
                        if let (Some(a), Some(b)) = (char::from_u32(a), char::from_u32(b)) {
                            other.push(with(&|w| {
                                w[i] = a;
                                w[i + 1] = b;
                            }));
                        }
                    }
                }
            }
            other.push(v[..i].iter().collect());
            let u = v[i] as u32;
            let mut cs: Vec<char> = [u ^ 0x20, u ^ 0x80, u ^ 1, u + 1, u.wrapping_sub(1), u + 0x80, u + 0x100, u + 0x1_0000, u & 0x7f, u & 0xff, u & 0xffff, u + 0xfee0, 0xfffd, 0x3f, 0x41].iter().filter_map(|&n| char::from_u32(n)).collect();
            cs.extend(PAIRS.iter().filter_map(|&(a, b)| if a == v[i] { Some(b) } else if b == v[i] { Some(a) } else { None }));
            for c in cs {
                other.push(with(&|w| w[i] = c));
            }
        }
        for o in other {
            if o != b {
                out.insert((b.to_string(), o.clone()));
                out.insert((o, b.to_string()));
            }
        }
    }
    out.into_iter().collect()
}

/// the characters of one case
pub fn gen_alphabet(src: &mut Src) -> Vec<char> {
    let mut a: Vec<char> = match src.weighted(&[10, 6, 4, 3, 3, 3, 3, 2]) {
        0 => vec!['a', 'b'],
        1 => vec!['a', 'b', 'c'],
        2 => vec!['a', 'b', '\n'],
        3 => vec!['a', '\r', '\n'],
        4 => vec!['a', 'é', '日', '🎈'],
        5 => vec!['\u{10ffff}', '日', '\n', 'b'],
        6 => vec!['"', '\'', '\\', 'n', 'r', '\n'],
        _ => (0..src.range(2, 8)).map(|_| any_char(src)).collect(),
    };
    if src.chance(1, 4) {
        a.push(any_char(src));
    }
    if src.chance(1, 8) {
        a.extend(['0', '5', '9', 'A', 'Z']);
    }
    if src.chance(1, 10) {
        for _ in 0..src.range(1, 3) {
            let c = *src.pick(&a);
            a.push(like_char(src, c));
        }
    }
    a.sort();
    a.dedup();
    src.shuffle(&mut a);
    a
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub alphabet: Vec<char>,
    pub n_rules: usize,
    /// weights
    pub w_err: u32,
    pub w_missing: u32,
    pub w_eof: u32,
    pub w_rep: u32,
    pub w_not: u32,
    /// empty sequences and choices, empty classes, reversed ranges, max < min
    pub odd: bool,
    /// only what PEG syntax can express
    pub peg: bool,
    pub big: bool,
    pub deep: usize,
    /// repetitions of bodies that can be empty
    pub nullable_rep: bool,
    pub arbitrary_names: bool,
    pub literal_max: usize,
    pub rep_max: usize,
}

impl Cfg {
    pub fn general(src: &mut Src) -> Cfg {
        let big = src.chance(1, 10);
        Cfg {
            alphabet: gen_alphabet(src),
            n_rules: if big && src.chance(1, 3) { src.range(20, 60) } else { src.range(1, 6) },
            w_err: *src.pick(&[0, 0, 1, 3]),
            w_missing: *src.pick(&[0, 0, 0, 1]),
            w_eof: *src.pick(&[0, 1, 2]),
            w_rep: *src.pick(&[3, 3, 6]),
            w_not: *src.pick(&[1, 1, 3]),
            odd: src.chance(1, 12),
            peg: false,
            big,
            deep: if src.chance(1, 40) { 40 } else { src.range(1, 5) },
            nullable_rep: true,
            arbitrary_names: src.chance(1, 3),
            literal_max: if big { 300 } else { 4 },
            rep_max: if big { 300 } else { 4 },
        }
    }
    pub fn peg(src: &mut Src) -> Cfg {
        let mut c = Cfg::general(src);
        c.peg = true;
        c.odd = false;
        c.w_eof = 0;
        c
    }
}

pub const NAME_POOL: &[&str] = &[
    "a", "b", "r1", "ab", "abc", "_", "_1", "_eol", "rule", "symbol", "or", "and", "expr", "main2", "Main", "mainx", "literal", "error", "errors", "r:main", "atom", "match", "dot", "EOF", "grammar", "eol", "parenth",
    "ws", "WS", "sp", "SP", "space", "spaces", "blank", "start", "end", "any", "ANY", "digit", "letter", "alpha", "ident", "identifier", "id", "number", "num", "string", "str", "char", "__", "nl", "NL", "newline", "eoi", "EOI",
    "SOI", "value", "list", "item", "items", "root", "Root", "self", "Self", "super", "crate", "tmp", "token", "COMMENT", "WHITESPACE", "comma", "sep", "skip", "ignore", "hidden", "inline", "true", "false", "null", "None", "nil", "it", "term",
    "factor", "key", "pair", "line", "text", "file", "default", "Val", "Rule", "Node", "BeginRule", "EndRule", "Aa", "BB", "AaBB", "BBAa", "mchars", "mbetween", "lit_esc", "esc_char", "rep_or_neg", "rule_name", "module", "mod_name", "comment", "not", "X", "Y", "Z", "x.y", "x", "y", ".z", "a.b.c", ".main", "a.main", "main.a", ".main.main", "0", "1a", "_a", "a'", "b\"c", "A'\"_",
];

fn peg_name(src: &mut Src) -> String {
    const S: &[char] = &['a', 'b', 'z', 'A', 'Z', '_', '0', '9', 'm'];
    const R: &[char] = &['a', 'b', 'z', 'A', 'Z', '_', '0', '9', '\'', '"'];
    let sym = |src: &mut Src| {
        if src.chance(1, 6) {
            let n = *src.pick(NAME_POOL);
            if !n.contains('.') && !n.contains(':') {
                return n.to_string();
            }
        }
        if src.chance(1, 16) {
            return "main".to_string();
        }
        let mut s = src.pick(S).to_string();
        for _ in 0..src.geo(1, 2, 8) {
            s.push(*src.pick(R));
        }
        s
    };
    let mut s = String::new();
    if src.chance(1, 8) {
        s.push('.');
    }
    s.push_str(&sym(src));
    for _ in 0..src.geo(1, 5, 3) {
        s.push('.');
        s.push_str(&sym(src));
    }
    s
}

/// the rule names: main first
pub fn names(src: &mut Src, cfg: &Cfg) -> Vec<String> {
    let mut v = vec!["main".to_string()];
    let mut tries = 0;
    while v.len() < cfg.n_rules {
        tries += 1;
        let n = match src.weighted(&[4, 5, 3]) {
            0 => ["a", "b", "c", "d", "e", "f"][src.below(6) as usize].to_string(),
            1 => src.pick(NAME_POOL).to_string(),
            _ => {
                if cfg.peg || !cfg.arbitrary_names {
                    peg_name(src)
                } else if src.bool() {
                    let n = src.pick(&v).clone();
                    like_string(src, &n)
                } else {
                    let max = if src.chance(1, 6) { 60 } else { 8 };
                    any_string(src, max)
                }
            }
        };
        if tries > 200 {
            v.push(format!("r{}", tries));
        } else if !v.contains(&n) && !(cfg.peg && n.contains(':')) {
            v.push(n);
        }
    }
    v
}

struct Gen<'a> {
    cfg: &'a Cfg,
    names: &'a [String],
    /// what is known about rules generated so far: may it succeed without consuming?
    nullable: BTreeMap<usize, bool>,
    cur: usize,
    budget: i64,
}

/// A rule set without left recursion whose first rule is main
pub fn gen_rules(src: &mut Src, cfg: &Cfg) -> Rules {
    let names = names(src, cfg);
    let mut g = Gen { cfg, names: &names, nullable: BTreeMap::new(), cur: 0, budget: 0 };
    let mut out = Rules::new();
    // last to first: a rule refers at its left end only to later ones
    for i in (0..names.len()).rev() {
        g.cur = i;
        g.budget = if cfg.big { 120 } else { 25 };
        let depth = if i == 0 { cfg.deep.max(2) } else { cfg.deep };
        let e = g.expr(src, depth, false, true);
        let n = g.is_nullable(&e);
        g.nullable.insert(i, n);
        out.insert(names[i].clone(), e);
    }
    out
}

impl<'a> Gen<'a> {
    fn is_nullable(&self, g: &G) -> bool {
        match g {
            G::Lit(s) => s.is_empty(),
            G::Class(..) | G::Dot => false,
            G::Eof | G::Not(_) | G::Err(_) => true,
            G::Seq(v) => v.iter().all(|g| self.is_nullable(g)),
            G::Alt(v) => v.iter().any(|g| self.is_nullable(g)),
            G::Rep(g, m, x) => *m == 0 || *x == Some(0) || self.is_nullable(g),
            G::Ref(n) => match self.names.iter().position(|x| x == n) {
                Some(i) => self.nullable.get(&i).copied().unwrap_or(true),
                None => true,
            },
        }
    }

    fn expr(&mut self, src: &mut Src, depth: usize, guarded: bool, top: bool) -> G {
        self.budget -= 1;
        let c = self.cfg;
        if depth == 0 || self.budget <= 0 {
            return self.leaf(src, guarded);
        }
        let w_leaf = if top { 2 } else { 5 };
        let w_comp = if depth > 8 { 30 } else { 4 };
        match src.weighted(&[w_leaf, w_comp, w_comp, c.w_rep, c.w_not, 1]) {
            0 => self.leaf(src, guarded),
            5 => self.idiom(src, depth, guarded),
            1 => {
                let n = self.width(src, 40, 1);
                let mut gd = guarded;
                let mut v = vec![];
                for i in 0..n {
                    let e = self.expr(src, if n > 6 && i > 0 { 0 } else { depth - 1 }, gd, false);
                    gd = gd || !self.is_nullable(&e);
                    v.push(e);
                }
                G::Seq(v)
            }
            2 => {
                let n = self.width(src, 40, 1);
                let v = (0..n).map(|i| self.expr(src, if n > 6 && i > 0 { 0 } else { depth - 1 }, guarded, false)).collect();
                G::Alt(v)
            }
            3 => self.repeat(src, depth, guarded),
            _ => not(self.expr(src, depth - 1, guarded, false)),
        }
    }

    /// what grammars are usually made of: the shapes that an optimization would look for
    fn idiom(&mut self, src: &mut Src, depth: usize, guarded: bool) -> G {
        let lit = |s: &str| G::Lit(s.to_string());
        match src.below(12) {
            0 | 1 => {
                // key words, some of them the start of others
                let mut words = vec![self.literal(src)];
                for _ in 0..src.range(1, 9) {
                    let mut w = src.pick(&words).clone();
                    match src.below(5) {
                        0 => w = self.literal(src),
                        1 => {
                            w.pop();
                        }
                        _ => w.push(self.ch(src)),
                    }
                    words.push(w);
                }
                let alt = G::Alt(words.into_iter().map(G::Lit).collect());
                match src.below(3) {
                    0 => alt,
                    1 => G::Seq(vec![alt, self.char_leaf(src)]),
                    _ => {
                        let m = src.range(0, 1);
                        self.repeated(src, alt, m, None)
                    }
                }
            }
            2 => {
                // a list of items
                let item = self.expr(src, depth - 1, guarded, false);
                let sep = self.char_leaf(src);
                let again = item.clone();
                G::Seq(vec![item, rep(G::Seq(vec![sep, again]), 0, None)])
            }
            3 => {
                // until
                let end = G::Lit(self.literal(src));
                let until = rep(G::Seq(vec![not(end.clone()), G::Dot]), 0, None);
                if src.bool() {
                    G::Seq(vec![until, end])
                } else {
                    G::Seq(vec![end.clone(), until, end])
                }
            }
            4 => {
                // the same start
                let start = self.expr(src, depth - 1, guarded, false);
                let n = src.range(2, 4);
                let v = (0..n).map(|_| G::Seq(vec![start.clone(), self.leaf(src, guarded)])).collect();
                G::Alt(v)
            }
            5 => {
                // the same end
                let end = self.leaf(src, guarded);
                let n = src.range(2, 4);
                let v = (0..n).map(|_| G::Seq(vec![self.expr(src, depth - 1, guarded, false), end.clone()])).collect();
                G::Alt(v)
            }
            6 => {
                // optional or empty
                let e = self.expr(src, depth - 1, guarded, false);
                if src.bool() {
                    self.repeated(src, e, 0, Some(1))
                } else {
                    G::Alt(vec![e, lit("")])
                }
            }
            7 => {
                // ahead
                let e = self.expr(src, depth - 1, guarded, false);
                G::Seq(vec![not(not(e.clone())), if src.bool() { e } else { rep(G::Dot, 0, None) }])
            }
            8 => {
                // one character out of some, one after the other
                let n = src.range(1, 7);
                let v: Vec<G> = (0..n).map(|_| if src.chance(1, 4) { self.class(src) } else { self.char_leaf(src) }).collect();
                let alt = G::Alt(v);
                if src.bool() {
                    let m = if self.cfg.peg { src.range(0, 1) } else { src.range(0, 2) };
                    rep(alt, m, None)
                } else {
                    alt
                }
            }
            9 => {
                // repetition of a repetition
                let e = self.char_leaf(src);
                let (m, x) = self.bounds(src);
                let (m2, x2) = self.bounds(src);
                let inner = rep(e, m, x);
                self.repeated(src, inner, m2, x2)
            }
            10 => {
                // one after the other
                let n = src.range(2, 6);
                G::Seq((0..n).map(|_| G::Lit(self.literal(src))).collect())
            }
            _ => {
                // the end
                let e = self.expr(src, depth - 1, guarded, false);
                G::Seq(vec![e, not(G::Dot)])
            }
        }
    }

    fn width(&mut self, src: &mut Src, big: usize, min: usize) -> usize {
        if self.cfg.odd && src.chance(1, 6) {
            return 0;
        }
        if self.cfg.big && src.chance(1, 8) {
            return src.range(5, big);
        }
        // 2 first: the usual one
        let n = *src.pick(&[2usize, 2, 3, 2, 3, 4, 1]);
        n.max(min)
    }

    fn bounds(&mut self, src: &mut Src) -> (usize, Option<usize>) {
        if self.cfg.peg {
            return *src.pick(&[(0, None), (1, None), (0, Some(1))]);
        }
        match src.weighted(&[3, 2, 2, 6]) {
            0 => (0, None),
            1 => (1, None),
            2 => (0, Some(1)),
            _ => {
                let cap = if self.cfg.big && src.chance(1, 3) { self.cfg.rep_max } else { 4 };
                let m = src.range(0, cap);
                let x = if src.bool() {
                    Some(m + src.range(0, cap))
                } else if src.chance(1, 8) {
                    // such numbers change when cut to fewer bits
                    let top = *src.pick(&[usize::MAX, 1 << 63, 1 << 32, 1 << 31, 1 << 16, 256]);
                    Some(if src.bool() { top.saturating_add(src.range(0, 4)) } else { (top - src.range(0, 3)).max(m) })
                } else {
                    None
                };
                if self.cfg.odd && src.chance(1, 5) {
                    (m + 1, Some(m))
                } else {
                    (m, x)
                }
            }
        }
    }

    fn repeat(&mut self, src: &mut Src, depth: usize, guarded: bool) -> G {
        let body = self.expr(src, depth - 1, guarded, false);
        let (m, x) = self.bounds(src);
        self.repeated(src, body, m, x)
    }

    fn repeated(&mut self, src: &mut Src, mut body: G, m: usize, x: Option<usize>) -> G {
        if self.is_nullable(&body) && !self.cfg.nullable_rep {
            body = G::Seq(vec![self.char_leaf(src), body]);
        }
        rep(body, m, x)
    }

    fn ch(&self, src: &mut Src) -> char {
        *src.pick(&self.cfg.alphabet)
    }

    fn char_leaf(&mut self, src: &mut Src) -> G {
        G::Lit(self.ch(src).to_string())
    }

    fn literal(&mut self, src: &mut Src) -> String {
        let n = if src.chance(1, 30) {
            0
        } else if self.cfg.big && src.chance(1, 6) {
            src.range(5, self.cfg.literal_max)
        } else {
            1 + src.geo(1, 3, 3)
        };
        (0..n).map(|_| self.ch(src)).collect()
    }

    fn leaf(&mut self, src: &mut Src, guarded: bool) -> G {
        let c = self.cfg;
        match src.weighted(&[8, 4, 3, 6, c.w_eof, c.w_err, c.w_missing]) {
            0 => G::Lit(self.literal(src)),
            1 => self.class(src),
            2 => G::Dot,
            3 => {
                // later rules, or any rule when something was consumed before
                let lo = if guarded { 0 } else { self.cur + 1 };
                if lo >= self.names.len() {
                    self.char_leaf(src)
                } else {
                    let i = src.range(lo, self.names.len() - 1);
                    rf(&self.names[i])
                }
            }
            4 => G::Eof,
            5 => {
                let m = if src.bool() { format!("boom {}", self.ch(src)) } else { any_string(src, 40) };
                G::Err(m)
            }
            _ => {
                let mut n = src.pick(&["undefined", "missing.rule", "Nope"]).to_string();
                if !c.peg && src.chance(1, 3) {
                    n = src.pick(self.names).clone();
                    n = if src.bool() { any_string(src, 60) } else { like_string(src, &n) };
                }
                let n = n.as_str();
                if self.names.iter().any(|x| x == n) {
                    G::Dot
                } else {
                    rf(n)
                }
            }
        }
    }

    pub fn class(&mut self, src: &mut Src) -> G {
        let al = self.cfg.alphabet.clone();
        gen_class(src, &al, self.cfg.big, self.cfg.odd, self.cfg.peg)
    }
}

pub fn gen_class(src: &mut Src, al: &[char], big: bool, odd: bool, peg: bool) -> G {
    let pick = |src: &mut Src| if src.chance(1, 6) { any_char(src) } else { *src.pick(al) };
    if src.chance(1, 30) {
        // many of the printable ASCII characters, one by one
        let all: Vec<char> = ('!'..='~').filter(|c| !peg || (*c != ']' && *c != '-')).collect();
        let mut cs: String = (0..src.range(5, 40)).map(|_| *src.pick(&all)).collect();
        cs.push(*src.pick(al));
        let mut rs = if src.chance(1, 3) { vec![('à', 'ü')] } else { vec![] };
        if peg {
            fix_peg_class(&mut cs, &mut rs);
        }
        return G::Class(cs, rs);
    }
    let nc = if big && src.chance(1, 5) { src.range(0, 200) } else { src.range(0, 3) };
    let mut cs: String = (0..nc).map(|_| pick(src)).collect();
    let nr = if big && src.chance(1, 5) { src.range(0, 60) } else { src.range(0, 2) };
    let mut rs = vec![];
    for _ in 0..nr {
        let a = pick(src);
        let b = match src.below(4) {
            0 => a,
            1 => pick(src),
            2 => char::from_u32(a as u32 + 1 + src.below(5)).unwrap_or(a),
            _ => *src.pick(&['z', '9', '\u{ff}', '\u{10ffff}', 'Z']),
        };
        rs.push(if a <= b || odd { (a, b) } else { (b, a) });
    }
    if cs.is_empty() && rs.is_empty() && !odd {
        cs.push(*src.pick(al));
    }
    if peg {
        fix_peg_class(&mut cs, &mut rs);
    }
    G::Class(cs, rs)
}

/// make a class writable: no ']' in the list, '-' only first, ranges after the list not starting with '-'
pub fn fix_peg_class(cs: &mut String, rs: &mut Vec<(char, char)>) {
    let mut dash = false;
    let mut out = String::new();
    for c in cs.chars() {
        match c {
            ']' => rs.push((']', ']')),
            '-' => dash = true,
            c => out.push(c),
        }
    }
    if dash {
        out.insert(0, '-');
    }
    if out.is_empty() && rs.is_empty() {
        out.push('a');
    }
    if !out.is_empty() {
        if let Some(i) = rs.iter().position(|(a, _)| *a != '-') {
            rs.swap(0, i);
        } else if !rs.is_empty() {
            rs.insert(0, ('+', '+'));
        }
    }
    // the first range decides where the list ends: "-a-z" reads '-' then a-z, fine
    *cs = out;
}

//-----------------------------------------------------------------------
//  texts

pub fn mutate(t: &str, al: &[char], src: &mut Src) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = 1 + src.geo(1, 3, 4);
    for _ in 0..n {
        let c = if al.is_empty() || src.chance(1, 10) { any_char(src) } else { *src.pick(al) };
        let len = v.len() as u32;
        match src.below(8) {
            7 if len > 0 => {
                let i = src.below(len) as usize;
                v[i] = like_char(src, v[i]);
            }
            0 => v.push(c),
            1 => {
                v.pop();
            }
            2 if len > 0 => {
                let i = src.below(len) as usize;
                v[i] = c;
            }
            3 => {
                let i = src.below(len + 1) as usize;
                v.insert(i, c);
            }
            4 if len > 0 => {
                let i = src.below(len) as usize;
                v.remove(i);
            }
            5 if len > 1 => {
                let i = src.below(len - 1) as usize;
                v.swap(i, i + 1);
            }
            6 if len > 0 => {
                let i = src.below(len) as usize;
                let k = 1 + src.below(4) as usize;
                let part: Vec<char> = v[i..(i + k).min(v.len())].to_vec();
                for (j, c) in part.into_iter().enumerate() {
                    v.insert(i + j, c);
                }
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// A text for the rules; kind 0: sampled, 1: corrupted, 2: random over the alphabet
pub fn gen_text(src: &mut Src, rules: &Rules, al: &[char], p_mutate: u32) -> String {
    let max = if src.chance(1, 12) { 3000 } else { 120 };
    let base = match rules.get("main") {
        Some(g) if !src.chance(1, 10) => sample(rules, g, src, al, max),
        _ => {
            let n = length(src, 40);
            (0..n).map(|_| *src.pick(al)).collect()
        }
    };
    if src.below(10) < p_mutate {
        mutate(&base, al, src)
    } else {
        base
    }
}

//-----------------------------------------------------------------------
//  trees

pub fn gen_tree(src: &mut Src, names: &[String], vals: &[String], depth: usize, budget: &mut i64) -> T {
    *budget -= 1;
    let w_rule = if depth == 0 || *budget <= 0 { 0 } else { 5 };
    match src.weighted(&[5, 1, w_rule]) {
        0 => T::Val(src.pick(vals).clone()),
        1 => T::Eof,
        _ => gen_rule_node(src, names, vals, depth, budget),
    }
}
pub fn gen_rule_node(src: &mut Src, names: &[String], vals: &[String], depth: usize, budget: &mut i64) -> T {
    let name = src.pick(names).clone();
    // whether there is one more child is drawn before each one: removing a child is one deletion
    let (num, den, max) = if src.chance(1, 12) { (30, 31, 60) } else { (3, 4, 8) };
    let mut kids = vec![];
    while kids.len() < max && *budget > -20 && src.chance(num, den) {
        kids.push(gen_tree(src, names, vals, depth.saturating_sub(1), budget));
    }
    T::Rule(name, kids)
}

/// few names, few values (some equal to names, some empty), so that coincidences happen
pub fn tree_words(src: &mut Src) -> (Vec<String>, Vec<String>) {
    let mut names: Vec<String> = vec!["main".into(), "a".into(), "b".into(), "c".into()];
    for _ in 0..src.geo(1, 2, 6) {
        names.push(if src.bool() { src.pick(NAME_POOL).to_string() } else { any_string(src, 20) });
    }
    if src.chance(1, 6) {
        names.push(String::new());
    }
    if src.chance(1, 4) {
        for _ in 0..src.range(1, 4) {
            let n = src.pick(&names).clone();
            names.push(like_string(src, &n));
        }
    }
    let mut vals: Vec<String> = vec!["x".into(), "y".into(), "a".into(), "".into(), "EOF".into(), "main".into(), "\n".into(), "é🎈".into()];
    for _ in 0..src.geo(1, 2, 6) {
        vals.push(any_string(src, 60));
    }
    if src.chance(1, 4) {
        for _ in 0..src.range(1, 4) {
            let n = src.pick(&vals).clone();
            vals.push(like_string(src, &n));
        }
    }
    (names, vals)
}

/// trees large in one direction: many children, many levels, long runs, long values and names, many names
pub fn gen_large_tree(src: &mut Src) -> (T, Vec<String>, Vec<String>) {
    let (mut names, mut vals) = tree_words(src);
    let n = crate::scale::size(src);
    let t = match src.below(6) {
        0 => {
            // children of all kinds
            let mut kids = vec![];
            for _ in 0..n {
                let mut b = 3;
                kids.push(gen_tree(src, &names, &vals, 2, &mut b));
            }
            kids
        }
        1 => {
            // levels, with something beside them
            let mut t = T::Val("x".into());
            for _ in 0..n.min(1500) {
                let side = match src.below(6) {
                    0 => Some(T::Val(src.pick(&vals).clone())),
                    1 => Some(T::Eof),
                    2 => Some(T::Rule(src.pick(&names).clone(), vec![])),
                    _ => None,
                };
                let mut kids = vec![t];
                if let Some(s) = side {
                    kids.insert(src.below(2) as usize, s);
                }
                t = T::Rule(src.pick(&names).clone(), kids);
            }
            vec![t]
        }
        2 => {
            // runs of values
            let mut kids = vec![];
            while kids.len() < n {
                for _ in 0..src.range(1, n) {
                    kids.push(T::Val(src.pick(&vals).clone()));
                }
                kids.push(if src.bool() { T::Eof } else { T::Rule(src.pick(&names).clone(), vec![T::Val("x".into())]) });
            }
            kids
        }
        3 => {
            // long values
            let unit = src.pick(&["a", "é", "🎈", "ab\n"]).to_string();
            vals.push(unit.repeat(n));
            vals.push(unit.repeat(n) + "!");
            (0..src.range(1, 6)).map(|_| T::Val(src.pick(&vals[vals.len() - 3..]).clone())).collect()
        }
        4 => {
            // long names that share their start
            let stem = "n".repeat(n);
            names = vec![stem.clone() + "x", stem.clone() + "y", stem.clone(), stem + "xx"];
            let mut b = 30;
            (0..6).map(|_| gen_tree(src, &names, &vals, 3, &mut b)).collect()
        }
        _ => {
            // many different names
            names = (0..n).map(|i| format!("n{}", i)).collect();
            let mut kids: Vec<T> = names.iter().map(|s| T::Rule(s.clone(), vec![T::Val("x".into())])).collect();
            src.shuffle(&mut kids[..]);
            kids
        }
    };
    (T::Rule("main".into(), t), names, vals)
}

pub fn gen_any_tree(src: &mut Src) -> (T, Vec<String>, Vec<String>) {
    if src.chance(1, 60) {
        return gen_large_tree(src);
    }
    let (names, vals) = tree_words(src);
    let mut budget = if src.chance(1, 10) { 600 } else { 60 };
    let depth = if src.chance(1, 20) { 60 } else { src.range(1, 7) };
    let t = if src.chance(1, 20) {
        gen_tree(src, &names, &vals, depth, &mut budget)
    } else {
        gen_rule_node(src, &names, &vals, depth, &mut budget)
    };
    (t, names, vals)
}

/// a list of names for prune / pass_through_except: mostly names of the tree
pub fn gen_names(src: &mut Src, names: &[String], vals: &[String]) -> Vec<String> {
    let n = if src.chance(1, 15) {
        if src.chance(1, 10) {
            crate::scale::size(src).min(1500)
        } else {
            src.range(8, 40)
        }
    } else {
        src.range(0, 4)
    };
    (0..n)
        .map(|_| match src.weighted(&[8, 1, 1]) {
            0 => src.pick(names).clone(),
            1 => src.pick(vals).clone(),
            _ => {
                // near misses
                let s = src.pick(names).clone();
                like_string(src, &s)
            }
        })
        .collect()
}

//-----------------------------------------------------------------------
//  PEG texts

pub struct Printer<'a> {
    src: &'a mut Src,
    /// 0: plain blanks only; 1: everything
    pub wild: bool,
    eol: &'static str,
    pub features: u32,
}
pub const F_LINE_COMMENT: u32 = 1;
pub const F_BLOCK_COMMENT: u32 = 2;
pub const F_PARENS: u32 = 4;
pub const F_EOL_SEP: u32 = 8;
pub const F_ESC: u32 = 16;
pub const F_DUP: u32 = 32;
pub const F_MODULE: u32 = 64;

impl<'a> Printer<'a> {
    pub fn new(src: &'a mut Src) -> Self {
        let wild = src.chance(2, 3);
        let eol = *src.pick(&["\n", "\n", "\r\n", "\r"]);
        Printer { src, wild, eol, features: 0 }
    }

    fn eol(&mut self) -> String {
        if self.wild && self.src.chance(1, 6) {
            self.src.pick(&["\n", "\r\n", "\r"]).to_string()
        } else {
            self.eol.to_string()
        }
    }
    fn comment_body(&mut self, line: bool) -> String {
        let mut s = String::new();
        for _ in 0..self.src.geo(2, 3, 10) {
            let part = match self.src.weighted(&[4, 3, 2, 2]) {
                0 => self.src.pick(&["a", "text", " ", "x = y", "'", "\"", "=", "/", "//", "/*", "(", "]", "{", "!", "main", "*", "\\", ".", "error(", "a-z"]).to_string(),
                1 => any_char(self.src).to_string(),
                2 => "é日".to_string(),
                _ => " ".to_string(),
            };
            s.push_str(&part);
        }
        if line {
            s.retain(|c| c != '\n' && c != '\r');
        } else {
            while s.contains("*/") {
                s = s.replace("*/", "* /");
            }
            if s.ends_with('*') {
                s.push(' ');
            }
            // "/*/" does not close: the body starts after "/*"
        }
        s
    }
    fn block_comment(&mut self) -> String {
        self.features |= F_BLOCK_COMMENT;
        format!("/*{}*/", self.comment_body(false))
    }
    fn line_comment(&mut self) -> String {
        self.features |= F_LINE_COMMENT;
        format!("//{}{}", self.comment_body(true), self.eol())
    }
    /// the rule _ : blanks, line ends, comments
    fn blank(&mut self) -> String {
        if !self.wild {
            return [" ", "", "  "][self.src.below(3) as usize].to_string();
        }
        let mut s = String::new();
        for _ in 0..self.src.geo(1, 2, 4) {
            let p = match self.src.weighted(&[5, 2, 1, 1]) {
                0 => " ".to_string(),
                1 => self.eol(),
                2 => self.block_comment(),
                _ => self.line_comment(),
            };
            s.push_str(&p);
        }
        s
    }
    /// blanks after '/': a comment needs a blank before
    fn blank_after_slash(&mut self) -> String {
        let b = self.blank();
        if b.starts_with('/') {
            format!(" {}", b)
        } else {
            b
        }
    }
    /// between the elements of a sequence: _1 _
    fn sep(&mut self) -> String {
        let first = if self.wild && self.src.chance(1, 4) {
            self.features |= F_EOL_SEP;
            self.eol()
        } else {
            " ".to_string()
        };
        // "\r" followed by "\n" reads as one line end, which is still a separator
        first + &self.blank()
    }
    /// after a rule: (' ' / comment)* eol
    fn end_of_rule(&mut self) -> String {
        let mut s = String::new();
        if self.wild {
            for _ in 0..self.src.geo(1, 3, 3) {
                if self.src.bool() {
                    s.push(' ');
                } else {
                    s.push_str(&self.block_comment());
                }
            }
            if self.src.chance(1, 4) {
                s.push_str(&self.line_comment());
                return s;
            }
        }
        let e = self.eol();
        s.push_str(&e);
        s
    }

    pub fn literal(&mut self, s: &str) -> String {
        let can_single = !s.contains('\'');
        if can_single && !self.src.chance(2, 5) {
            return format!("'{}'", s);
        }
        self.features |= F_ESC;
        let out = self.double(s, false);
        match crate::pegref::decode_double(&out[1..out.len() - 1]) {
            Some(d) if d == s => out,
            _ => self.double(s, true),
        }
    }
    fn double(&mut self, s: &str, safe: bool) -> String {
        let mut out = String::from("\"");
        for c in s.chars() {
            let hex = (c as u32) < 256 && self.src.chance(1, 6);
            if hex {
                out.push_str(&format!("\\0x{:02X}", c as u32));
                continue;
            }
            let esc = safe || self.src.bool();
            match c {
                '"' => out.push_str("\\\""),
                '\\' if esc => out.push_str("\\\\"),
                '\n' if esc => out.push_str("\\n"),
                '\r' if esc => out.push_str("\\r"),
                '\t' if esc => out.push_str("\\t"),
                c => out.push(c),
            }
        }
        out.push('"');
        out
    }

    fn is_atom(g: &G) -> bool {
        matches!(g, G::Lit(_) | G::Class(..) | G::Dot | G::Ref(_))
    }

    fn parens(&mut self, inner: String) -> String {
        self.features |= F_PARENS;
        let (a, b) = (self.blank(), self.blank());
        format!("({}{}{})", a, inner, b)
    }

    fn or_level(&mut self, g: &G) -> String {
        if self.wild && self.src.chance(1, 14) {
            let i = self.or_level(g);
            return self.parens(i);
        }
        match g {
            G::Alt(v) if v.len() > 1 => {
                let mut s = self.and_level(&v[0]);
                for g in &v[1..] {
                    let b = self.blank();
                    s.push_str(&b);
                    s.push('/');
                    let b = self.blank_after_slash();
                    s.push_str(&b);
                    let e = self.and_level(g);
                    s.push_str(&e);
                }
                s
            }
            g => self.and_level(g),
        }
    }
    fn and_level(&mut self, g: &G) -> String {
        match g {
            G::Seq(v) if v.len() > 1 => {
                let n = v.len();
                let mut s = String::new();
                for (i, g) in v.iter().enumerate() {
                    if i > 0 {
                        let b = self.sep();
                        s.push_str(&b);
                    }
                    let e = match g {
                        // an error first in a sequence ends it
                        G::Err(_) if i == 0 && n > 1 => self.atom_level(g),
                        G::Err(_) if !self.src.chance(1, 4) => self.error(g),
                        g => self.rep_level(g),
                    };
                    s.push_str(&e);
                }
                s
            }
            G::Err(_) if !self.src.chance(1, 6) => self.error(g),
            g => self.rep_level(g),
        }
    }
    fn error(&mut self, g: &G) -> String {
        let m = if let G::Err(m) = g { m.clone() } else { String::new() };
        let (a, b, c) = (self.blank(), self.blank(), self.blank());
        let l = self.literal(&m);
        format!("error{}({}{}{})", a, b, l, c)
    }
    fn rep_level(&mut self, g: &G) -> String {
        match g {
            G::Rep(b, m, x) => {
                let op = match (m, x) {
                    (0, None) => "*",
                    (1, None) => "+",
                    _ => "?",
                };
                self.atom_level(b) + op
            }
            G::Not(b) => format!("!{}", self.atom_level(b)),
            g => self.atom_level(g),
        }
    }
    fn atom_level(&mut self, g: &G) -> String {
        if !Self::is_atom(g) || (self.wild && self.src.chance(1, 12)) {
            let i = self.or_level(g);
            return self.parens(i);
        }
        match g {
            G::Lit(s) => self.literal(s),
            G::Class(cs, rs) => print_class(cs, rs),
            G::Dot => ".".into(),
            G::Ref(n) => n.clone(),
            _ => unreachable!(),
        }
    }
    pub fn rule(&mut self, name: &str, g: &G) -> String {
        let (b, c) = (self.blank(), self.blank());
        let e = self.or_level(g);
        let end = self.end_of_rule();
        format!("{}{}={}{}{}", name, b, c, e, end)
    }
    /// a whole grammar; some rules may be defined twice, the other definition being one that does not count:
    /// rules replace earlier definitions, those in a module do not replace definitions before the module
    pub fn grammar(&mut self, order: &[(&String, &G)], decoys: &[G]) -> String {
        let mut units: Vec<String> = vec![];
        let mut decoys = decoys.iter();
        for (n, g) in order {
            let r = self.rule(n, g);
            let mut unit = r;
            if self.src.chance(1, 15) {
                if let Some(d) = decoys.next() {
                    self.features |= F_DUP;
                    let d = self.rule(n, d);
                    let b = self.blank();
                    unit = match self.src.below(4) {
                        0 => {
                            let d = self.module(d);
                            format!("{}{}{}", d, b, unit)
                        }
                        1 => {
                            let d = self.module(d);
                            format!("{}{}{}", unit, b, d)
                        }
                        _ => format!("{}{}{}", d, b, unit),
                    };
                }
            }
            units.push(unit);
        }
        // some runs of rules in modules
        while self.src.chance(1, 6) && !units.is_empty() {
            let from = self.src.below(units.len() as u32) as usize;
            let n = 1 + self.src.below((units.len() - from).min(4) as u32) as usize;
            let mut inner = String::new();
            for u in units.drain(from..from + n) {
                inner.push_str(&u);
                let b = self.blank();
                inner.push_str(&b);
            }
            let m = self.module(inner);
            units.insert(from, m);
        }
        let mut s = self.blank();
        for (i, u) in units.iter().enumerate() {
            s.push_str(u);
            if i + 1 < units.len() || self.wild {
                let b = self.blank();
                s.push_str(&b);
            }
        }
        s
    }
    fn module(&mut self, inner: String) -> String {
        self.features |= F_MODULE;
        let name = peg_name(self.src);
        let name = name.trim_start_matches('.').split('.').next().unwrap_or("m").to_string();
        let (a, b, c) = (self.blank(), self.blank(), self.blank());
        let end = self.end_of_rule();
        format!("{}{}{{{}{}{}}}{}", name, a, b, inner, c, end)
    }
}

pub fn print_class(cs: &str, rs: &[(char, char)]) -> String {
    let mut s = String::from("[");
    s.push_str(cs);
    for (a, b) in rs {
        s.push(*a);
        s.push('-');
        s.push(*b);
    }
    s.push(']');
    s
}

//-----------------------------------------------------------------------
//  texts near the documented PEG syntax: its grammar with one or two small changes, sampled

/// the documented syntax, in itself
pub const PEG_SYNTAX: &str = include_str!("peg_syntax.txt");

fn syntax() -> Rules {
    match crate::pegref::read(PEG_SYNTAX) {
        crate::pegref::Read::Grammar(r) => r,
        _ => panic!("harness: peg_syntax.txt is not read"),
    }
}

/// small changes somewhere in the rules; the name of the last rule changed
pub fn perturb(src: &mut Src, rules: &Rules) -> (Rules, String) {
    let mut r = rules.clone();
    let names: Vec<String> = r.keys().cloned().collect();
    let mut last = names[0].clone();
    for _ in 0..1 + src.geo(1, 5, 2) {
        // each rule as likely as its size, a bit more for small ones
        let total: usize = r.values().map(|g| g.size() + 2).sum();
        let mut at = src.below(total as u32) as usize;
        for (n, g) in r.iter_mut() {
            let s = g.size();
            if at < s + 2 {
                let at = at % s;
                let mut i = 0;
                *g = g.map(&mut |g| {
                    i += 1;
                    if i - 1 == at {
                        edit(src, g, &names)
                    } else {
                        g
                    }
                });
                last = n.clone();
                break;
            }
            at -= s + 2;
        }
    }
    (r, last)
}
fn near(src: &mut Src, c: char) -> char {
    match src.below(5) {
        0 => char::from_u32(c as u32 + 1 + src.below(3)).unwrap_or(c),
        1 => char::from_u32((c as u32).saturating_sub(1 + src.below(3))).unwrap_or(c),
        2 if c.is_ascii_lowercase() => c.to_ascii_uppercase(),
        2 => c.to_ascii_lowercase(),
        3 => *src.pick(SPECIALS),
        _ => any_char(src),
    }
}
fn edit(src: &mut Src, g: G, names: &[String]) -> G {
    if src.chance(1, 6) {
        return match src.below(4) {
            0 => rep(g, 0, None),
            1 => rep(g, 0, Some(1)),
            2 => G::Seq(vec![g.clone(), g]),
            _ => G::Seq(vec![]),
        };
    }
    match g {
        G::Lit(s) => {
            let mut v: Vec<char> = s.chars().collect();
            if v.is_empty() {
                return G::Lit(any_char(src).to_string());
            }
            let i = src.below(v.len() as u32) as usize;
            match src.below(4) {
                0 | 1 => v[i] = near(src, v[i]),
                2 => {
                    v.remove(i);
                }
                _ => v.insert(i, v[i]),
            }
            G::Lit(v.into_iter().collect())
        }
        G::Class(mut cs, mut rs) => {
            match src.below(3) {
                0 => cs.push(any_char(src)),
                1 if !cs.is_empty() => cs.push(near(src, cs.chars().next().unwrap())),
                _ if !rs.is_empty() => {
                    let i = src.below(rs.len() as u32) as usize;
                    let (a, b) = rs[i];
                    // only what was beyond the ends
                    rs = vec![match src.below(4) {
                        0 => (near(src, a), a),
                        1 => (b, near(src, b)),
                        2 => (char::from_u32(b as u32 + 1).unwrap_or(b), char::from_u32(b as u32 + 2).unwrap_or(b)),
                        _ => (char::from_u32((a as u32).saturating_sub(2)).unwrap_or(a), a),
                    }];
                    cs.clear();
                }
                _ => cs.push(any_char(src)),
            }
            G::Class(cs, rs)
        }
        G::Dot => match src.below(3) {
            0 => lit(&any_char(src).to_string()),
            1 => lit(""),
            _ => lit(&src.pick(SPECIALS).to_string()),
        },
        G::Seq(mut v) if !v.is_empty() => {
            let i = src.below(v.len() as u32) as usize;
            let j = src.below(v.len() as u32) as usize;
            match src.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => v.swap(i, j),
                2 => v.truncate(i + 1),
                _ => v.insert(i, v[j].clone()),
            }
            G::Seq(v)
        }
        G::Alt(mut v) if !v.is_empty() => {
            let i = src.below(v.len() as u32) as usize;
            match src.below(3) {
                0 => v.swap_remove(i),
                1 => G::Seq(v),
                _ => {
                    v.insert(i, rf(src.pick(names)));
                    G::Alt(v)
                }
            }
        }
        G::Rep(b, m, x) => match src.below(5) {
            0 => *b,
            1 => G::Rep(b, 0, Some(0)),
            2 => G::Rep(b, m + 1, None),
            3 => G::Rep(b, 0, x),
            _ => G::Rep(b, 2, Some(3)),
        },
        G::Not(b) => *b,
        G::Ref(_) => match src.below(3) {
            0 => G::Seq(vec![]),
            _ => rf(src.pick(names)),
        },
        g => g,
    }
}

/// a text of the changed syntax, a place where the rule changed matters being likely
pub fn near_peg_text(src: &mut Src) -> (String, String) {
    thread_local! { static SYNTAX: Rules = syntax(); }
    let base = SYNTAX.with(|s| s.clone());
    let (r, name) = perturb(src, &base);
    let frames: &[&str] = match name.as_str() {
        "eol" | "_eol" | "_1" => &["main = 'a'@b = 'b'@", "main = 'a' // x@@b = .\n", "main = 'a'@'b'@c\n"],
        "_" | "comment" | "line_comment" | "mline_comment" => &["main@=@'a'@/@'b' @c\n", "main = 'a' @\n@c = 'c'@\n", "@main = 'a' @ 'b'\n"],
        "lit_esc" | "lit_noesc" | "literal" | "_'" => &["main = @\n", "main = error(@)\n"],
        "esc_char" | "hex_char" | "_\"" => &["main = \"@\"\n", "main = \"a@b@\" 'c'\n", "main = 'x' / error(\"@\")\n"],
        "mchars" | "mbetween" => &["main = [@]\n", "main = [a@]\n", "main = [@a-z]\n", "main = [@0-9@]\n"],
        "symbol" | "rule_name" => &["@ = 'a'\nmain = @\n", "main = 'a' @ 'b'\n@ = 'c'\n", "main = @@\n"],
        "mod_name" => &["@ {\nmain = 'a'\n}\n", "m {\n@ = 'a'\n}\nb = 'b'\n"],
        "rule" | "module" | "grammar" | "main" => &["@", "main = 'a'\n@", "@@"],
        _ => &["main = @\nb = 'b'\n", "main = 'a' / @\n", "main = @ 'z'\n", "main = (@)\nb = 'b'\n"],
    };
    let (frame, name) = if src.chance(1, 4) {
        ("@", src.pick(&["main", "rule", "grammar"]).to_string())
    } else {
        (*src.pick(frames), name)
    };
    let extra: Vec<char> = "ab0 \n'\"\\/*]-.=é".chars().collect();
    let max = 160;
    let g = rf(&name);
    let mut out = String::new();
    for c in frame.chars() {
        if c == '@' {
            out.push_str(&sample(&r, &g, src, &extra, max));
        } else {
            out.push(c);
        }
    }
    (out, name)
}
