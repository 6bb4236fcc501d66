//! An independent, hand-written reader of the PEG syntax that the crate documents. It follows the
//! grammar of the documentation, construct by construct, and builds the grammar it denotes.

use crate::model::*;

pub enum Read {
    Grammar(Rules),
    Reject,
    /// missing ')', noticed at this position
    Unbalanced(usize),
    /// nested too deeply to be of interest
    Abort,
}

enum Stop {
    Crit(usize),
    Abort,
}
type R<X> = Result<Option<(X, usize)>, Stop>;

struct P {
    t: Vec<char>,
    depth: std::cell::Cell<usize>,
    steps: std::cell::Cell<u64>,
}

pub fn read(text: &str) -> Read {
    let p = P { t: text.chars().collect(), depth: 0.into(), steps: 0.into() };
    match p.grammar(0) {
        Err(Stop::Crit(n)) => Read::Unbalanced(n),
        Err(Stop::Abort) => Read::Abort,
        Ok(Some((r, p2))) if p2 == p.t.len() => Read::Grammar(r),
        Ok(_) => Read::Reject,
    }
}

impl P {
    fn at(&self, p: usize, s: &str) -> Option<usize> {
        let mut q = p;
        for c in s.chars() {
            if self.t.get(q) != Some(&c) {
                return None;
            }
            q += 1;
        }
        Some(q)
    }
    fn eol(&self, p: usize) -> Option<usize> {
        self.at(p, "\r\n").or_else(|| self.at(p, "\n")).or_else(|| self.at(p, "\r"))
    }
    fn comment(&self, p: usize) -> Option<usize> {
        if let Some(mut q) = self.at(p, "//") {
            while q < self.t.len() && self.eol(q).is_none() {
                q += 1;
            }
            return Some(q);
        }
        let mut q = self.at(p, "/*")?;
        while q < self.t.len() {
            if let Some(e) = self.at(q, "*/") {
                return Some(e);
            }
            q += 1;
        }
        None
    }
    /// _
    fn blank(&self, mut p: usize) -> usize {
        loop {
            match self.at(p, " ").or_else(|| self.eol(p)).or_else(|| self.comment(p)) {
                Some(q) => p = q,
                None => return p,
            }
        }
    }
    /// _1
    fn one_blank(&self, p: usize) -> Option<usize> {
        self.at(p, " ").or_else(|| self.eol(p))
    }
    /// _eol
    fn rule_end(&self, mut p: usize) -> Option<usize> {
        loop {
            match self.at(p, " ").or_else(|| self.comment(p)) {
                Some(q) => p = q,
                None => return self.eol(p),
            }
        }
    }
    fn symbol(&self, p: usize) -> Option<(String, usize)> {
        let ok = |c: char| c == '_' || c.is_ascii_alphanumeric();
        let first = *self.t.get(p)?;
        if !ok(first) {
            return None;
        }
        let mut q = p + 1;
        while q < self.t.len() && (ok(self.t[q]) || self.t[q] == '\'' || self.t[q] == '"') {
            q += 1;
        }
        Some((self.t[p..q].iter().collect(), q))
    }
    fn rule_name(&self, p: usize) -> Option<(String, usize)> {
        let (mut name, mut q) = match self.at(p, ".") {
            Some(q) => (String::from("."), q),
            None => (String::new(), p),
        };
        let (s, q2) = self.symbol(q)?;
        name.push_str(&s);
        q = q2;
        while let Some((s, q2)) = self.at(q, ".").and_then(|q| self.symbol(q)) {
            name.push('.');
            name.push_str(&s);
            q = q2;
        }
        Some((name, q))
    }

    fn grammar(&self, mut p: usize) -> R<Rules> {
        self.steps.set(self.steps.get() + 1);
        if self.depth.get() > 200 || self.steps.get() > 200_000 {
            return Err(Stop::Abort);
        }
        self.depth.set(self.depth.get() + 1);
        let mut rules = Rules::new();
        let mut any = false;
        loop {
            if let Some(((n, g), q)) = self.rule(p)? {
                rules.insert(n, g);
                p = q;
            } else if let Some((m, q)) = self.module(p)? {
                for (n, g) in m {
                    rules.entry(n).or_insert(g);
                }
                p = q;
            } else {
                break;
            }
            any = true;
        }
        self.depth.set(self.depth.get() - 1);
        Ok(if any { Some((rules, p)) } else { None })
    }
    fn rule(&self, p: usize) -> R<(String, G)> {
        let p = self.blank(p);
        let (name, p) = match self.rule_name(p) {
            Some(x) => x,
            None => return Ok(None),
        };
        let p = match self.at(self.blank(p), "=") {
            Some(p) => self.blank(p),
            None => return Ok(None),
        };
        let (g, p) = match self.or(p)? {
            Some(x) => x,
            None => return Ok(None),
        };
        Ok(self.rule_end(p).map(|p| ((name, g), self.blank(p))))
    }
    fn module(&self, p: usize) -> R<Rules> {
        let p = self.blank(p);
        let p = match self.symbol(p) {
            Some((_, p)) => p,
            None => return Ok(None),
        };
        let p = match self.at(self.blank(p), "{") {
            Some(p) => self.blank(p),
            None => return Ok(None),
        };
        let (r, p) = match self.grammar(p)? {
            Some(x) => x,
            None => return Ok(None),
        };
        let p = match self.at(self.blank(p), "}") {
            Some(p) => p,
            None => return Ok(None),
        };
        Ok(self.rule_end(p).map(|p| (r, self.blank(p))))
    }
    fn or(&self, p: usize) -> R<G> {
        self.steps.set(self.steps.get() + 1);
        if self.depth.get() > 300 || self.steps.get() > 200_000 {
            return Err(Stop::Abort);
        }
        self.depth.set(self.depth.get() + 1);
        let r = self.or_in(p);
        self.depth.set(self.depth.get() - 1);
        r
    }
    fn or_in(&self, p: usize) -> R<G> {
        let (g, mut p) = match self.and(p)? {
            Some(x) => x,
            None => return Ok(None),
        };
        let mut v = vec![g];
        while let Some(q) = self.at(self.blank(p), "/") {
            match self.and(self.blank(q))? {
                Some((g, q)) => {
                    v.push(g);
                    p = q;
                }
                None => break,
            }
        }
        Ok(Some((if v.len() == 1 { v.pop().unwrap() } else { G::Alt(v) }, p)))
    }
    fn and(&self, p: usize) -> R<G> {
        let mut v = vec![];
        match self.and_items(p, &mut v)? {
            Some(((), q)) => Ok(Some((if v.len() == 1 { v.pop().unwrap() } else { G::Seq(v) }, q))),
            None => Ok(None),
        }
    }
    /// error / item (blank !(start of a rule or module) and)*
    fn and_items(&self, p: usize, v: &mut Vec<G>) -> R<()> {
        if let Some((m, q)) = self.error(p) {
            v.push(G::Err(m));
            return Ok(Some(((), q)));
        }
        let (g, mut p) = match self.item(p)? {
            Some(x) => x,
            None => return Ok(None),
        };
        v.push(g);
        loop {
            let q = match self.one_blank(p) {
                Some(q) => self.blank(q),
                None => break,
            };
            if let Some((_, q)) = self.rule_name(q) {
                let q = self.blank(q);
                if self.at(q, "=").is_some() || self.at(q, "{").is_some() {
                    break;
                }
            }
            // every element is followed by as many as there are: one loop is enough, but for errors,
            // which end the inner sequence and not this one
            if let Some((m, q)) = self.error(q) {
                v.push(G::Err(m));
                p = q;
                continue;
            }
            match self.item(q)? {
                Some((g, q)) => {
                    v.push(g);
                    p = q;
                }
                None => break,
            }
        }
        Ok(Some(((), p)))
    }
    fn error(&self, p: usize) -> Option<(String, usize)> {
        let p = self.at(p, "error")?;
        let p = self.at(self.blank(p), "(")?;
        let (s, p) = self.literal(self.blank(p))?;
        let p = self.at(self.blank(p), ")")?;
        Some((s, p))
    }
    fn item(&self, p: usize) -> R<G> {
        if let Some((g, p)) = self.atom_or_par(p)? {
            return Ok(Some(match self.t.get(p) {
                Some('*') => (rep(g, 0, None), p + 1),
                Some('+') => (rep(g, 1, None), p + 1),
                Some('?') => (rep(g, 0, Some(1)), p + 1),
                _ => (g, p),
            }));
        }
        match self.at(p, "!") {
            Some(p) => Ok(self.atom_or_par(p)?.map(|(g, p)| (not(g), p))),
            None => Ok(None),
        }
    }
    fn atom_or_par(&self, p: usize) -> R<G> {
        if let Some((s, p)) = self.literal(p) {
            return Ok(Some((G::Lit(s), p)));
        }
        if let Some(x) = self.class(p) {
            return Ok(Some(x));
        }
        if let Some((n, p)) = self.rule_name(p) {
            return Ok(Some((G::Ref(n), p)));
        }
        if let Some(p) = self.at(p, ".") {
            return Ok(Some((G::Dot, p)));
        }
        let p = match self.at(p, "(") {
            Some(p) => self.blank(p),
            None => return Ok(None),
        };
        let (g, p) = match self.or(p)? {
            Some(x) => x,
            None => return Ok(None),
        };
        let p = self.blank(p);
        match self.at(p, ")") {
            Some(p) => Ok(Some((g, p))),
            None => Err(Stop::Crit(p)),
        }
    }
    fn literal(&self, p: usize) -> Option<(String, usize)> {
        if let Some(q) = self.at(p, "'") {
            let mut e = q;
            while e < self.t.len() && self.t[e] != '\'' {
                e += 1;
            }
            if e < self.t.len() {
                return Some((self.t[q..e].iter().collect(), e + 1));
            }
            return None;
        }
        let mut q = self.at(p, "\"")?;
        let mut s = String::new();
        loop {
            match self.t.get(q)? {
                '"' => return Some((s, q + 1)),
                _ => {
                    let (c, q2) = self.dq_char(q);
                    s.push(c);
                    q = q2;
                }
            }
        }
    }
    /// one character of a double quoted literal
    fn dq_char(&self, q: usize) -> (char, usize) {
        let c = self.t[q];
        if c == '\\' {
            match self.t.get(q + 1) {
                Some('n') => return ('\n', q + 2),
                Some('r') => return ('\r', q + 2),
                Some('t') => return ('\t', q + 2),
                Some('\\') => return ('\\', q + 2),
                Some('"') => return ('"', q + 2),
                Some('0') if self.t.get(q + 2) == Some(&'x') => {
                    let hex = |c: Option<&char>| c.and_then(|c| if c.is_ascii_digit() || ('A'..='F').contains(c) { c.to_digit(16) } else { None });
                    if let (Some(a), Some(b)) = (hex(self.t.get(q + 3)), hex(self.t.get(q + 4))) {
                        return (char::from_u32(a * 16 + b).unwrap(), q + 5);
                    }
                }
                _ => {}
            }
        }
        (c, q + 1)
    }
    fn class(&self, p: usize) -> Option<(G, usize)> {
        let mut p = self.at(p, "[")?;
        let mut cs = String::new();
        while let Some(&c) = self.t.get(p) {
            if c == ']' || self.t.get(p + 1) == Some(&'-') {
                break;
            }
            cs.push(c);
            p += 1;
        }
        let mut rs = vec![];
        while p + 2 < self.t.len() && self.t[p + 1] == '-' {
            rs.push((self.t[p], self.t[p + 2]));
            p += 3;
        }
        if cs.is_empty() && rs.is_empty() {
            return None;
        }
        let p = self.at(p, "]")?;
        Some((G::Class(cs, rs), p))
    }
}

/// the text denoted by what is between double quotes; None when it is not the inside of one literal
pub fn decode_double(inner: &str) -> Option<String> {
    let text: String = format!("\"{}\"", inner);
    let p = P { t: text.chars().collect(), depth: 0.into(), steps: 0.into() };
    match p.literal(0) {
        Some((s, e)) if e == p.t.len() => Some(s),
        _ => None,
    }
}
