//! Compiling generated Rust against the crate: a scratch package with one binary per group of cases,
//! built by cargo (offline), run, and its output read back.

use crate::model::*;
use crate::runner::root;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// the library of the scratch package: prints a rule set, using the public interface only
const DUMP: &str = r#"
extern crate dynparser;
use dynparser::parser::atom::Atom;
use dynparser::parser::expression::{Expression, SetOfRules};

fn hex(s: &str) -> String {
    let v: Vec<String> = s.chars().map(|c| format!("{:x}", c as u32)).collect();
    format!("s{}", v.join("."))
}
fn expr(e: &Expression, o: &mut String) {
    match e {
        Expression::Simple(Atom::Literal(s)) => *o += &format!(" L {}", hex(s)),
        Expression::Simple(Atom::Match(m)) => {
            *o += &format!(" C {} {}", hex(m.chars()), m.ranges().len());
            for (a, b) in m.ranges() {
                *o += &format!(" {:x} {:x}", *a as u32, *b as u32);
            }
        }
        Expression::Simple(Atom::Dot) => *o += " D",
        Expression::Simple(Atom::EOF) => *o += " E",
        Expression::Simple(Atom::Error(s)) => *o += &format!(" X {}", hex(s)),
        Expression::And(m) => {
            *o += &format!(" S {}", m.0.len());
            m.0.iter().for_each(|e| expr(e, o));
        }
        Expression::Or(m) => {
            *o += &format!(" A {}", m.0.len());
            m.0.iter().for_each(|e| expr(e, o));
        }
        Expression::Not(e) => {
            *o += " N";
            expr(e, o);
        }
        Expression::Repeat(r) => {
            *o += &format!(" R {} {}", r.min, r.max.as_ref().map_or("-".to_string(), |m| m.to_string()));
            expr(&r.expression, o);
        }
        Expression::RuleName(s) => *o += &format!(" F {}", hex(s)),
    }
}
pub fn dump(k: usize, r: &SetOfRules) {
    let mut o = format!("CASE {} {}", k, r.0.len());
    for (n, e) in &r.0 {
        o += &format!(" {}", hex(n));
        expr(e, &mut o);
    }
    println!("{} END", o);
}
"#;

/// read back what `dump` writes
pub fn undump(line: &str) -> Option<(usize, Rules)> {
    let mut t = line.split(' ');
    if t.next()? != "CASE" {
        return None;
    }
    let k = t.next()?.parse().ok()?;
    let n: usize = t.next()?.parse().ok()?;
    fn s(x: &str) -> Option<String> {
        let x = x.strip_prefix('s')?;
        if x.is_empty() {
            return Some(String::new());
        }
        x.split('.').map(|h| u32::from_str_radix(h, 16).ok().and_then(char::from_u32)).collect()
    }
    fn g<'a>(t: &mut dyn Iterator<Item = &'a str>) -> Option<G> {
        Some(match t.next()? {
            "L" => G::Lit(s(t.next()?)?),
            "C" => {
                let cs = s(t.next()?)?;
                let n: usize = t.next()?.parse().ok()?;
                let mut v = vec![];
                for _ in 0..n {
                    let mut c = || u32::from_str_radix(t.next()?, 16).ok().and_then(char::from_u32);
                    v.push((c()?, c()?));
                }
                G::Class(cs, v)
            }
            "D" => G::Dot,
            "E" => G::Eof,
            "X" => G::Err(s(t.next()?)?),
            x @ ("S" | "A") => {
                let n: usize = t.next()?.parse().ok()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(g(t)?);
                }
                if x == "S" {
                    G::Seq(v)
                } else {
                    G::Alt(v)
                }
            }
            "N" => not(g(t)?),
            "R" => {
                let m = t.next()?.parse().ok()?;
                let x = match t.next()? {
                    "-" => None,
                    x => Some(x.parse().ok()?),
                };
                rep(g(t)?, m, x)
            }
            "F" => G::Ref(s(t.next()?)?),
            _ => return None,
        })
    }
    let mut r = Rules::new();
    for _ in 0..n {
        let name = s(t.next()?)?;
        r.insert(name, g(&mut t)?);
    }
    if t.next()? != "END" {
        return None;
    }
    Some((k, r))
}

/// one case: Rust code of an expression of type SetOfRules
#[derive(Clone)]
pub struct Item {
    pub code: String,
    /// Rust statements before it
    pub pre: String,
}

#[derive(Debug, Clone)]
pub enum Got {
    Rules(Rules),
    /// the compiler's message
    NoCompile(String),
    Panic(String),
    /// not looked at, as another one failed
    Skipped,
}

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("DPVERIF_REPO").unwrap_or_else(|_| "/repo".into()))
}

fn cargo(dir: &Path, args: &[&str]) -> Result<(bool, String), String> {
    let o = Command::new("cargo")
        .args(args)
        .current_dir(dir)
        .env("CARGO_TARGET_DIR", std::env::var("DPVERIF_GEN_TARGET").map(PathBuf::from).unwrap_or_else(|_| root().join("target").join("gen")))
        .env("CARGO_NET_OFFLINE", "true")
        .env("RUSTFLAGS", if cfg!(dynparser_verif) { "--cfg dynparser_verif -Awarnings" } else { "-Awarnings" })
        .env("CARGO_TERM_COLOR", "never")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cargo: {}", e))?;
    Ok((o.status.success(), String::from_utf8_lossy(&o.stderr).to_string()))
}

pub struct Pkg {
    dir: PathBuf,
    name: String,
    n: usize,
}

impl Pkg {
    /// the name tells the packages of different properties apart in the shared target directory
    pub fn new(dir: &Path, name: &str) -> Pkg {
        Pkg { dir: dir.to_path_buf(), name: name.to_lowercase(), n: 0 }
    }

    fn target(&self) -> PathBuf {
        std::env::var("DPVERIF_GEN_TARGET").map(PathBuf::from).unwrap_or_else(|_| root().join("target").join("gen"))
    }

    /// sources of binaries in, for each Ok(stdout, succeeded) or Err(compiler message)
    pub fn programs(&mut self, sources: &[String]) -> Result<Vec<Result<(String, bool, String), String>>, String> {
        let d = self.dir.join(format!("gen-{}", self.name));
        let _ = fs::remove_dir_all(&d);
        let io = |e: std::io::Error| format!("{}: {}", d.display(), e);
        fs::create_dir_all(d.join("src").join("bin")).map_err(io)?;
        fs::write(
            d.join("Cargo.toml"),
            format!(
                "[package]\nname = \"gen-{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\ndynparser = {{ path = {:?} }}\n\n[profile.dev]\ndebug = 0\nincremental = false\nopt-level = 0\n\n[workspace]\n",
                self.name,
                repo().display()
            ),
        )
        .map_err(io)?;
        fs::copy(repo().join("Cargo.lock"), d.join("Cargo.lock")).ok();
        fs::write(d.join("src").join("lib.rs"), DUMP).map_err(io)?;
        self.n += 1;
        let bins: Vec<String> = (0..sources.len()).map(|i| format!("{}x{}x{}x{}", self.name, std::process::id(), self.n, i)).collect();
        for (b, s) in bins.iter().zip(sources) {
            fs::write(d.join("src").join("bin").join(format!("{}.rs", b)), s).map_err(io)?;
        }
        let (ok, err) = cargo(&d, &["build", "--offline", "--lib", "-q"])?;
        if !ok {
            return Err(format!("the crate or the scratch library does not compile:\n{}", clip(&err, 3000)));
        }
        let (_, err) = cargo(&d, &["build", "--offline", "--bins", "-q", "--keep-going"])?;
        let mut out = vec![];
        for b in &bins {
            let exe = self.target().join("debug").join(b);
            if exe.exists() {
                let o = Command::new(&exe).stdin(Stdio::null()).output().map_err(|e| format!("{}: {}", b, e))?;
                out.push(Ok((String::from_utf8_lossy(&o.stdout).to_string(), o.status.success(), String::from_utf8_lossy(&o.stderr).to_string())));
            } else {
                // the messages that mention this file
                let tag = format!("{}.rs", b);
                let mine: Vec<&str> = err.split("\n\n").filter(|p| p.contains(&tag)).collect();
                out.push(Err(if mine.is_empty() { clip(&err, 3000) } else { clip(&mine.join("\n\n"), 3000) }));
            }
        }
        // leave nothing but the crate itself in the target directory
        for b in &bins {
            let t = self.target().join("debug");
            let _ = fs::remove_file(t.join(b));
            let _ = fs::remove_file(t.join(format!("{}.d", b)));
            for sub in ["deps", ".fingerprint"] {
                if let Ok(rd) = fs::read_dir(t.join(sub)) {
                    for e in rd.flatten() {
                        let n = e.file_name().to_string_lossy().to_string();
                        if n.starts_with(b.as_str()) {
                            let _ = fs::remove_file(e.path());
                        }
                    }
                }
            }
        }
        let _ = fs::remove_dir_all(&d);
        if let Ok(rd) = fs::read_dir(self.target().join("debug").join(".fingerprint")) {
            for e in rd.flatten() {
                if e.file_name().to_string_lossy().starts_with(&format!("gen-{}-", self.name)) {
                    let _ = fs::remove_dir_all(e.path());
                }
            }
        }
        Ok(out)
    }

    fn source(items: &[(usize, &Item)]) -> String {
        let mut s = String::from("#![recursion_limit = \"2048\"]\n#![allow(warnings)]\n#[macro_use]\nextern crate dynparser;\n");
        for (k, it) in items {
            s.push_str(&format!("fn case{}() -> dynparser::parser::expression::SetOfRules {{\n{}\n{}\n}}\n", k, it.pre, it.code));
        }
        s.push_str("fn main() {\n    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();\n}\nfn run() {\n");
        for (k, _) in items {
            s.push_str(&format!("    println!(\"RUN {}\"); GENLIB::dump({}, &case{}());\n", k, k, k));
        }
        s.push_str("}\n");
        s
    }

    /// compile and run the cases, spread over some programs
    pub fn cases(&mut self, items: &[Item], groups: usize) -> Result<Vec<Got>, String> {
        let mut got: Vec<Option<Got>> = items.iter().map(|_| None).collect();
        let mut todo: Vec<Vec<usize>> = vec![vec![]; groups.max(1)];
        for i in 0..items.len() {
            todo[i % groups.max(1)].push(i);
        }
        todo.retain(|v| !v.is_empty());
        let mut rounds = 0;
        while !todo.is_empty() {
            rounds += 1;
            let lib = format!("gen_{}", self.name);
            let sources: Vec<String> = todo.iter().map(|v| Self::source(&v.iter().map(|i| (*i, &items[*i])).collect::<Vec<_>>()).replace("GENLIB", &lib)).collect();
            let res = self.programs(&sources)?;
            let mut next = vec![];
            for (v, r) in todo.iter().zip(res) {
                match r {
                    Ok((out, ok, err)) => {
                        let mut last = None;
                        for l in out.lines() {
                            if let Some(k) = l.strip_prefix("RUN ") {
                                last = k.parse::<usize>().ok();
                            } else if let Some((k, r)) = undump(l) {
                                got[k] = Some(Got::Rules(r));
                            }
                        }
                        if !ok {
                            if let Some(k) = last {
                                got[k] = Some(Got::Panic(clip(&err, 1000)));
                            }
                            let rest: Vec<usize> = v.iter().copied().filter(|i| got[*i].is_none()).collect();
                            if !rest.is_empty() {
                                next.push(rest);
                            }
                        }
                    }
                    Err(msg) => {
                        if v.len() == 1 {
                            got[v[0]] = Some(Got::NoCompile(msg));
                        } else {
                            let k = v.len().div_ceil(4);
                            next.extend(v.chunks(k).map(|c| c.to_vec()));
                        }
                    }
                }
            }
            todo = next;
            // one guilty case is enough
            if got.iter().any(|g| matches!(g, Some(Got::NoCompile(_)) | Some(Got::Panic(_)))) || rounds > 12 {
                break;
            }
        }
        Ok(got.into_iter().map(|g| g.unwrap_or(Got::Skipped)).collect())
    }
}
