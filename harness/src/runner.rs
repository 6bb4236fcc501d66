//! Supervisor, workers, replay.

use crate::model::clip;
use crate::pbt::*;
use crate::props::{self, Prop};
use crate::sut;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const STACK: usize = 1 << 29;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("DPVERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn work_dir(id: &str) -> PathBuf {
    let d = root().join(".work").join(format!("{}-{}", id, std::env::var("DPVERIF_RUN").unwrap_or_else(|_| std::process::id().to_string())));
    fs::create_dir_all(&d).ok();
    d
}

fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or_else(|_| {
        eprintln!("harness thread panicked");
        std::process::exit(2)
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum CaseId {
    /// a hand-written case
    Fixed(usize),
    /// generated: index
    Gen(u64),
    Choices(Vec<u32>),
}

pub enum Verdict {
    Pass,
    Fail(String),
    /// the harness itself panicked
    Harness(String),
}

/// Run one case in this process
pub fn run_case(p: &Prop, seed: u64, id: &CaseId, tier: Tier, want: bool, log: Option<fs::File>) -> (Verdict, Vec<u32>, Ctx) {
    let mut src = match id {
        CaseId::Gen(i) => Src::random(mix(&[seed, hash_str(p.id), *i])),
        CaseId::Choices(c) => Src::replay(c.clone()),
        CaseId::Fixed(_) => Src::replay(vec![]),
    };
    if let Some(f) = log {
        src = src.log_to(f);
    }
    let mut ctx = Ctx::new(tier, want);
    sut::take_panic();
    sut::cpu_alarm(p.cpu_secs);
    let r = catch_unwind(AssertUnwindSafe(|| match id {
        CaseId::Fixed(i) => {
            ctx.note(|| format!("fixed case: {}", p.fixed[*i].0));
            (p.fixed[*i].1)(&mut ctx)
        }
        _ => (p.case)(&mut src, &mut ctx),
    }));
    sut::cpu_alarm(0);
    let v = match r {
        Ok(Ok(())) => Verdict::Pass,
        Ok(Err(m)) => Verdict::Fail(m),
        Err(_) => {
            let (m, at) = sut::take_panic().unwrap_or_default();
            if at.contains("repo/src") || at.contains("dynparser") {
                Verdict::Fail(format!("PANIC in the code under test: {} (at {})", m, at))
            } else {
                Verdict::Harness(format!("{} (at {})", m, at))
            }
        }
    };
    (v, src.rec, ctx)
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

pub fn main() -> i32 {
    sut::init();
    let args = Args(std::env::args().skip(1).collect());
    let tier = match args.get("--tier").map(|s| s.to_string()).or(std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = args.get("--seed").map(|s| s.to_string()).or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    match args.0.first().map(|s| s.as_str()) {
        Some("worker") => {
            let p = props::find(&args.0[1]);
            let (shard, n, cases) = (args.num("--shard", 0), args.num("--shards", 1), args.num("--cases", 0));
            let dir = PathBuf::from(args.get("--dir").unwrap());
            let skip: Vec<String> = args.get("--skip").unwrap_or("").split(',').map(|s| s.to_string()).collect();
            on_big_stack(move || worker(p, seed, tier, (shard, n, cases), &skip, &dir))
        }
        Some("one") => {
            let p = props::find(&args.0[1]);
            let id = if let Some(f) = args.get("--choices") {
                CaseId::Choices(read_choices(Path::new(f)))
            } else if let Some(i) = args.get("--fixed") {
                CaseId::Fixed(i.parse().unwrap())
            } else {
                CaseId::Gen(args.num("--index", 0))
            };
            let log = args.get("--log").map(|f| fs::File::create(f).unwrap());
            let out = args.get("--out").map(PathBuf::from);
            on_big_stack(move || {
                let (v, rec, ctx) = run_case(p, seed, &id, tier, true, log);
                let (code, msg) = match v {
                    Verdict::Pass => (0, String::new()),
                    Verdict::Fail(m) => (3, m),
                    Verdict::Harness(m) => (4, m),
                };
                if let Some(o) = out {
                    write_choices(&o, &rec);
                }
                println!("{}{}", ctx.desc, msg);
                code
            })
        }
        Some("replay") => replay(Path::new(&args.0[1]), seed, tier),
        Some("child") => {
            // helper processes of a property
            let p = props::find(&args.0[1]);
            let rest = args.0[2..].to_vec();
            on_big_stack(move || (p.child.expect("child"))(&rest))
        }
        Some("read") => {
            // a PEG text as both sides read it
            let t = fs::read_to_string(&args.0[1]).unwrap();
            match crate::pegref::read(&t) {
                crate::pegref::Read::Grammar(r) => println!("reference: {}", crate::model::show_rules(&r)),
                _ => println!("reference: not PEG"),
            }
            match sut::read_peg(&t) {
                Ok(sut::PegRes::Rules(r, _)) => println!("crate: {}", crate::model::show_rules(&r)),
                Ok(sut::PegRes::Err { shown, .. }) => println!("crate: {}", shown),
                Err(m) => println!("crate: {}", m),
            }
            0
        }
        Some("warm") => {
            // build the crate for the scratch packages
            std::env::set_var("DPVERIF_RUN", "warm");
            let dir = work_dir("warm");
            let r = crate::compile::Pkg::new(&dir, "warm").programs(&["fn main() {}".to_string()]);
            let _ = fs::remove_dir_all(&dir);
            match r {
                Ok(v) if v.iter().all(|r| r.is_ok()) => 0,
                r => {
                    eprintln!("{:?}", r);
                    2
                }
            }
        }
        Some("list") => {
            for p in props::ALL {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        Some(id) => {
            let p = props::find(id);
            let cases = args.get("--cases").and_then(|s| s.parse().ok());
            supervisor(p, seed, tier, cases)
        }
        None => {
            eprintln!("usage: dpverif <property> | replay FILE | list");
            2
        }
    }
}

fn read_choices(f: &Path) -> Vec<u32> {
    let b = fs::read(f).unwrap_or_default();
    b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
fn write_choices(f: &Path, c: &[u32]) {
    let b: Vec<u8> = c.iter().flat_map(|x| x.to_le_bytes()).collect();
    fs::write(f, b).ok();
}

//-----------------------------------------------------------------------
//  worker

fn worker(p: &'static Prop, seed: u64, tier: Tier, (shard, shards, cases): (u64, u64, u64), skip: &[String], dir: &Path) -> i32 {
    let base = dir.join(format!("s{}", shard));
    let mut cur = fs::File::create(base.with_extension("cur")).unwrap();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut ids: Vec<CaseId> = vec![];
    if shard == 0 {
        ids.extend((0..p.fixed.len()).map(CaseId::Fixed));
    }
    let mut i = shard;
    let mut next = 0;
    loop {
        let id = if next < ids.len() {
            next += 1;
            ids[next - 1].clone()
        } else {
            if i >= cases {
                break;
            }
            i += shards;
            CaseId::Gen(i - shards)
        };
        use std::io::Seek;
        cur.rewind().ok();
        let tag = match &id {
            CaseId::Fixed(k) => format!("F{:<20}", k),
            CaseId::Gen(k) => format!("G{:<20}", k),
            _ => unreachable!(),
        };
        if skip.iter().any(|s| s == tag.trim()) {
            *labels.entry("case given up: the harness takes too long").or_insert(0) += 1;
            continue;
        }
        cur.write_all(tag.as_bytes()).ok();
        let want = samples.len() < 2 && matches!(id, CaseId::Gen(_)) && i > 5 * shards;
        let (v, rec, ctx) = run_case(p, seed, &id, tier, want, None);
        evals += ctx.evals;
        for (l, n) in ctx.labels {
            *labels.entry(l).or_insert(0) += n;
        }
        if want && !ctx.hashes.is_empty() {
            samples.push(clip(&ctx.desc, 1500));
        }
        hashes.extend(ctx.hashes);
        match v {
            Verdict::Pass => {}
            Verdict::Harness(m) => {
                fs::write(base.with_extension("harness"), format!("{:?}: {}", id, m)).ok();
                return 4;
            }
            Verdict::Fail(m) => {
                // first the case as found, then shrunk
                fs::write(base.with_extension("fail"), format!("{}\n{}", tag.trim(), m)).ok();
                write_choices(&base.with_extension("choices"), &rec);
                if let CaseId::Gen(_) = id {
                    let start = Instant::now();
                    let small = shrink(rec, 3000, |c| {
                        if start.elapsed() > Duration::from_secs(20) {
                            return None;
                        }
                        match run_case(p, seed, &CaseId::Choices(c.to_vec()), tier, false, None) {
                            (Verdict::Fail(_), used, _) => Some(used),
                            _ => None,
                        }
                    });
                    write_choices(&base.with_extension("choices"), &small);
                    fs::write(base.with_extension("shrunk"), "").ok();
                }
                return 3;
            }
        }
    }
    let mut out = format!("evals {}\n", evals);
    for (l, n) in labels {
        out.push_str(&format!("label {} {}\n", n, l));
    }
    for s in samples {
        out.push_str(&format!("sample {}\n", s.replace('\\', "\\\\").replace('\n', "\\n")));
    }
    fs::write(base.with_extension("sum"), out).unwrap();
    let hb: Vec<u8> = hashes.iter().flat_map(|x| x.to_le_bytes()).collect();
    fs::write(base.with_extension("hash"), hb).unwrap();
    0
}

//-----------------------------------------------------------------------
//  supervisor

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
}

pub enum Special {
    Ok,
    /// message, printed case
    Violation(String, String),
    Error(String),
}

fn supervisor(p: &'static Prop, seed: u64, tier: Tier, cases: Option<u64>) -> i32 {
    let t0 = Instant::now();
    std::env::set_var("DPVERIF_RUN", std::process::id().to_string());
    let dir = work_dir(p.id);
    let r = supervise(p, seed, tier, cases, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn supervise(p: &'static Prop, seed: u64, tier: Tier, cases: Option<u64>, dir: &Path, t0: Instant) -> i32 {
    let mut rep = Report::default();
    let mut violation: Option<String> = None;
    let mut failures: Vec<(String, String)> = vec![];
    let mut error: Option<String> = None;
    let exe = std::env::current_exe().unwrap();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let cases = cases.unwrap_or(if tier == Tier::Quick { p.quick } else { p.thorough });
    let replays = root().join("out").join("replays");
    fs::create_dir_all(&replays).ok();

    let shards = 8u64;
    let start = |s: u64, skip: &str| {
        Command::new(&exe)
            .args(["worker", p.id, "--tier", tier_s, "--seed", &seed.to_string(), "--shard", &s.to_string(), "--shards", &shards.to_string(), "--cases", &cases.to_string(), "--skip", skip, "--dir"])
            .arg(dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::inherit())
            .spawn()
            .unwrap()
    };
    let mut kids: Vec<_> = (0..shards).map(|s| Some(start(s, ""))).collect();
    let mut skip = vec![String::new(); shards as usize];
    let mut ended: Vec<(u64, std::process::ExitStatus)> = vec![];
    'wait: loop {
        let mut alive = false;
        for s in 0..shards as usize {
            if let Some(c) = &mut kids[s] {
                match c.try_wait() {
                    Ok(Some(st)) => {
                        kids[s] = None;
                        if st.code() == Some(sut::EXIT_SLOW) && skip[s].matches(',').count() < 4 {
                            // not the code under test: once more without this case
                            let tag = fs::read_to_string(dir.join(format!("s{}.cur", s))).unwrap_or_default();
                            eprintln!("worker {}: giving up case {}", s, tag.trim());
                            skip[s] = format!("{},{}", skip[s], tag.trim());
                            kids[s] = Some(start(s as u64, &skip[s]));
                            alive = true;
                            continue;
                        }
                        ended.push((s as u64, st));
                        if !st.success() {
                            break 'wait;
                        }
                    }
                    _ => alive = true,
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for c in kids.iter_mut().flatten() {
        c.kill().ok();
        c.wait().ok();
    }
    for (s, st) in ended {
        let base = dir.join(format!("s{}", s));
        if st.success() {
            let sum = fs::read_to_string(base.with_extension("sum")).unwrap_or_default();
            for l in sum.lines() {
                if let Some(n) = l.strip_prefix("evals ") {
                    rep.evals += n.parse::<u64>().unwrap_or(0);
                } else if let Some(x) = l.strip_prefix("label ") {
                    let (n, name) = x.split_once(' ').unwrap();
                    *rep.labels.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                } else if let Some(x) = l.strip_prefix("sample ") {
                    rep.samples.push(x.replace("\\n", "\n").replace("\\\\", "\\"));
                }
            }
            let hb = fs::read(base.with_extension("hash")).unwrap_or_default();
            rep.hashes.extend(hb.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            continue;
        }
        // a worker stopped
        let fail = fs::read_to_string(base.with_extension("fail")).ok();
        if let Some(f) = fail {
            let (tag, msg) = f.split_once('\n').unwrap();
            let mut shown = msg.to_string();
            let path = if let Some(i) = tag.strip_prefix('F') {
                let i: usize = i.trim().parse().unwrap();
                write_replay(&replays, p, &format!("fixed {}", p.fixed[i].0), &[], msg, "")
            } else {
                let ch = read_choices(&base.with_extension("choices"));
                let desc = describe(&exe, p, dir, &ch, tier_s);
                if !desc.is_empty() {
                    shown = desc;
                }
                write_replay(&replays, p, "choices", &ch, &shown, "")
            };
            failures.push((shown, path));
            continue;
        }
        if let Ok(h) = fs::read_to_string(base.with_extension("harness")) {
            error = Some(format!("harness panic in {}", h));
            continue;
        }
        // died: signal, allocation budget, CPU budget
        let tag = fs::read_to_string(base.with_extension("cur")).unwrap_or_default();
        let tag = tag.trim().to_string();
        eprintln!("worker {} died ({:?}) at case {}", s, st, tag);
        match confirm_death(&exe, p, dir, seed, tier_s, &tag) {
            None => error = Some(format!("worker {} died ({:?}) at case {}, not reproduced", s, st, tag)),
            Some((how, choices)) => {
                println!("{}: {}", p.id, how);
                let path = match tag.strip_prefix('F') {
                    Some(i) => write_replay(&replays, p, &format!("fixed {}", p.fixed[i.parse::<usize>().unwrap()].0), &[], &how, ""),
                    None => {
                        let small = shrink_death(&exe, p, dir, tier_s, choices);
                        write_replay(&replays, p, "choices", &small, &how, "(the case kills the process: run the replay to see it)")
                    }
                };
                violation = Some(path);
            }
        }
    }

    // several workers may have found one: the shortest
    failures.sort_by_key(|f| f.0.len());
    if let Some((shown, path)) = failures.into_iter().next() {
        println!("{}: {}", p.id, clip(&shown, 3000));
        violation = Some(path);
    }

    if violation.is_none() && error.is_none() {
        if let Some(special) = p.special {
            let opts = Opts { seed, tier, dir: dir.to_path_buf() };
            // on a big stack: it may run the same recursive code as the workers
            let (r, rep2) = on_big_stack(move || {
                let mut r2 = Report::default();
                let r = match catch_unwind(AssertUnwindSafe(|| special(&opts, &mut r2))) {
                    Ok(r) => r,
                    Err(_) => {
                        let (m, at) = sut::take_panic().unwrap_or_default();
                        if at.contains("repo/src") {
                            Special::Violation(format!("PANIC in the code under test: {} (at {})", m, at), String::new())
                        } else {
                            Special::Error(format!("harness panic: {} (at {})", m, at))
                        }
                    }
                };
                (r, r2)
            });
            rep.evals += rep2.evals;
            rep.hashes.extend(rep2.hashes);
            for (l, n) in rep2.labels {
                *rep.labels.entry(l).or_insert(0) += n;
            }
            rep.samples.extend(rep2.samples);
            rep.notes.extend(rep2.notes);
            match r {
                Special::Ok => {}
                Special::Error(e) => error = Some(e),
                Special::Violation(msg, desc) => {
                    println!("{}: {}", p.id, clip(&msg, 3000));
                    violation = Some(write_replay(&replays, p, "special", &[], &msg, &desc));
                }
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    write_evidence(p, seed, tier_s, &rep, wall, violation.is_some() as u64);
    if let Some(v) = violation {
        println!("VIOLATION property={} replay={}", p.id, v);
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR {}: {}", p.id, e);
        return 2;
    }
    println!("{}: held on {} evaluations, {} distinct non-trivial cases, {:.1} s", p.id, rep.evals, rep.hashes.len(), wall);
    0
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub dir: PathBuf,
}

/// message and description of a failing case, from a process of its own
/// what the case shows, with the message
fn describe(exe: &Path, p: &Prop, dir: &Path, ch: &[u32], tier: &str) -> String {
    let f = dir.join("describe");
    write_choices(&f, ch);
    let out = Command::new(exe).args(["one", p.id, "--tier", tier, "--choices"]).arg(&f).output();
    match out {
        Ok(o) => String::from_utf8_lossy(&o.stdout).trim_end().to_string(),
        Err(_) => String::new(),
    }
}

fn death(st: &std::process::ExitStatus) -> Option<String> {
    match (st.code(), st.signal()) {
        (Some(sut::EXIT_ALLOC), _) => Some("the code under test does not come to an end (allocation budget used up)".into()),
        (Some(sut::EXIT_CPU), _) => Some("the code under test does not come to an end (CPU budget used up)".into()),
        (_, Some(9)) => None,
        (_, Some(s)) => Some(format!("the code under test aborts the process (signal {}: 6 or 11 is stack exhaustion)", s)),
        (Some(134), _) => Some("the code under test aborts the process".into()),
        _ => None,
    }
}

fn confirm_death(exe: &Path, p: &Prop, dir: &Path, seed: u64, tier: &str, tag: &str) -> Option<(String, Vec<u32>)> {
    let log = dir.join("deathlog");
    let _ = fs::remove_file(&log);
    let mut c = Command::new(exe);
    c.args(["one", p.id, "--tier", tier, "--seed", &seed.to_string(), "--log"]).arg(&log).stdout(Stdio::null());
    match (tag.strip_prefix('F'), tag.strip_prefix('G')) {
        (Some(i), _) => c.args(["--fixed", i]),
        (_, Some(i)) => c.args(["--index", i]),
        _ => return None,
    };
    let st = c.status().ok()?;
    death(&st).map(|d| (d, read_choices(&log)))
}

fn shrink_death(exe: &Path, p: &Prop, dir: &Path, tier: &str, choices: Vec<u32>) -> Vec<u32> {
    let start = Instant::now();
    let (f, o) = (dir.join("sd"), dir.join("sd.log"));
    shrink(choices, 400, |c| {
        if start.elapsed() > Duration::from_secs(45) {
            return None;
        }
        write_choices(&f, c);
        let _ = fs::remove_file(&o);
        let st = Command::new(exe)
            .args(["one", p.id, "--tier", tier, "--choices"])
            .arg(&f)
            .arg("--log")
            .arg(&o)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .ok()?;
        death(&st).map(|_| read_choices(&o))
    })
}

fn write_replay(dir: &Path, p: &Prop, kind: &str, ch: &[u32], msg: &str, desc: &str) -> String {
    let mut s = format!("property {}\nkind {}\nchoices", p.id, kind);
    for c in ch {
        s.push_str(&format!(" {}", c));
    }
    s.push_str("\n---\n");
    s.push_str(desc);
    s.push_str("\n");
    s.push_str(msg);
    s.push_str("\n");
    let f = dir.join(format!("{}-{:08x}.replay", p.id, hash_str(&s) as u32));
    fs::write(&f, s).ok();
    f.to_string_lossy().to_string()
}

fn replay(f: &Path, seed: u64, tier: Tier) -> i32 {
    let s = fs::read_to_string(f).expect("replay file");
    let mut id = String::new();
    let mut kind = String::new();
    let mut ch = vec![];
    for l in s.lines() {
        if l == "---" {
            break;
        }
        if let Some(x) = l.strip_prefix("property ") {
            id = x.to_string();
        } else if let Some(x) = l.strip_prefix("kind ") {
            kind = x.to_string();
        } else if let Some(x) = l.strip_prefix("choices") {
            ch = x.split_whitespace().map(|x| x.parse().unwrap()).collect();
        }
    }
    let p = props::find(&id);
    if kind == "special" {
        println!("{}", s);
        return supervisor(p, seed, tier, Some(0));
    }
    let case = match kind.strip_prefix("fixed ") {
        Some(n) => CaseId::Fixed(p.fixed.iter().position(|f| f.0 == n).expect("fixed case")),
        None => CaseId::Choices(ch),
    };
    let path = f.to_string_lossy().to_string();
    on_big_stack(move || {
        let (v, _, ctx) = run_case(p, seed, &case, tier, true, None);
        println!("{}", ctx.desc);
        match v {
            Verdict::Pass => {
                println!("passes");
                0
            }
            Verdict::Fail(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", p.id, path);
                1
            }
            Verdict::Harness(m) => {
                println!("harness: {}", m);
                2
            }
        }
    })
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(p: &Prop, seed: u64, tier: &str, rep: &Report, wall: f64, violations: u64) {
    let dir = root().join("evidence");
    fs::create_dir_all(&dir).ok();
    let mut labels: Vec<String> = rep.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    labels.sort();
    let samples: Vec<String> = rep.samples.iter().take(6).map(|s| js(s.trim_end())).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| js(s)).chain(rep.notes.iter().map(|s| js(s))).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"labels\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(p.id),
        js(tier),
        seed & 0x7fff_ffff_ffff_ffff,
        rep.evals,
        rep.hashes.len(),
        js(p.rule),
        samples.join(", "),
        labels.join(", "),
        assumptions.join(", "),
        wall,
        violations
    );
    fs::write(dir.join(format!("{}.json", p.id)), s).expect("evidence");
}
