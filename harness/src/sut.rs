//! Calls into the code under test: panics are caught, work is bounded by a deterministic budget of
//! allocations, and (second line of defence) by CPU time.

use crate::model::*;
use dynparser::parser::expression::SetOfRules;
use dynparser::parser::{ErrPriority, Error};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

pub const EXIT_ALLOC: i32 = 77;
pub const EXIT_CPU: i32 = 78;
/// the time went by outside of the code under test
pub const EXIT_SLOW: i32 = 79;
/// calls into the code under test going on
static INSIDE: AtomicI32 = AtomicI32::new(0);

const MOST_LIVE: i64 = 3 << 30;

thread_local! {
    static LEFT: Cell<i64> = const { Cell::new(i64::MAX) };
    static BYTES: Cell<i64> = const { Cell::new(i64::MAX) };
    /// bytes held, and the most that may be held
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static BUDGET: Cell<(i64, i64)> = const { Cell::new((200_000_000, 256 << 30)) };
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn clock_gettime(clock: i32, to: *mut [i64; 2]) -> i32;
    fn signal(sig: i32, handler: extern "C" fn(i32)) -> usize;
}
extern "C" fn on_prof(_: i32) {
    unsafe { _exit(if INSIDE.load(SeqCst) > 0 { EXIT_CPU } else { EXIT_SLOW }) }
}

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n < l.size() {
            let _ = LIVE.try_with(|c| c.set(c.get() - (l.size() - n) as i64));
        }
        charge(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}
#[inline]
fn charge(size: usize) {
    let _ = LEFT.try_with(|c| {
        let left = c.get();
        if left != i64::MAX {
            c.set(left - 1);
            let _ = BYTES.try_with(|b| {
                b.set(b.get() - size as i64);
                let live = LIVE.try_with(|c| {
                    c.set(c.get() + size as i64);
                    c.get()
                });
                if left <= 0 || b.get() <= 0 || live.unwrap_or(0) > MOST_LIVE {
                    unsafe { _exit(EXIT_ALLOC) }
                }
            });
        }
    });
}
#[global_allocator]
static A: Counting = Counting;

/// Install the panic hook and the CPU alarm handler
pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // whatever is allocated while the panic is handled is not charged
        LEFT.with(|c| c.set(i64::MAX));
        PANIC.with(|p| *p.borrow_mut() = Some((msg, at)));
    }));
    unsafe {
        signal(27, on_prof);
    }
}

pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// CPU seconds after which this process ends with EXIT_CPU or EXIT_SLOW (0: never)
pub fn cpu_alarm(secs: i64) {
    let v = [0i64, 0, secs, 0];
    unsafe {
        setitimer(2, &v, std::ptr::null_mut());
    }
}

pub fn set_budget(allocs: i64, bytes: i64) {
    BUDGET.with(|b| b.set((allocs, bytes)));
}

/// Run code under test. Err is the panic message.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    sut_times(1, f)
}
/// the same with a larger budget
pub fn sut_times<R>(k: i64, f: impl FnOnce() -> R) -> Result<R, String> {
    let (a, b) = BUDGET.with(|b| b.get());
    let (a, b) = (a.saturating_mul(k), b.saturating_mul(k));
    let nested = LEFT.with(|c| c.get()) != i64::MAX;
    if !nested {
        LEFT.with(|c| c.set(a));
        BYTES.with(|c| c.set(b));
        LIVE.with(|c| c.set(0));
    }
    INSIDE.fetch_add(1, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.fetch_sub(1, SeqCst);
    if !nested {
        LEFT.with(|c| c.set(i64::MAX));
        BYTES.with(|c| c.set(i64::MAX));
    }
    r.map_err(|_| {
        let (m, at) = take_panic().unwrap_or_default();
        format!("PANIC in the code under test: {} (at {})", clip(&m, 500), at)
    })
}

/// what a call cost: allocations, bytes allocated, CPU nanoseconds of this thread
#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub allocs: u64,
    pub bytes: u64,
    pub cpu: u64,
}
pub fn cpu_now() -> u64 {
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, &mut t);
    }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
/// run code under test and measure it
pub fn sut_cost<R>(k: i64, f: impl FnOnce() -> R) -> Result<(R, Cost), String> {
    sut_times(k, || {
        let (a, b, t) = (LEFT.with(|c| c.get()), BYTES.with(|c| c.get()), cpu_now());
        let r = f();
        let t = cpu_now() - t;
        (r, Cost { allocs: (a - LEFT.with(|c| c.get())) as u64, bytes: (b - BYTES.with(|c| c.get())) as u64, cpu: t })
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct SErr {
    pub n: usize,
    pub row: usize,
    pub col: usize,
    pub start_line: usize,
    pub descr: String,
    pub before: String,
    pub after: String,
    pub trace: Vec<String>,
    pub critical: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SRes {
    Tree(T),
    Fail(SErr),
}

pub fn conv_err(e: &Error) -> SErr {
    SErr {
        n: e.pos.n,
        row: e.pos.row,
        col: e.pos.col,
        start_line: e.pos.start_line,
        descr: e.descr.clone(),
        before: e.line_before.clone(),
        after: e.line_after.clone(),
        trace: e.parsing_rules.clone(),
        critical: e.priority == ErrPriority::Critical,
    }
}

/// parse or parse_debug
pub fn run(text: &str, rules: &SetOfRules, debug: bool) -> Result<SRes, String> {
    sut_times(if debug { 20 } else { 1 }, || {
        let r = if debug { dynparser::parse_debug(text, rules) } else { dynparser::parse(text, rules) };
        match r {
            Ok(n) => SRes::Tree(from_node(&n)),
            Err(e) => SRes::Fail(conv_err(&e)),
        }
    })
}

pub fn run_node(text: &str, rules: &SetOfRules) -> Result<Result<dynparser::ast::Node, SErr>, String> {
    sut(|| dynparser::parse(text, rules).map_err(|e| conv_err(&e)))
}

pub fn build(rules: &Rules) -> Result<SetOfRules, String> {
    sut(|| to_set(rules))
}

pub fn show_sres(r: &SRes) -> String {
    match r {
        SRes::Tree(t) => format!("tree {}", clip(&show_t(t), 1500)),
        SRes::Fail(e) => format!(
            "error at n={} row={} col={} start_line={} critical={} descr={:?} before={:?} after={:?} trace={:?}",
            e.n,
            e.row,
            e.col,
            e.start_line,
            e.critical,
            clip(&e.descr, 300),
            clip(&e.before, 200),
            clip(&e.after, 200),
            e.trace.iter().take(60).collect::<Vec<_>>()
        ),
    }
}

/// rules_from_peg
pub enum PegRes {
    Rules(Rules, SetOfRules),
    Err { shown: String, parser: Option<SErr> },
}
pub fn read_peg(text: &str) -> Result<PegRes, String> {
    sut(|| match dynparser::rules_from_peg(text) {
        Ok(s) => PegRes::Rules(from_set(&s), s),
        Err(e) => {
            let parser = match &e {
                dynparser::peg::Error::Parser(p) => Some(conv_err(p)),
                _ => None,
            };
            PegRes::Err { shown: format!("{}", e), parser }
        }
    })
}
