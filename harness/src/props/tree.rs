//! Trees: C15 C16 C17 C18 C19 C20

use super::Prop;
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::sut::sut;
use dynparser::ast::{self, flat, Node};
use std::collections::BTreeSet;

const TREES: &str = "trees up to about 1500 levels and some thousand nodes; wider ones are exercised by C22";

fn all_names(t: &T, out: &mut BTreeSet<String>) {
    if let T::Rule(n, v) = t {
        out.insert(n.clone());
        v.iter().for_each(|t| all_names(t, out));
    }
}
fn labels(ctx: &mut Ctx, t: &T) {
    fn depth(t: &T) -> usize {
        match t {
            T::Rule(_, v) => 1 + v.iter().map(depth).max().unwrap_or(0),
            _ => 1,
        }
    }
    fn any(t: &T, f: &dyn Fn(&T) -> bool) -> bool {
        f(t) || if let T::Rule(_, v) = t { v.iter().any(|t| any(t, f)) } else { false }
    }
    ctx.label_if(any(t, &|t| *t == T::Eof), "with an end-of-file node");
    ctx.label_if(any(t, &|t| *t == T::Val(String::new())), "with an empty value");
    ctx.label_if(any(t, &|t| matches!(t, T::Rule(_, v) if v.is_empty())), "with a rule without children");
    ctx.label_if(depth(t) > 8, "deeper than 8 levels");
    ctx.label_if(depth(t) > 100, "deeper than 100 levels");
    ctx.label_if(t_size(t) > 1000, "more than 1000 nodes");
    ctx.label_if(t_size(t) > 100, "more than 100 nodes");
    ctx.label_if(!matches!(t, T::Rule(..)), "the root is a leaf");
}

fn fail(t: &T, what: &str, want: String, got: String) -> CaseResult {
    Err(format!("tree: {}\n{}: expected {}\ngot {}", clip(&show_t(t), 3000), what, clip(&want, 3000), clip(&got, 3000)))
}
fn same(t: &T, what: &str, want: &T, got: &T) -> CaseResult {
    if want == got {
        Ok(())
    } else {
        fail(t, what, show_t(want), show_t(got))
    }
}
fn untouched(t: &T, node: &Node) -> CaseResult {
    same(t, "the tree after the call", t, &from_node(node))
}

//-----------------------------------------------------------------------

pub static C15: Prop = Prop {
    id: "C15",
    rule: "random trees (few names and values, some alike, empty values, end-of-file nodes, leaf roots); compact compared with the definition; text, idempotence, original untouched. Non-trivial: two adjacent values exist somewhere; distinct by tree",
    quick: 1_000_000,
    thorough: 3_000_000,
    case: c15,
    fixed: &[("small trees, all of them", f_c15), ("wide trees", f_c15_wide)],
    special: None,
    child: None,
    assumptions: &[TREES],
    cpu_secs: 60,
};

fn check_compact(t: &T) -> CaseResult {
    let node = to_node(t);
    let want = t_compact(t);
    let (got, twice) = sut(|| {
        let c = node.compact();
        let d = c.compact();
        (from_node(&c), from_node(&d))
    })?;
    same(t, "compact", &want, &got)?;
    same(t, "compact twice", &got, &twice)?;
    if leaf_text(&got) != leaf_text(t) {
        return fail(t, "text of compact", leaf_text(t), leaf_text(&got));
    }
    untouched(t, &node)
}
fn c15(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, _, _) = gen_any_tree(src);
    ctx.note(|| format!("tree: {}", clip(&show_t(&t), 600)));
    labels(ctx, &t);
    check_compact(&t)?;
    ctx.eval(t_compact(&t) != t, hash_str(&show_t(&t)));
    Ok(())
}

/// trees of some thousand to 70,000 nodes side by side
fn wide_trees() -> Vec<T> {
    let leaf = |i: usize, k: usize| match (i * k) % 17 {
        0 => T::Eof,
        1 => T::Val(String::new()),
        _ => T::Val(format!("{}.{}é ", k, i)),
    };
    let flat = |k: usize, n: usize| -> Vec<T> { (0..n).map(|i| leaf(i, k)).collect() };
    let r = |n: &str, v: Vec<T>| T::Rule(n.into(), v);
    let mut out = vec![];
    for n in [255usize, 256, 257, 1000, 1023, 1025, 1500, 4095, 4097, 10_000, 32_769, 65_535, 65_537, 70_000] {
        out.push(r("main", flat(1, n)));
        out.push(r("main", (0..n).map(|i| T::Val((if i % 2 == 0 { "a" } else { "日" }).into())).collect()));
        out.push(r("main", (0..n).map(|i| r(["a", "b", "c"][i % 3], vec![leaf(i, 3)])).collect()));
        out.push(r("main", (0..n).map(|i| if i % 2 == 0 { leaf(i, 5) } else { r(["a", "b"][i / 2 % 2], vec![]) }).collect()));
        if n <= 10_000 {
            // one after the other, and below one another
            out.push(r("main", (0..5).map(|k| r(["a", "a", "b", "c", "a"][k], flat(k + 2, n))).collect()));
            out.push(r("main", vec![r("a", [flat(2, n), vec![r("a", [flat(3, n), vec![r("b", flat(4, n)), T::Val("x".into())], flat(5, 7)].concat())], flat(6, n)].concat()), r("b", vec![r("c", flat(7, n))]), T::Eof]));
            out.push(r("a", (0..n).map(|i| r(&format!("n{}", i), vec![leaf(i, 7), r("b", vec![leaf(i, 2), leaf(i + 1, 2)])])).collect()));
        }
    }
    out
}
/// lists of names for them: short, and with many names
fn wide_lists() -> Vec<Vec<String>> {
    let v = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let all: Vec<String> = (0..1100).map(|i| format!("n{}", i)).collect();
    vec![v(&[]), v(&["a"]), v(&["b", "main"]), v(&["a", "b", "c"]), all.clone(), all.into_iter().step_by(3).chain(v(&["a", "main"])).collect()]
}
fn f_c15_wide(ctx: &mut Ctx) -> CaseResult {
    for (i, t) in wide_trees().iter().enumerate() {
        check_compact(t)?;
        ctx.eval(true, mix(&[15, i as u64]));
    }
    Ok(())
}
fn f_c16_wide(ctx: &mut Ctx) -> CaseResult {
    let ls = wide_lists();
    for (i, t) in wide_trees().iter().enumerate() {
        for (j, l) in ls.iter().enumerate() {
            if l.len() > 100 && t_size(t) > 40_000 {
                continue;
            }
            check_prune(t, &strs(l), &["a"])?;
            ctx.eval(true, mix(&[16, i as u64, j as u64]));
        }
    }
    Ok(())
}
fn f_c17_wide(ctx: &mut Ctx) -> CaseResult {
    let ls = wide_lists();
    for (i, t) in wide_trees().iter().enumerate() {
        for (j, l) in ls.iter().enumerate() {
            if l.len() > 100 && t_size(t) > 40_000 {
                continue;
            }
            check_pass(t, &strs(l), &["a", "main"])?;
            ctx.eval(true, mix(&[17, i as u64, j as u64]));
        }
    }
    Ok(())
}
fn f_c18_wide(ctx: &mut Ctx) -> CaseResult {
    for (i, t) in wide_trees().iter().enumerate() {
        check_flatten(t)?;
        ctx.eval(true, mix(&[18, i as u64]));
    }
    Ok(())
}

/// all trees with up to n nodes over two names and some leaves
fn small_trees(n: usize, leaves: &[T]) -> Vec<T> {
    fn forests(n: usize, leaves: &[T]) -> Vec<Vec<T>> {
        let mut out = vec![vec![]];
        if n == 0 {
            return out;
        }
        for first in 1..=n {
            for t in trees(first, leaves) {
                for rest in forests(n - first, leaves) {
                    if first + rest.iter().map(t_size).sum::<usize>() <= n {
                        let mut v = vec![t.clone()];
                        v.extend(rest);
                        out.push(v);
                    }
                }
            }
        }
        out
    }
    // exactly n nodes
    fn trees(n: usize, leaves: &[T]) -> Vec<T> {
        if n == 1 {
            let mut v = leaves.to_vec();
            v.push(T::Rule("a".into(), vec![]));
            v.push(T::Rule("b".into(), vec![]));
            return v;
        }
        let mut out = vec![];
        for f in forests(n - 1, leaves) {
            if f.iter().map(t_size).sum::<usize>() == n - 1 {
                out.push(T::Rule("a".into(), f.clone()));
                out.push(T::Rule("b".into(), f));
            }
        }
        out
    }
    (1..=n).flat_map(|k| trees(k, leaves)).collect()
}
fn f_c15(ctx: &mut Ctx) -> CaseResult {
    for t in small_trees(5, &[T::Val("x".into()), T::Val("".into()), T::Eof]) {
        check_compact(&t)?;
        ctx.eval(t_compact(&t) != t, hash_str(&show_t(&t)));
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C16: Prop = Prop {
    id: "C16",
    rule: "random trees x random lists of names (mostly of the tree, near misses, duplicates, names equal to values or to the root); prune compared with the definition; two lists in a row against their union, original untouched. Non-trivial: at least one subtree is removed; distinct by tree and list",
    quick: 1_000_000,
    thorough: 3_000_000,
    case: c16,
    fixed: &[("small trees, all of them", f_c16), ("wide trees", f_c16_wide), ("names that look alike", f_c16_alike)],
    special: None,
    child: None,
    assumptions: &[TREES],
    cpu_secs: 60,
};

fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
fn check_prune(t: &T, a: &[&str], b: &[&str]) -> CaseResult {
    let node = to_node(t);
    let mut ab = a.to_vec();
    ab.extend(b);
    let (pa, pb, pab, p2) = sut(|| {
        let x = node.prune(a);
        let y = x.prune(b);
        (from_node(&x), from_node(&node.prune(b)), from_node(&node.prune(&ab)), from_node(&y))
    })?;
    same(t, &format!("prune({:?})", a), &t_prune(t, a), &pa)?;
    same(t, &format!("prune({:?})", b), &t_prune(t, b), &pb)?;
    same(t, &format!("prune({:?})", ab), &t_prune(t, &ab), &pab)?;
    same(t, &format!("prune({:?}) then prune({:?})", a, b), &pab, &p2)?;
    let mut left = BTreeSet::new();
    if let T::Rule(_, v) = &pa {
        v.iter().for_each(|t| all_names(t, &mut left));
    }
    if let Some(n) = a.iter().find(|n| left.contains(**n)) {
        return fail(t, &format!("prune({:?})", a), format!("no {:?}", n), show_t(&pa));
    }
    untouched(t, &node)
}
fn c16(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, names, vals) = gen_any_tree(src);
    let a = gen_names(src, &names, &vals);
    let b = gen_names(src, &names, &vals);
    ctx.note(|| format!("tree: {}\nlists: {:?} {:?}", clip(&show_t(&t), 600), a, b));
    labels(ctx, &t);
    let (a, b) = (strs(&a), strs(&b));
    check_prune(&t, &a, &b)?;
    ctx.label_if(matches!(&t, T::Rule(n, _) if a.contains(&n.as_str())), "the root is listed");
    ctx.eval(t_prune(&t, &a) != t, mix(&[hash_str(&show_t(&t)), hash_str(&format!("{:?}", a))]));
    Ok(())
}
/// both names at all places, with values equal to them
fn alike_tree(a: &str, b: &str) -> T {
    let v = |s: &str| T::Val(s.into());
    let r = |s: &str, k| T::Rule(s.into(), k);
    r(a, vec![v(b), r(a, vec![v(a), r(b, vec![v("x")])]), r(b, vec![r(a, vec![v(b)]), v("y"), T::Eof])])
}
fn f_c16_alike(ctx: &mut Ctx) -> CaseResult {
    for (a, b) in alike_pairs() {
        let t = alike_tree(&a, &b);
        check_prune(&t, &[&a], &[&b])?;
        ctx.eval(true, hash_str(&format!("{:?}{:?}", a, b)));
    }
    Ok(())
}
fn f_c17_alike(ctx: &mut Ctx) -> CaseResult {
    for (a, b) in alike_pairs() {
        let t = alike_tree(&a, &b);
        check_pass(&t, &[&a], &[&b])?;
        ctx.eval(true, hash_str(&format!("{:?}{:?}", a, b)));
    }
    Ok(())
}
fn f_c19_alike(ctx: &mut Ctx) -> CaseResult {
    for (a, b) in alike_pairs() {
        let (v, r) = ([Node::Val(a.clone())], [Node::Rule((a.clone(), vec![]))]);
        for (w, ok) in [(&a, true), (&b, false)] {
            let got = sut(|| ast::consume_this_value(w, &v).is_ok())?;
            res(&format!("consume_this_value({:?}) on the value {:?}", w, a), Some(ok), Some(got))?;
            let got = sut(|| ast::consume_node_get_subnodes_for_rule_name_is(w, &r).is_ok())?;
            res(&format!("consume_node_get_subnodes_for_rule_name_is({:?}) on the rule {:?}", w, a), Some(ok), Some(got))?;
        }
        let got = sut(|| ast::consume_this_value(&a, &r).is_ok() || ast::consume_node_get_subnodes_for_rule_name_is(&a, &v).is_ok())?;
        res(&format!("a value taken for a rule or the reverse, {:?}", a), Some(false), Some(got))?;
        ctx.eval(true, hash_str(&format!("{:?}{:?}", a, b)));
    }
    Ok(())
}
fn f_c20_alike(ctx: &mut Ctx) -> CaseResult {
    for (a, b) in alike_pairs() {
        let l = [flat::Node::Val(a.clone()), flat::Node::BeginRule(a.clone()), flat::Node::EndRule(a.clone())];
        for (w, ok) in [(&a, true), (&b, false)] {
            for (i, n) in l.iter().enumerate() {
                let n = std::slice::from_ref(n);
                let got = sut(|| [flat::consume_this_value(w, n).is_ok(), flat::consume_node_start_rule_name(w, n).is_ok(), flat::consume_node_end_rule_name(w, n).is_ok()])?;
                let want = [ok && i == 0, ok && i == 1, ok && i == 2];
                res(&format!("consume_this_value, consume_node_start_rule_name and consume_node_end_rule_name({:?}) on {:?}", w, from_flat(&n[0])), Some(want), Some(got))?;
            }
        }
        ctx.eval(true, hash_str(&format!("{:?}{:?}", a, b)));
    }
    Ok(())
}
fn f_c16(ctx: &mut Ctx) -> CaseResult {
    for t in small_trees(5, &[T::Val("a".into()), T::Eof]) {
        for a in [&[][..], &["a"], &["b"], &["b", "a"], &["x", "b"], &["a", "a", ""]] {
            check_prune(&t, a, &["a"])?;
            ctx.eval(t_prune(&t, a) != t, mix(&[hash_str(&show_t(&t)), hash_str(&format!("{:?}", a))]));
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C17: Prop = Prop {
    id: "C17",
    rule: "random trees x random lists of names; pass_through_except compared with the definition; sequence of leaves, idempotence, composition of two lists against their intersection, original untouched. Non-trivial: at least one rule is spliced out; distinct by tree and list",
    quick: 900_000,
    thorough: 3_000_000,
    case: c17,
    fixed: &[("small trees, all of them", f_c17), ("wide trees", f_c17_wide), ("names that look alike", f_c17_alike)],
    special: None,
    child: None,
    assumptions: &[TREES],
    cpu_secs: 60,
};

fn check_pass(t: &T, a: &[&str], b: &[&str]) -> CaseResult {
    let node = to_node(t);
    let both: Vec<&str> = a.iter().copied().filter(|x| b.contains(x)).collect();
    let (pa, twice, chained, inter) = sut(|| {
        let x = node.pass_through_except(a);
        (from_node(&x), from_node(&x.pass_through_except(a)), from_node(&x.pass_through_except(b)), from_node(&node.pass_through_except(&both)))
    })?;
    same(t, &format!("pass_through_except({:?})", a), &t_pass(t, a), &pa)?;
    same(t, &format!("pass_through_except({:?}) twice", a), &pa, &twice)?;
    same(t, &format!("pass_through_except({:?}) then ({:?})", a, b), &inter, &chained)?;
    same(t, &format!("pass_through_except({:?})", both), &t_pass(t, &both), &inter)?;
    let (mut l1, mut l2) = (vec![], vec![]);
    leaves(t, &mut l1);
    leaves(&pa, &mut l2);
    if l1 != l2 {
        return fail(t, "leaves", format!("{:?}", l1), format!("{:?}", l2));
    }
    untouched(t, &node)
}
fn c17(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, names, vals) = gen_any_tree(src);
    let a = gen_names(src, &names, &vals);
    let b = gen_names(src, &names, &vals);
    ctx.note(|| format!("tree: {}\nlists: {:?} {:?}", clip(&show_t(&t), 600), a, b));
    labels(ctx, &t);
    let (a, b) = (strs(&a), strs(&b));
    check_pass(&t, &a, &b)?;
    ctx.eval(t_pass(&t, &a) != t, mix(&[hash_str(&show_t(&t)), hash_str(&format!("{:?}", a))]));
    Ok(())
}
fn f_c17(ctx: &mut Ctx) -> CaseResult {
    for t in small_trees(5, &[T::Val("a".into()), T::Eof]) {
        for a in [&[][..], &["a"], &["b"], &["b", "a"], &["x", "b"], &["a", "a", ""]] {
            check_pass(&t, a, &["a"])?;
            ctx.eval(t_pass(&t, a) != t, mix(&[hash_str(&show_t(&t)), hash_str(&format!("{:?}", a))]));
        }
    }
    Ok(())
}

//-----------------------------------------------------------------------

pub static C18: Prop = Prop {
    id: "C18",
    rule: "random trees; flatten compared with the definition, the tree rebuilt from the list, also after compact, prune and pass_through_except. Non-trivial: at least two rules; distinct by tree",
    quick: 900_000,
    thorough: 3_000_000,
    case: c18,
    fixed: &[("small trees, all of them", f_c18), ("wide trees", f_c18_wide), ("end-of-file nodes stay", f_c18_eof)],
    special: None,
    child: None,
    assumptions: &[TREES],
    cpu_secs: 60,
};

fn check_flatten(t: &T) -> CaseResult {
    let node = to_node(t);
    let want = t_flatten(t);
    let got: Vec<F> = sut(|| node.flatten().iter().map(from_flat).collect())?;
    if want != got {
        return fail(t, "flatten", format!("{:?}", want), format!("{:?}", got));
    }
    match t_unflatten(&got) {
        Some(x) => same(t, "the tree rebuilt", t, &x)?,
        None => return fail(t, "flatten", "properly nested markers".into(), format!("{:?}", got)),
    }
    untouched(t, &node)
}
fn c18(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, names, vals) = gen_any_tree(src);
    ctx.note(|| format!("tree: {}", clip(&show_t(&t), 600)));
    labels(ctx, &t);
    check_flatten(&t)?;
    if src.chance(1, 3) {
        let a = gen_names(src, &names, &vals);
        let a = strs(&a);
        let node = to_node(&t);
        let u = sut(|| node.pass_through_except(&a).compact())?;
        let u = from_node(&u);
        check_flatten(&u)?;
    }
    let mut n = BTreeSet::new();
    all_names(&t, &mut n);
    ctx.eval(n.len() > 1, hash_str(&show_t(&t)));
    Ok(())
}
fn f_c18(ctx: &mut Ctx) -> CaseResult {
    for t in small_trees(5, &[T::Val("a".into()), T::Val("".into()), T::Eof]) {
        check_flatten(&t)?;
        ctx.eval(t_size(&t) > 2, hash_str(&show_t(&t)));
    }
    Ok(())
}
fn f_c18_eof(ctx: &mut Ctx) -> CaseResult {
    let v = |s: &str| T::Val(s.into());
    for t in [T::Eof, T::Rule("main".into(), vec![T::Eof]), T::Rule("main".into(), vec![v("a"), T::Eof, v("b"), T::Rule("e".into(), vec![T::Eof, T::Eof])])] {
        check_flatten(&t)?;
        ctx.eval(true, hash_str(&show_t(&t)));
    }
    Ok(())
}

//-----------------------------------------------------------------------
//  helpers

/// a name to ask for: often the right one
fn ask(src: &mut Src, real: Option<&str>, pool: &[String]) -> String {
    match (src.weighted(&[6, 3, 1, 1]), real) {
        (0, Some(r)) => r.to_string(),
        (2, Some(r)) => {
            // nearly
            like_string(src, r)
        }
        (3, _) => String::new(),
        _ => src.pick(pool).clone(),
    }
}

pub static C19: Prop = Prop {
    id: "C19",
    rule: "random trees; sequences of up to 40 calls of all helpers of ast on the current node list and its nodes, with right, nearly right and wrong names and values, descending into rules and returning; every result compared with a list model. Non-trivial: at least two successful consumptions and one refusal; distinct by tree and calls",
    quick: 800_000,
    thorough: 3_000_000,
    case: c19,
    fixed: &[("words that look alike", f_c19_alike)],
    special: None,
    child: None,
    assumptions: &[TREES],
    cpu_secs: 60,
};

fn res<X: PartialEq + std::fmt::Debug>(what: &str, want: Option<X>, got: Option<X>) -> CaseResult {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {}\ngot {}", what, clip(&format!("{:?}", want), 1500), clip(&format!("{:?}", got), 1500)))
    }
}
fn ts(v: &[Node]) -> Vec<T> {
    v.iter().map(from_node).collect()
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, names, vals) = gen_any_tree(src);
    let root = to_node(&t);
    let owned = [root];
    let mut pool = names.clone();
    pool.extend(vals.iter().cloned());
    ctx.note(|| format!("tree: {}", clip(&show_t(&t), 600)));
    // lists of the model and of the code under test, side by side
    let mut stack: Vec<(Vec<T>, &[Node])> = vec![(vec![t.clone()], &owned[..])];
    let steps = src.range(1, 40);
    let mut log = String::new();
    let (mut won, mut refused) = (0, 0);
    let mut run = || -> CaseResult {
        for _ in 0..steps {
            let (m, s) = match stack.last() {
                Some((m, s)) => (m.clone(), *s),
                None => break,
            };
            let first = m.first().cloned();
            let (fname, fval) = match &first {
                Some(T::Rule(n, _)) => (Some(n.as_str()), None),
                Some(T::Val(v)) => (None, Some(v.as_str())),
                _ => (None, None),
            };
            let op = src.weighted(&[5, 5, 5, 2, 1, 1, 1, 1, 1]);
            let rest = || m[1..].to_vec();
            match op {
                0 => {
                    let name = ask(src, fname.or(fval), &pool);
                    let what = format!("consume_node_get_subnodes_for_rule_name_is({:?})", name);
                    log.push_str(&what);
                    log.push(' ');
                    let got = sut(|| ast::consume_node_get_subnodes_for_rule_name_is(&name, s).ok())?;
                    let want = match &first {
                        Some(T::Rule(n, k)) if *n == name => Some((rest(), k.clone())),
                        _ => None,
                    };
                    res(&what, want.clone(), got.map(|(a, b)| (ts(a), ts(b))))?;
                    match (want, got) {
                        (Some((mr, mk)), Some((sr, sk))) => {
                            won += 1;
                            stack.pop();
                            if src.chance(1, 8) {
                                // leave the rest
                            } else {
                                stack.push((mr, sr));
                            }
                            stack.push((mk, sk));
                        }
                        _ => refused += 1,
                    }
                }
                1 | 2 => {
                    let (what, want, got) = if op == 1 {
                        let got = sut(|| ast::consume_val(s).ok())?;
                        ("consume_val".to_string(), fval.map(|v| (v.to_string(), rest())), got.map(|(v, r)| (v.to_string(), r)))
                    } else {
                        let v = ask(src, fval.or(fname), &pool);
                        let got = sut(|| ast::consume_this_value(&v, s).ok())?;
                        (format!("consume_this_value({:?})", v), fval.filter(|x| *x == v).map(|x| (x.to_string(), rest())), got.map(|r| (v.clone(), r)))
                    };
                    log.push_str(&what);
                    log.push(' ');
                    res(&what, want.clone(), got.clone().map(|(v, r)| (v, ts(r))))?;
                    match (want, got) {
                        (Some((_, mr)), Some((_, sr))) => {
                            won += 1;
                            stack.pop();
                            stack.push((mr, sr));
                        }
                        _ => refused += 1,
                    }
                }
                3 => {
                    log.push_str("split_first_nodes ");
                    let got = sut(|| ast::split_first_nodes(s).ok())?;
                    let want = first.clone().map(|f| (f, rest()));
                    res("split_first_nodes", want.clone(), got.map(|(n, r)| (from_node(n), ts(r))))?;
                    if let (Some((_, mr)), Some((_, sr))) = (want, got) {
                        stack.pop();
                        stack.push((mr, sr));
                    }
                }
                4 => {
                    log.push_str("peek_first_node ");
                    res("peek_first_node", first.clone(), sut(|| ast::peek_first_node(s).ok().map(from_node))?)?;
                }
                5 => {
                    log.push_str("check_empty_nodes ");
                    res("check_empty_nodes", if m.is_empty() { Some(()) } else { None }, sut(|| ast::check_empty_nodes(s).ok())?)?;
                }
                6 => {
                    log.push_str("get_nodes_unique_val ");
                    let want = if m.len() == 1 { fval.map(|s| s.to_string()) } else { None };
                    res("get_nodes_unique_val", want, sut(|| ast::get_nodes_unique_val(s).ok().map(|s| s.to_string()))?)?;
                }
                k => {
                    // the single nodes
                    log.push_str("nodes ");
                    for (mn, sn) in m.iter().zip(s.iter()).take(4) {
                        let v = if let T::Val(v) = mn { Some(v.clone()) } else { None };
                        res("get_node_val", v, sut(|| ast::get_node_val(sn).ok().map(|s| s.to_string()))?)?;
                        let r = if let T::Rule(n, k) = mn { Some((n.clone(), k.clone())) } else { None };
                        res("get_nodename_and_nodes", r, sut(|| ast::get_nodename_and_nodes(sn).ok().map(|(n, v)| (n.to_string(), ts(v))))?)?;
                        // a list of this node only
                        let one = std::slice::from_ref(sn);
                        let want = if let T::Val(v) = mn { Some(v.clone()) } else { None };
                        res("get_nodes_unique_val", want, sut(|| ast::get_nodes_unique_val(one).ok().map(|s| s.to_string()))?)?;
                    }
                    if k == 8 {
                        stack.pop();
                    }
                }
            }
        }
        Ok(())
    };
    let r = run();
    ctx.note(|| format!("calls: {}", clip(&log, 800)));
    r.map_err(|m| format!("tree: {}\ncalls: {}\n{}", clip(&show_t(&t), 2000), clip(&log, 2000), m))?;
    ctx.label_if(won > 3, "more than three consumptions");
    ctx.label_if(refused > 0, "refused calls");
    ctx.eval(won > 1 && refused > 0, mix(&[hash_str(&show_t(&t)), hash_str(&log)]));
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20",
    rule: "flattened random trees, or random lists of flat nodes; sequences of up to 60 calls of all helpers of ast::flat, with right, nearly right and wrong names and values; every result compared with a list model. Non-trivial: at least three successful consumptions and one refusal; distinct by list and calls",
    quick: 800_000,
    thorough: 3_000_000,
    case: c20,
    fixed: &[("words that look alike", f_c20_alike)],
    special: None,
    child: None,
    assumptions: &[TREES],
    cpu_secs: 60,
};

fn fs(v: &[flat::Node]) -> Vec<F> {
    v.iter().map(from_flat).collect()
}
fn c20(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (list, mut pool): (Vec<F>, Vec<String>) = if src.chance(2, 3) {
        let (t, mut names, vals) = gen_any_tree(src);
        names.extend(vals);
        (t_flatten(&t), names)
    } else {
        let (names, vals) = tree_words(src);
        let n = src.range(0, 12);
        let l = (0..n)
            .map(|_| match src.below(4) {
                0 => F::Val(src.pick(&vals).clone()),
                1 => F::Begin(src.pick(&names).clone()),
                2 => F::End(src.pick(&names).clone()),
                _ => F::Eof,
            })
            .collect();
        (l, names)
    };
    pool.push("nope".into());
    let owned: Vec<flat::Node> = list.iter().map(to_flat).collect();
    let mut s: &[flat::Node] = &owned;
    let mut m: &[F] = &list;
    let mut log = String::new();
    let (mut won, mut refused) = (0, 0);
    let steps = src.range(1, 60);
    ctx.note(|| format!("list: {}", clip(&format!("{:?}", list), 600)));
    let mut run = || -> CaseResult {
        for _ in 0..steps {
            let first = m.first();
            let word = match first {
                Some(F::Val(s)) | Some(F::Begin(s)) | Some(F::End(s)) => Some(s.as_str()),
                _ => None,
            };
            // mostly the call that fits
            let fit = match first {
                Some(F::Begin(_)) => 0,
                Some(F::End(_)) => 1,
                Some(F::Val(_)) => 2 + src.below(2) as usize,
                _ => 4,
            };
            let op = if src.chance(1, 3) { src.below(7) as usize } else { fit };
            let rest = |ok: bool| if ok { Some(m[1..].to_vec()) } else { None };
            let (what, want, got): (String, Option<Vec<F>>, Option<&[flat::Node]>) = match op {
                0 => {
                    let w = ask(src, word, &pool);
                    let got = sut(|| flat::consume_node_start_rule_name(&w, s).ok())?;
                    (format!("consume_node_start_rule_name({:?})", w), rest(first == Some(&F::Begin(w))), got)
                }
                1 => {
                    let w = ask(src, word, &pool);
                    let got = sut(|| flat::consume_node_end_rule_name(&w, s).ok())?;
                    (format!("consume_node_end_rule_name({:?})", w), rest(first == Some(&F::End(w))), got)
                }
                2 => {
                    let w = ask(src, word, &pool);
                    let got = sut(|| flat::consume_this_value(&w, s).ok())?;
                    (format!("consume_this_value({:?})", w), rest(first == Some(&F::Val(w))), got)
                }
                3 => {
                    let got = sut(|| flat::consume_val(s).ok())?;
                    if let (Some((v, _)), Some(F::Val(x))) = (got, first) {
                        if v != x {
                            return Err(format!("consume_val: expected the value {:?}\ngot {:?}", x, v));
                        }
                    }
                    ("consume_val".into(), rest(matches!(first, Some(F::Val(_)))), got.map(|g| g.1))
                }
                4 => {
                    let got = sut(|| flat::split_first_nodes(s).ok())?;
                    if let Some((n, _)) = got {
                        res("split_first_nodes", first.cloned(), Some(from_flat(n)))?;
                    }
                    ("split_first_nodes".into(), rest(first.is_some()), got.map(|g| g.1))
                }
                _ => {
                    log.push_str("peek_first_node ");
                    res("peek_first_node", first.cloned(), sut(|| flat::peek_first_node(s).ok().map(from_flat))?)?;
                    for (mn, sn) in m.iter().zip(s.iter()).take(3) {
                        let v = if let F::Val(v) = mn { Some(v.clone()) } else { None };
                        res("get_node_val", v, sut(|| flat::get_node_val(sn).ok().map(|s| s.to_string()))?)?;
                        let n = match mn {
                            F::Begin(n) | F::End(n) => Some(n.clone()),
                            _ => None,
                        };
                        res("get_nodename", n, sut(|| flat::get_nodename(sn).ok().map(|s| s.to_string()))?)?;
                    }
                    continue;
                }
            };
            log.push_str(&what);
            log.push(' ');
            res(&what, want.clone(), got.map(fs))?;
            match (want, got) {
                (Some(_), Some(g)) => {
                    won += 1;
                    m = &m[1..];
                    s = g;
                }
                _ => refused += 1,
            }
        }
        Ok(())
    };
    let r = run();
    ctx.note(|| format!("calls: {}", clip(&log, 800)));
    r.map_err(|e| format!("list: {}\ncalls: {}\n{}", clip(&format!("{:?}", list), 2000), clip(&log, 2000), e))?;
    ctx.label_if(won > 8, "more than eight consumptions");
    ctx.label_if(refused > 0, "refused calls");
    ctx.eval(won > 2 && refused > 0, mix(&[hash_str(&format!("{:?}", list)), hash_str(&log)]));
    Ok(())
}
