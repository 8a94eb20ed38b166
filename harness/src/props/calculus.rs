//! derivatives, simplification, histories of operations on shared expressions

use super::*;
use crate::runner::in_child;
use calcu_rs::algos::{CostFn, ExprCost};
use calcu_rs::SymbolicExpr;

fn sum(v: Vec<T>) -> T {
    T::Sum(Style::Raw, v)
}
fn prod(v: Vec<T>) -> T {
    T::Prod(Style::Raw, v)
}
fn pw(a: T, n: T) -> T {
    T::Pow(Style::Raw, Box::new(a), Box::new(n))
}
fn f(k: Fk, a: &T) -> T {
    T::F(k, Box::new(a.clone()))
}
fn sq(a: &T) -> T {
    pw(a.clone(), int(2))
}
fn ln(a: &T) -> T {
    T::Log(Base::E, Box::new(a.clone()))
}

/// the textbook derivative
pub fn diff(t: &T, x: &str) -> T {
    if !t.vars().contains(x) {
        return int(0);
    }
    match t {
        T::V(_) => int(1),
        T::Sum(_, v) => sum(v.iter().map(|a| diff(a, x)).collect()),
        T::Sub(a, b) => sum(vec![diff(a, x), prod(vec![int(-1), diff(b, x)])]),
        T::Prod(_, v) => sum(
            (0..v.len())
                .map(|i| {
                    let mut w = v.clone();
                    w[i] = diff(&v[i], x);
                    prod(w)
                })
                .collect(),
        ),
        T::Div(_, a, b) => diff(&prod(vec![(**a).clone(), pw((**b).clone(), int(-1))]), x),
        T::Pow(_, b, e) => {
            let de = diff(e, x);
            let by_base = prod(vec![
                (**e).clone(),
                pw((**b).clone(), sum(vec![(**e).clone(), int(-1)])),
                diff(b, x),
            ]);
            if de == int(0) {
                by_base
            } else if !b.vars().contains(x) {
                prod(vec![t.clone(), ln(b), de])
            } else {
                sum(vec![by_base, prod(vec![t.clone(), ln(b), de])])
            }
        }
        T::Sqrt(a) => diff(&pw((**a).clone(), T::Q(1, 2)), x),
        T::Exp(a) => prod(vec![t.clone(), diff(a, x)]),
        T::Log(b, a) => {
            let base = match b {
                Base::E => T::E,
                Base::Pi => T::Pi,
                Base::Q(n, d) => T::Q(*n, *d),
            };
            prod(vec![diff(a, x), pw((**a).clone(), int(-1)), pw(ln(&base), int(-1))])
        }
        T::F(k, a) => {
            let one_minus_sq = sum(vec![int(1), prod(vec![int(-1), sq(a)])]);
            let one_plus_sq = sum(vec![int(1), sq(a)]);
            // |a| sqrt(a^2 - 1), written so that it holds on both sides of zero
            let minus_inv_sq = prod(vec![int(-1), pw((**a).clone(), int(-2))]);
            let sec = prod(vec![sq(a), pw(sum(vec![int(1), minus_inv_sq]), T::Q(1, 2))]);
            let neg = |t: T| prod(vec![int(-1), t]);
            let outer = match k {
                Fk::Sin => f(Fk::Cos, a),
                Fk::Cos => neg(f(Fk::Sin, a)),
                Fk::Tan => pw(f(Fk::Cos, a), int(-2)),
                Fk::Sec => prod(vec![f(Fk::Sin, a), pw(f(Fk::Cos, a), int(-2))]),
                Fk::Cot => neg(pw(f(Fk::Sin, a), int(-2))),
                Fk::Csc => neg(prod(vec![f(Fk::Cos, a), pw(f(Fk::Sin, a), int(-2))])),
                Fk::ArcSin => pw(one_minus_sq, T::Q(-1, 2)),
                Fk::ArcCos => neg(pw(one_minus_sq, T::Q(-1, 2))),
                Fk::ArcTan => pw(one_plus_sq, int(-1)),
                Fk::ArcCot => neg(pw(one_plus_sq, int(-1))),
                Fk::ArcSec => pw(sec, int(-1)),
                Fk::ArcCsc => neg(pw(sec, int(-1))),
            };
            prod(vec![outer, diff(a, x)])
        }
        _ => int(0),
    }
}

// ------------------------------------------------------------ C16

fn c16_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier).min(3);
    let (op, mut g) = match s.weighted(&[3, 5, 2]) {
        0 => ("rational function", G::rational()),
        1 => ("function", full()),
        _ => (
            "polynomial",
            G::polynomial(),
        ),
    };
    if s.chance(150) {
        g.vars = XY;
    }
    let mut c = Case::new(op, vec![gen_small(s, d, 120, &|s, d| g.top(s, d))]);
    c.ss = vec![if s.chance(30) { "n" } else { s.pick(g.vars) }.to_string()];
    if s.chance(50) {
        // by a function, sum or power
        let mut v = vec![];
        fn sub(t: &T, v: &mut Vec<T>) {
            if matches!(t, T::F(..) | T::Log(..) | T::Sum(..) | T::Pow(..)) && !t.vars().is_empty() {
                v.push(t.clone());
            }
            t.kids().into_iter().for_each(|k| sub(k, v));
        }
        sub(&c.ts[0], &mut v);
        let x = T::F(*s.pick(&ALL_FK), Box::new(var("x")));
        let by = if v.is_empty() { x } else { v.swap_remove(s.below(v.len())) };
        c.op = "by a subexpression".into();
        c.ts.push(by);
    }
    c
}
fn replace(t: &T, from: &T, to: &T) -> T {
    if canon(t) == *from {
        return to.clone();
    }
    map_kids(t, &mut |k| replace(k, from, to))
}
/// the derivative by a function, sum or power is the one by a symbol in its place
fn by_subexpression(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let (e, x) = (build(&c.ts[0]), build(&c.ts[1]));
    let (v, by) = (view(&e), view(&x));
    if !matches!(by, T::F(..) | T::Log(..) | T::Sum(..) | T::Pow(..)) || by.vars().is_empty() {
        return Ok(());
    }
    let d = view(&e.derivative(&x));
    let w = replace(&v, &canon(&by), &var("mm"));
    let want = replace(&diff(&w, "mm"), &var("mm"), &by);
    let want = sum(vec![want, prod(vec![int(0), v.clone()])]);
    let m = crate::eval::same_value(&want, &d, true, false).map_err(|m| format!("{m}; derivative by {by}: {d}"))?;
    if m.conclusive() {
        cx.nt(w.vars().contains("mm"));
    } else {
        cx.hit("value comparison undecided");
    }
    Ok(())
}
fn c16_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    if c.op == "by a subexpression" {
        return by_subexpression(c, cx);
    }
    let t = t0(c);
    let e = build(t);
    let x = &c.ss[0];
    let v = Expr::var(x);
    let d = e.derivative(&v);
    // no value where the expression itself has none
    let want = sum(vec![diff(t, x), prod(vec![int(0), t.clone()])]);
    let vd = view(&d);
    ensure(view(&e.derivative(v.clone())) == vd, || "by value".into())?;
    let pos = needs_pos(t) || t.any(&|t| matches!(t, T::F(Fk::ArcSin | Fk::ArcCos | Fk::ArcSec | Fk::ArcCsc, _)));
    let fp = c.op != "function";
    let m = crate::eval::same_value(&want, &vd, pos, fp).map_err(|m| format!("{m}; derivative by {x}: {vd}"))?;
    if m.conclusive() {
        cx.nt(t.ops() >= 2 && t.vars().contains(x));
    } else {
        cx.hit("value comparison undecided");
    }
    Ok(())
}

// ------------------------------------------------------------ C26

const OPS: &[(&str, fn(&Expr) -> Expr)] = &[
    ("expand", Expr::expand),
    ("expand_exponential", Expr::expand_exponential),
    ("expand_trig", Expr::expand_trig),
    ("expand_ln", Expr::expand_ln),
    ("contract_trig", Expr::contract_trig),
    ("rationalize", Expr::rationalize),
    ("factor_out", Expr::factor_out),
    ("cancel", Expr::cancel),
];

/// the logarithm of a product becomes a sum, which the functions around it multiply out
fn log_in_nested(t: &T, depth: u32) -> bool {
    let depth = depth + matches!(t, T::F(..)) as u32;
    matches!(t, T::Log(_, a) if depth > 1 && a.ops() > 0) || t.kids().into_iter().any(|k| log_in_nested(k, depth))
}
/// logarithms of products as sums
fn split_logs(t: &T) -> T {
    match t {
        T::Log(b, a) => match &**a {
            T::Prod(st, v) => T::Sum(*st, v.iter().map(|a| split_logs(&T::Log(*b, Box::new(a.clone())))).collect()),
            T::Div(_, n, d) => {
                let parts = [n, d].map(|a| split_logs(&T::Log(*b, a.clone())));
                T::Sum(Style::Raw, parts.to_vec())
            }
            T::Pow(st, a, e) => T::Prod(*st, vec![split_logs(e), split_logs(&T::Log(*b, a.clone()))]),
            _ => map_kids(t, &mut split_logs),
        },
        _ => map_kids(t, &mut split_logs),
    }
}
fn c26_gen(s: &mut Src, tier: Tier) -> Case {
    let d = 1 + s.below(if tier == Tier::Quick { 3 } else { 4 }) as u32;
    let lim = 5 << s.below(2);
    let mut g = match s.weighted(&[3, 3, 3]) {
        0 => G::rational(),
        1 => int_exps(),
        _ => full(),
    };
    g.max_pow = 3;
    g.max_int = 4;
    // simplify expands and multiplies out up to ten times in a row
    let small = |t: &T| crate::eval::expansion_size(&split_logs(t)).1 <= 2 * lim && crate::eval::trig_size(&split_logs(t)).1 <= 2 * lim && t.size() <= 20 && fractions(t) <= 3 && !log_in_nested(t, 0);
    let mut t = g.leaf(s);
    for k in 0..9 {
        let c = g.real(s, (d + 1).saturating_sub(k / 3).max(1));
        if small(&c) {
            t = c;
            break;
        }
    }
    Case::new("simplify", vec![t])
}
fn c26_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let t = t0(c);
    let e = build(t);
    let v = view(&e);
    let l = e.simplify();
    if e.is_irreducible() {
        return ensure(l.is_empty(), || format!("{v} has {} alternatives", l.len()));
    }
    ensure(!l.is_empty(), || format!("{v} has no alternatives"))?;
    let vs: Vec<T> = l.iter().map(view).collect();
    cx.nt(l.len() >= 2);
    let plain = !t.any(&|t| matches!(t, T::F(..) | T::Log(..) | T::Exp(_)));
    for r in &vs {
        crate::eval::same_value(t, r, needs_pos(t), plain).map_err(|m| format!("{m}; alternative {r} of {v}"))?;
    }
    let cost: Vec<usize> = vs.iter().map(|v| v.size()).collect();
    for (e, c) in l.iter().zip(&cost) {
        ensure(ExprCost::cost(e) == *c, || format!("cost of {} is {}", view(e), ExprCost::cost(e)))?;
    }
    ensure(cost.windows(2).all(|w| w[0] <= w[1]), || format!("alternatives of {v} are not sorted by cost: {cost:?}"))?;
    let mut cs: Vec<T> = vs.iter().map(canon).collect();
    cs.sort();
    ensure(cs.windows(2).all(|w| w[0] != w[1]), || format!("alternatives of {v} are not distinct"))?;
    for (name, op) in OPS {
        let r = canon(&view(&op(&e).reduce()));
        ensure(cs.binary_search(&r).is_ok(), || format!("{r}, the reduced {name} of {v}, is not among its alternatives"))?;
    }
    let again = e.simplify();
    ensure(again.iter().map(view).collect::<Vec<_>>() == vs, || format!("simplifying {v} again gives something else"))
}

// ------------------------------------------------------------ C27

const N_OPS: usize = 36;
/// one library operation on (shared) operands
fn apply(k: usize, a: &Expr, b: &Expr, n: i128) -> Expr {
    match k {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => Expr::pow(a, Expr::from(n)),
        5 => a.reduce(),
        6 => a.expand(),
        7 => a.sort_args(),
        8 => a.factor_out(),
        9 => a.cancel(),
        10 => a.rationalize(),
        11 => a.expand_main_op(),
        12 => a.distribute(),
        13 => a.derivative(Expr::var(if n < 0 { "y" } else { "x" })),
        14 => a.substitude(&Expr::var(if n < 0 { "y" } else { "x" }), b),
        15 => a.numerator(),
        16 => a.denominator(),
        17 => Expr::add_raw(a, b),
        18 => Expr::mul_raw(a, b),
        19 => Expr::sin(a),
        20 => {
            let mut z = a.clone();
            z += b;
            z -= a;
            z
        }
        21 => {
            let mut z = a.clone();
            z *= b;
            z /= Expr::from(2);
            z
        }
        22 => {
            let mut z = a.clone();
            z.args_mut().reverse();
            z
        }
        23 => {
            let mut z = a.clone();
            z.for_each_compl_sub_expr(|x| {
                if x.is_zero() || x.is_one() || x.is_min_one() {
                    *x = Expr::var("u")
                }
            });
            z
        }
        24 => {
            let mut z = a.clone();
            *z.atom_mut() = b.atom().clone();
            z
        }
        25 => a.clone().map_args(|x| *x = Expr::two() * &*x),
        26 => a.expand_trig(),
        27 => a.substitute_trig(),
        28 => a.contract_trig(),
        29 => a.expand_exponential(),
        30 => a.expand_ln(),
        31 => a.substitude(b, &Expr::from(n)),
        32 => Expr::pow_raw(a, Expr::from(n)),
        33 => Expr::cos(b),
        34 => Expr::div_raw(a, b),
        _ => Expr::common_factors(a, b),
    }
}
fn c27_gen(s: &mut Src, _: Tier) -> Case {
    let mut g = if s.chance(60) { anything(s) } else { int_exps() };
    g.vars = XY;
    g.max_pow = 2;
    let n = 2 + s.below(2);
    let mut ts: Vec<T> = (0..n).map(|_| g.real(s, 2)).collect();
    // the shared constants take part
    ts.push(int(s.range(-2, 2)));
    let steps = 3 + s.below(8);
    let ns = (0..steps)
        .flat_map(|_| [s.below(N_OPS) as i128, s.below(12) as i128, s.below(12) as i128, s.range(-2, 3)])
        .collect();
    Case {
        op: "history".into(),
        ts,
        ns,
        ..Case::default()
    }
}
fn history(c: &Case) -> Result<String, String> {
    let consts = || -> Vec<Expr> {
        vec![
            Expr::zero(),
            Expr::one(),
            Expr::two(),
            Expr::min_one(),
            Expr::min_two(),
            Expr::pi(),
            Expr::e(),
            Expr::undef(),
        ]
    };
    let want_consts = [int(0), int(1), int(2), int(-1), int(-2), T::Pi, T::E, T::Undef];
    let shared = |t: &T| -> Expr {
        match t {
            T::Q(n, 1) if (-2..=2).contains(n) => consts()[[4usize, 3, 0, 1, 2][(*n + 2) as usize]].clone(),
            t => build(t),
        }
    };
    let mut pool: Vec<Expr> = c.ts.iter().map(shared).collect();
    let mut snap: Vec<T> = pool.iter().map(view).collect();
    let mut log = vec![];
    for st in c.ns.chunks(4) {
        let (k, i, j) = (st[0] as usize % N_OPS, st[1] as usize % pool.len(), st[2] as usize % pool.len());
        let (a, b) = (pool[i].clone(), pool[j].clone());
        let (va, vb) = (&snap[i], &snap[j]);
        let (n, w) = crate::eval::expansion_size(va);
        let m = crate::eval::expansion_size(vb).0;
        if va.size() > 120 || vb.size() > 120 || w > 120 || n * m > 120 {
            continue;
        }
        let r = apply(k, &a, &b, st[3]);
        let vr = view(&r);
        log.push(format!("{k}\t{va}\t{vb}\t{}\t{vr}", st[3]));
        // comparisons and printing are part of the history, too
        let _ = (a == b, a < r, a.to_string(), a.variables().len());
        for (p, s) in pool.iter().zip(&snap) {
            ensure(view(p) == *s, || format!("operation {k} on {va} and {vb} changed {s} into {}", view(p)))?;
        }
        for (e, w) in consts().iter().zip(&want_consts) {
            ensure(view(e) == *w, || format!("operation {k} on {va} and {vb} changed the constant {w} into {}", view(e)))?;
        }
        // the same on unshared operands, after everything that happened before
        let fresh = apply(k, &build(va), &build(vb), st[3]);
        ensure(view(&fresh) == vr, || {
            format!("operation {k} on {va} and {vb} gives {vr}, on fresh copies {}", view(&fresh))
        })?;
        pool.push(r);
        snap.push(vr);
    }
    Ok(log.join("\n"))
}

/// The history runs in a process in which the library was not used before, and one of its
/// steps once more in another one: whatever is remembered anywhere must not matter.
fn c27_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let out = in_child(|| history(c))?;
    if out == "integer overflow" {
        cx.discard = Some("integer overflow");
        return Ok(());
    }
    let steps: Vec<&str> = out.lines().collect();
    cx.nt(steps.len() >= 3);
    if steps.len() * 4 < c.ns.len() {
        cx.hit("step skipped (size)");
    }
    // functions, derivatives, substitutions and rewriting, preferably late ones
    let k = c.ns.iter().sum::<i128>().unsigned_abs() as usize;
    let n = steps.len();
    if n < 2 {
        return Ok(());
    }
    let i = n - 1 - (k % n).min(n / 2);
    let f: Vec<&str> = steps[i].split('\t').collect();
    let (Ok(k), Ok(a), Ok(b), Ok(m)) = (f[0].parse(), parse_t(f[1]), parse_t(f[2]), f[3].parse()) else {
        return Err(format!("unreadable step {}", steps[i]));
    };
    cx.hit("step repeated in a fresh process");
    let alone = in_child(|| Ok(view(&apply(k, &build(&a), &build(&b), m)).to_string()))?;
    ensure(alone == f[4], || format!("operation {k} on {a} and {b} gives {} after {i} other operations, but {alone} in a fresh process", f[4]))
}

pub fn props() -> Vec<Prop> {
    const VAL: &[&str] = &["values are compared at points of a 61-bit prime field and at real points by interval arithmetic"];
    vec![
        Prop {
            id: "C16",
            gen: c16_gen,
            check: c16_check,
            quick: 1_800_000,
            thorough: 40_000_000,
            rule: "the value comparison was decisive, the expression contains the variable and at least two operations",
            assumptions: &[
                "values are compared at points of a 61-bit prime field (rational functions) and at real points by interval arithmetic",
                "derivatives by variables only",
            ],
        },
        Prop {
            id: "C26",
            gen: c26_gen,
            check: c26_check,
            quick: 400_000,
            thorough: 2_000_000,
            rule: "at least two alternatives",
            assumptions: VAL,
        },
        Prop {
            id: "C27",
            gen: c27_gen,
            check: c27_check,
            quick: 100_000,
            thorough: 2_000_000,
            rule: "at least three operations were carried out",
            assumptions: &["steps whose operands became larger than 120 nodes or would expand to more than 120 terms are skipped"],
        },
    ]
}
