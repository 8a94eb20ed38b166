use crate::choice::Src;
use crate::eval::{same_value, Cmp};
pub use crate::gen::{needs_pos, StyleMode, G, SINCOS, TRIG, XY, XYZ};
use crate::runner::{Case, Cx, Prop, Tier};
use crate::term::*;
use calcu_rs::Expr;

mod calculus;
mod construct;
mod norm;
mod order;
mod poly;
mod number;
mod rewrite;
mod text;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(number::props());
    v.extend(calculus::props());
    v.extend(order::props());
    v.extend(poly::props());
    v.extend(construct::props());
    v.extend(rewrite::props());
    v.extend(norm::props());
    v.extend(text::props());
    v
}

pub fn depth(s: &mut Src, tier: Tier) -> u32 {
    match tier {
        Tier::Quick => [1, 2, 2, 2, 3, 3, 3, 3, 4, 4][s.below(10)],
        Tier::Thorough => [2, 3, 3, 3, 4, 4, 4, 5][s.below(8)],
    }
}

/// `res` must have the value of `t`; records whether the comparison decided anything
pub fn value_eq(cx: &mut Cx, t: &T, res: &Expr, fp: bool) -> Result<Cmp, String> {
    value_eq_at(cx, t, res, fp, needs_pos(t))
}
/// for positive variables only if `pos`
pub fn value_eq_at(cx: &mut Cx, t: &T, res: &Expr, fp: bool, pos: bool) -> Result<Cmp, String> {
    let r = view(res);
    let c = same_value(t, &r, pos, fp).map_err(|m| format!("{m}; result {r}"))?;
    if c.conclusive() {
        cx.nt(t.ops() >= 2);
        if r != view(&build(t)) {
            cx.hit("rewritten");
        }
    } else {
        cx.hit("value comparison undecided");
    }
    Ok(c)
}

/// first argument of the case
pub fn t0(c: &Case) -> &T {
    &c.ts[0]
}

/// `full`, often with powers and logarithms of anything
pub fn anything(s: &mut Src) -> G {
    G { free: s.chance(128), ..full() }
}
pub fn full() -> G {
    G::default()
}
/// rational functions and real functions, integer exponents only
pub fn int_exps() -> G {
    G {
        roots: false,
        symexp: false,
        ..G::default()
    }
}

/// weight of the denominators: those with more than one term multiply everything else
pub fn fractions(t: &T) -> u32 {
    let weigh = |b: &T| match b {
        T::Q(..) => 0,
        b if b.any(&|t| matches!(t, T::Sum(..) | T::Sub(..))) => 3,
        _ => 1,
    };
    let me = match t {
        T::Div(_, _, b) => weigh(b),
        T::Pow(_, b, e) if !matches!(**e, T::Q(n, _) if n > 0) => weigh(b),
        T::F(Fk::Tan | Fk::Sec | Fk::Cot | Fk::Csc, a) => 1 + 2 * (!matches!(**a, T::V(_))) as u32,
        _ => 0,
    };
    me + t.kids().into_iter().map(fractions).sum::<u32>()
}

/// the tree the library builds for `t`; `t` itself where building it panics
pub fn try_view(t: &T) -> T {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| view(&build(t)))).unwrap_or_else(|_| t.clone())
}

/// generate; when the expansion of the result would be huge, generate smaller
pub fn gen_small(s: &mut Src, d: u32, limit: u64, f: &dyn Fn(&mut Src, u32) -> T) -> T {
    for k in (0..=d).rev() {
        let t = f(s, k);
        if crate::eval::expansion_size(&t).1 <= limit {
            return t;
        }
    }
    var("x")
}

pub fn gen_trig(s: &mut Src, d: u32, limit: u64, f: &dyn Fn(&mut Src, u32) -> T) -> T {
    for k in (0..=d).rev() {
        let t = f(s, k);
        if crate::eval::trig_size(&t).1 <= limit {
            return t;
        }
    }
    var("x")
}

/// rebuild `t` with `f` applied to the children
pub fn map_kids(t: &T, f: &mut dyn FnMut(&T) -> T) -> T {
    match t {
        T::Sum(st, v) => T::Sum(*st, v.iter().map(f).collect()),
        T::Prod(st, v) => T::Prod(*st, v.iter().map(f).collect()),
        T::Pow(st, a, b) => {
            let a = f(a);
            T::Pow(*st, Box::new(a), Box::new(f(b)))
        }
        T::Sub(a, b) => {
            let a = f(a);
            T::Sub(Box::new(a), Box::new(f(b)))
        }
        T::Div(st, a, b) => {
            let a = f(a);
            T::Div(*st, Box::new(a), Box::new(f(b)))
        }
        T::F(k, a) => T::F(*k, Box::new(f(a))),
        T::Log(k, a) => T::Log(*k, Box::new(f(a))),
        T::Exp(a) => T::Exp(Box::new(f(a))),
        T::Sqrt(a) => T::Sqrt(Box::new(f(a))),
        _ => t.clone(),
    }
}

/// the same expression with the arguments of sums and products shuffled
pub fn shuffle(t: &T, s: &mut Src) -> T {
    let t = map_kids(t, &mut |a| shuffle(a, s));
    match t {
        T::Sum(st, mut v) => {
            mix_vec(&mut v, s);
            T::Sum(st, v)
        }
        T::Prod(st, mut v) => {
            mix_vec(&mut v, s);
            T::Prod(st, v)
        }
        t => t,
    }
}
pub fn mix_vec<A>(v: &mut [A], s: &mut Src) {
    for i in (1..v.len()).rev() {
        let j = s.below(i + 1);
        v.swap(i, j);
    }
}

/// representative of everything that only differs in the order of sums and products
pub fn canon(t: &T) -> T {
    let t = map_kids(t, &mut canon);
    match t {
        T::Sum(st, mut v) => {
            v.sort();
            T::Sum(st, v)
        }
        T::Prod(st, mut v) => {
            v.sort();
            T::Prod(st, v)
        }
        t => t,
    }
}

pub fn ensure(b: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(m())
    }
}
