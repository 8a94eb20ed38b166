//! value preservation and result shapes of the rewriting operations

use super::*;
use calcu_rs::{atom::Atom, SymbolicExpr};

type Op = fn(&Expr) -> Expr;

fn apply(c: &Case, f: Op) -> (Expr, Expr) {
    let e = build(t0(c));
    let r = f(&e);
    (e, r)
}

fn raw_sum_pow() -> G {
    G { fns: SINCOS, logs: false, ..full() }
}

/// functions of sums, multiples and powers
fn trig_g() -> G {
    G { fns: SINCOS, logs: false, roots: false, symexp: false, ..full() }
}
fn all_trig_g() -> G {
    G { fns: TRIG, logs: false, roots: false, symexp: false, ..full() }
}
fn exp_g() -> G {
    G { fns: SINCOS, logs: false, symexp: false, ..full() }
}

fn pick_g(s: &mut Src, gs: &[fn() -> G]) -> G {
    (s.pick(gs))()
}

fn gen_from(s: &mut Src, tier: Tier, limit: u64, op: &str, gs: &[fn() -> G]) -> Case {
    let d = depth(s, tier);
    let g = pick_g(s, gs);
    if g.roots && op.starts_with("reduce") && s.chance(16) {
        return Case::new(op, vec![gen_small(s, d, limit, &|s, d| g.with_signed_root(s, d))]);
    }
    Case::new(op, vec![gen_small(s, d, limit, &|s, d| g.top(s, d))])
}
fn gen_trig_from(s: &mut Src, tier: Tier, limit: u64, op: &str, gs: &[fn() -> G]) -> Case {
    let d = depth(s, tier);
    let g = pick_g(s, gs);
    Case::new(op, vec![gen_trig(s, d, limit, &|s, d| g.top(s, d))])
}

// ------------------------------------------------------------ C04

fn c04_gen(s: &mut Src, tier: Tier) -> Case {
    let op = if s.chance(40) { "reduce on the top node" } else { "reduce" };
    gen_from(s, tier, 400, op, &[full, full, int_exps, G::rational])
}
/// reduce of the operation on top, whose operands need not be reduced
fn reduce_top(e: &Expr) -> Expr {
    match e.atom() {
        Atom::Sum(a) => a.reduce(),
        Atom::Prod(a) => a.reduce(),
        Atom::Pow(a) => a.reduce(),
        Atom::Func(a) => a.reduce(),
        Atom::Rational(a) => a.reduce(),
        Atom::Irrational(a) => a.reduce(),
        Atom::Var(a) => a.reduce(),
        Atom::Undef => e.clone(),
    }
}
fn c04_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let (_, r) = apply(c, if c.op == "reduce" { Expr::reduce } else { reduce_top });
    value_eq(cx, t0(c), &r, true)?;
    Ok(())
}

// ------------------------------------------------------------ C08

/// no product of sums and no positive integer power of a sum or product is left
fn expanded(t: &T) -> Result<(), String> {
    let is_sum = |t: &T| matches!(t, T::Sum(_, v) if v.len() > 1);
    match t {
        T::Prod(_, v) => ensure(!v.iter().any(is_sum), || format!("sum inside a product: {t}"))?,
        T::Pow(_, b, e) => {
            let pos_int = matches!(**e, T::Q(n, 1) if n > 1);
            ensure(!(pos_int && is_sum(b)), || format!("power of a sum: {t}"))?;
            ensure(!matches!(**b, T::Prod(..)), || format!("power of a product: {t}"))?;
        }
        _ => (),
    }
    t.kids().into_iter().try_for_each(expanded)
}
fn c08_gen(s: &mut Src, tier: Tier) -> Case {
    if s.chance(8) {
        // long powers of short sums, alone or inside something else
        let g = G { neg_pow: false, roots: false, symexp: false, ..full() };
        let st = if s.chance(128) { Style::Raw } else { Style::Smart };
        let n = s.range(4, 14);
        let b = T::Sum(st, (0..2 + (n < 8 && s.chance(128)) as usize).map(|_| g.leaf(s)).collect());
        let p = T::Pow(st, Box::new(b), Box::new(int(n)));
        let t = match s.below(4) {
            0 => T::Sum(st, vec![p, g.leaf(s)]),
            1 => T::Prod(st, vec![g.leaf(s), p]),
            _ => p,
        };
        return Case::new("shape", vec![t]);
    }
    if s.chance(90) {
        // polynomials in a few functions and variables
        let d = depth(s, tier);
        let g = G { neg_pow: false, roots: false, symexp: false, ..full() };
        return Case::new("shape", vec![gen_small(s, d, 400, &|s, d| g.top(s, d))]);
    }
    gen_from(s, tier, 400, "expand", &[full, int_exps, G::rational, raw_sum_pow])
}
fn c08_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let (_, r) = apply(c, Expr::expand);
    value_eq(cx, t0(c), &r, true)?;
    if c.op == "shape" && !t0(c).any(&|t| matches!(t, T::Div(..))) {
        cx.hit("shape checked");
        expanded(&view(&r.reduce()))?;
    }
    Ok(())
}

// ------------------------------------------------------------ C09

fn c09_gen(s: &mut Src, tier: Tier) -> Case {
    let op = *s.pick(&["expand_main_op", "distribute"]);
    let mut c = gen_from(s, tier, 400, op, &[full, int_exps, G::rational, raw_sum_pow]);
    if s.chance(160) {
        // a power or product of sums on top
        let d = depth(s, tier).saturating_sub(2);
        let g = full();
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let n = s.upto(1, 3, 8) as usize;
        let sum = |s: &mut Src| {
            let n = if s.far() { 4 + s.below(8) } else { 1 + s.weighted(&[1, 4, 3, 1]) };
            T::Sum(st, (0..n).map(|_| g.pos(s, d)).collect())
        };
        c.ts[0] = if s.chance(128) {
            let e = match s.below(4) {
                0 => T::Q(s.upto(3, 7, 21), [2, 3][s.far() as usize]),
                1 => int(-s.upto(1, 3, 9)),
                _ => int(s.upto(2, 6, 16)),
            };
            let b = if s.chance(60) {
                T::Prod(st, (0..s.upto(2, 2, 9)).map(|_| g.pos(s, d)).collect())
            } else {
                sum(s)
            };
            T::Pow(Style::Raw, Box::new(b), Box::new(e))
        } else {
            let mut v = vec![];
            for _ in 0..=n {
                v.push(if s.chance(110) { g.pos(s, d) } else { sum(s) });
            }
            T::Prod(st, v)
        };
        if crate::eval::expansion_size(&c.ts[0]).1 > 600 {
            c.ts[0] = T::Prod(st, vec![var("x"), T::Sum(st, vec![var("x"), int(1)])]);
        }
        if s.chance(12) {
            c.ts[0] = T::Sum(Style::Raw, vec![c.ts[0].clone()]);
        }
    }
    c
}
/// a reduced product (or power of a sum) with its sums (or the first one) multiplied out
fn distributed(t: &T, first: bool) -> Option<T> {
    let fs: Vec<T> = match t {
        T::Prod(_, v) => v.clone(),
        T::Pow(_, b, e) if !first && matches!(&**b, T::Sum(_, v) if v.len() == 2) => match **e {
            T::Q(n, 1) if (2..=5).contains(&n) => vec![(**b).clone(); n as usize],
            _ => return None,
        },
        _ => return None,
    };
    // the terms below merge in other ways when exponents are fractions or symbols
    if t.any(&|t| matches!(t, T::Pow(_, _, e) if !matches!(**e, T::Q(_, 1)))) {
        return None;
    }
    // nor when two of them hold powers of the same sum: they merge to a sum that is multiplied out in turn
    let factors = |t: &T| match t {
        T::Prod(_, v) => v.clone(),
        t => vec![t.clone()],
    };
    let base = |t: &T| match t {
        T::Pow(_, b, _) => (**b).clone(),
        t => t.clone(),
    };
    let is_sum = |t: &T| matches!(t, T::Sum(..));
    let outer: Vec<T> = fs.iter().map(base).collect();
    let mut seen: Vec<T> = vec![];
    for f in &fs {
        let T::Sum(_, v) = f else { continue };
        let mut own: Vec<T> = vec![];
        for b in v.iter().flat_map(factors).map(|t| base(&t)).filter(is_sum) {
            if seen.contains(&b) || outer.contains(&b) {
                return None;
            }
            own.push(b)
        }
        seen.extend(own);
    }
    let mut done = false;
    let mut out: Vec<Vec<T>> = vec![vec![]];
    for f in fs {
        let terms = match &f {
            T::Sum(_, v) if !(first && done) => {
                done = true;
                v.clone()
            }
            f => vec![f.clone()],
        };
        if out.len() * terms.len() > 200 {
            return None;
        }
        out = out.iter().flat_map(|o| terms.iter().map(move |t| [&o[..], std::slice::from_ref(t)].concat())).collect();
    }
    done.then(|| T::Sum(Style::Raw, out.into_iter().map(|v| T::Prod(Style::Raw, v)).collect()))
}
fn c09_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let f: Op = if c.op == "distribute" { Expr::distribute } else { Expr::expand_main_op };
    let (e, r) = apply(c, f);
    value_eq(cx, t0(c), &r, true)?;
    let red = e.reduce();
    if let Some(x) = distributed(&view(&red), c.op == "distribute") {
        cx.hit("compared with the terms multiplied out");
        let (x, y) = (build(&x).reduce(), f(&red).reduce());
        let several = [&x, &y].iter().any(|e| {
            let v = view(e);
            super::norm::multiple_of_sum(&v) || super::norm::near_limit(&v)
        });
        ensure(x == y || several, || format!("{} instead of the sum of products {}", view(&y), view(&x)))?;
    }
    // only the outermost operation is expanded
    let top = view(&e);
    match &top {
        T::Prod(_, v) if v.len() > 1 && v.iter().any(|a| matches!(a, T::Sum(_, w) if !w.is_empty())) => {
            cx.hit("product of sums");
        }
        T::Pow(_, b, _) if matches!(**b, T::Sum(..)) => cx.hit("power of a sum"),
        T::Sum(_, v) if v.len() != 1 => {
            ensure(view(&r) == top, || format!("a sum on top was changed: {}", view(&r)))?
        }
        // a sum of one term is that term
        T::Sum(_, v) if c.op == "expand_main_op" => {
            cx.hit("sum of one term");
            let want = f(&build(&v[0])).reduce();
            ensure(r.reduce() == want, || format!("{} instead of {}", view(&r), view(&want)))?
        }
        T::F(..) | T::Log(..) | T::V(_) | T::Q(..) => {
            ensure(view(&r) == top, || format!("nothing to expand, but changed: {}", view(&r)))?
        }
        _ => (),
    }
    Ok(())
}

// ------------------------------------------------------------ C10

fn c10_gen(s: &mut Src, tier: Tier) -> Case {
    if s.chance(140) {
        // a function of a linear form
        let g = trig_g();
        let f = if s.chance(128) { Fk::Sin } else { Fk::Cos };
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let n = s.upto(1, 3, 7);
        let v = (0..n)
            .map(|_| {
                let k = int(if s.far() { s.range(-20, 20) } else { s.range(-6, 6) });
                let a = g.real(s, 1);
                T::Prod(st, vec![k, a])
            })
            .collect();
        let t = T::F(f, Box::new(T::Sum(st, v)));
        if crate::eval::trig_size(&t).1 <= 400 {
            return Case::new("expand_trig", vec![t]);
        }
    }
    gen_trig_from(s, tier, 250, "expand_trig", &[full, trig_g, trig_g, all_trig_g])
}
fn c10_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let (_, r) = apply(c, Expr::expand_trig);
    value_eq(cx, t0(c), &r, false)?;
    trig_expanded(&view(&r))
}
/// no sine or cosine of a sum or of an integer multiple is left
fn trig_expanded(t: &T) -> Result<(), String> {
    if let T::F(Fk::Sin | Fk::Cos, a) = t {
        match &**a {
            T::Sum(_, v) if v.len() > 1 => return Err(format!("function of a sum: {t}")),
            T::Prod(_, v) if v.len() > 1 && matches!(v[0], T::Q(n, 1) if n.abs() > 1) => {
                return Err(format!("function of a multiple: {t}"))
            }
            _ => (),
        }
    }
    t.kids().into_iter().try_for_each(trig_expanded)
}

// ------------------------------------------------------------ C11

/// a polynomial in sines and cosines of linear forms and in variables, and the same
/// function written in another way
fn trig_poly(s: &mut Src, d: usize, st: Style, vars: &[&str]) -> (T, T) {
    let lin = |s: &mut Src| {
        let n = 1 + s.below(2);
        let v: Vec<T> = (0..n)
            .map(|_| {
                let x = var(s.pick(vars));
                match s.below(3) {
                    0 => x,
                    _ => T::Prod(st, vec![int(*s.pick(&[-3, -2, -1, 2, 3])), x]),
                }
            })
            .collect();
        if v.len() == 1 { v[0].clone() } else { T::Sum(st, v) }
    };
    if d == 0 || s.chance(40) {
        return match s.below(6) {
            0 => {
                let k = T::Q(s.range(-4, 4), *s.pick(&[1, 1, 2, 3]));
                (k.clone(), k)
            }
            1 => {
                let v = var(s.pick(&["u", "v"]));
                (v.clone(), v)
            }
            _ => {
                let k = if s.chance(128) { Fk::Sin } else { Fk::Cos };
                let a = T::F(k, Box::new(lin(s)));
                if s.chance(100) {
                    // squares by Pythagoras
                    let o = if k == Fk::Sin { Fk::Cos } else { Fk::Sin };
                    let T::F(_, x) = &a else { unreachable!() };
                    let sq = |a: T| T::Pow(st, Box::new(a), Box::new(int(2)));
                    let b = T::Sub(Box::new(int(1)), Box::new(sq(T::F(o, x.clone()))));
                    (sq(a), b)
                } else {
                    (a.clone(), a)
                }
            }
        };
    }
    match s.below(5) {
        0 | 1 => {
            let n = s.upto(2, 3, 4);
            let (mut a, mut b): (Vec<T>, Vec<T>) = (0..n).map(|_| trig_poly(s, d - 1, st, vars)).unzip();
            if s.chance(128) {
                b.reverse();
                let k = s.below(n as usize);
                a.rotate_left(k);
            }
            (T::Sum(st, a), T::Sum(st, b))
        }
        2 | 3 => {
            let n = s.upto(2, 2, 4);
            let (a, mut b): (Vec<T>, Vec<T>) = (0..n).map(|_| trig_poly(s, d - 1, st, vars)).unzip();
            if s.chance(128) {
                b.reverse();
            }
            (T::Prod(st, a), T::Prod(st, b))
        }
        _ => {
            let (a, b) = trig_poly(s, d - 1, st, vars);
            let n = s.upto(2, 3, 5);
            let p = |a: T| T::Pow(st, Box::new(a), Box::new(int(n)));
            (p(a), if s.chance(128) { T::Prod(st, vec![b; n as usize]) } else { p(b) })
        }
    }
}
/// terms with one power of a sine or cosine, or with first and second powers only
fn easy(t: &T) -> bool {
    let term = |t: &T| {
        let fs: Vec<&T> = match t {
            T::Prod(_, v) => v.iter().collect(),
            t => vec![t],
        };
        let e: Vec<i128> = fs
            .iter()
            .filter_map(|t| match t {
                T::F(..) => Some(1),
                T::Pow(_, b, e) if matches!(**b, T::F(..)) => match **e {
                    T::Q(n, 1) => Some(n),
                    _ => Some(99),
                },
                _ => None,
            })
            .collect();
        e.len() < 2 || e.iter().all(|e| (1..=2).contains(e))
    };
    match t {
        T::Sum(_, v) => v.iter().all(term),
        t => term(t),
    }
}
/// no term of a sum contains a power of a sine or cosine, or two of them
fn contracted(t: &T) -> Result<(), String> {
    let terms: Vec<&T> = match t {
        T::Sum(_, v) => v.iter().collect(),
        t => vec![t],
    };
    for t in terms {
        let fs: Vec<&T> = match t {
            T::Prod(_, v) => v.iter().collect(),
            t => vec![t],
        };
        let sc = |t: &&&T| match t {
            T::Pow(_, b, _) => b.any(&|t| matches!(t, T::F(..))),
            t => t.any(&|t| matches!(t, T::F(..))),
        };
        let n: Vec<&&T> = fs.iter().filter(sc).collect();
        let single = |t: &T| matches!(t, T::F(Fk::Sin | Fk::Cos, _));
        ensure(n.is_empty() || n.len() == 1 && single(n[0]), || format!("not contracted: {t}"))?;
    }
    Ok(())
}
fn c11_gen(s: &mut Src, tier: Tier) -> Case {
    if s.chance(60) {
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let d = 1 + s.below(3);
        let one = s.chance(128);
        let (a, b) = trig_poly(s, d, st, if one { &["x"] } else { XY });
        if crate::eval::trig_size(&a).1 <= 150 && crate::eval::trig_size(&b).1 <= 150 {
            return Case::new(if one { "contract to zero" } else { "contract polynomial" }, vec![a, b]);
        }
    }
    if s.chance(6) {
        // high powers
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let g = G { fns: &[], logs: false, roots: false, symexp: false, ..full() };
        let f = |s: &mut Src, n: i128| {
            let k = *s.pick(SINCOS);
            let a = if s.chance(60) { g.real(s, 1) } else { var(s.pick(XY)) };
            T::Pow(st, Box::new(T::F(k, Box::new(a))), Box::new(int(n)))
        };
        let mut v = if s.chance(128) {
            let n = s.range(6, 30);
            vec![f(s, n)]
        } else {
            let (n, m) = (s.range(2, 10), s.range(2, 6));
            vec![f(s, n), f(s, m)]
        };
        if s.chance(100) {
            v.push(g.leaf(s));
        }
        let t = if v.len() == 1 { v.remove(0) } else { T::Prod(st, v) };
        return Case::new("contract_trig", vec![t]);
    }
    if s.chance(150) {
        // products of powers of sines and cosines
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let n = s.upto(1, 4, 7);
        let g = G { fns: &[], logs: false, roots: false, symexp: false, ..full() };
        let mut v: Vec<T> = (0..n)
            .map(|_| {
                let f = if s.chance(128) { Fk::Sin } else { Fk::Cos };
                let a = T::F(f, Box::new(g.real(s, 1)));
                match s.below(4) {
                    0 => a,
                    1 => T::Pow(st, Box::new(a), Box::new(int(s.upto(2, 7, 24)))),
                    2 => T::Pow(st, Box::new(a), Box::new(int(2))),
                    _ => T::Pow(st, Box::new(a), Box::new(int(s.upto(-2, 3, 9)))),
                }
            })
            .collect();
        if s.chance(100) {
            v.push(g.real(s, 1));
        }
        if s.chance(60) {
            let k = g.real(s, 1);
            v = vec![T::Sum(st, vec![k, T::Prod(st, v)]), T::F(Fk::Cos, Box::new(var("x")))];
        }
        let t = T::Prod(st, v);
        if crate::eval::trig_size(&t).1 <= 300 {
            return Case::new("contract_trig", vec![t]);
        }
    }
    gen_trig_from(s, tier, 120, "contract_trig", &[full, trig_g, trig_g, all_trig_g])
}
fn c11_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    if c.op != "contract_trig" {
        let (a, b) = (build(&c.ts[0]), build(&c.ts[1]));
        let flat = |e: Expr| e.expand().reduce();
        let p = flat(a.clone());
        let r = flat(p.contract_trig());
        value_eq(cx, t0(c), &r, false)?;
        let d = flat(a - b);
        if easy(&view(&p)) {
            cx.hit("completely contracted");
            contracted(&view(&r))?;
        }
        if c.op == "contract to zero" && easy(&view(&d)) {
            cx.hit("contracted to zero");
            let z = flat(d.contract_trig());
            ensure(z.is_zero(), || format!("difference of equal functions contracts to {}", view(&z)))?;
        }
        return Ok(());
    }
    let (_, r) = apply(c, Expr::contract_trig);
    value_eq(cx, t0(c), &r, false)?;
    Ok(())
}

// ------------------------------------------------------------ C12

/// an expression that is zero by a well-known identity
fn identity(s: &mut Src) -> T {
    let st = if s.chance(100) { Style::Raw } else { Style::Smart };
    let x = |s: &mut Src| {
        let v = var(s.pick(XY));
        match s.below(6) {
            0 => T::Log(Base::E, Box::new(v)),
            1 => T::F(Fk::ArcTan, Box::new(v)),
            2 => T::Pow(st, Box::new(v), Box::new(int(s.range(2, 4)))),
            _ => v,
        }
    };
    let a = x(s);
    let b = x(s);
    let f = |k: Fk, a: &T| T::F(k, Box::new(a.clone()));
    let sq = |a: T| T::Pow(st, Box::new(a), Box::new(int(2)));
    let prod = |v: Vec<T>| T::Prod(st, v);
    let (sin, cos, tan) = (f(Fk::Sin, &a), f(Fk::Cos, &a), f(Fk::Tan, &a));
    let (sec, csc, cot) = (f(Fk::Sec, &a), f(Fk::Csc, &a), f(Fk::Cot, &a));
    let (sinb, cosb) = (f(Fk::Sin, &b), f(Fk::Cos, &b));
    let dbl = T::Prod(st, vec![int(2), a.clone()]);
    let apb = T::Sum(st, vec![a.clone(), b.clone()]);
    let amb = T::Sum(st, vec![a.clone(), T::Prod(st, vec![int(-1), b.clone()])]);
    // a list of terms that add up to zero
    let m = |k: i128, t: T| T::Prod(st, vec![int(k), t]);
    let k = *s.pick(&[0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]);
    let mut v = match k {
        0 => vec![sq(sin), sq(cos), int(-1)],
        1 => vec![sq(tan), int(1), m(-1, sq(sec))],
        2 => vec![sq(cot), int(1), m(-1, sq(csc))],
        3 => vec![prod(vec![tan, cos]), m(-1, sin)],
        4 => vec![prod(vec![cot, sin]), m(-1, cos)],
        5 => vec![prod(vec![sec, cos]), int(-1)],
        6 => vec![prod(vec![csc, sin]), int(-1)],
        7 => vec![prod(vec![tan, cot]), int(-1)],
        8 => vec![f(Fk::Sin, &dbl), m(-2, prod(vec![sin, cos]))],
        9 => vec![f(Fk::Cos, &dbl), m(-1, sq(cos)), sq(sin)],
        10 => vec![f(Fk::Cos, &dbl), m(-2, sq(cos)), int(1)],
        11 => vec![f(Fk::Cos, &dbl), m(2, sq(sin)), int(-1)],
        12 => vec![f(Fk::Sin, &apb), m(-1, prod(vec![sin, cosb])), m(-1, prod(vec![cos, sinb]))],
        13 => vec![f(Fk::Cos, &apb), m(-1, prod(vec![cos, cosb])), prod(vec![sin, sinb])],
        14 => vec![f(Fk::Sin, &apb), f(Fk::Sin, &amb), m(-2, prod(vec![sin, cosb]))],
        15 => vec![f(Fk::Cos, &amb), m(-1, f(Fk::Cos, &apb)), m(-2, prod(vec![sin, sinb]))],
        16 => vec![f(Fk::Tan, &dbl), m(-1, T::Div(st, Box::new(f(Fk::Sin, &dbl)), Box::new(f(Fk::Cos, &dbl))))],
        _ => vec![sq(prod(vec![tan, cos.clone()])), sq(cos), int(-1)],
    };
    let mut w = vec![];
    while !v.is_empty() {
        let i = s.below(v.len());
        w.push(v.remove(i));
    }
    if s.chance(90) {
        let d = match s.below(3) {
            0 => var("a"),
            1 => T::Sum(st, vec![var("a"), var("b")]),
            _ => T::Prod(st, vec![int(s.range(2, 5)), var("b")]),
        };
        w = w.into_iter().map(|t| T::Div(st, Box::new(t), Box::new(d.clone()))).collect();
    }
    let t = T::Sum(st, w);
    match s.below(4) {
        0 => T::Prod(st, vec![t, int(s.range(2, 5))]),
        1 => T::Prod(st, vec![var("a"), t]),
        _ => t,
    }
}
fn c12_gen(s: &mut Src, tier: Tier) -> Case {
    if s.chance(40) {
        return Case::new("identity", vec![identity(s)]);
    }
    match s.weighted(&[2, 2, 1]) {
        0 => gen_trig_from(s, tier, 250, "substitute_trig", &[full, all_trig_g, all_trig_g]),
        1 => {
            let c = gen_trig_from(s, tier, 30, "simplify_trig", &[all_trig_g, trig_g]);
            if fractions(&c.ts[0]) <= 4 {
                return c;
            }
            Case::new("simplify_trig", vec![T::F(Fk::Sec, Box::new(var("y")))])
        }
        _ => {
            // linear combinations of products of functions
            let g = G { fns: &[], logs: false, roots: false, symexp: false, neg_pow: false, ..full() };
            let st = if s.chance(100) { Style::Raw } else { Style::Smart };
            let n = s.upto(1, 3, 6);
            let v = (0..n)
                .map(|_| {
                    let k = s.upto(1, 2, 4);
                    let mut p: Vec<T> = (0..k)
                        .map(|_| {
                            let f = *s.pick(TRIG);
                            let a = if s.chance(60) { g.real(s, 1) } else { var(s.pick(XY)) };
                            let a = T::F(f, Box::new(a));
                            if s.chance(90) { T::Pow(st, Box::new(a), Box::new(int(2))) } else { a }
                        })
                        .collect();
                    p.push(g.num(s));
                    T::Prod(st, p)
                })
                .collect();
            let t = T::Sum(st, v);
            if crate::eval::trig_size(&t).1 > 90 || fractions(&t) > 4 {
                return Case::new("simplify_trig", vec![T::F(Fk::Tan, Box::new(var("x")))]);
            }
            Case::new("simplify_trig", vec![t])
        }
    }
}
fn c12_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    if c.op == "substitute_trig" {
        let (_, r) = apply(c, Expr::substitute_trig);
        value_eq(cx, t0(c), &r, false)?;
        let v = view(&r);
        if v.any(&|t| matches!(t, T::F(Fk::Tan | Fk::Cot | Fk::Sec | Fk::Csc, _))) {
            return Err(format!("a function was not replaced: {v}"));
        }
    } else {
        let (_, r) = apply(c, Expr::simplify_trig);
        value_eq(cx, t0(c), &r, false)?;
        if c.op == "identity" {
            cx.hit("zero by an identity");
            ensure(r.is_zero(), || format!("simplifies to {}", view(&r)))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C13

fn c13_gen(s: &mut Src, tier: Tier) -> Case {
    let op = *s.pick(&["expand_exponential", "expand_ln"]);
    if s.chance(150) {
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        if op == "expand_ln" {
            let g = G { fns: &[], ..full() };
            let d = depth(s, tier).min(3);
            let a = gen_small(s, d, 250, &|s, d| g.pos(s, d));
            let t = T::Log(Base::E, Box::new(a));
            return Case::new(op, vec![if s.chance(80) { T::Prod(st, vec![var("x"), t]) } else { t }]);
        }
        let g = G { logs: false, symexp: false, fns: SINCOS, ..full() };
        let n = s.upto(1, 3, 8);
        let v = (0..n)
            .map(|_| {
                let k = if s.chance(50) { T::Q(s.range(1, 3), 2) } else { int(s.upto(-4, 4, 30)) };
                let a = g.real(s, 1);
                T::Prod(st, vec![k, a])
            })
            .collect();
        let t = T::Exp(Box::new(T::Sum(st, v)));
        let t = if s.chance(80) { T::Prod(st, vec![var("x"), t]) } else { t };
        return Case::new(op, vec![t]);
    }
    gen_from(s, tier, 250, op, &[full, exp_g, int_exps])
}
fn c13_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    if c.op == "expand_ln" {
        let (_, r) = apply(c, Expr::expand_ln);
        // exponents leave the logarithm, which the exact field evaluation cannot follow
        value_eq(cx, t0(c), &r, false)?;
        ln_expanded(&view(&r))
    } else {
        let (_, r) = apply(c, Expr::expand_exponential);
        value_eq(cx, t0(c), &r, true)?;
        exp_expanded(&view(&r))
    }
}
/// no power of e with a sum or an integer multiple as exponent is left
fn exp_expanded(t: &T) -> Result<(), String> {
    if let T::Pow(_, b, e) = t {
        if matches!(**b, T::E) {
            ensure(!matches!(**e, T::Sum(_, ref v) if v.len() > 1), || format!("exponential of a sum: {t}"))?;
            ensure(!matches!(**e, T::Prod(_, ref v) if v.len() > 1 && matches!(v[0], T::Q(_, 1))), || {
                format!("exponential of a multiple: {t}")
            })?;
        }
    }
    t.kids().into_iter().try_for_each(exp_expanded)
}
/// no natural logarithm of a product is left
fn ln_expanded(t: &T) -> Result<(), String> {
    if let T::Log(Base::E, a) = t {
        ensure(!matches!(**a, T::Prod(_, ref v) if v.len() > 1), || format!("logarithm of a product: {t}"))?;
        ensure(!matches!(**a, T::Pow(..)), || format!("logarithm of a power: {t}"))?;
    }
    t.kids().into_iter().try_for_each(ln_expanded)
}

// ------------------------------------------------------------ C14

fn c14_gen(s: &mut Src, tier: Tier) -> Case {
    let op = *s.pick(&["rationalize", "rationalize", "numerator / denominator", "try_as_div"]);
    if op == "rationalize" && s.chance(128) {
        // fractions over fractions
        let d = depth(s, tier).min(3);
        let g = G { neg_pow: false, roots: false, symexp: false, logs: false, fns: SINCOS, max_pow: 2, ..full() };
        return Case::new(op, vec![gen_small(s, d, 120, &|s, d| fraction(s, d, &g))]);
    }
    gen_from(s, tier, 250, op, &[full, int_exps, G::rational])
}
/// sums, products and quotients only
fn fraction(s: &mut Src, d: u32, g: &G) -> T {
    if d == 0 {
        return g.leaf(s);
    }
    let st = if s.chance(100) { Style::Raw } else { Style::Smart };
    match s.below(5) {
        0 => g.real(s, d.min(1)),
        1 => T::Prod(st, (0..2).map(|_| fraction(s, d - 1, g)).collect()),
        2 => T::Div(st, Box::new(fraction(s, d - 1, g)), Box::new(fraction(s, d - 1, g))),
        _ => T::Sum(st, (0..s.upto(2, 3, 5)).map(|_| fraction(s, d - 1, g)).collect()),
    }
}
/// no sum has a fraction as a term (outside functions and exponents)
fn rationalized(t: &T) -> Result<(), String> {
    match t {
        T::Sum(_, v) if v.len() > 1 => {
            for a in v {
                let bad = match a {
                    T::Prod(_, v) => v.iter().any(frac),
                    a => frac(a),
                };
                ensure(!bad, || format!("fraction {a} in a sum"))?;
            }
            v.iter().try_for_each(rationalized)
        }
        T::Sum(_, v) | T::Prod(_, v) => v.iter().try_for_each(rationalized),
        T::Pow(_, b, _) => rationalized(b),
        _ => Ok(()),
    }
}
fn c14_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let t = t0(c);
    let e = build(t);
    match c.op.as_str() {
        "rationalize" => {
            let r = e.rationalize();
            value_eq(cx, t, &r, true)?;
            rationalized(&view(&e.reduce().rationalize()))?;
        }
        "try_as_div" => {
            let v = view(&e);
            match e.try_as_div() {
                Some((n, d)) => {
                    cx.hit("is a quotient");
                    value_eq(cx, t, &(n / d), true)?;
                    let r = e.reduce();
                    if let Some((n, d)) = r.try_as_div() {
                        for p in factors(&view(&n)).iter().chain(&factors(&view(&d))) {
                            let neg = matches!(p, T::Pow(_, _, e) if matches!(**e, T::Q(n, _) if n < 0));
                            ensure(!neg, || format!("{p} in the quotient of {n} and {d}"))?;
                        }
                    }
                }
                None => {
                    let is_div = matches!(&v, T::Prod(..)) || matches!(&v, T::Pow(_, _, e) if **e == int(-1));
                    ensure(!is_div, || format!("{v} is not seen as a quotient"))?;
                }
            }
        }
        _ => {
            let (n, d) = (e.numerator(), e.denominator());
            value_eq(cx, t, &(n / d), true)?;
            let r = e.reduce();
            for r in [r.numerator(), r.denominator()] {
                for p in factors(&view(&r)) {
                    ensure(!frac(&p), || format!("the fraction {p} is left in {r}"))?;
                }
            }
        }
    }
    Ok(())
}
/// the operands of a product
fn factors(t: &T) -> Vec<T> {
    match t {
        T::Prod(_, v) => v.clone(),
        t => vec![t.clone()],
    }
}
fn frac(t: &T) -> bool {
    match t {
        T::Q(_, d) => *d != 1,
        T::Pow(_, _, e) => **e == int(-1),
        _ => false,
    }
}

// ------------------------------------------------------------ C15

/// a sum whose terms all contain powers of the variable m, which occurs nowhere else
fn with_factor(s: &mut Src, st: Style) -> T {
    let g = full();
    let n = s.upto(1, 4, 9);
    let v = (0..n)
        .map(|_| {
            let k = s.upto(1, 3, 6);
            let m = if k == 1 { var("m") } else { T::Pow(st, Box::new(var("m")), Box::new(int(k))) };
            let n = s.below(4);
            let mut v: Vec<T> = (0..n)
                .map(|_| match s.below(4) {
                    0 => int(s.range(-6, 6)),
                    1 => T::Pow(st, Box::new(var(s.pick(XY))), Box::new(int(s.upto(-2, 3, 5)))),
                    2 => g.real(s, 1),
                    _ => var(s.pick(XY)),
                })
                .collect();
            let i = s.below(v.len() + 1);
            v.insert(i, m);
            if v.len() == 1 { v.remove(0) } else { T::Prod(st, v) }
        })
        .collect::<Vec<T>>();
    if v.len() == 1 { v[0].clone() } else { T::Sum(st, v) }
}
/// the exponent of m in a product
fn factor_m(t: &T) -> i128 {
    match t {
        T::V(v) if v == "m" => 1,
        T::Pow(_, b, e) => match (&**b, &**e) {
            (T::V(v), T::Q(n, 1)) if v == "m" => *n,
            _ => 0,
        },
        T::Prod(_, v) => v.iter().map(factor_m).sum(),
        _ => 0,
    }
}
/// the exponent of m in all terms of a sum
fn common_m(t: &T) -> i128 {
    match t {
        T::Sum(_, v) => v.iter().map(factor_m).min().unwrap_or(0),
        t => factor_m(t),
    }
}
fn c15_gen(s: &mut Src, tier: Tier) -> Case {
    if s.chance(8) {
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let n = s.upto(1, 4, 8);
        let v = (0..n)
            .map(|_| {
                let k = if s.chance(200) { *s.pick(SINCOS) } else { *s.pick(&ALL_FK) };
                let b = match s.below(5) {
                    0 => var(s.pick(XY)),
                    1 => T::Sum(st, vec![var("x"), T::F(k, Box::new(var("y")))]),
                    _ => T::F(k, Box::new(var(s.pick(XY)))),
                };
                let e = match s.below(5) {
                    0 => var("n"),
                    1 => T::Q(s.range(-5, 7), 2),
                    2 => return b,
                    _ => int(s.upto(-3, 4, 20)),
                };
                T::Pow(st, Box::new(b), Box::new(e))
            })
            .collect();
        return Case::new("split sines", vec![T::Prod(st, v)]);
    }
    if s.chance(60) {
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let t = with_factor(s, st);
        if crate::eval::expansion_size(&t).1 <= 300 {
            let d = with_factor(s, st);
            if s.chance(128) && crate::eval::expansion_size(&d).1 <= 300 {
                return Case::new("fresh common factor", vec![T::Div(st, Box::new(t), Box::new(d))]);
            }
            return Case::new("fresh factor", vec![t]);
        }
    }
    let op = *s.pick(&["factor_out", "cancel", "cancel", "common factors", "common factors", "separate"]);
    let gs: &[fn() -> G] = &[full, int_exps, G::rational, G::polynomial];
    let mut c = if op == "cancel" && s.chance(128) {
        // a quotient with a common factor
        let g = G { roots: false, symexp: false, max_pow: 2, ..pick_g(s, gs) };
        let d = depth(s, tier).saturating_sub(2);
        let st = if s.chance(100) { Style::Raw } else { Style::Smart };
        let (f, a, b) = (g.real(s, d), g.real(s, d), g.real(s, d));
        let n = T::Prod(st, vec![f.clone(), a]);
        let m = T::Prod(st, vec![b, f]);
        let t = T::Div(st, Box::new(n), Box::new(m));
        if crate::eval::expansion_size(&t).1 > 300 {
            Case::new(op, vec![T::Div(st, Box::new(var("x")), Box::new(var("x")))])
        } else {
            Case::new(op, vec![t])
        }
    } else {
        gen_from(s, tier, 200, op, gs)
    };
    if op == "common factors" {
        let d = depth(s, tier).min(3);
        let g = pick_g(s, gs);
        let mut b = gen_small(s, d, 120, &|s, d| g.top(s, d));
        if s.chance(128) {
            // share a factor
            let f = g.real(s, 1);
            let st = Style::Smart;
            b = T::Prod(st, vec![b, f.clone()]);
            c.ts[0] = T::Prod(st, vec![f, c.ts[0].clone()]);
        }
        c.ts.push(b);
    }
    if op == "separate" {
        let g = G::default();
        let x = if s.chance(200) { var(s.pick(g.vars)) } else { T::F(*s.pick(&ALL_FK), Box::new(var("x"))) };
        c.ts.push(x);
    }
    c
}
/// splitting off sines and cosines; without a value to compare (roots of sines) the
/// product is compared as an expression
fn split_sines(cx: &mut Cx, e: &Expr, t: Option<&T>) -> Result<(), String> {
    let (rest, sc) = calcu_rs::algos::separate_sin_cos(e);
    match t {
        Some(t) => { value_eq(&mut Cx::default(), t, &(rest.clone() * &sc), true)?; }
        None => ensure((rest.clone() * &sc).reduce() == e.reduce(), || format!("{} * {}", view(&rest), view(&sc)))?,
    };
    if !sc.is_one() {
        cx.hit("sines and cosines split off");
    }
    if *e == e.reduce() {
        let pure = |t: &T| match t {
            T::Pow(_, b, e) => {
                matches!(**b, T::F(Fk::Sin | Fk::Cos, _)) && matches!(**e, T::Q(n, 1) if n > 0)
            }
            T::F(Fk::Sin | Fk::Cos, _) => true,
            _ => false,
        };
        let (rest, sc) = (view(&rest), view(&sc));
        let parts = |t: &T| match t {
            T::Prod(_, v) => v.clone(),
            t => vec![t.clone()],
        };
        ensure(sc == T::Q(1, 1) || parts(&sc).iter().all(pure), || format!("not only sines and cosines: {sc}"))?;
        ensure(!parts(&rest).iter().any(pure), || format!("a sine or cosine is left in {rest}"))?;
    }
    Ok(())
}
fn c15_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let t = t0(c);
    let e = build(t);
    match c.op.as_str() {
        "fresh factor" => {
            let e = e.reduce();
            let k = common_m(&view(&e));
            let r = e.factor_out();
            value_eq(cx, t, &r, true)?;
            ensure(k < 1 || r.reduce().is_zero() || factor_m(&view(&r)) >= k, || format!("m^{k} not factored out of {}: {}", view(&e), view(&r)))?;
        }
        "fresh common factor" => {
            let T::Div(_, n, d) = t else { unreachable!() };
            let (n, d) = (build(n).reduce(), build(d).reduce());
            let k = common_m(&view(&n)) - common_m(&view(&d));
            let e = &n / &d;
            let r = e.cancel();
            value_eq(cx, t, &r, true)?;
            let j = factor_m(&view(&r));
            // terms like m*(x - 1) + m - m*x may cancel further
            let sums = |t: &T| t.kids().into_iter().any(|t| t.any(&|t| matches!(t, T::Sum(..))));
            let nested = sums(&view(&n)) || sums(&view(&d));
            ensure(nested || r.is_undef() || r.is_zero() || j == k, || format!("m^{k} expected as factor after cancelling {}: {}", view(&e), view(&r)))?;
        }
        "factor_out" => {
            value_eq(cx, t, &e.factor_out(), true)?;
        }
        "cancel" => {
            value_eq(cx, t, &e.cancel(), true)?;
        }
        "split sines" => {
            cx.nt(matches!(view(&e), T::Prod(_, v) if v.len() > 1));
            split_sines(cx, &e, None)?;
        }
        "separate" => {
            let x = build(&c.ts[1]);
            let (free, dep) = e.separate_factors(&x);
            let cx_ = canon(&view(&x));
            ensure(free.is_one() || !canon(&view(&free)).any(&|t| *t == cx_), || {
                format!("the free part {} contains {}", view(&free), view(&x))
            })?;
            value_eq(cx, t, &(free.clone() * &dep), true)?;
            split_sines(cx, &e, Some(t))?;
            if !free.is_one() && !dep.is_one() {
                cx.hit("both parts present");
            }
            if !canon(&view(&e)).any(&|t| *t == cx_) {
                ensure(dep.is_one(), || format!("dependent part {} of an independent expression", view(&dep)))?;
            }
        }
        _ => {
            let b = build(&c.ts[1]);
            let (f, (l, r)) = Expr::factorize_common_terms(&e, &b);
            let f2 = Expr::common_factors(&e, &b);
            ensure(f == f2, || "common_factors and factorize_common_terms disagree".into())?;
            if !f.is_one() {
                cx.hit("common factor");
            }
            let pos = c.ts.iter().any(needs_pos);
            value_eq_at(cx, t, &(f.clone() * &l), true, pos)?;
            let mut c2 = Cx::default();
            value_eq_at(&mut c2, &c.ts[1], &(f * &r), true, pos)?;
            cx.nt(c2.nontrivial);
        }
    }
    Ok(())
}

const SIZE: &str = "expressions are bounded by the generator (depth, expanded size); values are compared at fixed points of a prime field and by interval arithmetic at fixed real points, where fractional powers and logarithms only see positive arguments";

pub fn props() -> Vec<Prop> {
    macro_rules! p {
        ($id:literal, $g:expr, $c:expr, $q:expr, $t:expr) => {
            Prop {
                id: $id,
                gen: $g,
                check: $c,
                quick: $q,
                thorough: $t,
                rule: "at least two operations and the values could be compared at one sample point or more",
                assumptions: &[SIZE],
            }
        };
    }
    vec![
        p!("C04", c04_gen, c04_check, 2_500_000, 60_000_000),
        p!("C08", c08_gen, c08_check, 1_500_000, 40_000_000),
        p!("C09", c09_gen, c09_check, 1_500_000, 40_000_000),
        p!("C10", c10_gen, c10_check, 2_000_000, 30_000_000),
        p!("C11", c11_gen, c11_check, 2_000_000, 30_000_000),
        p!("C12", c12_gen, c12_check, 2_000_000, 30_000_000),
        p!("C13", c13_gen, c13_check, 2_000_000, 60_000_000),
        p!("C14", c14_gen, c14_check, 2_000_000, 60_000_000),
        p!("C15", c15_gen, c15_check, 1_500_000, 40_000_000),
    ]
}
