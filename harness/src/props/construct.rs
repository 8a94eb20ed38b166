//! building expressions: constructors, operators, undef, decompositions, predicates

use super::*;
use calcu_rs::atom::{Atom, Func, Irrational, Pow, Prod, Real, Sum};
use calcu_rs::rational::Rational;
use calcu_rs::SymbolicExpr;

/// every node exactly as written
fn raw(v: Vec<T>, sum: bool) -> T {
    if sum {
        T::Sum(Style::Raw, v)
    } else {
        T::Prod(Style::Raw, v)
    }
}
fn rpow(a: &T, b: &T) -> T {
    T::Pow(Style::Raw, Box::new(a.clone()), Box::new(b.clone()))
}

// ------------------------------------------------------------ C03

fn c03_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier) - 1;
    let g = if s.chance(60) { int_exps() } else { full() };
    match s.weighted(&[4, 3, 5, 4, 5, 3, 3, 1]) {
        k @ 0..=3 => {
            let a = g.top(s, d);
            let b = match s.weighted(&[6, 1, 2, 2]) {
                _ if matches!(a, T::Q(..)) && s.chance(90) => g.num(s),
                0 => g.real(s, d),
                1 => a.clone(),
                2 => shuffle(&a, s),
                _ => {
                    // something similar to the first operand
                    let n = g.num(s);
                    let m = T::Prod(Style::Smart, vec![n, shuffle(&a, s)]);
                    if s.chance(128) {
                        m
                    } else {
                        T::Pow(Style::Smart, Box::new(a.clone()), Box::new(g.int_exp(s)))
                    }
                }
            };
            Case::new(["add", "sub", "mul", "div"][k], vec![a, b])
        }
        4 => {
            if s.chance(20) {
                Case::new("pow", vec![g.num(s), g.int_exp(s)])
            } else if s.chance(40) {
                // powers of anything that is not simplified, also where variables are negative
                let g = G { free: true, style: StyleMode::Raw, ..g };
                let e = if s.chance(170) { g.frac_exp(s) } else { g.int_exp(s) };
                let b = if s.chance(128) {
                    let k = if s.chance(128) { g.int_exp(s) } else { g.frac_exp(s) };
                    T::Pow(Style::Raw, Box::new(g.real(s, d.min(2))), Box::new(k))
                } else {
                    g.real(s, d)
                };
                Case::new("power", vec![b, e])
            } else if s.chance(128) {
                Case::new("pow", vec![g.real(s, d), g.int_exp(s)])
            } else {
                let r = if s.chance(40) { full().with_signed_root(s, d) } else { full().root(s, d + 1) };
                match r {
                    T::Pow(_, a, b) => Case::new("pow", vec![*a, *b]),
                    T::Sqrt(a) => Case::new("sqrt", vec![*a]),
                    T::Exp(a) => Case::new("exp", vec![*a]),
                    t => Case::new("pow", vec![t, int(2)]),
                }
            }
        }
        5 => {
            let n = s.range(0, 5);
            let op = if s.chance(128) { "sum" } else { "prod" };
            Case::new(op, (0..n).map(|_| g.real(s, d.min(2))).collect())
        }
        6 => {
            let mut c = Case::new("function", vec![g.pos(s, d)]);
            c.ns = vec![s.below(16) as i128];
            c
        }
        _ => {
            let mut c = Case::new("number", vec![]);
            let n = s.u64() as i128 - (1 << 63);
            let n = n >> s.below(63);
            let d = 1 + ((s.u64() >> 1) as i128 >> s.below(62));
            c.ns = vec![n, d];
            c.ss = vec![["x", "y", "alpha", "x_1", "", "e", "1"][s.below(7)].to_string()];
            c
        }
    }
}
fn variants(name: &str, v: &[Expr]) -> Result<(), String> {
    let first = view(&v[0]);
    for (i, e) in v.iter().enumerate() {
        ensure(view(e) == first, || format!("{name}: form {i} gives {} instead of {first}", view(e)))?;
    }
    Ok(())
}
/// operators on numbers give the exact number
fn numbers(c: &Case, es: &[Expr], r: &Expr, cx: &mut Cx) -> Result<(), String> {
    use num::{bigint::BigInt, BigRational, Zero};
    let (T::Q(a, b), T::Q(n, d)) = (view(&es[0]), view(&es[1])) else {
        return Ok(());
    };
    let big = |n: i128, d: i128| BigRational::new(n.into(), d.into());
    let (x, y) = (big(a, b), big(n, d));
    let want = match c.op.as_str() {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" if !y.is_zero() => x / y,
        "pow" if d == 1 && n.abs() <= 16 && (n > 0 || !x.is_zero()) => num::pow(if n < 0 { x.recip() } else { x }, n.unsigned_abs() as usize),
        _ => return Ok(()),
    };
    if want.numer().bits().max(want.denom().bits()) > 120 {
        return Ok(());
    }
    cx.hit("operator on numbers");
    let same = matches!(view(r), T::Q(p, q) if BigInt::from(p) == *want.numer() && BigInt::from(q) == *want.denom());
    ensure(same, || format!("{} of the numbers gives {}, not {want}", c.op, view(r)))
}
fn c03_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    macro_rules! forms {
        ($f:path, $op:tt, $as:tt, $a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            let mut w = a.clone();
            w $as b.clone();
            let mut z = a.clone();
            z $as &b;
            let keep = (a.clone(), b.clone());
            let v = [$f(&a, &b), $f(a.clone(), &b), $f(&a, b.clone()), $f(a.clone(), b.clone()), &a $op &b, &a $op b.clone(), a.clone() $op &b, a.clone() $op b.clone(), w, z];
            variants(&c.op, &v)?;
            ensure(view(&keep.0) == view(&a) && view(&keep.1) == view(&b), || "operand changed".into())?;
            v[0].clone()
        }};
    }
    let es: Vec<Expr> = c.ts.iter().map(build).collect();
    let t = |i: usize| c.ts[i].clone();
    match c.op.as_str() {
        "add" => {
            let want = raw(vec![t(0), t(1)], true);
            let r = forms!(Expr::add, +, +=, es[0].clone(), es[1].clone());
            numbers(c, &es, &r, cx)?;
            value_eq(cx, &want, &r, true)?;
            value_eq(cx, &want, &Expr::add_raw(&es[0], &es[1]), true)?;
        }
        "sub" => {
            let want = raw(vec![t(0), raw(vec![int(-1), t(1)], false)], true);
            let r = forms!(Expr::sub, -, -=, es[0].clone(), es[1].clone());
            numbers(c, &es, &r, cx)?;
            value_eq(cx, &want, &r, true)?;
        }
        "mul" => {
            let want = raw(vec![t(0), t(1)], false);
            let r = forms!(Expr::mul, *, *=, es[0].clone(), es[1].clone());
            numbers(c, &es, &r, cx)?;
            value_eq(cx, &want, &r, true)?;
            value_eq(cx, &want, &Expr::mul_raw(&es[0], &es[1]), true)?;
        }
        "div" => {
            let want = raw(vec![t(0), rpow(&c.ts[1], &int(-1))], false);
            let r = forms!(Expr::div, /, /=, es[0].clone(), es[1].clone());
            numbers(c, &es, &r, cx)?;
            value_eq(cx, &want, &r, true)?;
            value_eq(cx, &want, &Expr::div_raw(&es[0], &es[1]), true)?;
        }
        "pow" => {
            let want = rpow(&c.ts[0], &c.ts[1]);
            let v = [
                Expr::pow(&es[0], &es[1]),
                Expr::pow(es[0].clone(), es[1].clone()),
                Expr::pow(es[0].clone(), &es[1]),
                Expr::pow(&es[0], es[1].clone()),
            ];
            variants("pow", &v)?;
            numbers(c, &es, &v[0], cx)?;
            value_eq(cx, &want, &v[0], true)?;
            let r = Expr::pow_raw(&es[0], &es[1]);
            ensure(view(&r) == rpow(&view(&es[0]), &view(&es[1])), || format!("pow_raw gives {}", view(&r)))?;
        }
        "power" => {
            let want = rpow(&c.ts[0], &c.ts[1]);
            value_eq_at(cx, &want, &Expr::pow(&es[0], &es[1]), true, false)?;
            value_eq_at(cx, &want, &Expr::pow_raw(&es[0], &es[1]), true, false)?;
            if c.ts[1] == T::Q(1, 2) {
                value_eq_at(cx, &want, &Expr::sqrt(&es[0]), true, false)?;
            }
        }
        "sqrt" => {
            value_eq(cx, &rpow(&c.ts[0], &T::Q(1, 2)), &Expr::sqrt(&es[0]), true)?;
        }
        "exp" => {
            value_eq(cx, &rpow(&T::E, &c.ts[0]), &Expr::exp(&es[0]), true)?;
        }
        "sum" => {
            let mut s = Sum::zero();
            es.iter().for_each(|e| s.add_rhs(e));
            value_eq(cx, &raw(c.ts.clone(), true), &Expr::from(s), true)?;
            let e = Expr::from(Atom::Sum(Sum { args: es.clone() }));
            ensure(view(&e) == raw(es.iter().map(view).collect(), true), || "explicit sum changed".into())?;
        }
        "prod" => {
            let (mut p, mut r) = (Prod::one(), Prod::one());
            es.iter().for_each(|e| {
                p.mul_rhs(e);
                r.mul_rhs_raw(e)
            });
            let want = raw(c.ts.clone(), false);
            value_eq(cx, &want, &Expr::from(p), true)?;
            value_eq(cx, &want, &Expr::from(r), true)?;
            let e = Expr::from(Atom::Prod(Prod { args: es.clone() }));
            ensure(view(&e) == raw(es.iter().map(view).collect(), false), || "explicit product changed".into())?;
        }
        "function" => {
            let a = &es[0];
            let va = Box::new(view(a));
            let (e, want) = match c.ns[0] {
                k @ 0..=11 => {
                    let k = ALL_FK[k as usize];
                    (fn_expr(k, a.clone()), T::F(k, va))
                }
                12 => (Expr::ln(a), T::Log(Base::E, va)),
                13 => (Expr::log10(a), T::Log(Base::Q(10, 1), va)),
                14 => (Expr::log(Irrational::PI, a), T::Log(Base::Pi, va)),
                _ => (Expr::log(Rational::from((3, 2)), a), T::Log(Base::Q(3, 2), va)),
            };
            cx.nt(true);
            ensure(view(&e) == want, || format!("{want} is built as {}", view(&e)))?;
        }
        _ => {
            let (n, d) = (c.ns[0], c.ns[1]);
            cx.nt(n != 0);
            let g = num::integer::gcd(n, d);
            let want = T::Q(n / g, d / g);
            let is = |name: &str, e: Expr, want: &T| ensure(view(&e) == *want, || format!("{name} of {n}, {d} is {}", view(&e)));
            is("Expr::from(Rational)", Expr::from(Rational::from((n, d))), &want)?;
            is("Expr::rational", Expr::rational(Rational::new(n, d)), &want)?;
            is("Expr::from(i128)", Expr::from(n), &int(n))?;
            is("Expr::from(i64)", Expr::from(n as i64), &int(n as i64 as i128))?;
            is("Expr::from(i32)", Expr::from(n as i32), &int(n as i32 as i128))?;
            is("Expr::from(u32)", Expr::from(n as u32), &int(n as u32 as i128))?;
            is("Expr::from(u64)", Expr::from(n as u64), &int(n as u64 as i128))?;
            is("Expr::from(Real)", Expr::from(Real::Rational(Rational::from((n, d)))), &want)?;
            is("Expr::from(Real)", Expr::from(Real::PI), &T::Pi)?;
            is("Expr::from(Real)", Expr::from(Real::E), &T::E)?;
            is("Expr::from(Irrational)", Expr::from(Irrational::PI), &T::Pi)?;
            let v = T::V(c.ss[0].clone());
            is("Expr::var", Expr::var(&c.ss[0]), &v)?;
            is("Expr::from(&str)", Expr::from(c.ss[0].as_str()), &v)?;
            is("Expr::from(String)", Expr::from(c.ss[0].clone()), &v)?;
            for (e, w) in [
                (Expr::zero(), int(0)),
                (Expr::one(), int(1)),
                (Expr::two(), int(2)),
                (Expr::min_one(), int(-1)),
                (Expr::min_two(), int(-2)),
                (Expr::pi(), T::Pi),
                (Expr::e(), T::E),
                (Expr::undef(), T::Undef),
            ] {
                is("constant", e, &w)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C28

/// div_raw already drops a factor zero
fn quotient(st: Style, n: T, d: T) -> T {
    match st {
        Style::Raw => raw(vec![n, rpow(&d, &int(-1))], false),
        st => T::Div(st, Box::new(n), Box::new(d)),
    }
}
fn c28_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let mut g = if s.chance(128) { int_exps() } else { full() };
    // either nothing is evaluated before reduce, or every step sees the undefined operand itself
    let mode = if s.chance(25) { 4 } else { 0 };
    let smart = mode < 4 && s.chance(128);
    if !smart {
        g.style = if mode == 4 { StyleMode::Mixed } else { StyleMode::Raw };
    }
    let zero = |s: &mut Src| match s.below(4) {
        0 if !smart => T::Sum(Style::Raw, vec![int(3), int(-3)]),
        1 if !smart => T::Prod(Style::Raw, vec![int(0), var("x")]),
        2 if !smart => T::Sum(Style::Raw, vec![var("x"), T::Prod(Style::Raw, vec![int(-1), var("x")])]),
        _ => int(0),
    };
    // raw constructors one after another, around an operand that is undefined from the start
    let st = if smart { Style::Smart } else { Style::Raw };
    let mut t = match s.weighted(&[6, 2, 2, 2]) {
        _ if mode == 4 => {
            let with = |s: &mut Src, st: Style, t: T| {
                let mut v: Vec<T> = (0..s.upto(0, 2, 9)).map(|_| if s.chance(70) { int(0) } else { g.leaf(s) }).collect();
                let i = s.below(v.len() + 1);
                v.insert(i, t);
                T::Prod(st, v)
            };
            let t = with(s, Style::Raw, T::Undef);
            return Case::new("raw", vec![with(s, Style::Fold, t)]);
        }
        0 => T::Undef,
        1 => {
            let e = if s.chance(100) { T::Q(-2 * s.range(0, 3) - 1, [2, 4, 8][s.below(3)]) } else { int(-s.range(0, 3)) };
            T::Pow(st, Box::new(zero(s)), Box::new(e))
        }
        _ => {
            let n = if s.chance(60) { zero(s) } else { g.leaf(s) };
            quotient(st, n, zero(s))
        }
    };
    for _ in 0..s.upto(0, d as i128 + 1, 14) {
        let k = d.min(2);
        t = match s.weighted(&[5, 5, 3, 2, 1, 1, 1, 1]) {
            n @ (0 | 1) => {
                let mut v: Vec<T> = (0..s.upto(0, 2, 9)).map(|_| if s.chance(40) { int(0) } else { g.real(s, k) }).collect();
                let i = s.below(v.len() + 1);
                v.insert(i, t);
                if n == 0 {
                    T::Sum(st, v)
                } else {
                    T::Prod(st, v)
                }
            }
            2 => {
                let e = if s.chance(128) { g.int_exp(s) } else { g.real(s, k) };
                T::Pow(st, Box::new(t), Box::new(e))
            }
            3 => {
                let b = if s.chance(60) { int(s.range(0, 1)) } else { g.real(s, k) };
                T::Pow(st, Box::new(b), Box::new(t))
            }
            4 if smart => T::Sub(Box::new(t), Box::new(g.real(s, k))),
            5 if smart => T::Sub(Box::new(g.real(s, k)), Box::new(t)),
            6 | 4 => quotient(st, t, g.real(s, k)),
            _ => quotient(st, g.real(s, k), t),
        };
    }
    Case::new(if smart { "operators" } else { "raw" }, vec![t])
}
fn c28_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let e = build(t0(c));
    cx.nt(t0(c).ops() >= 2);
    if c.op == "operators" {
        cx.hit("operators");
        ensure(e.is_undef(), || format!("is built as {} instead of undef", view(&e)))?;
    }
    let r = e.reduce();
    ensure(r.is_undef() && view(&r) == T::Undef, || format!("reduces to {} instead of undef", view(&r)))
}

// ------------------------------------------------------------ C29

fn c29_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let g = if s.chance(128) { int_exps() } else { anything(s) };
    let mut g = g;
    g.undef = s.chance(40);
    let mut t = gen_small(s, d, 250, &|s, d| g.top(s, d));
    if s.chance(12) {
        let n = G::edge(s);
        t = match s.below(4) {
            0 => n,
            1 => T::Sum(Style::Raw, vec![n, t]),
            2 => T::Pow(Style::Raw, Box::new(t), Box::new(n)),
            _ => T::Prod(Style::Raw, vec![t, n]),
        };
    }
    Case::new("decompose", vec![t])
}
fn c29_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let e = build(t0(c));
    let v = view(&e);
    cx.nt(v.ops() >= 1);
    let is = |name: &str, got: &Expr, want: &T| ensure(view(got) == *want, || format!("{name} of {v} is {}, not {want}", view(got)));
    // one-argument sums and products and powers with exponent one stand for their argument
    let flat = match &v {
        T::Sum(_, a) | T::Prod(_, a) if a.len() == 1 => a[0].clone(),
        T::Pow(_, b, x) if **x == int(1) => (**b).clone(),
        t => t.clone(),
    };
    is("flatten", e.flatten(), &flat)?;
    match &flat {
        T::Pow(_, b, x) => {
            cx.hit("power");
            is("base", &e.base(), b)?;
            is("exponent", &e.exponent(), x)?;
        }
        _ => {
            is("base", &e.base(), &v)?;
            is("exponent", &e.exponent(), &int(1))?;
        }
    }
    // coefficient and remaining term
    let (k, term) = (e.rational_coeff(), e.non_rational_term());
    match &v {
        T::Q(..) | T::Undef => ensure(k.is_none() && term.is_none(), || format!("coefficient of {v}: {k:?}, {term:?}"))?,
        T::Prod(_, a) => {
            cx.hit("product");
            let mut m = num::BigRational::from_integer(1.into());
            let mut rest = vec![];
            for x in a {
                match x {
                    T::Q(n, d) => m *= num::BigRational::new((*n).into(), (*d).into()),
                    x => rest.push(x.clone()),
                }
            }
            let k = k.ok_or(format!("{v} has no coefficient"))?;
            ensure(num::BigRational::new(k.numer().into(), k.denom().into()) == m, || format!("coefficient of {v} is {k}"))?;
            match (term, rest.len()) {
                (None, 0) => (),
                (Some(t), 1) => is("term", &t, &rest[0])?,
                (Some(t), n) if n > 1 => is("term", &t, &raw(rest, false))?,
                (t, _) => return Err(format!("term of {v} is {t:?}")),
            }
        }
        _ => {
            ensure(k.is_some_and(|k| k.is_one()), || format!("coefficient of {v} is {k:?}"))?;
            is("term", &term.ok_or(format!("{v} has no term"))?, &v)?;
        }
    }
    let split = |a: &[T], sum: bool| -> (T, T) {
        let unit = if sum { int(0) } else { int(1) };
        match a {
            [] => (unit.clone(), unit),
            [x] => (x.clone(), unit),
            [x, y] => (x.clone(), y.clone()),
            [x, r @ ..] => (x.clone(), raw(r.to_vec(), sum)),
        }
    };
    match e.atom() {
        Atom::Sum(s) => {
            let T::Sum(_, a) = &v else { unreachable!() };
            let (x, y) = s.as_binary_sum();
            let (wx, wy) = split(a, true);
            is("first summand", &x, &wx)?;
            is("rest of the sum", &y, &wy)?;
            ensure(s.first().map(|a| view(&Expr::from(a.clone()))) == a.first().cloned(), || format!("first of {v}"))?;
        }
        Atom::Prod(p) => {
            let T::Prod(_, a) = &v else { unreachable!() };
            let (x, y) = p.as_binary_mul();
            let (wx, wy) = split(a, false);
            is("first factor", &x, &wx)?;
            is("rest of the product", &y, &wy)?;
            ensure(p.first().map(|a| view(&Expr::from(a.clone()))) == a.first().cloned(), || format!("first of {v}"))?;
            let rest: Vec<T> = a.iter().filter(|x| !matches!(x, T::Q(..) | T::Pi | T::E)).cloned().collect();
            match (p.term(), rest.len()) {
                (None, 0) => (),
                (Some(t), 1) => is("non-constant factors", &t, &rest[0])?,
                (Some(t), n) if n > 1 => is("non-constant factors", &t, &raw(rest, false))?,
                (t, _) => return Err(format!("non-constant factors of {v}: {t:?}")),
            }
        }
        Atom::Pow(p) => {
            let T::Pow(_, b, x) = &v else { unreachable!() };
            is("base", p.base(), b)?;
            is("exponent", p.exponent(), x)?;
        }
        Atom::Func(f) => {
            let (want, ln) = match &v {
                T::Log(b, a) => (a, *b == Base::E),
                T::F(_, a) => (a, false),
                _ => unreachable!(),
            };
            is("argument", &f.args()[0], want)?;
            ensure(f.is_nat_log() == ln && f.try_unwrap_nat_log_ref().is_some() == ln, || format!("is_nat_log of {v}"))?;
            if let T::Log(b, a) = &v {
                let r = base_real(*b);
                ensure(f.try_unwrap_log_base(&r).map(view) == Some((**a).clone()), || format!("argument of {v}"))?;
                let other = base_real(if *b == Base::Pi { Base::E } else { Base::Pi });
                ensure(f.try_unwrap_log_base(&other).is_none(), || format!("base of {v}"))?;
            }
        }
        _ => (),
    }
    Ok(())
}

// ------------------------------------------------------------ C30

fn c30_gen(s: &mut Src, tier: Tier) -> Case {
    let mut g = anything(s);
    g.undef = true;
    let d = if s.chance(128) { 0 } else { depth(s, tier).min(2) };
    let t = if s.chance(60) {
        let n = s.range(-4, 4);
        let d = s.range(1, 3);
        let g = num::integer::gcd(n, d);
        T::Q(n / g, d / g)
    } else if s.chance(20) {
        G::edge(s)
    } else {
        g.top(s, d)
    };
    Case::new("predicates", vec![t])
}
fn c30_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let e = build(t0(c));
    let v = view(&e);
    let q = match v {
        T::Q(n, d) => Some((n, d)),
        _ => None,
    };
    cx.nt(q.is_some() || v.ops() >= 1);
    let name = match &v {
        T::F(k, _) => Some(k.name().to_string()),
        T::Log(Base::E, _) => Some("ln".into()),
        T::Log(Base::Pi, _) => Some("logπ".into()),
        T::Log(Base::Q(10, 1), _) => Some("log".into()),
        T::Log(Base::Q(n, 1), _) => Some(format!("log{n}")),
        T::Log(Base::Q(n, d), _) => Some(format!("log{n}/{d}")),
        _ => None,
    };
    let int_q = matches!(q, Some((_, 1)));
    let f = matches!(v, T::F(..));
    let leaf = v.kids().is_empty() && !matches!(v, T::Sum(..) | T::Prod(..));
    let args: Vec<T> = v.kids().into_iter().cloned().collect();
    let checks: Vec<(&str, bool, bool)> = vec![
        ("is_undef", e.is_undef(), v == T::Undef),
        ("is_rational", e.is_rational(), q.is_some()),
        ("is_irrational", e.is_irrational(), matches!(v, T::Pi | T::E)),
        ("is_var", e.is_var(), matches!(v, T::V(_))),
        ("is_sum", e.is_sum(), matches!(v, T::Sum(..))),
        ("is_prod", e.is_prod(), matches!(v, T::Prod(..))),
        ("is_pow", e.is_pow(), matches!(v, T::Pow(..))),
        ("is_func", e.is_func(), name.is_some()),
        ("is_zero", e.is_zero(), v == int(0)),
        ("is_one", e.is_one(), v == int(1)),
        ("is_min_one", e.is_min_one(), v == int(-1)),
        ("is_pi", e.is_pi(), v == T::Pi),
        ("is_e", e.is_e(), v == T::E),
        ("is_neg", e.is_neg(), q.is_some_and(|q| q.0 < 0)),
        ("is_pos", e.is_pos(), q.is_some_and(|q| q.0 > 0)),
        ("is_int", e.is_int(), int_q),
        ("is_even", e.is_even(), int_q && q.unwrap().0 % 2 == 0),
        ("is_odd", e.is_odd(), int_q && q.unwrap().0 % 2 != 0),
        ("is_number", e.is_number(), q.is_some() || matches!(v, T::Pi | T::E)),
        ("is_real", e.is_real(), q.is_some() || matches!(v, T::Pi | T::E)),
        ("is_const", e.is_const(), q.is_some() || matches!(v, T::Pi | T::E)),
        ("is_irreducible", e.is_irreducible(), leaf),
        ("is_sin", e.is_sin(), matches!(v, T::F(Fk::Sin, _))),
        ("is_cos", e.is_cos(), matches!(v, T::F(Fk::Cos, _))),
        ("is_trig", e.is_trig(), f),
        ("is_exponential", e.is_exponential(), matches!(&v, T::Pow(_, b, x) if **b == T::E && **x != int(1))),
        ("is_atom", e.is_atom(), args.is_empty()),
        ("try_unwrap_int", e.try_unwrap_int().is_some(), int_q),
        ("try_as_real", e.try_as_real().is_some(), q.is_some() || matches!(v, T::Pi | T::E)),
    ];
    // e^1 is ambiguous: it stands for its base
    for (n, got, want) in checks {
        if n == "is_exponential" && matches!(&v, T::Pow(_, _, x) if **x == int(1)) {
            continue;
        }
        ensure(got == want, || format!("{n} of {v} is {got}"))?;
    }
    if let (Some(i), Some(q)) = (e.try_unwrap_int(), q) {
        ensure(i == q.0 && e.unwrap_int() == q.0, || format!("integer value of {v} is {i}"))?;
    }
    match (e.try_as_real(), q) {
        (Some(Real::Rational(r)), Some(q)) => ensure((r.numer(), r.denom()) == q, || format!("real value of {v} is {r}"))?,
        (Some(Real::Irrational(Irrational::PI)), None) => ensure(v == T::Pi, || format!("real value of {v}"))?,
        (Some(Real::Irrational(Irrational::E)), None) => ensure(v == T::E, || format!("real value of {v}"))?,
        (None, _) => (),
        (r, _) => return Err(format!("real value of {v} is {r:?}")),
    }
    if let Some(r) = e.try_as_real() {
        ensure(e.atom() == &r && &r == e.atom(), || format!("{r:?} is not equal to {v}"))?;
        ensure(e.atom() == &Real::PI && v == T::Pi || e.atom() != &Real::PI && v != T::Pi, || format!("comparison of {v} with pi"))?;
        let want = match v {
            T::Pi => std::f64::consts::PI,
            T::E => std::f64::consts::E,
            _ => q.unwrap().0 as f64 / q.unwrap().1 as f64,
        };
        ensure(r.f64_approx() == want, || format!("{v} is approximated by {}", r.f64_approx()))?;
    }
    if let Atom::Func(x) = e.atom() {
        let n = name.unwrap();
        ensure(x.name() == n, || format!("{v} is named {} instead of {n}", x.name()))?;
        ensure(x.is_trig() == f, || format!("is_trig of {v}"))?;
        let k = [
            Func::is_sin(x), Func::is_cos(x), Func::is_tan(x), Func::is_sec(x), Func::is_cot(x), Func::is_csc(x),
            Func::is_arc_sin(x), Func::is_arc_cos(x), Func::is_arc_tan(x), Func::is_arc_sec(x), Func::is_arc_cot(x), Func::is_arc_csc(x),
        ];
        for (i, b) in k.into_iter().enumerate() {
            ensure(b == matches!(v, T::F(f, _) if f == ALL_FK[i]), || format!("kind of {v}"))?;
        }
        ensure(x.is_log() == matches!(v, T::Log(..)), || format!("kind of {v}"))?;
    }
    // arguments
    ensure(e.n_args() == args.len() && e.iter_args().count() == args.len(), || format!("{v} has {} arguments", e.n_args()))?;
    ensure(e.args().iter().map(view).collect::<Vec<_>>() == args, || format!("arguments of {v}"))?;
    ensure(e.iter_args().map(view).collect::<Vec<_>>() == args, || format!("arguments of {v}"))?;
    let mut seen = vec![];
    e.for_each_arg(|a| seen.push(view(a)));
    ensure(seen == args, || format!("arguments of {v} visited as {seen:?}"))?;
    let z = e.clone().map_args(|a| *a = Expr::var("Z"));
    let w = map_kids(&v, &mut |_| var("Z"));
    ensure(view(&z) == w, || format!("replacing the arguments of {v} gives {}", view(&z)))?;
    ensure(view(&e) == v, || "map_args changed its source".into())?;
    if let Atom::Pow(p) = e.atom() {
        let p: &Pow = p;
        ensure(p.n_args() == 2, || "arguments of a power".into())?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const VAL: &[&str] = &["values are compared at points of a 61-bit prime field and at real points by interval arithmetic"];
    vec![
        Prop {
            id: "C03",
            gen: c03_gen,
            check: c03_check,
            quick: 2_000_000,
            thorough: 60_000_000,
            rule: "the value comparison was decisive and the operands contain at least two operations together",
            assumptions: VAL,
        },
        Prop {
            id: "C28",
            gen: c28_gen,
            check: c28_check,
            quick: 3_000_000,
            thorough: 60_000_000,
            rule: "the undefined operand lies below at least one other operation",
            assumptions: &["undefined operands are reached through sums, products, quotients and powers only, not through functions"],
        },
        Prop {
            id: "C29",
            gen: c29_gen,
            check: c29_check,
            quick: 2_500_000,
            thorough: 60_000_000,
            rule: "the expression has at least one operation",
            assumptions: &[],
        },
        Prop {
            id: "C30",
            gen: c30_gen,
            check: c30_check,
            quick: 4_000_000,
            thorough: 60_000_000,
            rule: "a rational number or an expression with at least one operation",
            assumptions: &[],
        },
    ]
}
