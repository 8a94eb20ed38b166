//! exact rational arithmetic

use super::*;
use calcu_rs::rational::{binomial_coeff, Rational};
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn big(n: i128, d: i128) -> BigRational {
    BigRational::new(BigInt::from(n), BigInt::from(d))
}
fn of(r: &Rational) -> BigRational {
    big(r.numer(), r.denom())
}
/// representation is reduced with a positive denominator, value is `m`
fn exact(what: &str, r: &Rational, m: &BigRational) -> Result<(), String> {
    ensure(r.denom() > 0, || format!("{what}: denominator {}", r.denom()))?;
    ensure(BigInt::from(r.numer()) == *m.numer() && BigInt::from(r.denom()) == *m.denom(), || {
        format!("{what} = {}/{}, exactly it is {m}", r.numer(), r.denom())
    })
}
fn hash(r: &Rational) -> u64 {
    let mut h = DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}

/// integers of very different sizes
fn wide(s: &mut Src, bits: u32) -> i128 {
    let v = match s.weighted(&[5, 3, 3, 2, 2]) {
        0 => s.range(0, 12),
        1 => s.range(0, 1000),
        2 => {
            let b = 1 + s.below(bits as usize) as u32;
            (if b > 63 { (s.u64() as i128) << 62 ^ s.u64() as i128 } else { s.u64() as i128 }) & ((1i128 << b) - 1)
        }
        3 => {
            // around powers of two and ten
            let b = s.below(bits as usize) as u32;
            ((1i128 << b) + s.range(-2, 2)).max(0)
        }
        _ => {
            let b = s.below((bits as usize) * 3 / 10) as u32;
            10i128.pow(b) * s.range(1, 9)
        }
    };
    if s.chance(110) {
        -v
    } else {
        v
    }
}

fn c01_gen(s: &mut Src, _: Tier) -> Case {
    let bits = [60, 20, 125][s.weighted(&[4, 4, 3])];
    let (a, mut b, c, mut d) = (wide(s, bits), wide(s, bits), wide(s, bits), wide(s, bits));
    if s.chance(60) {
        d = b;
    }
    if b == 0 {
        b = 1;
    }
    if d == 0 {
        d = 1;
    }
    let c = if s.chance(30) { a } else { c };
    Case {
        op: "arithmetic".into(),
        ns: vec![a, b, c, d],
        ..Case::default()
    }
}
fn c01_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let (a, b, p, q) = (c.ns[0], c.ns[1], c.ns[2], c.ns[3]);
    let (x, y) = (Rational::new(a, b), Rational::from((p, q)));
    let (mx, my) = (big(a, b), big(p, q));
    cx.nt(!mx.is_zero() && !my.is_zero() && !(mx.is_integer() && my.is_integer()));
    exact("new", &x, &mx)?;
    exact("from pair", &y, &my)?;
    macro_rules! op {
        ($name:literal, $op:tt, $as:tt) => {{
            let m = &mx $op &my;
            exact($name, &(x $op y), &m)?;
            exact(concat!($name, " by reference"), &(x $op &y), &m)?;
            let mut z = x;
            z $as y;
            exact(concat!($name, " assign"), &z, &m)?;
            let mut z = x;
            z $as &y;
            exact(concat!($name, " assign reference"), &z, &m)?;
        }};
    }
    // where the cross products fit
    let fits = |a: i128, b: i128| a.checked_mul(b).is_some_and(|n| n.unsigned_abs() < 1 << 125);
    if fits(a, q) && fits(b, p) && fits(a, p) && fits(b, q) {
        cx.hit("operators");
        op!("sum", +, +=);
        op!("difference", -, -=);
        op!("product", *, *=);
        if !my.is_zero() {
            op!("quotient", /, /=);
        }
    }
    // comparison
    ensure(x.cmp(&y) == mx.cmp(&my) && x.partial_cmp(&y) == Some(mx.cmp(&my)), || {
        format!("{x} compared with {y} gives {:?}", x.cmp(&y))
    })?;
    ensure((x == y) == (mx == my), || format!("{x} == {y}"))?;
    if mx == my {
        ensure(hash(&x) == hash(&y), || format!("equal numbers {x} hash differently"))?;
    }
    // predicates and conversions
    let i = |n: i64| BigRational::from_integer(n.into());
    let preds: [(&str, bool, bool); 12] = [
        ("is_zero", x.is_zero(), mx.is_zero()),
        ("is_one", x.is_one(), mx.is_one()),
        ("is_two", x.is_two(), mx == i(2)),
        ("is_min_one", x.is_min_one(), mx == i(-1)),
        ("is_min_two", x.is_min_two(), mx == i(-2)),
        ("is_pos", x.is_pos(), mx.is_positive()),
        ("is_neg", x.is_neg(), mx.is_negative()),
        ("is_int", x.is_int(), mx.is_integer()),
        ("is_fraction", x.is_fraction(), !mx.is_integer()),
        ("is_even", x.is_even(), mx.is_integer() && (mx.numer() % 2u8).is_zero()),
        ("is_odd", x.is_odd(), mx.is_integer() && !(mx.numer() % 2u8).is_zero()),
        ("to_int", x.to_int().is_some(), mx.is_integer()),
    ];
    for (n, got, want) in preds {
        ensure(got == want, || format!("{n} of {x} is {got}"))?;
    }
    if let Some(n) = x.to_int() {
        ensure(BigInt::from(n) == *mx.numer(), || format!("to_int of {x} is {n}"))?;
    }
    match x.inverse() {
        None => ensure(mx.is_zero(), || format!("{x} has no inverse"))?,
        Some(r) => {
            ensure(!mx.is_zero(), || "zero has an inverse".into())?;
            exact("inverse", &r, &mx.recip())?
        }
    }
    exact("abs", &x.abs(), &mx.abs())?;
    ensure(BigInt::from(x.floor()) == *mx.floor().numer(), || format!("floor of {x} is {}", x.floor()))?;
    let f = x.f64_approx();
    let want = mx.to_f64().unwrap_or(f64::NAN);
    ensure((f - want).abs() <= want.abs() * 1e-15, || format!("{x} is approximated by {f}"))?;
    let text = if mx.is_integer() { format!("{}", mx.numer()) } else { format!("{}/{}", mx.numer(), mx.denom()) };
    ensure(x.to_string() == text && format!("{x:?}") == text, || format!("{text} is printed as {x} / {x:?}"))?;
    // integer conversions
    exact("from i128", &Rational::from(a), &BigRational::from_integer(a.into()))?;
    exact("new_int", &Rational::new_int(a), &BigRational::from_integer(a.into()))?;
    if let Ok(n) = i64::try_from(a) {
        exact("from i64", &Rational::from(n), &BigRational::from_integer(n.into()))?;
        if let Ok(n) = u64::try_from(a) {
            exact("from u64", &Rational::from(n), &BigRational::from_integer(n.into()))?;
        }
    }
    if let (Ok(n), Ok(d)) = (i32::try_from(a), i32::try_from(b)) {
        exact("from i32", &Rational::from(n), &BigRational::from_integer(n.into()))?;
        exact("from i32 pair", &Rational::from((n, d)), &mx)?;
    }
    if let Ok(n) = u32::try_from(a) {
        exact("from u32", &Rational::from(n), &BigRational::from_integer(n.into()))?;
    }
    // quotient and remainder with respect to one
    let (w, r) = x.div_rem();
    exact("whole part", &w, &mx.trunc())?;
    exact("fractional part", &r, &(&mx - mx.trunc()))?;
    match x.int_gcd(&y) {
        None => ensure(mx.denom() != my.denom(), || format!("no common divisor of {x} and {y}"))?,
        Some(g) => {
            let m = BigRational::new(num::integer::gcd(mx.numer().clone(), my.numer().clone()), mx.denom().clone());
            ensure(mx.denom() == my.denom(), || format!("common divisor of {x} and {y}"))?;
            exact("common divisor", &g, &m)?
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C02

fn c02_gen(s: &mut Src, _: Tier) -> Case {
    if s.chance(50) {
        let n = s.range(0, 130);
        let k = s.range(0, n);
        return Case {
            op: "binomial".into(),
            ns: vec![n, k],
            ..Case::default()
        };
    }
    let n = match s.weighted(&[4, 2, 2]) {
        0 => s.range(0, 20),
        1 => s.range(0, 2000),
        _ => wide(s, 62),
    };
    let d = match s.weighted(&[4, 4, 2]) {
        0 => 1,
        1 => s.range(1, 12),
        _ => wide(s, 40).abs().max(1),
    };
    let e = match s.weighted(&[5, 3, 1, 1]) {
        0 => s.range(0, 12),
        1 => s.range(0, 140),
        2 => s.range(0, 3000),
        _ => wide(s, 90).abs(),
    };
    let f = match s.weighted(&[5, 4, 1]) {
        0 => 1,
        1 => s.range(2, 9),
        _ => wide(s, 30).abs().max(1),
    };
    let n = if s.chance(90) { -n } else { n };
    let e = if s.chance(110) { -e } else { e };
    Case {
        op: "power".into(),
        ns: vec![n, d, e, f],
        ..Case::default()
    }
}
/// |b|^k fits safely / is certainly too large / is near the limit
fn fits(b: &BigRational, k: &BigInt) -> Option<Option<BigRational>> {
    let one = BigInt::one();
    if k.is_zero() || b.is_zero() || (b.numer().abs() == one && *b.denom() == one) {
        if k.bits() > 63 {
            // the exponent itself is beyond what is computed
            return None;
        }
        let k = if k.is_zero() { 0 } else { 2 - (k % 2u8).to_i32().unwrap_or(0) };
        return Some(Some(num::pow(b.clone(), k as usize)));
    }
    let bits = b.numer().bits().max(b.denom().bits()) - 1;
    match k.to_u64() {
        Some(k) if k <= 4000 && bits * k <= 200 => {
            let r = num::pow(b.clone(), k as usize);
            match r.numer().bits().max(r.denom().bits()) {
                0..=126 => Some(Some(r)),
                129.. => Some(None),
                _ => None,
            }
        }
        _ => Some(None),
    }
}
fn c02_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    if c.op == "binomial" {
        let (n, k) = (c.ns[0], c.ns[1]);
        let mut m = BigInt::one();
        for i in 0..k {
            m = m * (n - i) / (i + 1);
        }
        // the library's own multiplication steps stay in range
        if m.bits() + 8 > 120 {
            cx.discard = Some("integer overflow");
            return Ok(());
        }
        cx.nt(k > 1 && k < n - 1);
        cx.hit("binomial");
        let b = binomial_coeff(n, k);
        return ensure(BigInt::from(b) == m, || format!("binomial({n}, {k}) = {b}, exactly it is {m}"));
    }
    let b = Rational::new(c.ns[0], c.ns[1]);
    let e = Rational::new(c.ns[2], c.ns[3]);
    if b.is_zero() && !e.is_pos() {
        cx.discard = Some("0^0 or division by zero");
        return Ok(());
    }
    let mut mb = of(&b);
    let me = of(&e);
    if me.is_negative() {
        mb = mb.recip();
    }
    let (q, r) = {
        let a = me.abs();
        (a.trunc().numer().clone(), &a - a.trunc())
    };
    let (p, rest) = b.pow(e);
    let basic = b.pow_basic(e);
    cx.nt(me.numer().abs() > BigInt::one() && mb.numer().abs() > BigInt::one());
    if me.is_negative() {
        cx.hit("negative exponent");
    }
    let unchanged = |p: &Rational, rest: &Rational| -> Result<(), String> {
        exact("base", p, &mb)?;
        exact("exponent", rest, &me.abs())
    };
    match fits(&mb, &q) {
        None => {
            cx.hit("near the limit of the number type");
            return Ok(());
        }
        Some(m) => {
            if r.is_zero() {
                match m {
                    Some(m) => {
                        cx.hit("integer exponent");
                        exact("power", &p, &m)?;
                        ensure(rest.is_zero(), || format!("{b}^{e} leaves the exponent {rest}"))?;
                        match basic {
                            Some(v) => exact("pow_basic", &v, &m)?,
                            None => return Err(format!("{b}^{e} is not computed")),
                        }
                    }
                    None => {
                        cx.hit("result does not fit");
                        unchanged(&p, &rest)?;
                        ensure(basic.is_none(), || format!("{b}^{e} = {basic:?} does not fit"))?;
                    }
                }
            } else {
                ensure(basic.is_none(), || format!("{b}^{e} = {basic:?}"))?;
                match m {
                    _ if q.is_zero() => {
                        cx.hit("exponent below one");
                        unchanged(&p, &rest)?
                    }
                    Some(m) => {
                        cx.hit("fractional exponent above one");
                        exact("whole power", &p, &m)?;
                        exact("remaining exponent", &rest, &r)?;
                    }
                    None => unchanged(&p, &rest)?,
                }
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            gen: c01_gen,
            check: c01_check,
            quick: 6_000_000,
            thorough: 300_000_000,
            rule: "both numbers are non-zero and at least one is not an integer",
            assumptions: &["numerators and denominators below 2^60, so that every exact result fits into 128 bits"],
        },
        Prop {
            id: "C02",
            gen: c02_gen,
            check: c02_check,
            quick: 6_000_000,
            thorough: 200_000_000,
            rule: "exponent numerator and base numerator larger than one / a binomial away from the border",
            assumptions: &["powers whose exact value lies within a factor four of the 128-bit limit are not judged"],
        },
    ]
}
