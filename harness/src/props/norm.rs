//! reduce as a normal form, polynomial identity, canonical argument order

use super::*;
use calcu_rs::SymbolicExpr;
use num::rational::BigRational;
use num::{BigInt, One, Zero};
use std::collections::BTreeMap;

// ------------------------------------------------------------ C05

/// non-numeric part of a summand
fn term_part(t: &T) -> Option<T> {
    match t {
        T::Q(..) | T::Undef => None,
        T::Prod(st, v) => {
            let r: Vec<T> = v.iter().filter(|a| !matches!(a, T::Q(..))).cloned().collect();
            match r.len() {
                0 => None,
                1 => Some(r[0].clone()),
                _ => Some(T::Prod(*st, r)),
            }
        }
        t => Some(t.clone()),
    }
}
fn base_part(t: &T) -> Option<T> {
    match t {
        T::Q(..) | T::Undef => None,
        T::Pow(_, b, e) if matches!(**e, T::Q(..)) && !matches!(**b, T::Q(..)) => Some((**b).clone()),
        T::Pow(..) => None,
        t => Some(t.clone()),
    }
}

/// what every reduced expression looks like
pub fn normal(t: &T) -> Result<(), String> {
    for k in t.kids() {
        normal(k)?;
    }
    let nums = |v: &[T]| v.iter().filter(|a| matches!(a, T::Q(..))).count();
    match t {
        T::Sum(_, v) => {
            ensure(v.len() >= 2, || format!("sum with {} arguments: {t}", v.len()))?;
            ensure(!v.iter().any(|a| matches!(a, T::Sum(..))), || format!("sum inside a sum: {t}"))?;
            ensure(nums(v) <= 1, || format!("two numbers in a sum: {t}"))?;
            ensure(!v.contains(&int(0)), || format!("zero in a sum: {t}"))?;
            ensure(!v.contains(&T::Undef), || format!("undef in a sum: {t}"))?;
            let mut parts: Vec<T> = v.iter().filter_map(term_part).map(|t| canon(&t)).collect();
            parts.sort();
            ensure(parts.windows(2).all(|w| w[0] != w[1]), || format!("like terms in {t}"))?;
        }
        T::Prod(_, v) => {
            ensure(v.len() >= 2, || format!("product with {} arguments: {t}", v.len()))?;
            ensure(!v.iter().any(|a| matches!(a, T::Prod(..))), || format!("product inside a product: {t}"))?;
            ensure(nums(v) <= 1, || format!("two numbers in a product: {t}"))?;
            ensure(!v.contains(&int(0)) && !v.contains(&int(1)), || format!("zero or one in a product: {t}"))?;
            ensure(!v.contains(&T::Undef), || format!("undef in a product: {t}"))?;
            let mut parts: Vec<T> = v.iter().filter_map(base_part).map(|t| canon(&t)).collect();
            parts.sort();
            ensure(parts.windows(2).all(|w| w[0] != w[1]), || format!("like factors in {t}"))?;
        }
        T::Pow(_, b, e) => {
            ensure(**e != int(0) && **e != int(1), || format!("trivial power: {t}"))?;
            ensure(**b != int(1), || format!("power of one: {t}"))?;
            ensure(**b != T::Undef && **e != T::Undef, || format!("undef in a power: {t}"))?;
            ensure(!matches!(**b, T::Pow(..)), || format!("power of a power: {t}"))?;
            if let T::Q(_, 1) = **e {
                ensure(!matches!(**b, T::Prod(..)), || format!("integer power of a product: {t}"))?;
                if let (T::Q(n, d), T::Q(k, _)) = (&**b, &**e) {
                    let big = |x: i128| (128 - x.unsigned_abs().leading_zeros() as i128) * k.abs();
                    ensure(big(*n) >= 120 || big(*d) >= 120, || format!("number not evaluated: {t}"))?;
                }
            }
        }
        T::Log(b, x) => {
            let own = match b {
                Base::E => T::E,
                Base::Pi => T::Pi,
                Base::Q(n, d) => T::Q(*n, *d),
            };
            ensure(**x != own, || format!("logarithm of its base: {t}"))?;
        }
        T::F(Fk::Sin | Fk::Cos, x) => {
            ensure(**x != int(0), || format!("sine or cosine of zero: {t}"))?;
            let neg = matches!(&**x, T::Prod(_, v) if v.iter().any(|a| matches!(a, T::Q(n, _) if *n < 0)));
            ensure(!neg, || format!("sign left in a sine or cosine: {t}"))?;
        }
        _ => (),
    }
    Ok(())
}

fn c05_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let (op, g) = if s.chance(90) { ("any exponents", anything(s)) } else { ("integer exponents", int_exps()) };
    Case::new(op, vec![gen_small(s, d, 250, &|s, d| g.top(s, d))])
}
fn c05_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let t = t0(c);
    let e = build(t);
    let r = e.reduce();
    let v = view(&r);
    let before = view(&e);
    cx.nt(before != v && t.ops() >= 2);
    if before != v {
        cx.hit("changed by reduce");
    }
    normal(&v)?;
    let rr = r.reduce();
    ensure(rr == r && canon(&view(&rr)) == canon(&v), || {
        format!("reduce is not idempotent: {v} reduces to {}", view(&rr))
    })
}

// ------------------------------------------------------------ C06

/// the same nesting of sums / products written with other groupings
fn regroup(t: &T, s: &mut Src) -> T {
    let t = map_kids(t, &mut |a| regroup(a, s));
    match t {
        T::Sum(st, v) if v.len() > 2 => {
            let k = 1 + s.below(v.len() - 1);
            let (a, b) = v.split_at(k);
            let one = |v: &[T]| if v.len() == 1 { v[0].clone() } else { T::Sum(st, v.to_vec()) };
            T::Sum(st, vec![one(a), one(b)])
        }
        T::Prod(st, v) if v.len() > 2 => {
            let k = 1 + s.below(v.len() - 1);
            let (a, b) = v.split_at(k);
            let one = |v: &[T]| if v.len() == 1 { v[0].clone() } else { T::Prod(st, v.to_vec()) };
            T::Prod(st, vec![one(a), one(b)])
        }
        t => t,
    }
}
fn c06_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let mut g = int_exps();
    match s.below(4) {
        0 => g = full(),
        1 => g = G::rational(),
        _ => (),
    }
    let t = gen_small(s, d, 250, &|s, d| g.top(s, d));
    let mut p = shuffle(&t, s);
    if s.chance(128) {
        p = regroup(&p, s);
    }
    Case::new("reorder", vec![t, p])
}
/// numbers are not multiplied into sums, but 1*(a + b) is a + b: a multiple of a sum
/// may stay together or be merged, depending on which multiples meet first; the same
/// multiple to a power: (2*x + 8)^2 and 4*(x + 4)^2
pub fn multiple_of_sum(t: &T) -> bool {
    let sum = |a: &T| match a {
        T::Pow(_, b, _) => matches!(**b, T::Sum(..)),
        a => matches!(a, T::Sum(..)),
    };
    t.any(&|t| match t {
        T::Prod(_, v) => v.iter().any(|a| matches!(a, T::Q(..))) && v.iter().any(sum),
        _ => false,
    })
}
/// powers that do not fit into 128 bits stay as they are: how far 7^40 * 7^30 gets
/// multiplied out depends on the order, too
pub fn near_limit(t: &T) -> bool {
    t.any(&|t| match t {
        T::Pow(_, b, e) => matches!((&**b, &**e), (T::Q(..), T::Q(_, 1))),
        T::Q(n, d) => n.unsigned_abs() >> 100 != 0 || d.unsigned_abs() >> 100 != 0,
        _ => false,
    })
}
fn c06_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let m = same_value(&c.ts[0], &c.ts[0], needs_pos(&c.ts[0]), true)?;
    if !m.conclusive() {
        cx.discard = Some("no value at the sample points");
        return Ok(());
    }
    let (a, b) = (build(&c.ts[0]), build(&c.ts[1]));
    let (ra, rb) = (a.reduce(), b.reduce());
    cx.nt(view(&a) != view(&b) && c.ts[0].ops() >= 2);
    if view(&ra) == view(&rb) {
        cx.hit("identical results");
    }
    let (va, vb) = (view(&ra), view(&rb));
    if ra == rb && canon(&va) == canon(&vb) {
        return Ok(());
    }
    if near_limit(&va) || near_limit(&vb) {
        cx.discard = Some("numbers near the limit");
        return Ok(());
    }
    // non-integer powers of products are not distributed, those of numbers not evaluated:
    // x^(1/2)*y^(1/2) and (x*y)^(1/2), 2*2^(1/2) and 2^(3/2) both stay
    let root = |t: &T| match t {
        T::Pow(_, b, e) => !matches!(**e, T::Q(_, 1)) && matches!(**b, T::Q(..) | T::Prod(..)),
        _ => false,
    };
    let roots = [&view(&a), &view(&b), &va, &vb].iter().any(|t| t.any(&root));
    if roots || multiple_of_sum(&va) || multiple_of_sum(&vb) {
        cx.hit(if roots { "root of a product or number, compared by value" } else { "multiple of a sum, compared by value" });
        same_value(&va, &vb, needs_pos(&c.ts[0]), true)?;
        return Ok(());
    }
    Err(format!("{va} vs {vb}"))
}

// ------------------------------------------------------------ C07

pub type Mono = BTreeMap<String, u32>;
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Poly(pub BTreeMap<Mono, BigRational>);
impl Poly {
    pub fn con(r: BigRational) -> Poly {
        Poly([(Mono::new(), r)].into()).norm()
    }
    fn norm(mut self) -> Poly {
        self.0.retain(|_, c| !c.is_zero());
        self
    }
    pub fn add(&self, o: &Poly, sign: i32) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            let e = r.0.entry(m.clone()).or_insert_with(BigRational::zero);
            *e += c * BigRational::from_integer(sign.into());
        }
        r.norm()
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::default();
        for (m1, c1) in &self.0 {
            for (m2, c2) in &o.0 {
                let mut m = m1.clone();
                for (v, d) in m2 {
                    *m.entry(v.clone()).or_default() += d;
                }
                *r.0.entry(m).or_insert_with(BigRational::zero) += c1 * c2;
            }
        }
        r.norm()
    }
    /// the model of a polynomial expression; None when it is not one
    pub fn of(t: &T) -> Option<Poly> {
        Some(match t {
            T::Q(n, d) => Poly::con(BigRational::new(BigInt::from(*n), BigInt::from(*d))),
            T::V(v) => Poly([([(v.clone(), 1)].into(), BigRational::one())].into()),
            T::Sum(_, v) => v.iter().try_fold(Poly::default(), |a, b| Some(a.add(&Poly::of(b)?, 1)))?,
            T::Prod(_, v) => v
                .iter()
                .try_fold(Poly::con(BigRational::one()), |a, b| Some(a.mul(&Poly::of(b)?)))?,
            T::Sub(a, b) => Poly::of(a)?.add(&Poly::of(b)?, -1),
            T::Pow(_, b, e) => match **e {
                T::Q(n, 1) if (0..=64).contains(&n) => {
                    let b = Poly::of(b)?;
                    (0..n).fold(Poly::con(BigRational::one()), |a, _| a.mul(&b))
                }
                _ => return None,
            },
            _ => return None,
        })
    }
    /// bounds that also hold for every coefficient met on the way to the expanded form: the sum
    /// of the absolute values of the coefficients before anything cancels, and a common
    /// denominator of them (1/7^23 - 1/7^23 is zero, but its cube goes through 1/7^69)
    fn uncancelled(t: &T) -> Option<(BigRational, BigInt)> {
        use num::{Integer, Signed};
        let r = match t {
            T::Q(n, d) => (BigRational::new(BigInt::from(*n), BigInt::from(*d)).abs(), BigInt::from(*d).abs()),
            T::V(_) => (BigRational::one(), BigInt::one()),
            T::Sum(_, v) => v.iter().try_fold((BigRational::zero(), BigInt::one()), |a, b| {
                let b = Poly::uncancelled(b)?;
                Some((a.0 + b.0, a.1.lcm(&b.1)))
            })?,
            T::Prod(_, v) => v.iter().try_fold((BigRational::one(), BigInt::one()), |a, b| {
                let b = Poly::uncancelled(b)?;
                Some((a.0 * b.0, a.1 * b.1))
            })?,
            T::Sub(a, b) => {
                let (a, b) = (Poly::uncancelled(a)?, Poly::uncancelled(b)?);
                (a.0 + b.0, a.1.lcm(&b.1))
            }
            T::Pow(_, b, e) => match **e {
                T::Q(n, 1) if (0..=64).contains(&n) => {
                    let b = Poly::uncancelled(b)?;
                    (0..n).fold((BigRational::one(), BigInt::one()), |a, _| (a.0 * &b.0, a.1 * &b.1))
                }
                _ => return None,
            },
            _ => return None,
        };
        (r.0.numer().bits() < 200 && r.1.bits() < 200).then_some(r)
    }
    /// every coefficient of every way of expanding t fits comfortably
    pub fn small_throughout(t: &T) -> bool {
        Poly::uncancelled(t).is_some_and(|(s, d)| d.bits() < 42 && (s * d).to_integer().bits() < 80)
    }
    pub fn small(&self) -> bool {
        self.0.values().all(|c| c.numer().bits() < 60 && c.denom().bits() < 40)
    }
}

/// the terms of an expanded and reduced polynomial, read off its structure
fn literal_terms(t: &T) -> Option<Vec<(Mono, BigRational)>> {
    let sum: Vec<&T> = match t {
        T::Sum(_, v) => v.iter().collect(),
        t => vec![t],
    };
    sum.into_iter()
        .map(|t| {
            let fs: Vec<&T> = match t {
                T::Prod(_, v) => v.iter().collect(),
                t => vec![t],
            };
            let mut m = Mono::new();
            let mut c = BigRational::one();
            for f in fs {
                match f {
                    T::Q(n, d) => c *= BigRational::new(BigInt::from(*n), BigInt::from(*d)),
                    T::V(v) => {
                        if m.insert(v.clone(), 1).is_some() {
                            return None;
                        }
                    }
                    T::Pow(_, b, e) => match (&**b, &**e) {
                        (T::V(v), T::Q(n, 1)) if *n > 1 => {
                            if m.insert(v.clone(), *n as u32).is_some() {
                                return None;
                            }
                        }
                        _ => return None,
                    },
                    _ => return None,
                }
            }
            Some((m, c))
        })
        .collect()
}

fn c07_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let g = G { vars: if s.chance(128) { XY } else { XYZ }, sub_div: false, ..G::polynomial() };
    let p = gen_small(s, d, 400, &|s, d| g.top(s, d));
    match s.weighted(&[3, 3, 2]) {
        0 => Case::new("normal form", vec![p]),
        // equal polynomials written differently
        1 => {
            let q = rewrite_poly(&p, s);
            Case::new("equal", vec![p, q])
        }
        _ => {
            let q = gen_small(s, 2, 400, &|s, d| g.top(s, d));
            Case::new("compare", vec![p, q])
        }
    }
}
/// another way to write the same polynomial
fn rewrite_poly(t: &T, s: &mut Src) -> T {
    let t = map_kids(t, &mut |a| rewrite_poly(a, s));
    match t {
        // distribute one product over a sum
        T::Prod(st, v) if s.chance(90) => {
            if let Some(i) = v.iter().position(|a| matches!(a, T::Sum(_, w) if !w.is_empty())) {
                let w = match &v[i] {
                    T::Sum(_, w) => w.clone(),
                    _ => vec![],
                };
                let rest: Vec<T> = v.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, a)| a.clone()).collect();
                return T::Sum(
                    st,
                    w.into_iter()
                        .map(|a| {
                            let mut r = rest.clone();
                            r.push(a);
                            T::Prod(st, r)
                        })
                        .collect(),
                );
            }
            T::Prod(st, v)
        }
        // x^n = x * x^(n-1)
        T::Pow(st, b, e) if s.chance(120) => match *e {
            T::Q(n, 1) if n > 1 => T::Prod(st, vec![(*b).clone(), T::Pow(st, b, Box::new(int(n - 1)))]),
            _ => T::Pow(st, b, e),
        },
        t => shuffle(&t, s),
    }
}

fn c07_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let mut polys = vec![];
    for t in &c.ts {
        match Poly::of(t) {
            Some(p) if p.small() && Poly::small_throughout(t) => polys.push(p),
            _ => {
                cx.discard = Some("coefficients too large or 0^0");
                return Ok(());
            }
        }
        if t.any(&|t| matches!(t, T::Pow(_, _, e) if **e == int(0))) {
            cx.discard = Some("zeroth power");
            return Ok(());
        }
    }
    let nfs: Vec<Expr> = c.ts.iter().map(|t| build(t).expand().reduce()).collect();
    for ((t, p), e) in c.ts.iter().zip(&polys).zip(&nfs) {
        let v = view(e);
        let terms = literal_terms(&v).ok_or_else(|| format!("{t} expands to {v}, which is not a sum of monomials"))?;
        let n = terms.len();
        let got: BTreeMap<Mono, BigRational> = terms.into_iter().collect();
        ensure(got.len() == n, || format!("repeated monomials in {v}"))?;
        let zero = p.0.is_empty();
        ensure(got == p.0 || (zero && v == int(0)), || format!("{t} expands to {v}; the polynomial is {:?}", p.0))?;
        cx.nt(p.0.len() >= 2 || t.ops() >= 3);
        if zero {
            cx.hit("zero polynomial");
        }
    }
    if c.ts.len() == 2 {
        let same = polys[0] == polys[1];
        ensure((nfs[0] == nfs[1]) == same, || {
            format!("equal: {same}, but got {} and {}", view(&nfs[0]), view(&nfs[1]))
        })?;
        let diff = (build(&c.ts[0]) - build(&c.ts[1])).expand().reduce();
        ensure(diff.is_zero() == same, || format!("equal: {same}, but the difference is {}", view(&diff)))?;
        cx.hit(if same { "pair of equal polynomials" } else { "pair of different polynomials" });
    }
    Ok(())
}

// ------------------------------------------------------------ C20

fn c20_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let g = G { undef: s.chance(30), ..anything(s) };
    let t = gen_small(s, d, 250, &|s, d| g.top(s, d));
    // shuffle the tree the library builds, so that only the order differs
    let t = try_view(&t);
    let p = shuffle(&t, s);
    Case::new("sort", vec![t, p])
}
fn c20_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let (a, b) = (build(&c.ts[0]), build(&c.ts[1]));
    let (sa, sb) = (a.sort_args(), b.sort_args());
    cx.nt(c.ts[0] != c.ts[1]);
    if view(&sa) != c.ts[0] {
        cx.hit("order changed");
    }
    ensure(canon(&view(&sa)) == canon(&c.ts[0]), || {
        format!("sorting {} gives {}: not a reordering of its arguments", c.ts[0], view(&sa))
    })?;
    ensure(view(&sa) == view(&sb), || {
        format!("two orders of the same arguments sort differently: {} vs {}", view(&sa), view(&sb))
    })?;
    let ssa = sa.sort_args();
    ensure(view(&ssa) == view(&sa), || format!("sorting again changes {} to {}", view(&sa), view(&ssa)))?;
    ensure(sa == a && a == b, || "sorted expression compares unequal to the original".into())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            gen: c05_gen,
            check: c05_check,
            quick: 1_500_000,
            thorough: 30_000_000,
            rule: "reduce changed the expression and it has at least two operations",
            assumptions: &["sizes bounded by the generator (depth <= 4, fully expanded size <= 250 operations)"],
        },
        Prop {
            id: "C06",
            gen: c06_gen,
            check: c06_check,
            quick: 1_500_000,
            thorough: 30_000_000,
            rule: "the two written orders differ structurally and the expression has at least two operations",
            assumptions: &["exponents are integers and the expression has a value at some sample point"],
        },
        Prop {
            id: "C07",
            gen: c07_gen,
            check: c07_check,
            quick: 1_000_000,
            thorough: 20_000_000,
            rule: "the polynomial has at least two terms or was written with at least three operations",
            assumptions: &["coefficients of the model stay below 60 bits"],
        },
        Prop {
            id: "C20",
            gen: c20_gen,
            check: c20_check,
            quick: 1_500_000,
            thorough: 30_000_000,
            rule: "the shuffled expression differs from the original",
            assumptions: &[],
        },
    ]
}
