//! Independent meaning of an expression, two ways:
//!  * `fp`: exact, in the prime field GF(2^61-1). Covers every expression whose
//!    exponents are integers at the point. Functions and pi, e are interpreted
//!    as pseudo random field functions that only know the parity of the function
//!    (and log_b(b) = 1), so it settles purely algebraic rewriting with
//!    no rounding at all.
//!  * `ball`: real f64 midpoint-radius arithmetic with the true elementary
//!    functions. A comparison only counts when the radii are tiny.

use crate::term::*;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- field

pub const P: u64 = (1 << 61) - 1;

pub fn fadd(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P {
        s - P
    } else {
        s
    }
}
pub fn fneg(a: u64) -> u64 {
    if a == 0 {
        0
    } else {
        P - a
    }
}
pub fn fmul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn fpow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = fmul(r, b);
        }
        b = fmul(b, b);
        e >>= 1;
    }
    r
}
pub fn finv(a: u64) -> u64 {
    fpow(a, P - 2)
}
pub fn fint(n: i128) -> u64 {
    n.rem_euclid(P as i128) as u64
}
fn mix(a: u64, b: u64) -> u64 {
    let mut z = a
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(b ^ 0x2545F4914F6CDD1D);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    (z ^ (z >> 31)) % P
}

/// why there is no value
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum No {
    /// contains undef, or 0^0, 0^negative, x/0 at this point
    Undefined,
    /// this evaluator cannot decide (fraction exponent, domain, overflow...)
    Unknown,
    /// no real value: a root or logarithm of a negative number, arcsin 2
    NotReal,
}
pub type Ev<A> = Result<A, No>;

pub struct FpEnv {
    pub salt: u64,
    /// variables that may stand in exponents have small integer values
    pub small: BTreeMap<String, i64>,
    /// powers have arbitrary values, except that b^1 = b and b^-e = 1/b^e
    pub opaque: bool,
}

impl FpEnv {
    pub fn new(salt: u64, exps: &[&str]) -> Self {
        let mut small = BTreeMap::new();
        for (i, v) in exps.iter().enumerate() {
            let k = mix(salt, 1000 + i as u64);
            let s = 2 + (k % 5) as i64;
            small.insert(v.to_string(), s);
        }
        FpEnv { salt, small, opaque: false }
    }
    fn var(&self, v: &str) -> u64 {
        if let Some(s) = self.small.get(v) {
            return fint(*s as i128);
        }
        let h = v.bytes().fold(7u64, |a, b| mix(a, b as u64));
        mix(self.salt, h)
    }
}

/// exact small rational value of an exponent (numerator, denominator)
fn small_val(t: &T, env: &FpEnv) -> Ev<(i128, i128)> {
    fn norm(n: i128, d: i128) -> Ev<(i128, i128)> {
        if d == 0 {
            return Err(No::Undefined);
        }
        let g = num::integer::gcd(n, d);
        let (n, d) = if g == 0 { (0, 1) } else { (n / g, d / g) };
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        if n.abs() > 1 << 40 || d > 1 << 40 {
            return Err(No::Unknown);
        }
        Ok((n, d))
    }
    match t {
        T::Q(n, d) => norm(*n, *d),
        T::Undef => Err(No::Undefined),
        T::V(v) => env
            .small
            .get(v)
            .map(|s| (*s as i128, 1))
            .ok_or(No::Unknown),
        T::Sum(_, xs) => {
            let mut r = (0, 1);
            for x in xs {
                let v = small_val(x, env)?;
                r = norm(r.0 * v.1 + v.0 * r.1, r.1 * v.1)?;
            }
            Ok(r)
        }
        T::Prod(_, xs) => {
            let mut r = (1, 1);
            for x in xs {
                let v = small_val(x, env)?;
                r = norm(r.0 * v.0, r.1 * v.1)?;
            }
            Ok(r)
        }
        T::Sub(a, b) => {
            let (r, v) = (small_val(a, env)?, small_val(b, env)?);
            norm(r.0 * v.1 - v.0 * r.1, r.1 * v.1)
        }
        T::Div(_, a, b) => {
            let (r, v) = (small_val(a, env)?, small_val(b, env)?);
            norm(r.0 * v.1, r.1 * v.0)
        }
        T::Pow(_, a, b) => {
            let (b, e) = (small_val(a, env)?, small_val(b, env)?);
            if e.1 != 1 || e.0.abs() > 8 {
                return Err(No::Unknown);
            }
            if b.0 == 0 && e.0 <= 0 {
                return Err(No::Undefined);
            }
            let k = e.0.unsigned_abs() as u32;
            let n = b.0.checked_pow(k).ok_or(No::Unknown)?;
            let d = b.1.checked_pow(k).ok_or(No::Unknown)?;
            if e.0 >= 0 {
                norm(n, d)
            } else {
                norm(d, n)
            }
        }
        _ => Err(No::Unknown),
    }
}

pub fn fp(t: &T, env: &FpEnv) -> Ev<u64> {
    if t.has_undef() {
        return Err(No::Undefined);
    }
    fp_rec(t, env)
}

fn fdiv(a: u64, b: u64) -> Ev<u64> {
    if b == 0 {
        Err(No::Undefined)
    } else {
        Ok(fmul(a, finv(b)))
    }
}

fn fp_fun(k: Fk, a: u64, env: &FpEnv) -> u64 {
    // odd / even in the argument, nothing else
    let c = a.min(fneg(a));
    let h = mix(mix(env.salt, 77 + k as u64), c);
    match k {
        Fk::Cos => {
            if a == 0 {
                1
            } else {
                h
            }
        }
        Fk::Sec => h,
        Fk::Sin => {
            if a == 0 {
                0
            } else if c == a {
                h
            } else {
                fneg(h)
            }
        }
        Fk::Tan | Fk::Cot | Fk::Csc | Fk::ArcSin | Fk::ArcTan | Fk::ArcCsc | Fk::ArcCot => {
            if c == a {
                h
            } else {
                fneg(h)
            }
        }
        Fk::ArcCos | Fk::ArcSec => mix(mix(env.salt, 77 + k as u64), a),
    }
}

fn fp_rec(t: &T, env: &FpEnv) -> Ev<u64> {
    Ok(match t {
        T::Q(n, d) => {
            let d = fint(*d);
            fdiv(fint(*n), d)?
        }
        T::Pi => mix(env.salt, 3141),
        T::E => mix(env.salt, 2718),
        T::Undef => return Err(No::Undefined),
        T::V(v) => env.var(v),
        T::Sum(_, xs) => {
            let mut r = 0;
            for x in xs {
                r = fadd(r, fp_rec(x, env)?);
            }
            r
        }
        T::Prod(_, xs) => {
            let mut r = 1;
            for x in xs {
                r = fmul(r, fp_rec(x, env)?);
            }
            r
        }
        T::Sub(a, b) => fadd(fp_rec(a, env)?, fneg(fp_rec(b, env)?)),
        T::Div(_, a, b) => fdiv(fp_rec(a, env)?, fp_rec(b, env)?)?,
        T::Pow(_, b, e) => {
            if env.opaque {
                let (b, e) = (fp_rec(b, env)?, fp_rec(e, env)?);
                let c = e.min(fneg(e));
                let h = if c == 1 { b } else { mix(mix(env.salt, b ^ 5), c) };
                return if c == e { Ok(h) } else { fdiv(1, h) };
            }
            let e = small_val(e, env)?;
            if e.1 != 1 {
                return Err(No::Unknown);
            }
            let b = fp_rec(b, env)?;
            if b == 0 && e.0 <= 0 {
                return Err(No::Undefined);
            }
            if e.0 >= 0 {
                fpow(b, e.0 as u64)
            } else {
                finv(fpow(b, e.0.unsigned_abs() as u64))
            }
        }
        T::F(k, a) => fp_fun(*k, fp_rec(a, env)?, env),
        T::Log(b, a) => {
            let bv = match b {
                Base::E => mix(env.salt, 2718),
                Base::Pi => mix(env.salt, 3141),
                Base::Q(n, d) => fdiv(fint(*n), fint(*d))?,
            };
            let av = fp_rec(a, env)?;
            if av == 0 {
                return Err(No::Undefined);
            }
            if av == bv {
                1
            } else {
                mix(mix(env.salt, bv), av)
            }
        }
        T::Exp(_) | T::Sqrt(_) => return Err(No::Unknown),
    })
}

// ---------------------------------------------------------------- balls

#[derive(Clone, Copy, Debug)]
pub struct Ball {
    pub m: f64,
    pub r: f64,
}
const EPS: f64 = 2.3e-16;

impl Ball {
    pub fn exact(m: f64) -> Ball {
        Ball { m, r: 0.0 }
    }
    fn mk(m: f64, r: f64) -> Ev<Ball> {
        let tiny = m != 0.0 && m.abs() < 1e-150;
        if !m.is_finite() || !r.is_finite() || m.abs() > 1e150 || tiny {
            return Err(No::Unknown);
        }
        Ok(Ball {
            m,
            r: r + m.abs() * EPS * 2.0 + 1e-300,
        })
    }
    pub fn lo(&self) -> f64 {
        self.m - self.r
    }
    pub fn hi(&self) -> f64 {
        self.m + self.r
    }
    pub fn has_zero(&self) -> bool {
        self.lo() <= 0.0 && self.hi() >= 0.0
    }
    pub fn add(self, o: Ball) -> Ev<Ball> {
        Ball::mk(self.m + o.m, self.r + o.r)
    }
    pub fn neg(self) -> Ball {
        Ball {
            m: -self.m,
            r: self.r,
        }
    }
    pub fn mul(self, o: Ball) -> Ev<Ball> {
        let m = self.m * o.m;
        if m == 0.0 && self.m != 0.0 && o.m != 0.0 {
            return Err(No::Unknown);
        }
        Ball::mk(
            m,
            self.m.abs() * o.r + o.m.abs() * self.r + self.r * o.r,
        )
    }
    pub fn inv(self) -> Ev<Ball> {
        if self.m == 0.0 && self.r < 1e-290 {
            return Err(No::Undefined);
        }
        if self.has_zero() {
            return Err(No::Unknown);
        }
        let lo = self.m.abs() - self.r;
        Ball::mk(1.0 / self.m, self.r / (self.m.abs() * lo))
    }
    pub fn powi(self, n: i64) -> Ev<Ball> {
        if n < 0 {
            return self.powi(-n)?.inv();
        }
        let mut r = Ball::exact(1.0);
        let mut b = self;
        let mut e = n as u64;
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(b)?;
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(b)?;
            }
        }
        Ok(r)
    }
    pub fn ln(self) -> Ev<Ball> {
        if self.hi() < 0.0 {
            return Err(No::NotReal);
        }
        if self.lo() <= 0.0 {
            return Err(No::Unknown);
        }
        Ball::mk(self.m.ln(), self.r / self.lo() + EPS * 4.0)
    }
    pub fn exp(self) -> Ev<Ball> {
        if self.m > 300.0 || self.m < -300.0 {
            return Err(No::Unknown);
        }
        let m = self.m.exp();
        Ball::mk(m, m * self.r.exp_m1() + m * EPS * 4.0)
    }
    pub fn sin(self) -> Ev<Ball> {
        if self.m.abs() > 1e6 {
            return Err(No::Unknown);
        }
        Ball::mk(self.m.sin(), self.r + EPS * 4.0)
    }
    pub fn cos(self) -> Ev<Ball> {
        if self.m.abs() > 1e6 {
            return Err(No::Unknown);
        }
        Ball::mk(self.m.cos(), self.r + EPS * 4.0)
    }
    fn asin_like(self, f: fn(f64) -> f64) -> Ev<Ball> {
        if self.m.abs() - self.r > 1.0 {
            return Err(No::NotReal);
        }
        let w = self.m.abs() + self.r;
        if w >= 0.999 {
            return Err(No::Unknown);
        }
        Ball::mk(f(self.m), self.r / (1.0 - w * w).sqrt() + EPS * 8.0)
    }
}

/// two real values are provably different (Some(true)), equal for all purposes
/// (Some(false)), or too imprecise to compare (None)
pub fn differs(a: Ball, b: Ball) -> Option<bool> {
    let scale = a.m.abs().max(b.m.abs());
    let rad = a.r + b.r;
    if rad > 1e-6 * scale && rad > 1e-9 {
        return None;
    }
    let d = (a.m - b.m).abs();
    Some(d > 4.0 * rad + 1e-9 * scale)
}

#[derive(Clone)]
pub struct REnv {
    pub vals: BTreeMap<String, Ball>,
    pub def: f64,
}
impl REnv {
    pub fn get(&self, v: &str) -> Ball {
        // any other name has a positive value of its own
        let other = || {
            let h = v.bytes().fold(self.def.to_bits(), |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(17));
            Ball::exact(0.3 + (h >> 40) as f64 / 1e7)
        };
        self.vals.get(v).copied().unwrap_or_else(other)
    }
}

pub fn ball(t: &T, env: &REnv) -> Ev<Ball> {
    if t.has_undef() {
        return Err(No::Undefined);
    }
    ball_rec(t, env)
}

pub fn q_ball(n: i128, d: i128) -> Ev<Ball> {
    if d == 0 {
        return Err(No::Undefined);
    }
    Ball::mk(n as f64 / d as f64, (n as f64 / d as f64).abs() * EPS * 4.0)
}

pub fn fun_ball(k: Fk, a: Ball) -> Ev<Ball> {
    match k {
        Fk::Sin => a.sin(),
        Fk::Cos => a.cos(),
        Fk::Tan => a.sin()?.mul(a.cos()?.inv()?),
        Fk::Sec => a.cos()?.inv(),
        Fk::Cot => a.cos()?.mul(a.sin()?.inv()?),
        Fk::Csc => a.sin()?.inv(),
        Fk::ArcSin => a.asin_like(f64::asin),
        Fk::ArcCos => a.asin_like(f64::acos),
        Fk::ArcTan => Ball::mk(a.m.atan(), a.r + EPS * 4.0),
        Fk::ArcSec => a.inv()?.asin_like(f64::acos),
        Fk::ArcCsc => a.inv()?.asin_like(f64::asin),
        // two conventions exist for negative arguments; stay off them
        Fk::ArcCot => {
            if a.lo() <= 0.0 {
                return Err(No::Unknown);
            }
            let i = a.inv()?;
            Ball::mk(i.m.atan(), i.r + EPS * 4.0)
        }
    }
}

pub fn log_ball(b: Base, a: Ball) -> Ev<Ball> {
    let l = a.ln()?;
    match b {
        Base::E => Ok(l),
        Base::Pi => l.mul(Ball::exact(std::f64::consts::PI).ln()?.inv()?),
        Base::Q(n, d) => l.mul(q_ball(n, d)?.ln()?.inv()?),
    }
}

/// b^e for real numbers; `eint` is the exact integer value of the exponent if it is one
pub fn pow_ball(b: Ball, e: Ball) -> Ev<Ball> {
    let n = e.m.round();
    if (e.m - n).abs() < 1e-12 && e.r < 1e-9 && n.abs() <= 512.0 {
        if b.m == 0.0 && b.r < 1e-290 && n <= 0.0 {
            return Err(No::Undefined);
        }
        if b.has_zero() && n <= 0.0 {
            return Err(No::Unknown);
        }
        let r = b.powi(n as i64)?;
        // exponent is within this of the integer
        let off = e.r + (e.m - n).abs();
        if off > 0.0 && b.lo() > 0.0 {
            let extra = r.m.abs() * (b.ln()?.m.abs() + 1.0) * off * 2.0;
            return Ball::mk(r.m, r.r + extra);
        }
        return Ok(r);
    }
    if b.hi() < 0.0 && (e.m - n).abs() > e.r + 1e-9 {
        return Err(No::NotReal);
    }
    if b.lo() <= 0.0 {
        return Err(No::Unknown);
    }
    b.ln()?.mul(e)?.exp()
}

fn ball_rec(t: &T, env: &REnv) -> Ev<Ball> {
    match t {
        T::Q(n, d) => q_ball(*n, *d),
        T::Pi => Ball::mk(std::f64::consts::PI, 0.0),
        T::E => Ball::mk(std::f64::consts::E, 0.0),
        T::Undef => Err(No::Undefined),
        T::V(v) => Ok(env.get(v)),
        T::Sum(_, xs) => {
            let mut r = Ball::exact(0.0);
            for x in xs {
                r = r.add(ball_rec(x, env)?)?;
            }
            Ok(r)
        }
        T::Prod(_, xs) => {
            let mut r = Ball::exact(1.0);
            for x in xs {
                r = r.mul(ball_rec(x, env)?)?;
            }
            Ok(r)
        }
        T::Sub(a, b) => ball_rec(a, env)?.add(ball_rec(b, env)?.neg()),
        T::Div(_, a, b) => ball_rec(a, env)?.mul(ball_rec(b, env)?.inv()?),
        T::Pow(_, b, e) => {
            let (b, e) = (ball_rec(b, env)?, ball_rec(e, env)?);
            pow_ball(b, e)
        }
        T::F(k, a) => fun_ball(*k, ball_rec(a, env)?),
        T::Log(b, a) => log_ball(*b, ball_rec(a, env)?),
        T::Exp(a) => ball_rec(a, env)?.exp(),
        T::Sqrt(a) => pow_ball(ball_rec(a, env)?, Ball::exact(0.5)),
    }
}

/// the sample points every comparison uses (positive when `pos`)
pub fn points(pos: bool) -> &'static [REnv] {
    static POS: std::sync::OnceLock<Vec<REnv>> = std::sync::OnceLock::new();
    static ALL: std::sync::OnceLock<Vec<REnv>> = std::sync::OnceLock::new();
    if pos {
        POS.get_or_init(|| mk_points(true))
    } else {
        ALL.get_or_init(|| mk_points(false))
    }
}
fn mk_points(pos: bool) -> Vec<REnv> {
    let names = ["x", "y", "z", "a", "b", "c", "d", "n", "m", "w"];
    let tabs: [[f64; 10]; 5] = [
        [0.731, 1.213, 0.417, 1.559, 0.887, 0.351, 1.127, 2.0, 3.0, 0.643],
        [1.847, 0.523, 2.311, 0.791, 1.373, 1.019, 0.457, 3.0, 2.0, 1.709],
        [0.229, 0.377, 0.163, 0.283, 0.447, 0.619, 0.541, 2.0, 2.0, 0.113],
        [-0.623, 1.171, -1.387, 0.859, -0.291, 1.933, -1.531, 3.0, 2.0, 0.767],
        [2.417, -1.733, 0.937, -2.119, 1.481, -0.673, 0.319, 2.0, 3.0, -1.213],
    ];
    let n = if pos { 3 } else { 5 };
    tabs.iter()
        .take(n)
        .map(|t| REnv {
            vals: names
                .iter()
                .zip(t)
                .map(|(n, v)| (n.to_string(), Ball::exact(*v)))
                .collect(),
            def: t[0],
        })
        .collect()
}

pub fn fp_envs() -> &'static [FpEnv] {
    static E: std::sync::OnceLock<Vec<FpEnv>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        vec![
            FpEnv::new(0x1234567, &["n", "m"]),
            FpEnv::new(0x7654321, &["n", "m"]),
        ]
    })
}

/// the same value whatever powers mean, as long as b^1 = b and b^-e = 1/b^e;
/// None: one has no value
pub fn same_opaque(a: &T, b: &T) -> Option<bool> {
    static E: std::sync::OnceLock<Vec<FpEnv>> = std::sync::OnceLock::new();
    let envs = E.get_or_init(|| {
        [0x2345671, 0x6543217]
            .map(|s| FpEnv { opaque: true, ..FpEnv::new(s, &["n", "m"]) })
            .into()
    });
    let mut r = None;
    for env in envs {
        if let (Ok(x), Ok(y)) = (fp(a, env), fp(b, env)) {
            if x != y {
                return Some(false);
            }
            r = Some(true);
        }
    }
    r
}

/// Compare two expressions by value. Returns Ok((conclusive points)) or a message.
/// `pos`: only positive variable values (expressions with roots or logs).
/// `fp_too`: compare in the exact interpretation (functions uninterpreted)
pub fn same_value(a: &T, b: &T, pos: bool, fp_too: bool) -> Result<Cmp, String> {
    let mut c = Cmp::default();
    if fp_too {
        for env in fp_envs() {
            match (fp(a, env), fp(b, env)) {
                (Ok(x), Ok(y)) => {
                    c.fp += 1;
                    if x != y {
                        return Err(format!(
                            "different value: exact evaluation (salt {}) gives {x} vs {y}",
                            env.salt
                        ));
                    }
                }
                (Ok(_), Err(No::Undefined)) => {
                    c.lost += 1;
                }
                (Err(No::Undefined), _) => c.undef += 1,
                _ => (),
            }
        }
    }
    for env in points(pos) {
        match (ball(a, env), ball(b, env)) {
            (Ok(x), Ok(y)) => match differs(x, y) {
                Some(true) => {
                    let pt: Vec<String> = a
                        .vars()
                        .union(&b.vars())
                        .map(|v| format!("{v}={}", env.get(v).m))
                        .collect();
                    return Err(format!(
                        "different value at {}: {} vs {}",
                        pt.join(" "),
                        x.m,
                        y.m
                    ));
                }
                Some(false) => c.real += 1,
                None => (),
            },
            (Ok(_), Err(No::Undefined)) => c.lost += 1,
            (Ok(x), Err(No::NotReal)) => {
                let pt: Vec<String> =
                    a.vars().union(&b.vars()).map(|v| format!("{v}={}", env.get(v).m)).collect();
                return Err(format!("has the value {} at {}, the result has no real value", x.m, pt.join(" ")));
            }
            (Ok(_), Err(No::Unknown)) => c.unk += 1,
            (Err(No::Undefined), _) => c.undef += 1,
            _ => (),
        }
    }
    if c.lost > 0 {
        // the result is undefined where the input has a value
        if b.has_undef() {
            return Err("result is undef although the input has a value".into());
        }
        if c.fp + c.real == 0 {
            return Err("result has no value (division by zero) where the input has one".into());
        }
    }
    Ok(c)
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Cmp {
    pub fp: u32,
    pub real: u32,
    pub lost: u32,
    pub undef: u32,
    pub unk: u32,
}
impl Cmp {
    pub fn conclusive(&self) -> bool {
        self.fp + self.real > 0
    }
}


/// the rational value of a constant exponent expression
pub fn const_val(t: &T) -> Option<(i128, i128)> {
    let env = FpEnv {
        salt: 0,
        small: BTreeMap::new(),
        opaque: false,
    };
    small_val(t, &env).ok()
}

/// (summands after full expansion, total work estimate); saturating
pub fn expansion_size(t: &T) -> (u64, u64) {
    const CAP: u64 = 1 << 40;
    let cap = |x: u64| x.min(CAP);
    match t {
        T::Sum(_, xs) => {
            let (mut n, mut w) = (0, 0);
            for x in xs {
                let (a, b) = expansion_size(x);
                n = cap(n + a);
                w = cap(w + b);
            }
            (n.max(1), cap(w + n))
        }
        T::Prod(_, xs) => {
            let (mut n, mut w) = (1u64, 0);
            for x in xs {
                let (a, b) = expansion_size(x);
                n = cap(n.saturating_mul(a));
                w = cap(w + b);
            }
            (n, cap(w + n))
        }
        T::Sub(a, b) => {
            let (a, b) = (expansion_size(a), expansion_size(b));
            (cap(a.0 + b.0), cap(a.1 + b.1 + a.0 + b.0))
        }
        T::Div(_, a, b) => {
            let (a, b) = (expansion_size(a), expansion_size(b));
            (cap(a.0.saturating_mul(b.0.max(1))), cap(a.1 + b.1 + a.0.saturating_mul(b.0).min(CAP)))
        }
        T::Pow(_, b, e) => {
            let (k, w) = expansion_size(b);
            let (_, we) = expansion_size(e);
            // the exponent may be large in absolute value: both signs count,
            // an outer power may turn the sign
            let n = match const_val(e) {
                Some((n, d)) => (n.unsigned_abs() as u64) / (d as u64),
                None => 1,
            };
            let mut r = 1u64;
            if k > 1 {
                for _ in 0..n.min(64) {
                    r = cap(r.saturating_mul(k));
                }
            }
            (r, cap(w + we + r))
        }
        T::Sqrt(a) | T::Exp(a) => {
            let a = expansion_size(a);
            (a.0, cap(a.1 + 1))
        }
        T::F(_, a) | T::Log(_, a) => (1, cap(expansion_size(a).1 + 1)),
        _ => (1, 1),
    }
}


fn int_factor(t: &T) -> u64 {
    let me = match t {
        T::Q(n, d) => (n.unsigned_abs().max(d.unsigned_abs()) as u64).clamp(1, 1000),
        _ => 1,
    };
    t.kids()
        .iter()
        .fold(me, |a, k| a.saturating_mul(int_factor(k)).min(1 << 30))
}

/// (summands, work) when sines and cosines of sums and multiples are expanded
pub fn trig_size(t: &T) -> (u64, u64) {
    const CAP: u64 = 1 << 40;
    let cap = |x: u64| x.min(CAP);
    match t {
        T::F(_, a) => {
            let (k, w) = trig_size(a);
            let mut r = int_factor(a).max(1);
            for _ in 0..k.min(40) {
                r = cap(r.saturating_mul(2));
            }
            (r, cap(w + r))
        }
        T::Sum(_, xs) => {
            let (mut n, mut w) = (0, 0);
            for x in xs {
                let (a, b) = trig_size(x);
                n = cap(n + a);
                w = cap(w + b);
            }
            (n.max(1), cap(w + n))
        }
        T::Prod(_, xs) => {
            let (mut n, mut w) = (1u64, 0);
            for x in xs {
                let (a, b) = trig_size(x);
                n = cap(n.saturating_mul(a));
                w = cap(w + b);
            }
            (n, cap(w + n))
        }
        T::Sub(a, b) => {
            let (a, b) = (trig_size(a), trig_size(b));
            (cap(a.0 + b.0), cap(a.1 + b.1 + a.0 + b.0))
        }
        T::Div(_, a, b) => {
            let (a, b) = (trig_size(a), trig_size(b));
            (cap(a.0.saturating_mul(b.0.max(1))), cap(a.1 + b.1 + a.0.saturating_mul(b.0).min(CAP)))
        }
        T::Pow(_, b, e) => {
            let (k, w) = trig_size(b);
            let (_, we) = trig_size(e);
            let n = match const_val(e) {
                Some((n, d)) => (n.unsigned_abs() as u64).div_ceil(d as u64),
                None => 1,
            };
            let mut r = 1u64;
            if k > 1 {
                for _ in 0..n.min(64) {
                    r = cap(r.saturating_mul(k));
                }
            } else {
                r = n.min(1000).max(1);
            }
            (r, cap(w + we + r))
        }
        T::Sqrt(a) | T::Exp(a) | T::Log(_, a) => {
            let a = trig_size(a);
            (a.0, cap(a.1 + 1))
        }
        _ => (1, 1),
    }
}
