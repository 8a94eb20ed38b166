//! `T`: the harness' own description of an expression. It is what generators
//! produce, what the oracle evaluates, and what replay files contain. It knows
//! nothing about the library; `build` turns it into a library `Expr` through a
//! chosen public construction route.

use calcu_rs::atom::{Atom, Expr, Func, Irrational, Prod, Real, Sum};
use calcu_rs::rational::Rational;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fk {
    Sin,
    Cos,
    Tan,
    Sec,
    Cot,
    Csc,
    ArcSin,
    ArcCos,
    ArcTan,
    ArcSec,
    ArcCot,
    ArcCsc,
}
pub const ALL_FK: [Fk; 12] = [
    Fk::Sin,
    Fk::Cos,
    Fk::Tan,
    Fk::Sec,
    Fk::Cot,
    Fk::Csc,
    Fk::ArcSin,
    Fk::ArcCos,
    Fk::ArcTan,
    Fk::ArcSec,
    Fk::ArcCot,
    Fk::ArcCsc,
];
impl Fk {
    pub fn name(self) -> &'static str {
        match self {
            Fk::Sin => "sin",
            Fk::Cos => "cos",
            Fk::Tan => "tan",
            Fk::Sec => "sec",
            Fk::Cot => "cot",
            Fk::Csc => "csc",
            Fk::ArcSin => "arcsin",
            Fk::ArcCos => "arccos",
            Fk::ArcTan => "arctan",
            Fk::ArcSec => "arcsec",
            Fk::ArcCot => "arccot",
            Fk::ArcCsc => "arccsc",
        }
    }
}

/// base of a logarithm
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Base {
    E,
    Pi,
    Q(i128, i128),
}

/// how a node is handed to the library
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Style {
    /// simplifying constructors / operators, folded from the left
    Smart,
    /// the n-ary node is built directly, exactly as written
    Raw,
    /// add_raw / mul_raw / pow_raw / div_raw folded from the left
    Fold,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T {
    Q(i128, i128),
    Pi,
    E,
    Undef,
    V(String),
    Sum(Style, Vec<T>),
    Prod(Style, Vec<T>),
    Pow(Style, Box<T>, Box<T>),
    Sub(Box<T>, Box<T>),
    Div(Style, Box<T>, Box<T>),
    F(Fk, Box<T>),
    Log(Base, Box<T>),
    Exp(Box<T>),
    Sqrt(Box<T>),
}

pub fn int(n: i128) -> T {
    T::Q(n, 1)
}
pub fn var(s: &str) -> T {
    T::V(s.to_string())
}

impl fmt::Display for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fn list(f: &mut fmt::Formatter<'_>, op: &str, s: Style, xs: &[&T]) -> fmt::Result {
            write!(
                f,
                "({op}{}",
                match s {
                    Style::Smart => "",
                    Style::Raw => "r",
                    Style::Fold => "f",
                }
            )?;
            for x in xs {
                write!(f, " {x}")?;
            }
            write!(f, ")")
        }
        match self {
            T::Q(n, 1) => write!(f, "{n}"),
            T::Q(n, d) => write!(f, "{n}/{d}"),
            T::Pi => write!(f, "pi"),
            T::E => write!(f, "e"),
            T::Undef => write!(f, "undef"),
            T::V(s) => write!(f, "{s}"),
            T::Sum(s, xs) => list(f, "+", *s, &xs.iter().collect::<Vec<_>>()),
            T::Prod(s, xs) => list(f, "*", *s, &xs.iter().collect::<Vec<_>>()),
            T::Pow(s, a, b) => list(f, "^", *s, &[a, b]),
            T::Sub(a, b) => list(f, "-", Style::Smart, &[a, b]),
            T::Div(s, a, b) => list(f, "/", *s, &[a, b]),
            T::F(k, a) => write!(f, "({} {a})", k.name()),
            T::Log(Base::E, a) => write!(f, "(ln {a})"),
            T::Log(Base::Pi, a) => write!(f, "(log pi {a})"),
            T::Log(Base::Q(n, d), a) => write!(f, "(log {n}/{d} {a})"),
            T::Exp(a) => write!(f, "(exp {a})"),
            T::Sqrt(a) => write!(f, "(sqrt {a})"),
        }
    }
}

pub fn parse_t(s: &str) -> Result<T, String> {
    let mut toks = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut pos = 0;
    let t = parse_rec(&toks, &mut pos)?;
    if pos != toks.len() {
        return Err(format!("trailing tokens in {s}"));
    }
    Ok(t)
}
fn parse_num(s: &str) -> Option<(i128, i128)> {
    match s.split_once('/') {
        Some((a, b)) => Some((a.parse().ok()?, b.parse().ok()?)),
        None => Some((s.parse().ok()?, 1)),
    }
}
fn parse_rec(toks: &[String], pos: &mut usize) -> Result<T, String> {
    let t = toks.get(*pos).ok_or("eof")?.clone();
    *pos += 1;
    if t != "(" {
        if let Some((n, d)) = parse_num(&t) {
            return Ok(T::Q(n, d));
        }
        return Ok(match t.as_str() {
            "pi" => T::Pi,
            "e" => T::E,
            "undef" => T::Undef,
            _ => T::V(t),
        });
    }
    let op = toks.get(*pos).ok_or("eof")?.clone();
    *pos += 1;
    let mut args = vec![];
    while toks.get(*pos).ok_or("eof")? != ")" {
        args.push(parse_rec(toks, pos)?);
    }
    *pos += 1;
    let (o, st) = {
        let first = &op[..1];
        if "+*^/".contains(first) {
            let st = match &op[1..] {
                "" => Style::Smart,
                "r" => Style::Raw,
                "f" => Style::Fold,
                x => return Err(format!("style {x}")),
            };
            (first.to_string(), st)
        } else {
            (op.clone(), Style::Smart)
        }
    };
    let mut it = args.clone().into_iter().map(Box::new);
    let mut nx = || it.next().ok_or(format!("missing argument of {op}"));
    Ok(match o.as_str() {
        "+" => T::Sum(st, args),
        "*" => T::Prod(st, args),
        "^" => T::Pow(st, nx()?, nx()?),
        "-" => T::Sub(nx()?, nx()?),
        "/" => T::Div(st, nx()?, nx()?),
        "ln" => T::Log(Base::E, nx()?),
        "log" => {
            let b = match *nx()? {
                T::Q(n, d) => Base::Q(n, d),
                T::Pi => Base::Pi,
                T::E => Base::E,
                x => return Err(format!("log base {x}")),
            };
            T::Log(b, nx()?)
        }
        "exp" => T::Exp(nx()?),
        "sqrt" => T::Sqrt(nx()?),
        n => {
            let k = ALL_FK
                .iter()
                .find(|k| k.name() == n)
                .ok_or(format!("unknown op {n}"))?;
            T::F(*k, nx()?)
        }
    })
}

pub fn fn_expr(k: Fk, a: Expr) -> Expr {
    match k {
        Fk::Sin => Expr::sin(a),
        Fk::Cos => Expr::cos(a),
        Fk::Tan => Expr::tan(a),
        Fk::Sec => Expr::sec(a),
        Fk::Cot => Expr::cot(a),
        Fk::Csc => Expr::csc(a),
        Fk::ArcSin => Expr::arc_sin(a),
        Fk::ArcCos => Expr::arc_cos(a),
        Fk::ArcTan => Expr::arc_tan(a),
        Fk::ArcSec => Expr::arc_sec(a),
        Fk::ArcCot => Expr::arc_cot(a),
        Fk::ArcCsc => Expr::arc_csc(a),
    }
}
pub fn base_real(b: Base) -> Real {
    match b {
        Base::E => Real::Irrational(Irrational::E),
        Base::Pi => Real::Irrational(Irrational::PI),
        Base::Q(n, d) => Real::Rational(Rational::from((n, d))),
    }
}

/// the library expression described by `t`
pub fn build(t: &T) -> Expr {
    match t {
        T::Q(n, d) => Expr::from(Rational::from((*n, *d))),
        T::Pi => Expr::pi(),
        T::E => Expr::e(),
        T::Undef => Expr::undef(),
        T::V(s) => Expr::var(s),
        T::Sum(st, xs) => {
            let xs: Vec<Expr> = xs.iter().map(build).collect();
            match st {
                Style::Smart => {
                    let mut it = xs.into_iter();
                    let first = it.next().unwrap_or_else(Expr::zero);
                    it.fold(first, |a, b| a + b)
                }
                Style::Fold => {
                    let mut it = xs.into_iter();
                    let first = it.next().unwrap_or_else(Expr::zero);
                    it.fold(first, |a, b| Expr::add_raw(a, b))
                }
                Style::Raw => Expr::from(Atom::Sum(Sum { args: xs })),
            }
        }
        T::Prod(st, xs) => {
            let xs: Vec<Expr> = xs.iter().map(build).collect();
            match st {
                Style::Smart => {
                    let mut it = xs.into_iter();
                    let first = it.next().unwrap_or_else(Expr::one);
                    it.fold(first, |a, b| a * b)
                }
                Style::Fold => {
                    let mut it = xs.into_iter();
                    let first = it.next().unwrap_or_else(Expr::one);
                    it.fold(first, |a, b| Expr::mul_raw(a, b))
                }
                Style::Raw => Expr::from(Atom::Prod(Prod { args: xs })),
            }
        }
        T::Pow(st, a, b) => match st {
            Style::Smart => Expr::pow(build(a), build(b)),
            _ => Expr::pow_raw(build(a), build(b)),
        },
        T::Sub(a, b) => build(a) - build(b),
        T::Div(st, a, b) => match st {
            Style::Smart => build(a) / build(b),
            _ => Expr::div_raw(build(a), build(b)),
        },
        T::F(k, a) => fn_expr(*k, build(a)),
        T::Log(Base::E, a) => Expr::ln(build(a)),
        T::Log(Base::Q(10, 1), a) => Expr::log10(build(a)),
        T::Log(b, a) => Expr::log(base_real(*b), build(a)),
        T::Exp(a) => Expr::exp(build(a)),
        T::Sqrt(a) => Expr::sqrt(build(a)),
    }
}

/// exact structural view of a library expression (always `Raw` style)
pub fn view(e: &Expr) -> T {
    let bx = |e: &Expr| Box::new(view(e));
    match e.atom() {
        Atom::Undef => T::Undef,
        Atom::Rational(r) => T::Q(r.numer(), r.denom()),
        Atom::Irrational(Irrational::E) => T::E,
        Atom::Irrational(Irrational::PI) => T::Pi,
        Atom::Var(v) => T::V(v.to_string()),
        Atom::Sum(s) => T::Sum(Style::Raw, s.args.iter().map(view).collect()),
        Atom::Prod(s) => T::Prod(Style::Raw, s.args.iter().map(view).collect()),
        Atom::Pow(p) => T::Pow(Style::Raw, bx(p.base()), bx(p.exponent())),
        Atom::Func(f) => match f {
            Func::Sin(a) => T::F(Fk::Sin, bx(a)),
            Func::Cos(a) => T::F(Fk::Cos, bx(a)),
            Func::Tan(a) => T::F(Fk::Tan, bx(a)),
            Func::Sec(a) => T::F(Fk::Sec, bx(a)),
            Func::Cot(a) => T::F(Fk::Cot, bx(a)),
            Func::Csc(a) => T::F(Fk::Csc, bx(a)),
            Func::ArcSin(a) => T::F(Fk::ArcSin, bx(a)),
            Func::ArcCos(a) => T::F(Fk::ArcCos, bx(a)),
            Func::ArcTan(a) => T::F(Fk::ArcTan, bx(a)),
            Func::ArcSec(a) => T::F(Fk::ArcSec, bx(a)),
            Func::ArcCot(a) => T::F(Fk::ArcCot, bx(a)),
            Func::ArcCsc(a) => T::F(Fk::ArcCsc, bx(a)),
            Func::Log(b, a) => T::Log(
                match b {
                    Real::Irrational(Irrational::E) => Base::E,
                    Real::Irrational(Irrational::PI) => Base::Pi,
                    Real::Rational(r) => Base::Q(r.numer(), r.denom()),
                },
                bx(a),
            ),
        },
    }
}

impl T {
    pub fn kids(&self) -> Vec<&T> {
        match self {
            T::Q(..) | T::Pi | T::E | T::Undef | T::V(_) => vec![],
            T::Sum(_, xs) | T::Prod(_, xs) => xs.iter().collect(),
            T::Pow(_, a, b) | T::Sub(a, b) | T::Div(_, a, b) => vec![a, b],
            T::F(_, a) | T::Log(_, a) | T::Exp(a) | T::Sqrt(a) => vec![a],
        }
    }
    pub fn any(&self, p: &dyn Fn(&T) -> bool) -> bool {
        p(self) || self.kids().iter().any(|k| k.any(p))
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn ops(&self) -> usize {
        let me = if self.kids().is_empty() { 0 } else { 1 };
        me + self.kids().iter().map(|k| k.ops()).sum::<usize>()
    }
    pub fn has_undef(&self) -> bool {
        self.any(&|t| matches!(t, T::Undef))
    }
    pub fn vars(&self) -> std::collections::BTreeSet<String> {
        let mut s = Default::default();
        self.vars_rec(&mut s);
        s
    }
    fn vars_rec(&self, s: &mut std::collections::BTreeSet<String>) {
        if let T::V(v) = self {
            s.insert(v.clone());
        }
        for k in self.kids() {
            k.vars_rec(s)
        }
    }
}
