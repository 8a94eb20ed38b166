//! Generators: decode choice sequences into expression descriptions.
//!
//! Two mutually recursive grammars. `P` expressions are positive whenever the
//! variables are positive (every sub-expression is); only they are put under
//! fractional or symbolic powers, and inside logarithms. `R` expressions are
//! arbitrary reals. That keeps branch cuts out of every value comparison without
//! looking at library output.

use crate::choice::Src;
use crate::term::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum StyleMode {
    Smart,
    Raw,
    Mixed,
}

#[derive(Clone)]
pub struct G {
    pub vars: &'static [&'static str],
    pub fns: &'static [Fk],
    pub logs: bool,
    /// fractional exponents / sqrt / exp / symbolic exponents over P bases
    pub roots: bool,
    /// exponent variables n, m over P bases, and integer-valued symbolic exponents
    pub symexp: bool,
    pub consts: bool,
    pub undef: bool,
    pub fractions: bool,
    pub neg_pow: bool,
    pub max_int: i128,
    pub max_pow: i128,
    pub style: StyleMode,
    pub sub_div: bool,
    /// raw empty / one-element sums and products, x^1, x^0
    pub degenerate: bool,
    /// any base and exponent in powers and logarithms, for properties that compare no values
    pub free: bool,
}

pub const XYZ: &[&str] = &["x", "y", "z", "a", "b"];
pub const MANY: &[&str] = &["x", "y", "z", "a", "b", "c", "d", "w", "u", "v", "k", "x1", "x2", "y_2", "alpha", "Q", "X", "xy", "sin", "cos", "ln", "sec", "arctan", "log2"];
pub const XY: &[&str] = &["x", "y"];
pub const SINCOS: &[Fk] = &[Fk::Sin, Fk::Cos];
pub const TRIG: &[Fk] = &[Fk::Sin, Fk::Cos, Fk::Tan, Fk::Sec, Fk::Cot, Fk::Csc];

impl Default for G {
    fn default() -> Self {
        G {
            vars: XYZ,
            fns: &ALL_FK,
            logs: true,
            roots: true,
            symexp: true,
            consts: true,
            undef: false,
            fractions: true,
            neg_pow: true,
            max_int: 12,
            max_pow: 4,
            style: StyleMode::Mixed,
            sub_div: true,
            degenerate: true,
            free: false,
        }
    }
}

impl G {
    /// rational functions in a few variables
    pub fn rational() -> G {
        G {
            fns: &[],
            logs: false,
            roots: false,
            symexp: false,
            consts: false,
            ..G::default()
        }
    }
    pub fn polynomial() -> G {
        G {
            neg_pow: false,
            sub_div: false,
            ..G::rational()
        }
    }

    fn sty(&self, s: &mut Src) -> Style {
        match self.style {
            StyleMode::Smart => Style::Smart,
            StyleMode::Raw => Style::Raw,
            StyleMode::Mixed => [Style::Smart, Style::Raw, Style::Smart, Style::Fold][s.below(4)],
        }
    }

    pub fn num(&self, s: &mut Src) -> T {
        if self.fractions && s.chance(70) {
            let d = s.upto(2, 7, 300);
            let n = s.upto(1, self.max_int, 40 * self.max_int);
            let n = if s.chance(100) { -n } else { n };
            let g = num::integer::gcd(n, d);
            T::Q(n / g, d / g)
        } else {
            self.int(s)
        }
    }
    pub fn int(&self, s: &mut Src) -> T {
        let n = match s.weighted(&[3, 3, 3, 4, 1]) {
            0 => 1,
            1 => 2,
            2 => -1,
            3 => s.upto(2, self.max_int, 200 * self.max_int),
            _ => 0,
        };
        let neg = s.chance(90);
        T::Q(if neg { -n } else { n }, 1)
    }
    pub fn pos_num(&self, s: &mut Src) -> T {
        if self.fractions && s.chance(60) {
            let d = s.upto(2, 5, 60);
            let n = s.upto(1, self.max_int, 20 * self.max_int);
            let g = num::integer::gcd(n, d);
            T::Q(n / g, d / g)
        } else {
            int(s.upto(1, self.max_int, 100 * self.max_int))
        }
    }
    /// numbers next to powers of two, where number types end
    pub fn edge(s: &mut Src) -> T {
        let n = (1i128 << s.range(6, 125)) + s.range(-1, 1);
        let n = if s.chance(128) { -n } else { n };
        let d = if s.chance(60) { s.range(2, 9) } else { 1 };
        let g = num::integer::gcd(n, d);
        T::Q(n / g, d / g)
    }
    /// a variable, now and then one of many more
    fn var(&self, s: &mut Src) -> T {
        if self.vars.len() >= XYZ.len() && s.far() {
            var(s.pick(MANY))
        } else {
            var(s.pick(self.vars))
        }
    }
    pub fn leaf(&self, s: &mut Src) -> T {
        let c = if self.consts { 1 } else { 0 };
        let u = if self.undef { 1 } else { 0 };
        match s.weighted(&[12, 6, c, c, u]) {
            0 => self.var(s),
            1 => self.num(s),
            2 => T::Pi,
            3 => T::E,
            _ => T::Undef,
        }
    }
    fn pos_leaf(&self, s: &mut Src) -> T {
        let c = if self.consts { 1 } else { 0 };
        match s.weighted(&[12, 4, c, c]) {
            0 => self.var(s),
            1 => self.pos_num(s),
            2 => T::Pi,
            _ => T::E,
        }
    }
    fn arity(&self, s: &mut Src, st: Style) -> usize {
        if st == Style::Raw && self.degenerate && s.chance(20) {
            return s.below(2);
        }
        if s.far() {
            return 4 + s.below(6);
        }
        2 + s.weighted(&[6, 3, 1])
    }

    /// grammars whose expressions may be exchanged
    fn key(&self) -> u32 {
        [self.logs, self.roots, self.symexp, self.consts, self.undef, self.fractions, self.neg_pow, self.sub_div, self.degenerate, self.free]
            .iter()
            .fold(self.fns.len() as u32 * 64 + self.vars.len() as u32, |k, b| k * 2 + *b as u32)
            * 8
            + self.style as u32
    }
    fn recall(&self, s: &mut Src, pos: bool) -> Option<T> {
        if s.pool.is_empty() || !s.chance(28) {
            return None;
        }
        let k = self.key();
        let c: Vec<usize> = (0..s.pool.len()).filter(|i| s.pool[*i].0 == k && (!pos || s.pool[*i].1)).collect();
        if c.is_empty() {
            return None;
        }
        let i = c[s.below(c.len())];
        Some(s.pool[i].2.clone())
    }
    fn remember(&self, s: &mut Src, pos: bool, t: &T) {
        if s.pool.len() < 12 && t.ops() >= 1 && t.size() <= 9 {
            s.pool.push((self.key(), pos, t.clone()));
        }
    }
    /// multiples of one expression next to other summands, powers of one base
    /// next to other factors
    fn alike(&self, s: &mut Src, depth: u32) -> T {
        let a = self.real(s, depth - 1);
        let n = s.upto(2, 4, 9) as usize;
        let st = self.sty(s);
        let inner = self.sty(s);
        let sum = s.chance(128);
        let v = (0..n)
            .map(|_| match s.weighted(&[6, 3, 4]) {
                0 if sum => T::Prod(inner, vec![self.num(s), a.clone()]),
                0 => T::Pow(inner, Box::new(a.clone()), Box::new(self.int_exp(s))),
                1 => a.clone(),
                _ => self.real(s, depth.min(2) - 1),
            })
            .collect();
        if sum {
            T::Sum(st, v)
        } else {
            T::Prod(st, v)
        }
    }

    /// a sum or product of many operands, most of them like others
    pub fn wide(&self, s: &mut Src) -> T {
        let k = 2 + s.below(6);
        let base: Vec<T> = (0..k).map(|_| if s.chance(100) { self.real(s, 1) } else { self.leaf(s) }).collect();
        let n = 6 + s.below(35);
        let st = self.sty(s);
        let inner = self.sty(s);
        let sum = s.chance(150);
        let v = (0..n)
            .map(|_| {
                let b = s.pick(&base).clone();
                match s.below(3) {
                    0 => b,
                    1 if sum => T::Prod(inner, vec![self.int(s), b]),
                    2 if sum => T::Prod(inner, vec![b, s.pick(&base).clone()]),
                    _ if b.any(&|t| matches!(t, T::Q(..))) => var(s.pick(self.vars)),
                    _ => T::Pow(inner, Box::new(b), Box::new(int(if self.neg_pow && s.chance(100) { -1 } else { 2 }))),
                }
            })
            .collect();
        if sum {
            T::Sum(st, v)
        } else {
            T::Prod(st, v)
        }
    }
    /// as `real`, now and then with very many operands
    pub fn top(&self, s: &mut Src, depth: u32) -> T {
        if depth >= 2 && s.chance(4) {
            self.wide(s)
        } else if depth >= 2 && s.chance(4) {
            self.deep(s)
        } else {
            self.real(s, depth)
        }
    }
    /// a long chain of operations, each applied to the one before
    pub fn deep(&self, s: &mut Src) -> T {
        let n = 5 + s.below(14);
        let mut t = self.leaf(s);
        let f = if self.fns.is_empty() { 0 } else { 3 };
        let sd = if self.sub_div { 1 } else { 0 };
        for _ in 0..n {
            let st = self.sty(s);
            let a = self.leaf(s);
            let (a, t1) = if s.chance(128) { (t, a) } else { (a, t) };
            t = match s.weighted(&[5, 5, f, sd, sd]) {
                0 => T::Sum(st, vec![a, t1]),
                1 => T::Prod(st, vec![a, t1]),
                2 => {
                    let t = if a.ops() >= t1.ops() { a } else { t1 };
                    let k = *s.pick(self.fns);
                    match k {
                        Fk::Sin | Fk::Cos | Fk::Tan | Fk::Sec | Fk::Cot | Fk::Csc | Fk::ArcTan => T::F(k, Box::new(t)),
                        _ => T::Pow(st, Box::new(t), Box::new(self.int_exp(s))),
                    }
                }
                3 => T::Sub(Box::new(a), Box::new(t1)),
                _ => T::Div(st, Box::new(a), Box::new(t1)),
            };
        }
        t
    }

    /// arbitrary real expression
    pub fn real(&self, s: &mut Src, depth: u32) -> T {
        if depth == 0 {
            return self.leaf(s);
        }
        if let Some(t) = self.recall(s, false) {
            return t;
        }
        let t = if s.chance(18) { self.alike(s, depth) } else { self.real_new(s, depth) };
        self.remember(s, false, &t);
        t
    }
    /// powers and logarithms of anything
    fn wild(&self, s: &mut Src, depth: u32) -> T {
        let st = self.sty(s);
        let a = self.real(s, depth - 1);
        if s.chance(80) {
            let b = match s.below(4) {
                0 => Base::E,
                1 => Base::Pi,
                2 => Base::Q(s.range(2, 12), 1),
                _ => {
                    let (n, d) = (s.range(1, 9), s.range(2, 7));
                    let g = num::integer::gcd(n, d);
                    Base::Q(n / g, d / g)
                }
            };
            return T::Log(b, Box::new(a));
        }
        let e = match s.below(6) {
            0 => self.real(s, depth - 1),
            1 => self.num(s),
            2 => self.leaf(s),
            3 => return if s.chance(128) { T::Sqrt(Box::new(a)) } else { T::Exp(Box::new(a)) },
            4 => self.sym_exp(s),
            _ => self.frac_exp(s),
        };
        T::Pow(st, Box::new(a), Box::new(e))
    }
    fn real_new(&self, s: &mut Src, depth: u32) -> T {
        if self.free && s.chance(30) {
            return self.wild(s, depth);
        }
        let f = if self.fns.is_empty() { 0 } else { 3 };
        let l = if self.logs { 1 } else { 0 };
        let r = if self.roots || self.symexp { 3 } else { 0 };
        let sd = if self.sub_div { 2 } else { 0 };
        match s.weighted(&[4, 6, 6, 4, f, l, r, sd, sd]) {
            0 => self.leaf(s),
            1 => {
                let st = self.sty(s);
                let n = self.arity(s, st);
                T::Sum(st, (0..n).map(|_| self.real(s, depth - 1)).collect())
            }
            2 => {
                let st = self.sty(s);
                let n = self.arity(s, st);
                T::Prod(st, (0..n).map(|_| self.real(s, depth - 1)).collect())
            }
            3 => {
                let st = self.sty(s);
                let b = self.real(s, depth - 1);
                let e = self.int_exp(s);
                T::Pow(st, Box::new(b), Box::new(e))
            }
            4 => {
                let k = *s.pick(self.fns);
                T::F(k, Box::new(self.fn_arg(s, k, depth - 1)))
            }
            5 => {
                let b = match s.weighted(&[5, 2, 2, 1]) {
                    0 => Base::E,
                    1 => Base::Q(10, 1),
                    2 => Base::Q(s.range(2, 5), 1),
                    _ => Base::Pi,
                };
                T::Log(b, Box::new(self.pos(s, depth - 1)))
            }
            6 => self.root(s, depth),
            7 => T::Sub(
                Box::new(self.real(s, depth - 1)),
                Box::new(self.real(s, depth - 1)),
            ),
            _ => {
                let st = self.sty(s);
                T::Div(
                    st,
                    Box::new(self.real(s, depth - 1)),
                    Box::new(self.real(s, depth - 1)),
                )
            }
        }
    }

    pub fn int_exp(&self, s: &mut Src) -> T {
        let n = match s.weighted(&[5, 3, if self.neg_pow { 4 } else { 0 }, if self.degenerate { 1 } else { 0 }]) {
            0 => 2,
            1 => s.upto(2, self.max_pow, 6 * self.max_pow),
            2 => -s.upto(1, 3, 12),
            _ => s.range(0, 1),
        };
        int(n)
    }

    /// arguments that stay in the domain at some sample point
    fn fn_arg(&self, s: &mut Src, k: Fk, depth: u32) -> T {
        match k {
            Fk::ArcSin | Fk::ArcCos => {
                let inner = self.real(s, depth.min(1));
                T::Prod(
                    self.sty(s),
                    vec![T::Q(1, s.range(4, 9)), inner],
                )
            }
            // beyond one in absolute value, on either side
            Fk::ArcSec | Fk::ArcCsc if s.chance(128) => T::Sum(
                self.sty(s),
                vec![int(s.range(2, 4)), self.pos(s, depth.min(2))],
            ),
            Fk::ArcSec | Fk::ArcCsc => {
                let p = self.pos(s, depth.min(1));
                let st = self.sty(s);
                match s.below(3) {
                    0 => T::Sum(st, vec![int(-s.range(2, 4)), T::Prod(st, vec![int(-1), p])]),
                    1 => T::Prod(st, vec![int(-s.range(2, 3)), p]),
                    _ => T::Prod(st, vec![int(-1), T::Sum(st, vec![p, int(s.range(2, 4))])]),
                }
            }
            Fk::ArcCot => {
                let p = self.pos(s, depth);
                if s.chance(70) {
                    T::Prod(self.sty(s), vec![int(-s.range(1, 3)), p])
                } else {
                    p
                }
            }
            _ => self.real(s, depth),
        }
    }

    pub fn root(&self, s: &mut Src, depth: u32) -> T {
        let st = self.sty(s);
        let a = if self.roots { 3 } else { 0 };
        let b = if self.symexp { 2 } else { 0 };
        match s.weighted(&[a, a / 3, a / 2, b]) {
            0 => {
                let b = self.pos(s, depth - 1);
                let e = self.frac_exp(s);
                T::Pow(st, Box::new(b), Box::new(e))
            }
            1 => T::Sqrt(Box::new(self.pos(s, depth - 1))),
            2 => {
                let a = self.real(s, depth.min(2) - 1);
                if s.chance(128) {
                    T::Exp(Box::new(a))
                } else {
                    T::Pow(st, Box::new(self.pos(s, depth - 1)), Box::new(a))
                }
            }
            _ => {
                let b = self.pos(s, depth - 1);
                let e = self.sym_exp(s);
                T::Pow(st, Box::new(b), Box::new(e))
            }
        }
    }
    /// a root of something positive whose factors or terms are negative. Their variables do not
    /// occur anywhere else, so that nothing else is merged with the factors
    fn signed_root(&self, s: &mut Src) -> T {
        let st = self.sty(s);
        let neg = |s: &mut Src, v: &str| {
            let st = self.sty(s);
            let a = if s.chance(128) { T::Prod(st, vec![int(-s.range(1, 3)), var(v)]) } else { T::Prod(st, vec![T::Pi, int(-1), var(v)]) };
            if s.chance(80) {
                T::Sub(Box::new(a), Box::new(T::Q(s.range(1, 5), 7)))
            } else {
                T::Sum(st, vec![int(-s.range(1, 5)), a])
            }
        };
        let b = match s.below(4) {
            0 => T::Sum(st, vec![int(s.range(7, 12)), T::Prod(st, vec![int(-s.range(1, 2)), var(s.pick(&["c", "d"]))])]),
            1 => T::Prod(st, vec![self.pos(s, 1), neg(s, "c"), neg(s, "d")]),
            _ => T::Prod(st, vec![neg(s, "d"), neg(s, "c")]),
        };
        T::Pow(st, Box::new(b), Box::new(self.frac_exp(s)))
    }
    /// a signed root inside of something else
    pub fn with_signed_root(&self, s: &mut Src, depth: u32) -> T {
        let mut t = self.signed_root(s);
        for _ in 0..s.below(3) {
            let st = self.sty(s);
            t = match s.below(5) {
                0 | 1 => T::Sum(st, vec![self.real(s, depth.min(2)), t]),
                2 => T::Prod(st, vec![t, self.real(s, depth.min(2))]),
                3 => T::Pow(st, Box::new(t), Box::new(self.int_exp(s))),
                _ => T::F(*s.pick(&[Fk::Sin, Fk::Cos, Fk::Tan, Fk::ArcTan]), Box::new(t)),
            };
        }
        t
    }
    pub fn frac_exp(&self, s: &mut Src) -> T {
        let d = [2, 3, 4, 2][s.below(4)];
        let n = [1, 1, 3, 5][s.below(4)];
        let n = if self.neg_pow && s.chance(80) { -n } else { n };
        let g = num::integer::gcd(n as i128, d as i128);
        T::Q(n / g, d / g)
    }
    fn sym_exp(&self, s: &mut Src) -> T {
        let st = self.sty(s);
        let n = var(if s.chance(100) { "m" } else { "n" });
        match s.weighted(&[4, 2, 2, 1]) {
            0 => n,
            1 => T::Sum(st, vec![n, int(s.range(1, 3))]),
            2 => T::Prod(st, vec![int(if self.neg_pow && s.chance(80) { -1 } else { 2 }), n]),
            _ => T::Sum(st, vec![var("n"), var("m")]),
        }
    }

    /// positive whenever the variables are
    pub fn pos(&self, s: &mut Src, depth: u32) -> T {
        if depth == 0 {
            return self.pos_leaf(s);
        }
        if let Some(t) = self.recall(s, true) {
            return t;
        }
        let t = self.pos_new(s, depth);
        self.remember(s, true, &t);
        t
    }
    fn pos_new(&self, s: &mut Src, depth: u32) -> T {
        let r = if self.roots || self.symexp { 2 } else { 0 };
        match s.weighted(&[4, 4, 4, 3, r]) {
            0 => self.pos_leaf(s),
            1 => {
                let st = self.sty(s);
                let n = if s.far() { 4 + s.below(4) } else { 2 + s.weighted(&[4, 1]) };
                T::Sum(st, (0..n).map(|_| self.pos(s, depth - 1)).collect())
            }
            2 => {
                let st = self.sty(s);
                let n = if s.far() { 4 + s.below(4) } else { 2 + s.weighted(&[4, 1]) };
                T::Prod(st, (0..n).map(|_| self.pos(s, depth - 1)).collect())
            }
            3 => {
                let st = self.sty(s);
                let b = self.pos(s, depth - 1);
                T::Pow(st, Box::new(b), Box::new(self.int_exp(s)))
            }
            _ => self.root(s, depth),
        }
    }
}

/// value comparisons need positive variables
pub fn needs_pos(t: &T) -> bool {
    t.any(&|t| match t {
        T::Sqrt(_) | T::Log(..) => true,
        T::Pow(_, _, e) => !matches!(**e, T::Q(_, 1)),
        T::F(Fk::ArcCot, _) => true,
        _ => false,
    })
}
