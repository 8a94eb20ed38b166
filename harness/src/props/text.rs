//! printed and serialized forms

use super::*;
use calcu_rs::atom::Atom;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// a reader of the printed form, written from the usual rules of precedence:
/// `^` binds tightest and does not chain, then the unary minus' operand,
/// juxtaposition, `·` and `/` from the left, then `+` and `−` from the left
struct Reader<'a> {
    s: &'a [char],
    i: usize,
}
type R = Result<T, String>;
impl Reader<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn space(&mut self) {
        while self.peek() == Some(' ') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        let b = self.peek() == Some(c);
        self.i += b as usize;
        b
    }
    fn want(&mut self, c: char) -> Result<(), String> {
        ensure(self.eat(c), || format!("{c} expected at {}", self.i))
    }
    fn sum(&mut self) -> R {
        self.space();
        let mut v = vec![self.signed()?];
        loop {
            self.space();
            if self.eat('+') {
                self.space();
                v.push(self.signed()?);
            } else if self.eat('−') {
                self.space();
                let p = self.prod()?;
                v.push(neg(p));
            } else {
                break;
            }
        }
        Ok(if v.len() == 1 { v.remove(0) } else { T::Sum(Style::Raw, v) })
    }
    /// a product with or without sign
    fn signed(&mut self) -> R {
        if self.eat('-') {
            return Ok(neg(self.prod()?));
        }
        self.prod()
    }
    fn prod(&mut self) -> R {
        let mut t = self.pow()?;
        loop {
            let back = self.i;
            self.space();
            if self.eat('·') {
                self.space();
                t = T::Prod(Style::Raw, vec![t, self.pow()?]);
            } else if self.eat('/') {
                t = T::Div(Style::Raw, Box::new(t), Box::new(self.pow()?));
            } else {
                // juxtaposition; no number can start here
                let spaced = self.i != back;
                match self.peek() {
                    Some(c) if !spaced && (c == '(' || c == 'π' || c == '𝓮' || c == '∅' || name_start(c)) => {
                        t = T::Prod(Style::Raw, vec![t, self.pow()?]);
                    }
                    _ => {
                        self.i = back;
                        return Ok(t);
                    }
                }
            }
        }
    }
    fn pow(&mut self) -> R {
        let b = self.atom()?;
        if !self.eat('^') {
            return Ok(b);
        }
        let e = self.atom()?;
        ensure(self.peek() != Some('^'), || "chained powers".into())?;
        Ok(T::Pow(Style::Raw, Box::new(b), Box::new(e)))
    }
    fn int(&mut self) -> Result<i128, String> {
        let a = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        self.s[a..self.i].iter().collect::<String>().parse().map_err(|e| format!("{e} at {a}"))
    }
    /// a constant after `log` or `sin^`
    fn constant(&mut self) -> R {
        if self.eat('π') {
            return Ok(T::Pi);
        }
        if self.eat('𝓮') {
            return Ok(T::E);
        }
        let n = self.int()?;
        let d = if self.eat('/') { self.int()? } else { 1 };
        Ok(T::Q(n, d))
    }
    fn atom(&mut self) -> R {
        let c = self.peek().ok_or("unexpected end")?;
        match c {
            '(' => {
                self.i += 1;
                let t = self.sum()?;
                self.space();
                self.want(')')?;
                Ok(t)
            }
            'π' => {
                self.i += 1;
                Ok(T::Pi)
            }
            '𝓮' => {
                self.i += 1;
                Ok(T::E)
            }
            '∅' => {
                self.i += 1;
                Ok(T::Undef)
            }
            c if c.is_ascii_digit() => Ok(int(self.int()?)),
            c if name_start(c) => self.name(),
            c => Err(format!("unexpected {c} at {}", self.i)),
        }
    }
    fn name(&mut self) -> R {
        let a = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_') {
            self.i += 1;
        }
        let n: String = self.s[a..self.i].iter().collect();
        let fk = ALL_FK.iter().find(|k| k.name() == n);
        let log = n == "ln" || n.strip_prefix("log").is_some_and(|b| b.chars().all(|c| c.is_ascii_digit()));
        if fk.is_none() && !log {
            return Ok(T::V(n));
        }
        let mut base = Base::E;
        if let Some(b) = n.strip_prefix("log") {
            self.i -= b.chars().count();
            base = match self.peek() {
                Some('(' | '^') => Base::Q(10, 1),
                _ => match self.constant()? {
                    T::Pi => Base::Pi,
                    T::Q(n, d) => Base::Q(n, d),
                    t => return Err(format!("base {t}")),
                },
            };
        }
        let e = if self.eat('^') { Some(self.constant()?) } else { None };
        self.want('(')?;
        let x = self.sum()?;
        self.want(')')?;
        let f = match fk {
            Some(k) => T::F(*k, Box::new(x)),
            None => T::Log(base, Box::new(x)),
        };
        let f = match e {
            Some(e) => T::Pow(Style::Raw, Box::new(f), Box::new(e)),
            None => f,
        };
        if self.peek() == Some('^') {
            // sin(x)^(…)
            self.i += 1;
            let e = self.atom()?;
            return Ok(T::Pow(Style::Raw, Box::new(f), Box::new(e)));
        }
        Ok(f)
    }
}
fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_'
}
fn neg(t: T) -> T {
    T::Prod(Style::Raw, vec![int(-1), t])
}
pub fn read(s: &str) -> R {
    let s: Vec<char> = s.chars().collect();
    let mut r = Reader { s: &s, i: 0 };
    let t = r.sum()?;
    r.space();
    ensure(r.i == s.len(), || format!("{:?} left over", s[r.i..].iter().collect::<String>()))?;
    Ok(t)
}

// ------------------------------------------------------------ C23

const NAMES: &[&str] = &["x", "y", "z", "foo", "x1", "_t"];

fn c23_gen(s: &mut Src, tier: Tier) -> Case {
    let mut g = match s.below(5) {
        0 => full(),
        1 => int_exps(),
        2 => G { free: true, ..full() },
        _ => G::rational(),
    };
    g.consts = true;
    g.undef = s.chance(20);
    g.vars = NAMES;
    g.style = if s.chance(170) { StyleMode::Raw } else { StyleMode::Mixed };
    let d = depth(s, tier).min(4);
    let mut t = g.top(s, d);
    if s.chance(60) {
        // logarithms to any base, powers of functions to constants
        let f = match s.below(3) {
            0 => T::Log(Base::Q(s.range(2, 12), s.range(1, 3)), Box::new(var("x"))),
            1 => T::Log(Base::Pi, Box::new(var("x"))),
            _ => T::F(*s.pick(TRIG), Box::new(g.real(s, 1))),
        };
        let f = match f {
            T::Log(Base::Q(n, d), x) => {
                let k = num::integer::gcd(n, d);
                T::Log(Base::Q(if n == d { 2 } else { n / k }, if n == d { 1 } else { d / k }), x)
            }
            f => f,
        };
        let e = match s.below(4) {
            0 => g.int_exp(s),
            1 => g.num(s),
            2 => T::Pi,
            _ => T::E,
        };
        let f = T::Pow(Style::Raw, Box::new(f), Box::new(e));
        let st = Style::Raw;
        t = match s.below(4) {
            0 => T::Prod(st, vec![t, f]),
            1 => T::Prod(st, vec![f, t]),
            2 => T::Sum(st, vec![t, f]),
            _ => T::Pow(st, Box::new(f), Box::new(t)),
        };
    }
    if s.chance(16) {
        let st = Style::Raw;
        let n = G::edge(s);
        t = match s.below(5) {
            0 => n,
            1 => T::Sum(st, vec![t, n]),
            2 => T::Prod(st, vec![n, t]),
            3 => T::Pow(st, Box::new(t), Box::new(n)),
            _ => T::Pow(st, Box::new(n), Box::new(t)),
        };
    }
    let t = no_function_names(&t);
    if s.chance(20) {
        // printed forms can be combined like expressions
        let d = s.below(3) as u32;
        let u = no_function_names(&g.top(s, d));
        return Case::new(*s.pick(&["sum", "product"]), vec![t, u]);
    }
    Case::new("print", vec![t])
}
fn no_function_names(t: &T) -> T {
    match t {
        T::V(v) if ["sin", "cos", "ln", "sec", "arctan", "log2"].contains(&v.as_str()) => var("foo"),
        _ => map_kids(t, &mut no_function_names),
    }
}
fn c23_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let e = build(t0(c));
    let t = view(&e);
    let s = e.to_string();
    ensure(s == e.atom().to_string() && s == e.fmt_ast().to_string() && s == e.atom().fmt_ast().to_string(), || {
        format!("{t} is printed as {s}, its atom as {}", e.atom())
    })?;
    let r = read(&s).map_err(|m| format!("{t} is printed as {s:?}: {m}"))?;
    ensure(r.has_undef() == t.has_undef(), || format!("{t} is printed as {s}"))?;
    // the same variables
    ensure(t.vars() == r.vars(), || format!("{t} is printed as {s}, which has other variables"))?;
    let cmp = crate::eval::same_value(&t, &r, needs_pos(t0(c)), true).map_err(|m| format!("{m}; {t} is printed as {s}"))?;
    let op = crate::eval::same_opaque(&t, &r);
    ensure(op != Some(false), || format!("{t} is printed as {s}, which has another value"))?;
    if cmp.conclusive() || op.is_some() {
        cx.nt(t.ops() >= 2);
    } else {
        cx.hit("value comparison undecided");
    }
    if !cmp.conclusive() && op.is_some() {
        cx.hit("other powers compared");
    }
    if let Some(u) = c.ts.get(1) {
        let f = build(u);
        let u = Box::new(view(&f));
        let (a, b) = (e.fmt_ast(), f.fmt_ast());
        let st = Style::Raw;
        let (p, w) = match c.op.as_str() {
            "sum" => (a + b, T::Sum(st, vec![t.clone(), *u])),
            _ => (a * b, T::Prod(st, vec![t.clone(), *u])),
        };
        let s = p.to_string();
        let r = read(&s).map_err(|m| format!("{w} is printed as {s:?}: {m}"))?;
        ensure(crate::eval::same_opaque(&w, &r) != Some(false), || format!("{w} is printed as {s}, which has another value"))?;
        crate::eval::same_value(&w, &r, needs_pos(&w), true).map_err(|m| format!("{m}; {w} is printed as {s}"))?;
        cx.hit("combined");
    }
    // what is read prints the same again, unless it was printed with other signs and fractions
    if let Some(p) = num_only(&t) {
        ensure(num_only(&r) == Some(p), || format!("the number {t} is printed as {s}"))?;
    }
    Ok(())
}
fn num_only(t: &T) -> Option<(i128, i128)> {
    match t {
        T::Q(n, d) => Some((*n, *d)),
        T::Prod(_, v) if v.len() == 2 && v[0] == int(-1) => num_only(&v[1]).map(|(n, d)| (-n, d)),
        T::Div(_, a, b) => match (&**a, &**b) {
            (T::Q(n, 1), T::Q(d, 1)) => Some((*n, *d)),
            _ => None,
        },
        _ => None,
    }
}

// ------------------------------------------------------------ C24

fn c24_gen(s: &mut Src, tier: Tier) -> Case {
    let mut g = anything(s);
    g.undef = true;
    g.vars = NAMES;
    let d = depth(s, tier);
    let mut t = g.top(s, d);
    if s.chance(60) {
        let big = || 1i128 << 100;
        let n = match s.below(5) {
            0 => big() + s.range(0, 9),
            1 => -(big() + s.range(0, 9)),
            2 => i64::MAX as i128 + s.range(-1, 1),
            3 => u64::MAX as i128 + s.range(-1, 1),
            _ => i64::MIN as i128 + s.range(-1, 1),
        };
        let d = [1, 3, u64::MAX as i128 + 2][s.below(3)];
        let k = num::integer::gcd(n, d);
        t = T::Prod(Style::Raw, vec![T::Q(n / k, d / k), t]);
    }
    let mut c = Case::new("serialize", vec![t]);
    c.ss.push(s.pick(&["", "x", "π", "a b", "\"", "\\", "\n", "längerer Name", "𝓮"]).to_string());
    c
}
fn hash(h: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
fn c24_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let mut e = build(t0(c));
    if let Some(n) = c.ss.first() {
        // a variable whose name has to be quoted
        e = Expr::add_raw(e, Expr::var(n));
    }
    let t = view(&e);
    cx.nt(t.ops() >= 2);
    let what = |m: String| format!("{t}: {m}");
    let txt = serde_json::to_string(&e).map_err(|m| what(m.to_string()))?;
    let back: Expr = serde_json::from_str(&txt).map_err(|m| what(format!("{m} reading {txt}")))?;
    ensure(view(&back) == t, || what(format!("came back as {} from {txt}", view(&back))))?;
    ensure(back == e && hash(&back) == hash(&e), || what("not equal to the original".into()))?;
    ensure(serde_json::to_string(&back).is_ok_and(|s| s == txt), || what("serialized differently again".into()))?;
    // the parts: what they compute with afterwards is the same
    let atom: Atom = serde_json::from_str(&serde_json::to_string(e.atom()).map_err(|m| what(m.to_string()))?).map_err(|m| what(m.to_string()))?;
    ensure(view(&Expr::from(atom)) == t, || what("its atom came back different".into()))?;
    ensure(view(&e) == t, || what("changed by serializing".into()))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            gen: c23_gen,
            check: c23_check,
            quick: 1_500_000,
            thorough: 60_000_000,
            rule: "the value comparison decided and the expression has at least two operations",
            assumptions: &["variable names are identifiers that are not names of functions"],
        },
        Prop {
            id: "C24",
            gen: c24_gen,
            check: c24_check,
            quick: 1_000_000,
            thorough: 20_000_000,
            rule: "the expression has at least two operations",
            assumptions: &["JSON (serde_json) as the format"],
        },
    ]
}
