//! equality, hashing and ordering; traversal; substitution; histories

use super::*;
use calcu_rs::atom::{Atom, Real};
use calcu_rs::SymbolicExpr;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

fn hash<A: Hash>(e: &A) -> u64 {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}

/// numbers that are close, or equal as floating-point numbers
fn near(t: &T, s: &mut Src) -> T {
    let (n, d) = match t {
        T::Q(n, d) => (*n, *d),
        _ => (1, 1),
    };
    if s.chance(16) {
        return G::edge(s);
    }
    let (n, d) = match s.below(7) {
        // decimals of pi and e, cut off
        6 => {
            let k = s.range(1, 36) as u32;
            let c: i128 = *s.pick(&[31415926535897932384626433832795028841, 27182818284590452353602874713526624977]);
            (c / 10i128.pow(37 - k) + s.range(-1, 1), 10i128.pow(k))
        }
        0 => (n + d, d),
        1 => (-n, d),
        2 => ((1 << 58) + s.range(0, 2), 1),
        3 => ((1 << 58) + s.range(0, 2), (1 << 57) + 1),
        // convergents of pi and e
        4 => *s.pick(&[(22, 7), (355, 113), (5419351, 1725033), (245850922, 78256779), (428224593349304, 136308121570117)]),
        _ => *s.pick(&[(19, 7), (193, 71), (1264, 465), (325368125, 119696244), (28875761731, 10622799089)]),
    };
    let g = num::integer::gcd(n, d).max(1);
    T::Q(n / g, d / g)
}
fn near_base(b: &Base, s: &mut Src) -> Base {
    let q = match b {
        Base::Q(n, d) if s.chance(128) => T::Q(*n, *d),
        _ => match s.below(5) {
            0 => return Base::E,
            1 => return Base::Pi,
            2 => int(10),
            _ => int(s.range(2, 9)),
        },
    };
    let q = if s.chance(128) { near(&q, s) } else { q };
    match q {
        T::Q(n, d) => Base::Q(n.abs(), d),
        _ => Base::E,
    }
}

/// change one place of the expression
fn tweak(t: &T, g: &G, s: &mut Src) -> T {
    let n = t.kids().len();
    match t {
        T::Q(..) if s.chance(100) => return near(t, s),
        T::Log(b, a) if s.chance(80) => return T::Log(near_base(b, s), a.clone()),
        T::F(_, a) if s.chance(60) => return T::F(*s.pick(&ALL_FK), a.clone()),
        _ => (),
    }
    if n == 0 || s.chance(50) {
        return match s.below(3) {
            0 => g.leaf(s),
            1 => T::Sum(Style::Raw, vec![t.clone()]),
            _ => T::Prod(Style::Raw, vec![t.clone()]),
        };
    }
    let k = s.below(n);
    let mut i = 0;
    map_kids(t, &mut |a| {
        i += 1;
        if i == k + 1 {
            tweak(a, g, s)
        } else {
            a.clone()
        }
    })
}

// ------------------------------------------------------------ C19

fn c19_gen(s: &mut Src, tier: Tier) -> Case {
    if s.chance(10) {
        // numbers as bases of logarithms of the same argument
        let a = full().real(s, 1);
        let ts = (0..3).map(|_| T::Log(near_base(&Base::Q(3, 1), s), Box::new(a.clone()))).collect();
        return Case::new("bases", ts);
    }
    let d = depth(s, tier).min(3);
    let mut g = anything(s);
    g.undef = true;
    if s.chance(128) {
        g.vars = XY;
        g.max_int = 3;
    }
    let a = g.top(s, d);
    let other = |s: &mut Src, a: &T| match s.weighted(&[3, 3, 4, 1]) {
        0 => g.real(s, d),
        1 => shuffle(a, s),
        2 => {
            let t = tweak(a, &g, s);
            shuffle(&t, s)
        }
        _ => T::Pow(Style::Raw, Box::new(a.clone()), Box::new(int(s.range(0, 2)))),
    };
    let b = other(s, &a);
    let from = if s.chance(128) { &a } else { &b };
    let c = other(s, from);
    Case::new("compare", vec![a, b, c])
}
/// the base and its value to 60 decimals
fn real_base(t: &T) -> (Real, num::BigRational) {
    let dec = |s: &str| num::BigRational::new(s.parse().unwrap(), num::BigInt::from(10).pow(s.len() as u32 - 1));
    match t {
        T::Log(Base::E, _) => (Real::E, dec("2718281828459045235360287471352662497757247093699959574966967")),
        T::Log(Base::Pi, _) => (Real::PI, dec("3141592653589793238462643383279502884197169399375105820974944")),
        T::Log(Base::Q(n, d), _) => (Real::Rational((*n, *d).into()), num::BigRational::new((*n).into(), (*d).into())),
        _ => unreachable!(),
    }
}
fn c19_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let es: Vec<Expr> = c.ts.iter().map(build).collect();
    let vs: Vec<T> = es.iter().map(view).collect();
    let cs: Vec<T> = vs.iter().map(canon).collect();
    cx.nt(vs.iter().filter(|v| v.ops() >= 1).count() >= 2);
    let ord = |i: usize, j: usize| es[i].cmp(&es[j]);
    for i in 0..3 {
        ensure(es[i] == es[i].clone() && ord(i, i) == Ordering::Equal, || format!("{} is not equal to itself", vs[i]))?;
        let rebuilt = build(&c.ts[i]);
        ensure(es[i] == rebuilt && hash(&es[i]) == hash(&rebuilt), || format!("{} is not equal to itself built again", vs[i]))?;
        for j in 0..3 {
            let eq = es[i] == es[j];
            if i != j && eq && vs[i] != vs[j] {
                cx.hit("equal with different order");
            }
            if eq != (cs[i] == cs[j]) {
                return Err(format!("{} == {} is {eq}", vs[i], vs[j]));
            }
            ensure(eq == !(es[i] != es[j]), || "ne".into())?;
            ensure((es[i].atom() == es[j].atom()) == eq, || format!("atoms of {} and {}", vs[i], vs[j]))?;
            if eq {
                ensure(hash(&es[i]) == hash(&es[j]) && hash(es[i].atom()) == hash(es[j].atom()), || {
                    format!("{} and {} are equal but hash differently", vs[i], vs[j])
                })?;
            }
            let o = ord(i, j);
            ensure((o == Ordering::Equal) == eq, || format!("{} and {} compare {o:?}, equality {eq}", vs[i], vs[j]))?;
            ensure(ord(j, i) == o.reverse(), || format!("comparing {} and {}: {o:?} and {:?}", vs[i], vs[j], ord(j, i)))?;
            ensure(es[i].partial_cmp(&es[j]) == Some(o) && es[i].atom().cmp(es[j].atom()) == o, || {
                format!("comparisons of {} and {} disagree", vs[i], vs[j])
            })?;
            ensure(es[i].atom().partial_cmp(es[j].atom()) == Some(o), || "atom order".into())?;
        }
    }
    // every rotation of a transitive relation
    for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
        if ord(i, j) != Ordering::Greater && ord(j, k) != Ordering::Greater {
            let strict = ord(i, j) == Ordering::Less || ord(j, k) == Ordering::Less;
            ensure(ord(i, k) == if strict { Ordering::Less } else { Ordering::Equal }, || {
                format!("not transitive: {} , {} , {}", vs[i], vs[j], vs[k])
            })?;
        }
    }
    // parts that are ordered on their own
    for i in 0..3 {
        for j in 0..3 {
            match (es[i].atom(), es[j].atom()) {
                (Atom::Sum(a), Atom::Sum(b)) => {
                    ensure((a == b) == (es[i] == es[j]) && a.cmp(b) == ord(i, j), || format!("sums {} and {}", vs[i], vs[j]))?;
                    ensure(a != b || hash(a) == hash(b), || "hash of sums".into())?
                }
                (Atom::Prod(a), Atom::Prod(b)) => {
                    ensure((a == b) == (es[i] == es[j]) && a.cmp(b) == ord(i, j), || format!("products {} and {}", vs[i], vs[j]))?;
                    ensure(a != b || hash(a) == hash(b), || "hash of products".into())?
                }
                (Atom::Pow(a), Atom::Pow(b)) => {
                    ensure((a == b) == (es[i] == es[j]), || format!("powers {} and {}", vs[i], vs[j]))?;
                    ensure((a.cmp(b) == Ordering::Equal) == (a == b) && a.cmp(b) == b.cmp(a).reverse(), || "order of powers".into())?
                }
                (Atom::Func(a), Atom::Func(b)) => {
                    ensure((a == b) == (es[i] == es[j]), || format!("functions {} and {}", vs[i], vs[j]))?;
                    ensure((a.cmp(b) == Ordering::Equal) == (a == b) && a.cmp(b) == b.cmp(a).reverse(), || "order of functions".into())?
                }
                _ => (),
            }
        }
    }
    if c.op == "bases" {
        cx.hit("real numbers");
        for (a, b) in [(0, 1), (1, 2), (0, 2)] {
            let ((ra, va), (rb, vb)) = (real_base(&c.ts[a]), real_base(&c.ts[b]));
            ensure(ra.cmp(&rb) == va.cmp(&vb) && rb.cmp(&ra) == vb.cmp(&va), || format!("comparing the numbers {ra} and {rb}: {:?}", ra.cmp(&rb)))?;
            ensure((ra == rb) == (va == vb) && ra.partial_cmp(&rb) == Some(va.cmp(&vb)), || format!("equality of {ra} and {rb}"))?;
            ensure(ra != rb || hash(&ra) == hash(&rb), || format!("hash of {ra} and {rb}"))?;
        }
    }
    // collections see one element per class
    let distinct: BTreeSet<&T> = cs.iter().collect();
    let h: HashSet<Expr> = es.iter().cloned().collect();
    let b: BTreeSet<Expr> = es.iter().cloned().collect();
    ensure(h.len() == distinct.len() && b.len() == distinct.len(), || {
        format!("{} classes, hash set has {}, ordered set {}", distinct.len(), h.len(), b.len())
    })?;
    let mut v: Vec<Expr> = es.clone();
    v.sort();
    ensure(v.windows(2).all(|w| w[0] <= w[1]), || "sorting".into())
}

// ------------------------------------------------------------ C18

fn subs<'a>(t: &'a T, v: &mut Vec<&'a T>) {
    v.push(t);
    for k in t.kids() {
        subs(k, v);
    }
}
/// generalized variables
fn gvars(t: &T, v: &mut BTreeSet<T>) {
    match t {
        T::Q(..) | T::Pi | T::E | T::Undef => (),
        T::Sum(_, a) => a.iter().for_each(|a| gvars(a, v)),
        T::Prod(_, a) => a.iter().for_each(|a| {
            if let T::Sum(..) = a {
                v.insert(canon(a));
            } else {
                gvars(a, v)
            }
        }),
        T::Pow(_, b, e) if matches!(**e, T::Q(n, d) if n >= d) => {
            v.insert(canon(b));
        }
        t => {
            v.insert(canon(t));
        }
    }
}
fn c18_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let mut g = anything(s);
    if s.chance(128) {
        g.vars = XY;
    }
    let t = gen_small(s, d, 400, &|s, d| g.top(s, d));
    let v = try_view(&t);
    let mut all = vec![];
    subs(&v, &mut all);
    let n = s.upto(1, 3, 8);
    let mut ts = vec![t.clone()];
    for _ in 0..n {
        ts.push(match s.weighted(&[4, 2, 3, 2]) {
            0 => shuffle(all[s.below(all.len())], s),
            1 => g.leaf(s),
            2 => tweak(all[s.below(all.len())], &g, s),
            _ => g.real(s, 1),
        });
    }
    Case::new("traverse", ts)
}
fn c18_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let e = build(t0(c));
    let v = view(&e);
    let mut all = vec![];
    subs(&v, &mut all);
    cx.nt(v.ops() >= 2);
    let multiset = |x: Vec<T>| {
        let mut x = x;
        x.sort();
        x
    };
    let got = multiset(e.iter_compl_sub_exprs().map(view).collect());
    let want = multiset(all.iter().map(|t| (*t).clone()).collect());
    ensure(got == want, || format!("{} complete sub-expressions of {v} instead of {}", got.len(), want.len()))?;
    // every node is visited once and can be changed
    let seen = std::cell::RefCell::new(vec![]);
    let mut f = e.clone();
    let seen_ref = &seen;
    f.for_each_compl_sub_expr(|x| seen_ref.borrow_mut().push(view(x)));
    ensure(multiset(seen.into_inner()) == want, || format!("visiting the sub-expressions of {v}"))?;
    ensure(view(&f) == v, || format!("visiting changed {v}"))?;
    fn put(t: &T) -> T {
        match t {
            T::V(_) => T::F(Fk::Sin, Box::new(var("q"))),
            t => map_kids(t, &mut put),
        }
    }
    fn rename(t: &T) -> T {
        match t {
            T::V(n) => T::V(format!("{n}'")),
            t => map_kids(t, &mut rename),
        }
    }
    let mut f = e.clone();
    f.for_each_compl_sub_expr(|x| {
        if let Atom::Var(n) = x.atom() {
            *x = Expr::var(&format!("{n}'"))
        }
    });
    ensure(view(&f) == rename(&v), || format!("renaming the variables of {v} gives {}", view(&f)))?;
    let mut f = e.clone();
    f.try_for_each_compl_sub_expr(|x| {
        if x.is_var() {
            *x = Expr::sin(Expr::var("q"));
            std::ops::ControlFlow::Break(())
        } else {
            std::ops::ControlFlow::Continue(())
        }
    });
    ensure(view(&f) == put(&v), || format!("replacing the variables of {v} gives {}", view(&f)))?;
    ensure(view(&e) == v, || format!("changing a copy changed {v}"))?;
    // occurrence
    let qs: Vec<Expr> = c.ts[1..].iter().map(build).collect();
    let canons: BTreeSet<T> = all.iter().map(|t| canon(t)).collect();
    let occurs: Vec<bool> = qs.iter().map(|q| canons.contains(&canon(&view(q)))).collect();
    for (q, o) in qs.iter().zip(&occurs) {
        if *o {
            cx.hit("occurs");
        } else {
            cx.hit("does not occur");
        }
        ensure(e.free_of(q) == !*o, || format!("{v} free of {} is {}", view(q), !o))?;
    }
    let any = occurs.iter().any(|o| *o);
    ensure(e.free_of_set(qs.iter()) == !any, || format!("{v} free of a set is {}", !any))?;
    ensure(e.free_of_set([]), || "free of nothing".into())?;
    // generalized variables
    let mut want = BTreeSet::new();
    gvars(&v, &mut want);
    let got: Vec<T> = e.variables().iter().map(|x| canon(&view(x))).collect();
    let got_set: BTreeSet<T> = got.iter().cloned().collect();
    ensure(got.len() == got_set.len(), || format!("variables of {v} contains duplicates"))?;
    ensure(got_set == want, || {
        let show = |s: &BTreeSet<T>| s.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ");
        format!("variables of {v} are {{{}}} instead of {{{}}}", show(&got_set), show(&want))
    })
}

// ------------------------------------------------------------ C17

#[derive(Clone, Copy)]
struct Pairs<'a>(&'a [(&'a Expr, &'a Expr)]);
impl<'a> IntoIterator for Pairs<'a> {
    type Item = (&'a Expr, &'a Expr);
    type IntoIter = std::iter::Copied<std::slice::Iter<'a, Self::Item>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().copied()
    }
}

/// replace every complete sub-expression that equals one of `from`, from the outside in
fn replace(t: &T, map: &[(T, T)]) -> T {
    let c = canon(t);
    for (from, to) in map {
        if *from == c {
            return to.clone();
        }
    }
    map_kids(t, &mut |a| replace(a, map))
}
fn c17_gen(s: &mut Src, tier: Tier) -> Case {
    let d = depth(s, tier);
    let mut g = anything(s);
    if s.chance(150) {
        g.vars = XY;
    }
    let t = gen_small(s, d, 400, &|s, d| g.top(s, d));
    let v = try_view(&t);
    let mut all = vec![];
    subs(&v, &mut all);
    let n = s.upto(1, 3, 8);
    let mut ts = vec![t.clone()];
    let mut froms: Vec<T> = vec![];
    for _ in 0..n {
        let from = match s.weighted(&[4, 3, 1]) {
            0 => var(s.pick(g.vars)),
            1 => shuffle(all[s.below(all.len())], s),
            _ => g.real(s, 1),
        };
        let to = match s.weighted(&[3, 2, 2]) {
            // often something that contains what other pairs replace
            0 => var(s.pick(g.vars)),
            1 if !froms.is_empty() => T::Sum(Style::Raw, vec![froms[s.below(froms.len())].clone(), g.leaf(s)]),
            _ => g.real(s, 1),
        };
        froms.push(from.clone());
        ts.push(from);
        ts.push(to);
    }
    Case::new("substitute", ts)
}
fn c17_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let e = build(t0(c));
    let v = view(&e);
    let es: Vec<Expr> = c.ts[1..].iter().map(build).collect();
    let pairs: Vec<(&Expr, &Expr)> = es.chunks(2).map(|p| (&p[0], &p[1])).collect();
    let map: Vec<(T, T)> = pairs.iter().map(|(a, b)| (canon(&view(a)), view(b))).collect();
    let say = || map.iter().map(|(a, b)| format!("{a} -> {b}")).collect::<Vec<_>>().join(", ");
    // one
    let one = e.substitude(pairs[0].0, pairs[0].1);
    let want = replace(&v, &map[..1]);
    cx.nt(want != v && v.ops() >= 1);
    if want != v {
        cx.hit("replaced");
    }
    ensure(view(&one) == want, || format!("substitude {} in {v} gives {} instead of {want}", say(), view(&one)))?;
    // all at once
    let con = e.concurr_substitude(Pairs(&pairs));
    let want = replace(&v, &map);
    ensure(view(&con) == want, || format!("concurr_substitude {} in {v} gives {} instead of {want}", say(), view(&con)))?;
    // one after the other
    let seq = e.seq_substitude(pairs.iter().copied());
    let mut want = v.clone();
    for m in &map {
        want = replace(&want, std::slice::from_ref(m));
    }
    ensure(view(&seq) == want, || format!("seq_substitude {} in {v} gives {} instead of {want}", say(), view(&seq)))?;
    ensure(view(&e) == v, || format!("substitution changed {v}"))?;
    // nothing to replace
    let z = Expr::var("never_used");
    ensure(view(&e.substitude(&z, pairs[0].1)) == v, || format!("substituting an absent variable changes {v}"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            gen: c17_gen,
            check: c17_check,
            quick: 800_000,
            thorough: 40_000_000,
            rule: "the first substitution changes an expression with at least one operation",
            assumptions: &["what 'equal' means for the replaced sub-expression is equality up to the order of sums and products"],
        },
        Prop {
            id: "C18",
            gen: c18_gen,
            check: c18_check,
            quick: 800_000,
            thorough: 40_000_000,
            rule: "the expression has at least two operations",
            assumptions: &[],
        },
        Prop {
            id: "C19",
            gen: c19_gen,
            check: c19_check,
            quick: 800_000,
            thorough: 40_000_000,
            rule: "at least two of the three expressions have an operation",
            assumptions: &[],
        },
    ]
}
