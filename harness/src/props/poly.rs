//! expressions seen as monomials and polynomials in generalised variables

use super::*;
use calcu_rs::polynomial::{VarPow, VarSet, GPE};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

/// degrees by canonical variable
type Mono = BTreeMap<T, i128>;

fn rsum(v: Vec<T>) -> T {
    T::Sum(Style::Raw, v)
}
fn rprod(v: Vec<T>) -> T {
    T::Prod(Style::Raw, v)
}

struct Model {
    /// canonical variables
    vars: Vec<T>,
}
impl Model {
    fn has(&self, t: &T) -> bool {
        self.vars.contains(&canon(t))
    }
    /// coefficient and power product of a monomial
    fn mono(&self, t: &T) -> Option<(T, Mono)> {
        if *t == T::Undef {
            return None;
        }
        if self.has(t) {
            return Some((int(1), [(canon(t), 1)].into()));
        }
        match t {
            T::Prod(_, v) => {
                let (mut cs, mut m) = (vec![], Mono::new());
                for a in v {
                    let (c, d) = self.mono(a)?;
                    cs.push(c);
                    for (v, n) in d {
                        *m.entry(v).or_default() += n;
                    }
                }
                return Some((rprod(cs), m));
            }
            T::Pow(st, b, e) => {
                if let T::Q(n, 1) = **e {
                    if n >= 1 {
                        let (c, d) = self.mono(b)?;
                        let m = d.into_iter().map(|(v, k)| (v, k * n)).collect();
                        return Some((T::Pow(*st, Box::new(c), e.clone()), m));
                    }
                }
            }
            _ => (),
        }
        let free = !canon(t).any(&|a| self.vars.contains(a));
        free.then(|| (t.clone(), Mono::new()))
    }
    /// terms grouped by power product, None when it is no polynomial
    fn poly(&self, t: &T) -> Option<BTreeMap<Mono, Vec<T>>> {
        let mut r: BTreeMap<Mono, Vec<T>> = BTreeMap::new();
        let terms: Vec<&T> = match t {
            T::Sum(_, v) if !self.has(t) => v.iter().collect(),
            t => vec![t],
        };
        for a in terms {
            let (c, m) = self.mono(a)?;
            r.entry(m).or_default().push(c);
        }
        Some(r)
    }
}
fn total(m: &Mono) -> i128 {
    m.values().sum()
}
fn mono_t(m: &Mono) -> Vec<T> {
    m.iter().map(|(v, n)| T::Pow(Style::Raw, Box::new(v.clone()), Box::new(int(*n)))).collect()
}

/// generalised variables: symbols, functions, powers, sums
fn gvars(s: &mut Src, g: &G) -> Vec<T> {
    let n = s.upto(1, 3, 8);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let x = match s.weighted(&[10, 2, 1, 1]) {
            0 if n > 3 => var(s.pick(&["x", "y", "z", "u", "v", "w", "x1", "x2", "t"])),
            0 => var(s.pick(&["x", "y", "z"])),
            1 => T::F(*s.pick(SINCOS), Box::new(var(s.pick(&["x", "y"])))),
            2 => T::Pow(Style::Smart, Box::new(var(s.pick(&["x", "a"]))), Box::new(g.int_exp(s))),
            _ => T::Sum(Style::Smart, vec![var("x"), g.num(s)]),
        };
        let x = try_view(&x);
        if !v.iter().any(|w| canon(w) == canon(&x)) && !matches!(x, T::Q(..) | T::Undef) {
            v.push(x);
        }
    }
    if v.is_empty() {
        v.push(var("x"));
    }
    v
}
/// a term that is often a monomial in `vs`
fn term(s: &mut Src, g: &G, vs: &[T]) -> T {
    let st = if s.chance(128) { Style::Raw } else { Style::Smart };
    let n = s.upto(0, 3, 9);
    let mut v: Vec<T> = (0..n)
        .map(|_| {
            let x = vs[s.below(vs.len())].clone();
            let x = shuffle(&x, s);
            match s.weighted(&[5, 4, 1, 1]) {
                0 => x,
                1 if s.chance(12) => {
                    // degrees beyond 8, 16 and 32 bits
                    let n = (1i128 << s.pick(&[8, 15, 16, 31, 32, 36])) + s.range(-2, 3);
                    T::Pow(st, Box::new(x), Box::new(int(n)))
                }
                1 => T::Pow(st, Box::new(x), Box::new(int(s.upto(1, 4, 25)))),
                2 => T::Prod(Style::Raw, vec![x, var(s.pick(XYZ))]),
                _ => {
                    let mut v = vec![x, g.num(s)];
                    for _ in 0..s.upto(0, 1, 5) {
                        let y = vs[s.below(vs.len())].clone();
                        v.push(if s.chance(60) { T::Pow(st, Box::new(y), Box::new(int(s.range(1, 3)))) } else { y });
                    }
                    let k = T::Prod(Style::Raw, v);
                    T::Pow(st, Box::new(k), Box::new(int(s.upto(1, 3, 9))))
                }
            }
        })
        .collect();
    match s.weighted(&[4, 3, 3, 2]) {
        0 => (),
        1 => v.push(g.num(s)),
        2 => v.push(var(s.pick(&["a", "b", "c"]))),
        _ => v.push(g.real(s, 1)),
    }
    if v.len() > 1 && s.chance(128) {
        mix_vec(&mut v, s);
    }
    if v.len() == 1 && s.chance(200) {
        v.remove(0)
    } else {
        T::Prod(st, v)
    }
}
fn poly_g(s: &mut Src) -> G {
    let mut g = if s.chance(128) { G::rational() } else { int_exps() };
    g.max_pow = 3;
    g
}

// ------------------------------------------------------------ C21

fn c21_gen(s: &mut Src, tier: Tier) -> Case {
    let g = poly_g(s);
    let vs = gvars(s, &g);
    let t = match s.weighted(&[6, 1, 1]) {
        0 => {
            let n = s.upto(1, 4, 24);
            let st = if s.chance(180) { Style::Raw } else { Style::Smart };
            let v: Vec<T> = (0..n).map(|_| term(s, &g, &vs)).collect();
            if v.len() == 1 && s.chance(128) { v[0].clone() } else { T::Sum(st, v) }
        }
        1 => {
            let v = [vs[s.below(vs.len())].clone()];
            shuffle(&v[0], s)
        }
        _ => {
            let d = depth(s, tier).min(3);
            let g = G { undef: s.chance(60), ..g };
            gen_small(s, d, 150, &|s, d| g.real(s, d))
        }
    };
    let mut ts = vec![t];
    ts.extend(vs);
    Case::new("view", ts)
}
fn vp(m: &Mono) -> VarPow {
    m.iter().map(|(v, n)| (build(v), *n)).collect::<Vec<_>>().into()
}
/// the power product of the library has exactly these degrees
fn same_mono(p: &VarPow, m: &Mono, vars: &[Expr]) -> Result<(), String> {
    ensure(*p == vp(m), || format!("power product {p:?} is not {}", rprod(mono_t(m))))?;
    ensure(p.total_deg() == total(m) && p.is_const() == m.is_empty(), || format!("degree of {p:?} is {}", p.total_deg()))?;
    for v in vars {
        let d = p.degree_of(v).copied();
        let want = m.get(&canon(&view(v))).copied();
        ensure(d == want, || format!("degree of {} in {p:?} is {d:?}", view(v)))?;
    }
    Ok(())
}
fn c21_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let e = build(t0(c));
    let t = view(&e);
    let vars: Vec<Expr> = c.ts[1..].iter().map(build).collect();
    let set = VarSet::new(&vars);
    let md = Model { vars: vars.iter().map(|v| canon(&view(v))).collect() };
    let pos = needs_pos(t0(c));
    // the set of variables itself
    ensure(set.iter().map(view).eq(vars.iter().map(view)), || "variables of the set".into())?;
    ensure(set == VarSet::from(vars.clone()) && vars.iter().all(|v| set.has(v)), || "set of variables".into())?;
    ensure(set.has(&e) == md.has(&t), || format!("{t} in the set is {}", set.has(&e)))?;
    let same = |got: &Expr, want: &T, what: &str| -> Result<(), String> {
        crate::eval::same_value(want, &view(got), pos, true).map_err(|m| format!("{what} of {t}: {m}; {} instead of {want}", view(got)))?;
        Ok(())
    };

    // as a monomial
    let mv = e.as_monomial_view(&set);
    let want = md.mono(&t);
    ensure(mv.check() == want.is_some(), || format!("{t} is a monomial: {}", mv.check()))?;
    match (mv.coeff(), &want) {
        (None, None) => ensure(mv.degree().is_none(), || format!("degree of the non-monomial {t}"))?,
        (Some((k, p)), Some((wk, wm))) => {
            same_mono(&p, wm, &vars)?;
            same(&k, wk, "coefficient")?;
            ensure(mv.degree() == Some(total(wm)), || format!("degree of the monomial {t} is {:?}", mv.degree()))?;
            for v in &vars {
                let d = wm.get(&canon(&view(v))).copied();
                ensure(mv.degree_of(v) == d, || format!("degree of {} in {t} is {:?}", view(v), mv.degree_of(v)))?;
            }
        }
        (k, _) => return Err(format!("{t} as a monomial is {k:?}")),
    }

    // as a polynomial
    let pv = e.as_polynomial_view(&set);
    let want = md.poly(&t);
    ensure(pv.check() == want.is_some(), || format!("{t} is a polynomial: {}", pv.check()))?;
    let coeffs = pv.coeffs();
    let Some(want) = want else {
        cx.hit("no polynomial");
        return ensure(coeffs.is_empty() && pv.degree().is_none(), || format!("{t} is no polynomial but has coefficients"));
    };
    cx.nt(want.len() >= 2 || want.keys().any(|m| m.len() >= 2));
    ensure(coeffs.len() == want.len(), || format!("{t} has the coefficients {coeffs:?}"))?;
    for (m, k) in &want {
        let got = coeffs.get(&vp(m)).ok_or_else(|| format!("{t} has no coefficient of {}", rprod(mono_t(m))))?;
        same(got, &rsum(k.clone()), &format!("coefficient of {}", rprod(mono_t(m))))?;
    }
    for p in coeffs.keys() {
        ensure(want.keys().any(|m| vp(m) == *p), || format!("{t} has a coefficient of {p:?}"))?;
    }
    let max = want.keys().map(total).max();
    ensure(pv.degree() == max, || format!("degree of {t} is {:?}, not {max:?}", pv.degree()))?;
    for v in &vars {
        let cv = canon(&view(v));
        let what = |d: i128| format!("coefficient of {}^{d}", view(v));
        let max = want.keys().filter_map(|m| m.get(&cv)).max().copied();
        ensure(pv.degree_of(v) == max, || format!("degree of {} in {t} is {:?}, not {max:?}", view(v), pv.degree_of(v)))?;
        // the other variables belong to the coefficients
        let mut by: BTreeMap<i128, Vec<T>> = BTreeMap::new();
        for (m, k) in &want {
            let mut rest = m.clone();
            let d = rest.remove(&cv).unwrap_or(0);
            let mut f = mono_t(&rest);
            f.push(rsum(k.clone()));
            by.entry(d).or_default().push(rprod(f));
        }
        let got = pv.coeffs_of(v);
        ensure(got.len() == by.len(), || format!("coefficients of {} in {t}: {got:?}", view(v)))?;
        for (d, k) in &by {
            let g = got.get(d).ok_or_else(|| format!("{t} has no {}", what(*d)))?;
            same(g, &rsum(k.clone()), &what(*d))?;
            let g = pv.coeffs_of_deg(v, d).ok_or_else(|| format!("{t} has no {}", what(*d)))?;
            same(&g, &rsum(k.clone()), &what(*d))?;
        }
        let Some((d, k)) = by.iter().next_back() else {
            continue; // the empty sum
        };
        ensure(pv.coeffs_of_deg(v, &(d + 1)).is_none(), || format!("{} in {t}", what(d + 1)))?;
        let l = pv.leading_coeff_of(v).ok_or("no leading coefficient")?;
        same(&l, &rsum(k.clone()), &format!("leading coefficient in {}", view(v)))?;
    }
    Ok(())
}

// ------------------------------------------------------------ C22

fn c22_gen(s: &mut Src, tier: Tier) -> Case {
    let g = poly_g(s);
    if s.chance(90) {
        // power products and lists of terms themselves
        let vs = gvars(s, &g);
        let n = s.upto(0, 4, 24);
        let mut c = Case::new("terms", vs.clone());
        for _ in 0..n {
            // coefficient, then degrees in some order
            c.ns.push(s.range(-3, 3));
            for _ in 0..3 {
                c.ns.push(s.below(vs.len()) as i128);
                c.ns.push(s.upto(1, 3, 40));
            }
        }
        return c;
    }
    let mut c = c21_gen(s, tier);
    if s.chance(128) {
        // more like terms
        let vs = c.ts[1..].to_vec();
        let t = c.ts[0].clone();
        let st = if s.chance(180) { Style::Raw } else { Style::Smart };
        let u = term(s, &g, &vs);
        let w = T::Prod(Style::Raw, vec![var(s.pick(&["a", "b", "c"])), u.clone()]);
        let mut v = match t {
            T::Sum(_, v) => v,
            t => vec![t],
        };
        v.push(u);
        let i = s.below(v.len() + 1);
        v.insert(i, w);
        c.ts[0] = T::Sum(st, v);
    }
    c.op = "collect".into();
    c
}
fn hash(h: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
fn c22_check(c: &Case, cx: &mut Cx) -> Result<(), String> {
    if c.op == "terms" {
        let vars: Vec<Expr> = c.ts.iter().map(build).collect();
        let mut gpe = GPE::default();
        let mut want: BTreeMap<Mono, Vec<T>> = BTreeMap::new();
        let mut seen: Vec<(VarPow, Mono)> = vec![];
        for t in c.ns.chunks(7) {
            let list: Vec<(Expr, i128)> = t[1..].chunks(2).map(|d| (vars[d[0] as usize % vars.len()].clone(), d[1])).collect();
            let p: VarPow = list.clone().into();
            let mut m = Mono::new();
            for (v, d) in &list {
                *m.entry(canon(&view(v))).or_default() += d;
            }
            same_mono(&p, &m, &vars)?;
            for (q, n) in &seen {
                ensure((p == *q) == (m == *n), || format!("{p:?} == {q:?} is {}", p == *q))?;
                ensure(m != *n || hash(&p) == hash(q), || format!("{p:?} and {q:?} hash differently"))?;
                ensure(p.cmp(q) == total(&m).cmp(&total(n)) && p.partial_cmp(q) == Some(p.cmp(q)), || format!("order of {p:?} and {q:?}"))?;
            }
            seen.push((p.clone(), m.clone()));
            gpe.add(Expr::from(t[0]), p.clone());
            want.entry(m.clone()).or_default().push(int(t[0]));
            let k = gpe.find_mut(&p).cloned().ok_or("coefficient not found")?;
            crate::eval::same_value(&rsum(want[&m].clone()), &view(&k), false, true).map_err(|e| format!("coefficient: {e}"))?;
        }
        cx.nt(seen.len() >= 2);
        let t = rsum(
            want.into_iter()
                .map(|(m, k)| {
                    let mut f = mono_t(&m);
                    f.push(rsum(k));
                    rprod(f)
                })
                .collect(),
        );
        let r = view(&gpe.into_expr());
        crate::eval::same_value(&t, &r, false, true).map_err(|e| format!("{e}; {t} became {r}"))?;
        return Ok(());
    }
    let e = build(t0(c));
    let t = view(&e);
    let vars: Vec<Expr> = c.ts[1..].iter().map(build).collect();
    let set = VarSet::new(&vars);
    let md = Model { vars: vars.iter().map(|v| canon(&view(v))).collect() };
    let Some(want) = md.poly(&t) else {
        cx.hit("no polynomial");
        return ensure(e.as_polynomial_view(&set).collect_terms().is_none(), || format!("collected the non-polynomial {t}"));
    };
    let r = e.as_polynomial_view(&set).collect_terms().ok_or_else(|| format!("did not collect {t}"))?;
    let vr = view(&r);
    crate::eval::same_value(&t, &vr, needs_pos(t0(c)), true).map_err(|m| format!("{m}; {t} collects to {vr}"))?;
    let nterms = match &t {
        T::Sum(_, v) => v.len(),
        _ => 1,
    };
    cx.nt(nterms > want.len() && want.len() >= 2);
    // with plain symbols as variables nothing in a coefficient can look like a variable
    let undef = |t: &T| t.any(&|a| *a == T::Undef);
    if md.vars.iter().all(|v| matches!(v, T::V(_))) && matches!(t, T::Sum(..)) && !undef(&t) && !undef(&vr) {
        let terms: Vec<T> = match &vr {
            T::Sum(_, v) => v.clone(),
            t => vec![t.clone()],
        };
        let mut ms = vec![];
        for a in &terms {
            let (_, m) = md.mono(a).ok_or_else(|| format!("the collected term {a} is no monomial"))?;
            ms.push(m);
        }
        let d: Vec<i128> = ms.iter().map(total).collect();
        ensure(d.windows(2).all(|w| w[0] >= w[1]), || format!("{vr} is not sorted by descending degree"))?;
        let mut high: Vec<&Mono> = ms.iter().filter(|m| !m.is_empty()).collect();
        let n = high.len();
        high.sort();
        high.dedup();
        ensure(high.len() == n, || format!("{vr} has two terms with the same power product"))?;
        ensure(high.iter().all(|m| want.contains_key(*m)), || format!("{vr} has a term that {t} does not have"))?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            gen: c21_gen,
            check: c21_check,
            quick: 600_000,
            thorough: 40_000_000,
            rule: "a polynomial with at least two terms or a term in two variables",
            assumptions: &["coefficients are compared by value"],
        },
        Prop {
            id: "C22",
            gen: c22_gen,
            check: c22_check,
            quick: 1_500_000,
            thorough: 40_000_000,
            rule: "a polynomial with like terms and at least two power products / at least two terms",
            assumptions: &["coefficients are compared by value; distinct power products and their order only with symbols as variables"],
        },
    ]
}
