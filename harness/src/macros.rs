//! C25: the expr! macro. Its inputs only exist at compile time, so a campaign is a
//! generated program: every case is one `expr!` invocation next to the tree that an
//! independent parser of the documented grammar reads from the same text. The
//! program is compiled against /repo and compares both sides at run time.

use crate::choice::{case_bytes, Src};
use crate::runner::{stream, Opts, Tier};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Instant;

pub const ID: &str = "C25";

// ------------------------------------------------------------ generator

const SYMS: &[&str] = &["x", "y", "z", "a", "b", "e", "foo", "x1", "_t", "sin", "ln"];
const FNS: &[&str] = &[
    "sin", "cos", "tan", "sec", "cot", "csc", "arc_sin", "arc_cos", "arc_tan", "arc_sec", "arc_cot", "arc_csc", "ln", "exp", "sqrt", "log10",
];
const FN2: &[&str] = &["add_raw", "mul_raw", "pow_raw", "div_raw", "add", "sub", "mul", "div", "pow"];
const OPS: &[&str] = &["+", "-", "*", "/", "^"];

fn num(s: &mut Src) -> String {
    match s.weighted(&[12, 2, 1]) {
        0 => s.range(0, 12).to_string(),
        1 => s.range(13, 999).to_string(),
        _ => s.pick(&["9223372036854775807", "1_000", "4294967296", "0010"]).to_string(),
    }
}
fn operand(s: &mut Src, d: u32, out: &mut Vec<String>) {
    for _ in 0..s.weighted(&[10, 4, 1]) {
        out.push("-".into());
    }
    match s.weighted(&if d == 0 { [10, 6, 1, 0, 0, 0] } else { [10, 6, 1, 6, 3, 1] }) {
        0 => out.push(s.pick(SYMS).to_string()),
        1 => out.push(num(s)),
        2 => out.push(if s.chance(60) { "undef" } else { "pi" }.into()),
        3 => {
            out.push("(".into());
            expr(s, d - 1, out);
            out.push(")".into());
        }
        4 => {
            out.push(s.pick(FNS).to_string());
            out.push("(".into());
            expr(s, d - 1, out);
            if s.chance(20) {
                out.push(",".into());
            }
            out.push(")".into());
        }
        _ => {
            out.push(s.pick(FN2).to_string());
            out.push("(".into());
            expr(s, d - 1, out);
            out.push(",".into());
            expr(s, d - 1, out);
            out.push(")".into());
        }
    }
}
fn expr(s: &mut Src, d: u32, out: &mut Vec<String>) {
    let n = 1 + s.weighted(&[2, 4, 4, 2, 1]);
    // often few different operators, so that they meet themselves
    let few: Vec<&str> = (0..1 + s.below(3)).map(|_| *s.pick(OPS)).collect();
    let all = s.chance(90);
    for i in 0..n {
        if i > 0 {
            out.push(if all { s.pick(OPS) } else { s.pick(&few) }.to_string());
        }
        operand(s, d, out);
    }
}
fn gen(bytes: &[u8]) -> Vec<String> {
    let mut s = Src::new(bytes);
    let d = [0, 1, 1, 2, 2, 3][s.below(6)];
    let mut out = vec![];
    expr(&mut s, d, &mut out);
    out
}

// ------------------------------------------------------------ independent parser
// sum   := prod (('+' | '-') prod)*            from the left
// prod  := signed (('*' | '/') signed)*        from the left
// signed:= '-' signed | power                  a sign covers the power after it
// power := atom ('^' '-'* atom)*               from the left

struct P<'a> {
    t: &'a [String],
    i: usize,
}
impl P<'_> {
    fn is(&self, s: &str) -> bool {
        self.t.get(self.i).is_some_and(|t| t == s)
    }
    fn eat(&mut self, s: &str) -> bool {
        let b = self.is(s);
        self.i += b as usize;
        b
    }
    fn sum(&mut self) -> Option<String> {
        let mut l = self.prod()?;
        loop {
            let op = if self.eat("+") {
                "add"
            } else if self.eat("-") {
                "sub"
            } else {
                return Some(l);
            };
            l = format!("({op} {l} {})", self.prod()?);
        }
    }
    fn prod(&mut self) -> Option<String> {
        let mut l = self.signed()?;
        loop {
            let op = if self.eat("*") {
                "mul"
            } else if self.eat("/") {
                "div"
            } else {
                return Some(l);
            };
            l = format!("({op} {l} {})", self.signed()?);
        }
    }
    fn signed(&mut self) -> Option<String> {
        if self.eat("-") {
            return Some(format!("(neg {})", self.signed()?));
        }
        let mut l = self.atom()?;
        while self.eat("^") {
            let mut neg = 0;
            while self.eat("-") {
                neg += 1;
            }
            let mut r = self.atom()?;
            for _ in 0..neg {
                r = format!("(neg {r})");
            }
            l = format!("(pow {l} {r})");
        }
        Some(l)
    }
    fn atom(&mut self) -> Option<String> {
        let t = self.t.get(self.i)?.clone();
        self.i += 1;
        if t == "(" {
            let e = self.sum()?;
            return self.eat(")").then_some(e);
        }
        let c = t.chars().next()?;
        if c.is_ascii_digit() {
            return Some(t.replace('_', ""));
        }
        if !(c.is_ascii_alphabetic() || c == '_') {
            return None;
        }
        if self.eat("(") {
            let mut args = vec![self.sum()?];
            while self.eat(",") {
                if self.is(")") {
                    break;
                }
                args.push(self.sum()?);
            }
            if !self.eat(")") {
                return None;
            }
            let n = if FNS.contains(&&t[..]) {
                1
            } else if FN2.contains(&&t[..]) {
                2
            } else {
                return None;
            };
            return (args.len() == n).then(|| format!("({t} {})", args.join(" ")));
        }
        Some(match &t[..] {
            "pi" => "(pi)".into(),
            "undef" => "(undef)".into(),
            _ => t,
        })
    }
}
fn parse(t: &[String]) -> Option<String> {
    let mut p = P { t, i: 0 };
    let e = p.sum()?;
    (p.i == t.len()).then_some(e)
}

// ------------------------------------------------------------ compile and run

const MAIN: &str = r##"
#[path = "TERM"]
#[allow(dead_code)]
mod term;
use calcu_rs::{expr as e, Expr};
type E = Expr;

fn tree(t: &mut std::iter::Peekable<std::vec::IntoIter<String>>) -> E {
    let h = t.next().expect("token");
    if h != "(" {
        return match h.parse::<i128>() {
            Ok(n) => E::from(n),
            Err(_) => E::var(&h),
        };
    }
    let f = t.next().expect("name");
    let mut a = vec![];
    while t.peek().map(|s| &s[..]) != Some(")") {
        a.push(tree(t));
    }
    t.next();
    let mut a = a.into_iter();
    let mut n = || a.next().expect("argument");
    match &f[..] {
        "pi" => E::pi(),
        "undef" => E::undef(),
        "neg" => E::mul(E::from(-1), n()),
        "add" => E::add(n(), n()),
        "sub" => E::sub(n(), n()),
        "mul" => E::mul(n(), n()),
        "div" => E::div(n(), n()),
        "pow" => E::pow(n(), n()),
        "add_raw" => E::add_raw(n(), n()),
        "mul_raw" => E::mul_raw(n(), n()),
        "pow_raw" => E::pow_raw(n(), n()),
        "div_raw" => E::div_raw(n(), n()),
        "sin" => E::sin(n()),
        "cos" => E::cos(n()),
        "tan" => E::tan(n()),
        "sec" => E::sec(n()),
        "cot" => E::cot(n()),
        "csc" => E::csc(n()),
        "arc_sin" => E::arc_sin(n()),
        "arc_cos" => E::arc_cos(n()),
        "arc_tan" => E::arc_tan(n()),
        "arc_sec" => E::arc_sec(n()),
        "arc_cot" => E::arc_cot(n()),
        "arc_csc" => E::arc_csc(n()),
        "ln" => E::ln(n()),
        "exp" => E::exp(n()),
        "sqrt" => E::sqrt(n()),
        "log10" => E::log10(n()),
        f => panic!("{f}"),
    }
}
fn read(s: &str) -> E {
    let s = s.replace('(', " ( ").replace(')', " ) ");
    let v: Vec<String> = s.split_whitespace().map(String::from).collect();
    tree(&mut v.into_iter().peekable())
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let run = || {
        for (i, (f, s)) in CASES.iter().enumerate() {
            let a = std::panic::catch_unwind(|| term::view(&f()).to_string());
            let b = std::panic::catch_unwind(|| term::view(&read(s)).to_string());
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => (),
                (Err(_), Err(_)) => println!("both panic {i}"),
                (a, b) => println!("case {i} {} instead of {}", a.unwrap_or("panic".into()), b.unwrap_or("panic".into())),
            }
        }
        println!("done {}", CASES.len());
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).expect("thread").join().expect("run");
}
"##;

struct Batch {
    /// index -> what is wrong
    bad: BTreeMap<usize, String>,
    both_panic: u64,
}

fn run_batch(root: &Path, cases: &[Vec<String>]) -> Result<Batch, String> {
    let h = root.join("harness");
    let dir = h.join("target").join("macro_cases");
    std::fs::create_dir_all(dir.join("src")).map_err(|e| format!("{}: {e}", dir.display()))?;
    let toml = std::fs::read_to_string(h.join("Cargo.toml")).map_err(|e| e.to_string())?;
    // same dependencies and profile, so that their build products are shared
    let toml = toml
        .replace("name = \"calcu-verif\"", "name = \"macro-cases\"")
        .replace("\n[profile.release]\nopt-level = 2", "\n[profile.release.package.macro-cases]\nopt-level = 0\ndebug = false\n\n[profile.release]\nopt-level = 2");
    std::fs::write(dir.join("Cargo.toml"), toml).map_err(|e| e.to_string())?;
    let lock = std::fs::read_to_string(h.join("Cargo.lock")).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("Cargo.lock"), lock.replace("name = \"calcu-verif\"", "name = \"macro-cases\"")).map_err(|e| e.to_string())?;
    let mut live: BTreeSet<usize> = (0..cases.len()).collect();
    let mut bad = BTreeMap::new();
    for _round in 0..4 {
        let mut src = MAIN.replace("TERM", &h.join("src").join("term.rs").display().to_string());
        let mut line = src.matches('\n').count() + 1;
        let mut at: BTreeMap<usize, usize> = BTreeMap::new();
        let mut table = "static CASES: &[(fn() -> Expr, &str)] = &[\n".to_string();
        let ids: Vec<usize> = live.iter().copied().collect();
        for i in &ids {
            let _ = writeln!(src, "fn c{i}() -> Expr {{ e!({}) }}", cases[*i].join(" "));
            at.insert(line, *i);
            line += 1;
            let _ = writeln!(table, "(c{i}, {:?}),", parse(&cases[*i]).ok_or("unparsable case")?);
        }
        src += &table;
        src += "];\n";
        std::fs::write(dir.join("src").join("main.rs"), src).map_err(|e| e.to_string())?;
        let out = Command::new("cargo")
            .args(["build", "--release", "--offline", "--message-format=short"])
            .current_dir(&dir)
            .env("CARGO_TARGET_DIR", h.join("target"))
            .output()
            .map_err(|e| format!("cargo: {e}"))?;
        if !out.status.success() {
            // a case that does not compile: find it by its line
            let err = String::from_utf8_lossy(&out.stderr);
            let mut found = false;
            for l in err.lines() {
                let Some(r) = l.strip_prefix("src/main.rs:") else { continue };
                let Some((n, m)) = r.split_once(':') else { continue };
                if !m.contains("error") {
                    continue;
                }
                if let Some(i) = n.parse().ok().and_then(|n: usize| at.get(&n)) {
                    bad.entry(*i).or_insert(format!("does not compile: {}", m.trim_start_matches(|c: char| c.is_ascii_digit() || c == ':' || c == ' ')));
                    live.remove(i);
                    found = true;
                }
            }
            if !found {
                return Err(format!("the generated program does not build: {}", err.lines().rev().take(15).collect::<Vec<_>>().join("\n")));
            }
            continue;
        }
        let exe = h.join("target").join("release").join("macro-cases");
        let out = Command::new("timeout").arg("300").arg(&exe).output().map_err(|e| format!("{}: {e}", exe.display()))?;
        let txt = String::from_utf8_lossy(&out.stdout);
        let mut both = 0;
        let mut done = false;
        for l in txt.lines() {
            if let Some(r) = l.strip_prefix("case ") {
                let Some((i, m)) = r.split_once(' ') else { continue };
                if let Some(i) = i.parse().ok().and_then(|n: usize| ids.get(n)) {
                    bad.insert(*i, format!("is {m}"));
                }
            }
            both += l.starts_with("both panic") as u64;
            done |= l.starts_with("done ");
        }
        if !done {
            return Err(format!("the generated program ended with {:?}", out.status));
        }
        return Ok(Batch { bad, both_panic: both });
    }
    Ok(Batch { bad, both_panic: 0 })
}

/// smaller texts
fn smaller(t: &[String]) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    let mut seen = HashSet::new();
    let mut push = |c: Vec<String>| {
        if !c.is_empty() && parse(&c).is_some() && seen.insert(c.clone()) {
            out.push(c);
        }
    };
    for k in 1..=t.len() {
        for i in 0..=t.len() - k {
            // without a piece, or only the piece
            push(t[..i].iter().chain(&t[i + k..]).cloned().collect());
            push(t[i..i + k].to_vec());
        }
    }
    for i in 0..t.len() {
        // without a pair of parentheses
        if t[i] == "(" {
            let mut depth = 0;
            for j in i..t.len() {
                depth += (t[j] == "(") as i32 - (t[j] == ")") as i32;
                if depth == 0 {
                    push((0..t.len()).filter(|k| *k != i && *k != j).map(|k| t[k].clone()).collect());
                    push(t[..i].iter().cloned().chain(["x".to_string()]).chain(t[j + 1..].iter().cloned()).collect());
                    break;
                }
            }
        } else if t[i].len() > 1 || t[i].chars().all(|c| c.is_ascii_digit() && c > '2') {
            for r in ["x", "2"] {
                let mut c = t.to_vec();
                c[i] = r.into();
                push(c);
            }
        }
    }
    out.sort_by_key(|c| (c.len(), c.iter().map(|s| s.len()).sum::<usize>()));
    out.retain(|c| c.len() < t.len() || c.concat().len() < t.concat().len());
    out.truncate(400);
    out
}

fn shrink(root: &Path, t: &[String], msg: &mut String) -> Vec<String> {
    let mut best = t.to_vec();
    let t0 = Instant::now();
    for _ in 0..10 {
        if t0.elapsed().as_secs() > 150 {
            break;
        }
        let c = smaller(&best);
        if c.is_empty() {
            break;
        }
        match run_batch(root, &c) {
            Ok(b) => match b.bad.into_iter().next() {
                Some((i, m)) => {
                    best = c[i].clone();
                    *msg = m;
                }
                None => break,
            },
            Err(_) => break,
        }
    }
    best
}

fn tokens(s: &str) -> Vec<String> {
    s.split_whitespace().map(String::from).collect()
}

pub fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = o.cases.unwrap_or(match o.tier {
        Tier::Quick => 10_000,
        Tier::Thorough => 60_000,
    });
    let mut buf = vec![];
    let (mut keys, mut samples): (HashSet<String>, Vec<String>) = Default::default();
    let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut evals, mut both) = (0u64, 0u64);
    let mut violations: Vec<(PathBuf, String)> = vec![];
    let mut all: Vec<Vec<String>> = vec![];
    for i in 0..total {
        case_bytes(o.seed, stream(ID), i, &mut buf);
        let t = gen(&buf);
        if parse(&t).is_none() {
            println!("error: generated an unparsable text: {}", t.join(" "));
            return 3;
        }
        all.push(t);
    }
    for chunk in all.chunks(4_000) {
        let b = match run_batch(&o.root, chunk) {
            Ok(b) => b,
            Err(e) => {
                println!("error: {e}");
                return 3;
            }
        };
        evals += chunk.len() as u64;
        both += b.both_panic;
        for t in chunk {
            let ops = t.iter().filter(|t| OPS.contains(&&t[..])).count();
            if ops >= 2 && keys.insert(t.join(" ")) && samples.len() < 8 && ops >= 3 {
                samples.push(format!("expr!({})", t.join(" ")));
            }
            for op in OPS {
                if t.iter().any(|t| t == op) {
                    *classes.entry(op).or_default() += 1;
                }
            }
        }
        if let Some((i, m)) = b.bad.into_iter().min_by_key(|(i, _)| chunk[*i].len()) {
            println!("expr!({}) {m}", chunk[i].join(" "));
            let mut msg = m;
            let c = shrink(&o.root, &chunk[i], &mut msg);
            let text = c.join(" ");
            println!("shrunk: expr!({text}) {msg}");
            let dir = o.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{ID}-{:016x}.json", stream(&text)));
            let v = json!({"property": ID, "message": msg, "case": {"op": "expr!", "ts": [], "ns": [], "ss": [text]},
                           "origin": {"seed": o.seed, "case": chunk[i].join(" ")}});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
            violations.push((path, msg));
            break;
        }
    }
    let ev = json!({
        "property": ID,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": keys.len(),
            "rule": "the text contains at least two operators",
            "samples": samples,
            "classes": classes,
            "both_sides_panicked": both,
        },
        "assumptions": ["the named constructors of Expr (C03)", "no floating point literals, oo or placeholders"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let edir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if std::fs::write(edir.join(format!("{ID}.json")), serde_json::to_string_pretty(&ev).unwrap_or_default()).is_err() {
        println!("error: cannot write the evidence file");
        return 3;
    }
    println!("{ID}: {evals} cases, {} distinct non-trivial, both sides panicked {both}, {:.1} s", keys.len(), t0.elapsed().as_secs_f64());
    for (path, _) in &violations {
        println!("VIOLATION property={ID} replay={}", path.display());
    }
    (!violations.is_empty()) as i32
}

pub fn replay(root: &Path, v: &Value, file: &Path) -> i32 {
    let t = tokens(v["case"]["ss"][0].as_str().unwrap_or(""));
    if parse(&t).is_none() {
        println!("bad case");
        return 2;
    }
    println!("case: expr!({})", t.join(" "));
    match run_batch(root, &[t]) {
        Err(e) => {
            println!("error: {e}");
            2
        }
        Ok(b) => match b.bad.get(&0) {
            Some(m) => {
                println!("{m}");
                println!("VIOLATION property={ID} replay={}", file.display());
                1
            }
            None => {
                println!("holds");
                0
            }
        },
    }
}
