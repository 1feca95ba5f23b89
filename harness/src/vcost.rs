//! C19: a scalar type that counts the operations done on it, run through every entry point, and a clock.
#![allow(dead_code)]
mod dd;
mod genr;
mod inter;
mod prob;
mod refmodel;
mod rng;
mod sc;

use inter::{build, build1, objs};
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use prob::*;
use rng::Rng;
use sc::Sc;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashSet};
use std::fmt;
use std::ops::*;

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static CMP: Cell<u64> = const { Cell::new(0) };
}
fn op() {
    OPS.with(|c| c.set(c.get() + 1));
}
fn cm() {
    CMP.with(|c| c.set(c.get() + 1));
}
fn reset() {
    OPS.with(|c| c.set(0));
    CMP.with(|c| c.set(0));
}
fn read() -> (u64, u64) {
    (OPS.with(|c| c.get()), CMP.with(|c| c.get()))
}
#[derive(Clone, Copy)]
pub struct Q(f64);
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        cm();
        self.0 == o.0
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        cm();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! bin {
    ($($t:ident $f:ident)*) => { $(
        impl $t for Q { type Output = Q; fn $f(self, o: Q) -> Q { op(); Q($t::$f(self.0, o.0)) } }
    )* };
}
bin!(Add add Sub sub Mul mul Div div Rem rem);
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        op();
        Q(-self.0)
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q(0.0)
    }
    fn is_zero(&self) -> bool {
        cm();
        self.0 == 0.0
    }
}
impl One for Q {
    fn one() -> Q {
        Q(1.0)
    }
}
impl Num for Q {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Q, ()> {
        Err(())
    }
}
impl ToPrimitive for Q {
    fn to_i64(&self) -> Option<i64> {
        op();
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        op();
        self.0.to_u64()
    }
    fn to_isize(&self) -> Option<isize> {
        op();
        self.0.to_isize()
    }
    fn to_usize(&self) -> Option<usize> {
        op();
        self.0.to_usize()
    }
    fn to_f64(&self) -> Option<f64> {
        op();
        Some(self.0)
    }
}
impl NumCast for Q {
    fn from<X: ToPrimitive>(x: X) -> Option<Q> {
        op();
        x.to_f64().map(Q)
    }
}
macro_rules! un {
    ($($f:ident)*) => { $( fn $f(self) -> Q { op(); Q(Float::$f(self.0)) } )* };
}
macro_rules! pred {
    ($($f:ident)*) => { $( fn $f(self) -> bool { cm(); Float::$f(self.0) } )* };
}
macro_rules! konst {
    ($($f:ident)*) => { $( fn $f() -> Q { Q(<f64 as Float>::$f()) } )* };
}
impl Float for Q {
    konst!(nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    pred!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    un!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    fn classify(self) -> std::num::FpCategory {
        cm();
        self.0.classify()
    }
    fn mul_add(self, a: Q, b: Q) -> Q {
        op();
        op();
        Q(self.0 * a.0 + b.0)
    }
    fn powi(self, n: i32) -> Q {
        for _ in 0..n.unsigned_abs() {
            op();
        }
        Q(self.0.powi(n))
    }
    fn powf(self, n: Q) -> Q {
        op();
        Q(self.0.powf(n.0))
    }
    fn log(self, b: Q) -> Q {
        op();
        Q(self.0.log(b.0))
    }
    fn max(self, o: Q) -> Q {
        cm();
        Q(self.0.max(o.0))
    }
    fn min(self, o: Q) -> Q {
        cm();
        Q(self.0.min(o.0))
    }
    fn abs_sub(self, o: Q) -> Q {
        op();
        Q((self.0 - o.0).max(0.0))
    }
    fn hypot(self, o: Q) -> Q {
        op();
        Q(self.0.hypot(o.0))
    }
    fn atan2(self, o: Q) -> Q {
        op();
        Q(self.0.atan2(o.0))
    }
    fn sin_cos(self) -> (Q, Q) {
        op();
        (Q(self.0.sin()), Q(self.0.cos()))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        op();
        Float::integer_decode(self.0)
    }
}
impl Sc for Q {
    const U: f64 = 1.1102230246251565e-16;
    const MAXF: f64 = f64::MAX;
    const MINSUB: f64 = 5e-324;
    const NAME: &'static str = "counting f64";
    const IS32: bool = false;
    fn f(self) -> f64 {
        self.0
    }
    fn of(x: f64) -> Q {
        Q(x)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn from_bits64(b: u64) -> Q {
        Q(f64::from_bits(b))
    }
    fn up(self) -> Q {
        Q(self.0.next_up())
    }
    fn down(self) -> Q {
        Q(self.0.next_down())
    }
}

/// Place of a coordinate on its axis; everything inside that is not an edge cell counts as interior.
const PLACES: [&str; 6] = ["below", "low edge cell", "interior", "high edge cell", "above", "on a grid point"];
fn axis<T: Sc>(kind: Kind, n: usize, r: &mut Rng) -> (T, T, Vec<T>) {
    let mut g = vec![];
    if kind == Kind::Rect {
        let mut x = 0.0;
        for _ in 0..n {
            g.push(T::of(x));
            x += 0.5 + r.unit();
        }
    }
    (T::of(-3.0), T::of(0.25), g)
}
fn make<T: Sc>(kind: Kind, dims: &[usize], r: &mut Rng) -> Prob<T> {
    let mut p = Prob { kind, dims: dims.to_vec(), starts: vec![], steps: vec![], grids: vec![], vals: vec![], exact: vec![false; dims.len()], share: false };
    for &k in dims {
        let (s, h, g) = axis(kind, k, r);
        p.starts.push(s);
        p.steps.push(h);
        if kind == Kind::Rect {
            p.grids.push(g);
        }
    }
    let n = p.size();
    p.vals = (0..n).map(|_| T::of(r.unit() - 0.5)).collect();
    p
}
fn place<T: Sc>(p: &Prob<T>, a: usize, k: usize, r: &mut Rng) -> T {
    let n = p.dims[a];
    let at = |i: usize| p.coord(a, i).f();
    let (lo, hi) = (at(0), at(n - 1));
    let cell = |i: usize, u: f64| at(i) + u * (at(i + 1) - at(i));
    let u = r.uni(0.1, 0.9);
    T::of(match k {
        0 => lo - 0.3 - r.unit() * 5.0,
        1 => cell(0, u),
        2 => {
            let i = if n >= 4 { r.range(1, n - 3) } else { 0 };
            cell(i, u)
        }
        3 => cell(n - 2, u),
        4 => hi + 0.3 + r.unit() * 5.0,
        // both neighbouring cells are interior ones where there are enough
        _ => at(if n >= 6 { r.range(2, n - 3) } else { n / 2 }),
    })
}
struct Rep {
    evals: u64,
    sigs: HashSet<String>,
    counters: BTreeMap<String, u64>,
    viol: Vec<String>,
    samples: Vec<String>,
    worst: f64,
}
/// Most operations a point may take: `c * 2^n` (linear), `c * 4^n` (cubic), with what every axis needs once.
fn ceiling(m: Meth, n: usize) -> f64 {
    let n_ = n as f64;
    match m {
        Meth::Linear => 20.0 * 2f64.powi(n as i32) + 60.0 * n_ + 40.0,
        Meth::Cubic(_) => 50.0 * 4f64.powi(n as i32) + 100.0 * n_ + 60.0,
        Meth::Nearest => 60.0 * n_ + 40.0,
    }
}
fn log2(n: usize) -> f64 {
    (n as f64).log2()
}
fn counting(rep: &mut Rep, seed: u64, rounds: u64) {
    let mut r = Rng::new(seed, 19, 0);
    let ms = [Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest];
    for round in 0..rounds {
        for m in ms {
            for kind in [Kind::Reg, Kind::Rect] {
                let top = match m { Meth::Linear => 10, Meth::Nearest => 6, _ => 7 };
                for n in 1..=top {
                    // a small grid, and grids with one axis after another long
                    let tiny = if m == Meth::Linear && round % 2 == 1 { 2 } else if m == Meth::Linear && n > 7 { 3 } else if matches!(m, Meth::Cubic(_)) && n > 5 { 4 } else { 6 };
                    let small: Prob<Q> = make(kind, &vec![tiny; n], &mut r);
                    let room = (400_000 / tiny.pow(n as u32 - 1)).clamp(tiny + 1, 200_000);
                    let mut d = vec![tiny; n];
                    // the rounds go through the axes
                    let la = if round == 0 { 0 } else if n > 6 { r.below(n) } else { (round as usize / 2 + seed as usize) % n };
                    d[la] = if round % 3 == 2 { r.range(tiny + 1, room) } else { room };
                    let large: Prob<Q> = make(kind, &d, &mut r);
                    let (gs, gl) = (small.gridrefs(), large.gridrefs());
                    for o in objs(m, n) {
                        let its = build(&small, &gs, m, o);
                        let itl = build(&large, &gl, m, o);
                        let (Ok(its), Ok(itl)) = (its, itl) else {
                            rep.viol.push(format!("valid construction refused: {m:?} {kind:?} {o:?} n={n}"));
                            continue;
                        };
                        let mut cols: Vec<Vec<Q>> = vec![vec![]; n];
                        let mut sum = 0;
                        let pts = if matches!(m, Meth::Cubic(_)) && n > 5 { 6 } else { 24 };
                        for k in 0..pts {
                            let pl: Vec<usize> = (0..n).map(|_| if k < 6 { k } else { r.below(6) }).collect();
                            // with four points on an axis every cell is an edge cell; interior is then one of them
                            let xs: Vec<Q> = (0..n).map(|a| place(&small, a, pl[a], &mut r)).collect();
                            let xl: Vec<Q> = (0..n).map(|a| place(&large, a, pl[a], &mut r)).collect();
                            reset();
                            let ok1 = its.one(&xs).is_ok();
                            let (so, sc_) = read();
                            reset();
                            let ok2 = itl.one(&xl).is_ok();
                            let (lo, lc) = read();
                            rep.evals += 2;
                            let desc = || format!("{m:?} {kind:?} {o:?} grids {:?} and {:?} at {:?} and {:?} ({:?})", small.dims, large.dims, xs, xl, pl.iter().map(|p| PLACES[*p]).collect::<Vec<_>>());
                            if !ok1 || !ok2 {
                                rep.viol.push(format!("valid evaluation refused: {}", desc()));
                                continue;
                            }
                            sum += lo + lc;
                            for a in 0..n {
                                cols[a].push(xl[a]);
                            }
                            // one search of an axis takes some comparisons for every doubling of its length
                            let search = if kind == Kind::Rect { 4.0 * (log2(d[la]) - log2(tiny)) + 12.0 } else { 0.0 };
                            let c = ceiling(m, n);
                            for (ops, cmps, what, dims) in [(so, sc_, "small", &small.dims), (lo, lc, "large", &large.dims)] {
                                let s: f64 = if kind == Kind::Rect { dims.iter().map(|l| 4.0 * log2(*l) + 16.0).sum() } else { 0.0 };
                                let t = (ops + cmps) as f64;
                                rep.worst = rep.worst.max((t - s).max(ops as f64) / c);
                                if t > c + s {
                                    rep.viol.push(format!("{ops} operations and {cmps} comparisons for one point of the {what} grid, more than {:.0}: {}", c + s, desc()));
                                }
                            }
                            // the interior of a grid of four points has other formulas: compare like with like only
                            let like = tiny >= 6 || m == Meth::Linear || pl.iter().all(|p| *p != 2 && *p != 5);
                            if like && lo as f64 > 1.1 * so as f64 + 8.0 * n as f64 {
                                rep.viol.push(format!("{so} operations on the small grid, {lo} on the large one: {}", desc()));
                            }
                            if like && lc as f64 > 1.1 * sc_ as f64 + 6.0 * n as f64 + search {
                                rep.viol.push(format!("{sc_} comparisons on the small grid, {lc} on the large one: {}", desc()));
                            }
                            if rep.samples.len() < 3 && k == 7 {
                                rep.samples.push(format!("{so}+{sc_} and {lo}+{lc} operations+comparisons: {}", desc()));
                            }
                            rep.sigs.insert(format!("{m:?}{kind:?}{o:?}{n}{pl:?}{}", large.dims.iter().max().unwrap().ilog2()));
                            if rep.viol.len() > 5 {
                                return;
                            }
                        }
                        // a batch costs what its points cost, in any multiple
                        for mult in [1usize, 4] {
                            let big: Vec<Vec<Q>> = cols.iter().map(|c| c.repeat(mult)).collect();
                            let obs: Vec<&[Q]> = big.iter().map(|c| &c[..]).collect();
                            let mut out = vec![Q(0.0); big[0].len()];
                            reset();
                            let ok = itl.batch(&obs, &mut out).is_ok();
                            let (a, b) = read();
                            rep.evals += 1;
                            *rep.counters.entry("batches".into()).or_default() += 1;
                            let lim = 1.25 * (sum * mult as u64) as f64 + 100.0 + 40.0 * n as f64;
                            if !ok || (a + b) as f64 > lim {
                                rep.viol.push(format!("{} points take {} operations in a batch, {} one by one: {m:?} {kind:?} {o:?} grid {:?}", out.len(), a + b, sum * mult as u64, large.dims));
                            }
                        }
                        *rep.counters.entry(format!("{n}d")).or_default() += pts as u64;
                    }
                    // bounds checks: a few operations per coordinate
                    for b in BCS {
                        let pts = 50;
                        let cols: Vec<Vec<Q>> = (0..n).map(|a| (0..pts).map(|_| place(&large, a, 2, &mut r)).collect()).collect();
                        let obs: Vec<&[Q]> = cols.iter().map(|c| &c[..]).collect();
                        let mut out = vec![false; n];
                        reset();
                        let ok = large.check_bounds(b, &obs, Q(0.0), &mut out).is_ok();
                        let (x, y) = read();
                        rep.evals += 1;
                        *rep.counters.entry("bounds_checks".into()).or_default() += 1;
                        if !ok || (x + y) as f64 > 12.0 * (n * pts) as f64 + 40.0 * n as f64 {
                            rep.viol.push(format!("bounds check {b:?} of {pts} points takes {x} operations and {y} comparisons: {kind:?} {:?}", large.dims));
                        }
                    }
                }
            }
        }
        // one dimension
        for kind in [Kind::Reg, Kind::Rect] {
            let n = [10usize, 1000, 300_000][(round % 3) as usize];
            let p: Prob<Q> = make(kind, &[n], &mut r);
            for m1 in M1S {
                let it = build1(&p, m1).unwrap_or_else(|_| panic!("construction refused"));
                for k in 0..6 {
                    let x = place(&p, 0, k, &mut r);
                    reset();
                    let ok = it.one(&[x]).is_ok();
                    let (a, b) = read();
                    rep.evals += 1;
                    rep.sigs.insert(format!("{m1:?}{kind:?}{n}{k}"));
                    let lim = 60.0 + if kind == Kind::Rect { 4.0 * log2(n) + 16.0 } else { 0.0 };
                    if !ok || (a + b) as f64 > lim {
                        rep.viol.push(format!("{m1:?}1D {kind:?} with {n} points takes {a} operations and {b} comparisons at {x} ({})", PLACES[k]));
                    }
                }
            }
        }
    }
}
fn cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    unsafe extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}
/// Processor time per point on axes of millions of points: catches work that does not go through the scalar type.
fn timing(rep: &mut Rep, seed: u64) {
    let mut r = Rng::new(seed, 19, 1);
    const LONG: usize = 1 << 22;
    const LIMIT: f64 = 150e-6;
    for kind in [Kind::Reg, Kind::Rect] {
        for (m, d) in [
            (Meth::Linear, vec![LONG]),
            (Meth::Cubic(true), vec![LONG]),
            (Meth::Cubic(false), vec![4, LONG / 4]),
            (Meth::Nearest, vec![LONG]),
            (Meth::Linear, vec![2, LONG / 2]),
            (Meth::Nearest, vec![LONG / 2, 2]),
        ] {
            let p: Prob<f64> = make(kind, &d, &mut r);
            let g = p.gridrefs();
            let n = d.len();
            for o in objs(m, n) {
                let Ok(it) = build(&p, &g, m, o) else { continue };
                let pts = 40;
                let cols: Vec<Vec<f64>> = (0..n).map(|a| (0..pts).map(|k| place(&p, a, [2, 2, 3, 4, 2, 0, 5][k % 7], &mut r)).collect()).collect();
                let obs: Vec<&[f64]> = cols.iter().map(|c| &c[..]).collect();
                let mut out = vec![0.0; pts];
                let mut best = f64::INFINITY;
                for _ in 0..4 {
                    let t0 = cpu();
                    let ok = it.batch(&obs, &mut out).is_ok();
                    best = best.min((cpu() - t0) / pts as f64);
                    if !ok {
                        rep.viol.push(format!("valid evaluation refused: {m:?} {kind:?} {o:?} {d:?}"));
                    }
                }
                let mut one = f64::INFINITY;
                for i in 0..pts {
                    let x: Vec<f64> = cols.iter().map(|c| c[i]).collect();
                    let t0 = cpu();
                    std::hint::black_box(it.one(&x).is_ok());
                    one = one.min(cpu() - t0);
                }
                rep.evals += 2;
                *rep.counters.entry("timed_on_millions_of_grid_points".into()).or_default() += 1;
                if best > LIMIT {
                    rep.viol.push(format!("{:.0} us of processor time per point: {m:?} {kind:?} {o:?} grid {d:?}", best * 1e6));
                }
                rep.sigs.insert(format!("time {m:?}{kind:?}{o:?}{d:?}"));
            }
            if n == 1 {
                for m1 in M1S {
                    let it = build1(&p, m1).unwrap_or_else(|_| panic!("construction refused"));
                    let xs: Vec<f64> = (0..40).map(|k| place(&p, 0, [2, 2, 3, 4, 2, 0, 5][k % 7], &mut r)).collect();
                    let mut out = vec![0.0; 40];
                    let mut best = f64::INFINITY;
                    for _ in 0..4 {
                        let t0 = cpu();
                        let _ = it.batch(&[&xs], &mut out);
                        best = best.min((cpu() - t0) / 40.0);
                    }
                    rep.evals += 1;
                    if best > LIMIT {
                        rep.viol.push(format!("{:.0} us of processor time per point: {m1:?}1D {kind:?} grid {d:?}", best * 1e6));
                    }
                }
            }
        }
    }
}
/// Processor time per point billions of steps away from a small grid.
fn far(rep: &mut Rep, seed: u64) {
    let mut r = Rng::new(seed, 19, 2);
    const LIMIT: f64 = 2e-3;
    for kind in [Kind::Reg, Kind::Rect] {
        for (m, n) in [Meth::Linear, Meth::Cubic(true), Meth::Cubic(false), Meth::Nearest].into_iter().flat_map(|m| [(m, 1), (m, 2), (m, 3)]) {
            let d: Vec<usize> = (0..n).map(|_| r.range(4, 9)).collect();
            let p: Prob<f64> = make(kind, &d, &mut r);
            let g = p.gridrefs();
            let pts: Vec<Vec<f64>> = (0..2 * n)
                .map(|k| {
                    (0..n)
                        .map(|a| {
                            let (lo, hi) = (p.coord(a, 0), p.coord(a, d[a] - 1));
                            let f = 2e9 * if k % 2 == 0 { 1.0 } else { -1.0 };
                            if a == k / 2 { hi + f * (hi - lo) / (d[a] - 1) as f64 } else { lo + (hi - lo) * 0.4 }
                        })
                        .collect()
                })
                .collect();
            let mut check = |what: String, go: &dyn Fn(&[f64]) -> bool| {
                for x in &pts {
                    let mut best = f64::INFINITY;
                    for _ in 0..3 {
                        let t0 = cpu();
                        std::hint::black_box(go(x));
                        best = best.min(cpu() - t0);
                    }
                    rep.evals += 1;
                    *rep.counters.entry("timed_far_from_the_grid".into()).or_default() += 1;
                    if best > LIMIT {
                        rep.viol.push(format!("{:.3} ms of processor time for one point at {x:?}: {what} {kind:?} grid {d:?}", best * 1e3));
                        return;
                    }
                }
                rep.sigs.insert(format!("far {what}{kind:?}{n}"));
            };
            for o in objs(m, n) {
                let Ok(it) = build(&p, &g, m, o) else { continue };
                check(format!("{m:?} {o:?}"), &|x| it.one(x).is_ok());
            }
            if n == 1 {
                for m1 in M1S {
                    let it = build1(&p, m1).unwrap_or_else(|_| panic!("construction refused"));
                    check(format!("{m1:?}1D"), &|x| it.one(x).is_ok());
                }
            }
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: u64| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.parse().unwrap()).unwrap_or(d);
    let (seed, rounds) = (num("--seed", 1), num("--rounds", 3));
    let variant = if a.iter().any(|x| x == "--clock") { "o0" } else { "std" };
    let t0 = std::time::Instant::now();
    let mut rep = Rep { evals: 0, sigs: HashSet::new(), counters: BTreeMap::new(), viol: vec![], samples: vec![], worst: 0.0 };
    // a panic inside the code under test is an answer, one in this file is not
    static AT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{i}");
        *AT.lock().unwrap() = i.location().map(|l| format!("{}:{}: {}", l.file(), l.line(), i)).unwrap_or_default();
    }));
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if !a.iter().any(|x| x == "--clock") {
            counting(&mut rep, seed, rounds);
        }
        if rep.viol.is_empty() {
            far(&mut rep, seed);
        }
        if rep.viol.is_empty() {
            timing(&mut rep, seed);
        }
    }));
    if done.is_err() {
        let at = AT.lock().unwrap().clone();
        if at.starts_with("src/") || at.contains("/verif/harness/") {
            eprintln!("the harness panicked: {at}");
            std::process::exit(3);
        }
        rep.viol.push(format!("panic at {at}"));
    }
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    let s = format!(
        "{{\"property\":\"C19\",\"variant\":\"{variant}\",\"seed\":{seed},\"cases\":{rounds},\"evaluations\":{},\"distinct\":{},\"max_error_over_bound\":{},\"wall_s\":{},\"counters\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"harness_errors\":[]}}",
        rep.evals, rep.sigs.len(), rep.worst, t0.elapsed().as_secs_f64(),
        rep.counters.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect::<Vec<_>>().join(","),
        rep.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(","),
        rep.viol.iter().map(|x| format!("{{\"case\":0,\"message\":{}}}", q(x))).collect::<Vec<_>>().join(","),
    );
    match a.iter().position(|x| x == "--out").and_then(|i| a.get(i + 1)) {
        Some(p) => std::fs::write(p, s + "\n").unwrap(),
        None => println!("{s}"),
    }
    std::process::exit(!rep.viol.is_empty() as i32);
}
