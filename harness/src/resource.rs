//! C18: heap and stack use of every entry point, measured.
use crate::genr::*;
use crate::inter::{build, build1, objs};
use crate::prob::*;
use crate::rng::Rng;
use crate::robust::{apis, call_raw, Api, Called};
use crate::runner::Ctx;
use crate::sc::Sc;
use crate::value::{describe, pick_n};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
fn note(n: usize) {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        CALLS.with(|c| c.set(c.get() + 1));
        BYTES.with(|c| c.set(c.get() + n as u64));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
}

mod c {
    unsafe extern "C" {
        pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        pub fn pthread_attr_init(a: *mut u64) -> i32;
        pub fn pthread_attr_destroy(a: *mut u64) -> i32;
        pub fn pthread_attr_setstack(a: *mut u64, p: *mut u8, n: usize) -> i32;
        pub fn pthread_create(t: *mut usize, a: *const u64, f: extern "C" fn(*mut u8) -> *mut u8, x: *mut u8) -> i32;
        pub fn pthread_join(t: usize, r: *mut *mut u8) -> i32;
    }
}
const STACK: usize = 1 << 20;
const GUARD: usize = 1 << 20;
const PAINT: u64 = 0xA5C3_96E1_5B2D_784F;
pub struct Used {
    pub stack: usize,
    pub allocs: u64,
    pub bytes: u64,
    pub panicked: bool,
}
struct Job<'a> {
    f: &'a mut (dyn FnMut() + 'a),
    used: Used,
}
extern "C" fn enter(p: *mut u8) -> *mut u8 {
    let j = unsafe { &mut *(p as *mut Job) };
    CALLS.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.f)()));
    ON.with(|o| o.set(false));
    j.used.allocs = CALLS.with(|c| c.get());
    j.used.bytes = BYTES.with(|c| c.get());
    j.used.panicked = r.is_err();
    std::ptr::null_mut()
}
/// A painted stack on which one function at a time runs in a thread of its own.
pub struct Bench {
    base: *mut u8,
    idle: usize,
}
impl Bench {
    pub fn new() -> Bench {
        unsafe {
            let m = c::mmap(std::ptr::null_mut(), GUARD + STACK, 3, 0x22, -1, 0);
            assert!(m as isize != -1);
            assert_eq!(c::mprotect(m, GUARD, 0), 0);
            let mut b = Bench { base: m.add(GUARD), idle: 0 };
            b.paint(0);
            let mut x = 0u64;
            let mut most = 0;
            for _ in 0..4 {
                most = most.max(b.run(&mut || {
                    std::hint::black_box(&mut x);
                }).stack);
            }
            b.idle = most;
            b
        }
    }
    fn words(&self) -> &mut [u64] {
        unsafe { std::slice::from_raw_parts_mut(self.base as *mut u64, STACK / 8) }
    }
    fn paint(&self, from: usize) {
        self.words()[from..].fill(PAINT);
    }
    pub fn run(&self, f: &mut dyn FnMut()) -> Used {
        let mut j = Job { f, used: Used { stack: 0, allocs: 0, bytes: 0, panicked: false } };
        unsafe {
            let mut attr = [0u64; 16];
            assert_eq!(c::pthread_attr_init(attr.as_mut_ptr()), 0);
            assert_eq!(c::pthread_attr_setstack(attr.as_mut_ptr(), self.base, STACK), 0);
            let mut t = 0usize;
            assert_eq!(c::pthread_create(&mut t, attr.as_ptr(), enter, &mut j as *mut Job as *mut u8), 0);
            assert_eq!(c::pthread_join(t, std::ptr::null_mut()), 0);
            c::pthread_attr_destroy(attr.as_mut_ptr());
        }
        let w = self.words();
        let first = w.iter().position(|x| *x != PAINT).unwrap_or(w.len());
        self.paint(first);
        let mut u = j.used;
        u.stack = (STACK - first * 8).saturating_sub(self.idle);
        u
    }
}
thread_local! {
    static BENCH: Bench = Bench::new();
}
pub fn measure(f: &mut dyn FnMut()) -> Used {
    BENCH.with(|b| b.run(f))
}

/// An unoptimized build keeps every temporary of every branch on the stack: there only the independence of the problem's
/// size is judged, and a generous ceiling.
fn unoptimized() -> bool {
    static U: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *U.get_or_init(|| std::env::var_os("VMON_UNOPTIMIZED").is_some())
}
/// Ceiling on peak stack use: "a few kilobytes plus a small amount per dimension".
fn ceiling(n: usize) -> usize {
    if unoptimized() { 400 * 1024 } else { 8 * 1024 + 1024 * n }
}
/// How much the peak may differ between a small and a large problem of the same kind.
const SPREAD: usize = 768;

fn size_of_problem<T: Sc>(r: &mut Rng, kind: Kind, m: Meth, n: usize, large: bool) -> Prob<T> {
    let min = m.min_size();
    let dims: Vec<usize> = if large {
        let cap: usize = if n >= 6 { 40_000 } else { 120_000 };
        let mut d = vec![min; n];
        // grow the axes one after the other up to the cap
        loop {
            let a = r.below(n);
            let others: usize = d.iter().enumerate().filter(|(i, _)| *i != a).map(|(_, x)| *x).product();
            let room = cap / others;
            if room <= d[a] {
                break;
            }
            d[a] = r.range(d[a] + 1, room);
            if d.iter().product::<usize>() * 2 > cap {
                break;
            }
        }
        d
    } else {
        (0..n).map(|_| min + if n <= 4 { r.below(2) } else { 0 }).collect()
    };
    gen_prob_dims(r, kind, dims, None)
}
fn judge(c: &mut Ctx, n: usize, u: &Used, alloc_budget: u64, d: &dyn Fn() -> String) -> Result<(), String> {
    c.evals += 1;
    if u.panicked {
        return Err(format!("panic: {}", d()));
    }
    if alloc_budget == 0 && u.allocs != 0 {
        return Err(format!("{} heap allocations ({} bytes): {}", u.allocs, u.bytes, d()));
    }
    if u.bytes > alloc_budget {
        return Err(format!("{} bytes allocated where the output takes {alloc_budget}: {}", u.bytes, d()));
    }
    if u.stack > ceiling(n) {
        return Err(format!("{} bytes of stack, more than {} for {n} dimensions: {}", u.stack, ceiling(n), d()));
    }
    c.ratio(u.stack as f64 / ceiling(n) as f64);
    Ok(())
}
fn spread(c: &mut Ctx, small: usize, large: usize, d: &dyn Fn() -> String) -> Result<(), String> {
    c.count("small_against_large", 1);
    if large > small + SPREAD {
        return Err(format!("{small} bytes of stack for a small problem, {large} for a large one: {}", d()));
    }
    Ok(())
}
fn case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, match m { Meth::Linear => 10, Meth::Nearest => 6, _ => 7 });
    let small: Prob<T> = size_of_problem(r, kind, m, n, false);
    let large: Prob<T> = size_of_problem(r, kind, m, n, true);
    let few = r.range(6, 10);
    let many = match (m, n) {
        (Meth::Cubic(_), 6..) => 12,
        (Meth::Cubic(_), 4..) => 60,
        (_, 7..) => 100,
        // buffering above some batch size would show only here
        _ if n <= 2 && r.chance(0.04) => 70_000,
        _ => *r.pick(&[300, 1000, 3000]),
    };
    let hostile = r.chance(0.15);
    let mut cols = vec![];
    for (p, k) in [(&small, few), (&large, many)] {
        let axs = axes_of(p);
        let mut o = gen_obs(r, p, &axs, k, Where::Any);
        if hostile {
            crate::pure::sprinkle(r, &mut o);
        }
        // the same variety of places in both: inside, at and beyond either edge, on every axis
        let which: Vec<usize> = (0..k).collect();
        for a in 0..n {
            for (j, w) in [Where::Inside, Where::Outside, Where::Outside, Where::Inside].iter().enumerate() {
                o[a][which[(j + a) % k]] = gen_x(r, p, &axs, a, *w);
            }
        }
        cols.push(o);
    }
    let pr = [&small, &large];
    let size = |k: usize| format!("{} T={}", describe(pr[k], &format!("{m:?}"), ""), T::NAME);
    // every function and constructor
    for api in apis(m, kind) {
        if let Api::Rec(k) | Api::RecNew(k) = api {
            if k != n && !(k == 10 && n > 8) && !(k == 10 && r.chance(0.2)) {
                continue;
            }
        }
        let mut use_ = [None; 2];
        for k in 0..2 {
            let p = pr[k];
            let g = p.gridrefs();
            let o = refs(&cols[k]);
            let mut out = vec![T::zero(); o[0].len()];
            let mut flags = vec![false; n];
            let mut res = Called::NotExpressible;
            let u = measure(&mut || {
                res = call_raw(m, api, kind, &p.dims, &p.starts, &p.steps, &g, &p.vals, &o, &mut out, &mut flags);
            });
            let budget = if matches!(api, Api::Alloc | Api::RecAlloc) { (out.len() * std::mem::size_of::<T>()) as u64 } else { 0 };
            let d = || format!("{api:?} of {}, {} points", size(k), out.len());
            match res {
                Called::NotExpressible => continue,
                Called::Done(x) => {
                    judge(c, if matches!(api, Api::Rec(10) | Api::RecNew(10)) { 10 } else { n }, &u, budget, &d)?;
                    c.count(if x.is_ok() { "calls_completed" } else { "calls_refused" }, 1);
                    if x.is_ok() || !hostile {
                        use_[k] = Some(u.stack);
                    }
                    c.sig((T::NAME, m, kind, api, n, k, x.is_ok(), p.dims.iter().map(|d| d.ilog2()).sum::<u32>()));
                }
            }
        }
        if let [Some(a), Some(b)] = use_ {
            c.count(&format!("peak_stack_up_to_{:02}_kb", b.div_ceil(1024)), 1);
            spread(c, a, b, &|| format!("{api:?} of {} and of {}", size(0), size(1)))?;
        }
    }
    // refusing a malformed call costs no memory either
    for k in 0..10 {
        let mut a = crate::robust::base::<T>(r, kind, n, m.min_size(), r.clone().range(1, 4));
        let Some((what, _)) = crate::robust::mutate(r, &mut a, m.min_size(), k) else { continue };
        let g: Vec<&[T]> = a.grids.iter().map(|g| &g[..]).collect();
        let o: Vec<&[T]> = a.obs.iter().map(|g| &g[..]).collect();
        for api in apis(m, kind) {
            let mut out = vec![T::zero(); a.out];
            let mut flags = vec![false; n];
            let mut res = Called::NotExpressible;
            let u = measure(&mut || {
                res = call_raw(m, api, kind, &a.dims, &a.starts, &a.steps, &g, &a.vals, &o, &mut out, &mut flags);
            });
            let Called::Done(x) = res else { continue };
            let longest = o.iter().map(|o| o.len()).max().unwrap_or(0).max(a.out);
            let budget = if matches!(api, Api::Alloc | Api::RecAlloc) { (longest * std::mem::size_of::<T>()) as u64 } else { 0 };
            judge(c, 10, &u, budget, &|| format!("{api:?} of {m:?}: {what} [{}]", crate::robust::brief(&a)))?;
            c.count(if x.is_ok() { "malformed_calls_without_effect_here" } else { "malformed_calls_refused" }, 1);
            c.sig((T::NAME, "malformed", m, kind, api, n, k, x.is_ok()));
        }
    }
    // objects: single points and batches
    for o in objs(m, n) {
        let mut one = [0; 2];
        let mut bat = [0; 2];
        for k in 0..2 {
            let p = pr[k];
            let g = p.gridrefs();
            let obs = refs(&cols[k]);
            let mut out = vec![T::zero(); obs[0].len()];
            let it = build(p, &g, m, o).map_err(|e| format!("valid construction refused: {e}: {}", size(k)))?;
            let cnt = obs[0].len();
            for i in 0..cnt.min(6) {
                let x: Vec<T> = cols[k].iter().map(|c| c[i]).collect();
                let u = measure(&mut || {
                    std::hint::black_box(it.one(&x).is_ok());
                });
                judge(c, if n > 8 || o == crate::inter::Obj::RecMax { 10 } else { n }, &u, 0, &|| format!("{o:?} single point {x:?} of {}", size(k)))?;
                one[k] = one[k].max(u.stack);
            }
            let mut ok = false;
            let u = measure(&mut || {
                ok = it.batch(&obs, &mut out).is_ok();
            });
            judge(c, if n > 8 || o == crate::inter::Obj::RecMax { 10 } else { n }, &u, 0, &|| format!("{o:?} batch of {cnt} of {}", size(k)))?;
            if ok {
                bat[k] = u.stack;
            }
        }
        if !hostile {
            spread(c, one[0], one[1], &|| format!("{o:?} single points of {} and of {}", size(0), size(1)))?;
        }
        if bat[0] > 0 && bat[1] > 0 {
            spread(c, bat[0], bat[1], &|| format!("{o:?} batches of {} and of {}", size(0), size(1)))?;
        }
    }
    c.sample(|| format!("{} and {}: {few} and {many} points", size(0), size(1)));
    Ok(())
}
fn one_dim<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let small: Prob<T> = size_of_problem(r, kind, Meth::Nearest, 1, false);
    let large: Prob<T> = size_of_problem(r, kind, Meth::Nearest, 1, true);
    for m in M1S {
        for path in [P1::One, P1::Eval] {
            let mut us = [0; 2];
            for (k, p) in [&small, &large].into_iter().enumerate() {
                let axs = axes_of(p);
                let cols = gen_obs(r, p, &axs, [8, 2000][k], Where::Any);
                let mut out = vec![T::zero(); cols[0].len()];
                let mut ok = false;
                let u = measure(&mut || {
                    ok = p.eval1(m, path, &cols[0], &mut out).is_ok();
                });
                judge(c, 1, &u, 0, &|| describe(p, &format!("{m:?}1D"), &format!("{path:?}")))?;
                us[k] = u.stack;
                c.sig((T::NAME, kind, m, path, k, ok));
            }
            spread(c, us[0], us[1], &|| format!("{m:?}1D {path:?} {}", describe(&large, "", "")))?;
        }
        let it = build1(&large, m).map_err(|e| e.to_string())?;
        let x = [large.coord(0, 0)];
        let u = measure(&mut || {
            std::hint::black_box(it.one(&x).is_ok());
        });
        judge(c, 1, &u, 0, &|| describe(&large, &format!("{m:?}1D"), "eval_one"))?;
    }
    Ok(())
}
pub fn c18(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    match (idx % 8, idx / 8 % 2) {
        (7, 0) => one_dim::<f64>(c, r),
        (7, _) => one_dim::<f32>(c, r),
        (_, 0) => case::<f64>(c, r),
        (_, _) => case::<f32>(c, r),
    }
}
