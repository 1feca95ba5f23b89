//! C16, C17, C20, C22: malformed and hostile input, bounds checks, grid helpers.
use crate::dd::dd;
use crate::genr::*;
use crate::inter::{build, build1, objs};
use crate::prob::*;
use crate::rng::Rng;
use crate::runner::{guarded, Ctx};
use crate::sc::{same, Sc};
use crate::value::{arr, cap, describe, pick_n};
use interpn::multicubic::{self, *};
use interpn::multilinear::{self, *};
use interpn::nearest::{self, *};
use interpn::one_dim::{Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{Left1D, Linear1D, LinearHoldLast1D, Nearest1D, Right1D};

// ---- C16 -------------------------------------------------------------------------------------
/// Arguments of a call, free to be inconsistent.
#[derive(Clone, Debug)]
pub struct Args<T> {
    pub kind: Kind,
    pub dims: Vec<usize>,
    pub starts: Vec<T>,
    pub steps: Vec<T>,
    pub grids: Vec<Vec<T>>,
    pub vals: Vec<T>,
    pub obs: Vec<Vec<T>>,
    pub out: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Api {
    Fn,
    Alloc,
    RecFn,
    RecAlloc,
    Flat,
    /// recursive interpolator declared for exactly / two more / ten dimensions
    Rec(usize),
    /// only the constructor
    FlatNew,
    RecNew(usize),
    Bounds(BC),
}
pub fn apis(m: Meth, kind: Kind) -> Vec<Api> {
    let mut v = vec![Api::Fn, Api::Flat, Api::FlatNew];
    if cfg!(feature = "std") {
        v.push(Api::Alloc);
    }
    if m != Meth::Nearest {
        v.push(Api::RecFn);
        if cfg!(feature = "std") {
            v.push(Api::RecAlloc);
        }
        for k in [1, 2, 3, 8, 10] {
            v.push(Api::Rec(k));
            v.push(Api::RecNew(k));
        }
    }
    let _ = kind;
    match m {
        Meth::Linear => v.extend([Api::Bounds(BC::Linear), Api::Bounds(BC::LinearRec)]),
        Meth::Cubic(_) => v.extend([Api::Bounds(BC::Cubic), Api::Bounds(BC::CubicRec)]),
        Meth::Nearest => v.push(Api::Bounds(BC::Nearest)),
    }
    v
}
/// dimension counts an API supports
fn supports(m: Meth, a: Api, n: usize) -> bool {
    n >= 1
        && match a {
            Api::Fn | Api::Alloc => n <= m.max_fn(),
            Api::RecFn | Api::RecAlloc => n <= 8,
            Api::Flat | Api::FlatNew => n <= m.max_flat(),
            Api::Rec(k) | Api::RecNew(k) => n <= k,
            Api::Bounds(_) => true,
        }
}
pub enum Called {
    /// the types do not allow such a call
    NotExpressible,
    Done(Result<(), &'static str>),
}
use Called::*;
#[cfg(feature = "std")]
macro_rules! alc {
    ($e:expr, $out:expr) => {{
        let r: Result<Vec<T>, &'static str> = $e;
        match r {
            Ok(v) => {
                for (o, x) in $out.iter_mut().zip(v) {
                    *o = x;
                }
                Done(Ok(()))
            }
            Err(e) => Done(Err(e)),
        }
    }};
}
#[cfg(not(feature = "std"))]
macro_rules! alc {
    ($e:expr, $out:expr) => {
        NotExpressible
    };
}
macro_rules! tr {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(_) => return NotExpressible,
        }
    };
}
macro_rules! nn {
    ($n:expr, [$($k:literal)*], $N:ident => $body:expr) => {
        match $n { $($k => { const $N: usize = $k; $body })* _ => return NotExpressible }
    };
}
/// new()?, then interp unless only construction is asked for
macro_rules! go {
    ($new:expr, $only:expr, |$it:ident| $run:expr) => {
        Done(match $new {
            Err(e) => Err(e),
            Ok($it) => {
                if $only { Ok(()) } else { $run }
            }
        })
    };
}
pub fn call<T: Sc>(m: Meth, api: Api, a: &Args<T>, out: &mut [T], outb: &mut [bool]) -> Called {
    let g: Vec<&[T]> = a.grids.iter().map(|g| &g[..]).collect();
    let o: Vec<&[T]> = a.obs.iter().map(|g| &g[..]).collect();
    call_raw(m, api, a.kind, &a.dims, &a.starts, &a.steps, &g, &a.vals, &o, out, outb)
}
/// The same without any allocation of its own.
#[inline(never)]
#[allow(clippy::too_many_arguments)]
pub fn call_raw<T: Sc>(m: Meth, api: Api, kind: Kind, d: &[usize], s: &[T], h: &[T], g: &[&[T]], v: &[T], o: &[&[T]], out: &mut [T], outb: &mut [bool]) -> Called {
    let n = if kind == Kind::Reg { d.len() } else { g.len() };
    let only = matches!(api, Api::FlatNew | Api::RecNew(_));
    use Kind::*;
    use Meth::*;
    match (api, m, kind) {
        (Api::Fn, Linear, Reg) => Done(multilinear::regular::interpn(d, s, h, v, o, out)),
        (Api::Fn, Linear, Rect) => Done(multilinear::rectilinear::interpn(g, v, o, out)),
        (Api::Fn, Cubic(l), Reg) => Done(multicubic::regular::interpn(d, s, h, v, l, o, out)),
        (Api::Fn, Cubic(l), Rect) => Done(multicubic::rectilinear::interpn(g, v, l, o, out)),
        (Api::Fn, Nearest, Reg) => Done(nearest::regular::interpn(d, s, h, v, o, out)),
        (Api::Fn, Nearest, Rect) => Done(nearest::rectilinear::interpn(g, v, o, out)),
        (Api::RecFn, Linear, Reg) => Done(multilinear::regular_recursive::interpn(d, s, h, v, o, out)),
        (Api::RecFn, Linear, Rect) => Done(multilinear::rectilinear_recursive::interpn(g, v, o, out)),
        (Api::RecFn, Cubic(l), Reg) => Done(multicubic::regular_recursive::interpn(d, s, h, v, l, o, out)),
        (Api::RecFn, Cubic(l), Rect) => Done(multicubic::rectilinear_recursive::interpn(g, v, l, o, out)),
        (Api::Alloc, Linear, Reg) => alc!(multilinear::regular::interpn_alloc(d, s, h, v, o), out),
        (Api::Alloc, Linear, Rect) => alc!(multilinear::rectilinear::interpn_alloc(g, v, o), out),
        (Api::Alloc, Cubic(l), Reg) => alc!(multicubic::regular::interpn_alloc(d, s, h, v, l, o), out),
        (Api::Alloc, Cubic(l), Rect) => alc!(multicubic::rectilinear::interpn_alloc(g, v, l, o), out),
        (Api::Alloc, Nearest, Reg) => alc!(nearest::regular::interpn_alloc(d, s, h, v, o), out),
        (Api::Alloc, Nearest, Rect) => alc!(nearest::rectilinear::interpn_alloc(g, v, o), out),
        (Api::RecAlloc, Linear, Reg) => alc!(multilinear::regular_recursive::interpn_alloc(d, s, h, v, o), out),
        (Api::RecAlloc, Linear, Rect) => alc!(multilinear::rectilinear_recursive::interpn_alloc(g, v, o), out),
        (Api::RecAlloc, Cubic(l), Reg) => alc!(multicubic::regular_recursive::interpn_alloc(d, s, h, v, l, o), out),
        (Api::RecAlloc, Cubic(l), Rect) => alc!(multicubic::rectilinear_recursive::interpn_alloc(g, v, l, o), out),
        (Api::Flat | Api::FlatNew, Linear, Reg) => nn!(n, [1 2 3 4 5 6], N => {
            let x: &[&[T]; N] = if only { &[&[]; N] } else { tr!(o.try_into()) };
            go!(MultilinearRegular::<T, N>::new(tr!(d.try_into()), tr!(s.try_into()), tr!(h.try_into()), v), only, |it| it.interp(x, out))
        }),
        (Api::Flat | Api::FlatNew, Linear, Rect) => nn!(n, [1 2 3 4 5 6], N => {
            let x: &[&[T]; N] = if only { &[&[]; N] } else { tr!(o.try_into()) };
            go!(MultilinearRectilinear::<T, N>::new(tr!(g.try_into()), v), only, |it| it.interp(x, out))
        }),
        (Api::Flat | Api::FlatNew, Cubic(l), Reg) => nn!(n, [1 2 3 4], N => {
            let x: &[&[T]; N] = if only { &[&[]; N] } else { tr!(o.try_into()) };
            go!(MulticubicRegular::<T, N>::new(tr!(d.try_into()), tr!(s.try_into()), tr!(h.try_into()), v, l), only, |it| it.interp(x, out))
        }),
        (Api::Flat | Api::FlatNew, Cubic(l), Rect) => nn!(n, [1 2 3 4], N => {
            let x: &[&[T]; N] = if only { &[&[]; N] } else { tr!(o.try_into()) };
            go!(MulticubicRectilinear::<T, N>::new(tr!(g.try_into()), v, l), only, |it| it.interp(x, out))
        }),
        (Api::Flat | Api::FlatNew, Nearest, Reg) => nn!(n, [1 2 3 4 5 6], N => {
            let x: &[&[T]; N] = if only { &[&[]; N] } else { tr!(o.try_into()) };
            go!(NearestRegular::<T, N>::new(tr!(d.try_into()), tr!(s.try_into()), tr!(h.try_into()), v), only, |it| it.interp(x, out))
        }),
        (Api::Flat | Api::FlatNew, Nearest, Rect) => nn!(n, [1 2 3 4 5 6], N => {
            let x: &[&[T]; N] = if only { &[&[]; N] } else { tr!(o.try_into()) };
            go!(NearestRectilinear::<T, N>::new(tr!(g.try_into()), v), only, |it| it.interp(x, out))
        }),
        (Api::Rec(k) | Api::RecNew(k), Linear, Reg) => nn!(k, [1 2 3 8 10], N =>
            go!(MultilinearRegularRecursive::<T, N>::new(d, s, h, v), only, |it| it.interp(o, out))),
        (Api::Rec(k) | Api::RecNew(k), Linear, Rect) => nn!(k, [1 2 3 8 10], N =>
            go!(MultilinearRectilinearRecursive::<T, N>::new(g, v), only, |it| it.interp(o, out))),
        (Api::Rec(k) | Api::RecNew(k), Cubic(l), Reg) => nn!(k, [1 2 3 8 10], N =>
            go!(MulticubicRegularRecursive::<T, N>::new(d, s, h, v, l), only, |it| it.interp(o, out))),
        (Api::Rec(k) | Api::RecNew(k), Cubic(l), Rect) => nn!(k, [1 2 3 8 10], N =>
            go!(MulticubicRectilinearRecursive::<T, N>::new(g, v, l), only, |it| it.interp(o, out))),
        (Api::Bounds(b), _, Reg) => Done(check_bounds_reg(b, d, s, h, o, T::of(1e-3), outb)),
        (Api::Bounds(b), _, Rect) => Done(check_bounds_rect(b, g, o, T::of(1e-3), outb)),
        (Api::RecFn | Api::RecAlloc | Api::Rec(_) | Api::RecNew(_), Nearest, _) => NotExpressible,
    }
}
/// What a mutation breaks.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Breaks {
    /// the arrays describing the grid do not fit together, an axis is too short, spacing not positive
    Grid,
    /// number of coordinate arrays, their lengths, or the output length
    Points,
    /// number of coordinate arrays only
    PointDims,
    /// lengths of starts/steps, or an axis without any point: also an error of bounds checks
    GridAndBounds,
}
pub fn base<T: Sc>(r: &mut Rng, kind: Kind, n: usize, min: usize, npts: usize) -> Args<T> {
    let dims: Vec<usize> = (0..n).map(|_| if n <= 4 { min + r.below(3) } else if min == 4 { 4 } else { 2 + (r.below(8) == 0) as usize }).collect();
    let mut a = Args { kind, dims: vec![], starts: vec![], steps: vec![], grids: vec![], vals: vec![], obs: vec![], out: npts };
    for &k in &dims {
        let ax = gen_axis::<T>(r, kind, k);
        if kind == Kind::Reg {
            a.starts.push(ax.start);
            a.steps.push(ax.step);
            a.dims.push(k);
        } else {
            a.grids.push(ax.grid);
        }
        a.obs.push((0..npts).map(|_| if kind == Kind::Reg { ax.start } else { *a.grids.last().unwrap().first().unwrap() }).collect());
    }
    let size: usize = dims.iter().product();
    a.vals = gen_vals(r, if n == 0 { 1 } else { size });
    a
}
fn resize<T: Sc>(r: &mut Rng, v: &mut Vec<T>, other_than: usize) {
    let mut k = match r.below(5) {
        0 => other_than + 1,
        1 => other_than.saturating_sub(1),
        2 => 0,
        3 => other_than + r.range(1, 9),
        _ => other_than * 2,
    };
    if k == other_than {
        k += 1;
    }
    v.resize(k, T::of(0.25));
}
/// Apply one mutation; None if it makes no sense for this problem.
pub fn mutate<T: Sc>(r: &mut Rng, a: &mut Args<T>, min: usize, kind_of: usize) -> Option<(String, Breaks)> {
    let n = if a.kind == Kind::Reg { a.dims.len() } else { a.grids.len() };
    let reg = a.kind == Kind::Reg;
    let prod = |d: &[usize]| d.iter().fold(1usize, |x, y| x.saturating_mul(*y));
    match kind_of {
        0 if reg => {
            resize(r, &mut a.starts, n);
            Some((format!("{} starts for {n} dimensions", a.starts.len()), Breaks::GridAndBounds))
        }
        1 if reg => {
            resize(r, &mut a.steps, n);
            Some((format!("{} steps for {n} dimensions", a.steps.len()), Breaks::GridAndBounds))
        }
        2 => {
            let k = a.vals.len();
            resize(r, &mut a.vals, k);
            Some((format!("{} values where the grid has {k} points", a.vals.len()), Breaks::Grid))
        }
        3 => {
            let m = a.out;
            let k = n + 1;
            let target = match r.below(4) {
                0 => n + 1,
                1 if n > 1 => n - 1,
                2 if n > 0 => 0,
                _ => k,
            };
            a.obs.resize(target, vec![T::of(0.25); m]);
            Some((format!("{target} coordinate arrays for {n} dimensions"), Breaks::PointDims))
        }
        4 if n > 0 => {
            let i = r.below(n);
            let m = a.out;
            resize(r, &mut a.obs[i], m);
            Some((format!("coordinate array {i} has {} entries, the output {m}", a.obs[i].len()), Breaks::Points))
        }
        5 if n > 0 => {
            let m = a.out;
            a.out = match r.below(4) {
                0 => m + 1,
                1 if m > 0 => m - 1,
                2 if m > 0 => 0,
                _ => m + 7,
            };
            Some((format!("output has {} entries for {m} points", a.out), Breaks::Points))
        }
        6 if n > 0 => {
            // an axis too short, everything else consistent with it
            let i = r.below(n);
            let k = r.below(min);
            if reg {
                a.dims[i] = k;
                a.vals.resize(prod(&a.dims), T::of(0.5));
            } else {
                a.grids[i].truncate(k);
                let d: Vec<usize> = a.grids.iter().map(|g| g.len()).collect();
                a.vals.resize(prod(&d), T::of(0.5));
            }
            Some((format!("axis {i} has {k} points"), if k == 0 { Breaks::GridAndBounds } else { Breaks::Grid }))
        }
        7 if n > 0 => {
            let i = r.below(n);
            if reg {
                a.steps[i] = *r.pick(&[T::of(0.0), T::of(-0.0), -a.steps[i], T::of(-1e-30), T::of(f64::NAN), T::of(f64::NEG_INFINITY), -T::min_positive_value()]);
                Some((format!("step {i} is {:?}", a.steps[i]), Breaks::Grid))
            } else {
                let g = &mut a.grids[i];
                g[1] = match r.below(4) {
                    0 => g[0],
                    1 => g[0].down(),
                    2 => g[0] - T::of(1.0),
                    _ => T::of(f64::NAN),
                };
                let s = format!("axis {i} starts {:?}, {:?}", g[0], g[1]);
                Some((s, Breaks::Grid))
            }
        }
        8 if reg && n > 0 => {
            // sizes whose product is not representable
            let i = r.below(n);
            let huge = *r.pick(&[usize::MAX, usize::MAX / 2 + 1, usize::MAX / 3 + 1, 1usize << 32, 1 << 63, 1 << 62]);
            a.dims[i] = huge;
            let mut w = 1usize;
            for &d in &a.dims {
                w = w.wrapping_mul(d);
            }
            if w <= 1 << 16 && r.flip() {
                a.vals.resize(w, T::of(0.5));
            }
            if a.dims.iter().try_fold(1usize, |x, &y| x.checked_mul(y)) == Some(a.vals.len()) {
                return None;
            }
            Some((format!("sizes {:?} with {} values", a.dims, a.vals.len()), Breaks::Grid))
        }
        8 if !reg && n >= 4 && r.chance(0.1) => {
            // the product of the lengths wraps around to zero
            let k = if n >= 7 { 1024 } else { 65536 };
            for g in a.grids.iter_mut() {
                *g = (0..k).map(|i| T::of(i as f64)).collect();
            }
            a.vals.truncate(if r.flip() { 0 } else { 8 });
            Some((format!("{n} axes of {k} points and {} values", a.vals.len()), Breaks::Grid))
        }
        9 if n > 0 => {
            // same total size, wrong shape: one axis longer, one shorter than its description
            if reg {
                return None;
            }
            let i = r.below(n);
            let x = *a.grids[i].last().unwrap();
            a.grids[i].push(x + T::one() + x.abs());
            Some((format!("axis {i} has one coordinate more than the values"), Breaks::Grid))
        }
        _ => None,
    }
}
pub fn sentinel<T: Sc>() -> T {
    T::of(-3.0e21)
}
pub fn brief<T: Sc>(a: &Args<T>) -> String {
    format!("{} {:?} dims={:?} starts={:?} steps={:?} grids={:?} {} values, coordinate arrays of {:?}, output {}", T::NAME, a.kind, a.dims, arr(&a.starts, 10),
        arr(&a.steps, 10), a.grids.iter().map(|g| arr(g, 4)).collect::<Vec<_>>(), a.vals.len(), a.obs.iter().map(|o| o.len()).collect::<Vec<_>>(), a.out)
}
fn c16_call<T: Sc>(c: &mut Ctx, m: Meth, api: Api, a: &Args<T>, n: usize, what: &[(String, Breaks)]) -> Result<(), String> {
    let mut out = vec![sentinel::<T>(); a.out];
    let nb = if what.is_empty() { n } else { a.obs.len().max(n) };
    // sometimes the flags array itself has the wrong length
    let wrong_flags = matches!(api, Api::Bounds(_)) && what.iter().any(|w| w.1 == Breaks::Points) && a.out % 2 == 0;
    let nb = if matches!(api, Api::Bounds(_)) { if wrong_flags { n + 1 + a.out % 3 } else { n } } else { nb };
    let mut flags: Vec<bool> = (0..nb).map(|i| i % 2 == 0).collect();
    let flags0 = flags.clone();
    let r = guarded(|| call(m, api, a, &mut out, &mut flags));
    let d = || format!("{m:?} {api:?}: {} [{}]", what.iter().map(|w| w.0.clone()).collect::<Vec<_>>().join("; "), brief(a));
    let r = match r {
        Err((msg, loc)) => return Err(format!("panic instead of an error: {msg} at {loc}: {}", d())),
        Ok(NotExpressible) => {
            c.count("not_expressible_in_the_types", 1);
            return Ok(());
        }
        Ok(Done(r)) => r,
    };
    c.evals += 1;
    // is this call malformed for this API?
    let grid = what.iter().any(|w| matches!(w.1, Breaks::Grid | Breaks::GridAndBounds));
    let gb = what.iter().any(|w| w.1 == Breaks::GridAndBounds);
    let pts = what.iter().any(|w| w.1 == Breaks::Points);
    let ptd = what.iter().any(|w| w.1 == Breaks::PointDims);
    let bad = match api {
        Api::Bounds(_) => {
            if n == 0 {
                return Ok(()); // nothing to check: not specified
            }
            if !(gb || ptd || wrong_flags) && !what.is_empty() {
                // coordinates are judged axis by axis, the values are not involved: not specified
                c.count("bounds_calls_without_verdict", 1);
                return Ok(());
            }
            gb || ptd || wrong_flags
        }
        Api::FlatNew | Api::RecNew(_) => grid || !supports(m, api, n),
        Api::Alloc | Api::RecAlloc => {
            // no output is given
            let lens: Vec<usize> = a.obs.iter().map(|o| o.len()).collect();
            grid || ptd || lens.windows(2).any(|w| w[0] != w[1]) || !supports(m, api, n)
        }
        _ => grid || pts || ptd || !supports(m, api, n),
    };
    match (r, bad) {
        (Err(e), false) => Err(format!("well-formed call refused ({e}): {}", d())),
        (Ok(()), true) => Err(format!("malformed call accepted: {}", d())),
        (Err(_), true) => {
            let touched = if matches!(api, Api::Bounds(_)) { flags != flags0 } else { out.iter().any(|x| x.bits() != sentinel::<T>().bits()) };
            if touched {
                return Err(format!("rejected call changed its output: {}", d()));
            }
            c.count("malformed_calls_rejected", 1);
            c.sig((T::NAME, m, api, n, a.kind, what.iter().map(|w| w.1).collect::<Vec<_>>(), what.first().map(|w| w.0.clone())));
            Ok(())
        }
        (Ok(()), false) => {
            c.count("well_formed_calls_accepted", 1);
            c.sig((T::NAME, m, api, n, a.kind, a.vals.len()));
            Ok(())
        }
    }
}
fn one_d<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    fn all<'a, T: Sc, G: interpn::one_dim::Grid1D<'a, T> + Copy>(c: &mut Ctx, g: G, locs: &[T], out: &mut [T], m: M1, alloc: bool) -> Res {
        c.evals += 1;
        fn run<'a, T: Sc, G: interpn::one_dim::Grid1D<'a, T>, I: Interp1D<'a, T, G>>(it: I, locs: &[T], out: &mut [T], alloc: bool) -> Res {
            #[cfg(feature = "std")]
            if alloc {
                return it.eval_alloc(locs).map(|_| ());
            }
            let _ = alloc;
            it.eval(locs, out)
        }
        match m {
            M1::Left => run(Left1D::new(g), locs, out, alloc),
            M1::Right => run(Right1D::new(g), locs, out, alloc),
            M1::Nearest => run(Nearest1D::new(g), locs, out, alloc),
            M1::Linear => run(Linear1D::new(g), locs, out, alloc),
            M1::HoldLast => run(LinearHoldLast1D::new(g), locs, out, alloc),
        }
    }
    let m = *r.pick(&M1S);
    let n = if r.flip() { r.below(4) } else { r.below(40) };
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let vals = gen_vals::<T>(r, n.max(1))[..n].to_vec();
    let ax = gen_axis::<T>(r, kind, n.max(2));
    let (mut step, mut grid) = (ax.step, ax.grid);
    grid.truncate(n);
    let mut what = vec![];
    if n < 2 {
        what.push(format!("{n} points"));
    } else if r.chance(0.4) {
        match (kind, r.below(2)) {
            (Kind::Reg, _) => {
                step = *r.pick(&[T::of(0.0), T::of(-0.0), -step, T::of(f64::NAN)]);
                what.push(format!("step {step:?}"));
            }
            (Kind::Rect, 0) => {
                resize(r, &mut grid, n);
                what.push(format!("{} coordinates for {n} values", grid.len()));
            }
            (Kind::Rect, _) => {
                grid[1] = *r.pick(&[grid[0], grid[0].down(), T::of(f64::NAN)]);
                what.push(format!("grid starts {:?}, {:?}", grid[0], grid[1]));
            }
        }
    }
    let (k, ko) = if r.flip() { (5, 5) } else { (r.below(8), r.below(8)) };
    let alloc = r.chance(0.3) && cfg!(feature = "std");
    let locs = vec![if kind == Kind::Reg { ax.start } else { grid.first().copied().unwrap_or(T::zero()) }; k];
    let mut out = vec![sentinel::<T>(); ko];
    let d = |w: &str| format!("{} {m:?} 1-D {kind:?}: {w} start {:?} step {step:?} grid {} values {}", T::NAME, ax.start, arr(&grid, 6), arr(&vals, 6));
    let res = guarded(|| {
        let mut cc = Ctx::new(false, false);
        match kind {
            Kind::Reg => (RegularGrid1D::new(ax.start, step, &vals).map(|g| all(&mut cc, g, &locs, &mut out, m, alloc)),),
            Kind::Rect => (RectilinearGrid1D::new(&grid, &vals).map(|g| all(&mut cc, g, &locs, &mut out, m, alloc)),),
        }
    });
    c.evals += 1;
    let res = match res {
        Err((msg, loc)) => return Err(format!("panic instead of an error: {msg} at {loc}: {}", d(&what.join("; ")))),
        Ok((r,)) => r,
    };
    let mut mism = false;
    let touched = out.iter().any(|x| x.bits() != sentinel::<T>().bits());
    match (&res, what.is_empty()) {
        (Ok(_), false) => return Err(format!("malformed grid accepted: {}", d(&what.join("; ")))),
        (Err(e), true) => return Err(format!("well-formed grid refused ({e}): {}", d(""))),
        (Err(_), false) => {}
        (Ok(rr), true) => {
            mism = k != ko && !alloc;
            match (rr, mism) {
                (Ok(()), true) => return Err(format!("{k} locations, {ko} outputs accepted: {}", d(""))),
                (Err(e), false) => return Err(format!("well-formed evaluation refused ({e}): {}", d(""))),
                _ => {}
            }
        }
    }
    if (mism || res.is_err()) && touched {
        return Err(format!("rejected call changed its output: {}", d("")));
    }
    c.count(if what.is_empty() && !mism { "well_formed_calls_accepted" } else { "malformed_calls_rejected" }, 1);
    c.sig((T::NAME, m, kind, n.min(5), what, k, ko));
    Ok(())
}
fn c16_case<T: Sc>(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    // systematic over kind x method x mutation x dimension count, random in the rest
    let kind = if idx % 2 == 0 { Kind::Reg } else { Kind::Rect };
    let m = [Meth::Linear, Meth::Cubic(false), Meth::Nearest, Meth::Cubic(true)][(idx / 2 % 4) as usize];
    let n = (idx / 8 % 11) as usize;
    let mu = (idx / 88 % 12) as usize;
    let npts = *r.pick(&[0usize, 1, 2, 3, 5]);
    // keep the value array small in many dimensions
    let n = if n > 8 && matches!(m, Meth::Cubic(_)) && !r.chance(0.1) { n - 5 } else { n };
    let mut a: Args<T> = base(r, kind, n, m.min_size(), npts);
    let mut what = vec![];
    if mu < 10 {
        match mutate(r, &mut a, m.min_size(), mu) {
            Some(w) => what.push(w),
            None => {
                if n > 0 {
                    c.count("mutation_does_not_apply", 1);
                }
            }
        }
        if !what.is_empty() && r.chance(0.15) {
            // a second, independent defect must not cancel the first
            let mu2 = *r.pick(&[3usize, 4, 5]);
            if mu2 != mu && !(3..=5).contains(&mu) && a.obs.len() == n && n > 0 {
                if let Some(w) = mutate(r, &mut a, m.min_size(), mu2) {
                    what.push(w);
                }
            }
        }
    }
    for api in apis(m, kind) {
        c16_call(c, m, api, &a, n, &what)?;
    }
    // single points of the wrong dimension count
    if what.is_empty() && m != Meth::Nearest && n >= 1 && n <= 8 {
        let p = Prob { kind, dims: if kind == Kind::Reg { a.dims.clone() } else { a.grids.iter().map(|g| g.len()).collect() }, starts: a.starts.clone(), steps: a.steps.clone(),
            grids: a.grids.clone(), vals: a.vals.clone(), exact: vec![false; n], share: false };
        let g = p.gridrefs();
        for o in objs(m, n) {
            if o == crate::inter::Obj::Flat {
                continue;
            }
            let it = build(&p, &g, m, o).map_err(|e| format!("well-formed grid refused ({e}): {}", brief(&a)))?;
            for k in [0, n - 1, n + 1, 12] {
                let x = vec![T::of(0.5); k];
                match guarded(|| it.one(&x)) {
                    Err((msg, loc)) => return Err(format!("panic on a point with {k} coordinates: {msg} at {loc}: {m:?} {o:?} {}", brief(&a))),
                    Ok(Ok(v)) => return Err(format!("point with {k} coordinates accepted, result {v:?}: {m:?} {o:?} {}", brief(&a))),
                    Ok(Err(_)) => c.count("malformed_calls_rejected", 1),
                }
                c.evals += 1;
            }
        }
    }
    Ok(())
}
pub fn c16(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    // locations are filled in with ordinary numbers
    ORDINARY_UNITS.set(true);
    if idx % 7 == 6 {
        for _ in 0..8 {
            if r.flip() { one_d::<f64>(c, r)? } else { one_d::<f32>(c, r)? }
        }
        return Ok(());
    }
    let k = idx / 7 * 6 + idx % 7;
    if k / 1056 % 2 == 0 { c16_case::<f64>(c, r, k) } else { c16_case::<f32>(c, r, k) }
}

// ---- C17 -------------------------------------------------------------------------------------
fn hostile<T: Sc>(r: &mut Rng, p: &Prob<T>, a: usize) -> T {
    let two = |e: f64| 2f64.powf(e);
    let (s, h) = match p.kind {
        Kind::Reg => (p.starts[a].f(), p.steps[a].f()),
        Kind::Rect => (p.grids[a][0].f(), (p.grids[a][1] - p.grids[a][0]).f()),
    };
    match r.below(12) {
        0 => T::of(f64::NAN),
        1 => -T::of(f64::NAN),
        2 => T::of(f64::INFINITY),
        3 => T::of(f64::NEG_INFINITY),
        4 => T::max_value() * T::of(r.sign()),
        5 => T::of(r.sign() * T::MINSUB),
        // around the limits of the cell index
        6 => T::of(s + h * r.sign() * two(63.0)),
        7 => {
            let x = T::of(s + h * r.sign() * two(*r.pick(&[31.0, 32.0, 52.0, 53.0, 61.0, 62.0, 63.0, 64.0, 65.0])));
            match r.below(4) {
                0 => x.up(),
                1 => x.down(),
                _ => x,
            }
        }
        8 => T::of(s + h * r.sign() * 10f64.powf(r.uni(0.0, 40.0))),
        9 => {
            // a NaN with an arbitrary payload and sign
            let b = r.u64();
            if T::IS32 { T::from_bits64(0x7f80_0001 | (b & 0x807f_ffff)) } else { T::from_bits64(0x7ff0_0000_0000_0001 | (b & 0x800f_ffff_ffff_ffff)) }
        }
        10 => T::from_bits64(r.u64()),
        _ => T::of(if r.flip() { 0.0 } else { -0.0 }),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Must {
    Ok,
    Err,
    /// an error, or a NaN result
    NoNumber,
    Any,
}
fn expectation<T: Sc>(p: &Prob<T>, x: &[T]) -> Must {
    let mut w = Must::Ok;
    for a in 0..p.n() {
        let v = x[a].f();
        let m = match p.kind {
            Kind::Reg => {
                let q = (dd(v) - dd(p.starts[a].f())).f() / p.steps[a].f();
                if !v.is_finite() || !(q.abs() <= 2f64.powi(64)) && q.abs() > 0.0 {
                    Must::Err
                } else if q.abs() < 2f64.powi(62) && (v.abs() + p.starts[a].f().abs()) < T::MAXF / 8.0 {
                    Must::Ok
                } else {
                    Must::Any
                }
            }
            Kind::Rect => {
                if v.is_nan() {
                    Must::NoNumber
                } else if v.is_finite() {
                    Must::Ok
                } else {
                    Must::Any
                }
            }
        };
        w = match (w, m) {
            (Must::Err, _) | (_, Must::Err) => Must::Err,
            (Must::NoNumber, _) | (_, Must::NoNumber) => Must::NoNumber,
            (Must::Any, _) | (_, Must::Any) => Must::Any,
            _ => Must::Ok,
        };
    }
    w
}
fn judge17<T: Sc>(must: Must, got: &Result<T, &'static str>) -> Option<&'static str> {
    match (must, got) {
        (Must::Ok, Err(_)) => Some("finite point within a representable number of steps is refused"),
        (Must::Err, Ok(_)) => Some("point whose cell index cannot be represented is not reported as an error"),
        (Must::NoNumber, Ok(v)) if !v.is_nan() => Some("NaN coordinate yields an ordinary number"),
        _ => None,
    }
}
fn c17_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, match m { Meth::Linear => 10, Meth::Nearest => 6, _ => 6 });
    let min = m.min_size();
    let mut p: Prob<T> = gen_prob(r, kind, n, min, 1500.max(min.pow(n as u32)));
    // grids of extreme but valid geometry
    if r.chance(0.25) {
        let a = r.below(n);
        if kind == Kind::Reg {
            let big = T::max_value();
            let (s, h) = *r.pick(&[
                (T::of(0.0), T::of(1.0)),
                (T::of(0.0), T::min_positive_value()),
                (T::of(0.0), T::of(T::MINSUB)),
                (big, T::of(1.0)),
                (-big, T::of(1e-20)),
                (-big, big),
                (T::of(1e30), T::of(1e-6)),
                (T::of(-1e30), T::of(1e30)),
                (T::of(0.0), big),
            ]);
            p.starts[a] = s;
            p.steps[a] = h;
        } else {
            let k = p.dims[a];
            let lo = r.flip();
            for i in 0..k {
                p.grids[a][i] = if lo { T::of(T::MINSUB) * T::of(i as f64) } else { T::max_value() * T::of((i as f64 + 1.0) / k as f64) };
            }
            if (1..k).any(|i| !(p.grids[a][i] > p.grids[a][i - 1]) || !p.grids[a][i].is_finite()) {
                return Ok(());
            }
        }
    }
    if r.chance(0.35) {
        for v in p.vals.iter_mut() {
            if r.chance(0.3) {
                *v = match r.below(4) {
                    0 => T::from_bits64(r.u64()),
                    1 => T::of(f64::NAN),
                    2 => T::of(f64::INFINITY * r.sign()),
                    _ => T::max_value() * T::of(r.sign()),
                };
            }
        }
    }
    let axs_ok = (0..n).all(|a| match kind { Kind::Reg => p.starts[a].f().abs() < 1e30 && p.steps[a].f() > 1e-30 && p.steps[a].f() < 1e30, Kind::Rect => p.grids[a].iter().all(|x| x.f().abs() < 1e30) });
    let axs = axes_of(&p);
    let g = p.gridrefs();
    let d = |w: &str| describe(&p, &format!("{m:?}"), w);
    let pts: Vec<Vec<T>> = (0..12)
        .map(|_| {
            let k = r.below(n);
            (0..n)
                .map(|a| {
                    if a == k || r.chance(0.2) || !axs_ok { hostile(r, &p, a) } else { gen_x(r, &p, &axs, a, Where::Any) }
                })
                .collect()
        })
        .collect();
    for o in objs(m, n) {
        let it = match guarded(|| build(&p, &g, m, o)) {
            Err((msg, loc)) => return Err(format!("panic while building on a valid grid: {msg} at {loc}: {}", d(&format!("{o:?}")))),
            Ok(Err(e)) => return Err(format!("valid grid refused ({e}): {}", d(&format!("{o:?}")))),
            Ok(Ok(it)) => it,
        };
        for x in &pts {
            let must = expectation(&p, x);
            let got = match guarded(|| it.one(x)) {
                Err((msg, loc)) => return Err(format!("panic at point {x:?}: {msg} at {loc}: {}", d(&format!("{o:?}")))),
                Ok(v) => v,
            };
            c.evals += 1;
            if let Some(w) = judge17(must, &got) {
                return Err(format!("{w}: point {x:?} gives {got:?}: {}", d(&format!("{o:?}"))));
            }
            c.count(match must { Must::Ok => "must_succeed", Must::Err => "must_be_error", Must::NoNumber => "must_not_be_a_number", Must::Any => "only_no_panic" }, 1);
            c.sig((T::NAME, kind, m, o as usize, n, must, got.is_ok()));
        }
        // in a batch: error exactly if one of the points is one
        let cols: Vec<Vec<T>> = (0..n).map(|a| pts.iter().map(|x| x[a]).collect()).collect();
        let mut out = vec![T::zero(); pts.len()];
        match guarded(|| it.batch(&refs(&cols), &mut out)) {
            Err((msg, loc)) => return Err(format!("panic in a batch of {pts:?}: {msg} at {loc}: {}", d(&format!("{o:?}")))),
            Ok(Ok(())) => {
                for (x, y) in pts.iter().zip(&out) {
                    if let Some(w) = judge17(expectation(&p, x), &Ok(*y)) {
                        return Err(format!("{w}: point {x:?} in a batch gives {y:?}: {}", d(&format!("{o:?}"))));
                    }
                }
            }
            Ok(Err(e)) => {
                if pts.iter().all(|x| expectation(&p, x) == Must::Ok) {
                    return Err(format!("batch of representable points refused ({e}): {}", d(&format!("{o:?}"))));
                }
            }
        }
    }
    // bounds checks on hostile coordinates: any flags, no panic
    let cols: Vec<Vec<T>> = (0..n).map(|a| pts.iter().map(|x| x[a]).collect()).collect();
    for b in BCS {
        let mut f = vec![false; n];
        for atol in [T::of(0.0), T::of(1e-8), T::of(f64::NAN), T::of(f64::INFINITY), T::of(-1.0)] {
            if let Err((msg, loc)) = guarded(|| p.check_bounds(b, &refs(&cols), atol, &mut f)) {
                return Err(format!("panic in a bounds check with tolerance {atol:?}: {msg} at {loc}: {}", d(&format!("{b:?}"))));
            }
        }
    }
    c.sample(|| format!("{}: points such as {:?}", d("any"), pts[0]));
    Ok(())
}
fn c17_1d<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let mut p: Prob<T> = gen_prob(r, kind, 1, 2, 300);
    if r.chance(0.3) && kind == Kind::Reg {
        let big = T::max_value();
        let (s, h) = *r.pick(&[(T::of(0.0), T::of(1.0)), (T::of(0.0), T::of(T::MINSUB)), (big, T::of(1.0)), (-big, T::of(1e-20)), (-big, big), (T::of(0.0), big)]);
        p.starts[0] = s;
        p.steps[0] = h;
    }
    if r.chance(0.2) {
        for v in p.vals.iter_mut() {
            if r.flip() {
                *v = T::from_bits64(r.u64());
            }
        }
    }
    for m in M1S {
        let d = || describe(&p, &format!("{m:?}"), "1-D");
        let it = match guarded(|| build1(&p, m)) {
            Err((msg, loc)) => return Err(format!("panic while building on a valid grid: {msg} at {loc}: {}", d())),
            Ok(Err(e)) => return Err(format!("valid grid refused ({e}): {}", d())),
            Ok(Ok(it)) => it,
        };
        for _ in 0..16 {
            let x = hostile(r, &p, 0);
            let must = expectation(&p, &[x]);
            let got = match guarded(|| it.one(&[x])) {
                Err((msg, loc)) => return Err(format!("panic at {x:?}: {msg} at {loc}: {}", d())),
                Ok(v) => v,
            };
            c.evals += 1;
            if let Some(w) = judge17(must, &got) {
                return Err(format!("{w}: {x:?} gives {got:?}: {}", d()));
            }
            c.sig((T::NAME, kind, m, must, got.is_ok()));
        }
    }
    Ok(())
}
pub fn c17(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    match idx % 6 {
        0 => c17_1d::<f64>(c, r),
        1 => c17_1d::<f32>(c, r),
        k if k % 2 == 0 => c17_case::<f64>(c, r),
        _ => c17_case::<f32>(c, r),
    }
}

/// Expected flag per axis, or None when some point is within rounding of the threshold.
pub fn bounds_want<T: Sc>(p: &Prob<T>, axs: &[crate::refmodel::Ax], cols: &[Vec<T>], at: f64) -> Vec<Option<bool>> {
    let n = p.n();
    let kind = p.kind;
    (0..n)
            .map(|a| {
                let ax = &axs[a];
                let (lo, hi) = (ax.x(0), ax.x(p.dims[a] - 1));
                let (mut yes, mut unsure) = (false, false);
                for x in &cols[a] {
                    let x = x.f();
                    if x.is_infinite() {
                        yes = true;
                        continue;
                    }
                    let dist = {
                        let d1 = lo - dd(x);
                        let d2 = dd(x) - hi;
                        if d1.lt(d2) { d2 } else { d1 }
                    };
                    let reg = match kind {
                        Kind::Reg if !ax.exact_at(x) => 6.0 * T::U * (lo.abs() + hi.abs() + x.abs()),
                        // stored coordinates: the threshold (edge -+ tolerance) or the difference is rounded
                        _ if at != 0.0 => 2.0 * T::U * (lo.abs().max(hi.abs()) + at),
                        _ => 0.0,
                    };
                    if dist.f() <= 0.0 && (kind == Kind::Rect || ax.exact_at(x)) {
                        // inside, or exactly on the edge: never flagged
                        continue;
                    }
                    let slack = reg + if at == 0.0 || ax.exact_at(x) { 0.0 } else { 6.0 * T::U * (dist.abs() + at) } + if at == 0.0 { 0.0 } else { 2.0 * T::U * (at + dist.abs()) };
                    let over = (dist - dd(at)).f();
                    if at == 0.0 && slack == 0.0 {
                        // with stored or exactly computed coordinates and no tolerance the verdict is sharp
                        if over > 0.0 {
                            yes = true;
                        }
                    } else if over > slack {
                        yes = true;
                    } else if over >= -slack {
                        unsure = true;
                    }
                }
                if yes { Some(true) } else if unsure { None } else { Some(false) }
            })
            .collect()
}
// ---- C20 -------------------------------------------------------------------------------------
pub fn c20_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let n = r.range(1, 8);
    let vc = cap(r, 3000, 0.02).max(2usize.pow(n as u32));
    let mut p: Prob<T> = if r.chance(0.4) {
        let dims = gen_dims(r, n, 2, vc);
        gen_prob_dims(r, kind, dims, Some(&[0, 1]))
    } else {
        gen_prob(r, kind, n, 2, vc)
    };
    // a bounds check takes no values: axes of any length
    let mut long = vec![false; n];
    if kind == Kind::Reg && r.chance(0.2) {
        for a in 0..n {
            let k = {
                let (e, j, m) = (r.range(12, 40), r.below(5), r.range(1, 1000));
                (1usize << e) + j * m
            };
            if r.chance(0.6) && p.starts[a].f().abs() + p.steps[a].f() * (k as f64) < T::MAXF / 1e8 {
                p.dims[a] = k;
                long[a] = true;
                c.count("axes_of_4096_to_2^40_points", 1);
            }
        }
    }
    let mut axs = axes_of(&p);
    for a in 0..n {
        if long[a] {
            // the count itself may be rounded
            axs[a].q = 0.0;
        }
    }
    for _ in 0..6 {
        let npts = match () {
            _ if r.chance(0.05) => 0,
            _ if r.chance(0.05) => r.range(100, 2000),
            _ if r.chance(0.004) => {
                c.count("batches_of_4096_to_131073_points", 1);
                *r.pick(&[4096usize, 5000, 8191, 8193, 16384, 20_001, 65_535, 65_536, 65_537, 100_003, 131_073])
            }
            _ => r.range(1, 12),
        };
        let scale = axs[0].gap(0).f();
        let atol = T::of(match r.below(6) {
            0 | 1 => 0.0,
            2 => 1e-8,
            3 => scale * r.range(1, 4) as f64,
            4 => scale * 10f64.powf(r.uni(-6.0, 3.0)),
            _ => 10f64.powf(r.uni(-12.0, 2.0)),
        });
        let at = atol.f();
        let mut cols: Vec<Vec<T>> = gen_obs(r, &p, &axs, npts.min(2000), Where::Inside);
        for col in &mut cols {
            let k = col.len();
            col.extend((k..npts).map(|_| r.below(k)).collect::<Vec<_>>().iter().map(|&i| col[i]).collect::<Vec<T>>());
        }
        for a in 0..n {
            // this axis gets at most one offending point, at a random position, and sometimes edge points
            if npts == 0 {
                continue;
            }
            let (lo, hi) = (axs[a].x(0).f(), axs[a].x(p.dims[a] - 1).f());
            if r.chance(0.4) {
                let i = r.below(npts);
                cols[a][i] = match r.below(6) {
                    0 => p.coord(a, 0),
                    1 => p.coord(a, p.dims[a] - 1),
                    2 => T::of(lo - at * r.uni(0.0, 0.99)),
                    3 => T::of(hi + at * r.uni(0.0, 0.99)),
                    4 => T::of(lo).up(),
                    _ => T::of(hi).down(),
                };
            }
            if r.chance(0.45) {
                let j = r.below(npts);
                let tail = npts - 1 - r.below(npts.min(40));
                let i = *r.pick(&[0, npts - 1, npts / 2, j, tail]);
                let far = match r.below(5) {
                    0 => 0.0,
                    1 => at * r.uni(0.001, 3.0) + axs[a].gap(0).f() * 1e-6,
                    2 => axs[a].gap(0).f() * r.range(1, 3) as f64,
                    3 => 1e6 * (hi - lo),
                    _ => axs[a].gap(0).f() * r.unit(),
                };
                let low = r.flip();
                let x = if low { T::of(lo - at - far) } else { T::of(hi + at + far) };
                cols[a][i] = match r.below(8) {
                    0 => x.up(),
                    1 => x.down(),
                    2 if r.chance(0.3) => T::of(if low { f64::NEG_INFINITY } else { f64::INFINITY }),
                    _ => x,
                };
            }
        }
        let want = bounds_want(&p, &axs, &cols, at);
        for b in BCS {
            let mut out: Vec<bool> = (0..n).map(|_| r.flip()).collect();
            let before = out.clone();
            if let Err(e) = p.check_bounds(b, &refs(&cols), atol, &mut out) {
                return Err(format!("bounds check refused: {e}: {}", describe(&p, "check_bounds", &format!("{b:?}"))));
            }
            for a in 0..n {
                match want[a] {
                    None => c.count("axes_within_rounding_of_the_threshold", 1),
                    Some(w) => {
                        c.evals += 1;
                        c.count(if w { "axes_flagged" } else { "axes_clear" }, 1);
                        if w != out[a] {
                            let bad: Vec<T> = cols[a].iter().copied().filter(|x| axs[a].outside(x.f())).take(4).collect();
                            return Err(format!(
                                "axis {a} flagged {}, expected {w}: tolerance {atol:?}, {npts} points, coordinates outside on this axis {bad:?}, edge {:?}..{:?}, flags before {before:?} after {out:?}: {}",
                                out[a], p.coord(a, 0), p.coord(a, p.dims[a] - 1), describe(&p, "check_bounds", &format!("{b:?}"))
                            ));
                        }
                        let edge = cols[a].iter().any(|x| *x == p.coord(a, 0) || *x == p.coord(a, p.dims[a] - 1));
                        if edge && at == 0.0 && !w {
                            c.count("zero_tolerance_edge_points_clear", 1);
                        }
                        c.sig((T::NAME, kind, b, n, a, w, at == 0.0, edge, npts.min(12), before[a]));
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn c20(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c20_case::<f64>(c, r) } else { c20_case::<f32>(c, r) }
}

// ---- C22 -------------------------------------------------------------------------------------
#[cfg(feature = "std")]
pub fn c22_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    use interpn::utils::{linspace, meshgrid};
    // linspace
    for k in 0..8 {
        // counts past 8, 16 and 24 bits
        let big = k == 0 && r.chance(0.03);
        let n = match r.below(6) {
            _ if big => match r.below(12) {
                0 => (1 << 24) + 1 + r.below(4),
                1 | 2 => r.range(1 << 17, 1_200_000),
                _ => *r.pick(&[65534, 65535, 65536, 65537, 65538, 131_071, 131_073, 100_001]),
            },
            0 => r.below(4),
            1 => r.range(2, 10),
            2 => r.range(1, 2000),
            3 => *r.pick(&[255, 256, 257, 1023, 1024, 1025, 4096, 4097]),
            _ => r.range(2, 60),
        };
        let e = if T::IS32 { 30.0 } else { 200.0 };
        let (a, b) = match r.below(6) {
            0 => (r.irange(-20, 20) as f64, r.irange(-20, 20) as f64),
            1 => (r.uni(-10.0, 10.0), r.uni(-10.0, 10.0)),
            2 => {
                let x = r.sign() * 10f64.powf(r.uni(-e, e));
                (x, x * r.uni(0.9, 1.1))
            }
            3 => {
                let x = r.uni(-5.0, 5.0);
                (x, x)
            }
            4 => (0.0, r.sign() * 10f64.powf(r.uni(-e, e))),
            _ => (r.sign() * 10f64.powf(r.uni(-e, e)), r.sign() * 10f64.powf(r.uni(-e, e))),
        };
        let (a, b) = (T::of(a), T::of(b));
        let v = match guarded(|| linspace(a, b, n)) {
            Err((m, l)) => return Err(format!("linspace({a:?}, {b:?}, {n}) panics: {m} at {l}")),
            Ok(v) => v,
        };
        c.evals += 1;
        if v.len() != n {
            return Err(format!("linspace({a:?}, {b:?}, {n}) has {} points", v.len()));
        }
        if n > 0 && !(v[0] == a) {
            return Err(format!("linspace({a:?}, {b:?}, {n}) starts at {:?}", v[0]));
        }
        let tol = 6.0 * T::U * (a.f().abs() + b.f().abs()) + 4.0 * T::MINSUB * n as f64;
        let stride = if n > 20_000 { r.range(n / 4000, n / 2000) } else { 1 };
        if big {
            c.count("linspace_calls_over_65000_points", 1);
        }
        for i in (0..n.saturating_sub(50)).step_by(stride).chain(n.saturating_sub(50)..n) {
            let want = if n == 1 { dd(a.f()) } else { dd(a.f()) + (dd(b.f()) - dd(a.f())) * (i as f64) / dd((n - 1) as f64) };
            let err = (v[i].wide() - want).abs();
            if !(err <= tol) {
                return Err(format!("linspace({a:?}, {b:?}, {n})[{i}] = {:?}, evenly spaced would be {:e} (allowed {tol:e})", v[i], want.f()));
            }
            c.evals += 1;
        }
        c.sig((T::NAME, "linspace", if big { 100 + n.ilog2() as usize } else { n.min(64) }, a.f() < b.f(), a.f() == b.f(), a.f() > 0.0));
        c.count("linspace_calls", 1);
    }
    // meshgrid
    for _ in 0..3 {
        let n = if r.chance(0.2) { r.range(7, 10) } else { r.range(1, 6) };
        let mut axes: Vec<Vec<T>> = vec![];
        let mut size = 1;
        for _ in 0..n {
            let k = if r.chance(0.02) { 0 } else { r.range(1, if n <= 3 { 12 } else if n <= 6 { 4 } else { 3 }) };
            let k = if size * k > 20_000 { 1 } else { k };
            size *= k;
            // repeated coordinates are allowed: positions, not values, are what counts
            axes.push((0..k).map(|_| T::of(r.irange(-5, 5) as f64 + if r.flip() { r.unit() } else { 0.0 })).collect());
        }
        let v = match guarded(|| meshgrid(axes.iter().collect())) {
            Err((m, l)) => return Err(format!("meshgrid of sizes {:?} panics: {m} at {l}", axes.iter().map(|a| a.len()).collect::<Vec<_>>())),
            Ok(v) => v,
        };
        c.evals += 1;
        if v.len() != size {
            return Err(format!("meshgrid of sizes {:?} has {} rows", axes.iter().map(|a| a.len()).collect::<Vec<_>>(), v.len()));
        }
        let mut loc = vec![0usize; n];
        for row in &v {
            let ok = row.len() == n && (0..n).all(|a| row[a].bits() == axes[a][loc[a]].bits());
            if !ok {
                return Err(format!("meshgrid row for grid indices {loc:?} is {row:?}: {axes:?}"));
            }
            c.evals += 1;
            for a in (0..n).rev() {
                loc[a] += 1;
                if loc[a] < axes[a].len() {
                    break;
                }
                loc[a] = 0;
            }
        }
        c.sig((T::NAME, "meshgrid", axes.iter().map(|a| a.len()).collect::<Vec<_>>()));
        c.count("meshgrid_calls", 1);
    }
    // the values an interpolator expects: tabulated over meshgrid rows, read back at the grid points
    let n = r.range(1, 4);
    let dims: Vec<usize> = (0..n).map(|_| r.range(2, 5)).collect();
    let axes: Vec<Vec<T>> = dims.iter().map(|&k| linspace(T::of(r.irange(-9, 0) as f64), T::of(r.irange(1, 9) as f64), k)).collect();
    let rows = meshgrid(axes.iter().collect());
    let vals: Vec<T> = rows.iter().map(|row| row.iter().enumerate().fold(T::zero(), |s, (i, x)| s + *x * T::of(10f64.powi(i as i32)))).collect();
    let p = Prob { kind: Kind::Rect, dims, starts: vec![], steps: vec![], grids: axes, vals, exact: vec![false; n], share: false };
    for (i, row) in rows.iter().enumerate() {
        let got = p.one(Meth::Nearest, Path::Fn, row).map_err(|e| format!("grid built by linspace refused: {e}: {}", describe(&p, "Nearest", "Fn")))?;
        if !same(got, p.vals[i]) {
            return Err(format!("values tabulated over meshgrid rows: row {row:?} holds {:?}, the interpolator reads {got:?}: {}", p.vals[i], describe(&p, "Nearest", "Fn")));
        }
        c.evals += 1;
    }
    Ok(())
}
#[cfg(not(feature = "std"))]
pub fn c22_case<T: Sc>(_: &mut Ctx, _: &mut Rng) -> Result<(), String> {
    Ok(())
}
pub fn c22(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c22_case::<f64>(c, r) } else { c22_case::<f32>(c, r) }
}
