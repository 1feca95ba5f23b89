//! C30: what the 1-D grids report about a location, and the 1-D interpolators on grid types written by the user.
use crate::dd::dd;
use crate::genr::*;
use crate::prob::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::Ctx;
use crate::sc::Sc;
use crate::value::{describe, hold_candidates, prob1, unique_vals};
use interpn::one_dim::{Extrap, Grid1D, GridSample, Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{Left1D, Linear1D, LinearHoldLast1D, Nearest1D, Right1D};

fn side(e: &Extrap) -> i32 {
    match e {
        Extrap::OutsideLow => -1,
        Extrap::Inside => 0,
        Extrap::OutsideHigh => 1,
    }
}
pub type Lookup<T> = (Result<(usize, i32), &'static str>, Result<(T, T, T, T, i32), &'static str>);
pub fn lookup<T: Sc>(p: &Prob<T>, x: T) -> Result<Lookup<T>, &'static str> {
    let f = |s: GridSample<T>| (s.x0, s.y0, s.x1, s.y1, side(&s.extrap));
    Ok(match p.kind {
        Kind::Reg => {
            let g = RegularGrid1D::new(p.starts[0], p.steps[0], &p.vals)?;
            (g.index(x).map(|(i, e)| (i, side(&e))), g.at(x).map(f))
        }
        Kind::Rect => {
            let g = RectilinearGrid1D::new(&p.grids[0], &p.vals)?;
            (g.index(x).map(|(i, e)| (i, side(&e))), g.at(x).map(f))
        }
    })
}
/// The built-in grids.
fn report<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let (mut p, kind) = prob1::<T>(r, c, 0);
    let n = p.dims[0];
    if n > 50_000 && T::IS32 {
        return Ok(());
    }
    p.vals = unique_vals(r, n);
    let axs = axes_of(&p);
    let ax = &axs[0];
    let cnt = batch_len(r, 60);
    let mut xs = gen_obs(r, &p, &axs, cnt, Where::Any).remove(0);
    for x in xs.iter_mut() {
        if r.chance(0.25) {
            *x = p.coord(0, {
                let k = r.below(n);
                *r.pick(&[0, n - 1, k])
            });
        }
    }
    for &x in &xs {
        let xf = x.f();
        if !ax.resolvable(xf) {
            c.count("points_not_judged_range", 1);
            continue;
        }
        let d = || format!("{} at {xf:e}", describe(&p, "Grid1D", "at/index"));
        let (ix, at) = lookup(&p, x).map_err(|e| format!("valid construction refused: {e}: {}", d()))?;
        let ((i, s1), (x0, y0, x1, y1, s2)) = match (ix, at) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return Err(format!("valid location refused: index {a:?}, at {b:?}: {}", d())),
        };
        c.evals += 1;
        if i + 2 > n {
            return Err(format!("index {i} names no cell of {n} points: {}", d()));
        }
        if y0.bits() != p.vals[i].bits() || y1.bits() != p.vals[i + 1].bits() {
            return Err(format!("at reports the values {y0:?} and {y1:?}, cell {i} has {:?} and {:?}: {}", p.vals[i], p.vals[i + 1], d()));
        }
        // the coordinates
        for (k, g) in [(i, x0), (i + 1, x1)] {
            let want = ax.x(k);
            let bad = match kind {
                Kind::Rect => g.f() != want.f(),
                Kind::Reg => (dd(g.f()) - want).abs() > 4.0 * T::U * (ax.start.abs() + want.abs() + ax.x(i).abs() + ax.step) + 2.0 * T::MINSUB,
            };
            if bad {
                return Err(format!("at reports {g:?} as the coordinate of point {k}, want {:e}: {}", want.f(), d()));
            }
        }
        // the cell
        let reg = ax.region(xf);
        let amb = ax.ambiguity(xf, ax.cell(xf)) * ax.gap(ax.cell(xf)).f() + if kind == Kind::Reg { 4.0 * T::U * (ax.start.abs() + xf.abs()) } else { 0.0 };
        let amb = if ax.exact_at(xf) { 0.0 } else { amb };
        let ok = match reg {
            Region::OutLow => i == 0,
            Region::OutHigh => i == n - 2,
            _ => (ax.x(i) - dd(xf)).f() <= amb && (dd(xf) - ax.x(i + 1)).f() <= amb,
        };
        if !ok {
            return Err(format!("index {i} (points {:e} .. {:e}) for a location in {reg:?}: {}", ax.x(i).f(), ax.x(i + 1).f(), d()));
        }
        // the side
        let want = match reg {
            Region::OutLow => -1,
            Region::OutHigh => 1,
            _ => 0,
        };
        let near = kind == Kind::Reg && amb > 0.0 && ((dd(xf) - ax.x(0)).abs() <= amb || (dd(xf) - ax.x(n - 1)).abs() <= amb);
        let fine = |s: i32| s == want || (near && (s - want).abs() == 1);
        if !fine(s1) || !fine(s2) {
            return Err(format!("side {s1} (index), {s2} (at), expected {want} (-1 below, 0 inside, 1 above): {}", d()));
        }
        if s1 != s2 {
            return Err(format!("index says side {s1}, at says {s2}: {}", d()));
        }
        c.sig((T::NAME, kind, reg, s1, n.min(20), i.min(3), (n - 2 - i).min(3), xf == ax.x(i).f(), xf == ax.x(i + 1).f()));
    }
    c.count("lookups_judged", xs.len() as u64);
    Ok(())
}

// ---- grids written by a user ----------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Style {
    /// an ordinary rectilinear grid found by walking
    Walk,
    /// every cell has its own pair of values
    Pieces,
    /// continued periodically: never outside
    Periodic,
    /// one cell after another, the first and the last without end: never outside
    Endless,
    /// the domain ends inside the first and last cells: outside although the cell contains the location
    Limits,
}
const REFUSED: &str = "a location this grid does not have";
#[derive(Clone)]
struct User<'a, T> {
    style: Style,
    x: &'a [T],
    y0: &'a [T],
    y1: &'a [T],
    /// locations in this open interval are refused
    hole: (T, T),
}
impl<'a, T: Sc> User<'a, T> {
    fn sample(&self, loc: T) -> Result<(T, T, T, T, i32), &'static str> {
        if loc > self.hole.0 && loc < self.hole.1 {
            return Err(REFUSED);
        }
        let n = self.x.len();
        let (lo, hi) = (self.x[0], self.x[n - 1]);
        let mut off = T::zero();
        let mut s = if loc < lo { -1 } else if loc > hi { 1 } else { 0 };
        let mut at = loc;
        if self.style == Style::Periodic {
            let k = ((loc - lo) / (hi - lo)).floor();
            off = k * (hi - lo);
            at = loc - off;
            s = 0;
        }
        match self.style {
            Style::Endless => s = 0,
            Style::Limits => {
                let q = T::of(0.25);
                if loc < lo + q * (self.x[1] - lo) {
                    s = -1
                } else if loc > hi - q * (hi - self.x[n - 2]) {
                    s = 1
                }
            }
            _ => {}
        }
        let mut i = 0;
        while i < n - 2 && at >= self.x[i + 1] {
            i += 1;
        }
        Ok((self.x[i] + off, self.y0[i], self.x[i + 1] + off, self.y1[i], s))
    }
}
impl<'a, T: Sc> Grid1D<'a, T> for User<'a, T> {
    fn at(&self, loc: T) -> Result<GridSample<T>, &'static str> {
        let (x0, y0, x1, y1, s) = self.sample(loc)?;
        let extrap = if s < 0 { Extrap::OutsideLow } else if s > 0 { Extrap::OutsideHigh } else { Extrap::Inside };
        Ok(GridSample { x0, y0, x1, y1, extrap })
    }
}
fn run_user<T: Sc>(g: &User<'_, T>, m: M1, how: usize, xs: &[T], out: &mut [T]) -> Res {
    fn go<'a, T: Sc, G: Grid1D<'a, T>, I: Interp1D<'a, T, G>>(it: I, how: usize, xs: &[T], out: &mut [T]) -> Res {
        match how {
            0 => it.eval(xs, out),
            #[cfg(feature = "std")]
            1 => {
                let v = it.eval_alloc(xs)?;
                out.copy_from_slice(&v);
                Ok(())
            }
            _ => {
                for (x, o) in xs.iter().zip(out.iter_mut()) {
                    *o = it.eval_one(*x)?;
                }
                Ok(())
            }
        }
    }
    let g = g.clone();
    match m {
        M1::Left => go(Left1D::new(g), how, xs, out),
        M1::Right => go(Right1D::new(g), how, xs, out),
        M1::Nearest => go(Nearest1D::new(g), how, xs, out),
        M1::Linear => go(Linear1D::new(g), how, xs, out),
        M1::HoldLast => go(LinearHoldLast1D::new(g), how, xs, out),
    }
}
fn user<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let n = r.range(2, 9);
    let mut p: Prob<T> = gen_prob_dims(r, Kind::Rect, vec![n], None);
    let style = *r.pick(&[Style::Walk, Style::Pieces, Style::Periodic, Style::Endless, Style::Limits]);
    // moderate coordinates: the user's own arithmetic must not decide
    let mut x = T::of(r.range(0, 8) as f64 - 4.0);
    p.grids[0] = (0..n)
        .map(|_| {
            x = x + T::of(r.range(1, 24) as f64 / 8.0);
            x
        })
        .collect();
    p.exact[0] = true;
    p.vals = (0..n).map(|i| T::of(r.sym() * 10f64.powf(r.uni(-3.0, 3.0)) + i as f64)).collect();
    let y1: Vec<T> = if style == Style::Walk { p.vals[1..].to_vec() } else { (0..n - 1).map(|_| T::of(r.sym() * 50.0)).collect() };
    let (lo, hi) = (p.grids[0][0].f(), p.grids[0][n - 1].f());
    let hole = r.chance(0.4);
    let h0 = r.uni(lo - 1.0, hi);
    let g = User {
        style,
        x: &p.grids[0],
        y0: &p.vals,
        y1: &y1,
        hole: if hole { (T::of(h0), T::of(h0 + r.uni(0.1, 1.0))) } else { (T::of(1.0), T::of(0.0)) },
    };
    let axs = axes_of(&p);
    // locations on a lattice on which the grid's own arithmetic is exact
    let count = batch_len(r, 40);
    let xs: Vec<T> = (0..count)
        .map(|_| {
            let q = r.unit();
            if q < 0.15 {
                *r.pick(&p.grids[0])
            } else {
                T::of((r.uni(lo - 0.6 * (hi - lo), hi + 0.6 * (hi - lo)) * 64.0).round() / 64.0)
            }
        })
        .collect();
    for m in M1S {
        if style == Style::Limits && !matches!(m, M1::Linear | M1::HoldLast) {
            // the piecewise-constant rules say nothing about a location outside a grid but inside a cell
            continue;
        }
        let how = r.below(3);
        let d = |k: usize| format!("{m:?}1D on a user's grid ({style:?}), {} points {:?}, left values {:?}, right values {:?}, way {how}, at {:?}", n, p.grids[0], p.vals, y1, xs[k]);
        let mut out = vec![T::of(-7.5); count];
        let first_bad = xs.iter().position(|x| g.sample(*x).is_err());
        let res = run_user(&g, m, how, &xs, &mut out);
        match (first_bad, res) {
            (None, Ok(())) => {}
            (Some(k), Ok(())) => return Err(format!("the grid refuses a location, the evaluation succeeds: {}", d(k))),
            (None, Err(e)) => return Err(format!("refused ({e}) although the grid has every location: {}", d(0))),
            (Some(k), Err(e)) => {
                if e != REFUSED {
                    return Err(format!("the grid's error {REFUSED:?} is reported as {e:?}: {}", d(k)));
                }
                c.count("errors_passed_on", 1);
                continue;
            }
        }
        for k in 0..count {
            let (x0, y0, x1, y1k, s) = g.sample(xs[k]).unwrap();
            let (a0, b0, a1, b1) = (x0.f(), y0.f(), x1.f(), y1k.f());
            let x = xs[k].f();
            c.evals += 1;
            let got = out[k];
            let pick = match m {
                M1::Left => Some(if s > 0 || (s == 0 && x >= a1) { y1k } else { y0 }),
                M1::Right => Some(if s < 0 || (s == 0 && x <= a0) { y0 } else { y1k }),
                M1::Nearest => Some(if s < 0 || (s == 0 && x - a0 <= a1 - x) { y0 } else { y1k }),
                M1::HoldLast if s != 0 => Some(if s < 0 { y0 } else { y1k }),
                _ => None,
            };
            if let Some(w) = pick {
                if w.bits() != got.bits() {
                    return Err(format!("got {got:?}, the grid's lookup gives {w:?}: {}", d(k)));
                }
                if style == Style::Walk && m != M1::HoldLast {
                    let cand = hold_candidates(&axs[0], m, x);
                    if !cand.iter().any(|&j| p.vals[j].bits() == got.bits()) {
                        return Err(format!("got {got:?}, want point {} of an ordinary grid: {}", cand[0], d(k)));
                    }
                }
            } else {
                let t = (dd(x) - dd(a0)) / (dd(a1) - dd(a0));
                let w = dd(b0) + t * (dd(b1) - dd(b0));
                let bound = 12.0 * T::U * (b0.abs() + b1.abs()) * (1.0 + t.abs());
                let e = (dd(got.f()) - w).abs();
                if !(e <= bound) {
                    return Err(format!("got {got:?}, the grid's lookup gives {:e} +- {bound:e}: {}", w.f(), d(k)));
                }
                c.ratio(e / bound.max(f64::MIN_POSITIVE));
            }
            c.sig((T::NAME, "user", style, m, how, s, n, x == a0, x == a1));
        }
        c.count("user_grid_batches", 1);
    }
    Ok(())
}
pub fn c30(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    match idx % 4 {
        0 => user::<f64>(c, r),
        1 => user::<f32>(c, r),
        2 => report::<f64>(c, r),
        _ => report::<f32>(c, r),
    }
}
