//! C09-C13: properties relating several executions to each other.
use crate::dd::{dd, Dd};
use crate::genr::*;
use crate::prob::*;
use crate::refmodel::{self, value, Cand, Region};
use crate::rng::Rng;
use crate::runner::Ctx;
use crate::sc::{same, Sc};
use crate::value::{budget, cap, describe, pick_n, regions};

fn eval_one<T: Sc>(p: &Prob<T>, m: Meth, path: Path, x: &[T]) -> Result<T, String> {
    p.one(m, path, x)
        .map_err(|e| format!("valid evaluation refused: {e} at {x:?}: {}", describe(p, &format!("{m:?}"), &format!("{path:?}"))))
}
fn fs<T: Sc>(x: &[T]) -> Vec<f64> {
    x.iter().map(|x| x.f()).collect()
}

// ---- C09 -------------------------------------------------------------------------------------
fn c09_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Cubic(true)]);
    let n = pick_n(r, if m == Meth::Linear { 8 } else { 6 });
    let (vc, _) = budget(m, n, false);
    let vc = cap(r, vc.min(10_000), 0.02).max(m.min_size().pow(n as u32));
    let p: Prob<T> = gen_prob(r, kind, n, m.min_size(), vc);
    let axs = axes_of(&p);
    let path = *r.pick(&paths(m, n));
    let tries = if n <= 3 { 12 } else { 3 };
    for _ in 0..tries {
        let a = r.below(n);
        let sz = p.dims[a];
        let j = match r.below(6) {
            0 => 0,
            1 => sz - 1,
            2 => 1.min(sz - 1),
            3 => sz.saturating_sub(2),
            _ => r.below(sz),
        };
        let g = p.coord(a, j);
        let mut x: Vec<T> = (0..n)
            .map(|b| {
                let w = if r.chance(0.7) { Where::CellInterior } else { Where::Any };
                gen_x(r, &p, &axs, b, w)
            })
            .collect();
        let hl = axs[a].gap(j.saturating_sub(1).min(sz - 2)).f();
        let hr = axs[a].gap(j.min(sz - 2)).f();
        let at = |x: &mut Vec<T>, v: T| -> Vec<T> {
            x[a] = v;
            x.clone()
        };
        let k = if T::IS32 { 6 } else { 10 };
        let dl = hl * 2f64.powi(-k);
        let dr = hr * 2f64.powi(-k);
        let pts = [
            at(&mut x, T::of(g.f() - 2.0 * dl)),
            at(&mut x, T::of(g.f() - dl)),
            at(&mut x, g.down()),
            at(&mut x, g),
            at(&mut x, g.up()),
            at(&mut x, T::of(g.f() + dr)),
            at(&mut x, T::of(g.f() + 2.0 * dr)),
        ];
        if pts.iter().any(|q| (0..n).any(|b| !axs[b].resolvable(q[b].f()))) {
            c.count("points_not_judged_range", 1);
            continue;
        }
        let mut f = vec![];
        let mut e = vec![];
        let mut ok = true;
        for q in &pts {
            match value(&p, &axs, &fs(q), m) {
                Some(v) => {
                    e.push(v.e);
                    f.push(eval_one(&p, m, path, q)?.f());
                }
                None => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok {
            c.count("points_not_judged_range", 1);
            continue;
        }
        // derivative bounds of the formulas on both sides
        let ml = refmodel::lipschitz(&p, &axs, &fs(&pts[1]), m, a).max(refmodel::lipschitz(&p, &axs, &fs(&pts[0]), m, a));
        let mr = refmodel::lipschitz(&p, &axs, &fs(&pts[5]), m, a).max(refmodel::lipschitz(&p, &axs, &fs(&pts[6]), m, a));
        // the third derivative is bounded through the derivative bound over the whole of both cells
        let (mut ml, mut mr) = (ml, mr);
        for t in [0.02, 0.5, 0.98] {
            let mut y = fs(&pts[3]);
            y[a] = g.f() - t * hl;
            ml = ml.max(refmodel::lipschitz(&p, &axs, &y, m, a));
            y[a] = g.f() + t * hr;
            mr = mr.max(refmodel::lipschitz(&p, &axs, &y, m, a));
        }
        let d = || describe(&p, &format!("{m:?}"), &format!("{path:?}"));
        c.evals += 1;
        for (lo, hi) in [(2usize, 3usize), (3, 4), (2, 4)] {
            let dx = pts[hi][a].f() - pts[lo][a].f();
            let tol = e[lo] + e[hi] + 4.0 * (ml * (dx / hl)).max(mr * (dx / hr));
            if !((f[hi] - f[lo]).abs() <= tol) {
                return Err(format!("value jumps by {:e} (allowed {tol:e}) across grid coordinate {g:?} (number {j}) of axis {a}, other coordinates {:?}: {}", f[hi] - f[lo], pts[3], d()));
            }
        }
        if let Meth::Cubic(_) = m {
            let slope = |i0: usize, i1: usize, i2: usize| -> (f64, f64) {
                let (x0, x1, x2) = (pts[i0][a].f(), pts[i1][a].f(), pts[i2][a].f());
                let (u, v) = (x1 - x0, x2 - x0);
                let c1 = v / u / (v - u);
                let c2 = u / v / (v - u);
                ((f[i1] - f[i0]) * c1 - (f[i2] - f[i0]) * c2, ((e[i1] + e[i0]) * c1).abs() + ((e[i2] + e[i0]) * c2).abs())
            };
            let (sl, nl) = slope(3, 1, 0);
            let (sr, nr) = slope(3, 5, 6);
            let trunc = 32.0 * 2f64.powi(-2 * k) * (ml / hl).max(mr / hr);
            let tol = nl + nr + trunc;
            // (slopes are computed here in the axis's units)
            if !tol.is_finite() || (ml / hl).max(mr / hr) < 1e-290 {
                c.count("slopes_out_of_range", 1);
                continue;
            }
            if !((sl - sr).abs() <= tol) {
                return Err(format!("slope jumps from {sl:e} to {sr:e} (allowed difference {tol:e}) across grid coordinate {g:?} (number {j} of {sz}) of axis {a}, other coordinates {:?}: {}", pts[3], d()));
            }
            c.ratio((sl - sr).abs() / tol);
            // how sharp the slope check is
            if tol < 0.02 * (ml / hl).max(mr / hr) {
                c.count("sharp_slope_checks", 1);
            }
            if j == 0 || j == sz - 1 {
                c.count("grid_edge_crossings", 1);
            }
        }
        let cl = if j == 0 { 0 } else if j == sz - 1 { 1 } else if j == 1 { 2 } else if j == sz - 2 { 3 } else { 4 };
        c.sig((T::NAME, kind, m, path, a, cl, n, regions(&axs, &fs(&pts[3])), p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
        c.sample(|| format!("{}: crossing coordinate {j} of axis {a} at {:?}: values {:?}", d(), pts[3], &f[2..5]));
    }
    Ok(())
}
pub fn c09(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c09_case::<f64>(c, r) } else { c09_case::<f32>(c, r) }
}

// ---- C10 -------------------------------------------------------------------------------------
fn c10_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, match m { Meth::Linear => 10, Meth::Nearest => 6, _ => 7 });
    let (vc, _) = budget(m, n, false);
    let min = m.min_size();
    let vc = cap(r, vc.min(10_000), 0.05).max(min.pow(n as u32));
    let mut p: Prob<T> = gen_prob(r, kind, n, min, vc);
    let axs = axes_of(&p);
    let path = *r.pick(&paths(m, n));
    let tries = if n <= 3 { 6 } else { 2 };
    let orig = p.vals.clone();
    for _ in 0..tries {
        p.vals.copy_from_slice(&orig);
        let x: Vec<T> = (0..n)
            .map(|a| {
                if r.chance(0.6) || m == Meth::Nearest && r.flip() {
                    let mut v = gen_x(r, &p, &axs, a, Where::CellInterior);
                    for _ in 0..20 {
                        let i = axs[a].cell(v.f());
                        let t = ((dd(v.f()) - axs[a].x(i)) / axs[a].gap(i)).f();
                        if m == Meth::Nearest && (t - 0.5).abs() < 0.1 || t < 0.03 || t > 0.97 {
                            v = gen_x(r, &p, &axs, a, Where::CellInterior);
                        }
                    }
                    v
                } else {
                    gen_x(r, &p, &axs, a, Where::Outside)
                }
            })
            .collect();
        // clearly inside a cell (or outside the grid), beyond any rounding of the coordinate
        let mut clear = true;
        let mut ranges = vec![];
        for a in 0..n {
            let xv = x[a].f();
            let i = axs[a].cell(xv);
            let t = ((dd(xv) - axs[a].x(i)) / axs[a].gap(i)).f();
            let amb = axs[a].ambiguity(xv, i);
            if !axs[a].resolvable(xv) || amb > 0.02 && (-0.5..1.5).contains(&t) {
                clear = false;
            }
            // inner boundaries only: at the outer ones the cell is the same on both sides
            if (i > 0 && t < 0.02) || (i < p.dims[a] - 2 && t > 0.98) {
                clear = false;
            }
            let sz = p.dims[a];
            ranges.push(match m {
                Meth::Linear => (i, i + 1),
                Meth::Cubic(_) => {
                    let f = i.saturating_sub(1).min(sz - 4);
                    (f, f + 3)
                }
                Meth::Nearest => {
                    if (t - 0.5).abs() < 0.02 {
                        clear = false;
                    }
                    let k = axs[a].nearest(xv)[0];
                    (k, k)
                }
            });
        }
        if !clear {
            c.count("points_not_clear", 1);
            continue;
        }
        // marks for missing data inside the support are values like any other
        if r.chance(0.3) {
            for _ in 0..4 {
                let l: Vec<usize> = ranges.iter().map(|&(a, b)| r.range(a, b)).collect();
                let i = l.iter().zip(&p.dims).fold(0, |s, (&i, &d)| s * d + i);
                let mut v = [p.vals[i]];
                sentinels(r, &mut v, 1e40);
                p.vals[i] = v[0];
            }
            c.count("supports_with_sentinel_values", 1);
        }
        let before = eval_one(&p, m, path, &x)?;
        let poison = match r.below(7) {
            5 => T::of(-1e30),
            6 => T::of(-9999.0),
            0 => T::of(f64::NAN),
            1 => T::of(f64::INFINITY),
            2 => T::of(f64::NEG_INFINITY),
            3 => T::of(T::MAXF),
            _ => T::of(123.0),
        };
        let mut kept = 0;
        for i in 0..p.vals.len() {
            let l = p.unflat(i);
            if (0..n).all(|a| l[a] >= ranges[a].0 && l[a] <= ranges[a].1) {
                kept += 1;
            } else {
                p.vals[i] = poison;
            }
        }
        let after = eval_one(&p, m, path, &x)?;
        c.evals += 1;
        if !same(before, after) {
            p.vals.copy_from_slice(&orig);
            return Err(format!("result at {x:?} changes from {before:?} to {after:?} when all values except the {kept} at index ranges {ranges:?} are replaced by {poison:?}: {}", describe(&p, &format!("{m:?}"), &format!("{path:?}"))));
        }
        c.count("values_poisoned", (p.vals.len() - kept) as u64);
        if kept < p.vals.len() {
            c.sig((T::NAME, kind, m, path, regions(&axs, &fs(&x)), p.dims.iter().map(|d| (*d).min(7)).collect::<Vec<_>>()));
        }
        c.sample(|| format!("{} at {x:?}: {before:?}, unchanged with values outside {ranges:?} set to {poison:?}", describe(&p, &format!("{m:?}"), &format!("{path:?}"))));
    }
    Ok(())
}
pub fn c10(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c10_case::<f64>(c, r) } else { c10_case::<f32>(c, r) }
}

// ---- C11 -------------------------------------------------------------------------------------
fn permuted<T: Sc>(p: &Prob<T>, perm: &[usize]) -> Prob<T> {
    // axis k of the new problem is axis perm[k] of the old one
    let mut q = p.clone();
    q.dims = perm.iter().map(|&k| p.dims[k]).collect();
    q.exact = perm.iter().map(|&k| p.exact[k]).collect();
    if p.kind == Kind::Reg {
        q.starts = perm.iter().map(|&k| p.starts[k]).collect();
        q.steps = perm.iter().map(|&k| p.steps[k]).collect();
    } else {
        q.grids = perm.iter().map(|&k| p.grids[k].clone()).collect();
    }
    for i in 0..p.vals.len() {
        let l = p.unflat(i);
        let m: Vec<usize> = perm.iter().map(|&k| l[k]).collect();
        let k = q.flat_index(&m);
        q.vals[k] = p.vals[i];
    }
    q
}
fn reversed<T: Sc>(p: &Prob<T>, a: usize) -> Prob<T> {
    let mut q = p.clone();
    if p.kind == Kind::Reg {
        q.starts[a] = -(p.starts[a] + p.steps[a] * T::of((p.dims[a] - 1) as f64));
    } else {
        q.grids[a] = p.grids[a].iter().rev().map(|x| -*x).collect();
    }
    for i in 0..p.vals.len() {
        let mut l = p.unflat(i);
        l[a] = p.dims[a] - 1 - l[a];
        let k = q.flat_index(&l);
        q.vals[k] = p.vals[i];
    }
    q
}
fn c11_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, match m { Meth::Linear => 8, _ => 6 });
    let (vc, pc) = budget(m, n, false);
    let min = m.min_size();
    let vc = cap(r, vc.min(6_000), 0.03).max(min.pow(n as u32));
    let what = *r.pick(&["permute", "reverse", "scale", "shift", "add", "multiply"]);
    if m == Meth::Nearest && (what == "add" || what == "multiply") {
        return Ok(());
    }
    let lattice = what == "shift" || what == "reverse" && kind == Kind::Reg;
    let dims = gen_dims(r, n, min, vc);
    let mut p: Prob<T> = gen_prob_dims(r, kind, dims, if lattice { Some(&[0, 1]) } else { None });
    if m == Meth::Nearest {
        p.vals = (0..p.size()).map(|i| T::of(i as f64 + 1.0)).collect();
    }
    let axs = axes_of(&p);
    let count = r.range(1, pc.min(12).max(1));
    let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
    if lattice {
        for a in 0..n {
            for x in cols[a].iter_mut() {
                // snap to the lattice
                let q = if axs[a].q > 0.0 { axs[a].q / 64.0 } else { 1.0 };
                *x = T::of((x.f() / q).round() * q);
            }
        }
    }
    let path = *r.pick(&paths(m, n));
    let d = |p: &Prob<T>| describe(p, &format!("{m:?}"), &format!("{path:?}"));
    // factor applied to results of the transformed problem, transformed problem and points
    let (mut q, mut qcols) = (p.clone(), cols.clone());
    let mut factor = 1.0;
    let mut note = String::new();
    match what {
        "permute" => {
            let mut perm: Vec<usize> = (0..n).collect();
            r.shuffle(&mut perm);
            q = permuted(&p, &perm);
            qcols = perm.iter().map(|&k| cols[k].clone()).collect();
            note = format!("axes permuted {perm:?}");
        }
        "reverse" => {
            let a = r.below(n);
            q = reversed(&p, a);
            qcols[a] = cols[a].iter().map(|x| -*x).collect();
            note = format!("axis {a} reversed");
        }
        "scale" => {
            let a = r.below(n);
            let s = T::of(2f64.powi(r.irange(-12, 12) as i32));
            if kind == Kind::Reg {
                q.starts[a] = p.starts[a] * s;
                q.steps[a] = p.steps[a] * s;
            } else {
                q.grids[a] = p.grids[a].iter().map(|x| *x * s).collect();
            }
            qcols[a] = cols[a].iter().map(|x| *x * s).collect();
            // exact only while nothing leaves the range of the scalar type
            let exact = |x: T| (x * s).f().is_finite() && (x * s) / s == x;
            if !(cols[a].iter().all(|x| exact(*x)) && (0..q.dims[a]).all(|i| exact(p.coord(a, i)))) {
                c.count("points_not_clear", 1);
                return Ok(());
            }
            note = format!("axis {a} scaled by {s:?}");
        }
        "shift" => {
            let a = r.below(n);
            if axs[a].q == 0.0 {
                return Ok(());
            }
            let s = T::of(axs[a].q * r.irange(-500, 500) as f64);
            if kind == Kind::Reg {
                q.starts[a] = p.starts[a] + s;
            } else {
                q.grids[a] = p.grids[a].iter().map(|x| *x + s).collect();
            }
            qcols[a] = cols[a].iter().map(|x| *x + s).collect();
            // exact only on the lattice
            if (0..count).any(|i| (dd(qcols[a][i].f()) - dd(s.f())).f() != cols[a][i].f()) {
                c.count("points_not_clear", 1);
                return Ok(());
            }
            note = format!("axis {a} shifted by {s:?}");
        }
        "multiply" => {
            factor = match r.below(4) {
                0 | 1 => -1.0,
                2 => 2f64.powi(r.irange(-9, 9) as i32),
                // into the small and the large numbers
                _ => {
                    let e = if T::IS32 { 50 } else { 800 };
                    2f64.powi(r.irange(-e, e / 2) as i32)
                }
            };
            if r.flip() {
                factor = -factor;
            }
            q.vals = p.vals.iter().map(|v| *v * T::of(factor)).collect();
            note = format!("values times {factor}");
        }
        _ => {}
    }
    if what == "add" {
        let mut p2 = p.clone();
        p2.vals = gen_vals(r, p.size());
        let mut p3 = p.clone();
        for i in 0..p3.vals.len() {
            p3.vals[i] = p.vals[i] + p2.vals[i];
        }
        let obs = refs(&cols);
        let mut o = [vec![T::zero(); count], vec![T::zero(); count], vec![T::zero(); count]];
        for (k, pp) in [&p, &p2, &p3].into_iter().enumerate() {
            pp.eval(m, path, &obs, &mut o[k]).map_err(|e| format!("valid evaluation refused: {e}: {}", d(pp)))?;
        }
        for i in 0..count {
            let x = point(&cols, i);
            if (0..n).any(|a| !axs[a].resolvable(x[a])) {
                continue;
            }
            let (Some(a), Some(b), Some(s)) = (value(&p, &axs, &x, m), value(&p2, &axs, &x, m), value(&p3, &axs, &x, m)) else {
                c.count("points_not_judged_range", 1);
                continue;
            };
            c.evals += 1;
            // rounding of the value sums enters through the weights
            let tol = a.e + b.e + s.e + 2.0 * T::U * (a.p + b.p);
            let err = (dd(o[0][i].f()) + dd(o[1][i].f()) - dd(o[2][i].f())).abs();
            if !(err <= tol) {
                return Err(format!("f(u)+f(v) = {:e} + {:e} but f(u+v) = {:e} (allowed {tol:e}) at {x:?}: {}", o[0][i].f(), o[1][i].f(), o[2][i].f(), d(&p)));
            }
            c.ratio(err / tol);
            c.sig((T::NAME, kind, m, path, what, regions(&axs, &x), p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
        }
        return Ok(());
    }
    let qaxs = axes_of(&q);
    let (mut o1, mut o2) = (vec![T::zero(); count], vec![T::zero(); count]);
    p.eval(m, path, &refs(&cols), &mut o1).map_err(|e| format!("valid evaluation refused: {e}: {}", d(&p)))?;
    q.eval(m, path, &refs(&qcols), &mut o2).map_err(|e| format!("valid evaluation refused: {e}: {note}: {}", d(&p)))?;
    for i in 0..count {
        let x = point(&cols, i);
        let y = point(&qcols, i);
        if (0..n).any(|a| !axs[a].resolvable(x[a]) || !qaxs[a].resolvable(y[a])) {
            c.count("points_not_judged_range", 1);
            continue;
        }
        if m == Meth::Nearest {
            let tie = (0..n).any(|a| {
                let k = axs[a].cell(x[a]);
                let t = ((dd(x[a]) - axs[a].x(k)) / axs[a].gap(k)).f();
                (t - 0.5).abs() < 1e-3 || axs[a].nearest(x[a]).len() > 1 || qaxs[a].nearest(y[a]).len() > 1
            });
            if tie {
                c.count("ties_left_out", 1);
                continue;
            }
            c.evals += 1;
            if o1[i].bits() != o2[i].bits() {
                return Err(format!("nearest gives {:?} at {x:?} but {:?} after: {note}: {}", o1[i], o2[i], d(&p)));
            }
        } else {
            let (Some(v1), Some(v2)) = (value(&p, &axs, &x, m), value(&q, &qaxs, &y, m)) else {
                c.count("points_not_judged_range", 1);
                continue;
            };
            c.evals += 1;
            let tol = 2.0 * (v1.e * factor.abs() + v2.e);
            let err = (dd(o1[i].f()) * factor - dd(o2[i].f())).abs();
            if !(err <= tol) {
                return Err(format!("{:e} at {x:?} becomes {:e} (allowed difference {tol:e}) after: {note}: {}", o1[i].f() * factor, o2[i].f(), d(&p)));
            }
            c.ratio(err / tol);
        }
        c.count(what, 1);
        c.sig((T::NAME, kind, m, path, what, regions(&axs, &x), p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
    }
    c.sample(|| format!("{} at {:?} -> {:?}; {note} -> {:?}", d(&p), point(&cols, 0), o1[0], o2[0]));
    Ok(())
}
pub fn c11(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c11_case::<f64>(c, r) } else { c11_case::<f32>(c, r) }
}

// ---- C12 -------------------------------------------------------------------------------------
fn cell_range<T: Sc>(p: &Prob<T>, axs: &[refmodel::Ax], x: &[f64]) -> Option<(f64, f64)> {
    // smallest and largest corner value over all cells the point may belong to
    let st = refmodel::strides(&p.dims);
    let all: Vec<Vec<Cand>> = (0..p.n()).map(|a| axs[a].cands(x[a], Meth::Linear)).collect();
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    let idx: Vec<Vec<usize>> = all
        .iter()
        .map(|c| {
            let mut v: Vec<usize> = c.iter().flat_map(|c| [c.first, c.first + 1]).collect();
            v.sort();
            v.dedup();
            v
        })
        .collect();
    let tot: usize = idx.iter().map(|v| v.len()).product();
    if tot > 20_000 {
        return None;
    }
    for mut k in 0..tot {
        let mut o = 0;
        for (a, v) in idx.iter().enumerate() {
            o += v[k % v.len()] * st[a];
            k /= v.len();
        }
        lo = lo.min(p.vals[o].f());
        hi = hi.max(p.vals[o].f());
    }
    Some((lo, hi))
}
fn c12_case<T: Sc>(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let constant = r.chance(0.4);
    let one_d = idx % 6 == 0;
    let m = if constant && !one_d { *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true)]) } else { Meth::Linear };
    let n = if one_d { 1 } else { pick_n(r, if m == Meth::Linear { 10 } else { 7 }) };
    let (vc, pc) = budget(m, n, false);
    let vc = cap(r, vc.min(20_000), 0.05).max(m.min_size().pow(n as u32));
    let mut p: Prob<T> = gen_prob(r, kind, n, m.min_size(), vc);
    let mut axs = axes_of(&p);
    if one_d {
        axs[0].lin1d = true;
    }
    let k = *r.pick(&[1.0, -1.0, 0.0, 0.1, 1.0 / 3.0, -7.7e6, 3.3e-7, 1e10, 123456.7]);
    if constant {
        let k = T::of(k);
        p.vals.iter_mut().for_each(|v| *v = k);
    }
    let count = batch_len(r, pc);
    let m1 = *r.pick(&[M1::Linear, M1::HoldLast]);
    let w = if constant || one_d && m1 == M1::HoldLast { Where::Any } else { Where::Inside };
    let cols = gen_obs(r, &p, &axs, count, w);
    let mut out = vec![T::of(-7.5); count];
    let name;
    let res = if one_d {
        let path = *r.pick(paths1());
        name = describe(&p, &format!("{m1:?}1D"), &format!("{path:?}"));
        p.eval1(m1, path, &cols[0], &mut out)
    } else {
        let path = *r.pick(&paths(m, n));
        name = describe(&p, &format!("{m:?}"), &format!("{path:?}"));
        p.eval(m, path, &refs(&cols), &mut out)
    };
    if let Err(e) = res {
        return Err(format!("valid evaluation refused: {e}: {name}"));
    }
    for i in 0..count {
        let x = point(&cols, i);
        if (0..n).any(|a| !axs[a].resolvable(x[a])) {
            continue;
        }
        let Some(v) = value(&p, &axs, &x, m) else {
            c.count("points_not_judged_range", 1);
            continue;
        };
        c.evals += 1;
        let y = out[i].f();
        if !y.is_finite() {
            return Err(format!("result {y} at {x:?} from moderate finite input: {name}"));
        }
        if constant {
            // rounding of the constant itself: on constant data every difference is exactly zero, so distance does not amplify anything
            let tol = 16.0 * (n as f64 + 1.0) * T::U * p.vals[0].f().abs();
            if !((y - p.vals[0].f()).abs() <= tol) {
                return Err(format!("constant {:?} becomes {y:e} (allowed error {tol:e}) at {x:?}: {name}", p.vals[0]));
            }
            if y == p.vals[0].f() {
                c.count("constant_reproduced_exactly", 1);
            }
            c.count("constant_points", 1);
        } else {
            let (lo, hi) = if one_d && m1 == M1::HoldLast && axs[0].outside(x[0]) {
                let (a, b) = (p.vals[0].f(), p.vals[p.size() - 1].f());
                // which end is checked by C06; here only the range of the data
                (a.min(b), a.max(b))
            } else {
                match cell_range(&p, &axs, &x) {
                    Some(r) => r,
                    None => continue,
                }
            };
            if !(y >= lo - v.e && y <= hi + v.e) {
                return Err(format!("{y:e} is outside the range [{lo:e}, {hi:e}] of its cell's values (slack {:e}) at {x:?}: {name}", v.e));
            }
            if v.e < 0.01 * (hi - lo) {
                c.count("sharp_range_checks", 1);
            }
        }
        c.sig((T::NAME, kind, m, one_d, constant, regions(&axs, &x), p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
    }
    c.sample(|| format!("{name} at {:?} -> {:?}", point(&cols, 0), out[0]));
    Ok(())
}
pub fn c12(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx / 6 % 2 == 0 { c12_case::<f64>(c, r, idx) } else { c12_case::<f32>(c, r, idx) }
}

// ---- C13 -------------------------------------------------------------------------------------
fn c13_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, match m { Meth::Linear => 10, Meth::Nearest => 6, _ => 7 });
    let (vc, pc) = budget(m, n, c.thorough);
    let min = m.min_size();
    let vc = cap(r, vc, 0.03).max(min.pow(n as u32));
    let exact = r.chance(0.5);
    let dims = gen_dims(r, n, min, vc);
    let mut reg: Prob<T> = gen_prob_dims(r, Kind::Reg, dims, if exact { Some(&[0, 1]) } else { None });
    if m == Meth::Nearest {
        reg.vals = (0..reg.size()).map(|i| T::of(i as f64 + 1.0)).collect();
    }
    let mut rect = reg.clone();
    rect.kind = Kind::Rect;
    rect.grids = (0..n).map(|a| (0..reg.dims[a]).map(|i| reg.coord(a, i)).collect()).collect();
    let increasing = rect.grids.iter().all(|g| g.windows(2).all(|w| w[0] < w[1]));
    let axs = axes_of(&reg);
    let mut raxs = if increasing { axes_of(&rect) } else { vec![] };
    for a in 0..raxs.len() {
        if axs[a].q == 0.0 || raxs[a].q == 0.0 {
            // the stored coordinates are rounded versions of the regular ones
            raxs[a].extra = 2.0 * T::U * (axs[a].start.abs() + axs[a].x(reg.dims[a] - 1).abs());
        }
    }
    let count = batch_len(r, pc);
    let cols = gen_obs(r, &reg, &axs, count, Where::Any);
    let obs = refs(&cols);
    let ps = paths(m, n);
    let flat: Vec<Path> = ps.iter().copied().filter(|p| !is_rec(*p)).collect();
    let rec: Vec<Path> = ps.iter().copied().filter(|p| is_rec(*p)).collect();
    let mut runs: Vec<(Kind, Path)> = vec![];
    for k in [Kind::Reg, Kind::Rect] {
        if k == Kind::Rect && !increasing {
            continue;
        }
        if !flat.is_empty() {
            runs.push((k, *r.pick(&flat)));
        }
        if !rec.is_empty() {
            runs.push((k, *r.pick(&rec)));
            // declared for more dimensions than used, against exactly sized
            runs.push((k, *r.pick(&[Path::RecMax, Path::RecOne])));
        }
    }
    let mut outs: Vec<Vec<T>> = vec![];
    for (k, path) in &runs {
        let p = if *k == Kind::Reg { &reg } else { &rect };
        let mut o = vec![T::of(-7.5); count];
        p.eval(m, *path, &obs, &mut o)
            .map_err(|e| format!("valid evaluation refused: {e}: {}", describe(p, &format!("{m:?}"), &format!("{path:?}"))))?;
        outs.push(o);
    }
    for i in 0..count {
        let x = point(&cols, i);
        if (0..n).any(|a| !axs[a].resolvable(x[a])) || (increasing && (0..n).any(|a| !raxs[a].resolvable(x[a]))) {
            c.count("points_not_judged_range", 1);
            continue;
        }
        if m == Meth::Nearest {
            if (0..n).any(|a| axs[a].nearest(x[a]).len() > 1 || increasing && raxs[a].nearest(x[a]).len() > 1) {
                c.count("ties_left_out", 1);
                continue;
            }
            c.evals += 1;
            for j in 1..runs.len() {
                if outs[j][i].bits() != outs[0][i].bits() {
                    return Err(format!("{:?} gives {:?} but {:?} gives {:?} at {x:?}: {}", runs[0], outs[0][i], runs[j], outs[j][i], describe(&reg, &format!("{m:?}"), "")));
                }
            }
        } else {
            let v1 = value(&reg, &axs, &x, m);
            let v2 = if increasing { value(&rect, &raxs, &x, m) } else { v1 };
            let (Some(v1), Some(v2)) = (v1, v2) else {
                c.count("points_not_judged_range", 1);
                continue;
            };
            c.evals += 1;
            for j in 1..runs.len() {
                for k in 0..j {
                    let e = |q: &(Kind, Path)| if q.0 == Kind::Reg { v1.e } else { v2.e };
                    let tol = e(&runs[j]) + e(&runs[k]);
                    let err = (outs[j][i].f() - outs[k][i].f()).abs();
                    if !(err <= tol) {
                        return Err(format!("{:?} gives {:e} but {:?} gives {:e} (allowed difference {tol:e}) at {x:?}: {}", runs[k], outs[k][i].f(), runs[j], outs[j][i].f(), describe(&reg, &format!("{m:?}"), "")));
                    }
                    c.ratio(err / tol);
                }
            }
        }
        c.count("comparisons", (runs.len() * (runs.len() - 1) / 2) as u64);
        let rg: Vec<Region> = regions(&axs, &x);
        c.sig((T::NAME, m, runs.clone(), rg, reg.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
    }
    // error agreement: coordinates with no cell index
    if count > 0 {
        let bad = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let a = r.below(n);
        let x: Vec<T> = (0..n).map(|b| if b == a { T::of(bad) } else { cols[b][0] }).collect();
        let mut seen: Vec<(Kind, Path, bool)> = vec![];
        for (k, path) in &runs {
            let p = if *k == Kind::Reg { &reg } else { &rect };
            seen.push((*k, *path, p.one(m, *path, &x).is_ok()));
        }
        for k in [Kind::Reg, Kind::Rect] {
            let s: Vec<_> = seen.iter().filter(|s| s.0 == k).collect();
            if s.iter().any(|q| q.2 != s[0].2) {
                return Err(format!("implementations disagree on whether {x:?} is an error: {seen:?}: {}", describe(&reg, &format!("{m:?}"), "")));
            }
        }
        c.count("error_agreement_checks", 1);
    }
    c.sample(|| format!("{} at {:?}: {:?}", describe(&reg, &format!("{m:?}"), ""), point(&cols, 0), runs.iter().zip(&outs).map(|(r, o)| format!("{r:?} {:?}", o[0])).collect::<Vec<_>>()));
    Ok(())
}
pub fn c13(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c13_case::<f64>(c, r) } else { c13_case::<f32>(c, r) }
}
#[allow(dead_code)]
fn _t(_: Dd) {}
