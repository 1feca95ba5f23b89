//! C01-C08: results against the reference model.
use crate::dd::{dd, Dd, ONE, ZERO};
use crate::genr::*;
use crate::prob::*;
use crate::refmodel::{self, judge, nearest_indices, Ax, Region, Verdict};
use crate::rng::Rng;
use crate::runner::Ctx;
use crate::sc::Sc;

pub fn arr<T: Sc>(v: &[T], k: usize) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i >= k {
            s.push_str(&format!(",... ({} in all)", v.len()));
            break;
        }
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("{x:?}"));
    }
    s.push(']');
    s
}
pub fn describe<T: Sc>(p: &Prob<T>, m: &str, path: &str) -> String {
    let mut s = format!("{} {} {:?} via {} dims={:?}", T::NAME, m, p.kind, path, p.dims);
    match p.kind {
        Kind::Reg => s.push_str(&format!(" starts={:?} steps={:?}", p.starts, p.steps)),
        Kind::Rect => {
            for g in &p.grids {
                s.push_str(" grid=");
                s.push_str(&arr(g, 8));
            }
        }
    }
    s.push_str(" vals=");
    s.push_str(&arr(&p.vals, 12));
    s
}
pub fn regions(axs: &[Ax], x: &[f64]) -> Vec<Region> {
    axs.iter().zip(x).map(|(a, x)| a.region(*x)).collect()
}
/// dimension counts, biased to the small ones but reaching all
pub fn pick_n(r: &mut Rng, max: usize) -> usize {
    let w = [30usize, 28, 22, 8, 5, 4, 2, 2, 1, 1];
    let tot: usize = w[..max].iter().sum();
    let mut k = r.below(tot);
    for (i, x) in w[..max].iter().enumerate() {
        if k < *x {
            return i + 1;
        }
        k -= x;
    }
    max
}
/// For types with more digits than f64: the same problem with every axis measured in another unit, one that needs all
/// the digits. The result is that of the plain problem, which the reference sees.
fn disguise<T: Sc>(c: &mut Ctx, r: &mut Rng, p: &Prob<T>, cols: &[Vec<T>], axs: &mut [Ax]) -> Option<(Prob<T>, Vec<Vec<T>>)> {
    if T::WIDE && r.flip() {
        let (mut p, mut cols) = (p.clone(), cols.to_vec());
        c.count("axes_with_more_digits_than_f64", p.n() as u64);
        for a in 0..p.n() {
            let u = T::of(r.uni(0.5, 2.0)).enrich();
            axs[a].extra = 2f64.powi(-98) * axs[a].x(0).abs().max(axs[a].x(axs[a].n - 1).abs());
            cols[a].iter_mut().for_each(|x| *x = *x * u);
            match p.kind {
                Kind::Reg => {
                    p.starts[a] = p.starts[a] * u;
                    p.steps[a] = p.steps[a] * u;
                }
                Kind::Rect => p.grids[a].iter_mut().for_each(|x| *x = *x * u),
            }
        }
        return Some((p, cols));
    }
    None
}
pub fn budget(m: Meth, n: usize, thorough: bool) -> (usize, usize) {
    // (value cap, points)
    let f = if thorough { 4 } else { 1 };
    match m {
        Meth::Cubic(_) => match n {
            1 => (70_000 * f, 48),
            2 => (40_000 * f, 40),
            3 => (20_000 * f, 24),
            4 => (6_000 * f, 10),
            5 => (8_000 * f, 4),
            6 => (16_000 * f, 2),
            7 => (40_000 * f, 1),
            _ => (70_000 * f, 1),
        },
        _ => match n {
            1 => (70_000 * f, 64),
            2 => (40_000 * f, 64),
            3 => (20_000 * f, 48),
            4 => (10_000 * f, 32),
            5 | 6 => (8_000 * f, 16),
            _ => (8_000 * f, 8),
        },
    }
}
pub fn cap(r: &mut Rng, c: usize, rare: f64) -> usize {
    if r.chance(rare) { c } else { (c / 20).max(64) }
}

/// More grid points than an f32 can count (and than any 8-, 16- or 24-bit index can).
pub fn huge_prob<T: Sc>(r: &mut Rng, kind: Kind, n: usize, min: usize) -> Prob<T> {
    let big = (1usize << 24) + r.range(5, 2000);
    let small = r.range(min, min + 3);
    let dims = match (n, r.below(3)) {
        (1, _) => vec![big],
        (2, 0) => vec![small, big / small + 1],
        (2, 1) => vec![big / small + 1, small],
        (2, _) => vec![4099, big / 4099 + 1],
        (_, 0) => vec![257, 258, big / (257 * 258) + 1],
        (_, 1) => vec![small, big / (small * min) + 1, min],
        _ => vec![65537, small, big / (small * 65537) + min],
    };
    let mut p = Prob { kind, dims, starts: vec![], steps: vec![], grids: vec![], vals: vec![], exact: vec![], share: false };
    for a in 0..p.dims.len() {
        let k = p.dims[a];
        let s = if T::IS32 { -((k / 2) as f64) } else { r.range(0, 100) as f64 - 50.0 };
        if kind == Kind::Reg {
            p.starts.push(T::of(s));
            p.steps.push(T::of(1.0));
        } else {
            p.grids.push((0..k).map(|i| T::of(s + i as f64 + if T::IS32 && k > 1 << 20 { 0.0 } else { (i % 3) as f64 * 0.25 })).collect());
        }
        p.exact.push(true);
    }
    p.vals = (0..p.size()).map(|i| T::of(((i as u64).wrapping_mul(2654435761) % 16_777_213) as f64 - 8.0e6)).collect();
    p
}
/// the cases that use such grids, numbered from 1 (0: an ordinary case)
pub fn is_huge(idx: u64) -> u64 {
    if (1001..1013).contains(&idx) { idx - 1000 } else { 0 }
}
/// the first of them have one axis, of either kind and either type
fn huge_kind(huge: u64) -> Kind {
    if (huge - 1) / 2 % 2 == 0 { Kind::Reg } else { Kind::Rect }
}
fn huge_dims(r: &mut Rng, huge: u64) -> usize {
    if huge <= 6 { 1 } else { r.range(1, 3) }
}

pub fn value_case<T: Sc>(c: &mut Ctx, r: &mut Rng, m: Meth, w: Where, maxn: usize, huge: u64) -> Result<(), String> {
    let kind = if huge > 0 { huge_kind(huge) } else if r.flip() { Kind::Reg } else { Kind::Rect };
    let mut n = pick_n(r, maxn);
    // beyond what the functions take
    if huge == 0 && maxn >= 8 && r.chance(0.003) {
        n = match m {
            Meth::Linear => r.range(11, 14),
            Meth::Cubic(_) => 9,
            _ => n,
        };
        c.count("problems_of_9_to_14_dimensions", (n > 8) as u64);
    }
    if let Meth::Cubic(_) = m {
        if n == 8 && !r.chance(0.3) {
            n = 5;
        }
        if n == 7 && r.chance(0.5) {
            n = 6;
        }
    }
    let (vc, pc) = budget(m, n, c.thorough);
    let vc = cap(r, vc, 0.06).max(m.min_size().pow(n as u32));
    if huge > 0 {
        n = huge_dims(r, huge);
        c.count("grids_of_16_million_points", 1);
    }
    let p: Prob<T> = if huge > 0 { huge_prob(r, kind, n, m.min_size()) } else { gen_prob(r, kind, n, m.min_size(), vc) };
    let mut axs = axes_of(&p);
    let big_batch = n <= 2 && r.chance(0.01);
    let count = if huge > 0 {
        r.range(40, 120)
    } else if big_batch { r.range(1000, 5000) } else { batch_len(r, pc) };
    let path = *r.pick(&paths(m, n));
    let cols = match w {
        Where::Outside => {
            // at least one exceeded axis per point
            let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
            for i in 0..count {
                if (0..n).all(|a| !axs[a].outside(cols[a][i].f())) || r.chance(0.15) {
                    let a = r.below(n);
                    cols[a][i] = gen_x(r, &p, &axs, a, Where::Outside);
                }
                if r.chance(0.1) {
                    for a in 0..n {
                        cols[a][i] = gen_x(r, &p, &axs, a, Where::Outside);
                    }
                }
            }
            cols
        }
        _ => gen_obs(r, &p, &axs, count, w),
    };
    let other = disguise(c, r, &p, &cols, &mut axs);
    let (given, gcols) = other.as_ref().map(|o| (&o.0, &o.1)).unwrap_or((&p, &cols));
    let obs = refs(gcols);
    let mut out = vec![T::of(f64::NAN); count];
    let desc = |p: &Prob<T>| describe(p, &format!("{m:?}"), &format!("{path:?}"));
    if let Err(e) = given.eval(m, path, &obs, &mut out) {
        return Err(format!("valid evaluation refused: {e}: {} batch of {count}, first point {:?}", desc(&p), point(&cols, 0)));
    }
    for i in 0..count {
        let x = point(&cols, i);
        c.evals += 1;
        match judge(&p, &axs, &x, m, out[i]) {
            Verdict::Ok(q) => {
                c.ratio(q);
                if q > 0.3 && std::env::var("RATIO").is_ok() {
                    eprintln!("ratio {q} got {:e} at {x:?} {}", out[i].f(), desc(&p));
                }
                let rg = regions(&axs, &x);
                if rg.iter().any(|r| matches!(r, Region::OutLow | Region::OutHigh)) {
                    c.count("points_outside", 1);
                } else {
                    c.count("points_inside", 1);
                }
                c.sig((T::NAME, kind, m, path, rg, p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
            }
            Verdict::Skip => c.count("points_not_judged_range", 1),
            Verdict::Bad { want, bound, ratio } => {
                return Err(format!(
                    "got {:e}, want {want:e} +- {bound:e} ({ratio:.3e} x bound) at point {x:?} ({:?}), position {i} of {count}: {}",
                    out[i].f(), regions(&axs, &x), desc(&p)
                ));
            }
        }
    }
    c.count(&format!("{n}d"), count as u64);
    c.sample(|| format!("{} at {:?} -> {:?}", desc(&p), point(&cols, 0), out[0].f()));
    Ok(())
}
pub fn c01(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 {
        value_case::<f64>(c, r, Meth::Linear, Where::Any, 10, is_huge(idx))
    } else {
        value_case::<f32>(c, r, Meth::Linear, Where::Any, 10, is_huge(idx))
    }
}
pub fn c02(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    let m = Meth::Cubic(idx / 2 % 2 == 0);
    if idx % 2 == 0 {
        value_case::<f64>(c, r, m, Where::Inside, 8, is_huge(idx))
    } else {
        value_case::<f32>(c, r, m, Where::Inside, 8, is_huge(idx))
    }
}
pub fn c03(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    let m = Meth::Cubic(idx / 2 % 2 == 0);
    if idx % 2 == 0 {
        value_case::<f64>(c, r, m, Where::Outside, 8, is_huge(idx))
    } else {
        value_case::<f32>(c, r, m, Where::Outside, 8, is_huge(idx))
    }
}

/// distinct bit patterns, some of them special
pub fn unique_vals<T: Sc>(r: &mut Rng, n: usize) -> Vec<T> {
    let special = r.chance(0.3);
    (0..n)
        .map(|i| {
            if special && r.chance(0.2) {
                if T::IS32 {
                    // NaN payloads, infinities, subnormals
                    *r.pick(&[
                        T::from_bits64(0x7fc00000 | (i as u64 & 0x3fffff)),
                        T::from_bits64(0xff800000),
                        T::from_bits64(0x7f800000),
                        T::from_bits64(0x80000000),
                        T::from_bits64(1 + (i as u64 & 0xffff)),
                    ])
                } else {
                    *r.pick(&[
                        T::from_bits64(0x7ff8000000000000 | i as u64),
                        T::from_bits64(0xfff0000000000000),
                        T::from_bits64(0x7ff0000000000000),
                        T::from_bits64(0x8000000000000000),
                        T::from_bits64(1 + i as u64),
                    ])
                }
            } else {
                T::of(i as f64 + 0.25)
            }
        })
        .collect()
}
pub fn c04_case<T: Sc>(c: &mut Ctx, r: &mut Rng, huge: u64) -> Result<(), String> {
    let kind = if huge > 0 { huge_kind(huge) } else if r.flip() { Kind::Reg } else { Kind::Rect };
    let n = if huge > 0 { huge_dims(r, huge) } else { pick_n(r, 6) };
    let (vc, _) = budget(Meth::Nearest, n, c.thorough);
    let vc = cap(r, vc, 0.1);
    let exact = r.chance(0.5);
    let dims = gen_dims(r, n, 2, vc);
    let strat: &[usize] = if exact { &[0, 1] } else { &[0, 1, 2, 3, 4, 5, 6, 7] };
    let mut p: Prob<T> = if huge > 0 { huge_prob(r, kind, n, 2) } else { gen_prob_dims(r, kind, dims, Some(strat)) };
    if huge > 0 {
        c.count("grids_of_16_million_points", 1);
    } else {
        p.vals = unique_vals(r, p.size());
    }
    let mut axs = axes_of(&p);
    let count = if huge > 0 { 150 } else { batch_len(r, 200) };
    let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
    if exact {
        // lattice points: ties are exact there and must go down
        for i in 0..count {
            for a in 0..n {
                if r.chance(0.5) {
                    let k = r.below(p.dims[a] - 1);
                    let j = *r.pick(&[8usize, 8, 7, 9, 4, 12, 0, 16]);
                    cols[a][i] = T::of(axs[a].x(k).f() + j as f64 / 16.0 * axs[a].gap(k).f());
                }
            }
        }
    }
    let path = *r.pick(&paths(Meth::Nearest, n));
    let other = disguise(c, r, &p, &cols, &mut axs);
    let (given, gcols) = other.as_ref().map(|o| (&o.0, &o.1)).unwrap_or((&p, &cols));
    let obs = refs(gcols);
    let mut out = vec![T::of(-7.5); count];
    if let Err(e) = given.eval(Meth::Nearest, path, &obs, &mut out) {
        return Err(format!("valid evaluation refused: {e}: {}", describe(&p, "Nearest", &format!("{path:?}"))));
    }
    for i in 0..count {
        let x = point(&cols, i);
        if (0..n).any(|a| !axs[a].resolvable(x[a])) {
            c.count("points_not_judged_range", 1);
            continue;
        }
        c.evals += 1;
        let cand = nearest_indices(&p, &axs, &x);
        if cand.len() == 1 {
            c.count("unambiguous", 1);
        }
        let ties = (0..n).filter(|&a| {
            let k = axs[a].cell(x[a]);
            axs[a].exact_at(x[a]) && 2.0 * (x[a] - axs[a].x(k).f()) == axs[a].gap(k).f()
        }).count();
        if ties > 0 {
            c.count("exact_tie_points", 1);
        }
        if !cand.iter().any(|&k| p.vals[k].bits() == out[i].bits()) {
            return Err(format!(
                "got {:?} (bits {:x}), want value number {} = {:?} (bits {:x}) at {x:?}: {}",
                out[i], out[i].bits(), cand[0], p.vals[cand[0]], p.vals[cand[0]].bits(), describe(&p, "Nearest", &format!("{path:?}"))
            ));
        }
        c.sig((T::NAME, kind, path, regions(&axs, &x), ties, p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
    }
    c.count(&format!("{n}d"), count as u64);
    c.sample(|| format!("{} at {:?} -> {:?}", describe(&p, "Nearest", &format!("{path:?}")), point(&cols, 0), out[0]));
    Ok(())
}
pub fn c04(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c04_case::<f64>(c, r, is_huge(idx)) } else { c04_case::<f32>(c, r, is_huge(idx)) }
}

/// Allowed stored-value indices of the piecewise-constant 1-D methods, nominal first.
pub fn hold_candidates(ax: &Ax, m: M1, x: f64) -> Vec<usize> {
    let n = ax.n;
    let lo = ax.x(0);
    let hi = ax.x(n - 1);
    let xd = dd(x);
    match m {
        M1::Nearest => {
            if xd.lt(lo) {
                return vec![0];
            }
            if hi.lt(xd) {
                return vec![n - 1];
            }
            ax.nearest(x)
        }
        M1::Left | M1::Right => {
            let i = ax.cell(x);
            let nom = if m == M1::Left {
                if hi.le(xd) { n - 1 } else { i }
            } else if xd.le(lo) {
                0
            } else if hi.lt(xd) {
                n - 1
            } else if xd == ax.x(i) {
                i
            } else {
                i + 1
            };
            let mut v = vec![nom];
            let t = ((xd - ax.x(i)) / ax.gap(i)).f();
            let amb = ax.ambiguity(x, i);
            if amb > 0.0 {
                // the location is within rounding of a grid point: either side of it
                if t.abs() <= amb {
                    if m == M1::Left {
                        v.push(i);
                        v.push(i.saturating_sub(1));
                    } else {
                        v.push(i);
                        v.push((i + 1).min(n - 1));
                    }
                }
                if (1.0 - t).abs() <= amb {
                    if m == M1::Left {
                        v.push(i);
                        v.push(i + 1);
                    } else {
                        v.push(i + 1);
                        v.push((i + 2).min(n - 1));
                    }
                }
            }
            v
        }
        _ => unreachable!(),
    }
}
pub fn prob1<T: Sc>(r: &mut Rng, c: &Ctx, huge: u64) -> (Prob<T>, Kind) {
    let kind = if huge > 0 { huge_kind(huge) } else if r.flip() { Kind::Reg } else { Kind::Rect };
    if huge > 0 {
        return (huge_prob(r, kind, 1, 2), kind);
    }
    let top = if r.chance(0.03) { if c.thorough { 300_000 } else { 70_000 } } else { 200 };
    let d = gen_dims(r, 1, 2, top);
    (gen_prob_dims(r, kind, d, None), kind)
}
pub fn c05_case<T: Sc>(c: &mut Ctx, r: &mut Rng, huge: u64) -> Result<(), String> {
    let (mut p, kind) = prob1::<T>(r, c, huge);
    if huge > 0 {
        c.count("grids_of_16_million_points", 1);
    } else {
        p.vals = unique_vals(r, p.size());
    }
    let mut axs = axes_of(&p);
    let count = batch_len(r, 300);
    let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
    for i in 0..count {
        if r.chance(0.3) {
            let k = r.below(p.dims[0]);
            cols[0][i] = p.coord(0, k);
        }
        if r.chance(0.3) && axs[0].q > 0.0 {
            let k = r.below(p.dims[0] - 1);
            cols[0][i] = T::of(axs[0].x(k).f() + 0.5 * axs[0].gap(k).f());
        }
    }
    let other = disguise(c, r, &p, &cols, &mut axs);
    let (given, gcols) = other.as_ref().map(|o| (&o.0, &o.1)).unwrap_or((&p, &cols));
    for m in [M1::Left, M1::Right, M1::Nearest] {
        let path = *r.pick(paths1());
        let mut out = vec![T::of(-7.5); count];
        if let Err(e) = given.eval1(m, path, &gcols[0], &mut out) {
            return Err(format!("valid evaluation refused: {e}: {}", describe(&p, &format!("{m:?}1D"), &format!("{path:?}"))));
        }
        for i in 0..count {
            let x = cols[0][i].f();
            if !axs[0].resolvable(x) {
                c.count("points_not_judged_range", 1);
                continue;
            }
            c.evals += 1;
            let cand = hold_candidates(&axs[0], m, x);
            if !cand.iter().any(|&k| p.vals[k].bits() == out[i].bits()) {
                return Err(format!(
                    "got {:?}, want value number {} = {:?} at location {x:e} (cell {:?} .. {:?}): {}",
                    out[i], cand[0], p.vals[cand[0]], p.coord(0, axs[0].cell(x)), p.coord(0, axs[0].cell(x) + 1), describe(&p, &format!("{m:?}1D"), &format!("{path:?}"))
                ));
            }
            let node = (0..2).any(|d| {
                let k = axs[0].cell(x) + d;
                dd(x) == axs[0].x(k)
            });
            if node {
                c.count("exactly_on_grid_point", 1);
            }
            c.sig((T::NAME, kind, m, path, regions(&axs, &[x]), node, cand.len(), p.dims[0].min(20)));
        }
        c.sample(|| format!("{} at {:?} -> {:?}", describe(&p, &format!("{m:?}1D"), &format!("{path:?}")), cols[0][0], out[0]));
    }
    Ok(())
}
pub fn c05(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c05_case::<f64>(c, r, is_huge(idx)) } else { c05_case::<f32>(c, r, is_huge(idx)) }
}
pub fn c06_case<T: Sc>(c: &mut Ctx, r: &mut Rng, huge: u64) -> Result<(), String> {
    let (p, kind) = prob1::<T>(r, c, huge);
    let mut axs = axes_of(&p);
    axs[0].lin1d = true;
    let count = batch_len(r, 300);
    let cols = gen_obs(r, &p, &axs, count, Where::Any);
    let other = disguise(c, r, &p, &cols, &mut axs);
    let (given, gcols) = other.as_ref().map(|o| (&o.0, &o.1)).unwrap_or((&p, &cols));
    for m in [M1::Linear, M1::HoldLast] {
        let path = *r.pick(paths1());
        let mut out = vec![T::of(-7.5); count];
        let d = || describe(&p, &format!("{m:?}1D"), &format!("{path:?}"));
        if let Err(e) = given.eval1(m, path, &gcols[0], &mut out) {
            return Err(format!("valid evaluation refused: {e}: {}", d()));
        }
        for i in 0..count {
            let x = cols[0][i].f();
            let n = p.dims[0];
            let near_edge = {
                let k = axs[0].cell(x);
                let t = ((dd(x) - axs[0].x(k)) / axs[0].gap(k)).f();
                let amb = axs[0].ambiguity(x, k);
                (k == 0 && t.abs() <= amb) || (k == n - 2 && (t - 1.0).abs() <= amb)
            };
            c.evals += 1;
            let rg = axs[0].region(x);
            let hold = match (m, rg) {
                (M1::HoldLast, Region::OutLow) => Some(p.vals[0]),
                (M1::HoldLast, Region::OutHigh) => Some(p.vals[n - 1]),
                _ => None,
            };
            if let Some(y) = hold {
                if out[i].bits() == y.bits() {
                    c.count("held_exactly", 1);
                    c.sig((T::NAME, kind, m, path, rg, n.min(20)));
                    continue;
                }
                if !near_edge {
                    return Err(format!("got {:?}, want exactly {y:?} at {x:e} (held edge value): {}", out[i], d()));
                }
            }
            match judge(&p, &axs, &[x], Meth::Linear, out[i]) {
                Verdict::Ok(q) => {
                    c.ratio(q);
                    c.sig((T::NAME, kind, m, path, rg, n.min(20)));
                }
                Verdict::Skip => c.count("points_not_judged_range", 1),
                Verdict::Bad { want, bound, ratio } => {
                    return Err(format!("got {:e}, want {want:e} +- {bound:e} ({ratio:.3e} x bound) at {x:e} ({rg:?}): {}", out[i].f(), d()));
                }
            }
        }
        c.sample(|| format!("{} at {:?} -> {:?}", d(), cols[0][0], out[0]));
    }
    Ok(())
}
pub fn c06(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c06_case::<f64>(c, r, is_huge(idx)) } else { c06_case::<f32>(c, r, is_huge(idx)) }
}

fn c07_case<T: Sc>(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let one_d = idx % 8 == 0;
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = if one_d { 1 } else { pick_n(r, if m == Meth::Nearest { 6 } else if m == Meth::Linear { 10 } else { 7 }) };
    let (vc, _) = budget(m, n, c.thorough);
    let vc = cap(r, vc, 0.05).max(m.min_size().pow(n as u32));
    let mut p: Prob<T> = gen_prob(r, kind, n, if one_d { 2 } else { m.min_size() }, vc);
    if m == Meth::Nearest || one_d && r.flip() {
        p.vals = (0..p.size()).map(|i| T::of(i as f64 + 1.0)).collect();
    }
    let axs = axes_of(&p);
    // grid points: all of a small grid, corners and a sample of a large one
    let size = p.size();
    let maxpts = match m {
        Meth::Cubic(_) => [400usize, 300, 150, 40, 12, 4, 2, 1, 1, 1][n - 1],
        _ => [600usize, 600, 400, 200, 100, 60, 30, 20, 12, 8][n - 1],
    };
    let mut pts: Vec<Vec<usize>> = vec![];
    if size <= maxpts {
        for i in 0..size {
            pts.push(p.unflat(i));
        }
        c.count("grids_covered_completely", 1);
    } else {
        for _ in 0..maxpts {
            pts.push((0..n).map(|a| match r.below(5) {
                0 => 0,
                1 => p.dims[a] - 1,
                2 => r.below(2.min(p.dims[a])),
                3 => p.dims[a] - 1 - r.below(2.min(p.dims[a])),
                _ => r.below(p.dims[a]),
            }).collect());
        }
    }
    let cols: Vec<Vec<T>> = (0..n).map(|a| pts.iter().map(|l| p.coord(a, l[a])).collect()).collect();
    let obs = refs(&cols);
    let class = |l: &[usize]| -> Vec<u8> {
        l.iter().enumerate().map(|(a, &i)| if i == 0 { 0 } else if i == p.dims[a] - 1 { 1 } else if i == 1 { 2 } else if i == p.dims[a] - 2 { 3 } else { 4 }).collect()
    };
    if one_d {
        let mut ax1 = axs.clone();
        ax1[0].lin1d = true;
        for m1 in M1S {
            let path = *r.pick(paths1());
            let mut out = vec![T::of(-7.5); pts.len()];
            let d = || describe(&p, &format!("{m1:?}1D"), &format!("{path:?}"));
            if let Err(e) = p.eval1(m1, path, obs[0], &mut out) {
                return Err(format!("valid evaluation refused: {e}: {}", d()));
            }
            for (i, l) in pts.iter().enumerate() {
                let y = p.vals[l[0]];
                let x = cols[0][i].f();
                if !axs[0].resolvable(x) {
                    continue;
                }
                c.evals += 1;
                let ok = match m1 {
                    M1::Linear | M1::HoldLast => match refmodel::value(&p, &ax1, &[x], Meth::Linear) {
                        Some(v) => (out[i].f() - y.f()).abs() <= 3.0 * v.e,
                        None => true,
                    },
                    M1::Nearest => out[i].bits() == y.bits(),
                    _ => out[i].bits() == y.bits() || (axs[0].ambiguity(x, axs[0].cell(x)) > 0.0
                        && hold_candidates(&axs[0], m1, x).iter().any(|&k| p.vals[k].bits() == out[i].bits())),
                };
                if !ok {
                    return Err(format!("grid point {} (coordinate {x:e}) gives {:?}, stored value is {y:?}: {}", l[0], out[i], d()));
                }
                c.sig((T::NAME, kind, m1, path, class(l), p.dims[0].min(12)));
            }
        }
        return Ok(());
    }
    let path = *r.pick(&paths(m, n));
    let d = || describe(&p, &format!("{m:?}"), &format!("{path:?}"));
    let mut out = vec![T::of(-7.5); pts.len()];
    if let Err(e) = p.eval(m, path, &obs, &mut out) {
        return Err(format!("valid evaluation refused: {e}: {}", d()));
    }
    for (i, l) in pts.iter().enumerate() {
        let y = p.vals[p.flat_index(l)];
        let x = point(&cols, i);
        if (0..n).any(|a| !axs[a].resolvable(x[a])) {
            c.count("points_not_judged_range", 1);
            continue;
        }
        c.evals += 1;
        let ok = match m {
            Meth::Nearest => out[i].bits() == y.bits(),
            _ => match refmodel::value(&p, &axs, &x, m) {
                Some(v) => {
                    if v.e > 0.0 {
                        c.ratio((out[i].f() - y.f()).abs() / (2.0 * v.e));
                    }
                    (out[i].f() - y.f()).abs() <= 2.0 * v.e
                }
                None => {
                    c.count("points_not_judged_range", 1);
                    true
                }
            },
        };
        if !ok {
            return Err(format!("grid point {l:?} (coordinates {x:?}) gives {:?}, stored value is {y:?}: {}", out[i], d()));
        }
        c.sig((T::NAME, kind, m, path, class(l), p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
    }
    c.count(&format!("{n}d"), pts.len() as u64);
    c.sample(|| format!("{} at grid point {:?} -> {:?}", d(), pts[0], out[0]));
    Ok(())
}
pub fn c07(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx / 8 % 2 == 0 { c07_case::<f64>(c, r, idx) } else { c07_case::<f32>(c, r, idx) }
}

/// Polynomial in normalized coordinates: sum of monomials, each with a power per axis.
struct Poly {
    terms: Vec<(f64, Vec<u8>)>,
    c: Vec<f64>,
    s: Vec<f64>,
}
impl Poly {
    fn eval(&self, x: &[Dd]) -> Dd {
        let z: Vec<Dd> = x.iter().enumerate().map(|(a, x)| (*x - dd(self.c[a])) * self.s[a]).collect();
        let mut v = ZERO;
        for (k, pw) in &self.terms {
            let mut t = ONE * *k;
            for (a, &e) in pw.iter().enumerate() {
                for _ in 0..e {
                    t = t * z[a];
                }
            }
            v = v + t;
        }
        v
    }
}
fn c08_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true)]);
    let quad = m != Meth::Linear && r.chance(0.75);
    let n = pick_n(r, if m == Meth::Linear { 8 } else { 6 });
    let (vc, pc) = budget(m, n, false);
    let vc = cap(r, vc.min(20_000), 0.03).max(m.min_size().pow(n as u32));
    let mut p: Prob<T> = gen_prob(r, kind, n, m.min_size(), vc);
    let axs = axes_of(&p);
    let deg = if quad { 2 } else { 1 };
    let nterms = r.range(1, 6);
    let mut terms = vec![];
    for _ in 0..nterms {
        let k = if r.flip() { r.irange(-5, 5) as f64 } else { r.sym() * 3.0 };
        terms.push((k, (0..n).map(|_| r.below(deg + 1) as u8).collect::<Vec<u8>>()));
    }
    // one term per monomial
    terms.sort_by(|a: &(f64, Vec<u8>), b| a.1.cmp(&b.1));
    terms.dedup_by(|a, b| a.1 == b.1);
    let mut cc = vec![];
    let mut ss = vec![];
    for a in 0..n {
        let lo = axs[a].x(0).f();
        let hi = axs[a].x(p.dims[a] - 1).f();
        cc.push(lo + r.unit() * (hi - lo));
        // power of two scale, so that the polynomial is exact in double-double
        ss.push(2f64.powi(-((hi - lo).log2().round() as i32)));
    }
    let poly = Poly { terms, c: cc, s: ss };
    let size = p.size();
    for i in 0..size {
        let l = p.unflat(i);
        let x: Vec<Dd> = (0..n).map(|a| axs[a].x(l[a])).collect();
        p.vals[i] = T::of(poly.eval(&x).f());
    }
    let count = batch_len(r, pc);
    let w = if quad && m == Meth::Cubic(true) { Where::Inside } else { Where::Any };
    let cols = gen_obs(r, &p, &axs, count, w);
    let path = *r.pick(&paths(m, n));
    let obs = refs(&cols);
    let mut out = vec![T::of(-7.5); count];
    let d = || format!("{} polynomial terms {:?} centre {:?} scale {:?}", describe(&p, &format!("{m:?}"), &format!("{path:?}")), poly.terms, poly.c, poly.s);
    if let Err(e) = p.eval(m, path, &obs, &mut out) {
        return Err(format!("valid evaluation refused: {e}: {}", d()));
    }
    for i in 0..count {
        let x = point(&cols, i);
        if (0..n).any(|a| !axs[a].resolvable(x[a])) {
            c.count("points_not_judged_range", 1);
            continue;
        }
        let Some(v) = refmodel::value(&p, &axs, &x, m) else {
            c.count("points_not_judged_range", 1);
            continue;
        };
        c.evals += 1;
        let xd: Vec<Dd> = x.iter().map(|&x| dd(x)).collect();
        let want = poly.eval(&xd);
        // values were rounded when stored; the reference supplies only the error bound here
        let bound = 2.0 * v.e + 2.0 * T::U * v.p;
        let err = (dd(out[i].f()) - want).abs();
        if !(err <= bound) {
            return Err(format!("got {:e}, polynomial is {:e} +- {bound:e} at {x:?} ({:?}): {}", out[i].f(), want.f(), regions(&axs, &x), d()));
        }
        c.ratio(err / bound);
        let cross = poly.terms.iter().any(|t| t.0 != 0.0 && t.1.iter().filter(|&&e| e > 0).count() > 1);
        if cross {
            c.count("points_with_cross_terms", 1);
        }
        if quad {
            c.count("points_quadratic", 1);
        }
        c.sig((T::NAME, kind, m, path, quad, cross, regions(&axs, &x), p.dims.iter().map(|d| (*d).min(5)).collect::<Vec<_>>()));
    }
    c.sample(|| format!("{} at {:?} -> {:?}", d(), point(&cols, 0), out[0]));
    Ok(())
}
pub fn c08(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 2 == 0 { c08_case::<f64>(c, r) } else { c08_case::<f32>(c, r) }
}
