//! Workload generators: grids, values and observation points in deliberately varied strata.
use crate::prob::{Kind, Prob};
use crate::refmodel::{self, Ax};
use crate::rng::Rng;
use crate::sc::Sc;

pub fn gen_dims(r: &mut Rng, n: usize, min: usize, cap: usize) -> Vec<usize> {
    let mut d = vec![min; n];
    match r.below(6) {
        0 => {}
        1 => {
            for x in d.iter_mut() {
                *x = min + r.below(4);
            }
        }
        2 => {
            let top = ((cap as f64).powf(1.0 / n as f64).floor() as usize).clamp(min, 40);
            for x in d.iter_mut() {
                *x = r.range(min, top);
            }
        }
        3 => {
            // one long axis
            let a = r.below(n);
            let rest: usize = d.iter().enumerate().filter(|(i, _)| *i != a).map(|(_, x)| *x).product();
            let top = (cap / rest.max(1)).max(min);
            d[a] = match r.below(4) {
                0 => r.range(min, top),
                1 => r.range(min, top.min(300)),
                2 => {
                    let e = r.range(2, 16);
                    let base = 1usize << e;
                    (base + r.below(3)).saturating_sub(1).clamp(min, top)
                }
                _ => r.range(min, top.min(40)),
            };
        }
        4 => {
            for x in d.iter_mut() {
                *x = min + if r.flip() { 0 } else { r.below(9) };
            }
        }
        _ => {
            // all different
            for (i, x) in d.iter_mut().enumerate() {
                *x = min + i % 5;
            }
            r.shuffle(&mut d);
        }
    }
    while d.iter().product::<usize>() > cap {
        let i = (0..n).max_by_key(|&i| d[i]).unwrap();
        if d[i] <= min {
            break;
        }
        d[i] -= (d[i] - min).div_ceil(2);
    }
    d
}

pub struct AxisOut<T> {
    pub start: T,
    pub step: T,
    pub grid: Vec<T>,
    pub exact: bool,
}
pub fn gen_axis<T: Sc>(r: &mut Rng, kind: Kind, n: usize) -> AxisOut<T> {
    let strat = r.below(8);
    gen_axis_s(r, kind, n, strat)
}
thread_local! {
    /// no axes in extreme units
    pub static ORDINARY_UNITS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Now and then an axis in very small or very large units: squares and products of its coordinates under- or overflow.
fn zoom<T: Sc>(r: &mut Rng) -> f64 {
    if !r.chance(0.06) || ORDINARY_UNITS.get() {
        return 1.0;
    }
    let e = if T::IS32 { 88 } else { 780 };
    2f64.powi((r.sign() * r.uni(0.6, 1.0) * e as f64) as i32)
}
/// strategies 0 and 1 give exact lattices
pub fn gen_axis_s<T: Sc>(r: &mut Rng, kind: Kind, n: usize, strat: usize) -> AxisOut<T> {
    let big = if T::IS32 { 3.0 } else { 6.0 };
    match kind {
        Kind::Reg => {
            let nn = (n - 1) as f64;
            let (start, step) = match strat {
                0 => (r.irange(-20, 20) as f64, 1.0),
                1 => {
                    let step = 2f64.powi(r.irange(-8, 8) as i32);
                    (step * r.irange(-200, 200) as f64 / 4.0, step)
                }
                2 => (r.uni(-10.0, 10.0), r.uni(0.01, 3.0)),
                3 => {
                    let step = r.uni(0.1, 2.0);
                    (r.sign() * step * 10f64.powf(r.uni(0.0, big)), step)
                }
                4 => {
                    let step = r.uni(1.0, 2.0) * 2f64.powi(r.irange(-30, 30) as i32);
                    (step * r.uni(-100.0, 100.0), step)
                }
                5 => {
                    let step = r.uni(0.1, 2.0);
                    (-0.5 * nn * step, step)
                }
                6 => {
                    let step = r.uni(0.1, 2.0);
                    (-nn * step, step)
                }
                _ => (if r.flip() { 0.0 } else { -0.0 }, *r.pick(&[1.0, 0.1, 0.5, 3.0, 0.7, 1e-3])),
            };
            let z = zoom::<T>(r);
            AxisOut { start: T::of(start * z), step: T::of(step * z), grid: vec![], exact: strat < 2 || strat == 7 }
        }
        Kind::Rect => {
            let mut g: Vec<f64> = Vec::with_capacity(n);
            let maxratio = if T::IS32 { 1e3 } else { 1e7 };
            match strat {
                0 => {
                    let mut x = r.irange(-20, 20) as f64;
                    for _ in 0..n {
                        g.push(x);
                        x += 1.0;
                    }
                }
                1 => {
                    let q = 2f64.powi(r.irange(-6, 6) as i32);
                    let mut x = r.irange(-40, 40) as f64;
                    for _ in 0..n {
                        g.push(x * q);
                        x += r.range(1, 9) as f64;
                    }
                }
                2 => {
                    let s = 10f64.powf(r.uni(-3.0, 3.0));
                    let c = r.sym() * s;
                    for _ in 0..n {
                        g.push(c + s * r.sym());
                    }
                }
                3 => {
                    let ratio = (maxratio as f64).powf(1.0 / n as f64).min(r.uni(1.02, 3.0));
                    let rev = r.flip();
                    let mut x = r.sym();
                    let mut h = if rev { ratio.powi(n as i32) } else { 1.0 } * 0.01;
                    for _ in 0..n {
                        g.push(x);
                        x += h;
                        h *= if rev { 1.0 / ratio } else { ratio };
                    }
                }
                4 => {
                    let mut x = r.sym() * 5.0;
                    let e = if T::IS32 { 2.0 } else { 4.0 };
                    for _ in 0..n {
                        g.push(x);
                        x += 10f64.powf(r.uni(-e, 0.0));
                    }
                }
                5 => {
                    let (a, h) = (r.uni(-10.0, 10.0), r.uni(0.01, 3.0));
                    if r.flip() {
                        for i in 0..n {
                            g.push(a + h * i as f64);
                        }
                    } else {
                        // nearly even: some cells, or all, different by anything down to rounding
                        let all = r.flip();
                        let e = 10f64.powf(r.uni(if T::IS32 { -7.0 } else { -15.5 }, -1.0));
                        let mut x = if r.flip() { 0.0 } else { a };
                        for _ in 0..n {
                            g.push(x);
                            x += h * if all || r.chance(0.3) { 1.0 + e * r.sym() } else { 1.0 };
                        }
                    }
                }
                6 => {
                    let mut x = r.sign() * 10f64.powf(r.uni(0.0, big));
                    for _ in 0..n {
                        g.push(x);
                        x += r.uni(0.1, 2.0);
                    }
                }
                _ => {
                    let small = if T::IS32 { 1e-2 } else { 1e-5 };
                    let mut x = r.sym();
                    let ph = r.below(2);
                    for i in 0..n {
                        g.push(x);
                        x += if (i + ph) % 2 == 0 { 1.0 } else { small * r.uni(1.0, 3.0) };
                    }
                }
            }
            g.sort_by(|a, b| a.total_cmp(b));
            let z = zoom::<T>(r);
            g.iter_mut().for_each(|x| *x *= z);
            let mut t: Vec<T> = g.iter().map(|&x| T::of(x)).collect();
            for i in 1..t.len() {
                if !(t[i] > t[i - 1]) {
                    // keep strictly increasing, with a few ulps of room
                    let mut y = t[i - 1];
                    for _ in 0..8 {
                        y = y.up();
                    }
                    t[i] = y;
                }
            }
            AxisOut { start: T::zero(), step: T::zero(), grid: t, exact: strat < 2 }
        }
    }
}
pub fn gen_vals<T: Sc>(r: &mut Rng, n: usize) -> Vec<T> {
    let e = if T::IS32 { 20 } else { 60 };
    match r.below(10) {
        0 | 1 => (0..n).map(|_| T::of(r.sym())).collect(),
        2 => (0..n).map(|i| T::of((i + 1) as f64)).collect(),
        3 => {
            let mut v = vec![T::zero(); n];
            let k = 1 + r.below(3);
            for _ in 0..k {
                v[r.below(n)] = T::of(r.sign() * r.uni(0.5, 4.0));
            }
            v
        }
        4 => (0..n)
            .map(|_| T::of(r.sign() * r.uni(1.0, 2.0) * 2f64.powi(r.irange(-10, 10) as i32)))
            .collect(),
        5 => {
            let c = r.uni(10.0, 1000.0);
            (0..n).map(|_| T::of(c + r.sym())).collect()
        }
        6 => (0..n).map(|i| T::of(if i % 2 == 0 { 1.0 } else { -1.0 } * (1.0 + 0.1 * r.unit()))).collect(),
        7 => match r.below(4) {
            0 => {
                // down to the smallest normal numbers
                let s = 2f64.powi(-(r.irange(e, if T::IS32 { 125 } else { 1020 }) as i32));
                (0..n).map(|_| T::of(s * r.sym())).collect()
            }
            1 => {
                // and below them
                let k = if r.flip() { 9 } else { 100_000 };
                (0..n).map(|_| T::of(T::MINSUB * r.irange(-k, k) as f64)).collect()
            }
            _ => {
                let s = 2f64.powi(r.irange(-e, e) as i32);
                (0..n).map(|_| T::of(s * r.sym())).collect()
            }
        },
        8 => {
            // numbers that files use for "no data", among ordinary ones: to an interpolator they are values
            let mut v: Vec<T> = (0..n).map(|_| T::of(r.sym())).collect();
            // (in single precision no more than 1e10: room for the oracle's arithmetic)
            sentinels(r, &mut v, if T::IS32 { 1e10 } else { 1e40 });
            v
        }
        _ => (0..n).map(|_| T::of(r.irange(-9, 9) as f64)).collect(),
    }
}
/// Put numbers used elsewhere as marks for missing data in a few places.
pub fn sentinels<T: Sc>(r: &mut Rng, v: &mut [T], top: f64) {
    const S: [f64; 16] = [
        -9999.0, -999.0, 9999.0, -32768.0, 32767.0, -1e30, 1e30, 1e20, -1e20, 9.96921e36, -99.0, -1.0, 2147483647.0, -2147483648.0, 65535.0, 1e-30,
    ];
    let s = *r.pick(&S);
    let k = 1 + r.below(4);
    for _ in 0..k {
        let i = r.below(v.len());
        let s = if r.chance(0.8) { s } else { *r.pick(&S) };
        if s.abs() <= top {
            v[i] = T::of(s);
        }
    }
}
pub fn gen_prob<T: Sc>(r: &mut Rng, kind: Kind, n: usize, min: usize, cap: usize) -> Prob<T> {
    let dims = gen_dims(r, n, min, cap);
    gen_prob_dims(r, kind, dims, None)
}
/// strat: None = any; Some(s) = that axis strategy on every axis
pub fn gen_prob_dims<T: Sc>(r: &mut Rng, kind: Kind, dims: Vec<usize>, strat: Option<&[usize]>) -> Prob<T> {
    let n = dims.len();
    let mut p = Prob { kind, dims, starts: vec![], steps: vec![], grids: vec![], vals: vec![], exact: vec![], share: false };
    for a in 0..n {
        let s = match strat {
            Some(s) => *r.pick(s),
            None => r.below(8),
        };
        let ax = gen_axis_s::<T>(r, kind, p.dims[a], s);
        if kind == Kind::Reg {
            p.starts.push(ax.start);
            p.steps.push(ax.step);
        } else {
            p.grids.push(ax.grid);
        }
        p.exact.push(ax.exact);
    }
    let size = p.size();
    p.vals = gen_vals::<T>(r, size).into_iter().map(T::enrich).collect();
    p
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Where {
    Any,
    Inside,
    Outside,
    /// at least a little away from grid points, midpoints allowed
    CellInterior,
}
fn clampin<T: Sc>(ax: &Ax, x: T) -> T {
    let mut x = x;
    let lo = ax.x(0);
    let hi = ax.x(ax.n - 1);
    let mut k = 0;
    while crate::dd::dd(x.f()).lt(lo) && k < 100 {
        x = if lo.f() > x.f() && (T::of(lo.f()) > x) { T::of(lo.f()) } else { x.up() };
        k += 1;
    }
    while hi.lt(crate::dd::dd(x.f())) && k < 100 {
        x = if T::of(hi.f()) < x { T::of(hi.f()) } else { x.down() };
        k += 1;
    }
    x
}
pub fn gen_x<T: Sc>(r: &mut Rng, p: &Prob<T>, axs: &[Ax], a: usize, w: Where) -> T {
    let ax = &axs[a];
    let n = ax.n;
    let lo = p.coord(a, 0).f();
    let hi = p.coord(a, n - 1).f();
    let cell = |r: &mut Rng| match r.below(5) {
        0 => 0,
        1 => n - 2,
        2 => r.below((n - 1).min(3)),
        // long axes: counts of points that are no longer representable show at the far end
        _ if n > 1000 && r.chance(0.3) => n - 2 - r.below(16),
        _ => r.below(n - 1),
    };
    let span = hi - lo;
    match w {
        Where::CellInterior => {
            let i = cell(r);
            let t = r.uni(0.05, 0.95);
            T::of(ax.x(i).f() + t * ax.gap(i).f())
        }
        Where::Outside => {
            let h0 = ax.gap(0).f();
            let h1 = ax.gap(n - 2).f();
            let low = r.flip();
            let h = if low { h0 } else { h1 };
            let d = match r.below(8) {
                7 => {
                    let top = if r.flip() { 8.0 } else { 18.0 };
                    h * 10f64.powf(r.uni(3.0, top))
                }
                0 => h * r.unit(),
                1 => h * r.range(1, 3) as f64,
                2 => h * r.uni(0.5, 4.0),
                3 => span * r.uni(0.1, 3.0),
                4 => h * 10f64.powf(r.uni(-3.0, if T::IS32 { 3.0 } else { 5.0 })),
                5 => span * 10f64.powf(r.uni(0.0, if T::IS32 { 2.0 } else { 6.0 })),
                _ => {
                    let e = if low { p.coord(a, 0) } else { p.coord(a, n - 1) };
                    let mut x = e;
                    for _ in 0..r.range(1, 3) {
                        x = if low { x.down() } else { x.up() };
                    }
                    return x;
                }
            };
            // a quarter of the largest number at most: differences of coordinates stay finite
            let top = T::MAXF / 4.0;
            let x = if low { lo - d } else { hi + d };
            T::of(if x.abs() <= top { x } else if low { lo - h } else { hi + h })
        }
        Where::Inside => {
            let x = match r.below(9) {
                0 => p.coord(a, if r.flip() { r.below(n) } else if r.flip() { 0 } else { n - 1 }),
                1 => {
                    let x = p.coord(a, r.below(n));
                    let k = r.range(1, 3);
                    let up = r.flip();
                    (0..k).fold(x, |x, _| if up { x.up() } else { x.down() })
                }
                2 => {
                    let i = cell(r);
                    T::of(ax.x(i).f() + 0.5 * ax.gap(i).f())
                }
                3 => {
                    let i = cell(r);
                    T::of(ax.x(i).f() + r.below(17) as f64 / 16.0 * ax.gap(i).f())
                }
                4 => T::of(r.uni(lo, hi)),
                5 => {
                    // a grid point and a little more, or a little less
                    let i = cell(r);
                    let e = if r.flip() { -6.0 } else if T::IS32 { -8.0 } else { -17.0 };
                    let t = 10f64.powf(r.uni(e, 0.0));
                    if r.chance(0.7) { T::of(ax.x(i).f() + t * ax.gap(i).f()) } else { T::of(ax.x(i + 1).f() - t * ax.gap(i).f()) }
                }
                _ => {
                    let i = cell(r);
                    T::of(ax.x(i).f() + r.unit() * ax.gap(i).f())
                }
            };
            clampin(ax, x)
        }
        Where::Any => {
            let w = if r.chance(0.62) { Where::Inside } else { Where::Outside };
            gen_x(r, p, axs, a, w)
        }
    }
}
/// Columns of observation points.
pub fn gen_obs<T: Sc>(r: &mut Rng, p: &Prob<T>, axs: &[Ax], count: usize, w: Where) -> Vec<Vec<T>> {
    let n = p.n();
    let mut cols: Vec<Vec<T>> = (0..n).map(|_| Vec::with_capacity(count)).collect();
    let mut left = 0usize;
    while left < count {
        for a in 0..n {
            let x = gen_x(r, p, axs, a, w);
            cols[a].push(x);
        }
        left += 1;
        // sometimes a walk: repeat the point with one coordinate moved
        while left < count && r.chance(0.25) {
            let b = r.below(n);
            for a in 0..n {
                let x = if a == b { gen_x(r, p, axs, a, w) } else { *cols[a].last().unwrap() };
                cols[a].push(x);
            }
            left += 1;
        }
    }
    if n == 1 && r.chance(0.3) {
        cols[0].sort_by(|a, b| a.partial_cmp(b).unwrap());
        if r.flip() {
            cols[0].reverse();
        }
    }
    cols
}
pub fn refs<T>(cols: &[Vec<T>]) -> Vec<&[T]> {
    cols.iter().map(|c| &c[..]).collect()
}
pub fn point<T: Sc>(cols: &[Vec<T>], i: usize) -> Vec<f64> {
    cols.iter().map(|c| c[i].f()).collect()
}
pub fn axes_of<T: Sc>(p: &Prob<T>) -> Vec<Ax> {
    refmodel::axes(p)
}
pub fn batch_len(r: &mut Rng, max: usize) -> usize {
    match r.below(6) {
        0 => 1,
        1 => r.range(1, 4.min(max)),
        2 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]).min(&max),
        _ => r.range(1, max),
    }
}
