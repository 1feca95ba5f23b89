//! Reference model, written from the documentation: per-axis weights in double-double arithmetic,
//! together with a bound on the rounding error any reasonable evaluation of the same formula in
//! the scalar type under test can make. Nothing here follows the structure of the code under test.
use crate::dd::{dd, Dd, ONE, ZERO};
use crate::prob::{Kind, Meth, Prob};
use crate::sc::Sc;

/// rounding slack on weights, in unit roundoffs
const CW: f64 = 24.0;
/// rounding slack on the normalized coordinate, in unit roundoffs
const CT: f64 = 8.0;

#[derive(Clone, Debug)]
pub struct Ax {
    pub kind: Kind,
    pub n: usize,
    pub start: f64,
    pub step: f64,
    pub grid: Vec<f64>,
    /// lattice quantum: all coordinates of the axis are small multiples of it (0 = none)
    pub q: f64,
    pub u: f64,
    /// the lattice may use integers up to this size
    pub qmax: f64,
    /// extra absolute uncertainty of the grid coordinates (used when two grids are compared)
    pub extra: f64,
    /// 1-D linear formula: the spacing is recomputed from rounded coordinates
    pub lin1d: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Cand {
    pub first: usize,
    pub k: usize,
    pub w: [Dd; 4],
    pub a: [f64; 4],
    pub b: [f64; 4],
    /// derivative bound of the weights with respect to the coordinate in grid cells
    pub d: [f64; 4],
    pub t: f64,
    /// what the underflow of a slope is multiplied by
    pub u: f64,
    /// what values are multiplied by in a slope that is formed explicitly; 0: none is
    pub s: f64,
}
#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub v: Dd,
    /// sum of |weight * value|
    pub p: f64,
    /// magnitude of intermediates
    pub q: f64,
    /// error bound
    pub e: f64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Region {
    OutLow,
    First,
    Interior,
    Last,
    OutHigh,
}

pub fn axes<T: Sc>(p: &Prob<T>) -> Vec<Ax> {
    (0..p.n()).map(|a| ax(p, a)).collect()
}
pub fn ax<T: Sc>(p: &Prob<T>, a: usize) -> Ax {
    let grid: Vec<f64> = if p.kind == Kind::Rect {
        p.grids[a].iter().map(|x| x.f()).collect()
    } else {
        vec![]
    };
    let (start, step) = match p.kind {
        Kind::Reg => (p.starts[a].f(), p.steps[a].f()),
        Kind::Rect => (grid[0], 0.0),
    };
    let mut r = Ax {
        kind: p.kind,
        n: p.dims[a],
        start,
        step,
        grid,
        q: 0.0,
        u: T::U,
        qmax: if T::IS32 { 8192.0 } else { 1e12 },
        extra: 0.0,
        lin1d: false,
    };
    if p.exact[a] {
        r.q = r.find_quantum();
    }
    r
}
fn tz_quantum(x: f64) -> f64 {
    // largest power of two dividing x
    if x == 0.0 {
        return f64::INFINITY;
    }
    let b = x.to_bits();
    let m = (b & ((1u64 << 52) - 1)) | (1u64 << 52);
    let e = ((b >> 52) & 0x7ff) as i32 - 1075;
    2f64.powi(e + m.trailing_zeros() as i32)
}
impl Ax {
    fn find_quantum(&self) -> f64 {
        let q = match self.kind {
            Kind::Reg => tz_quantum(self.start).min(tz_quantum(self.step)),
            Kind::Rect => self.grid.iter().fold(f64::INFINITY, |m, &x| m.min(tz_quantum(x))),
        };
        if !q.is_finite() {
            return 0.0;
        }
        let m = self.x(0).abs().max(self.x(self.n - 1).abs());
        // q/64 multiples up to 2*max must be exact in the scalar type; steps must be powers of two
        // on regular axes so that a division by the step is exact too
        let pow2 = self.kind == Kind::Rect || tz_quantum(self.step) == self.step;
        if m / q <= self.qmax && pow2 { q } else { 0.0 }
    }
    pub fn x(&self, i: usize) -> Dd {
        match self.kind {
            Kind::Reg => dd(self.start) + dd(self.step) * (i as f64),
            Kind::Rect => dd(self.grid[i]),
        }
    }
    pub fn gap(&self, i: usize) -> Dd {
        match self.kind {
            Kind::Reg => dd(self.step),
            Kind::Rect => dd(self.grid[i + 1]) - dd(self.grid[i]),
        }
    }
    /// Index arithmetic with this coordinate is exact in the scalar type.
    pub fn exact_at(&self, x: f64) -> bool {
        if self.q == 0.0 || self.extra != 0.0 {
            return false;
        }
        let y = x / self.q * 64.0;
        y == y.trunc() && (x == 0.0 || x.abs() >= self.q / 64.0) && (x / self.q).abs() <= 2.0 * self.qmax
    }
    /// Cell index i in 0..=n-2 with x(i) <= x < x(i+1), clamped to the edge cells.
    pub fn cell(&self, x: f64) -> usize {
        let last = self.n - 2;
        match self.kind {
            Kind::Rect => {
                let k = self.grid.partition_point(|g| *g <= x);
                k.saturating_sub(1).min(last)
            }
            Kind::Reg => {
                let q = ((dd(x) - dd(self.start)) / dd(self.step)).f().floor();
                let mut i = if q <= 0.0 {
                    0
                } else if q >= last as f64 {
                    last
                } else {
                    q as usize
                };
                while i > 0 && dd(x).lt(self.x(i)) {
                    i -= 1;
                }
                while i < last && self.x(i + 1).le(dd(x)) {
                    i += 1;
                }
                i
            }
        }
    }
    pub fn region(&self, x: f64) -> Region {
        if dd(x).lt(self.x(0)) {
            Region::OutLow
        } else if self.x(self.n - 1).lt(dd(x)) {
            Region::OutHigh
        } else {
            let i = self.cell(x);
            if i == 0 {
                Region::First
            } else if i == self.n - 2 {
                Region::Last
            } else {
                Region::Interior
            }
        }
    }
    pub fn outside(&self, x: f64) -> bool {
        matches!(self.region(x), Region::OutLow | Region::OutHigh)
    }
    /// Uncertainty of the normalized coordinate t (relative to grid point i, in cells of width h).
    fn delta(&self, t: f64, i: usize, h: f64, x: f64) -> f64 {
        let mut d = CT * self.u * (1.0 + t.abs());
        if self.kind == Kind::Reg && !self.exact_at(x) {
            d += CT * self.u * (self.start.abs() + self.x(i).abs() + x.abs()) / h;
            if self.lin1d {
                d += CT * self.u * t.abs() * (self.x(i).abs() + h) / h;
            }
        }
        if self.extra != 0.0 {
            d += 4.0 * self.extra / h * (1.0 + t.abs());
        }
        d
    }
    /// How close (in cells) to a grid point or midpoint the coordinate must be to be ambiguous.
    pub fn ambiguity(&self, x: f64, i: usize) -> f64 {
        if self.exact_at(x) {
            return 0.0;
        }
        let h = self.gap(i).f();
        match self.kind {
            // comparisons with stored coordinates are exact
            Kind::Rect => 4.0 * self.extra / h,
            Kind::Reg => self.delta(1.0, i, h, x),
        }
    }
    /// Stored-value candidates of nearest: nominal first.
    pub fn nearest(&self, x: f64) -> Vec<usize> {
        let i = self.cell(x);
        let h = self.gap(i);
        let t = (dd(x) - self.x(i)) / h;
        let half = dd(0.5);
        let nominal = if t.le(half) { i } else { i + 1 };
        let mut v = vec![nominal];
        if self.exact_at(x) {
            return v;
        }
        let d = self.delta(0.5, i, h.f(), x);
        if (t - half).abs() <= d {
            v.push(if nominal == i { i + 1 } else { i });
        }
        v
    }
    /// Usable for a value judgement: the coordinate is resolved well enough to name a cell.
    pub fn resolvable(&self, x: f64) -> bool {
        let i = self.cell(x);
        let h = self.gap(i).f();
        let t = ((dd(x) - self.x(i)) / dd(h)).f();
        if t < -0.5 || t > 1.5 {
            return true;
        }
        self.delta(1.0, i, h, x) < 0.2
    }
    /// Weight candidates for a method; the nominal one first.
    pub fn cands(&self, x: f64, m: Meth) -> Vec<Cand> {
        let i = self.cell(x);
        let h = self.gap(i);
        let t = ((dd(x) - self.x(i)) / h).f();
        let amb = self.ambiguity(x, i).max(match self.kind {
            Kind::Reg => 0.0,
            // exactly at a grid point either cell's formula may be used: same value, other rounding
            Kind::Rect => 8.0 * self.u,
        });
        let out_lo = dd(x).lt(self.x(0));
        let out_hi = self.x(self.n - 1).lt(dd(x));
        let mut v = vec![];
        match m {
            Meth::Linear => {
                v.push(self.lin(x, i));
                if t.abs() <= amb && i > 0 {
                    v.push(self.lin(x, i - 1));
                }
                if (1.0 - t).abs() <= amb && i < self.n - 2 {
                    v.push(self.lin(x, i + 1));
                }
            }
            Meth::Cubic(l) => {
                let out = out_lo || out_hi;
                v.push(self.cub(x, i, l && out));
                if t.abs() <= amb {
                    if i > 0 {
                        v.push(self.cub(x, i - 1, false));
                    } else if l {
                        v.push(self.cub(x, i, !out));
                    }
                }
                if (1.0 - t).abs() <= amb {
                    if i < self.n - 2 {
                        v.push(self.cub(x, i + 1, false));
                    } else if l {
                        v.push(self.cub(x, i, !out));
                    }
                }
            }
            Meth::Nearest => unreachable!(),
        }
        v
    }
    fn lin(&self, x: f64, i: usize) -> Cand {
        let h = self.gap(i);
        let t = (dd(x) - self.x(i)) / h;
        let tf = t.f();
        let ta = tf.abs();
        let de = self.delta(tf, i, h.f(), x);
        let a = [1.0 + ta, ta, 0.0, 0.0];
        let d = [1.0, 1.0, 0.0, 0.0];
        let mut b = [0.0; 4];
        for k in 0..2 {
            b[k] = CW * self.u * a[k] + de * d[k];
        }
        let u = if self.lin1d { self.gap(i).f() * (1.0 + tf.abs()) } else { 0.0 };
        let s = if self.lin1d { 1.0 / self.gap(i).f() } else { 0.0 };
        Cand { first: i, k: 2, w: [ONE - t, t, ZERO, ZERO], a, b, d, t: tf, u, s }
    }
    /// slope at inner node j as coefficients on nodes j-1, j, j+1 (per unit coordinate)
    fn slope(&self, j: usize) -> [Dd; 3] {
        let h0 = self.gap(j - 1);
        let h1 = self.gap(j);
        let s = h0 + h1;
        let cr = h0 / s / h1; // weight of (y[j+1]-y[j])
        let cl = h1 / s / h0; // weight of (y[j]-y[j-1])
        [-cl, cl - cr, cr]
    }
    fn slope_abs(&self, j: usize) -> [f64; 3] {
        let s = self.slope(j);
        // the centre coefficient is a difference
        [s[0].abs(), s[0].abs() + s[2].abs(), s[2].abs()]
    }
    /// magnitudes an evaluation may go through: the two weights of the mean of slopes are fractions of 1,
    /// and one may be computed as 1 minus the other
    fn slope_mag(&self, j: usize) -> [f64; 3] {
        let (g0, g1) = (1.0 / self.gap(j - 1).f(), 1.0 / self.gap(j).f());
        let s = self.slope_abs(j);
        [s[0].max(g0), s[1].max(g0 + g1), s[2].max(g1)]
    }
    /// cubic weights of cell i; linear: straight line from the edge (edge cells only)
    fn cub(&self, x: f64, i: usize, linear: bool) -> Cand {
        let n = self.n;
        let h = self.gap(i);
        let hf = h.f();
        let mut w = [ZERO; 4];
        let mut a = [0.0; 4];
        let mut d = [0.0; 4];
        let (first, t, i_ref);
        if i > 0 && i < n - 2 {
            first = i - 1;
            i_ref = i;
            t = (dd(x) - self.x(i)) / h;
            let ta = t.f().abs();
            let t2 = t * t;
            let t3 = t2 * t;
            let h01 = dd(3.0) * t2 - dd(2.0) * t3;
            let h00 = ONE - h01;
            let h10 = t - dd(2.0) * t2 + t3;
            let h11 = t3 - t2;
            let (m0, m1) = (self.slope(i), self.slope(i + 1));
            let (b0, b1) = (self.slope_abs(i), self.slope_abs(i + 1));
            let (g0, g1) = (self.slope_mag(i), self.slope_mag(i + 1));
            w[1] = h00;
            w[2] = h01;
            let (p1, p2, p3) = (ta, ta * ta, ta * ta * ta);
            let dt = ta + self.delta(t.f(), i, hf, x);
            a[1] += 1.0 + 3.0 * p2 + 2.0 * p3;
            a[2] += 3.0 * p2 + 2.0 * p3;
            d[1] += 6.0 * dt + 6.0 * dt * dt;
            d[2] += 6.0 * dt + 6.0 * dt * dt;
            for k in 0..3 {
                w[k] = w[k] + h10 * h * m0[k];
                w[k + 1] = w[k + 1] + h11 * h * m1[k];
                a[k] += (p1 + 2.0 * p2 + p3) * hf * g0[k];
                a[k + 1] += (p2 + p3) * hf * g1[k];
                d[k] += (1.0 + 4.0 * dt + 3.0 * dt * dt) * hf * b0[k];
                d[k + 1] += (2.0 * dt + 3.0 * dt * dt) * hf * b1[k];
            }
        } else {
            // edge cell: coordinate s runs from the inner grid point (0) to the edge (1)
            let low = i == 0;
            let (inner, edge) = if low { (1, 0) } else { (n - 2, n - 1) };
            first = if low { 0 } else { n - 4 };
            i_ref = inner;
            let s = if low {
                (self.x(inner) - dd(x)) / h
            } else {
                (dd(x) - self.x(inner)) / h
            };
            t = s;
            let m = self.slope(inner);
            let (mb, mg) = (self.slope_abs(inner), self.slope_mag(inner));
            // K0 = +-h*m: slope at the inner point in the direction of the edge
            let sg = if low { -1.0 } else { 1.0 };
            let mut k0 = [ZERO; 4];
            let mut k0a = [0.0; 4];
            let mut k0g = [0.0; 4];
            for k in 0..3 {
                let node = inner - 1 + k;
                k0[node - first] = h * m[k] * sg;
                k0a[node - first] = hf * mb[k];
                k0g[node - first] = hf * mg[k];
            }
            let (ii, ee) = (inner - first, edge - first);
            let sa = s.f().abs();
            let de = sa + self.delta(s.f(), i_ref, hf, x);
            for k in 0..4 {
                let y0 = if k == ii { ONE } else { ZERO };
                let dy = if k == ee {
                    ONE
                } else if k == ii {
                    -ONE
                } else {
                    ZERO
                };
                let dya = dy.abs();
                if linear {
                    // value and slope at the edge: dy + y0, and 2*dy - K0
                    let sl = dy * 2.0 - k0[k];
                    w[k] = y0 + dy + sl * (s - ONE);
                    a[k] = y0.f() + dya + (2.0 * dya + k0g[k]) * (sa + 1.0);
                    d[k] = 2.0 * dya + k0a[k];
                } else {
                    w[k] = y0 + k0[k] * s + (dy - k0[k]) * (s * s);
                    let (ka, kg) = (k0a[k], k0g[k]);
                    let (k1a, k1g) = (2.0 * dya + ka, 2.0 * dya + kg);
                    let (p1, p2, p3) = (sa, sa * sa, sa * sa * sa);
                    a[k] = y0.f()
                        + kg * (p1 + 2.0 * p2 + p3)
                        + k1g * (p2 + p3)
                        + dya * (3.0 * p2 + 2.0 * p3);
                    d[k] = ka * (1.0 + 4.0 * de + 3.0 * de * de)
                        + k1a * (2.0 * de + 3.0 * de * de)
                        + dya * (6.0 * de + 6.0 * de * de);
                }
            }
        }
        let de = self.delta(t.f(), i_ref, hf, x);
        let mut b = [0.0; 4];
        // uncertain coordinates make uncertain spacings, also of the neighbouring cells
        let hmin = (i.max(1) - 1..(i + 2).min(n - 1)).map(|j| self.gap(j).f()).fold(hf, f64::min);
        let rel = CW * self.u + 8.0 * self.extra / hmin;
        for k in 0..4 {
            b[k] = rel * a[k] + de * d[k];
        }
        // a slope multiplies up to the cube of the coordinate, however small the weights it is made of
        let u = 4.0 * (1.0 + t.f().abs()).powi(3);
        Cand { first, k: 4, w, a, b, d, t: t.f(), u, s: 0.0 }
    }
}

pub fn strides(dims: &[usize]) -> Vec<usize> {
    let n = dims.len();
    let mut s = vec![1; n];
    for a in (0..n.saturating_sub(1)).rev() {
        s[a] = s[a + 1] * dims[a + 1];
    }
    s
}
/// Contract the value array with one weight candidate per axis.
pub fn tensor<T: Sc>(vals: &[T], st: &[usize], cs: &[&Cand]) -> Val {
    fn rec<T: Sc>(vals: &[T], st: &[usize], cs: &[&Cand], off: usize) -> Val {
        let c = cs[0];
        let (mut v, mut p, mut q, mut e) = (ZERO, 0.0, 0.0, 0.0);
        for k in 0..c.k {
            if c.a[k] == 0.0 && c.d[k] == 0.0 {
                continue;
            }
            let o = off + (c.first + k) * st[0];
            let r = if cs.len() == 1 {
                let y = vals[o].f();
                Val { v: vals[o].wide(), p: y.abs(), q: y.abs(), e: 0.0 }
            } else {
                rec(vals, &st[1..], &cs[1..], o)
            };
            let wa = c.w[k].abs();
            v = v + c.w[k] * r.v;
            p += wa * r.p;
            q += c.a[k] * r.q;
            e += (wa + c.b[k]) * r.e + c.b[k] * r.p;
        }
        Val { v, p, q, e }
    }
    let mut v = rec(vals, st, cs, 0);
    // underflow anywhere, in whichever order the axes are taken
    v.e += cs.iter().map(|c| 1.0 + c.a[..c.k].iter().sum::<f64>() + c.u).fold(8.0 * T::MINSUB * cs.len() as f64, |e, s| e * s);
    // the 1-D linear types go through the slope itself
    if let [c] = cs {
        if c.s > 0.0 {
            for k in 0..c.k {
                v.q = v.q.max(2.0 * c.s * vals[(c.first + k) * st[0]].f().abs());
            }
        }
    }
    // powers of the cell coordinate must stay in range even where the values they multiply are zero
    for c in cs {
        for k in 0..c.k {
            v.q = v.q.max(c.a[k]);
        }
    }
    v
}

#[derive(Debug, Clone)]
pub enum Verdict {
    /// error / bound
    Ok(f64),
    Skip,
    Bad { want: f64, bound: f64, ratio: f64 },
}
/// Value of the documented interpolant at x, with its rounding bound (the largest over the formulas
/// that may be used at a cell boundary); None if out of the judged range.
pub fn value<T: Sc>(p: &Prob<T>, axs: &[Ax], x: &[f64], m: Meth) -> Option<Val> {
    let all: Vec<Vec<Cand>> = (0..p.n()).map(|a| axs[a].cands(x[a], m)).collect();
    let st = strides(&p.dims);
    let combos: usize = all.iter().map(|c| c.len()).product();
    if combos > 300 {
        return None;
    }
    let mut best: Option<Val> = None;
    for k0 in 0..combos {
        let mut k = k0;
        let sel: Vec<&Cand> = all
            .iter()
            .map(|c| {
                let r = &c[k % c.len()];
                k /= c.len();
                r
            })
            .collect();
        let v = tensor(&p.vals, &st, &sel);
        if !usable::<T>(&v) {
            return None;
        }
        match &mut best {
            None => best = Some(v),
            Some(b) => {
                b.e = b.e.max(v.e);
                b.p = b.p.max(v.p);
                b.q = b.q.max(v.q);
            }
        }
    }
    best
}
pub fn usable<T: Sc>(v: &Val) -> bool {
    v.e.is_finite() && v.q.is_finite() && v.q < T::MAXF / 1e6 && v.v.f().is_finite()
}
/// Judge one linear or cubic result.
pub fn judge<T: Sc>(p: &Prob<T>, axs: &[Ax], x: &[f64], m: Meth, got: T) -> Verdict {
    for a in 0..p.n() {
        if !axs[a].resolvable(x[a]) {
            return Verdict::Skip;
        }
    }
    let n = p.n();
    let all: Vec<Vec<Cand>> = (0..n).map(|a| axs[a].cands(x[a], m)).collect();
    let st = strides(&p.dims);
    let nom: Vec<&Cand> = all.iter().map(|c| &c[0]).collect();
    let v = tensor(&p.vals, &st, &nom);
    if !usable::<T>(&v) {
        return Verdict::Skip;
    }
    let want = v.v.f();
    let got = got.wide();
    let err = (got - v.v).abs();
    let ratio = if v.e > 0.0 { err / v.e } else { 0.0 };
    let mut best = if err <= v.e { ratio } else { f64::INFINITY };
    if best < 0.25 {
        return Verdict::Ok(best);
    }
    // near a cell boundary the neighbouring formula is as good
    let combos: usize = all.iter().map(|c| c.len()).product();
    if combos > 1 {
        if combos > 2000 {
            return Verdict::Skip;
        }
        for mut k in 1..combos {
            let sel: Vec<&Cand> = all
                .iter()
                .map(|c| {
                    let r = &c[k % c.len()];
                    k /= c.len();
                    r
                })
                .collect();
            let v2 = tensor(&p.vals, &st, &sel);
            if !usable::<T>(&v2) {
                return Verdict::Skip;
            }
            let err2 = (got - v2.v).abs();
            if err2 <= v2.e {
                best = best.min(if v2.e > 0.0 { err2 / v2.e } else { 0.0 });
            }
        }
    }
    if best.is_finite() {
        return Verdict::Ok(best);
    }
    Verdict::Bad { want, bound: v.e, ratio: err / v.e }
}
/// All stored-value candidates of nearest-neighbour at x (flat indices), nominal first.
pub fn nearest_indices<T: Sc>(p: &Prob<T>, axs: &[Ax], x: &[f64]) -> Vec<usize> {
    let st = strides(&p.dims);
    let mut v = vec![0usize];
    for a in 0..p.n() {
        let c = axs[a].nearest(x[a]);
        let mut w = vec![];
        for &i in &c {
            for &o in &v {
                w.push(o + i * st[a]);
            }
        }
        v = w;
    }
    v
}

/// Bound on |d result / d x_axis| times the cell width, around x (all formula candidates).
pub fn lipschitz<T: Sc>(p: &Prob<T>, axs: &[Ax], x: &[f64], m: Meth, axis: usize) -> f64 {
    let all: Vec<Vec<Cand>> = (0..p.n()).map(|a| axs[a].cands(x[a], m)).collect();
    let st = strides(&p.dims);
    let combos: usize = all.iter().map(|c| c.len()).product();
    let mut best = 0.0f64;
    for k0 in 0..combos.min(300) {
        let mut k = k0;
        let sel: Vec<Cand> = all
            .iter()
            .enumerate()
            .map(|(a, c)| {
                let mut r = c[k % c.len()];
                k /= c.len();
                if a == axis {
                    for j in 0..4 {
                        r.w[j] = dd(r.d[j]);
                        r.a[j] = r.d[j];
                    }
                }
                r
            })
            .collect();
        let refs: Vec<&Cand> = sel.iter().collect();
        best = best.max(tensor(&p.vals, &st, &refs).p);
    }
    best
}
