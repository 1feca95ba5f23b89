//! An interpolation problem, and every way the crate offers to evaluate it.
use crate::sc::Sc;
use interpn::multicubic::{
    self, MulticubicRectilinear, MulticubicRectilinearRecursive, MulticubicRegular,
    MulticubicRegularRecursive,
};
use interpn::multilinear::{
    self, MultilinearRectilinear, MultilinearRectilinearRecursive, MultilinearRegular,
    MultilinearRegularRecursive,
};
use interpn::nearest::{self, NearestRectilinear, NearestRegular};
use interpn::one_dim::{Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{Left1D, Linear1D, LinearHoldLast1D, Nearest1D, Right1D};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Reg,
    Rect,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Meth {
    Linear,
    /// linearize_extrapolation
    Cubic(bool),
    Nearest,
}
impl Meth {
    pub fn min_size(self) -> usize {
        match self {
            Meth::Cubic(_) => 4,
            _ => 2,
        }
    }
    pub fn max_flat(self) -> usize {
        match self {
            Meth::Cubic(_) => 4,
            _ => 6,
        }
    }
    /// highest dimension count of the convenience functions
    pub fn max_fn(self) -> usize {
        match self {
            Meth::Nearest => 6,
            _ => 8,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Path {
    Fn,
    Alloc,
    Struct,
    One,
    RecFn,
    RecAlloc,
    RecStruct,
    RecMax,
    RecOne,
}
pub const MAXD: usize = 10;

#[derive(Clone, Debug)]
pub struct Prob<T> {
    pub kind: Kind,
    pub dims: Vec<usize>,
    pub starts: Vec<T>,
    pub steps: Vec<T>,
    /// rectilinear coordinates (Rect only)
    pub grids: Vec<Vec<T>>,
    pub vals: Vec<T>,
    /// coordinates and steps are such that index arithmetic is exact in T
    pub exact: Vec<bool>,
    /// equal inputs are the very same memory (equal axes one slice, an axis that continues another the longer one, starts and steps one slice, ...)
    pub share: bool,
}
pub type Res = Result<(), &'static str>;

/// Entry points available for a method in n dimensions.
pub fn paths(m: Meth, n: usize) -> Vec<Path> {
    let mut v = vec![];
    if n >= 1 && n <= m.max_fn() {
        v.push(Path::Fn);
        if cfg!(feature = "std") {
            v.push(Path::Alloc);
        }
    }
    if n >= 1 && n <= m.max_flat() {
        v.push(Path::Struct);
        v.push(Path::One);
    }
    if m != Meth::Nearest {
        if n <= 8 {
            v.push(Path::RecFn);
            if cfg!(feature = "std") {
                v.push(Path::RecAlloc);
            }
            v.push(Path::RecStruct);
        }
        v.push(Path::RecMax);
        v.push(Path::RecOne);
    }
    v
}
pub fn is_rec(p: Path) -> bool {
    matches!(p, Path::RecFn | Path::RecAlloc | Path::RecStruct | Path::RecMax | Path::RecOne)
}

/// Declared for more dimensions than used (up to 16).
macro_rules! rec_max {
    ($n:expr, $N:ident => $body:expr) => {
        if $n <= MAXD {
            const $N: usize = MAXD;
            $body
        } else {
            const $N: usize = 16;
            $body
        }
    };
}
macro_rules! with_n {
    ($n:expr, [$($k:literal)*], $N:ident => $body:expr) => {
        match $n {
            $($k => { const $N: usize = $k; $body })*
            _ => unreachable!("harness: dimension {} not dispatched", $n),
        }
    };
}
#[cfg(feature = "std")]
fn copy_back<T: Copy>(v: Result<Vec<T>, &'static str>, out: &mut [T]) -> Res {
    let v = v?;
    if v.len() != out.len() {
        return Err("harness: allocated output has the wrong length");
    }
    out.copy_from_slice(&v);
    Ok(())
}
#[cfg(not(feature = "std"))]
macro_rules! alloc_call {
    ($e:expr, $out:expr) => {
        unreachable!()
    };
}
#[cfg(feature = "std")]
macro_rules! alloc_call {
    ($e:expr, $out:expr) => {
        copy_back($e, $out)
    };
}
fn col<T: Sc, const N: usize>(obs: &[&[T]], i: usize) -> [T; N] {
    std::array::from_fn(|j| obs[j][i])
}

pub fn same_bits<T: Sc>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits())
}
impl<T: Sc> Prob<T> {
    pub fn n(&self) -> usize {
        self.dims.len()
    }
    pub fn size(&self) -> usize {
        self.dims.iter().product()
    }
    /// Coordinate of a grid point as a user would compute it.
    pub fn coord(&self, ax: usize, i: usize) -> T {
        match self.kind {
            Kind::Reg => T::of((self.starts[ax] + self.steps[ax] * T::of(i as f64)).f()),
            Kind::Rect => self.grids[ax][i],
        }
    }
    pub fn gridrefs(&self) -> Vec<&[T]> {
        self.grids
            .iter()
            .map(|g| match self.grids.iter().filter(|h| self.share && h.len() >= g.len() && same_bits(g, &h[..g.len()])).max_by_key(|h| h.len()) {
                Some(h) => &h[..g.len()],
                None => &g[..],
            })
            .collect()
    }
    /// starts, steps, values
    pub fn parts(&self) -> (&[T], &[T], &[T]) {
        if !self.share {
            // (this runs where memory is being counted)
            return (&self.starts, &self.steps, &self.vals);
        }
        let pick = |x: &'_ [T], of: &[&'_ Vec<T>]| of.iter().position(|y| self.share && same_bits(x, y));
        let s = if pick(&self.starts, &[&self.steps]).is_some() { &self.steps } else { &self.starts };
        let mut cand: Vec<&Vec<T>> = vec![s, &self.steps];
        cand.extend(self.grids.iter());
        let v = match pick(&self.vals, &cand) { Some(i) => cand[i], None => &self.vals };
        (s, &self.steps, v)
    }
    pub fn flat_index(&self, loc: &[usize]) -> usize {
        let mut i = 0;
        for a in 0..self.n() {
            i = i * self.dims[a] + loc[a];
        }
        i
    }
    pub fn unflat(&self, mut i: usize) -> Vec<usize> {
        let mut l = vec![0; self.n()];
        for a in (0..self.n()).rev() {
            l[a] = i % self.dims[a];
            i /= self.dims[a];
        }
        l
    }

    pub fn eval(&self, m: Meth, path: Path, obs: &[&[T]], out: &mut [T]) -> Res {
        match (m, self.kind) {
            (Meth::Linear, Kind::Reg) => self.lin_reg(path, obs, out),
            (Meth::Linear, Kind::Rect) => self.lin_rect(path, obs, out),
            (Meth::Cubic(l), Kind::Reg) => self.cub_reg(l, path, obs, out),
            (Meth::Cubic(l), Kind::Rect) => self.cub_rect(l, path, obs, out),
            (Meth::Nearest, Kind::Reg) => self.near_reg(path, obs, out),
            (Meth::Nearest, Kind::Rect) => self.near_rect(path, obs, out),
        }
    }
    #[inline(never)]
    fn lin_reg(&self, path: Path, obs: &[&[T]], out: &mut [T]) -> Res {
        let (d, (s, h, v)) = (&self.dims[..], self.parts());
        match path {
            Path::Fn => multilinear::regular::interpn(d, s, h, v, obs, out),
            Path::Alloc => alloc_call!(multilinear::regular::interpn_alloc(d, s, h, v, obs), out),
            Path::RecFn => multilinear::regular_recursive::interpn(d, s, h, v, obs, out),
            Path::RecAlloc => {
                alloc_call!(multilinear::regular_recursive::interpn_alloc(d, s, h, v, obs), out)
            }
            Path::Struct | Path::One => with_n!(d.len(), [1 2 3 4 5 6], N => {
                let it = MultilinearRegular::<T, N>::new(
                    d.try_into().unwrap(), s.try_into().unwrap(), h.try_into().unwrap(), v)?;
                if path == Path::Struct { it.interp(obs.try_into().unwrap(), out) } else {
                    for i in 0..out.len() { out[i] = it.interp_one(col::<T, N>(obs, i))?; }
                    Ok(())
                }
            }),
            Path::RecStruct => with_n!(d.len(), [1 2 3 4 5 6 7 8], N => {
                MultilinearRegularRecursive::<T, N>::new(d, s, h, v)?.interp(obs, out)
            }),
            Path::RecMax => rec_max!(d.len(), N => MultilinearRegularRecursive::<T, N>::new(d, s, h, v)?.interp(obs, out)),
            Path::RecOne => rec_max!(d.len(), N => {
                let it = MultilinearRegularRecursive::<T, N>::new(d, s, h, v)?;
                for i in 0..out.len() {
                    let x: Vec<T> = obs.iter().map(|o| o[i]).collect();
                    out[i] = it.interp_one(&x)?;
                }
                Ok(())
            }),
        }
    }
    #[inline(never)]
    fn lin_rect(&self, path: Path, obs: &[&[T]], out: &mut [T]) -> Res {
        let g = self.gridrefs();
        let (g, v) = (&g[..], self.parts().2);
        match path {
            Path::Fn => multilinear::rectilinear::interpn(g, v, obs, out),
            Path::Alloc => alloc_call!(multilinear::rectilinear::interpn_alloc(g, v, obs), out),
            Path::RecFn => multilinear::rectilinear_recursive::interpn(g, v, obs, out),
            Path::RecAlloc => {
                alloc_call!(multilinear::rectilinear_recursive::interpn_alloc(g, v, obs), out)
            }
            Path::Struct | Path::One => with_n!(g.len(), [1 2 3 4 5 6], N => {
                let it = MultilinearRectilinear::<T, N>::new(g.try_into().unwrap(), v)?;
                if path == Path::Struct { it.interp(obs.try_into().unwrap(), out) } else {
                    for i in 0..out.len() { out[i] = it.interp_one(col::<T, N>(obs, i))?; }
                    Ok(())
                }
            }),
            Path::RecStruct => with_n!(g.len(), [1 2 3 4 5 6 7 8], N => {
                MultilinearRectilinearRecursive::<T, N>::new(g, v)?.interp(obs, out)
            }),
            Path::RecMax => rec_max!(g.len(), N => MultilinearRectilinearRecursive::<T, N>::new(g, v)?.interp(obs, out)),
            Path::RecOne => rec_max!(g.len(), N => {
                let it = MultilinearRectilinearRecursive::<T, N>::new(g, v)?;
                for i in 0..out.len() {
                    let x: Vec<T> = obs.iter().map(|o| o[i]).collect();
                    out[i] = it.interp_one(&x)?;
                }
                Ok(())
            }),
        }
    }
    #[inline(never)]
    fn cub_reg(&self, l: bool, path: Path, obs: &[&[T]], out: &mut [T]) -> Res {
        let (d, (s, h, v)) = (&self.dims[..], self.parts());
        match path {
            Path::Fn => multicubic::regular::interpn(d, s, h, v, l, obs, out),
            Path::Alloc => alloc_call!(multicubic::regular::interpn_alloc(d, s, h, v, l, obs), out),
            Path::RecFn => multicubic::regular_recursive::interpn(d, s, h, v, l, obs, out),
            Path::RecAlloc => {
                alloc_call!(multicubic::regular_recursive::interpn_alloc(d, s, h, v, l, obs), out)
            }
            Path::Struct | Path::One => with_n!(d.len(), [1 2 3 4], N => {
                let it = MulticubicRegular::<T, N>::new(
                    d.try_into().unwrap(), s.try_into().unwrap(), h.try_into().unwrap(), v, l)?;
                if path == Path::Struct { it.interp(obs.try_into().unwrap(), out) } else {
                    for i in 0..out.len() { out[i] = it.interp_one(col::<T, N>(obs, i))?; }
                    Ok(())
                }
            }),
            Path::RecStruct => with_n!(d.len(), [1 2 3 4 5 6 7 8], N => {
                MulticubicRegularRecursive::<T, N>::new(d, s, h, v, l)?.interp(obs, out)
            }),
            Path::RecMax => rec_max!(d.len(), N => MulticubicRegularRecursive::<T, N>::new(d, s, h, v, l)?.interp(obs, out)),
            Path::RecOne => rec_max!(d.len(), N => {
                let it = MulticubicRegularRecursive::<T, N>::new(d, s, h, v, l)?;
                for i in 0..out.len() {
                    let x: Vec<T> = obs.iter().map(|o| o[i]).collect();
                    out[i] = it.interp_one(&x)?;
                }
                Ok(())
            }),
        }
    }
    #[inline(never)]
    fn cub_rect(&self, l: bool, path: Path, obs: &[&[T]], out: &mut [T]) -> Res {
        let g = self.gridrefs();
        let (g, v) = (&g[..], self.parts().2);
        match path {
            Path::Fn => multicubic::rectilinear::interpn(g, v, l, obs, out),
            Path::Alloc => alloc_call!(multicubic::rectilinear::interpn_alloc(g, v, l, obs), out),
            Path::RecFn => multicubic::rectilinear_recursive::interpn(g, v, l, obs, out),
            Path::RecAlloc => {
                alloc_call!(multicubic::rectilinear_recursive::interpn_alloc(g, v, l, obs), out)
            }
            Path::Struct | Path::One => with_n!(g.len(), [1 2 3 4], N => {
                let it = MulticubicRectilinear::<T, N>::new(g.try_into().unwrap(), v, l)?;
                if path == Path::Struct { it.interp(obs.try_into().unwrap(), out) } else {
                    for i in 0..out.len() { out[i] = it.interp_one(col::<T, N>(obs, i))?; }
                    Ok(())
                }
            }),
            Path::RecStruct => with_n!(g.len(), [1 2 3 4 5 6 7 8], N => {
                MulticubicRectilinearRecursive::<T, N>::new(g, v, l)?.interp(obs, out)
            }),
            Path::RecMax => rec_max!(g.len(), N => MulticubicRectilinearRecursive::<T, N>::new(g, v, l)?.interp(obs, out)),
            Path::RecOne => rec_max!(g.len(), N => {
                let it = MulticubicRectilinearRecursive::<T, N>::new(g, v, l)?;
                for i in 0..out.len() {
                    let x: Vec<T> = obs.iter().map(|o| o[i]).collect();
                    out[i] = it.interp_one(&x)?;
                }
                Ok(())
            }),
        }
    }
    #[inline(never)]
    fn near_reg(&self, path: Path, obs: &[&[T]], out: &mut [T]) -> Res {
        let (d, (s, h, v)) = (&self.dims[..], self.parts());
        match path {
            Path::Fn => nearest::regular::interpn(d, s, h, v, obs, out),
            Path::Alloc => alloc_call!(nearest::regular::interpn_alloc(d, s, h, v, obs), out),
            Path::Struct | Path::One => with_n!(d.len(), [1 2 3 4 5 6], N => {
                let it = NearestRegular::<T, N>::new(
                    d.try_into().unwrap(), s.try_into().unwrap(), h.try_into().unwrap(), v)?;
                if path == Path::Struct { it.interp(obs.try_into().unwrap(), out) } else {
                    for i in 0..out.len() { out[i] = it.interp_one(col::<T, N>(obs, i))?; }
                    Ok(())
                }
            }),
            _ => unreachable!(),
        }
    }
    #[inline(never)]
    fn near_rect(&self, path: Path, obs: &[&[T]], out: &mut [T]) -> Res {
        let g = self.gridrefs();
        let (g, v) = (&g[..], self.parts().2);
        match path {
            Path::Fn => nearest::rectilinear::interpn(g, v, obs, out),
            Path::Alloc => alloc_call!(nearest::rectilinear::interpn_alloc(g, v, obs), out),
            Path::Struct | Path::One => with_n!(g.len(), [1 2 3 4 5 6], N => {
                let it = NearestRectilinear::<T, N>::new(g.try_into().unwrap(), v)?;
                if path == Path::Struct { it.interp(obs.try_into().unwrap(), out) } else {
                    for i in 0..out.len() { out[i] = it.interp_one(col::<T, N>(obs, i))?; }
                    Ok(())
                }
            }),
            _ => unreachable!(),
        }
    }
    /// One evaluation at one point, through the single-point method (or the function where there is none).
    pub fn one(&self, m: Meth, path: Path, x: &[T]) -> Result<T, &'static str> {
        let obs: Vec<&[T]> = x.iter().map(std::slice::from_ref).collect();
        let mut out = [T::of(-12345.0)];
        self.eval(m, path, &obs, &mut out)?;
        Ok(out[0])
    }
}

/// The one-dimensional family.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum M1 {
    Left,
    Right,
    Nearest,
    Linear,
    HoldLast,
}
pub const M1S: [M1; 5] = [M1::Left, M1::Right, M1::Nearest, M1::Linear, M1::HoldLast];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum P1 {
    One,
    Eval,
    Alloc,
}
pub fn paths1() -> &'static [P1] {
    if cfg!(feature = "std") { &[P1::One, P1::Eval, P1::Alloc] } else { &[P1::One, P1::Eval] }
}
fn run1<'a, T: Sc, G: interpn::one_dim::Grid1D<'a, T>, I: Interp1D<'a, T, G>>(
    it: I,
    p: P1,
    x: &[T],
    out: &mut [T],
) -> Res {
    match p {
        P1::One => {
            for i in 0..out.len() {
                out[i] = it.eval_one(x[i])?;
            }
            Ok(())
        }
        P1::Eval => it.eval(x, out),
        P1::Alloc => alloc_call!(it.eval_alloc(x), out),
    }
}
impl<T: Sc> Prob<T> {
    #[inline(never)]
    pub fn eval1(&self, m: M1, p: P1, x: &[T], out: &mut [T]) -> Res {
        let (_, _, vals) = self.parts();
        match self.kind {
            Kind::Reg => {
                let g = RegularGrid1D::new(self.starts[0], self.steps[0], vals)?;
                match m {
                    M1::Left => run1(Left1D::new(g), p, x, out),
                    M1::Right => run1(Right1D::new(g), p, x, out),
                    M1::Nearest => run1(Nearest1D::new(g), p, x, out),
                    M1::Linear => run1(Linear1D::new(g), p, x, out),
                    M1::HoldLast => run1(LinearHoldLast1D::new(g), p, x, out),
                }
            }
            Kind::Rect => {
                let g = RectilinearGrid1D::new(&self.grids[0], vals)?;
                match m {
                    M1::Left => run1(Left1D::new(g), p, x, out),
                    M1::Right => run1(Right1D::new(g), p, x, out),
                    M1::Nearest => run1(Nearest1D::new(g), p, x, out),
                    M1::Linear => run1(Linear1D::new(g), p, x, out),
                    M1::HoldLast => run1(LinearHoldLast1D::new(g), p, x, out),
                }
            }
        }
    }
}

/// All bounds-check functions of the crate.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum BC {
    Linear,
    LinearRec,
    Cubic,
    CubicRec,
    Nearest,
}
pub const BCS: [BC; 5] = [BC::Linear, BC::LinearRec, BC::Cubic, BC::CubicRec, BC::Nearest];
pub fn check_bounds_reg<T: Sc>(
    b: BC,
    d: &[usize],
    s: &[T],
    h: &[T],
    obs: &[&[T]],
    atol: T,
    out: &mut [bool],
) -> Res {
    match b {
        BC::Linear => multilinear::regular::check_bounds(d, s, h, obs, atol, out),
        BC::LinearRec => multilinear::regular_recursive::check_bounds(d, s, h, obs, atol, out),
        BC::Cubic => multicubic::regular::check_bounds(d, s, h, obs, atol, out),
        BC::CubicRec => multicubic::regular_recursive::check_bounds(d, s, h, obs, atol, out),
        BC::Nearest => nearest::regular::check_bounds(d, s, h, obs, atol, out),
    }
}
pub fn check_bounds_rect<T: Sc>(
    b: BC,
    g: &[&[T]],
    obs: &[&[T]],
    atol: T,
    out: &mut [bool],
) -> Res {
    match b {
        BC::Linear => multilinear::rectilinear::check_bounds(g, obs, atol, out),
        BC::LinearRec => multilinear::rectilinear_recursive::check_bounds(g, obs, atol, out),
        BC::Cubic => multicubic::rectilinear::check_bounds(g, obs, atol, out),
        BC::CubicRec => multicubic::rectilinear_recursive::check_bounds(g, obs, atol, out),
        BC::Nearest => nearest::rectilinear::check_bounds(g, obs, atol, out),
    }
}
impl<T: Sc> Prob<T> {
    pub fn check_bounds(&self, b: BC, obs: &[&[T]], atol: T, out: &mut [bool]) -> Res {
        match self.kind {
            Kind::Reg => check_bounds_reg(b, &self.dims, &self.starts, &self.steps, obs, atol, out),
            Kind::Rect => check_bounds_rect(b, &self.gridrefs(), obs, atol, out),
        }
    }
}
