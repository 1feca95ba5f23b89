//! Long-lived interpolator objects behind one interface, so that one object can be reused and shared.
use crate::prob::*;
use crate::sc::Sc;
use interpn::multicubic::{
    MulticubicRectilinear, MulticubicRectilinearRecursive, MulticubicRegular, MulticubicRegularRecursive,
};
use interpn::multilinear::{
    MultilinearRectilinear, MultilinearRectilinearRecursive, MultilinearRegular, MultilinearRegularRecursive,
};
use interpn::nearest::{NearestRectilinear, NearestRegular};
use interpn::one_dim::{Grid1D, Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{Left1D, Linear1D, LinearHoldLast1D, Nearest1D, Right1D};

pub trait Ev<T> {
    fn batch(&self, obs: &[&[T]], out: &mut [T]) -> Res;
    fn one(&self, x: &[T]) -> Result<T, &'static str>;
}
macro_rules! flat_ev {
    ($($s:ident)*) => { $(
        impl<'a, T: Sc, const N: usize> Ev<T> for W<$s<'a, T, N>> where W<$s<'a, T, N>>: FlatOk<T, N> {
            fn batch(&self, obs: &[&[T]], out: &mut [T]) -> Res { self.b(obs.try_into().unwrap(), out) }
            fn one(&self, x: &[T]) -> Result<T, &'static str> { self.o(x.try_into().unwrap()) }
        }
    )* };
}
pub struct W<I>(pub I);
pub trait FlatOk<T, const N: usize> {
    fn b(&self, obs: &[&[T]; N], out: &mut [T]) -> Res;
    fn o(&self, x: [T; N]) -> Result<T, &'static str>;
}
macro_rules! flat_ok {
    ($s:ident, $($n:literal)*) => { $(
        impl<'a, T: Sc> FlatOk<T, $n> for W<$s<'a, T, $n>> {
            fn b(&self, obs: &[&[T]; $n], out: &mut [T]) -> Res { self.0.interp(obs, out) }
            fn o(&self, x: [T; $n]) -> Result<T, &'static str> { self.0.interp_one(x) }
        }
    )* };
}
flat_ok!(MultilinearRegular, 1 2 3 4 5 6);
flat_ok!(MultilinearRectilinear, 1 2 3 4 5 6);
flat_ok!(MulticubicRegular, 1 2 3 4);
flat_ok!(MulticubicRectilinear, 1 2 3 4);
flat_ok!(NearestRegular, 1 2 3 4 5 6);
flat_ok!(NearestRectilinear, 1 2 3 4 5 6);
flat_ev!(MultilinearRegular MultilinearRectilinear MulticubicRegular MulticubicRectilinear NearestRegular NearestRectilinear);
macro_rules! rec_ev {
    ($($s:ident)*) => { $(
        impl<'a, T: Sc, const N: usize> Ev<T> for W<$s<'a, T, N>> {
            fn batch(&self, obs: &[&[T]], out: &mut [T]) -> Res { self.0.interp(obs, out) }
            fn one(&self, x: &[T]) -> Result<T, &'static str> { self.0.interp_one(x) }
        }
    )* };
}
rec_ev!(MultilinearRegularRecursive MultilinearRectilinearRecursive MulticubicRegularRecursive MulticubicRectilinearRecursive);

/// A 1-D interpolator over either grid.
pub struct W1<'a, T: Sc, G: Grid1D<'a, T>, I: Interp1D<'a, T, G>>(pub I, std::marker::PhantomData<(&'a T, G)>);
impl<'a, T: Sc, G: Grid1D<'a, T>, I: Interp1D<'a, T, G>> Ev<T> for W1<'a, T, G, I> {
    fn batch(&self, obs: &[&[T]], out: &mut [T]) -> Res {
        self.0.eval(obs[0], out)
    }
    fn one(&self, x: &[T]) -> Result<T, &'static str> {
        self.0.eval_one(x[0])
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Obj {
    Flat,
    Rec,
    RecMax,
}
pub fn objs(m: Meth, n: usize) -> Vec<Obj> {
    let mut v = vec![];
    if n <= m.max_flat() {
        v.push(Obj::Flat);
    }
    if m != Meth::Nearest {
        if n <= 8 {
            v.push(Obj::Rec);
        }
        v.push(Obj::RecMax);
    }
    v
}
type BoxEv<'a, T> = Result<Box<dyn Ev<T> + 'a>, &'static str>;
macro_rules! bx {
    ($e:expr) => {
        Ok(Box::new(W($e?)))
    };
}
macro_rules! dispatch {
    ($n:expr, [$($k:literal)*], $N:ident => $body:expr) => {
        match $n { $($k => { const $N: usize = $k; $body })* _ => unreachable!() }
    };
}
/// `g` must be `p.gridrefs()`.
pub fn build<'a, T: Sc>(p: &'a Prob<T>, g: &'a [&'a [T]], m: Meth, o: Obj) -> BoxEv<'a, T> {
    let (d, (s, h, v)) = (&p.dims[..], p.parts());
    let n = p.n();
    match (m, p.kind, o) {
        (Meth::Linear, Kind::Reg, Obj::Flat) => dispatch!(n, [1 2 3 4 5 6], N =>
            bx!(MultilinearRegular::<T, N>::new(d.try_into().unwrap(), s.try_into().unwrap(), h.try_into().unwrap(), v))),
        (Meth::Linear, Kind::Rect, Obj::Flat) => dispatch!(n, [1 2 3 4 5 6], N =>
            bx!(MultilinearRectilinear::<T, N>::new(g.try_into().unwrap(), v))),
        (Meth::Cubic(l), Kind::Reg, Obj::Flat) => dispatch!(n, [1 2 3 4], N =>
            bx!(MulticubicRegular::<T, N>::new(d.try_into().unwrap(), s.try_into().unwrap(), h.try_into().unwrap(), v, l))),
        (Meth::Cubic(l), Kind::Rect, Obj::Flat) => dispatch!(n, [1 2 3 4], N =>
            bx!(MulticubicRectilinear::<T, N>::new(g.try_into().unwrap(), v, l))),
        (Meth::Nearest, Kind::Reg, _) => dispatch!(n, [1 2 3 4 5 6], N =>
            bx!(NearestRegular::<T, N>::new(d.try_into().unwrap(), s.try_into().unwrap(), h.try_into().unwrap(), v))),
        (Meth::Nearest, Kind::Rect, _) => dispatch!(n, [1 2 3 4 5 6], N =>
            bx!(NearestRectilinear::<T, N>::new(g.try_into().unwrap(), v))),
        (Meth::Linear, Kind::Reg, Obj::Rec) => dispatch!(n, [1 2 3 4 5 6 7 8], N =>
            bx!(MultilinearRegularRecursive::<T, N>::new(d, s, h, v))),
        (Meth::Linear, Kind::Rect, Obj::Rec) => dispatch!(n, [1 2 3 4 5 6 7 8], N =>
            bx!(MultilinearRectilinearRecursive::<T, N>::new(g, v))),
        (Meth::Cubic(l), Kind::Reg, Obj::Rec) => dispatch!(n, [1 2 3 4 5 6 7 8], N =>
            bx!(MulticubicRegularRecursive::<T, N>::new(d, s, h, v, l))),
        (Meth::Cubic(l), Kind::Rect, Obj::Rec) => dispatch!(n, [1 2 3 4 5 6 7 8], N =>
            bx!(MulticubicRectilinearRecursive::<T, N>::new(g, v, l))),
        (Meth::Linear, Kind::Reg, Obj::RecMax) => bx!(MultilinearRegularRecursive::<T, MAXD>::new(d, s, h, v)),
        (Meth::Linear, Kind::Rect, Obj::RecMax) => bx!(MultilinearRectilinearRecursive::<T, MAXD>::new(g, v)),
        (Meth::Cubic(l), Kind::Reg, Obj::RecMax) => bx!(MulticubicRegularRecursive::<T, MAXD>::new(d, s, h, v, l)),
        (Meth::Cubic(l), Kind::Rect, Obj::RecMax) => bx!(MulticubicRectilinearRecursive::<T, MAXD>::new(g, v, l)),
    }
}
pub fn build1<'a, T: Sc>(p: &'a Prob<T>, m: M1) -> BoxEv<'a, T> {
    use std::marker::PhantomData as Ph;
    macro_rules! go {
        ($g:ident, $gt:ty) => {
            match m {
                M1::Left => Box::new(W1::<'a, T, $gt, Left1D<$gt>>(Left1D::new($g), Ph)) as Box<dyn Ev<T> + 'a>,
                M1::Right => Box::new(W1::<'a, T, $gt, Right1D<$gt>>(Right1D::new($g), Ph)),
                M1::Nearest => Box::new(W1::<'a, T, $gt, Nearest1D<$gt>>(Nearest1D::new($g), Ph)),
                M1::Linear => Box::new(W1::<'a, T, $gt, Linear1D<$gt>>(Linear1D::new($g), Ph)),
                M1::HoldLast => Box::new(W1::<'a, T, $gt, LinearHoldLast1D<$gt>>(LinearHoldLast1D::new($g), Ph)),
            }
        };
    }
    Ok(match p.kind {
        Kind::Reg => {
            let g = RegularGrid1D::new(p.starts[0], p.steps[0], p.parts().2)?;
            go!(g, RegularGrid1D<'a, T>)
        }
        Kind::Rect => {
            let g = RectilinearGrid1D::new(&p.grids[0], p.parts().2)?;
            go!(g, RectilinearGrid1D<'a, T>)
        }
    })
}

/// Which of the crate's types can be shared between threads, decided by the compiler
/// (autoref specialization, so that a type that cannot be shared is reported, not a build failure).
pub struct Probe<X>(std::marker::PhantomData<X>);
pub trait NotShareable {
    fn shareable(&self) -> bool {
        false
    }
}
impl<X> NotShareable for &Probe<X> {}
impl<X: Send + Sync> Probe<X> {
    pub fn shareable(&self) -> bool {
        true
    }
}
pub fn shareable_types() -> Vec<(&'static str, bool)> {
    macro_rules! t {
        ($($x:ty),* $(,)?) => { vec![$((stringify!($x), (&Probe::<$x>(std::marker::PhantomData)).shareable())),*] };
    }
    t![
        MultilinearRegular<'static, f64, 2>, MultilinearRectilinear<'static, f64, 2>,
        MultilinearRegularRecursive<'static, f64, 2>, MultilinearRectilinearRecursive<'static, f64, 2>,
        MulticubicRegular<'static, f64, 2>, MulticubicRectilinear<'static, f64, 2>,
        MulticubicRegularRecursive<'static, f64, 2>, MulticubicRectilinearRecursive<'static, f64, 2>,
        NearestRegular<'static, f64, 2>, NearestRectilinear<'static, f64, 2>,
        RegularGrid1D<'static, f64>, RectilinearGrid1D<'static, f64>,
        Left1D<RegularGrid1D<'static, f64>>, Right1D<RegularGrid1D<'static, f64>>,
        Nearest1D<RegularGrid1D<'static, f64>>, Linear1D<RegularGrid1D<'static, f64>>,
        LinearHoldLast1D<RegularGrid1D<'static, f64>>,
        MultilinearRegular<'static, f32, 3>, MultilinearRectilinear<'static, f32, 3>,
        MulticubicRegular<'static, f32, 3>, MulticubicRectilinear<'static, f32, 3>,
        NearestRegular<'static, f32, 3>, NearestRectilinear<'static, f32, 3>,
        Left1D<RectilinearGrid1D<'static, f32>>, Right1D<RectilinearGrid1D<'static, f32>>,
        Nearest1D<RectilinearGrid1D<'static, f32>>, Linear1D<RectilinearGrid1D<'static, f32>>,
        LinearHoldLast1D<RectilinearGrid1D<'static, f32>>,
    ]
}
