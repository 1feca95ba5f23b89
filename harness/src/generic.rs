//! C31: the crate is generic over the number type; types of the caller's own get full accuracy of their own.
use crate::genr::*;
use crate::prob::*;
use crate::rng::Rng;
use crate::runner::Ctx;
use crate::sc::Sc;
use crate::value::{arr, budget, c04_case, c05_case, c06_case, cap, describe, pick_n, prob1, value_case};
use crate::wide::{Tag, Wide};

fn conv<T: Sc>(p: &Prob<f64>) -> Prob<T> {
    let v = |x: &Vec<f64>| x.iter().map(|&x| T::of(x)).collect::<Vec<T>>();
    Prob { kind: p.kind, dims: p.dims.clone(), starts: v(&p.starts), steps: v(&p.steps), grids: p.grids.iter().map(v).collect(), vals: v(&p.vals), exact: p.exact.clone(), share: p.share }
}
/// f64 and a type that only wraps it must behave alike to the last bit, special numbers included.
fn tag_case(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let hostile = |r: &mut Rng, cols: &mut Vec<Vec<f64>>, vals: &mut Vec<f64>| {
        if r.chance(0.2) {
            for col in cols.iter_mut() {
                for x in col.iter_mut() {
                    if r.chance(0.1) {
                        *x = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e19, -0.0, 5e-324]);
                    }
                }
            }
        }
        if r.chance(0.1) {
            for v in vals.iter_mut() {
                if r.chance(0.1) {
                    *v = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -0.0, 5e-324]);
                }
            }
        }
    };
    let equal = |a: &[f64], b: &[Tag]| a.iter().zip(b).all(|(x, y)| x.to_bits() == y.0.to_bits() || (x.is_nan() && y.0.is_nan()));
    if r.chance(0.25) {
        let (mut p, kind) = prob1::<f64>(r, c, 0);
        let axs = axes_of(&p);
        let count = batch_len(r, 60);
        let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
        hostile(r, &mut cols, &mut p.vals);
        let q: Prob<Tag> = conv(&p);
        let tx: Vec<Tag> = cols[0].iter().map(|&x| Tag::of(x)).collect();
        for m in M1S {
            let path = *r.pick(paths1());
            let (mut a, mut b) = (vec![-7.5; count], vec![Tag::of(-7.5); count]);
            let (ra, rb) = (p.eval1(m, path, &cols[0], &mut a), q.eval1(m, path, &tx, &mut b));
            c.evals += count as u64;
            if ra != rb || !equal(&a, &b) {
                return Err(format!("f64 gives {ra:?} {}, a type wrapping f64 gives {rb:?} {} at {}: {}", arr(&a, 6), arr(&b, 6), arr(&cols[0], 6), describe(&p, &format!("{m:?}1D"), &format!("{path:?}"))));
            }
            c.sig(("tag", kind, m, path, ra.is_err(), p.dims[0].min(12)));
        }
        c.count("wrapped_compared", 5 * count as u64);
        return Ok(());
    }
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, if m == Meth::Nearest { 6 } else { 8 });
    let (vc, pc) = budget(m, n, false);
    let vc = cap(r, vc, 0.02).max(m.min_size().pow(n as u32));
    let mut p: Prob<f64> = gen_prob(r, kind, n, m.min_size(), vc);
    let axs = axes_of(&p);
    let count = batch_len(r, pc.min(24));
    let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
    hostile(r, &mut cols, &mut p.vals);
    let q: Prob<Tag> = conv(&p);
    let tcols: Vec<Vec<Tag>> = cols.iter().map(|c| c.iter().map(|&x| Tag::of(x)).collect()).collect();
    let path = *r.pick(&paths(m, n));
    let (mut a, mut b) = (vec![-7.5; count], vec![Tag::of(-7.5); count]);
    let (ra, rb) = (p.eval(m, path, &refs(&cols), &mut a), q.eval(m, path, &refs(&tcols), &mut b));
    c.evals += count as u64;
    if ra != rb || !equal(&a, &b) {
        return Err(format!("f64 gives {ra:?} {}, a type wrapping f64 gives {rb:?} {} for points starting {:?}: {}", arr(&a, 6), arr(&b, 6), point(&cols, 0), describe(&p, &format!("{m:?}"), &format!("{path:?}"))));
    }
    let bc = *r.pick(&BCS);
    let atol = *r.pick(&[0.0, 1e-8, 0.3]);
    let (mut fa, mut fb) = (vec![false; n], vec![true; n]);
    let (ra, rb) = (p.check_bounds(bc, &refs(&cols), atol, &mut fa), q.check_bounds(bc, &refs(&tcols), Tag::of(atol), &mut fb));
    if ra != rb || fa != fb {
        return Err(format!("bounds of f64: {ra:?} {fa:?}, of a type wrapping f64: {rb:?} {fb:?}: {}", describe(&p, "check_bounds", &format!("{bc:?}"))));
    }
    c.count("wrapped_compared", count as u64);
    c.sig(("tag", kind, m, path, ra.is_err(), p.dims.iter().map(|d| (*d).min(6)).collect::<Vec<_>>()));
    Ok(())
}
pub fn c31(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx % 4 == 3 {
        return tag_case(c, r);
    }
    ORDINARY_UNITS.set(true);
    let l = r.flip();
    let res = match r.below(12) {
        0 | 1 | 2 => value_case::<Wide>(c, r, Meth::Linear, Where::Any, 10, 0),
        3 | 4 => value_case::<Wide>(c, r, Meth::Cubic(l), Where::Inside, 8, 0),
        5 | 6 => value_case::<Wide>(c, r, Meth::Cubic(l), Where::Outside, 8, 0),
        7 => c04_case::<Wide>(c, r, 0),
        8 => c05_case::<Wide>(c, r, 0),
        9 => c06_case::<Wide>(c, r, 0),
        10 => crate::robust::c20_case::<Wide>(c, r),
        _ => crate::robust::c22_case::<Wide>(c, r),
    };
    ORDINARY_UNITS.set(false);
    res
}
