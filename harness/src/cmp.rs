//! C21: every build configuration runs the same deterministic calls and records what it observed; the records
//! are then compared pairwise.
use crate::dd::dd;
use crate::genr::*;
use crate::inter::build1;
use crate::prob::*;
use crate::pure::sprinkle;
use crate::refmodel::{nearest_indices, value, Ax};
use crate::rng::Rng;
use crate::robust::{self, apis, bounds_want, brief, call, mutate, sentinel, Api, Called};
use crate::runner::guarded;
use crate::sc::Sc;
use crate::value::{budget, cap, describe, hold_candidates, pick_n, prob1, unique_vals};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// One observation. `tol`: 0 = must be identical, positive = may differ by so much, NaN = only the status counts.
#[derive(Clone, Copy)]
pub struct Rec {
    status: u64,
    bits: u64,
    tol: f64,
}
fn h<X: Hash>(x: X) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish() | 1
}
pub struct Log {
    /// fingerprint of the inputs, to be sure that both sides were asked the same
    pub input: u64,
    pub recs: Vec<Rec>,
    /// descriptions, only when asked for
    pub labels: Option<Vec<String>>,
}
impl Log {
    fn feed<X: Hash>(&mut self, x: X) {
        self.input = h((self.input, h(x)));
    }
    fn put(&mut self, status: Result<(), &str>, bits: u64, tol: f64, l: impl FnOnce() -> String) {
        let st = match status {
            Ok(()) => 0,
            Err(e) => h(e),
        };
        self.recs.push(Rec { status: st, bits: if st == 0 { bits } else { 0 }, tol });
        if let Some(v) = &mut self.labels {
            v.push(match status {
                Ok(()) => l(),
                Err(e) => format!("{} -> error {e:?}", l()),
            });
        }
    }
}
fn feed_prob<T: Sc>(l: &mut Log, p: &Prob<T>, cols: &[Vec<T>]) {
    let b = |v: &[T]| v.iter().map(|x| x.bits()).collect::<Vec<_>>();
    l.feed((&p.dims, b(&p.starts), b(&p.steps), b(&p.vals)));
    for g in p.grids.iter().chain(cols) {
        l.feed(b(g));
    }
}
fn nan() -> f64 {
    f64::NAN
}
fn evals<T: Sc>(l: &mut Log, r: &mut Rng, thorough: bool) {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, match m { Meth::Linear => 10, Meth::Nearest => 6, _ => 7 });
    let (vc, pc) = budget(m, n, thorough);
    let vc = cap(r, vc, 0.03).max(m.min_size().pow(n as u32));
    let mut p: Prob<T> = gen_prob(r, kind, n, m.min_size(), vc);
    if m == Meth::Nearest {
        p.vals = unique_vals(r, p.size());
    }
    let axs = axes_of(&p);
    let count = batch_len(r, pc);
    let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
    let hostile = r.chance(0.2);
    if hostile {
        sprinkle(r, &mut cols);
    }
    feed_prob(l, &p, &cols);
    let tols: Vec<f64> = (0..count)
        .map(|i| {
            let x = point(&cols, i);
            if x.iter().any(|x| !x.is_finite()) || (0..n).any(|a| !axs[a].resolvable(x[a])) {
                return nan();
            }
            if m == Meth::Nearest {
                return if nearest_indices(&p, &axs, &x).len() == 1 { 0.0 } else { nan() };
            }
            value(&p, &axs, &x, m).map(|v| 2.2 * v.e).unwrap_or(nan())
        })
        .collect();
    let ps: Vec<Path> = paths(m, n).into_iter().filter(|p| !matches!(p, Path::Alloc | Path::RecAlloc)).collect();
    let k0 = r.below(ps.len());
    for (pi, path) in ps.iter().enumerate() {
        if n > 4 && pi != k0 && pi != (k0 + 3) % ps.len() {
            continue;
        }
        let d = |i: usize| format!("{} at {:?}", describe(&p, &format!("{m:?}"), &format!("{path:?}")), point(&cols, i));
        if hostile || matches!(path, Path::One | Path::RecOne) {
            for i in 0..count {
                let x: Vec<T> = cols.iter().map(|c| c[i]).collect();
                match p.one(m, *path, &x) {
                    Ok(v) => l.put(Ok(()), v.bits(), tols[i], || format!("{} -> {v:?}", d(i))),
                    Err(e) => l.put(Err(e), 0, nan(), || d(i)),
                }
            }
        } else {
            let mut out = vec![sentinel::<T>(); count];
            let res = p.eval(m, *path, &refs(&cols), &mut out);
            l.put(res, 0, nan(), || describe(&p, &format!("{m:?}"), &format!("{path:?}")));
            if res.is_ok() {
                for i in 0..count {
                    l.put(Ok(()), out[i].bits(), tols[i], || format!("{} -> {:?}", d(i), out[i]));
                }
            }
        }
    }
}
fn ones<T: Sc>(l: &mut Log, r: &mut Rng) {
    let c = crate::runner::Ctx::new(false, false);
    let (mut p, _) = prob1::<T>(r, &c, 0);
    let count = batch_len(r, 80);
    let uv = unique_vals(r, p.size());
    for m in M1S {
        let mut axs = axes_of(&p);
        let arith = matches!(m, M1::Linear | M1::HoldLast);
        if arith {
            axs[0].lin1d = true;
        } else {
            p.vals = uv.clone();
        }
        let mut cols = gen_obs(r, &p, &axs, count, Where::Any);
        if r.chance(0.1) {
            sprinkle(r, &mut cols);
        }
        feed_prob(l, &p, &cols);
        if m == M1::Left {
            looks(l, &p, &axs[0], &cols[0]);
        }
        let it = match build1(&p, m) {
            Ok(it) => it,
            Err(e) => {
                l.put(Err(e), 0, nan(), || describe(&p, &format!("{m:?}1D"), "new"));
                continue;
            }
        };
        for i in 0..count {
            let x = cols[0][i].f();
            let tol = if !x.is_finite() || !axs[0].resolvable(x) {
                nan()
            } else if arith {
                value(&p, &axs, &[x], Meth::Linear).map(|v| 2.2 * v.e).unwrap_or(nan())
            } else if hold_candidates(&axs[0], m, x).len() == 1 {
                0.0
            } else {
                nan()
            };
            let res = it.one(&[cols[0][i]]);
            l.put(res.map(|_| ()), res.map(|v| v.bits()).unwrap_or(0), tol, || {
                format!("{} at {x:?} -> {res:?}", describe(&p, &format!("{m:?}1D"), "eval_one"))
            });
        }
    }
}
/// What the grid itself reports: cell, side, coordinates and values.
fn looks<T: Sc>(l: &mut Log, p: &Prob<T>, ax: &Ax, xs: &[T]) {
    for &x in xs {
        let xf = x.f();
        let cell = if xf.is_finite() && ax.resolvable(xf) { ax.cell(xf) } else { 0 };
        // decided the same way by every build: a location away from grid points, or one met without rounding
        let sure = xf.is_finite() && ax.resolvable(xf) && (ax.exact_at(xf) || {
            let away = 2.0 * ax.ambiguity(xf, cell) * ax.gap(cell).f() + 8.0 * T::U * (ax.start.abs() + xf.abs());
            [cell, cell + 1].iter().all(|&k| (dd(xf) - ax.x(k)).abs().f() > away || p.kind == Kind::Rect)
        });
        let t = if sure { 0.0 } else { nan() };
        let lab = |what: &str, v: String| format!("{} at {x:?}: {what} {v}", describe(p, "Grid1D", "index/at"));
        match crate::grid1::lookup(p, x) {
            Err(e) => l.put(Err(e), 0, nan(), || lab("new", String::new())),
            Ok((ix, at)) => {
                l.put(ix.map(|_| ()), ix.map(|v| v.0 as u64).unwrap_or(0), t, || lab("index", format!("{ix:?}")));
                l.put(ix.map(|_| ()), ix.map(|v| (v.1 + 1) as u64).unwrap_or(0), t, || lab("side from index", format!("{ix:?}")));
                let v = at.unwrap_or((T::of(0.0), T::of(0.0), T::of(0.0), T::of(0.0), 0));
                l.put(at.map(|_| ()), (v.4 + 1) as u64, t, || lab("side from at", format!("{at:?}")));
                for k in [v.1, v.3] {
                    l.put(at.map(|_| ()), k.bits(), t, || lab("value", format!("{at:?}")));
                }
                let e = if sure { 8.0 * T::U * (ax.start.abs() + v.2.f().abs() + v.0.f().abs() + ax.step.abs()) + 4.0 * T::MINSUB } else { nan() };
                for k in [v.0, v.2] {
                    l.put(at.map(|_| ()), k.bits(), e, || lab("coordinate", format!("{at:?}")));
                }
            }
        }
    }
}
fn bounds<T: Sc>(l: &mut Log, r: &mut Rng) {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let n = r.range(1, 8);
    let p: Prob<T> = gen_prob(r, kind, n, 2, 600.max(1 << n));
    let axs = axes_of(&p);
    let npts = r.range(1, 10);
    let w = if r.flip() { Where::Inside } else { Where::Any };
    let cols = gen_obs(r, &p, &axs, npts, w);
    let at = if r.flip() { 0.0 } else { axs[0].gap(0).f() * r.uni(0.0, 2.0) };
    let atol = T::of(at);
    feed_prob(l, &p, &cols);
    let want = bounds_want(&p, &axs, &cols, atol.f());
    for b in BCS {
        let mut out = vec![false; n];
        let res = p.check_bounds(b, &refs(&cols), atol, &mut out);
        for a in 0..n {
            l.put(res, out[a] as u64, if want[a].is_some() { 0.0 } else { nan() }, || {
                format!("{} axis {a}, tolerance {at:e}, coordinates {:?} -> {}", describe(&p, "check_bounds", &format!("{b:?}")), cols[a], out[a])
            });
        }
    }
}
fn errors<T: Sc>(l: &mut Log, r: &mut Rng) {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Nearest]);
    let n = r.below(10);
    let n = if n > 6 && matches!(m, Meth::Cubic(_)) { n - 5 } else { n };
    let npts = r.below(4);
    let mut a: robust::Args<T> = robust::base(r, kind, n, m.min_size(), npts);
    let k = r.below(12);
    let what = if k < 10 { mutate(r, &mut a, m.min_size(), k) } else { None };
    for api in apis(m, kind) {
        if matches!(api, Api::Alloc | Api::RecAlloc) {
            continue;
        }
        let mut out = vec![sentinel::<T>(); a.out];
        let mut flags = vec![false; n];
        let res = guarded(|| call(m, api, &a, &mut out, &mut flags));
        let lab = || format!("{m:?} {api:?} {:?}: {}", what.as_ref().map(|w| w.0.clone()), brief(&a));
        match res {
            Err((msg, _)) => l.put(Err(&format!("panic: {msg}")), 0, nan(), lab),
            Ok(Called::NotExpressible) => {}
            Ok(Called::Done(x)) => l.put(x, 0, nan(), lab),
        }
    }
}
pub fn case(seed: u64, idx: u64, thorough: bool, labels: bool) -> Log {
    let mut r = Rng::new(seed, 21, idx);
    let r = &mut r;
    let mut l = Log { input: 1, recs: vec![], labels: labels.then(Vec::new) };
    match (idx % 8, idx / 8 % 2) {
        (0..=4, 0) => evals::<f64>(&mut l, r, thorough),
        (0..=4, _) => evals::<f32>(&mut l, r, thorough),
        (5, 0) => ones::<f64>(&mut l, r),
        (5, _) => ones::<f32>(&mut l, r),
        (6, 0) => bounds::<f64>(&mut l, r),
        (6, _) => bounds::<f32>(&mut l, r),
        (_, 0) => errors::<f64>(&mut l, r),
        (_, _) => errors::<f32>(&mut l, r),
    }
    l
}
/// f32 cases are those with idx/8 odd
fn is32(idx: u64) -> bool {
    idx / 8 % 2 == 1
}
pub fn dump(path: &str, seed: u64, first: u64, cases: u64, thorough: bool) {
    let next = AtomicU64::new(0);
    const B: u64 = 64;
    let blocks = cases.div_ceil(B);
    let res: Mutex<Vec<(u64, Vec<u8>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let b = next.fetch_add(1, Ordering::Relaxed);
                if b >= blocks {
                    break;
                }
                let mut buf = vec![];
                for k in b * B..((b + 1) * B).min(cases) {
                    let idx = first + k;
                    let (input, recs) = match guarded(|| case(seed, idx, thorough, false)) {
                        Ok(l) => (l.input, l.recs),
                        // recorded, so that the comparison shows it
                        Err((m, loc)) => (h((&m, &loc)), vec![]),
                    };
                    buf.extend(idx.to_le_bytes());
                    buf.extend(input.to_le_bytes());
                    buf.extend((recs.len() as u64).to_le_bytes());
                    for x in recs {
                        buf.extend(x.status.to_le_bytes());
                        buf.extend(x.bits.to_le_bytes());
                        buf.extend(x.tol.to_bits().to_le_bytes());
                    }
                }
                res.lock().unwrap().push((b, buf));
            });
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort();
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for (_, b) in v {
        f.write_all(&b).unwrap();
    }
    f.flush().unwrap();
}
#[derive(Default)]
pub struct CmpOut {
    pub cases: u64,
    pub records: u64,
    pub identical_required: u64,
    pub within: u64,
    pub within_different_bits: u64,
    pub errors_agree: u64,
    pub status_only: u64,
    pub max_ratio: f64,
    pub diffs: Vec<(u64, u64, String)>,
    pub mismatch: Option<String>,
}
fn val(bits: u64, idx: u64) -> f64 {
    if is32(idx) { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) }
}
pub fn compare(a: &str, b: &str) -> CmpOut {
    let rd = |p: &str| {
        let mut v = vec![];
        std::fs::File::open(p).unwrap().read_to_end(&mut v).unwrap();
        v
    };
    let (a, b) = (rd(a), rd(b));
    let g = |v: &[u8], i: usize| u64::from_le_bytes(v[i..i + 8].try_into().unwrap());
    let (mut i, mut j) = (0, 0);
    let mut o = CmpOut::default();
    while i < a.len() && j < b.len() {
        let (idx, na, nb) = (g(&a, i), g(&a, i + 16) as usize, g(&b, j + 16) as usize);
        o.cases += 1;
        let full = na.min(nb);
        if g(&b, j) != idx || g(&a, i + 8) != g(&b, j + 8) {
            o.mismatch = Some(format!("case {idx}: the inputs differ"));
            return o;
        }
        let mut bad = None;
        for k in 0..full {
            let (x, y) = (i + 24 + 24 * k, j + 24 + 24 * k);
            let (sa, sb, ba, bb, tol) = (g(&a, x), g(&b, y), g(&a, x + 8), g(&b, y + 8), f64::from_bits(g(&a, x + 16)));
            o.records += 1;
            if sa != sb {
                bad = Some(k);
                break;
            }
            if sa != 0 {
                o.errors_agree += 1;
            } else if tol.is_nan() {
                o.status_only += 1;
            } else if tol == 0.0 {
                o.identical_required += 1;
                if ba != bb {
                    bad = Some(k);
                    break;
                }
            } else {
                o.within += 1;
                if ba != bb {
                    o.within_different_bits += 1;
                    let d = (val(ba, idx) - val(bb, idx)).abs();
                    if !(d <= tol) && !(val(ba, idx).is_nan() && val(bb, idx).is_nan()) {
                        bad = Some(k);
                        break;
                    }
                    if d <= tol {
                        o.max_ratio = o.max_ratio.max(d / tol);
                    }
                }
            }
        }
        if bad.is_none() && na != nb {
            bad = Some(full);
        }
        if let Some(k) = bad {
            if o.diffs.len() < 5 {
                o.diffs.push((idx, k as u64, String::new()));
            }
        }
        i += 24 + 24 * na;
        j += 24 + 24 * nb;
    }
    if i != a.len() || j != b.len() {
        o.mismatch = Some("the records have different lengths".into());
    }
    o
}
