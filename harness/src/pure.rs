//! C14, C15: evaluation is a pure function of the point; sharing between threads changes nothing.
use crate::genr::*;
use crate::inter::*;
use crate::prob::*;
use crate::rng::Rng;
use crate::runner::Ctx;
use crate::sc::{same, Sc};
use crate::value::{budget, cap, describe, pick_n};

pub fn sprinkle<T: Sc>(r: &mut Rng, cols: &mut [Vec<T>]) {
    let n = cols.len();
    let len = cols[0].len();
    if n == 1 && r.flip() {
        // runs in order, with something between them that compares with nothing
        let mut k = 0;
        while k < len {
            let m = r.range(1, len.max(2));
            let e = (k + m).min(len);
            cols[0][k..e].sort_by(|a, b| a.partial_cmp(b).unwrap());
            if e < len {
                cols[0][e] = T::of(f64::NAN);
            }
            k = e + 1;
        }
        return;
    }
    for _ in 0..r.range(1, 3) {
        let x = *r.pick(&[T::of(f64::NAN), T::of(f64::INFINITY), T::of(f64::NEG_INFINITY), T::of(1e30), T::of(-1e30), T::of(0.0), T::of(-0.0)]);
        cols[r.below(n)][r.below(len)] = x;
    }
}
fn same_res<T: Sc>(a: &Result<T, &'static str>, b: &Result<T, &'static str>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => same(*x, *y),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
/// Compare a batch with the results of the points one by one.
fn batch_matches<T: Sc>(res: Res, out: &[T], want: &[Result<T, &'static str>]) -> Result<(), String> {
    match res {
        Ok(()) => {
            for (i, w) in want.iter().enumerate() {
                match w {
                    Ok(w) if same(*w, out[i]) => {}
                    Ok(w) => return Err(format!("point {i} of {}: {:?} in the batch, {w:?} alone", want.len(), out[i])),
                    Err(e) => return Err(format!("point {i} of {} is refused alone ({e}) but the batch succeeds with {:?}", want.len(), out[i])),
                }
            }
            Ok(())
        }
        Err(e) => {
            if want.iter().all(|w| w.is_ok()) {
                Err(format!("batch of {} refused ({e}) although every point alone is accepted", want.len()))
            } else {
                Ok(())
            }
        }
    }
}
fn canary<T: Sc>() -> T {
    T::of(-7.0e17)
}
/// out slice inside guard zones; f writes the slice.
fn with_guard<T: Sc>(len: usize, f: impl FnOnce(&mut [T]) -> Res) -> (Res, Vec<T>, bool) {
    const G: usize = 8;
    let mut buf = vec![canary::<T>(); len + 2 * G];
    let r = f(&mut buf[G..G + len]);
    let ok = buf[..G].iter().chain(buf[G + len..].iter()).all(|x| x.bits() == canary::<T>().bits());
    (r, buf[G..G + len].to_vec(), ok)
}
fn sel<T: Copy>(cols: &[Vec<T>], idx: &[usize]) -> Vec<Vec<T>> {
    cols.iter().map(|c| idx.iter().map(|&i| c[i]).collect()).collect()
}
fn pick_batch(r: &mut Rng, len: usize) -> Vec<usize> {
    match r.below(6) {
        0 => (0..len).collect(),
        1 => {
            let mut v: Vec<usize> = (0..len).collect();
            r.shuffle(&mut v);
            v
        }
        2 => {
            let a = r.below(len);
            let b = r.range(a, len - 1);
            (a..=b).collect()
        }
        3 => vec![r.below(len); r.range(1, 20)],
        4 => (0..len).rev().collect(),
        _ => {
            let k = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257]);
            let k = if r.chance(0.004) { *r.pick(&[511usize, 1000, 1023, 1024, 1025, 2049, 4096, 4097, 10_000, 65_537]) } else { k };
            (0..k).map(|_| r.below(len)).collect()
        }
    }
}
/// Other data in the same memory: everything, or just one value and some inner grid points.
fn change_in_place<T: Sc>(r: &mut Rng, p: &mut Prob<T>, kind: Kind) {
    if r.flip() {
        let v2 = gen_vals::<T>(r, p.vals.len());
        p.vals.copy_from_slice(&v2);
        if kind == Kind::Rect && r.flip() {
            for g in p.grids.iter_mut() {
                for x in g.iter_mut() {
                    *x = *x * T::of(0.5);
                }
            }
        }
    } else {
        let j = r.below(p.vals.len());
        p.vals[j] = gen_vals::<T>(r, 1)[0];
        if kind == Kind::Rect {
            for g in p.grids.iter_mut() {
                if g.len() > 2 {
                    let i = r.range(1, g.len() - 2);
                    let x = g[i - 1] + (g[i + 1] - g[i - 1]) * T::of(r.uni(0.2, 0.8));
                    if x > g[i - 1] && x < g[i + 1] {
                        g[i] = x;
                    }
                }
            }
        }
    }
}
fn c14_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = pick_n(r, match m { Meth::Linear => 8, Meth::Nearest => 6, _ => 6 });
    let (vc, pc) = budget(m, n, c.thorough);
    let vc = cap(r, vc.min(10_000), 0.05).max(m.min_size().pow(n as u32));
    let mut p: Prob<T> = gen_prob(r, kind, n, m.min_size(), vc);
    let axs = axes_of(&p);
    let big = n <= 3 && r.chance(0.03);
    let len = if big { r.range(200, 3000) } else { r.range(1, pc.max(2)) };
    let mut cols = gen_obs(r, &p, &axs, len, Where::Any);
    let hostile = r.chance(0.15);
    if hostile {
        sprinkle(r, &mut cols);
    }
    let k0 = r.below(3);
    for round in 0..2 {
        {
            let g = p.gridrefs();
            // the same data elsewhere in memory: what the reference is built from, so that nothing
            // remembered about the memory itself can reach it
            let q = p.clone();
            let qg = q.gridrefs();
            let d = |what: &str| describe(&p, &format!("{m:?}"), what);
            for (oi, o) in objs(m, n).into_iter().enumerate() {
                if n > 4 && oi != k0 % objs(m, n).len() {
                    continue;
                }
                // every point alone, each on a fresh object: the reference for this implementation
                let fresh = |i: usize| -> Result<T, &'static str> {
                    let x: Vec<T> = cols.iter().map(|c| c[i]).collect();
                    build(&q, &qg, m, o)?.one(&x)
                };
                let want: Vec<Result<T, &'static str>> = (0..len).map(fresh).collect();
                let it = build(&p, &g, m, o).map_err(|e| format!("valid construction refused: {e}: {}", d("new")))?;
                for rep in 0..4 {
                    let idx = if rep == 0 { (0..len).collect() } else { pick_batch(r, len) };
                    let w: Vec<_> = idx.iter().map(|&i| want[i]).collect();
                    let sub = sel(&cols, &idx);
                    let (res, out, ok) = with_guard(idx.len(), |out| it.batch(&refs(&sub), out));
                    if !ok {
                        return Err(format!("evaluation wrote outside its output: {}", d(&format!("{o:?} batch"))));
                    }
                    batch_matches(res, &out, &w).map_err(|e| format!("{e}: {} batch order {:?}", d(&format!("{o:?} batch")), &idx[..idx.len().min(20)]))?;
                    c.evals += idx.len() as u64;
                    // singles in a different order on the same, by now used, object
                    for &i in pick_batch(r, len).iter().take(24) {
                        let x: Vec<T> = cols.iter().map(|c| c[i]).collect();
                        let got = it.one(&x);
                        if !same_res(&got, &want[i]) {
                            return Err(format!("point {x:?} gives {got:?} on a used interpolator, {:?} on a fresh one: {}", want[i], d(&format!("{o:?} one"))));
                        }
                        c.evals += 1;
                    }
                    c.sig((T::NAME, kind, m, o as usize, n, idx.len().min(70), hostile, p.dims.iter().map(|d| (*d).min(5)).collect::<Vec<_>>()));
                }
                // an empty batch
                let empty: Vec<&[T]> = (0..n).map(|_| &[][..]).collect();
                let (res, _, ok) = with_guard(0, |out| it.batch(&empty, out));
                if res.is_err() || !ok {
                    return Err(format!("empty batch: {res:?}, guard intact {ok}: {}", d(&format!("{o:?} batch"))));
                }
                c.count("empty_batches", 1);
                // the functions of the same implementation
                for path in paths(m, n) {
                    let same_impl = match (o, path) {
                        (Obj::Flat, Path::Fn | Path::Alloc) => true,
                        (Obj::Rec, Path::RecFn | Path::RecAlloc) => true,
                        (Obj::Rec, Path::Fn | Path::Alloc) => n > m.max_flat(),
                        _ => false,
                    };
                    if !same_impl {
                        continue;
                    }
                    let idx = if r.flip() { (0..len).collect() } else { pick_batch(r, len) };
                    let w: Vec<_> = idx.iter().map(|&i| want[i]).collect();
                    let sub = sel(&cols, &idx);
                    let (res, out, ok) = with_guard(idx.len(), |out| p.eval(m, path, &refs(&sub), out));
                    if !ok {
                        return Err(format!("evaluation wrote outside its output: {}", d(&format!("{path:?}"))));
                    }
                    batch_matches(res, &out, &w).map_err(|e| format!("{e}: {} against {o:?} one by one", d(&format!("{path:?}"))))?;
                    c.evals += idx.len() as u64;
                    c.count("function_vs_object_batches", 1);
                    if r.chance(0.3) {
                        let (res, _, ok) = with_guard(0, |out| p.eval(m, path, &empty, out));
                        if res.is_err() || !ok {
                            return Err(format!("empty batch: {res:?}, guard intact {ok}: {}", d(&format!("{path:?}"))));
                        }
                        c.count("empty_batches", 1);
                    }
                }
            }
        }
        if round == 0 {
            if r.chance(0.5) {
                break;
            }
            // other data in the very same memory: nothing may be remembered from before
            change_in_place(r, &mut p, kind);
            c.count("data_changed_in_place", 1);
        }
    }
    if !hostile && r.flip() {
        ask_again(c, r, &mut p, kind, m, &cols)?;
    }
    Ok(())
}
/// The very same question, before and after the data changed in the memory it lies in.
fn ask_again<T: Sc>(c: &mut Ctx, r: &mut Rng, p: &mut Prob<T>, kind: Kind, m: Meth, cols: &[Vec<T>]) -> Result<(), String> {
    let n = p.n();
    let (os, ps) = (objs(m, n), paths(m, n));
    for _ in 0..6 {
        let i = r.below(cols[0].len());
        let x: Vec<T> = cols.iter().map(|c| c[i]).collect();
        let k = r.below(os.len() + ps.len() + if n == 1 { 3 } else { 0 });
        let how = if k < os.len() { format!("{:?} one", os[k]) } else if k < os.len() + ps.len() { format!("{:?}", ps[k - os.len()]) } else { format!("{:?}", M1S[k - os.len() - ps.len()]) };
        let ask = |p: &Prob<T>| -> Result<T, &'static str> {
            if k < os.len() {
                build(p, &p.gridrefs(), m, os[k])?.one(&x)
            } else if k < os.len() + ps.len() {
                p.one(m, ps[k - os.len()], &x)
            } else {
                build1(p, M1S[k - os.len() - ps.len()])?.one(&x)
            }
        };
        let before = ask(p);
        for _ in 0..r.below(2) {
            let _ = ask(p);
        }
        change_in_place(r, p, kind);
        let after = ask(p);
        let want = ask(&p.clone());
        c.evals += 3;
        c.count("asked_again_after_change", 1);
        if !same_res(&after, &want) {
            return Err(format!("point {x:?} gives {after:?} after the data changed in place ({before:?} before), but {want:?} for a copy of that data: {}", describe(p, &format!("{m:?}"), &how)));
        }
    }
    Ok(())
}
fn c14_1d<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let vc = cap(r, 5000, 0.05);
    let mut p: Prob<T> = gen_prob(r, kind, 1, 2, vc);
    let axs = axes_of(&p);
    let len = r.range(1, 64);
    let mut cols = gen_obs(r, &p, &axs, len, Where::Any);
    let hostile = r.chance(0.2);
    if hostile {
        sprinkle(r, &mut cols);
    }
    c14_1d_round(c, r, &p, kind, &cols, len, hostile)?;
    if r.flip() {
        // other data in the very same memory
        change_in_place(r, &mut p, kind);
        c.count("data_changed_in_place", 1);
        c14_1d_round(c, r, &p, kind, &cols, len, hostile)?;
    }
    if !hostile {
        let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
        if p.dims[0] >= m.min_size() {
            ask_again(c, r, &mut p, kind, m, &cols)?;
        }
    }
    Ok(())
}
fn c14_1d_round<T: Sc>(c: &mut Ctx, r: &mut Rng, p: &Prob<T>, kind: Kind, cols: &[Vec<T>], len: usize, hostile: bool) -> Result<(), String> {
    let q = p.clone();
    for m in M1S {
        let d = |what: &str| describe(p, &format!("{m:?}"), what);
        let want: Vec<Result<T, &'static str>> = (0..len).map(|i| build1(&q, m)?.one(&[cols[0][i]])).collect();
        let it = build1(p, m).map_err(|e| format!("valid construction refused: {e}: {}", d("new")))?;
        for _ in 0..3 {
            let idx = pick_batch(r, len);
            let w: Vec<_> = idx.iter().map(|&i| want[i]).collect();
            let sub = sel(cols, &idx);
            let (res, out, ok) = with_guard(idx.len(), |out| it.batch(&refs(&sub), out));
            if !ok {
                return Err(format!("evaluation wrote outside its output: {}", d("eval")));
            }
            batch_matches(res, &out, &w).map_err(|e| format!("{e}: {}", d("eval")))?;
            for &p1 in paths1() {
                let (res, out, ok) = with_guard(idx.len(), |out| p.eval1(m, p1, &sub[0], out));
                if !ok {
                    return Err(format!("evaluation wrote outside its output: {}", d(&format!("{p1:?}"))));
                }
                batch_matches(res, &out, &w).map_err(|e| format!("{e}: {}", d(&format!("{p1:?}"))))?;
            }
            c.evals += 4 * idx.len() as u64;
            c.sig((T::NAME, kind, m, idx.len().min(70), hostile, p.dims[0].min(8)));
        }
        let (res, _, ok) = with_guard(0, |out| it.batch(&[&[][..]], out));
        if res.is_err() || !ok {
            return Err(format!("empty batch: {res:?}: {}", d("eval")));
        }
        for &p1 in paths1() {
            let (res, _, ok) = with_guard(0, |out| p.eval1(m, p1, &[], out));
            if res.is_err() || !ok {
                return Err(format!("empty batch: {res:?}: {}", d(&format!("{p1:?}"))));
            }
        }
        c.count("empty_batches", 4);
    }
    Ok(())
}
/// Inputs that are the very same memory - one slice as several axes, as starts and steps, as grid and
/// values, as several columns of points, as grid axis and points - give what equal copies give.
fn c14_alias<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
    let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
    let n = if r.chance(0.2) { 1 } else { pick_n(r, 6).max(2) };
    let vc = 2000.max(m.min_size().pow(n as u32));
    let mut p: Prob<T> = gen_prob(r, kind, n, m.min_size(), vc);
    let mut shared = "points only";
    if kind == Kind::Rect && n > 1 && r.chance(0.6) {
        // equal, or one the beginning of the other
        let a = r.below(n);
        let long = p.grids[a].clone();
        let all = r.flip();
        for b in 0..n {
            if all || r.flip() {
                let k = if r.flip() { p.dims[b].min(long.len()) } else { long.len().min(m.min_size() + r.below(3)) };
                p.grids[b] = long[..k].to_vec();
                p.dims[b] = k;
                p.exact[b] = p.exact[a];
            }
        }
        p.vals = gen_vals::<T>(r, p.size());
        p.share = true;
        shared = "axes";
    } else if kind == Kind::Reg && r.chance(0.5) {
        p.starts = p.steps.clone();
        p.share = true;
        shared = "starts and steps";
    }
    if kind == Kind::Rect && n == 1 && r.flip() {
        p.vals = p.grids[0].clone();
        p.share = true;
        shared = "grid and values";
    }
    let q = Prob { share: false, ..p.clone() };
    let axs = axes_of(&p);
    let plen = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]);
    let cols = gen_obs(r, &p, &axs, plen, Where::Any);
    // where the points may lie
    let g = p.gridrefs();
    let mut pool: Vec<(String, &[T])> = vec![];
    for (a, x) in cols.iter().enumerate() {
        pool.push((format!("column {a}"), x));
    }
    for (a, x) in g.iter().enumerate() {
        pool.push((format!("grid {a}"), x));
    }
    let (s, h, v) = p.parts();
    pool.push(("values".into(), v));
    if kind == Kind::Reg {
        pool.push(("starts".into(), s));
        pool.push(("steps".into(), h));
    }
    let lead = r.below(pool.len());
    let len = pool[lead].1.len().min(40);
    let off = if pool[lead].1.len() > len { r.below(pool[lead].1.len() - len + 1) } else { 0 };
    let pool: Vec<(String, &[T])> = pool.into_iter().filter(|x| x.1.len() >= off + len).collect();
    let same_all = r.flip();
    let first = r.below(pool.len());
    let mut names = vec![];
    let obs: Vec<&[T]> = (0..n)
        .map(|_| {
            let k = if same_all { first } else { r.below(pool.len()) };
            names.push(pool[k].0.clone());
            // the whole slice of an axis when possible: the very same pointer and length
            &pool[k].1[off..off + len]
        })
        .collect();
    if obs.iter().any(|o| o.iter().any(|x| !x.f().is_finite())) {
        return Ok(());
    }
    let d = |what: &str| describe(&p, &format!("{m:?}"), &format!("{what}, shared memory: {shared}, points taken from {names:?}"));
    let qg = q.gridrefs();
    for o in objs(m, n) {
        let mut want = vec![];
        for i in 0..len {
            let x: Vec<T> = obs.iter().map(|c| c[i]).collect();
            want.push(build(&q, &qg, m, o)?.one(&x));
        }
        let it = build(&p, &g, m, o).map_err(|e| format!("valid construction refused: {e}: {}", d("new")))?;
        let (res, out, ok) = with_guard(len, |out| it.batch(&obs, out));
        if !ok {
            return Err(format!("evaluation wrote outside its output: {}", d(&format!("{o:?} batch"))));
        }
        batch_matches(res, &out, &want).map_err(|e| format!("{e}: {}", d(&format!("{o:?} batch against equal copies"))))?;
        c.evals += len as u64;
        for path in paths(m, n) {
            let same_impl = match (o, path) {
                (Obj::Flat, Path::Fn | Path::Alloc) => true,
                (Obj::Rec, Path::RecFn | Path::RecAlloc) => true,
                (Obj::Rec, Path::Fn | Path::Alloc) => n > m.max_flat(),
                _ => false,
            };
            if !same_impl {
                continue;
            }
            let (res, out, ok) = with_guard(len, |out| p.eval(m, path, &obs, out));
            if !ok {
                return Err(format!("evaluation wrote outside its output: {}", d(&format!("{path:?}"))));
            }
            batch_matches(res, &out, &want).map_err(|e| format!("{e}: {}", d(&format!("{path:?} against equal copies"))))?;
            c.evals += len as u64;
        }
        c.count("shared_memory_batches", 1);
        c.sig((T::NAME, kind, m, o as usize, n, shared, same_all, len, lead.min(9)));
    }
    if n == 1 {
        for m1 in M1S {
            let want: Vec<Result<T, &'static str>> = (0..len).map(|i| build1(&q, m1)?.one(&[obs[0][i]])).collect();
            let it = build1(&p, m1).map_err(|e| format!("valid construction refused: {e}: {}", d(&format!("{m1:?}"))))?;
            let (res, out, ok) = with_guard(len, |out| it.batch(&obs, out));
            if !ok {
                return Err(format!("evaluation wrote outside its output: {}", d(&format!("{m1:?}"))));
            }
            batch_matches(res, &out, &want).map_err(|e| format!("{e}: {}", d(&format!("{m1:?} against equal copies"))))?;
            c.evals += len as u64;
            for &p1 in paths1() {
                let (res, out, ok) = with_guard(len, |out| p.eval1(m1, p1, obs[0], out));
                if !ok {
                    return Err(format!("evaluation wrote outside its output: {}", d(&format!("{m1:?} {p1:?}"))));
                }
                batch_matches(res, &out, &want).map_err(|e| format!("{e}: {}", d(&format!("{m1:?} {p1:?} against equal copies"))))?;
                c.evals += len as u64;
            }
        }
    }
    Ok(())
}
pub fn c14(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    match idx % 8 {
        0 => c14_1d::<f64>(c, r),
        1 => c14_1d::<f32>(c, r),
        2 if idx % 16 == 2 => c14_alias::<f64>(c, r),
        3 if idx % 16 == 3 => c14_alias::<f32>(c, r),
        k if k % 2 == 0 => c14_case::<f64>(c, r),
        _ => c14_case::<f32>(c, r),
    }
}

// ---- C15 -------------------------------------------------------------------------------------
struct Share<'a, T>(&'a dyn Ev<T>);
unsafe impl<T> Sync for Share<'_, T> {}
unsafe impl<T> Send for Share<'_, T> {}

fn c15_case<T: Sc>(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let nthreads = *r.pick(&[2usize, 4, 8, 12]);
    let rounds = if cfg!(feature = "slow") { 2 } else if c.thorough { 40 } else { 12 };
    // several problems evaluated at the same time, so that state hidden anywhere meets other data
    let nprob = r.range(1, 3);
    let mut ps: Vec<(Prob<T>, Meth, Obj, bool, M1, Vec<Vec<T>>)> = vec![];
    // now and then more dimensions than the flattened types have, with fewer points
    let big = !cfg!(feature = "slow") && r.chance(0.06);
    let npts = if big { 10 } else { 64 };
    let mut top = None;
    for _ in 0..nprob {
        let kind = if r.flip() { Kind::Reg } else { Kind::Rect };
        // the others are often like the first: the same grid with other values, another setting, or both
        let like = if ps.is_empty() || !r.chance(if big { 0.8 } else { 0.4 }) { None } else { ps.first() };
        if let Some((p0, m0, o0, one_d, m10, cols0)) = like {
            let mut p: Prob<T> = Prob::clone(p0);
            let m = match *m0 {
                Meth::Cubic(l) => Meth::Cubic(l ^ r.chance(0.7)),
                m => m,
            };
            if r.flip() {
                p.vals.reverse();
            }
            let (o, one_d, m1, cols) = (*o0, *one_d, if r.flip() { *m10 } else { *r.pick(&M1S) }, cols0.clone());
            ps.push((p, m, o, one_d, m1, cols));
            c.count("problems_like_another", 1);
            continue;
        }
        let one_d = !big && r.chance(0.25);
        let m = *r.pick(&[Meth::Linear, Meth::Cubic(false), Meth::Cubic(true), Meth::Nearest]);
        let n = match m {
            _ if one_d => 1,
            Meth::Linear if big => r.range(7, 10),
            Meth::Cubic(_) if big => r.range(5, 7),
            Meth::Linear | Meth::Nearest => pick_n(r, 6),
            Meth::Cubic(_) => pick_n(r, 4),
        };
        top = top.max(Some(n));
        let p: Prob<T> = gen_prob(r, kind, n, if one_d { 2 } else { m.min_size() }, 3000.max(m.min_size().pow(n as u32)));
        let m1 = *r.pick(&M1S);
        let o = *r.pick(&objs(m, n));
        let axs = axes_of(&p);
        let cols = gen_obs(r, &p, &axs, npts, Where::Any);
        ps.push((p, m, o, one_d, m1, cols));
    }
    if top > Some(6) {
        c.count("cases_above_6_dimensions", 1);
    }
    let grids: Vec<Vec<&[T]>> = ps.iter().map(|q| q.0.gridrefs()).collect();
    let mut its = vec![];
    for (q, g) in ps.iter().zip(&grids) {
        its.push(if q.3 { build1(&q.0, q.4) } else { build(&q.0, g, q.1, q.2) }.map_err(|e| format!("valid construction refused: {e}"))?);
    }
    // serial reference
    let mut want: Vec<Vec<T>> = vec![];
    for (q, it) in ps.iter().zip(&its) {
        let mut w = vec![T::zero(); npts];
        for i in 0..npts {
            let x: Vec<T> = q.5.iter().map(|c| c[i]).collect();
            w[i] = it.one(&x).map_err(|e| format!("valid evaluation refused: {e}"))?;
        }
        want.push(w);
    }
    let shared: Vec<Share<T>> = its.iter().map(|b| Share(&**b)).collect();
    let bar = std::sync::Barrier::new(nthreads);
    let seeds: Vec<u64> = (0..nthreads).map(|_| r.u64()).collect();
    let (ps_r, want_r, shared_r, bar_r) = (&ps, &want, &shared, &bar);
    let results: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&sd| {
                s.spawn(move || -> Result<u64, String> {
                    let mut r = Rng::new(sd, 15, 0);
                    let mut done = 0u64;
                    let mut bad: Option<String> = None;
                    bar_r.wait();
                    for round in 0..rounds {
                        let k = r.below(shared_r.len());
                        let (q, it, w) = (&ps_r[k], shared_r[k].0, &want_r[k]);
                        let mut check = |i: usize, got: Result<T, &'static str>, how: &str| {
                            if bad.is_none() && !matches!(got, Ok(g) if same(g, w[i])) {
                                let x: Vec<T> = q.5.iter().map(|c| c[i]).collect();
                                bad = Some(format!("point {x:?} gives {got:?} ({how}) while other threads evaluate, {:?} serially: {}", w[i],
                                    if q.3 { describe(&q.0, &format!("{:?}", q.4), "1-D") } else { describe(&q.0, &format!("{:?}", q.1), &format!("{:?}", q.2)) }));
                            }
                        };
                        if round % 2 == 0 {
                            for _ in 0..npts {
                                let i = r.below(npts);
                                let x: Vec<T> = q.5.iter().map(|c| c[i]).collect();
                                check(i, it.one(&x), "alone");
                            }
                        } else {
                            let idx: Vec<usize> = (0..npts).map(|_| r.below(npts)).collect();
                            let sub = sel(&q.5, &idx);
                            let mut out = vec![T::of(f64::NAN); npts];
                            let res = it.batch(&refs(&sub), &mut out);
                            for (j, &i) in idx.iter().enumerate() {
                                check(i, res.map(|_| out[j]), "batch");
                            }
                        }
                        // some evaluations through the functions, as any caller might make meanwhile
                        if !q.3 && round % 3 == 0 {
                            let paths = paths(q.1, q.0.n());
                            let path = paths[r.below(paths.len())];
                            let mut out = vec![T::zero(); npts];
                            let _ = q.0.eval(q.1, path, &refs(&q.5), &mut out);
                        }
                        done += npts as u64;
                        if bad.is_some() {
                            break;
                        }
                    }
                    match bad {
                        Some(b) => Err(b),
                        None => Ok(done),
                    }
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread evaluating a shared interpolator panicked".into())))
            .collect()
    });
    for x in results {
        c.evals += x?;
    }
    // and serially again, afterwards
    for (k, (q, it)) in ps.iter().zip(&its).enumerate() {
        for i in 0..npts {
            let x: Vec<T> = q.5.iter().map(|c| c[i]).collect();
            let got = it.one(&x);
            if !matches!(got, Ok(g) if same(g, want[k][i])) {
                return Err(format!("point {x:?} gives {got:?} after concurrent use, {:?} before: {}", want[k][i], describe(&q.0, &format!("{:?}", q.1), &format!("{:?}", q.2))));
            }
        }
    }
    c.count("threads_started", nthreads as u64);
    for q in &ps {
        c.sig((T::NAME, q.0.kind, q.1, q.2, q.3, q.4, nthreads, nprob, q.0.n()));
    }
    c.sample(|| format!("{nthreads} threads on {nprob} shared objects, first: {}", describe(&ps[0].0, &format!("{:?}", ps[0].1), &format!("{:?}", ps[0].2))));
    Ok(())
}
pub fn c15(c: &mut Ctx, r: &mut Rng, idx: u64) -> Result<(), String> {
    if idx == 0 {
        for (t, ok) in shareable_types() {
            if !ok {
                return Err(format!("type {t} is not Send + Sync: it cannot be shared between threads"));
            }
            c.count("types_shown_send_and_sync", 1);
            c.sig(t);
        }
    }
    if idx % 2 == 0 { c15_case::<f64>(c, r) } else { c15_case::<f32>(c, r) }
}
