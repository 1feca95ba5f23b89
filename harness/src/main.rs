mod cmp;
mod dd;
mod generic;
mod genr;
mod grid1;
mod inter;
mod meta;
mod prob;
mod pure;
mod refmodel;
mod resource;
mod rng;
mod robust;
mod runner;
mod sc;
mod value;
mod wide;

use runner::{jstr, CaseFn};
use std::io::Write;

#[global_allocator]
static ALLOC: resource::Counting = resource::Counting;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map(|s| s.parse().unwrap()).unwrap_or(d)
}

fn table(prop: &str) -> Option<(&'static CaseFn, u64)> {
    Some(match prop {
        "C01" => (&value::c01, 60_000),
        "C02" => (&value::c02, 30_000),
        "C03" => (&value::c03, 30_000),
        "C04" => (&value::c04, 60_000),
        "C05" => (&value::c05, 60_000),
        "C06" => (&value::c06, 60_000),
        "C07" => (&value::c07, 30_000),
        "C08" => (&value::c08, 30_000),
        "C09" => (&meta::c09, 30_000),
        "C10" => (&meta::c10, 30_000),
        "C11" => (&meta::c11, 30_000),
        "C12" => (&meta::c12, 30_000),
        "C13" => (&meta::c13, 20_000),
        "C14" => (&pure::c14, 20_000),
        "C15" => (&pure::c15, 1_500),
        "C16" => (&robust::c16, 20_000),
        "C17" => (&robust::c17, 20_000),
        "C18" => (&resource::c18, 1_500),
        "C20" => (&robust::c20, 20_000),
        "C22" => (&robust::c22, 5_000),
        "C31" => (&generic::c31, 30_000),
        "C30" => (&grid1::c30, 40_000),
        _ => return None,
    })
}

fn main() {
    runner::install_hook();
    let prop = std::env::args().nth(1).expect("property");
    let seed = num("--seed", 1);
    let threads = num("--threads", 8) as usize;
    let thorough = std::env::args().any(|a| a == "--thorough");
    let out = arg("--out");
    if prop == "dump" {
        cmp::dump(&out.expect("--out"), seed, num("--first", 0), num("--cases", 4000), thorough);
        return;
    }
    if prop == "label" {
        let l = cmp::case(seed, num("--case", 0), thorough, true).labels.unwrap();
        let k = num("--record", 0) as usize;
        println!("{}", l.get(k).cloned().unwrap_or(format!("(only {} observations)", l.len())));
        return;
    }
    if prop == "compare" {
        let o = cmp::compare(&arg("--a").unwrap(), &arg("--b").unwrap());
        let s = format!(
            "{{\"cases\":{},\"records\":{},\"identical_required\":{},\"within\":{},\"within_different_bits\":{},\"errors_agree\":{},\"status_only\":{},\"max_ratio\":{},\"mismatch\":{},\"diffs\":[{}]}}",
            o.cases, o.records, o.identical_required, o.within, o.within_different_bits, o.errors_agree, o.status_only, o.max_ratio,
            o.mismatch.as_ref().map(|m| jstr(m)).unwrap_or("null".into()),
            o.diffs.iter().map(|d| format!("[{},{}]", d.0, d.1)).collect::<Vec<_>>().join(",")
        );
        println!("{s}");
        return;
    }
    let Some((f, dflt)) = table(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let first = num("--first", 0);
    let mut cases = num("--cases", 0);
    if cases == 0 {
        cases = dflt * num("--mult", 1);
    }
    let pid: u64 = prop[1..].parse().unwrap();
    let variant = if cfg!(feature = "fma") { "fma" } else if cfg!(feature = "std") { "std" } else { "nostd" };
    let t0 = std::time::Instant::now();
    let prop2 = prop.clone();
    let on_hang = move |idx: u64| {
        println!("HANG property={prop2} variant={variant} seed={seed} case={idx}");
        let _ = std::io::stdout().flush();
        std::process::exit(9);
    };
    let o = runner::run(pid, seed, first, cases, if matches!(&*prop, "C15") { 1 } else { threads }, thorough, false, num("--hang", 120), f, &on_hang);
    let mut s = String::from("{");
    s.push_str(&format!("\"property\":{},\"variant\":\"{variant}\",\"seed\":{seed},\"cases\":{},\"evaluations\":{},", jstr(&prop), o.cases, o.ctx.evals));
    s.push_str(&format!("\"distinct\":{},\"max_error_over_bound\":{},\"wall_s\":{},", o.ctx.sigs.len(),
        if o.ctx.max_ratio.is_finite() { o.ctx.max_ratio } else { -1.0 }, t0.elapsed().as_secs_f64()));
    s.push_str("\"counters\":{");
    s.push_str(&o.ctx.counters.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&o.ctx.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    let list = |v: &[(u64, String)]| v.iter().map(|(i, m)| format!("{{\"case\":{i},\"message\":{}}}", jstr(m))).collect::<Vec<_>>().join(",");
    s.push_str(&format!("],\"violations\":[{}],\"harness_errors\":[{}]}}\n", list(&o.violations), list(&o.harness_errors)));
    match out {
        Some(p) => std::fs::write(p, &s).unwrap(),
        None => print!("{s}"),
    }
    let _ = std::io::stdout().flush();
    std::process::exit(if !o.harness_errors.is_empty() { 2 } else if !o.violations.is_empty() { 1 } else { 0 });
}
