//! irsym: executes LLVM IR symbolically and decides assertions with Z3.
mod exec;
mod expr;
mod fp;
mod ir;
mod mem;
mod solver;
use exec::*;
use ir::Program;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn witness(case: u64, w: &Witness) -> String {
    let mut o = String::new();
    let ins: Vec<String> = w.inputs.iter().map(|x| x.to_string()).collect();
    let obs: Vec<String> = w.obs.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect();
    let st: Vec<String> = w.stack.iter().take(12).map(|x| js(x)).collect();
    let _ = write!(
        o,
        "{{\"case\":{},\"kind\":{},\"what\":{},\"inputs\":[{}],\"obs\":[{}],\"stack\":[{}]}}",
        case,
        js(&w.kind),
        js(&w.what),
        ins.join(","),
        obs.join(","),
        st.join(",")
    );
    o
}

#[derive(Default)]
struct Agg {
    cases: u64,
    done: u64,
    skipped: u64,
    incomplete: Vec<String>,
    errors: Vec<String>,
    st: Stats,
    viol: Vec<(u64, Witness)>,
    samples: Vec<(u64, Witness)>,
    reach: BTreeSet<u64>,
    asserts: BTreeMap<u64, u64>,
    wall: f64,
    slow: (f64, u64),
    smt: Vec<String>,
}

fn main() {
    // an internal error ends the run at once: no result may be read from it
    let dflt = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        dflt(i);
        std::process::exit(70);
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut out = String::new();
    let mut tier = 0u64;
    let mut threads = 8usize;
    let mut deadline = 600u64;
    let mut seed = 1u64;
    let mut samples = 2usize;
    let mut max_viol = 3usize;
    let mut smt_dump = 0usize;
    let mut only: Option<u64> = None;
    let mut names = vec![];
    let mut max_paths = u64::MAX;
    let mut verbose = false;
    let mut trace = false;
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--out" => out = v(),
            "--tier" => tier = if v() == "thorough" { 1 } else { 0 },
            "--threads" => threads = v().parse().unwrap(),
            "--deadline" => deadline = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--smt" => smt_dump = v().parse().unwrap(),
            "--case" => only = Some(v().parse().unwrap()),
            "-v" => verbose = true,
            "--prof" => trace = true,
            n => names.push(n.to_string()),
        }
    }
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(deadline);
    let p: &'static Program = Box::leak(Box::new(Program::load(&ll).expect("load IR")));
    let load_s = t0.elapsed().as_secs_f64();
    let hooks: &'static Vec<Hook> = Box::leak(Box::new(build_hooks(p)));
    let lim = Limits {
        max_steps: 50_000_000,
        max_paths,
        max_viol,
        samples,
        seed,
        deadline,
        early: Box::leak(Box::new((t0, std::sync::atomic::AtomicU64::new(u64::MAX)))),
        trace,
        smt_dump,
        solver_timeout_ms: 120_000,
    };
    let mut jobs: Vec<(usize, u64, u32)> = vec![];
    let mut aggs: Vec<Agg> = vec![];
    for (i, n) in names.iter().enumerate() {
        let mut a = Agg::default();
        let (h, c) = (p.fidx.get(&format!("h_{}", n)), p.fidx.get(&format!("n_{}", n)));
        match (h, c) {
            (Some(h), Some(c)) => {
                let mut ex = Exec::new(p, hooks, lim.clone());
                match ex.case_list(*c, &[tier]) {
                    Ok(l) => {
                        a.cases = l.len() as u64;
                        for j in l {
                            if only.map_or(true, |o| o == j) {
                                jobs.push((i, j, *h));
                            }
                        }
                    }
                    Err(e) => a.errors.push(format!("n_{}: {}", n, e)),
                }
            }
            _ => a.errors.push(format!("harness {} is not in the IR", n)),
        }
        aggs.push(a);
    }
    let aggs = Mutex::new(aggs);
    let funcs = Mutex::new(vec![false; p.funcs.len()]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() {
                        return;
                    }
                    let (i, case, h) = jobs[k];
                    if lim.over() {
                        let mut g = aggs.lock().unwrap();
                        g[i].skipped += 1;
                        continue;
                    }
                    let mut l = lim.clone();
                    l.seed = seed.wrapping_mul(1_000_003).wrapping_add(case).wrapping_add(i as u64 * 7919) | 1;
                    let r = Exec::new(p, hooks, l).run(h, &[case]);
                    if verbose {
                        eprintln!(
                            "{} case {}: paths {} insts {} queries {} solver {:.2}s wall {:.2}s viol {} complete {} {} {}",
                            names[i], case, r.stats.paths, r.stats.insts, r.stats.queries, r.stats.solver_s, r.wall,
                            r.violations.len(), r.complete, r.why_incomplete, r.error.as_deref().unwrap_or("")
                        );
                    }
                    {
                        let mut f = funcs.lock().unwrap();
                        for (x, y) in f.iter_mut().zip(&r.funcs) {
                            *x |= *y;
                        }
                    }
                    let mut g = aggs.lock().unwrap();
                    let a = &mut g[i];
                    a.done += 1;
                    a.wall += r.wall;
                    if r.wall > a.slow.0 {
                        a.slow = (r.wall, case);
                    }
                    a.st.add(&r.stats);
                    if !r.complete && r.violations.is_empty() && a.incomplete.len() < 20 {
                        a.incomplete.push(format!("case {}: {}", case, r.why_incomplete));
                    }
                    if let Some(e) = r.error {
                        a.errors.push(format!("case {}: {}", case, e));
                    }
                    for v in r.violations {
                        a.viol.push((case, v));
                    }
                    for s in r.samples {
                        a.samples.push((case, s));
                    }
                    a.reach.extend(r.reach);
                    for (k, n) in r.reach_assert {
                        *a.asserts.entry(k).or_insert(0) += n;
                    }
                    a.smt.extend(r.smt);
                })
                .unwrap();
        }
    });
    let aggs = aggs.into_inner().unwrap();
    let funcs = funcs.into_inner().unwrap();
    let mut o = String::from("{\n");
    let _ = write!(
        o,
        "\"solver\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\n\"harnesses\":[\n",
        js(&solver::version()),
        load_s,
        t0.elapsed().as_secs_f64()
    );
    for (i, a) in aggs.iter().enumerate() {
        let s = &a.st;
        if i > 0 {
            o.push_str(",\n");
        }
        let _ = write!(o, "{{\"name\":{},\"cases\":{},\"done\":{},\"skipped\":{},", js(&names[i]), a.cases, a.done, a.skipped);
        let l = |v: &[String]| v.iter().take(20).map(|x| js(x)).collect::<Vec<_>>().join(",");
        let _ = write!(o, "\"incomplete\":[{}],\"errors\":[{}],", l(&a.incomplete), l(&a.errors));
        let _ = write!(
            o,
            "\"stats\":{{\"paths\":{},\"cut\":{},\"dead\":{},\"forks\":{},\"insts\":{},\"asserts\":{},\"asserts_const\":{},\"asserts_solver\":{},\"branch_sym\":{},\"branch_dom\":{},\"branch_solver\":{},\"vars_max\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"cpu_s\":{:.2},\"slowest\":[{:.2},{}]}},",
            s.paths, s.cut, s.dead, s.forks, s.insts, s.asserts, s.asserts_const, s.asserts_solver, s.branch_sym, s.branch_dom,
            s.branch_solver, s.vars_max, s.queries, s.sat, s.unsat, s.unknown, s.qcached, s.solver_s, s.solver_max_s, a.wall, a.slow.0, a.slow.1
        );
        let v: Vec<String> = a.viol.iter().take(40).map(|(c, w)| witness(*c, w)).collect();
        let sm: Vec<String> = a.samples.iter().map(|(c, w)| witness(*c, w)).collect();
        let re: Vec<String> = a.reach.iter().map(|x| x.to_string()).collect();
        let asx: Vec<String> = a.asserts.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect();
        let _ = write!(
            o,
            "\"violations\":[{}],\n\"samples\":[{}],\n\"reach\":[{}],\"assert_ids\":{{{}}}}}",
            v.join(","),
            sm.join(",\n"),
            re.join(","),
            asx.join(",")
        );
    }
    o.push_str("\n],\n\"functions\":[");
    let fl: BTreeSet<&str> = (0..p.funcs.len())
        .filter(|i| funcs[*i])
        .map(|i| {
            let f = &p.funcs[i];
            if f.pretty.is_empty() {
                f.name.as_str()
            } else {
                f.pretty.as_str()
            }
        })
        .collect();
    o.push_str(&fl.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("]");
    if smt_dump > 0 {
        o.push_str(",\n\"smt\":[");
        let all: Vec<String> = aggs.iter().flat_map(|a| a.smt.iter().map(|x| js(x))).collect();
        o.push_str(&all.join(",\n"));
        o.push(']');
    }
    o.push_str("\n}\n");
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).expect("write output");
    }
}
