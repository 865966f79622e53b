#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dom;
mod exec;
mod facts;
mod ir;
mod lower;
mod merge;
mod refine;
mod state;

use rustc_driver::Compilation;
use std::collections::BTreeSet;
use std::sync::Mutex;

struct Task {
    root: usize,
    freq: Option<(u64, u64)>,
}

#[derive(Default, Clone)]
struct RootRes {
    name: String,
    viol: Vec<exec::Viol>,
    stmts: u64,
    joins: u64,
    splits: u64,
    calls: u64,
    fix_iters: u64,
    partitions: u64,
    obligations: u64,
    unrolled: u64,
    call_sites: u64,
    asserts: BTreeSet<String>,
    requires: BTreeSet<String>,
    reached: BTreeSet<String>,
    must_reach: BTreeSet<String>,
    funcs: BTreeSet<String>,
    freq: Option<(u64, u64)>,
    chunks: u64,
    bad_chunks: u64,
    millis: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<'a>(i: impl Iterator<Item = &'a String>) -> String {
    format!("[{}]", i.map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn analyse(p: &ir::Program) -> Vec<RootRes> {
    let verbose = std::env::var("ABSINT_V").is_ok();
    let only: Option<(u64, u64)> = std::env::var("ABSINT_FREQ").ok().map(|s| {
        let mut i = s.split('-').map(|x| x.parse().unwrap());
        (i.next().unwrap(), i.next().unwrap())
    });
    let budget: u64 = std::env::var("ABSINT_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(700);
    let start = std::time::Instant::now();
    dom::start_clock(std::time::Duration::from_secs(budget));
    let res_first = std::sync::atomic::AtomicBool::new(true);
    let res: Mutex<Vec<RootRes>> = Mutex::new(
        p.roots.iter().map(|(n, _)| RootRes { name: n.clone(), must_reach: p.must_reach.iter().filter(|(r, _)| r == n).map(|(_, m)| m.clone()).collect(), ..Default::default() }).collect(),
    );
    let tasks: Mutex<(Vec<Task>, usize)> = Mutex::new(((0..p.roots.len()).rev().map(|r| Task { root: r, freq: None }).collect(), 0));
    let nthreads = std::env::var("ABSINT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            let _ = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, || loop {
                let t = {
                    let mut g = tasks.lock().unwrap();
                    match g.0.pop() {
                        Some(t) => {
                            g.1 += 1;
                            t
                        }
                        None if g.1 == 0 => return,
                        None => {
                            drop(g);
                            std::thread::sleep(std::time::Duration::from_millis(5));
                            continue;
                        }
                    }
                };
                let (name, fid) = &p.roots[t.root];
                let t0 = std::time::Instant::now();
                // a chunk whose root has already failed is not analysed
                let skip = {
                    let r = res.lock().unwrap();
                    t.freq.is_some() && !r[t.root].viol.is_empty()
                };
                if !skip {
                    let run = |policy: merge::Policy| {
                        let mut e = exec::Eng::new(p);
                        e.verbose = verbose;
                        e.freq = t.freq;
                        e.policy = policy;
                        if let Some((l, h)) = t.freq {
                            e.params.insert("F".into(), (32, l as u128, h as u128));
                        }
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run_root(name, *fid)));
                        if r.is_err() {
                            e.internal_error();
                        }
                        e
                    };
                    let mut e = run(merge::Policy::default());
                    // something was not established after different states had been
                    // put together: try again with other states put together
                    if !e.viol.is_empty() && !e.need_freq && t.freq.map_or(true, |(l, h)| l == h) {
                        let mut tries = vec![];
                        if e.hardgen.iter().any(|x| x.2) {
                            tries.push(merge::Policy { enums: true, ..Default::default() });
                        }
                        let avoid: std::collections::HashSet<u64> = e.hardgen.iter().filter(|x| !x.2 && x.1 <= 40).map(|x| x.0).collect();
                        if !avoid.is_empty() {
                            tries.push(merge::Policy { enums: true, avoid });
                        }
                        for pol in tries {
                            if start.elapsed().as_secs() > budget / 2 || !res_first.load(std::sync::atomic::Ordering::Relaxed) {
                                break;
                            }
                            let e2 = run(pol);
                            if verbose {
                                eprintln!("{name}: another partition: {} violations", e2.viol.len());
                            }
                            if e2.viol.is_empty() {
                                e = e2;
                                break;
                            }
                        }
                    }
                    let mut split = None;
                    if e.need_freq {
                        let (l, h) = e.freq_range.unwrap();
                        let (l, h) = match only {
                            Some((a, b)) => (a.max(l), b.min(h)),
                            None => (l, h),
                        };
                        res.lock().unwrap()[t.root].freq = Some((l, h));
                        // start with eight pieces per root (or one)
                        let mut v = vec![];
                        let (mut a, n) = (l, e.freq_pieces);
                        for i in 1..=n {
                            let b = if i == n { h } else { ((l as f64) * ((h as f64) / (l as f64)).powf(i as f64 / n as f64)) as u64 };
                            if b >= a {
                                v.push((a, b));
                                a = b + 1;
                            }
                        }
                        split = Some(v);
                        e.viol.clear();
                    } else if let (Some((l, h)), false) = (t.freq, e.viol.is_empty()) {
                        if l < h && start.elapsed().as_secs() < budget {
                            let m = match e.freq_cut {
                                Some(c) if c >= l && c < h => c,
                                _ => (((l as f64) * (h as f64)).sqrt() as u64).clamp(l, h - 1),
                            };
                            // now and then a single frequency by itself: what fails at
                            // every frequency is refuted there without bisection
                            let nth = res.lock().unwrap()[t.root].bad_chunks;
                            split = Some(match nth {
                                0 | 2 | 7 | 20 | 60 if l < m => vec![(l, l), (l + 1, m), (m + 1, h)],
                                _ => vec![(l, m), (m + 1, h)],
                            });
                            if verbose {
                                eprintln!("{name}: splitting {l}..{h}");
                            }
                            e.viol.clear();
                            res.lock().unwrap()[t.root].bad_chunks += 1;
                        }
                    }
                    let mut g = res.lock().unwrap();
                    let r = &mut g[t.root];
                    if !e.viol.is_empty() && res_first.swap(false, std::sync::atomic::Ordering::Relaxed) {
                        // the property is refuted: finish what is quick to finish
                        dom::start_clock(std::time::Duration::from_secs(120));
                    }
                    for v in e.viol.drain(..) {
                        if !r.viol.iter().any(|x| x.kind == v.kind && x.msg == v.msg && x.at == v.at) {
                            r.viol.push(v);
                        }
                    }
                    r.chunks += 1;
                    r.stmts += e.st.stmts;
                    r.joins += e.st.joins;
                    r.splits += e.st.splits;
                    r.calls += e.st.calls;
                    r.fix_iters += e.st.fix_iters;
                    r.partitions = r.partitions.max(e.st.partitions);
                    if split.is_none() {
                        r.obligations += e.st.obligations;
                    }
                    r.unrolled += e.st.unrolled;
                    r.call_sites = r.call_sites.max(e.st.call_sites.len() as u64);
                    r.asserts.extend(std::mem::take(&mut e.st.asserts));
                    r.requires.extend(std::mem::take(&mut e.st.requires));
                    r.reached.extend(std::mem::take(&mut e.st.reached));
                    r.funcs.extend(std::mem::take(&mut e.st.funcs));
                    r.millis += t0.elapsed().as_millis() as u64;
                    drop(g);
                    if let Some(v) = split {
                        let mut g = tasks.lock().unwrap();
                        for f in v.into_iter().rev() {
                            g.0.push(Task { root: t.root, freq: Some(f) });
                        }
                    }
                }
                tasks.lock().unwrap().1 -= 1;
            });
        }
    });
    res.into_inner().unwrap()
}

fn report(p: &ir::Program, res: &mut Vec<RootRes>) {
    for r in res.iter_mut() {
        // reachability marks: an obligation that is never reached decides nothing
        for m in &r.must_reach {
            if !r.reached.contains(&format!("{}: {m}", r.name)) && r.viol.is_empty() {
                r.viol.push(exec::Viol {
                    root: r.name.clone(),
                    kind: "unreachable".into(),
                    msg: format!("no execution reaches: {m}"),
                    at: String::new(),
                    func: r.name.clone(),
                    chain: vec![],
                    hint: String::new(),
                });
            }
        }
        eprintln!(
            "{}: {} violations, {} chunks ({} split), {} stmts, {} joins, {} fix, {} part, {} calls, {} oblig, {} ms",
            r.name,
            r.viol.len(),
            r.chunks,
            r.bad_chunks,
            r.stmts,
            r.joins,
            r.fix_iters,
            r.partitions,
            r.calls,
            r.obligations,
            r.millis
        );
        for v in r.viol.iter().take(12) {
            eprintln!("  !! {}: {} at {} in {}\n     via {}\n     state {}", v.kind, v.msg, v.at, v.func, v.chain.join(" > "), v.hint);
        }
    }
    if let Ok(path) = std::env::var("ABSINT_OUT") {
        let mut o = String::from("{\"roots\":[");
        for (i, r) in res.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let vs: Vec<String> = r
                .viol
                .iter()
                .map(|v| {
                    format!(
                        "{{\"kind\":{},\"msg\":{},\"at\":{},\"func\":{},\"chain\":{},\"state\":{}}}",
                        esc(&v.kind),
                        esc(&v.msg),
                        esc(&v.at),
                        esc(&v.func),
                        list(v.chain.iter()),
                        esc(&v.hint)
                    )
                })
                .collect();
            o.push_str(&format!(
                "\n{{\"name\":{},\"violations\":[{}],\"statements\":{},\"joins\":{},\"splits\":{},\"calls\":{},\"fixpoint_iterations\":{},\"partitions\":{},\"obligations\":{},\"unrolled\":{},\"call_sites\":{},\"asserts\":{},\"requires\":{},\"reached\":{},\"functions\":{},\"freq\":{},\"chunks\":{},\"millis\":{}}}",
                esc(&r.name),
                vs.join(","),
                r.stmts,
                r.joins,
                r.splits,
                r.calls,
                r.fix_iters,
                r.partitions,
                r.obligations,
                r.unrolled,
                r.call_sites,
                list(r.asserts.iter()),
                list(r.requires.iter()),
                list(r.reached.iter()),
                list(r.funcs.iter()),
                match r.freq {
                    Some((l, h)) => format!("[{l},{h}]"),
                    None => "null".into(),
                },
                r.chunks,
                r.millis
            ));
        }
        o.push_str(&format!("\n],\"lowered_functions\":{},\"types\":{}}}\n", p.funcs.len(), p.types.len()));
        std::fs::write(path, o).expect("write ABSINT_OUT");
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: rustc_middle::ty::TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name == "roots" {
            let sel = std::env::var("ABSINT_PROP").unwrap_or_default().to_lowercase();
            let mut l = lower::Lower::new(tcx);
            for d in lower::Lower::local_roots(tcx) {
                let n = tcx.item_name(d).to_string();
                if n.contains("_deep") && std::env::var("VERIF_TIER").map_or(false, |t| t == "quick") {
                    continue;
                }
                if n.starts_with(&sel) && tcx.def_path_str(d).contains(&std::env::var("ABSINT_ROOT").unwrap_or_default()) {
                    l.add_root(d);
                }
            }
            let mut p = l.p;
            p.must_reach = p.roots.iter().flat_map(|(n, f)| ir::marks(&p, *f).into_iter().map(move |m| (n.clone(), m))).collect();
            let mut r = analyse(&p);
            report(&p, &mut r);
        }
        if name == "infrared" {
            if let Ok(path) = std::env::var("ABSINT_FACTS") {
                let f = facts::collect(tcx);
                let v: Vec<String> = f
                    .viol
                    .iter()
                    .map(|(k, m, a, n)| format!("{{\"kind\":{},\"msg\":{},\"at\":{},\"func\":{}}}", esc(k), esc(m), esc(a), esc(n)))
                    .collect();
                let c: Vec<String> = f.callees.keys().cloned().collect();
                let o = format!(
                    "{{\"violations\":[{}],\"functions\":{},\"types\":{},\"statics\":{},\"callees\":{},\"call_sites\":{},\"crates\":{}}}\n",
                    v.join(","),
                    list(f.fns.iter()),
                    list(f.types.iter()),
                    list(f.statics.iter()),
                    list(c.iter()),
                    f.callees.values().sum::<usize>(),
                    list(f.crates.iter())
                );
                std::fs::write(path, o).expect("write ABSINT_FACTS");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER style: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    std::process::exit(if rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)) == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
