mod env;
mod exec;
mod expr;
mod ir;
mod solver;
mod state;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = exec::Config {
        params: HashMap::new(),
        max_steps: 4_000_000_000,
        max_paths: 2_000_000,
        time: Duration::from_secs(600),
        fork_limit: 300,
        witnesses: 0,
        max_violations: 4,
        concrete: None,
        verbose: false,
    };
    let mut inj = false;
    let mut cross = false;
    let mut i = 1;
    let mut noslice = false;
    let mut hard = 120;
    while i < a.len() {
        let nx = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--param" => {
                let kv = nx();
                let (k, v) = kv.split_once('=').unwrap();
                cfg.params.insert(k.into(), v.parse().unwrap());
            }
            "--time" => cfg.time = Duration::from_secs(nx().parse().unwrap()),
            "--witness" => cfg.witnesses = nx().parse().unwrap(),
            "--max-violations" => cfg.max_violations = nx().parse().unwrap(),
            "--fork-limit" => cfg.fork_limit = nx().parse().unwrap(),
            "--hard" => hard = nx().parse().unwrap(),
            "--concrete" => {
                // file: name hex
                let mut m = HashMap::new();
                for l in std::fs::read_to_string(nx()).unwrap().lines() {
                    if let Some(r) = l.strip_prefix("input ") {
                        if let Some((n, h)) = r.rsplit_once(' ') {
                            m.insert(n.to_string(), unhex(h));
                        }
                    }
                }
                cfg.concrete = Some(m);
            }
            "--inj" => {
                inj = true;
                i += 1;
                continue;
            }
            "--cross" => {
                cross = true;
                i += 1;
                continue;
            }
            "--noslice" => {
                noslice = true;
                i += 1;
                continue;
            }
            "--verbose" => {
                cfg.verbose = true;
                i += 1;
                continue;
            }
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    let verbose = cfg.verbose;
    let m = Rc::new(ir::Module::load(&ll));
    let scratch = if out.is_empty() { format!("/tmp/symex-{}", std::process::id()) } else { out.clone() };
    let mut s = solver::Solver::new(scratch);
    s.injective = inj;
    s.crosscheck = cross;
    s.use_slicing = !noslice;
    s.hard_s = hard;
    let mut e = exec::Engine::new(m.clone(), s, cfg);
    e.p.inj = inj;
    let st = e.initial(&entry);
    e.work.push(st);
    e.run();
    let t = e.t0.elapsed();
    let status = if !e.violations.is_empty() {
        "violation"
    } else if !e.errors.is_empty() {
        "error"
    } else {
        "holds"
    };
    let mut j = String::from("{\n");
    let mut put = |k: &str, v: String| j.push_str(&format!(" {}: {},\n", esc(k), v));
    put("entry", esc(&entry));
    put("status", esc(status));
    put("wall_s", format!("{:.3}", t.as_secs_f64()));
    put("paths", e.paths.to_string());
    put("infeasible", e.infeasible.to_string());
    put("steps", e.steps.to_string());
    put("asserts", e.asserts.to_string());
    put("asserts_symbolic", e.asserts_sym.to_string());
    put("asserts_constant", e.asserts_trivial.to_string());
    put("queries", e.s.stats.queries.to_string());
    put("sat", e.s.stats.sat.to_string());
    put("unsat", e.s.stats.unsat.to_string());
    put("unknown", e.s.stats.unknown.to_string());
    put("cache_hits", e.s.stats.cache_hits.to_string());
    put("model_hits", e.s.stats.model_hits.to_string());
    put("fallbacks", e.s.stats.fallbacks.to_string());
    put("solver_s", format!("{:.3}", e.s.stats.time.as_secs_f64()));
    put("max_query_s", format!("{:.3}", e.s.stats.max_query.as_secs_f64()));
    put("exprs", e.p.nodes.len().to_string());
    put("crosschecked", e.s.crosschecked.to_string());
    put("cross_disagree", e.s.cross_disagree.to_string());
    let arr = |v: Vec<String>| format!("[{}]", v.join(", "));
    put("outcomes", format!("{{{}}}", e.outcomes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    put("reached", format!("{{{}}}", e.reached.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    let mut fs: Vec<(&String, &u64)> = e.fork_sites.iter().collect();
    fs.sort_by(|a, b| b.1.cmp(a.1));
    put("fork_sites", arr(fs.iter().take(12).map(|(k, v)| format!("[{}, {}]", esc(k), v)).collect()));
    let mut errs = e.errors.clone();
    errs.extend(e.s.errors.iter().cloned());
    put("errors", arr(errs.iter().take(20).map(|x| esc(x)).collect()));
    put("samples", arr(e.samples.iter().map(|x| esc(x)).collect()));
    put("prints", arr(e.prints.iter().map(|x| esc(x)).collect()));
    let funcs: Vec<String> = m.funcs.iter().enumerate().filter(|(i, _)| e.executed[*i]).map(|(_, f)| f.name.clone()).collect();
    put("functions_executed", funcs.len().to_string());
    put("functions", arr(funcs.iter().filter(|n| n.contains("10merkletree")).map(|n| esc(&exec::demangle(n))).collect()));
    let show = |vs: &[exec::Violation]| -> Vec<String> {
        vs.iter().map(|v| {
            format!(
                "{{\"kind\": {}, \"msg\": {}, \"inputs\": [{}], \"hashes\": [{}], \"backtrace\": [{}], \"trace\": [{}]}}",
                esc(&v.kind),
                esc(&v.msg),
                v.inputs.iter().map(|(n, b)| format!("[{}, \"{}\"]", esc(n), hex(b))).collect::<Vec<_>>().join(", "),
                v.hashes.iter().map(|(n, b)| format!("[\"{}\", \"{}\"]", hex(n), hex(b))).collect::<Vec<_>>().join(", "),
                v.backtrace.iter().take(25).map(|b| esc(b)).collect::<Vec<_>>().join(", "),
                v.trace.iter().take(60).map(|b| esc(b)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect()
    };
    put("violations", arr(show(&e.violations)));
    put("witnesses", arr(show(&e.witnesses)));
    j.push_str(" \"end\": 1\n}\n");
    if out.is_empty() || verbose {
        println!("{}", j);
    }
    if !out.is_empty() {
        std::fs::write(&out, j).unwrap();
    }
}

fn main() {
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        eprintln!("{}", i);
        *m2.lock().unwrap() = i.to_string();
    }));
    // deep expression recursion: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        let a: Vec<String> = std::env::args().collect();
        if let Some(o) = a.iter().position(|x| x == "--out").and_then(|i| a.get(i + 1)) {
            let _ = std::fs::write(o, format!("{{\"status\": \"error\", \"errors\": [{}], \"violations\": []}}\n", esc(&format!("engine: {}", msg.lock().unwrap()))));
        }
        std::process::exit(3);
    }
}
