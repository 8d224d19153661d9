mod exec;
mod expr;
mod ll;
mod solver;
use exec::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
use std::sync::{Arc, Condvar, Mutex};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    if av.len() < 3 {
        eprintln!("usage: symex FILE.ll ENTRY[:ARG..] [--threads N] [--max-steps N] [--timeout-ms N] [--time-limit S] [--dump DIR N] [--no-domain] [-v] [--out FILE]");
        std::process::exit(2);
    }
    let mut it = av[2].split(':');
    let entry = it.next().unwrap().to_string();
    let args = it.map(|x| x.parse().expect("entry argument")).collect();
    let mut o = Opts { entry, threads: 8, max_steps: 20_000_000, timeout_ms: 30_000, time_limit: 800.0, dump: None, no_domain: false, verbose: false, args, samples: 0 };
    let mut out = None;
    let mut i = 3;
    while i < av.len() {
        match av[i].as_str() {
            "--threads" => {
                o.threads = av[i + 1].parse().unwrap();
                i += 1;
            }
            "--max-steps" => {
                o.max_steps = av[i + 1].parse().unwrap();
                i += 1;
            }
            "--timeout-ms" => {
                o.timeout_ms = av[i + 1].parse().unwrap();
                i += 1;
            }
            "--time-limit" => {
                o.time_limit = av[i + 1].parse().unwrap();
                i += 1;
            }
            "--dump" => {
                o.dump = Some((av[i + 1].clone().into(), av[i + 2].parse().unwrap()));
                i += 2;
            }
            "--samples" => {
                o.samples = av[i + 1].parse().unwrap();
                i += 1;
            }
            "--no-domain" => o.no_domain = true,
            "-v" => o.verbose = true,
            "--out" => {
                out = Some(av[i + 1].clone());
                i += 1;
            }
            x => panic!("option {}", x),
        }
        i += 1;
    }
    let src = std::fs::read(&av[1]).expect("read IR");
    let t0 = std::time::Instant::now();
    let m = Arc::new(ll::parse(&src));
    drop(src);
    let tparse = t0.elapsed().as_secs_f64();
    if !m.names.contains_key(&o.entry) {
        eprintln!("no function {}", o.entry);
        std::process::exit(2);
    }
    let ext: Vec<Ext> = m
        .objs
        .iter()
        .map(|s| match s {
            ll::Sym::Decl(n) => classify(n),
            _ => Ext::None,
        })
        .collect();
    let errno_obj = m.objs.len() as u32;
    let sh = Shared {
        merge: m.funcs.iter().map(|f| f.name.contains("HashSetcE3getcE") || f.name.contains("HashSetcE8containscE")).collect(),
        m: m.clone(),
        ext,
        q: Mutex::new(vec![Work::root()]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        viol: AtomicU64::new(0),
        tot: Mutex::new(Totals::default()),
        opts: o,
        t0: std::time::Instant::now(),
        errno_obj,
    };
    std::thread::scope(|s| {
        for t in 0..sh.opts.threads {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut w = Worker::new(sh, t);
                    w.main();
                })
                .unwrap();
        }
    });
    let el = sh.t0.elapsed().as_secs_f64();
    let t = sh.tot.lock().unwrap();
    if sh.opts.verbose {
        let mut v: Vec<_> = t.prof.iter().map(|(k, n)| (*n, m.funcs[*k as usize].name.clone())).collect();
        v.sort();
        v.reverse();
        for (n, f) in v.iter().take(25) {
            eprintln!("{:9} forks in {}", n, f);
        }
    }
    let mut j = String::from("{\n");
    j += &format!("  \"entry\": {},\n", js(&av[2]));
    j += &format!("  \"paths\": {}, \"pruned\": {}, \"forks\": {}, \"instructions\": {}, \"longest_path\": {}, \"max_symbolic_variables\": {},\n", t.paths, t.pruned, t.forks, t.steps, t.max_steps, t.max_vars);
    j += &format!(
        "  \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"cache_hits\": {}, \"byte_domain_decisions\": {}, \"assert_queries\": {}, \"solver_seconds\": {:.3}, \"longest_query_seconds\": {:.3}, \"wall_seconds\": {:.3}, \"parse_seconds\": {:.3}, \"dumped\": {},\n",
        t.stats.queries, t.stats.sat, t.stats.unsat, t.stats.cache, t.stats.domain, t.stats.asserts, t.stats.time, t.stats.max_time, el, tparse, t.dumped
    );
    let kv = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    j += &format!("  \"covers\": {{{}}},\n", kv(&t.covers));
    j += &format!("  \"asserts\": {{{}}},\n", kv(&t.asserts));
    j += &format!("  \"functions\": [{}],\n", t.funcs.iter().map(|f| js(&m.funcs[*f as usize].name)).collect::<Vec<_>>().join(", "));
    j += &format!("  \"errors\": [{}],\n", t.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "));
    let show = |l: &Vec<Violation>| -> Vec<String> {
        l.iter().map(|v| {
            let ins: Vec<String> = v.inputs.iter().map(|(n, b)| format!("[{}, [{}]]", js(n), b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
            format!(
                "{{\"kind\": {}, \"msg\": {}, \"inputs\": [{}], \"stack\": [{}], \"notes\": [{}]}}",
                js(&v.kind),
                js(&v.msg),
                ins.join(", "),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
                v.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect()
    };
    j += &format!("  \"samples\": [{}],\n", show(&t.samples).join(",\n    "));
    j += &format!("  \"violations\": [{}]\n}}\n", show(&t.violations).join(",\n    "));
    match out {
        Some(f) => std::fs::write(f, &j).unwrap(),
        None => print!("{}", j),
    }
    std::process::exit(if !t.errors.is_empty() {
        2
    } else if !t.violations.is_empty() {
        1
    } else {
        0
    });
}
