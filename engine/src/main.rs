mod exec;
mod expr;
mod ir;
mod solver;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T: AsRef<str>>(v: impl IntoIterator<Item = T>) -> String {
    format!("[{}]", v.into_iter().map(|x| js(x.as_ref())).collect::<Vec<_>>().join(","))
}
fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let ll = &args[1];
    let entry = &args[2];
    let timeout: u64 = get("--timeout").map_or(300, |x| x.parse().unwrap());
    let concrete = get("--draws").map(|p| {
        std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.starts_with('#')).map(|l| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()
    });
    let src = get("--src").unwrap_or_else(|| "/repo/".into());
    let t0 = Instant::now();
    let m = ir::Module::load(ll);
    let tparse = t0.elapsed().as_secs_f64();
    let cfg = exec::Cfg {
        max_paths: get("--paths").map_or(2_000_000, |x| x.parse().unwrap()),
        max_steps: get("--steps").map_or(200_000_000, |x| x.parse().unwrap()),
        deadline: Instant::now() + Duration::from_secs(timeout),
        max_viol: get("--viol").map_or(3, |x| x.parse().unwrap()),
        max_preempt: get("--preempt").map_or(2, |x| x.parse().unwrap()),
        max_naps: get("--naps").map_or(2, |x| x.parse().unwrap()),
        punctual: args.iter().any(|a| a == "--punctual"),
        concrete,
        samples: get("--samples").map_or(0, |x| x.parse().unwrap()),
        seed: get("--seed").map_or(1, |x| x.parse().unwrap()),
        trace: args.iter().any(|a| a == "--trace"),
    };
    let sv = solver::Solver::new(get("--qtimeout").map_or(60_000, |x| x.parse().unwrap()));
    let mut x = exec::Exec::new(m, sv, cfg);
    if let Err(e) = x.start(entry) {
        eprintln!("{e}");
        std::process::exit(3);
    }
    let complete = x.run();
    // evidence: source functions and lines of the code under test that were executed
    let mut fns: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut stack: Vec<u32> = x.dbg.iter().cloned().collect();
    let mut seen = BTreeSet::new();
    while let Some(d) = stack.pop() {
        if !seen.insert(d) {
            continue;
        }
        if let Some((f, l, n, inl)) = x.m.location(d) {
            if f.contains(&src) {
                let p = f.find(&src).unwrap();
                fns.entry(format!("{}::{}", &f[p + src.len()..], n)).or_default().insert(l);
            }
            if let Some(i) = inl {
                stack.push(i);
            }
        }
    }
    let mut o = String::new();
    o.push_str(&format!("{{\"harness\":{},\"complete\":{},", js(entry), complete && x.errors.is_empty()));
    o.push_str(&format!("\"paths\":{},\"cut_paths\":{},\"merged\":{},\"forks\":{},\"steps\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},", x.paths, x.cut, x.merged, x.forks, x.steps, t0.elapsed().as_secs_f64(), tparse));
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"expr_nodes\":{},\"solver\":{},",
        x.sv.queries, x.sv.sat, x.sv.unsat, x.sv.unknown, x.sv.hits, x.sv.time, x.sv.max_time, x.cx.nodes.len(), js(&solver::Solver::version())
    ));
    o.push_str(&format!("\"errors\":{{{}}},", x.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"covers\":{{{}}},", x.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"checks\":{{{}}},", x.checks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions\":{{{}}},", fns.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"out\":{},", arr(&x.outs)));
    o.push_str("\"samples\":[");
    for (i, v) in x.samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{{\"sched\":{:?},\"outs\":{},\"draws\":{}}}", v.sched, arr(&v.outs), arr(v.draws.iter().map(|d| d.iter().map(|b| format!("{b:02x}")).collect::<String>()))));
    }
    o.push_str("],");
    o.push_str("\"violations\":[");
    for (i, v) in x.viol.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!(
            "{{\"kind\":{},\"label\":{},\"loc\":{},\"stack\":{},\"notes\":{},\"sched\":{:?},\"draws\":{}}}",
            js(&v.kind), js(&v.label), js(&v.loc), arr(&v.stack), arr(&v.notes), v.sched,
            arr(v.draws.iter().map(|d| d.iter().map(|b| format!("{b:02x}")).collect::<String>()))
        ));
    }
    o.push_str("]}");
    match get("--out") {
        Some(p) => std::fs::write(p, &o).unwrap(),
        None => println!("{o}"),
    }
}
fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|_| std::process::exit(4));
}
