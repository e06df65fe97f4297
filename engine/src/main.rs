mod exec;
mod expr;
mod ir;
mod z3;
use std::collections::HashSet;
use std::io::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    let args: &'static Vec<String> = Box::leak(Box::new(std::env::args().collect()));
    let get = move |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let ll = get("--ll").expect("--ll FILE");
    let entry = get("--entry").expect("--entry FN");
    let out = get("--out");
    let num = move |k: &str, d: f64| -> f64 { get(k).map(|v| v.parse().expect(k)).unwrap_or(d) };
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let t0 = std::time::Instant::now();
        let m = ir::Module::load(&ll);
        let cfg = exec::Cfg {
            max_steps: num("--max-steps", 20e6) as u64, max_time: num("--time", 600.0), max_paths: num("--max-paths", 1e9) as u64,
            max_viol: num("--max-viol", 3.0) as usize, verbose: args.iter().any(|a| a == "-v"), conc_limit: 0, stop_keys: HashSet::new(),
        };
        let mut e = exec::Eng::new(m, cfg, num("--solver-ms", 120000.0) as u32);
        e.z.dump = get("--dump");
        let r = e.run(&entry);
        if let Err(x) = r { e.incon.push(x); }
        let wall = t0.elapsed().as_secs_f64();
        let mut s = String::new();
        s.push_str(&format!("{{\"entry\":{},\"wall\":{:.3},\"solver\":{},", js(&entry), wall, js(&format!("libz3 {}", z3::version()))));
        s.push_str(&format!("\"paths\":{},\"forks\":{},\"steps\":{},\"killed\":{},\"asserts\":{},\"asserts_solver\":{},\"branch_queries\":{},\"concretised\":{},\"query_cache_hits\":{},\"guessed\":{},", e.st.paths, e.st.forks, e.st.steps, e.st.killed_assume, e.st.asserts, e.st.asserts_solver, e.st.branch_queries, e.st.concretised, e.st.cache_hits, e.st.guessed));
        s.push_str(&format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"exprs\":{},\"vars\":{},", e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, e.z.time, e.z.max_time, e.a.nodes.len(), e.a.nvars));
        s.push_str(&format!("\"covers\":{{{}}},", e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"assert_ids\":{{{}}},", e.assert_ids.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect::<Vec<_>>().join(",")));
        let mut ex: Vec<&str> = e.executed.iter().map(|f| e.m.funcs[*f as usize].name).collect();
        ex.sort();
        s.push_str(&format!("\"executed\":[{}],", ex.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
        s.push_str(&format!("\"inconclusive\":[{}],", e.incon.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
        let vs: Vec<String> = e.viols.iter().map(|v| format!("{{\"kind\":{},\"key\":{},\"values\":[{}],\"trace\":[{}]}}", js(&v.kind), js(&v.key),
            v.values.iter().map(|(t, w, x, f)| format!("[{},{},\"{}\",{}]", t, w, x, f)).collect::<Vec<_>>().join(","), v.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect();
        let ws: Vec<String> = e.witnesses.iter().map(|(v, c)| format!("{{\"values\":[{}],\"covers\":{:?}}}", v.iter().map(|(t, w, x, f)| format!("[{},{},\"{}\",{}]", t, w, x, f)).collect::<Vec<_>>().join(","), c)).collect();
        s.push_str(&format!("\"witnesses\":[{}],", ws.join(",")));
        s.push_str(&format!("\"violations\":[{}]}}", vs.join(",")));
        match out { Some(p) => { std::fs::File::create(p).unwrap().write_all(s.as_bytes()).unwrap(); } None => println!("{}", s) }
        if e.cfg.verbose {
            let mut fs: Vec<_> = e.fork_sites.iter().collect();
            fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, b), n) in fs.iter().take(12) { eprintln!("forks {:>7} {} bb{}", n, e.m.funcs[*f as usize].name, b); }
        }
        let code = if !e.viols.is_empty() { 1 } else if !e.incon.is_empty() { 3 } else { 0 };
        std::process::exit(code);
    }).unwrap();
    let _ = child.join();
}
