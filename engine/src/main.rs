mod term; mod ll; mod solver; mod exec;
use std::time::{Duration, Instant};
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap();
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn real() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string()) };
    let ll = &a[1];
    let entries: Vec<String> = get("--entry", "").split(',').map(|s| s.to_string()).collect();
    let jobs: usize = get("--jobs", "8").parse().unwrap();
    let secs: u64 = get("--time", "300").parse().unwrap();
    let out = get("--out", "");
    let wd = get("--workdir", "/tmp");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(ll).expect("read ll");
    std::panic::set_hook(Box::new(|_| {}));
    term::init();
    let m = ll::Module::parse(&text);
    let _ = std::panic::take_hook();
    let parse_s = t0.elapsed().as_secs_f64();
    let mut res = vec![];
    let mut module = Some(m);
    for e in &entries {
        let t1 = Instant::now();
        let m = module.take().unwrap();
        let Some(&ent) = m.fmap.get(e) else { eprintln!("symx: no function {}", e); std::process::exit(71) };
        let mut s = solver::Solver::new(get("--rlimit", "20000000").parse().unwrap(), get("--ext", "30").parse().unwrap());
        s.cross_every = get("--cross", "0").parse().unwrap();
        s.tmp = wd.clone();
        let o = exec::Opts { max_steps: get("--max-steps", "30000000").parse().unwrap(), deadline: t1 + Duration::from_secs(secs), jobs, sample_every: get("--sample-every", "7").parse().unwrap(), max_samples: get("--max-samples", "12").parse().unwrap(), seed: get("--seed", "1").parse().unwrap(), max_paths: get("--max-paths", "1000000000").parse().unwrap(), lazy: a.iter().any(|x| x == "--lazy") };
        let mut en = exec::Engine::new(m, o, s);
        en.run(ent, &wd);
        let t = &en.t; let q = &en.solver.st;
        let nums = |v: &Vec<u128>| format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","));
        let mut j = format!("{{\"entry\":{},\"paths\":{},\"killed\":{},\"panics_ok\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"asserts_const\":{},\"max_steps\":{},\"incomplete\":{},\"concretizations\":{},\"max_depth\":{},\"wall_s\":{:.2},\"parse_s\":{:.2}", js(e), t.paths, t.killed, t.panics_ok, t.instrs, t.forks, t.asserts, t.asserts_const, t.max_steps, t.incomplete, t.concret, t.max_forks, t1.elapsed().as_secs_f64(), parse_s);
        j += &format!(",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.2},\"fallback\":{},\"unsure\":{},\"cross\":{},\"cross_bad\":{}", q.queries, q.sat, q.unsat, q.unknown, q.cache, q.time_ns as f64 / 1e9, q.fallback, t.unsure, q.cross, q.cross_bad);
        j += &format!(",\"violations\":[{}]", en.viols.values().map(|v| format!("{{\"kind\":{},\"id\":{},\"loc\":{},\"inputs\":{},\"stack\":[{}]}}", js(&v.kind), v.id, js(&v.loc), nums(&v.inputs), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        j += &format!(",\"findings\":[{}]", en.findings.values().map(|v| format!("{{\"id\":{},\"inputs\":{}}}", v.id, nums(&v.inputs))).collect::<Vec<_>>().join(","));
        j += &format!(",\"errors\":{{{}}}", en.errors.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
        j += &format!(",\"covers\":{{{}}}", en.covers.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect::<Vec<_>>().join(","));
        j += &format!(",\"samples\":[{}]", en.samples.iter().map(|s| format!("{{\"end\":{},\"inputs\":{},\"obs\":{}}}", js(&s.end), nums(&s.inputs), nums(&s.obs))).collect::<Vec<_>>().join(","));
        let mut fs: Vec<&str> = en.funcs.iter().map(|f| en.m.funcs[*f as usize].pretty.as_str()).collect();
        fs.sort(); fs.dedup();
        j += &format!(",\"functions\":[{}]}}", fs.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        res.push(j);
        module = Some(en.m);
    }
    let all = format!("[{}]\n", res.join(",\n"));
    if out.is_empty() { print!("{}", all) } else { std::fs::write(out, all).unwrap() }
}
