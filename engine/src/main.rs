//! symex: symbolic execution of LLVM IR with an SMT solver deciding every branch.
mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Q { items: Vec<Item>, busy: usize, stop: bool, reason: String, viol_keys: BTreeSet<String>, viols: Vec<Violation>, first_viol: Option<Instant>, done_paths: u64 }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn vals(v: &[(String, u32, u128)]) -> String {
    format!("[{}]", v.iter().map(|(n, w, x)| format!("[{},{},{}]", js(n), w, x)).collect::<Vec<_>>().join(","))
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let pat = format!("{}: ", k);
    let mut from = 0;
    loop {
        let i = s[from..].find(&pat)? + from;
        let ok = i == 0 || matches!(s.as_bytes()[i - 1], b'(' | b' ');
        if ok {
            let r = &s[i + pat.len()..];
            if let Some(q) = r.strip_prefix('"') { return Some(&q[..q.find('"')?]); }
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = i + pat.len();
    }
}
struct Dbg<'a> { m: &'a ir::Module, scope: HashMap<u32, Option<(String, String)>> }
impl<'a> Dbg<'a> {
    fn t(&self, id: u32) -> Option<&'a str> { self.m.meta.get(&id).map(|&(a, b)| &self.m.text[a..b]) }
    fn mref(s: Option<&str>) -> Option<u32> { s?.strip_prefix('!')?.parse().ok() }
    fn sub(&mut self, id: u32) -> Option<(String, String)> {
        if let Some(r) = self.scope.get(&id) { return r.clone(); }
        let t = self.t(id)?;
        let r = if t.contains("DISubprogram(") {
            let file = Self::mref(field(t, "file")).and_then(|f| self.t(f)).map(|f| {
                let (n, d) = (field(f, "filename").unwrap_or(""), field(f, "directory").unwrap_or(""));
                let n = n.split("/@/").next().unwrap_or(n);
                if n.starts_with('/') { n.to_string() } else { format!("{}/{}", d, n) }
            }).unwrap_or_default();
            Some((file, field(t, "name").unwrap_or("?").to_string()))
        } else { Self::mref(field(t, "scope")).and_then(|s| self.sub(s)) };
        self.scope.insert(id, r.clone());
        r
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut file = String::new();
    let mut entry = String::from("sym_main");
    let mut threads = 8usize;
    let mut cfg = Cfg { max_steps: 20_000_000, alloc_limit: 64 << 20, params: HashMap::new(), max_viol: 12, trace: false, ite_max: 1024, sites: std::env::var("RB_SITES").is_ok() };
    let mut z3p = String::from("/usr/lib/x86_64-linux-gnu/libz3.so.4");
    let mut time_limit = 600.0f64;
    let mut max_paths = u64::MAX;
    let mut out = String::new();
    let mut timeout_ms = 60_000u32;
    let mut cover = String::from("/repo/src");
    let mut grace = 15.0f64;
    let mut known: Vec<String> = vec![];
    let mut dump = None;
    while let Some(x) = a.next() {
        let mut n = || a.next().expect("argument");
        match x.as_str() {
            "--entry" => entry = n(), "--threads" => threads = n().parse().unwrap(), "--max-steps" => cfg.max_steps = n().parse().unwrap(),
            "--alloc-limit" => cfg.alloc_limit = n().parse().unwrap(), "--param" => { let s = n(); let (k, v) = s.split_once('=').unwrap(); cfg.params.insert(k.into(), v.parse().unwrap()); }
            "--max-viol" => cfg.max_viol = n().parse().unwrap(), "--trace" => cfg.trace = true, "--z3" => z3p = n(), "--time-limit" => time_limit = n().parse().unwrap(),
            "--max-paths" => max_paths = n().parse().unwrap(), "--out" => out = n(), "--timeout-ms" => timeout_ms = n().parse().unwrap(), "--cover" => cover = n(),
            "--grace" => grace = n().parse().unwrap(), "--known" => known.push(n()), "--dump" => dump = Some(n()), "--ite-max" => cfg.ite_max = n().parse().unwrap(),
            s => file = s.to_string(),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read ll");
    let m = match ir::Module::parse(text) { Ok(m) => m, Err(e) => { eprintln!("parse error: {}", e); std::process::exit(3) } };
    let p = match Prog::new(m) { Ok(p) => Arc::new(p), Err(e) => { eprintln!("module error: {}", e); std::process::exit(3) } };
    let parse_s = t0.elapsed().as_secs_f64();
    let ef = match p.m.fmap.get(&entry) { Some(&f) if p.m.funcs[f as usize].defined => f, _ => { eprintln!("entry {} not found", entry); std::process::exit(3) } };
    let api = match z3::Api::load(&z3p) { Ok(a) => Arc::new(a), Err(e) => { eprintln!("{}", e); std::process::exit(3) } };
    let zver = z3::Solver::version(&api);
    let cfg = Arc::new(cfg);
    let q = Arc::new((Mutex::new(Q { items: vec![Item { prefix: vec![], model: vec![] }], busy: 0, stop: false, reason: String::new(), viol_keys: BTreeSet::new(), viols: vec![], first_viol: None, done_paths: 0 }), Condvar::new()));
    let known = Arc::new(known);
    let start = Instant::now();
    let mut hs = vec![];
    for _ in 0..threads {
        let (p, api, cfg, q, dump, known) = (p.clone(), api.clone(), cfg.clone(), q.clone(), dump.clone(), known.clone());
        hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            let mut ex = Ex::new(p, api, cfg.clone(), timeout_ms);
            ex.sol.dump = dump;
            loop {
                let item = {
                    let mut g = q.0.lock().unwrap();
                    loop {
                        if g.stop { break None; }
                        if start.elapsed().as_secs_f64() > time_limit { g.stop = true; g.reason = "time limit".into(); q.1.notify_all(); break None; }
                        if g.done_paths >= max_paths { g.stop = true; g.reason = "path limit".into(); q.1.notify_all(); break None; }
                        if let Some(t) = g.first_viol { if t.elapsed().as_secs_f64() > grace { g.stop = true; g.reason = "stopped after violations".into(); q.1.notify_all(); break None; } }
                        if let Some(i) = g.items.pop() { g.busy += 1; break Some(i); }
                        if g.busy == 0 { q.1.notify_all(); break None; }
                        g = q.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                    }
                };
                let item = match item { Some(i) => i, None => break };
                ex.run_path(ef, item);
                let mut g = q.0.lock().unwrap();
                g.busy -= 1;
                g.done_paths += 1;
                g.items.append(&mut ex.new_items);
                for v in ex.out.viols.drain(..) {
                    let key = format!("{}|{}", v.kind, v.msg);
                    if g.viol_keys.insert(key.clone()) {
                        if !known.iter().any(|k| key.contains(k.as_str())) && g.first_viol.is_none() { g.first_viol = Some(Instant::now()); }
                        g.viols.push(v);
                        if g.viols.len() >= cfg.max_viol { g.stop = true; g.reason = "violation limit".into(); }
                    }
                }
                if !ex.out.incon.is_empty() && g.reason.is_empty() && ex.out.incon.len() >= 20 { g.stop = true; g.reason = "inconclusive paths".into(); }
                q.1.notify_all();
            }
            ex.acc_stats();
            (ex.out, ex.stats_acc, ex.visited)
        }).unwrap());
    }
    let mut tot = Out::default();
    let mut st = z3::Stats::default();
    let mut vis: Vec<Vec<bool>> = p.m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
    for h in hs {
        let (o, s, v) = match h.join() { Ok(x) => x, Err(_) => { eprintln!("worker panicked"); std::process::exit(3) } };
        tot.paths += o.paths; tot.infeasible += o.infeasible; tot.steps += o.steps; tot.forks += o.forks; tot.unknown += o.unknown;
        tot.max_steps = tot.max_steps.max(o.max_steps); tot.maxvars = tot.maxvars.max(o.maxvars); tot.maxdec = tot.maxdec.max(o.maxdec);
        for i in o.incon { if !tot.incon.contains(&i) { tot.incon.push(i); } }
        for (k, v) in o.reach { *tot.reach.entry(k).or_insert(0) += v; }
        for (k, v) in o.witness { tot.witness.entry(k).or_insert(v); }
        if tot.samples.len() < 8 { tot.samples.extend(o.samples); }
        st.queries += s.queries; st.sat += s.sat; st.unsat += s.unsat; st.unknown += s.unknown; st.cache_hits += s.cache_hits; st.time += s.time; st.max_time = st.max_time.max(s.max_time);
        for (a, b) in vis.iter_mut().zip(v) { for (x, y) in a.iter_mut().zip(b) { *x |= y; } }
    }
    let g = q.0.lock().unwrap();
    let complete = g.items.is_empty() && !g.stop && tot.incon.is_empty() && tot.unknown == 0;
    // coverage of the code under test
    let mut cov: BTreeMap<String, BTreeMap<String, BTreeSet<u32>>> = BTreeMap::new();
    let mut dbg = Dbg { m: &p.m, scope: HashMap::new() };
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let (mut fv, mut bv) = (0, 0);
    for (f, b) in vis.iter().enumerate() {
        if b.iter().any(|x| *x) { fv += 1; }
        for (bi, x) in b.iter().enumerate() {
            if !*x { continue; }
            bv += 1;
            for i in &p.m.funcs[f].blocks[bi].insts {
                let mut id = i.dbg;
                while id != 0 && seen.insert(id) {
                    let t = match dbg.t(id) { Some(t) => t, None => break };
                    let line = field(t, "line").and_then(|x| x.parse::<u32>().ok()).unwrap_or(0);
                    let next = Dbg::mref(field(t, "inlinedAt")).unwrap_or(0);
                    if let Some(s) = Dbg::mref(field(t, "scope")) {
                        if let Some((file, name)) = dbg.sub(s) { if file.starts_with(&cover) { cov.entry(file).or_default().entry(name).or_default().insert(line); } }
                    }
                    id = next;
                }
            }
        }
    }
    let mut o = String::from("{");
    o += &format!("\"complete\":{},\"reason\":{},\"pending\":{},", complete, js(&g.reason), g.items.len());
    o += &format!("\"paths\":{},\"infeasible\":{},\"instructions\":{},\"max_path_instructions\":{},\"forks\":{},\"max_symbolic_vars\":{},\"max_decisions\":{},", tot.paths, tot.infeasible, tot.steps, tot.max_steps, tot.forks, tot.maxvars, tot.maxdec);
    o += &format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"solver\":{},", st.queries, st.sat, st.unsat, st.unknown, st.cache_hits, st.time, st.max_time, js(&zver));
    o += &format!("\"wall_seconds\":{:.3},\"parse_seconds\":{:.3},\"ir_functions_executed\":{},\"ir_blocks_executed\":{},", start.elapsed().as_secs_f64(), parse_s, fv, bv);
    o += &format!("\"violations\":[{}],", g.viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"values\":{},\"trace\":[{}],\"reach\":[{}]}}", js(&v.kind), js(&v.msg), vals(&v.values), v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v.reach.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o += &format!("\"inconclusive\":[{}],", tot.incon.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"reach\":{{{}}},", tot.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"witness\":{{{}}},", tot.witness.iter().map(|(k, v)| format!("{}:{}", js(k), vals(v))).collect::<Vec<_>>().join(","));
    o += &format!("\"samples\":[{}],", tot.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"covered\":{{{}}}", cov.iter().map(|(f, m)| format!("{}:{{{}}}", js(f), m.iter().map(|(n, l)| format!("{}:[{}]", js(n), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o.push('}');
    if out.is_empty() { println!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
    // leave without running destructors of large arenas
    std::process::exit(0);
}
