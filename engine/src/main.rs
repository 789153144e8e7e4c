mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use ir::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io::Write;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
struct Job {
    h: usize,
    param: u64,
    prefix: Vec<u64>,
}

#[derive(Default)]
struct Shared {
    q: VecDeque<Job>,
    active: usize,
    idle: usize,
    results: BTreeMap<(usize, u64), JobRes>,
    stop: bool,
}

#[derive(Default, Debug, Clone)]
struct JobRes {
    paths: u64,
    done: u64,
    infeasible: u64,
    violations: Vec<Viol>,
    nviol: u64,
    errors: Vec<String>,
    reach: u64,
    samples: Vec<(Vec<u8>, Vec<u64>)>,
    steps: u64,
    wall_ms: u64,
}

#[derive(Debug, Clone)]
struct Viol {
    kind: String,
    id: u32,
    input: Vec<u8>,
    decisions: usize,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut jobs: Vec<(String, u64)> = vec![];
    let mut threads = 8usize;
    let mut out = String::new();
    let mut deadline = 3600u64;
    let mut max_viol = 8usize;
    let mut max_samples = 3usize;
    let mut init: Option<String> = None;
    let mut qto = 20000u32;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--ll" => {
                ll = args[i + 1].clone();
                i += 1
            }
            "--job" => {
                let (a, b) = args[i + 1].rsplit_once(':').unwrap();
                jobs.push((a.to_string(), b.parse().unwrap()));
                i += 1
            }
            "--jobs-file" => {
                for l in std::fs::read_to_string(&args[i + 1]).unwrap().lines() {
                    if let Some((a, b)) = l.trim().rsplit_once(':') {
                        jobs.push((a.to_string(), b.parse().unwrap()));
                    }
                }
                i += 1
            }
            "--threads" => {
                threads = args[i + 1].parse().unwrap();
                i += 1
            }
            "--out" => {
                out = args[i + 1].clone();
                i += 1
            }
            "--deadline" => {
                deadline = args[i + 1].parse().unwrap();
                i += 1
            }
            "--max-viol" => {
                max_viol = args[i + 1].parse().unwrap();
                i += 1
            }
            "--samples" => {
                max_samples = args[i + 1].parse().unwrap();
                i += 1
            }
            "--query-timeout-ms" => {
                qto = args[i + 1].parse().unwrap();
                i += 1
            }
            "--init" => {
                init = Some(args[i + 1].clone());
                i += 1
            }
            x => panic!("argument {}", x),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let src = std::fs::read(&ll).expect("ll file");
    let mut m = Module::parse(&src);
    drop(src);
    let parse_s = t0.elapsed().as_secs_f64();
    // model replacements, by symbol
    let mut replaced = vec![];
    for f in m.funcs.iter_mut() {
        let n = &f.name;
        let ic = if n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("panicking19panic_cannot_unwind") || n.contains("handle_alloc_error") || n.ends_with("5alloc18handle_alloc_error") {
            Some(Ext::Panic)
        } else {
            None
        };
        if let Some(ic) = ic {
            f.intercept = Some(ic);
            replaced.push(format!("{} -> {:?}", n, ic));
        }
    }
    let nfuncs = m.funcs.len();
    let ninst: usize = m.funcs.iter().map(|f| f.code.len()).sum();
    eprintln!("parsed {} functions, {} instructions in {:.2}s", nfuncs, ninst, parse_s);
    let m = Arc::new(m);
    let mut hn: Vec<String> = vec![];
    let shared = Arc::new((Mutex::new(Shared::default()), Condvar::new()));
    {
        let mut s = shared.0.lock().unwrap();
        for (n, p) in &jobs {
            let h = match hn.iter().position(|x| x == n) {
                Some(h) => h,
                None => {
                    hn.push(n.clone());
                    hn.len() - 1
                }
            };
            s.q.push_back(Job { h, param: *p, prefix: vec![] });
            s.results.insert((h, *p), JobRes::default());
        }
    }
    let hn = Arc::new(hn);
    let end = t0 + Duration::from_secs(deadline);
    let sc = solver::new_shared();
    let mut th = vec![];
    for _ in 0..threads {
        let (m, shared, hn, init, sc) = (m.clone(), shared.clone(), hn.clone(), init.clone(), sc.clone());
        th.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || worker(m, shared, hn, init, end, max_viol, max_samples, qto, sc))
                .unwrap(),
        );
    }
    let mut blocks = vec![false; m.nblocks as usize];
    let mut st = solver::Stats::default();
    let (mut steps, mut forks, mut aq, mut ac, mut asq, mut cz) = (0, 0, 0, 0, 0, 0);
    let mut dis: Vec<String> = vec![];
    let mut sites: HashMap<(u32, u32), u64> = HashMap::new();
    for t in th {
        let w = t.join().expect("worker panicked");
        for (i, b) in w.blocks.iter().enumerate() {
            blocks[i] |= *b;
        }
        let s = &w.stats;
        st.queries += s.queries;
        st.cache_hits += s.cache_hits;
        st.unary_queries += s.unary_queries;
        st.multi_queries += s.multi_queries;
        st.sat += s.sat;
        st.unsat += s.unsat;
        st.unknown += s.unknown;
        st.solver_ns += s.solver_ns;
        st.max_ns = st.max_ns.max(s.max_ns);
        steps += w.steps;
        forks += w.forks;
        aq += w.aq;
        ac += w.ac;
        asq += w.asq;
        cz += w.cz;
        dis.extend(w.dis);
        for (k, v) in w.sites {
            *sites.entry(k).or_default() += v;
        }
    }
    if !sites.is_empty() {
        let mut v: Vec<_> = sites.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for ((f, pc), n) in v.iter().take(60) {
            let fu = &m.funcs[*f as usize];
            eprintln!("{:8} {} @{} {}", n, fu.name, pc, dbg_loc(&m, fu.dbg.get(*pc as usize).copied().unwrap_or(0)));
        }
    }
    let sh = shared.0.lock().unwrap();
    // functions reached, from debug info
    let mut fns: HashSet<String> = HashSet::new();
    let mut irf: HashSet<String> = HashSet::new();
    for f in &m.funcs {
        for (bi, &s) in f.blk_start.iter().enumerate() {
            if !blocks[f.blk_base as usize + bi] {
                continue;
            }
            irf.insert(f.name.clone());
            let e = f.blk_start.get(bi + 1).copied().unwrap_or(f.code.len() as u32);
            for pc in s..e {
                let d = f.dbg[pc as usize];
                if d != 0 {
                    collect_fns(&m, d, &mut fns);
                }
            }
        }
    }
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(
        "\"parse_s\":{:.3},\"wall_s\":{:.3},\"ir_functions\":{},\"ir_instructions\":{},\"ir_functions_executed\":{},\"instructions_executed\":{},\"forks\":{},\n",
        parse_s,
        t0.elapsed().as_secs_f64(),
        nfuncs,
        ninst,
        irf.len(),
        steps,
        forks
    ));
    o.push_str(&format!("\"queries\":{},\"cache_hits\":{},\"unary_queries\":{},\"multi_queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"assert_queries\":{},\"assert_on_decided_path\":{},\"assume_queries\":{},\"concretizations\":{},\n",
        st.queries, st.cache_hits, st.unary_queries, st.multi_queries, st.sat, st.unsat, st.unknown, st.solver_ns as f64 / 1e9, st.max_ns as f64 / 1e9, aq, ac, asq, cz));
    o.push_str(&format!("\"disagreements\":[{}],\n", dis.iter().take(20).map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"intercepts\":[{}],\n", replaced.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    let mut fv: Vec<_> = fns.into_iter().collect();
    fv.sort();
    o.push_str(&format!("\"functions\":[{}],\n", fv.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    o.push_str("\"jobs\":[\n");
    let mut first = true;
    for ((h, p), r) in &sh.results {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        o.push_str(&format!(
            "{{\"harness\":{},\"param\":{},\"paths\":{},\"done\":{},\"infeasible\":{},\"nviol\":{},\"reach\":{},\"steps\":{},\"wall_ms\":{},\"violations\":[{}],\"errors\":[{}],\"samples\":[{}]}}",
            jstr(&hn[*h]),
            p,
            r.paths,
            r.done,
            r.infeasible,
            r.nviol,
            r.reach,
            r.steps,
            r.wall_ms,
            r.violations.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"input\":\"{}\",\"decisions\":{}}}", jstr(&v.kind), v.id, hex(&v.input), v.decisions)).collect::<Vec<_>>().join(","),
            r.errors.iter().take(5).map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            r.samples.iter().map(|(a, b)| format!("[\"{}\",[{}]]", hex(a), b.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
        ));
    }
    o.push_str("\n]\n}\n");
    if out.is_empty() {
        std::io::stdout().write_all(o.as_bytes()).unwrap();
    } else {
        std::fs::write(&out, o).unwrap();
    }
}

fn md_field(s: &str, k: &str) -> Option<String> {
    let pat = format!("{}: ", k);
    let mut from = 0;
    loop {
        let p = s[from..].find(&pat)? + from;
        if p == 0 || matches!(s.as_bytes()[p - 1], b'(' | b' ') {
            let r = &s[p + pat.len()..];
            if let Some(r) = r.strip_prefix('"') {
                return Some(r[..r.find('"')?].to_string());
            }
            let e = r.find([',', ')'])?;
            return Some(r[..e].to_string());
        }
        from = p + 1;
    }
}
fn md_ref(s: &str, k: &str) -> Option<u32> {
    md_field(s, k)?.strip_prefix('!')?.parse().ok()
}
fn scope_fn(m: &Module, mut sc: u32) -> Option<(String, String)> {
    for _ in 0..64 {
        let s = m.md.get(&sc)?;
        if s.starts_with("!DISubprogram") {
            let file = md_ref(s, "file").and_then(|f| m.md.get(&f)).and_then(|f| md_field(f, "filename")).unwrap_or_default();
            let n = md_field(s, "linkageName").or_else(|| md_field(s, "name"))?;
            return Some((n, file));
        }
        sc = md_ref(s, "scope")?;
    }
    None
}
fn collect_fns(m: &Module, mut d: u32, out: &mut HashSet<String>) {
    for _ in 0..64 {
        let s = match m.md.get(&d) {
            Some(s) if s.starts_with("!DILocation") => s,
            _ => return,
        };
        if let Some(sc) = md_ref(s, "scope") {
            if let Some((n, file)) = scope_fn(m, sc) {
                if file.contains("vimwiki") {
                    out.insert(n);
                }
            }
        }
        match md_ref(s, "inlinedAt") {
            Some(i) => d = i,
            None => return,
        }
    }
}
fn dbg_loc(m: &Module, mut d: u32) -> String {
    let mut o = String::new();
    for _ in 0..8 {
        let s = match m.md.get(&d) {
            Some(s) => s,
            None => break,
        };
        let line = md_field(s, "line").unwrap_or_default();
        if let Some((n, f)) = md_ref(s, "scope").and_then(|x| scope_fn(m, x)) {
            let fs = f.rsplit('/').next().unwrap_or("").to_string();
            let tail: String = n.chars().rev().take(50).collect::<Vec<_>>().into_iter().rev().collect();
            o.push_str(&format!("[{}:{} {}] ", fs, line, tail));
        }
        match md_ref(s, "inlinedAt") {
            Some(i) => d = i,
            None => break,
        }
    }
    o
}

struct WorkerOut {
    blocks: Vec<bool>,
    stats: solver::Stats,
    steps: u64,
    forks: u64,
    aq: u64,
    ac: u64,
    asq: u64,
    cz: u64,
    dis: Vec<String>,
    sites: HashMap<(u32, u32), u64>,
}

#[allow(clippy::too_many_arguments)]
fn worker(m: Arc<Module>, shared: Arc<(Mutex<Shared>, Condvar)>, hn: Arc<Vec<String>>, init: Option<String>, end: Instant, max_viol: usize, max_samples: usize, qto: u32, sc: solver::Shared) -> WorkerOut {
    let mut vm = Vm::new(m.clone(), qto, sc);
    vm.deadline = Some(end);
    let mut base = vm.base_state();
    if let Some(f) = &init {
        vm.start(&mut base, f, &[]);
        match vm.run(&mut base) {
            Stop::Done => {}
            s => eprintln!("init: {:?}", s),
        }
        base.steps = 0;
    }
    loop {
        let job = {
            let mut s = shared.0.lock().unwrap();
            loop {
                if s.stop {
                    break None;
                }
                if let Some(j) = s.q.pop_front() {
                    s.active += 1;
                    break Some(j);
                }
                if s.active == 0 {
                    s.stop = true;
                    shared.1.notify_all();
                    break None;
                }
                s.idle += 1;
                s = shared.1.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
                s.idle -= 1;
            }
        };
        let job = match job {
            Some(j) => j,
            None => break,
        };
        let tj = Instant::now();
        let steps0 = vm.total_steps;
        let mut res = JobRes::default();
        let mut st = base.clone();
        vm.start(&mut st, &hn[job.h], &[job.param]);
        vm.prefix = job.prefix.clone();
        vm.work.clear();
        vm.work.push(st);
        while let Some(mut st) = vm.work.pop() {
            let stop = vm.run(&mut st);
            if st.decisions.len() >= vm.prefix.len() {
                // past the replayed prefix: later states never need it again
            }
            res.paths += 1;
            res.reach |= st.reach;
            match stop {
                Stop::Done => {
                    res.done += 1;
                    if !vm.solver.model_ok(&vm.x, &st.pc) {
                        vm.solver.disagreements.push("path model does not satisfy its path condition".into());
                    }
                    if res.samples.len() < max_samples {
                        let inp = vm.assume_model(&st);
                        let mut memo = HashMap::new();
                        let obs = st.obs.iter().map(|(v, e)| if *e == 0 { *v } else { vm.x.eval(*e, &inp, &mut memo) as u64 }).collect();
                        res.samples.push((inp, obs));
                    }
                }
                Stop::Infeasible => res.infeasible += 1,
                Stop::Panic(s) => {
                    res.nviol += 1;
                    if res.violations.len() < max_viol {
                        res.violations.push(Viol { kind: format!("panic {}", s), id: 0, input: vm.assume_model(&st), decisions: st.decisions.len() });
                    }
                }
                Stop::Assert(id) => {
                    res.nviol += 1;
                    if res.violations.iter().filter(|v| v.id == id && v.kind == "assert").count() < max_viol {
                        res.violations.push(Viol { kind: "assert".into(), id, input: vm.assume_model(&st), decisions: st.decisions.len() });
                    }
                }
                Stop::Error(s) => {
                    if res.errors.len() < 20 {
                        let inp = vm.assume_model(&st);
                        res.errors.push(format!("{} (input so far {})", s, hex(&inp)));
                    }
                    if s == "deadline" {
                        vm.work.clear();
                    }
                }
            }
            // share work
            if !vm.work.is_empty() {
                let mut s = shared.0.lock().unwrap();
                let want = s.idle.saturating_sub(s.q.len()).min(vm.work.len());
                if want > 0 {
                    for w in vm.work.drain(0..want) {
                        s.q.push_back(Job { h: job.h, param: job.param, prefix: w.decisions.clone() });
                    }
                    shared.1.notify_all();
                }
            }
        }
        res.steps = vm.total_steps - steps0;
        res.wall_ms = tj.elapsed().as_millis() as u64;
        let mut s = shared.0.lock().unwrap();
        s.active -= 1;
        let r = s.results.get_mut(&(job.h, job.param)).unwrap();
        r.paths += res.paths;
        r.done += res.done;
        r.infeasible += res.infeasible;
        r.nviol += res.nviol;
        r.reach |= res.reach;
        r.steps += res.steps;
        r.wall_ms += res.wall_ms;
        for v in res.violations {
            if r.violations.len() < 4 * max_viol {
                r.violations.push(v);
            }
        }
        r.errors.extend(res.errors);
        for x in res.samples {
            if r.samples.len() < max_samples {
                r.samples.push(x);
            }
        }
        shared.1.notify_all();
    }
    WorkerOut {
        blocks: vm.blocks,
        stats: vm.solver.stats.clone(),
        steps: vm.total_steps,
        forks: vm.forks,
        aq: vm.assert_queries,
        ac: vm.assert_concrete,
        asq: vm.assume_queries,
        cz: vm.concretizations,
        dis: vm.solver.disagreements,
        sites: vm.fork_sites,
    }
}
