mod exec;
mod expr;
mod hooks;
mod ir;
mod poly;
mod solver;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn _exit(c: i32) -> !;
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Clone, Debug)]
struct Job {
    entry: String,
    args: Vec<u64>,
    opts: Vec<String>,
}
fn inputs_js(v: &[(u8, f64, u64)]) -> String {
    let i: Vec<String> = v.iter().map(|(k, f, u)| format!("[{k},{},{u}]", if f.is_finite() { format!("{f:e}") } else { "0".into() })).collect();
    format!("[{}]", i.join(","))
}
fn result(vm: &exec::Vm, job: &Job, wall: f64) -> String {
    let mut o = String::from("{");
    let kv = |o: &mut String, k: &str, v: String| {
        if o.len() > 1 {
            o.push(',')
        }
        o.push_str(&format!("{}:{}", js(k), v));
    };
    kv(&mut o, "entry", js(&job.entry));
    kv(&mut o, "args", format!("{:?}", job.args));
    kv(&mut o, "opts", format!("[{}]", job.opts.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    kv(&mut o, "paths", vm.paths.to_string());
    kv(&mut o, "ended", vm.ended.to_string());
    kv(&mut o, "forks", vm.forks.to_string());
    kv(&mut o, "checks", vm.checks.to_string());
    kv(&mut o, "steps", vm.total_steps.to_string());
    kv(&mut o, "queries", vm.s.queries.to_string());
    kv(&mut o, "sat", vm.s.sat.to_string());
    kv(&mut o, "unsat", vm.s.unsat.to_string());
    kv(&mut o, "unknown", vm.s.unknown.to_string());
    kv(&mut o, "unknown_checks", vm.unknown_checks.to_string());
    kv(&mut o, "unknown_branches", vm.unknown_branches.to_string());
    kv(&mut o, "cached", vm.s.cached.to_string());
    kv(&mut o, "solver_s", format!("{:.3}", vm.s.time));
    kv(&mut o, "max_query_s", format!("{:.3}", vm.s.max_time));
    kv(&mut o, "wall_s", format!("{wall:.3}"));
    kv(&mut o, "timed_out", vm.timed_out.to_string());
    let c: Vec<String> = vm.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    kv(&mut o, "covers", format!("{{{}}}", c.join(",")));
    let c: Vec<String> = vm.unsup.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    kv(&mut o, "unsupported", format!("{{{}}}", c.join(",")));
    let f: Vec<String> = vm
        .executed
        .iter()
        .map(|&f| vm.m.funcs[f as usize].pretty.clone())
        .filter(|p| p.contains("s2gpp"))
        .map(|p| js(&p))
        .collect();
    kv(&mut o, "functions", format!("[{}]", f.join(",")));
    kv(&mut o, "n_functions", vm.executed.len().to_string());
    let v: Vec<String> = vm
        .violations
        .iter()
        .map(|v| {
            let t: Vec<String> = v.trace.iter().map(|t| js(t)).collect();
            let n: Vec<String> = v.notes.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
            format!("{{\"tag\":{},\"what\":{},\"trace\":[{}],\"inputs\":{},\"notes\":[{}]}}", v.tag, js(&v.what), t.join(","), inputs_js(&v.inputs), n.join(","))
        })
        .collect();
    kv(&mut o, "violations", format!("[{}]", v.join(",")));
    if let Some(s) = &vm.sample {
        kv(&mut o, "sample", inputs_js(s));
    }
    if job.opts.iter().any(|o| o == "notes") {
        let n: Vec<String> = vm.last_notes.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
        kv(&mut o, "notes", format!("[{}]", n.join(",")));
    }
    o.push('}');
    o
}
/// usage: engine IR OUTDIR PARALLEL TIMEOUT_S  < jobs
/// job line: entry arg,arg opt,opt
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (irp, outdir, par, tmo) = (&a[1], &a[2], a[3].parse::<usize>().unwrap(), a[4].parse::<u64>().unwrap());
    std::fs::create_dir_all(outdir).unwrap();
    let mut inp = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut inp).unwrap();
    let mut jobs: Vec<Job> = vec![];
    for l in inp.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.is_empty() {
            continue;
        }
        let args = p.get(1).map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect());
        let opts = p.get(2).map_or(vec![], |s| s.split(',').map(|x| x.to_string()).collect());
        jobs.push(Job { entry: p[0].into(), args, opts });
    }
    let t0 = Instant::now();
    let text = String::from_utf8_lossy(&std::fs::read(irp).unwrap()).to_string();
    let m = ir::Module::parse(text);
    let mut vm = exec::Vm::new(m);
    eprintln!("parsed in {:.2}s, {} functions", t0.elapsed().as_secs_f64(), vm.m.funcs.len());
    let t1 = Instant::now();
    let deadline = t1 + Duration::from_secs(tmo);
    // every job is split over `split=` processes when asked for
    let mut running: Vec<(i32, usize)> = vec![];
    let mut next = 0;
    let mut bad = 0;
    loop {
        while running.len() < par && next < jobs.len() {
            let pid = unsafe { fork() };
            if pid == 0 {
                let job = jobs[next].clone();
                let st = Instant::now();
                for o in &job.opts {
                    if o == "real" {
                        vm.real = true
                    } else if o == "symhash" {
                        vm.symhash = true
                    } else if o == "trace" {
                        vm.trace_calls = true
                    } else if o == "itrace" {
                        vm.itrace = true
                    } else if o == "verbose" {
                        vm.s.verbose = true
                    } else if let Some(v) = o.strip_prefix("seed=") {
                        vm.hash_seed = v.parse().unwrap()
                    } else if let Some(v) = o.strip_prefix("qt=") {
                        vm.s.timeout_ms = v.parse::<u32>().unwrap() * 1000
                    } else if let Some(v) = o.strip_prefix("steps=") {
                        vm.max_steps = v.parse().unwrap()
                    } else if let Some(v) = o.strip_prefix("maxviol=") {
                        vm.max_viol = v.parse().unwrap()
                    }
                }
                vm.deadline = Some(deadline);
                if vm.m.syms.get(&job.entry).is_none() {
                    std::fs::write(format!("{outdir}/{next}.json"), format!("{{\"entry\":{},\"missing\":true}}", js(&job.entry))).unwrap();
                    unsafe { _exit(0) }
                }
                vm.start(&job.entry, &job.args);
                vm.run();
                let r = result(&vm, &job, st.elapsed().as_secs_f64());
                std::fs::write(format!("{outdir}/{next}.json"), r).unwrap();
                std::io::stdout().flush().unwrap();
                unsafe { _exit(0) }
            }
            running.push((pid, next));
            next += 1;
        }
        if running.is_empty() {
            break;
        }
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 1) };
        if p > 0 {
            if let Some(i) = running.iter().position(|r| r.0 == p) {
                let (_, j) = running.remove(i);
                if st != 0 {
                    bad += 1;
                    eprintln!("job {j} {:?} died with status {st}", jobs[j]);
                    std::fs::write(format!("{outdir}/{j}.json"), format!("{{\"entry\":{},\"died\":{st}}}", js(&jobs[j].entry))).unwrap();
                }
            }
        } else {
            if Instant::now() > deadline + Duration::from_secs(30) {
                for (p, j) in &running {
                    unsafe { kill(*p, 9) };
                    std::fs::write(format!("{outdir}/{j}.json"), format!("{{\"entry\":{},\"args\":{:?},\"killed\":true}}", js(&jobs[*j].entry), jobs[*j].args)).unwrap();
                }
                bad += 1;
                if next >= jobs.len() {
                    break;
                }
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    eprintln!("{} jobs, {bad} died, {:.2}s", jobs.len(), t1.elapsed().as_secs_f64());
}
