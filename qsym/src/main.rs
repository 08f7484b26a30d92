mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

#[derive(Default, Clone)]
struct Sum {
    n: std::collections::BTreeMap<String, u64>,
    covers: Vec<u64>,
    entered: Vec<bool>,
    viols: Vec<String>,
    errs: Vec<String>,
    samples: Vec<String>,
    left: u64,
}

fn collect(x: &Exec, left: u64) -> Sum {
    let mut s = Sum { covers: x.covers.clone(), entered: x.entered.clone(), left, ..Default::default() };
    let mut p = |k: &str, v: u64| {
        s.n.insert(k.into(), v);
    };
    p("paths", x.paths);
    p("killed", x.killed);
    p("forks", x.forks);
    p("instructions", x.instrs);
    p("asserts", x.asserts);
    p("assert_queries", x.assert_q);
    p("asserts_constant_on_path", x.assert_const);
    p("panics_expected", x.panics_expected);
    p("solver_queries", x.z.queries);
    p("solver_sat", x.z.sat);
    p("solver_unsat", x.z.unsat);
    p("solver_unknown", x.z.unknown);
    p("solver_us", x.z.time.as_micros() as u64);
    p("decided_syntactic", x.decided_syntactic);
    p("decided_cached_model", x.decided_model);
    p("context_switch_forks", x.ctx_switches);
    p("error_paths", x.err_paths);
    p("lia_queries", x.z.lia_queries);
    p("max_steps", x.max_steps);
    p("max_symbolic_inputs", x.max_nvars as u64);
    for v in &x.viol {
        s.viols.push(format!(
            "{{\"kind\":{},\"msg\":{},\"prop\":{},\"code\":{},\"inputs\":{:?},\"trace\":[{}]}}",
            js(&v.kind),
            js(&v.msg),
            v.prop,
            v.code,
            v.inputs,
            v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")
        ));
    }
    if let Some(e) = &x.err {
        s.errs.push(js(e));
    }
    s.samples = x.samples.iter().map(|v| format!("{{\"inputs\":{:?},\"obs\":{}}}", v.0, v.1)).collect();
    s
}

fn dump(s: &Sum, p: &str) {
    let mut o = String::new();
    for (k, v) in &s.n {
        o += &format!("N {k} {v}\n");
    }
    for (i, c) in s.covers.iter().enumerate() {
        if *c > 0 {
            o += &format!("C {i} {c}\n");
        }
    }
    for (i, c) in s.entered.iter().enumerate() {
        if *c {
            o += &format!("F {i}\n");
        }
    }
    for v in &s.viols {
        o += &format!("V {v}\n");
    }
    for v in &s.errs {
        o += &format!("E {v}\n");
    }
    for v in &s.samples {
        o += &format!("S {v}\n");
    }
    o += &format!("L {}\n", s.left);
    o += "END\n";
    std::fs::write(p, o).unwrap();
}

fn merge(a: &mut Sum, txt: &str) -> bool {
    let mut ok = false;
    for l in txt.lines() {
        let mut it = l.splitn(2, ' ');
        let k = it.next().unwrap();
        let r = it.next().unwrap_or("");
        match k {
            "N" => {
                let (n, v) = r.split_once(' ').unwrap();
                let v: u64 = v.parse().unwrap();
                let e = a.n.entry(n.into()).or_insert(0);
                if n.starts_with("max_") {
                    *e = (*e).max(v)
                } else {
                    *e += v
                }
            }
            "C" => {
                let (n, v) = r.split_once(' ').unwrap();
                let i: usize = n.parse().unwrap();
                if a.covers.len() <= i {
                    a.covers.resize(i + 1, 0)
                }
                a.covers[i] += v.parse::<u64>().unwrap();
            }
            "F" => {
                let i: usize = r.parse().unwrap();
                if a.entered.len() <= i {
                    a.entered.resize(i + 1, false)
                }
                a.entered[i] = true;
            }
            "V" => a.viols.push(r.into()),
            "E" => a.errs.push(r.into()),
            "S" => a.samples.push(r.into()),
            "L" => a.left += r.parse::<u64>().unwrap(),
            "END" => ok = true,
            _ => {}
        }
    }
    ok
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::from("harness");
    let mut o = Opts {
        prop: 0,
        step_limit: 2_000_000,
        preempt_bound: 2,
        params: vec![],
        trace: false,
        always_solve: true,
        deadline: Instant::now() + Duration::from_secs(3600),
        replay: None,
    };
    let mut jobs = 1usize;
    let mut out = String::new();
    let mut fp = false;
    let mut seed = 1u64;
    let mut dump_dir = None;
    let mut frontier = 0usize;
    let mut i = 1;
    while i < args.len() {
        let v = |k: usize| args[k + 1].clone();
        match args[i].as_str() {
            "--entry" => entry = v(i),
            "--prop" => o.prop = v(i).parse().unwrap(),
            "--steps" => o.step_limit = v(i).parse().unwrap(),
            "--preempt" => o.preempt_bound = v(i).parse().unwrap(),
            "--budget" => o.deadline = Instant::now() + Duration::from_secs_f64(v(i).parse().unwrap()),
            "--params" => o.params = v(i).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--jobs" => jobs = v(i).parse().unwrap(),
            "--frontier" => frontier = v(i).parse().unwrap(),
            "--seed" => seed = v(i).parse().unwrap(),
            "--fp" => fp = v(i) == "1",
            "--lazy-asserts" => o.always_solve = v(i) != "1",
            "--out" => out = v(i),
            "--dump-smt" => dump_dir = Some(std::path::PathBuf::from(v(i))),
            "--replay" => o.replay = Some(v(i).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            f => {
                file = f.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).unwrap();
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let m = ir::parse(&text);
    std::panic::set_hook(hook);
    let tparse = t0.elapsed();
    let deadline = o.deadline;
    let mut x = Exec::new(&m, o, fp, seed);
    x.z.dump = dump_dir;
    let init = x.initial(&entry);
    let mut total = Sum::default();
    if jobs <= 1 {
        x.work.push(init);
        while let Some(s) = x.work.pop() {
            if Instant::now() > deadline {
                x.work.push(s);
                break;
            }
            x.run(s);
            if x.stop {
                break;
            }
        }
        let left = x.work.len() as u64;
        total = collect(&x, left);
    } else {
        // breadth phase
        if frontier == 0 {
            frontier = jobs * 64;
        }
        x.bfs = true;
        let mut q = std::collections::VecDeque::new();
        q.push_back(init);
        while q.len() < frontier {
            let Some(s) = q.pop_front() else { break };
            x.run(s);
            q.extend(x.work.drain(..));
            if x.stop || Instant::now() > deadline {
                break;
            }
        }
        x.bfs = false;
        let stop = x.stop;
        let base = collect(&x, 0);
        let mut tmp = String::new();
        {
            // parent's own statistics
            let p = format!("{}.base", if out.is_empty() { format!("/tmp/qsym.{}", std::process::id()) } else { out.clone() });
            dump(&base, &p);
            tmp.push_str(&std::fs::read_to_string(&p).unwrap());
            std::fs::remove_file(&p).unwrap();
        }
        merge(&mut total, &tmp);
        if !stop && !q.is_empty() {
            let mut items: Vec<Option<State>> = q.into_iter().map(Some).collect();
            let n = items.len();
            let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicU64;
            let ctr = unsafe { &*ctr };
            let flag = unsafe { &*((ctr as *const std::sync::atomic::AtomicU64).add(1)) };
            use std::sync::atomic::Ordering::SeqCst;
            let prefix = if out.is_empty() { format!("/tmp/qsym.{}", std::process::id()) } else { out.clone() };
            let mut pids = vec![];
            for j in 0..jobs {
                let pid = unsafe { fork() };
                if pid == 0 {
                    // reset counters inherited from the parent
                    x.paths = 0;
                    x.viol.clear();
                    x.err_paths = 0;
                    x.err = None;
                    x.z.lia_queries = 0;
                    x.killed = 0;
                    x.forks = 0;
                    x.instrs = 0;
                    x.asserts = 0;
                    x.assert_const = 0;
                    x.panics_expected = 0;
                    x.seen = 0;
                    x.rng = x.rng.wrapping_add(j as u64 * 0x1234567).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                    x.assert_q = 0;
                    x.covers.iter_mut().for_each(|c| *c = 0);
                    x.samples.clear();
                    x.z.queries = 0;
                    x.z.sat = 0;
                    x.z.unsat = 0;
                    x.z.unknown = 0;
                    x.z.time = Duration::ZERO;
                    x.decided_syntactic = 0;
                    x.decided_model = 0;
                    x.ctx_switches = 0;
                    let mut left = 0;
                    'o: loop {
                        let k = ctr.fetch_add(1, SeqCst) as usize;
                        if k >= n {
                            break;
                        }
                        x.work.push(items[k].take().unwrap());
                        let mut cnt = 0u32;
                        while let Some(s) = x.work.pop() {
                            cnt += 1;
                            if cnt % 16 == 0 && (flag.load(SeqCst) != 0 || Instant::now() > deadline) {
                                left += x.work.len() as u64 + 1;
                                if flag.load(SeqCst) == 0 {
                                    // count items nobody will take
                                    left += (n as u64).saturating_sub(ctr.swap(n as u64, SeqCst).min(n as u64));
                                }
                                break 'o;
                            }
                            x.run(s);
                            if x.stop {
                                flag.store(1, SeqCst);
                                break 'o;
                            }
                        }
                    }
                    let s = collect(&x, left);
                    dump(&s, &format!("{prefix}.w{j}"));
                    unsafe { _exit(0) };
                }
                pids.push(pid);
            }
            for (j, p) in pids.iter().enumerate() {
                let mut st = 0;
                unsafe { waitpid(*p, &mut st, 0) };
                let f = format!("{prefix}.w{j}");
                match std::fs::read_to_string(&f) {
                    Ok(t) => {
                        if !merge(&mut total, &t) {
                            total.errs.push(js("truncated worker result"));
                        }
                        let _ = std::fs::remove_file(&f);
                    }
                    Err(_) => total.errs.push(js(&format!("worker {j} died, status {st}"))),
                }
            }
        }
    }
    let fnames: Vec<String> = total
        .entered
        .iter()
        .enumerate()
        .filter(|(_, e)| **e)
        .map(|(i, _)| js(&m.funcs[i].name))
        .collect();
    let mut o = String::from("{");
    for (k, v) in &total.n {
        o += &format!("{}:{},", js(k), v);
    }
    o += &format!(
        "\"unexplored\":{},\"covers\":{{{}}},\"violations\":[{}],\"errors\":[{}],\"samples\":[{}],\"functions\":[{}],\"parse_s\":{:.3},\"wall_s\":{:.3}}}",
        total.left,
        total
            .covers
            .iter()
            .enumerate()
            .filter(|(_, c)| **c > 0)
            .map(|(i, c)| format!("\"{i}\":{c}"))
            .collect::<Vec<_>>()
            .join(","),
        total.viols.join(","),
        total.errs.join(","),
        total.samples.into_iter().take(24).collect::<Vec<_>>().join(","),
        fnames.join(","),
        tparse.as_secs_f64(),
        t0.elapsed().as_secs_f64()
    );
    if out.is_empty() {
        println!("{o}");
    } else {
        let mut f = std::fs::File::create(&out).unwrap();
        writeln!(f, "{o}").unwrap();
    }
}
