mod api;
mod exec;
mod expr;
mod ir;
mod mem;
mod real;
mod replay;
mod smt;
use exec::*;
use expr::*;
use ir::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep recursion in simplifiers: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let t0 = Instant::now();
    let m: &'static Module = Box::leak(Box::new(Module::load(&o["ll"])));
    let fname = o["fn"].clone();
    let timeout: u64 = o.get("timeout").map_or(300, |x| x.parse().unwrap());
    let params: Vec<u64> =
        o.get("params").map_or(vec![], |x| x.split(',').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect());
    let cfg = Cfg {
        case: o.get("case").map_or(0, |x| x.parse().unwrap()),
        params,
        max_steps: o.get("max-steps").map_or(400_000_000, |x| x.parse().unwrap()),
        deadline: t0 + Duration::from_secs(timeout),
        max_paths: o.get("max-paths").map_or(u64::MAX, |x| x.parse().unwrap()),
        trace: o.contains_key("trace"),
    };
    let validate: u64 = o.get("validate").map_or(2000, |x| x.parse().unwrap());
    let rep = replay::Replay::new(&o["replayer"], &o["lib"], &fname);
    let smt_to: u64 = o.get("smt-timeout").map_or(20_000, |x| x.parse().unwrap());
    let mut e = Engine {
        m,
        a: Arena::new(),
        smt: smt::Smt::new(smt_to),
        g: mem::Globals { base: Default::default() },
        work: vec![],
        cfg,
        st: Stats::default(),
        real_memo: HashMap::new(),
        exact_roots: false,
        vio: vec![],
        vio_seen: HashMap::new(),
        done: vec![],
        replay: rep,
        unreproduced: vec![],
        rngs: vec![],
        inputs: HashMap::new(),
        fmt_f64: exec::fmt_f64(m),
    };
    let Some(Sym::Func(fi)) = m.syms.get(fname.as_str()) else {
        println!("{{\"error\": \"no function {fname}\"}}");
        return 3;
    };
    let mut s0 = State {
        frames: vec![],
        mem: mem::Mem::new(),
        pc: vec![],
        known: Default::default(),
        bounds: Default::default(),
        conc: Default::default(),
        model: Default::default(),
        tape: vec![],
        obs: vec![],
        covers: vec![],
        steps: 0,
        forks: 0,
        enums: 0,
        notes: vec![],
    };
    e.smt.deadline = e.cfg.deadline + Duration::from_secs(20);
    e.push_frame(&mut s0, *fi, vec![]).unwrap();
    e.work.push(s0);
    let mut exhausted = true;
    while let Some(mut s) = e.work.pop() {
        if e.st.paths + e.st.pruned >= e.cfg.max_paths {
            e.st.errors.push("path limit".into());
            exhausted = false;
            break;
        }
        let s_start = s.steps;
        let r = e.run_state(&mut s);
        e.st.steps += s.steps - s_start;
        e.st.max_pc = e.st.max_pc.max(s.pc.len());
        e.st.max_vars = e.st.max_vars.max(s.tape.len());
        match r {
            Stop::Done => {
                e.st.paths += 1;
                for c in &s.covers {
                    *e.st.covers.entry(c.to_string()).or_insert(0) += 1;
                }
                let m = s.model.clone();
                let tape = e.tape_string(&s, &m);
                let mut real = false;
                let mut uf = false;
                let pcs = s.pc.clone();
                for c in &pcs {
                    if e.has_real(*c) {
                        real = true;
                        if e.a.has_uf(*c) {
                            uf = true;
                        }
                    }
                }
                let mut obs = vec![];
                for (v, isf) in &s.obs {
                    match v {
                        V::C(x) => obs.push((*x, *isf, true)),
                        V::S(x) => {
                            let cmp = !e.a.has_uf(*x);
                            let r = e.has_real(*x);
                            real |= r;
                            obs.push((e.a.eval(*x, &m) as u64, *isf, cmp));
                        }
                        _ => obs.push((0, *isf, false)),
                    }
                }
                if (e.done.len() as u64) < validate {
                    e.done.push(Done { tape, obs, covers: s.covers.iter().map(|c| c.to_string()).collect(), real, uf });
                }
                if std::env::var("ELSYM_PATHS").is_ok() {
                    eprintln!("path {} steps {} pc {} {}", e.st.paths, s.steps, s.pc.len(), e.done.last().map(|d| d.tape.clone()).unwrap_or_default());
                }
            }
            Stop::Pruned | Stop::Dead => e.st.pruned += 1,
            Stop::Bound(b) => {
                *e.st.bounded.entry(b).or_insert(0) += 1;
            }
            Stop::Panic(p) => {
                if std::env::var("ELSYM_PATHS").is_ok() {
                    let st: Vec<&str> = s.frames.iter().rev().take(5).map(|f| f.f.name.as_str()).collect();
                    eprintln!("panic {p} [{}]", st.join(" < "));
                }
                let m = s.model.clone();
                match e.violation(&s, &m, &format!("panic: {p}"), "panic", true) {
                    Err(Stop::Found) => {
                        exhausted = false;
                        break;
                    }
                    _ => e.st.pruned += 1,
                }
            }
            Stop::Found => {
                exhausted = false;
                break;
            }
            Stop::Err(x) => {
                let st: Vec<&str> = s.frames.iter().rev().take(3).map(|f| f.f.name.as_str()).collect();
                let fatal = x == "deadline";
                e.st.errors.push(format!("{x} [{}]", st.join(" < ")));
                if fatal || e.st.errors.len() > 20 {
                    exhausted = false;
                    break;
                }
            }
        }
    }
    let explore = t0.elapsed().as_secs_f64();
    // translator validation: every explored path's model runs natively with the same observations
    let mut validated = 0;
    let mut diverged = 0;
    let mut mism: Vec<String> = vec![];
    let done = std::mem::take(&mut e.done);
    let case = e.cfg.case;
    let params = e.cfg.params.clone();
    for d in &done {
        if e.vio.is_empty() == false && validated > 50 {
            break;
        }
        if t0.elapsed().as_secs_f64() > timeout as f64 + 60.0 {
            break;
        }
        let r = e.replay.run(case, &params, &d.tape);
        let mut bad = None;
        if r.status == "fail" || r.status == "panic" {
            // the solver proved the assertion on this path: only rounding can explain a failure
            if d.real {
                bad = Some(format!("native failure on a real-valued path: {}", r.msg));
                if r.status == "panic" || d.uf {
                    diverged += 1;
                    continue;
                }
            } else {
                bad = Some(format!("native {}: {}", r.status, r.msg));
            }
        } else if r.status != "ok" {
            bad = Some(format!("native {} {}", r.status, r.msg));
        } else if r.obs.len() != d.obs.len() {
            bad = Some(format!("{} observations natively, {} symbolically", r.obs.len(), d.obs.len()));
        } else {
            for (k, (x, isf, cmp)) in d.obs.iter().enumerate() {
                if !cmp {
                    continue;
                }
                let ok = if *isf {
                    let (p, q) = (f64::from_bits(*x), f64::from_bits(r.obs[k]));
                    p == q || (p.is_nan() && q.is_nan()) || (p - q).abs() <= if d.real { 1e-6 * (1.0 + q.abs()) } else { 1e-12 * (1.0 + q.abs()) }
                } else {
                    *x == r.obs[k]
                };
                if !ok {
                    bad = Some(format!(
                        "observation {k}: symbolic {x} ({:?}), native {} ({:?})",
                        f64::from_bits(*x),
                        r.obs[k],
                        f64::from_bits(r.obs[k])
                    ));
                    break;
                }
            }
            if bad.is_none() && r.covers != d.covers {
                bad = Some("different covers".into());
            }
        }
        match bad {
            None => validated += 1,
            Some(_) if d.real => diverged += 1,
            Some(b) => {
                if mism.len() < 5 {
                    mism.push(format!("{b} tape: {}", d.tape));
                }
            }
        }
    }
    let mut fs: Vec<String> = e.st.funcs.iter().map(|i| m.funcs[*i as usize].0.to_string()).collect();
    fs.sort();
    let list = |v: &Vec<String>| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ");
    let map = |v: &std::collections::BTreeMap<String, u64>| {
        v.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect::<Vec<_>>().join(", ")
    };
    let vio: Vec<String> = e
        .vio
        .iter()
        .map(|v| format!("{{\"msg\": {}, \"kind\": {}, \"tape\": {}, \"native\": {}}}", js(&v.msg), js(&v.kind), js(&v.tape), js(&v.native)))
        .collect();
    let unr: Vec<String> =
        e.unreproduced.iter().take(5).map(|(a, b, c)| format!("{{\"msg\": {}, \"tape\": {}, \"native\": {}}}", js(a), js(b), js(c))).collect();
    let root = o.get("src-root").cloned().unwrap_or("/repo/".into());
    let cover: Vec<String> = m
        .coverage(&|p| root.split(',').any(|r| p.starts_with(r)))
        .iter()
        .map(|(f, x)| {
            let y: Vec<String> = x
                .iter()
                .map(|(n, l)| format!("{}: [{}]", js(n), l.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")))
                .collect();
            format!("{}: {{{}}}", js(f), y.join(", "))
        })
        .collect();
    let cover = cover.join(", ");
    let out = format!(
        "{{\"fn\": {}, \"case\": {}, \"paths\": {}, \"pruned\": {}, \"bounded\": {{{}}}, \"exhausted\": {}, \"steps\": {}, \"forks\": {}, \"decisions\": {}, \"checks\": {}, \"checks_sym\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"solver_time\": {:.3}, \"max_query\": {:.3}, \"max_pc\": {}, \"max_vars\": {}, \"nodes\": {}, \"time\": {:.2}, \"total_time\": {:.2}, \"validated\": {}, \"diverged\": {}, \"mismatches\": [{}], \"covers\": {{{}}}, \"violations\": [{}], \"unreproduced\": [{}], \"errors\": [{}], \"samples\": [{}], \"funcs\": [{}], \"source\": {{{}}}}}",
        js(&fname), e.cfg.case, e.st.paths, e.st.pruned, map(&e.st.bounded), exhausted, e.st.steps, e.st.forks, e.st.decisions,
        e.st.checks, e.st.checks_sym, e.smt.queries, e.smt.sat, e.smt.unsat, e.smt.unknown, e.smt.cache_hits, e.smt.time, e.smt.max_time,
        e.st.max_pc, e.st.max_vars, e.a.nodes.len(), explore, t0.elapsed().as_secs_f64(), validated, diverged,
        list(&mism), map(&e.st.covers), vio.join(", "), unr.join(", "), list(&e.st.errors),
        done.iter().take(5).map(|d| js(&d.tape)).collect::<Vec<_>>().join(", "), list(&fs), cover
    );
    match o.get("out") {
        Some(p) => std::fs::write(p, out).unwrap(),
        None => println!("{out}"),
    }
    e.smt.close();
    let _ = Rc::new(0);
    0
}
