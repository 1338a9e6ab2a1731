mod dbg;
mod bounds;
mod exec;
mod expr;
mod ir;
mod sched;
mod solver;

use sched::*;
use std::fmt::Write as _;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u8]) -> String {
    format!("[{}]", v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let has = |k: &str| args.iter().any(|a| a == k);
    match args.first().map(|s| s.as_str()) {
        Some("run") => run_cmd(&get, &has),
        Some("native") => {
            // sxe native --so S --entry E --params a,b,c,d --inputs 1,2,3
            let p = |k: &str| get(k).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse::<u32>().unwrap()).collect::<Vec<_>>();
            let j = Job { entry: get("--entry").unwrap(), params: p("--params"), label: String::new() };
            let inp: Vec<u8> = p("--inputs").iter().map(|v| *v as u8).collect();
            let tmp = get("--tmp").unwrap_or_else(|| "/tmp".into());
            let r = native(&get("--so").unwrap(), &j, &inp, &tmp, 20);
            println!("{}", r.1);
            println!("{:?}", r.0);
            std::process::exit(if matches!(r.0, Native::Returned(_)) { 0 } else { 1 });
        }
        Some("jobs") => match list_jobs(&get("--so").unwrap(), get("--prop").unwrap().parse().unwrap(), has("--thorough")) {
            Ok(s) => print!("{}", s),
            Err(e) => {
                eprintln!("{}", e);
                std::process::exit(2)
            }
        },
        Some("decode") => {
            // decode every function: lists what the decoder does not support
            let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&get("--ir").unwrap())));
            let mut pool = ir::ConstPool::default();
            let (mut ok, mut bad, mut uns) = (0, 0, 0);
            for (i, f) in m.funcs.iter().enumerate() {
                if !f.defined {
                    continue;
                }
                match m.decode(i as u32, &mut pool) {
                    Ok(d) => {
                        ok += 1;
                        for c in &d.code {
                            if let ir::I::Unsup(s) = c {
                                uns += 1;
                                println!("UNSUP {} in {}", s, f.name);
                            }
                        }
                    }
                    Err(e) => {
                        bad += 1;
                        println!("FAIL {}: {}", f.name, e);
                    }
                }
            }
            let mut gbad = 0;
            for i in 0..m.globals.len() {
                if !m.globals[i].external {
                    if let Err(e) = m.global_init(i as u32) {
                        gbad += 1;
                        println!("GLOBAL {}: {}", m.globals[i].name, e);
                    }
                }
            }
            println!("{} decoded, {} failed, {} unsupported instructions, {} bad globals", ok, bad, uns, gbad);
        }
        _ => {
            eprintln!("usage: sxe run|native|decode ...");
            std::process::exit(2);
        }
    }
}

fn run_cmd(get: &dyn Fn(&str) -> Option<String>, has: &dyn Fn(&str) -> bool) {
    let t0 = Instant::now();
    let irp = get("--ir").expect("--ir");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&irp)));
    let jobs: Vec<Job> = std::fs::read_to_string(get("--jobs").expect("--jobs"))
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let w: Vec<&str> = l.splitn(6, ' ').collect();
            Job { entry: w[0].into(), params: w[1..5].iter().map(|s| s.parse().unwrap()).collect(), label: w.get(5).unwrap_or(&"").to_string() }
        })
        .collect();
    let tmp = get("--tmp").expect("--tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let num = |k: &str, d: f64| get(k).map(|s| s.parse::<f64>().unwrap()).unwrap_or(d);
    let o = Opts {
        workers: num("--workers", 8.0) as i32,
        time: num("--time", 600.0),
        tmp: tmp.clone(),
        max_steps: num("--max-steps", 30e6) as u64,
        samples: num("--samples", 60.0) as usize,
        so: get("--so").expect("--so"),
        seed: num("--seed", 1.0) as u64,
        dump_smt: get("--dump-smt"),
        keep_going: has("--keep-going"),
        verbose: has("--verbose"),
    };
    let cov = unsafe {
        extern "C" {
            fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        }
        mmap(std::ptr::null_mut(), m.cov_size as usize + 4096, 3, 0x21, -1, 0)
    };
    let t1 = Instant::now();
    let mut out = run(m, &jobs, &o, cov);
    let t_explore = t1.elapsed().as_secs_f64();

    // replay the counterexamples on the real code
    let mut confirmed = vec![];
    let mut spurious = vec![];
    let mut seen: Vec<(u32, String, u32)> = vec![];
    out.viols.sort_by(|a, b| a.inputs.len().cmp(&b.inputs.len()).then(a.inputs.cmp(&b.inputs)));
    for v in out.viols.iter() {
        let key = (v.job, v.msg.clone(), v.code);
        if seen.iter().filter(|k| **k == key).count() >= 3 || seen.len() > 60 {
            continue;
        }
        seen.push(key);
        let r = native(&o.so, &jobs[v.job as usize], &v.inputs, &tmp, 20);
        let ok = match (&v.kind[..], &r.0) {
            ("assertion", Native::Fail(c)) => *c == v.code,
            ("panic", Native::Crash(_)) => true,
            ("memory", Native::Crash(_)) => true,
            ("hang", Native::Timeout) | ("hang", Native::Crash(_)) => true,
            ("recursion", Native::Crash(_)) | ("recursion", Native::Timeout) => true,
            _ => false,
        };
        if ok {
            confirmed.push((v.clone(), r));
        } else {
            spurious.push((v.clone(), r));
        }
    }
    // replay sampled paths: the symbolic execution must agree with the real code
    let cap = num("--max-samples", 3000.0) as usize;
    if out.samples.len() > cap {
        let k = out.samples.len();
        let mut s = std::mem::take(&mut out.samples);
        s = s.into_iter().enumerate().filter(|(i, _)| i * cap / k != (i + 1) * cap / k).map(|x| x.1).collect();
        out.samples = s;
    }
    let (good, bad) = validate(&o.so, &jobs, &out.samples, &tmp);
    let (funcs, files) = dbg::executed(m, cov);

    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"jobs\": {}, \"jobs_started\": {}, \"budget_exhausted\": {}, \"lost_workers\": {},", jobs.len(), out.jobs_done, out.budget, out.lost);
    let _ = writeln!(s, " \"explore_s\": {:.2}, \"total_s\": {:.2},", t_explore, t0.elapsed().as_secs_f64());
    let _ = writeln!(s, " \"stats\": {{{}}},", out.stats.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, " \"covers\": {{{}}},", out.covers.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, " \"unknown\": {{{}}},", out.unknown.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, " \"samples_agree\": {}, \"samples_total\": {},", good, out.samples.len());
    let _ = writeln!(
        s,
        " \"samples_disagree\": [{}],",
        bad.iter()
            .map(|(k, d)| format!("{{\"job\": {}, \"inputs\": {}, \"what\": {}}}", js(&jobs[out.samples[*k].job as usize].label), nums(&out.samples[*k].inputs), js(d)))
            .collect::<Vec<_>>()
            .join(",\n  ")
    );
    let vj = |l: &Vec<(Viol, (Native, String))>| {
        l.iter()
            .map(|(v, r)| {
                let j = &jobs[v.job as usize];
                format!(
                    "{{\"entry\": {}, \"params\": {:?}, \"label\": {}, \"kind\": {}, \"code\": {}, \"msg\": {}, \"inputs\": {}, \"native\": {}, \"notes\": {}, \"stack\": [{}]}}",
                    js(&j.entry),
                    j.params,
                    js(&j.label),
                    js(&v.kind),
                    v.code,
                    js(&v.msg),
                    nums(&v.inputs),
                    js(&format!("{:?}", r.0)),
                    js(r.1.trim()),
                    v.bt.iter().map(|b| js(&dbg::demangle(b))).collect::<Vec<_>>().join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join(",\n  ")
    };
    let _ = writeln!(s, " \"violations\": [{}],", vj(&confirmed));
    let _ = writeln!(s, " \"unconfirmed\": [{}],", vj(&spurious));
    let _ = writeln!(
        s,
        " \"sample_inputs\": [{}],",
        out.samples.iter().step_by((out.samples.len() / 12).max(1)).take(12).map(|x| format!("{{\"job\": {}, \"inputs\": {}}}", js(&jobs[x.job as usize].label), nums(&x.inputs))).collect::<Vec<_>>().join(", ")
    );
    let _ = writeln!(s, " \"functions\": [{}],", funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, " \"lines\": {{{}}},", files.iter().map(|(f, l)| format!("{}: [{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n  "));
    let _ = writeln!(
        s,
        " \"job_covers\": [{}], \"job_paths\": [{}]",
        out.job_covers.iter().map(|m| (0..64).filter(|b| m >> b & 1 == 1).map(|b| b.to_string()).collect::<Vec<_>>().join(",")).map(|l| format!("[{}]", l)).collect::<Vec<_>>().join(", "),
        jobs.iter().enumerate().map(|(i, j)| format!("[{}, {}, {:.2}]", js(&j.label), out.job_paths[i], out.job_ns[i] as f64 / 1e9)).collect::<Vec<_>>().join(", ")
    );
    s.push_str("}\n");
    std::fs::write(get("--out").expect("--out"), &s).unwrap();
    if o.verbose {
        eprintln!("explored in {:.1}s: {:?}", t_explore, out.stats);
        eprintln!("violations {} unconfirmed {} unknown {:?} samples ok {}/{}", confirmed.len(), spurious.len(), out.unknown, good, out.samples.len());
    }
    let code = if !confirmed.is_empty() {
        1
    } else if !spurious.is_empty() || !out.unknown.is_empty() || out.budget || out.lost > 0 || !bad.is_empty() || out.jobs_done < jobs.len() as u64 {
        2
    } else {
        0
    };
    std::process::exit(code);
}
