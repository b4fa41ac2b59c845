mod exec;
mod expr;
mod ir;
mod lia;
mod mem;
mod solver;
use exec::*;
use std::fmt::Write;
use std::time::Duration;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep recursion in simplification is bounded, but give it room
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entries: Vec<String> = vec![];
    let mut out = String::new();
    let mut o = Opts { max_steps: 10_000_000, max_time: Duration::from_secs(600), max_paths: u64::MAX, max_viol: 3, alloc_limit: 1 << 16, samples: 8, verbose: false, max_enum: 600, shard: 0, shards: 1, long_ok: false };
    let mut t_slow = 60;
    let mut t_fast = 1500;
    let mut dump = None;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--entry" => entries.push(nx()),
            "--out" => out = nx(),
            "--steps" => o.max_steps = nx().parse().unwrap(),
            "--time" => o.max_time = Duration::from_secs(nx().parse().unwrap()),
            "--paths" => o.max_paths = nx().parse().unwrap(),
            "--viol" => o.max_viol = nx().parse().unwrap(),
            "--alloc-limit" => o.alloc_limit = nx().parse().unwrap(),
            "--shard" => {
                let v = nx();
                let (a, b) = v.split_once('/').unwrap();
                o.shard = a.parse().unwrap();
                o.shards = b.parse().unwrap();
            }
            "--long" => o.long_ok = nx() == "1",
            "--samples" => o.samples = nx().parse().unwrap(),
            "--enum" => o.max_enum = nx().parse().unwrap(),
            "--slow" => t_slow = nx().parse().unwrap(),
            "--fast" => t_fast = nx().parse().unwrap(),
            "--dump" => dump = Some(nx()),
            "-v" => o.verbose = true,
            f => file = f.to_string(),
        }
        i += 1;
    }
    let text = std::fs::read_to_string(&file).expect("read ll");
    let m = ir::Module::load(text);
    if entries.is_empty() {
        eprintln!("no --entry");
        return 2;
    }
    let entry = entries[0].clone();
    let mut e = Engine::new(m, o);
    e.s.t_slow_s = t_slow;
    e.s.t_fast_ms = t_fast;
    e.s.dump = dump;
    let r = e.run(&entry);
    let mut j = String::new();
    let _ = write!(j, "{{\"entry\":{},", js(&entry));
    if let Err(x) = &r {
        *e.incomplete.entry(x.clone()).or_default() += 1;
    }
    let _ = write!(
        j,
        "\"paths\":{},\"steps\":{},\"max_path_steps\":{},\"forks\":{},\"branches\":{},\"asserts_trivial\":{},\"asserts_solver\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_cached\":{},\"q_fallback\":{},\"solver_ms\":{},\"max_query_ms\":{},\"wall_ms\":{},\"exprs\":{},\"depth\":{},",
        e.paths,
        e.total_steps,
        e.end_steps_max,
        e.forks,
        e.branches,
        e.asserts_trivial,
        e.asserts_solver,
        e.s.q_sat,
        e.s.q_unsat,
        e.s.q_unknown,
        e.s.q_cached,
        e.s.q_fallback,
        e.s.time.as_millis(),
        e.s.max_time.as_millis(),
        e.start.elapsed().as_millis(),
        e.p.n.len(),
        e.max_depth
    );
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    let _ = write!(j, "\"killed\":{},\"incomplete\":{},\"covers\":{},", map(&e.killed), map(&e.incomplete), map(&e.covers));
    let errs: Vec<String> = e.s.errors.iter().take(5).map(|s| js(s)).collect();
    let _ = write!(j, "\"solver_errors\":[{}],", errs.join(","));
    let inputs = |v: &Vec<(String, u32, u128)>| -> String {
        let v: Vec<String> = v.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", js(n), w, x)).collect();
        format!("[{}]", v.join(","))
    };
    let vs: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().take(24).map(|s| js(s)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.msg), st.join(","), inputs(&v.inputs))
        })
        .collect();
    let _ = write!(j, "\"violations\":[{}],", vs.join(","));
    let ss: Vec<String> = e
        .samples
        .iter()
        .map(|s| {
            let ob: Vec<String> = s.obs.iter().map(|o| format!("\"{}\"", o)).collect();
            format!("{{\"inputs\":{},\"obs\":[{}]}}", inputs(&s.inputs), ob.join(","))
        })
        .collect();
    let _ = write!(j, "\"samples\":[{}],", ss.join(","));
    let mut fs = vec![];
    for (i, x) in e.executed.iter().enumerate() {
        if *x && e.m.fn_names[i].contains("matreex") {
            let (c, t) = match e.blocks.get(&(i as u32)) {
                Some(b) => (b.iter().filter(|x| **x).count(), b.len()),
                None => (0, 0),
            };
            fs.push(format!("[{},{},{}]", js(&e.m.fn_names[i]), c, t));
        }
    }
    let _ = write!(j, "\"functions\":[{}]}}", fs.join(","));
    if out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(&out, &j).unwrap();
    }
    if !e.viols.is_empty() {
        1
    } else if !e.incomplete.is_empty() {
        2
    } else {
        0
    }
}
