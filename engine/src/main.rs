//! llsym: a symbolic executor for LLVM IR.
//!
//! usage: llsym MODULE.ll ENTRY [PARAM...] --out FILE [--time S] [--paths N] [--steps N]
//!              [--timeout-ms N] [--seed N] [--traces N] [--dump DIR] [--profile]

mod env;
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::fmt::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn vals(v: &[(u8, u128)]) -> String {
    let p: Vec<String> = v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect();
    format!("[{}]", p.join(","))
}
fn strs(v: &[String]) -> String {
    let p: Vec<String> = v.iter().map(|x| js(x)).collect();
    format!("[{}]", p.join(","))
}

fn main() {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos: Vec<String> = vec![];
    let mut out = String::new();
    let mut time = 3600u64;
    let mut paths = u64::MAX;
    let mut steps = 50_000_000u64;
    let mut timeout = 20_000u32;
    let mut seed = 1u64;
    let mut traces = 12usize;
    let mut dump = 0u64;
    let mut profile = false;
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--out" => out = nx(),
            "--time" => time = nx().parse().unwrap(),
            "--paths" => paths = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--timeout-ms" => timeout = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--traces" => traces = nx().parse().unwrap(),
            "--dump-every" => dump = nx().parse().unwrap(),
            "--profile" => profile = true,
            _ => pos.push(a.to_string()),
        }
        i += 1;
    }
    let src = std::fs::read_to_string(&pos[0]).expect("module");
    let m = ir::Module::load(src);
    let mut x = exec::Exec::new(m, timeout);
    x.max_steps = steps;
    x.seed = seed;
    x.trace_max = traces;
    x.profile = profile;
    x.s.dump_every = dump;
    x.deadline = t0 + Duration::from_secs(time);
    let params: Vec<u64> = pos[2..].iter().map(|p| p.parse().unwrap()).collect();
    // deep expression recursion needs a large stack
    let entry = pos[1].clone();
    let h = {
        struct Send2(exec::Exec);
        unsafe impl Send for Send2 {}
        let mut b = Send2(x);
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                let b2 = &mut b;
                if let Err(e) = b2.0.start(&entry, &params) {
                    b2.0.errors.push(e);
                }
                b2.0.run(paths);
                b
            })
            .unwrap()
    };
    let x = match h.join() {
        Ok(b) => b.0,
        Err(_) => {
            eprintln!("internal failure of the executor");
            std::process::exit(3);
        }
    };
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"entry\": {}, \"params\": [{}],", js(&pos[1]), pos[2..].join(","));
    let _ = writeln!(o, "\"paths\": {}, \"cut_paths\": {}, \"forks\": {}, \"steps\": {}, \"depth_max\": {},", x.paths, x.cut_paths, x.forks, x.steps, x.depth_max);
    let _ = writeln!(
        o,
        "\"checks\": {}, \"checks_solved\": {}, \"queries\": {}, \"cache_hits\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.3}, \"slowest_query_s\": {:.3},",
        x.checks, x.checks_solved, x.s.queries, x.s.cache_hits, x.s.sat, x.s.unsat, x.s.unknown, x.s.time, x.s.slowest
    );
    let _ = writeln!(o, "\"solver\": {},", js(&format!("z3 {}", solver::version())));
    let _ = writeln!(o, "\"wall_s\": {:.3}, \"vars\": {}, \"nodes\": {},", t0.elapsed().as_secs_f64(), x.x.vars.len(), x.x.nodes.len());
    let fe: Vec<String> = x.functions_encoded();
    let _ = writeln!(o, "\"functions\": {},", strs(&fe));
    let _ = writeln!(o, "\"stubs\": {},", strs(&x.stubs_used()));
    let rc: Vec<String> = x.reached.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, "\"reached\": {{{}}},", rc.join(", "));
    let ex: Vec<String> = x.expected.iter().cloned().collect();
    let _ = writeln!(o, "\"expected\": {},", strs(&ex));
    let cc: Vec<String> = x.conc.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, "\"concretised\": {{{}}},", cc.join(", "));
    let _ = writeln!(o, "\"errors\": {},", strs(&x.errors));
    let vs: Vec<String> = x
        .violations
        .values()
        .map(|v| format!("{{\"label\": {}, \"kind\": {}, \"detail\": {}, \"count\": {}, \"values\": {}}}", js(&v.label), js(&v.kind), js(&v.detail), v.count, vals(&v.values)))
        .collect();
    let _ = writeln!(o, "\"violations\": [{}],", vs.join(",\n  "));
    let ts: Vec<String> = x
        .traces
        .iter()
        .map(|t| {
            let em: Vec<String> = t.emits.iter().map(|e| js(&e.iter().map(|b| format!("{:02x}", b)).collect::<String>())).collect();
            format!("{{\"status\": {}, \"values\": {}, \"emits\": [{}]}}", js(&t.status), vals(&t.values), em.join(","))
        })
        .collect();
    let _ = writeln!(o, "\"traces\": [{}],", ts.join(",\n  "));
    let ds: Vec<String> = x.s.dumps.iter().map(|(q, r)| format!("[{}, {}]", js(q), js(&format!("{:?}", r)))).collect();
    let _ = writeln!(o, "\"dumps\": [{}]", ds.join(","));
    o.push_str("}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).expect("output");
    }
    if profile {
        let mut v: Vec<_> = x.fork_sites.iter().collect();
        v.sort_by_key(|(_, c)| std::cmp::Reverse(**c));
        for ((f, ip), c) in v.iter().take(25) {
            eprintln!("{:8} forks at {} ip {}", c, exec::short(&x.m.funcs[*f].name), ip);
        }
    }
    // skip the destructors of large structures
    std::process::exit(0);
}
