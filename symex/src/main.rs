mod exec;
mod expr;
mod ir;
mod z3;
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep expression recursion: run on a big stack
    std::thread::Builder::new().stack_size(2 << 30).spawn(real).unwrap().join().unwrap();
}

fn real() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut h = String::new();
    let mut params: Vec<u64> = vec![];
    let mut out = String::new();
    let mut time = 600.0f64;
    let mut qt = 120_000u32;
    let mut trace = false;
    let mut plain = false;
    let mut linear = false;
    let mut select = 0u8;
    let mut max_steps = 50_000_000u64;
    let mut samples = 4usize;
    let mut dump: Option<String> = None;
    let mut dump_every = 0u64;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--harness" => h = v,
            "--params" => params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--out" => out = v,
            "--time" => time = v.parse().unwrap(),
            "--query-timeout" => qt = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--dump" => dump = Some(v),
            "--dump-every" => dump_every = v.parse().unwrap(),
            "--linear" => {
                linear = true;
                i += 1;
                continue;
            }
            "--select" => select = v.parse().unwrap(),
            "--plain" => {
                plain = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            s => panic!("unknown arg {}", s),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let mut e = exec::Exec::new(m, qt);
    e.params = params.clone();
    e.trace = trace;
    e.x.plain = plain;
    e.x.linear = linear;
    e.select_mode = select;
    e.max_steps = max_steps;
    e.sample_cap = samples;
    e.z.dump_dir = dump;
    e.z.dump_every = dump_every;
    e.deadline = Some(t0 + Duration::from_secs_f64(time));
    if let Err(s) = e.start(&h) {
        eprintln!("{}", s);
        std::process::exit(3);
    }
    e.run();
    let mut o = String::from("{");
    o.push_str(&format!("\"harness\":{},\"params\":{:?},", js(&h), params));
    o.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"alloc_cut\":{},\"forks\":{},\"branches\":{},\"steps\":{},\"max_path_steps\":{},\"exprs\":{},",
        e.paths,
        e.killed,
        e.cut_alloc,
        e.forks,
        e.branches,
        e.steps,
        e.maxpath_steps,
        e.x.nodes.len()
    ));
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"pending\":{},\"solver\":{},",
        e.z.queries,
        e.z.sat,
        e.z.unsat,
        e.z.time,
        e.z.max_query,
        t0.elapsed().as_secs_f64(),
        e.pending.len(),
        js(&format!("z3 {}", z3::Z3::version()))
    ));
    o.push_str("\"reached\":{");
    o.push_str(&e.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"checks\":{");
    o.push_str(&e.checks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"functions\":[");
    o.push_str(&e.funcs.iter().map(|f| js(&e.m.funcs[*f as usize].name)).collect::<Vec<_>>().join(","));
    o.push_str("],\"inconclusive\":[");
    o.push_str(&e.incon.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"violations\":[");
    o.push_str(
        &e.violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":[{}]}}",
                    js(&v.kind),
                    js(&v.msg),
                    v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                    v.inputs.iter().map(|(_, b)| js(&hex(b))).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"samples\":[");
    o.push_str(
        &e.samples
            .iter()
            .map(|s| {
                format!(
                    "{{\"inputs\":[{}],\"observed\":[{}]}}",
                    s.inputs.iter().map(|(_, b)| js(&hex(b))).collect::<Vec<_>>().join(","),
                    s.observed.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}");
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
