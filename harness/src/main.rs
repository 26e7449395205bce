//! uxh PROP --tier quick|thorough --seed N --out FILE --replay-dir DIR [--known STR]...
//! uxh replay FILE
mod ctx;
mod dirs;
mod errors;
mod files;
mod fuzz;
mod trees;
mod util;
use ctx::*;
use std::time::{Duration, Instant};

type Run = fn(&mut Ctx);
const RUNS: &[(&str, Run)] = &[
    ("C01", files::run_c01),
    ("C02", files::run_c02),
    ("C03", files::run_c03),
    ("C04", run_c04),
    ("C05", files::run_c05),
    ("C06", files::run_c06),
    ("C07", fuzz::run_c07),
    ("C08", dirs::run_c08),
    ("C09", dirs::run_c09),
    ("C10", dirs::run_c10),
    ("C11", dirs::run_c11),
    ("C12", dirs::run_c12),
    ("C13", trees::run_c13),
    ("C14", trees::run_c14),
    ("C15", dirs::run_c15),
    ("C16", fuzz::run_c16),
    ("C17", trees::run_c17),
    ("C18", errors::run_c18),
];
fn run_c04(c: &mut Ctx) {
    files::run_c04(c);
    dirs::big(c, "c04_dir", dirs::c04_dir);
    c.random("c04_dir", dirs::c04_dir, 12_000, 60_000);
}
const CASES: &[(&str, CaseFn)] = &[
    ("c01_roundtrip", files::c01_roundtrip),
    ("c01_default", files::c01_default),
    ("c01_builder_default", files::c01_builder_default),
    ("c01_random", files::c01_random),
    ("c02_split", files::c02_split),
    ("c02_random", files::c02_random),
    ("c02_mask", files::c02_mask),
    ("c03_layout", files::c03_layout),
    ("c03_random", files::c03_random),
    ("c04_file", files::c04_file),
    ("c04_file_random", files::c04_file_random),
    ("c04_dir", dirs::c04_dir),
    ("c05_all_ranges", files::c05_all_ranges),
    ("c05_imported", files::c05_imported),
    ("c05_huge", files::c05_huge),
    ("c06_faults", files::c06_faults),
    ("c06_accept", files::c06_accept),
    ("c07_short", fuzz::c07_short),
    ("c07_structured", fuzz::c07_structured),
    ("c07_damaged", fuzz::c07_damaged),
    ("c07_noise", fuzz::c07_noise),
    ("c08_general", dirs::c08_general),
    ("c08_directory", dirs::c08_directory),
    ("c09_tree", dirs::c09_tree),
    ("c09_small", dirs::c09_small),
    ("c10_sizes", dirs::c10_sizes),
    ("c10_default_limit", dirs::c10_default_limit),
    ("c11_resolve", dirs::c11_resolve),
    ("c12_lookup", dirs::c12_lookup),
    ("c13_walk", trees::c13_walk),
    ("c13_small", trees::c13_small),
    ("c14_kinds", trees::c14_kinds),
    ("c14_builder", trees::c14_builder),
    ("c15_symlink", dirs::c15_symlink),
    ("c16_view", fuzz::c16_view),
    ("c16_small", fuzz::c16_small),
    ("c17_history", trees::c17_history),
    ("c18_visit", errors::c18_visit),
    ("c18_resolve", errors::c18_resolve),
    ("c18_lookup", errors::c18_lookup),
    ("c18_walk", errors::c18_walk),
];

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    if args.get(1).map(|s| &s[..]) == Some("replay") {
        let text = std::fs::read_to_string(&args[2]).expect("cannot read replay file");
        // the few fields needed of a file written below
        let field = |k: &str| text.split(&format!("\"{}\":", k)).nth(1).map(|s| s.trim_start().to_string());
        let case = field("case").and_then(|s| s[1..].split('"').next().map(|s| s.to_string())).expect("no case");
        let params: Vec<u64> = field("params")
            .map(|s| s[1..].split(']').next().unwrap().split(',').filter_map(|x| x.trim().parse().ok()).collect())
            .expect("no params");
        let f = CASES.iter().find(|(n, _)| *n == case).expect("unknown case").1;
        match guarded(f, &params) {
            Ok(_) => println!("{} {:?}: holds", case, params),
            Err(m) => {
                println!("{} {:?}: {}", case, params, m);
                std::process::exit(1);
            }
        }
        return;
    }
    let prop = args.get(1).expect("property").clone();
    let (mut tier, mut seed, mut out, mut dir, mut budget) = ("quick".to_string(), 1u64, None, None, 60u64);
    let mut known = vec![];
    let mut limit = 60u64;
    let mut i = 2;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match &args[i][..] {
            "--tier" => tier = v,
            "--seed" => seed = v.parse().expect("seed"),
            "--out" => out = Some(v),
            "--replay-dir" => dir = Some(v),
            "--known" => known.push(v),
            "--case-limit" => limit = v.parse().expect("limit"),
            "--trace" => *TRACE.lock().unwrap() = Some(v),
            "--budget" => budget = v.parse().expect("budget"),
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    let run = RUNS.iter().find(|(n, _)| *n == prop).expect("unknown property").1;
    let mut c = Ctx {
        thorough: tier == "thorough",
        seed,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        evals: 0,
        per_gen: vec![],
        distinct: Default::default(),
        samples: vec![],
        violations: vec![],
        known,
        known_hits: Default::default(),
    };
    {
        // a case which does not end is a violation as well
        let (prop, dir, out) = (prop.clone(), dir.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let cur = CURRENT.lock().unwrap().clone();
            if let Some((name, params, at)) = cur {
                if at.elapsed().as_secs() < limit {
                    continue;
                }
                let m = format!("does not end (stopped after {} s)", limit);
                let json = format!("{{\"property\": {}, \"case\": {}, \"params\": {:?}, \"message\": {}}}", esc(&prop), esc(&name), params, esc(&m));
                let path = dir.map(|d| {
                    let _ = std::fs::create_dir_all(&d);
                    format!("{}/{}-0.json", d, prop)
                });
                if let Some(p) = &path {
                    let _ = std::fs::write(p, &json);
                }
                let v = format!(
                    "{{\"property\": {}, \"evaluations\": 1, \"distinct\": 0, \"per_generator\": {{}}, \"samples\": [], \"known_hits\": [], \"violations\": [{{\"path\": {}, \"message\": {}}}]}}\n",
                    esc(&prop), esc(&path.unwrap_or_default()), esc(&m)
                );
                match out {
                    Some(o) => {
                        let _ = std::fs::write(o, v);
                    }
                    None => print!("{}", v),
                }
                eprintln!("{} {:?}: {}", name, params, m);
                std::process::exit(1);
            }
        });
    }
    run(&mut c);
    let mut vs = vec![];
    for (n, v) in c.violations.iter().enumerate() {
        let json = format!(
            "{{\"property\": {}, \"case\": {}, \"params\": {:?}, \"message\": {}}}",
            esc(&prop), esc(&v.case), v.params, esc(&v.message)
        );
        if let Some(d) = &dir {
            std::fs::create_dir_all(d).expect("replay directory");
            let path = format!("{}/{}-{}.json", d, prop, n);
            std::fs::write(&path, &json).expect("replay file");
            vs.push(format!("{{\"path\": {}, \"message\": {}}}", esc(&path), esc(&v.message)));
        } else {
            vs.push(format!("{{\"message\": {}}}", esc(&v.message)));
        }
        eprintln!("{} {:?}: {}", v.case, v.params, v.message);
    }
    let json = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"evaluations\": {}, \"distinct\": {}, \"wall_s\": {:.3}, \"per_generator\": {{{}}}, \"samples\": [{}], \"known_hits\": [{}], \"violations\": [{}], \"budget_reached\": {}}}\n",
        esc(&prop), esc(&tier), seed, c.evals, c.distinct.len(), c.start.elapsed().as_secs_f64(),
        c.per_gen.iter().map(|(n, k)| format!("{}: {}", esc(n), k)).collect::<Vec<_>>().join(", "),
        c.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        c.known_hits.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        vs.join(", "),
        c.start.elapsed() > c.budget,
    );
    match out {
        Some(o) => std::fs::write(o, json).expect("output file"),
        None => print!("{}", json),
    }
    if !c.violations.is_empty() {
        std::process::exit(1);
    }
}
