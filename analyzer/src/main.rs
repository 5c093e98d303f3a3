#![allow(dead_code, unused_mut, unused_variables)]
mod interp;
mod macros;
mod model;
mod report;
mod rules;
mod val;
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = std::env::var("OPTILINT_REPO").unwrap_or("/repo".into());
    let m = model::Loader::load(Path::new(&repo));
    match a[1].as_str() {
        "trace" => trace(&m, &a),
        "conv" => {
            let mut ck = report::Ck::new(&m, "X");
            ck.dump = true;
            let ks: Vec<&str> = a[2..].iter().map(|s| s.as_str()).collect();
            rules::conv::sweep(&mut ck, &ks, &|_| false, &rules::conv::Table { rows: &[] });
        }
        "check" => std::process::exit(check(&m, &a)),
        "list" => {
            for r in rules::RULES {
                println!("{}", r.id);
            }
        }
        _ => {}
    }
}

/// optilint check <ID> <tier> <seed> <verif dir>
fn check(m: &model::Model, a: &[String]) -> i32 {
    let t0 = std::time::Instant::now();
    let r = match rules::RULES.iter().find(|r| r.id == a[2]) {
        Some(r) => r,
        None => {
            eprintln!("unknown property {}", a[2]);
            return 2;
        }
    };
    let dir = Path::new(a.get(5).map(|s| s.as_str()).unwrap_or("/verif"));
    let mut ck = report::Ck::new(m, r.id);
    for p in &m.problems {
        ck.fail(format!("parse:{p}"), "", 0, "source not parsed, nothing can be decided about it");
    }
    let tier = a.get(3).cloned().unwrap_or("quick".into());
    ck.thorough = tier == "thorough";
    (r.run)(&mut ck);
    let seed = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
    ck.finish(&dir.join("known_findings.txt"), &dir.join("evidence"), &tier, seed, t0.elapsed().as_secs_f64(), r.note)
}

fn trace(m: &model::Model, a: &[String]) {
    eprintln!("files {} fns {} structs {} enums {} macros {} problems {:?}", m.files, m.fns.len(), m.structs.len(), m.enums.len(), m.macros.len(), m.problems);
    let quiet = a.contains(&"-q".into());
    for f in m.fns.iter().filter(|f| f.path == a[2]) {
        let mut it = interp::Interp::new(m);
        let opq: Vec<String> = a[3..].iter().filter(|s| !s.starts_with('-')).cloned().collect();
        it.opaque = Box::new(move |f| opq.iter().any(|o| f.path.starts_with(o.as_str())));
        let ex = it.run(f.id, None, None);
        for e in &it.events {
            if quiet {
                break;
            }
            println!("{:>4} {}:{} d{} l{} {}", e.seq, e.file.rsplit('/').next().unwrap(), e.line, e.depth, e.loops, it.a.show_d(e.val, 6));
            if a.contains(&"-m".into()) {
                for x in it.facts(&e.must) {
                    println!(
                        "          {}",
                        match x {
                            val::Fact::Ok(v) => format!("ok {}", it.a.show_d(*v, 4)),
                            val::Fact::Cond(v, b) => format!("cond {} {}", b, it.a.show_d(*v, 4)),
                            val::Fact::Is(v, b) => format!("is {} {}", b, it.a.show_d(*v, 4)),
                            val::Fact::Err(v) => format!("err {}", it.a.show_d(*v, 4)),
                            _ => continue,
                        }
                    );
                }
            }
        }
        for e in &ex {
            println!("exit {:?} L{} {}", e.kind, e.line, it.a.show(e.v));
        }
        println!("steps {} vals {} overflow {} unresolved macros {}", it.steps, it.a.vals.len(), it.overflow, it.unresolved);
    }
}
