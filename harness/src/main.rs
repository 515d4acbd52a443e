//! Bounded exhaustive model checking of the Cordy implementation.
mod alloc;
mod checks;
mod engine;
mod model;
mod runner;

use std::path::{Path, PathBuf};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn tier(s: &str) -> engine::Tier { if s == "thorough" { engine::Tier::Thorough } else { engine::Tier::Quick } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("CMC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let usage = || -> ! { eprintln!("usage: cmc check <property> <tier> | one <file> | replay <file> | run [-o] <source> | list"); std::process::exit(2) };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 4 => {
            let m = checks::find(&a[2]).unwrap_or_else(|| usage());
            let t = tier(&a[3]);
            let budget = std::env::var("CMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(t.pick(420, 780));
            std::process::exit(engine::parent(m, t, &verif, budget));
        }
        Some("worker") if a.len() == 8 => {
            let m = checks::find(&a[2]).unwrap_or_else(|| usage());
            let known = engine::load_known(&verif, m.id).into_iter().collect();
            engine::worker(&a[2], tier(&a[3]), a[4].parse().unwrap(), Path::new(&a[5]), a[6].parse().unwrap(), a[7].parse().unwrap(), m.run, known);
        }
        Some("one") if a.len() == 3 => engine::one(Path::new(&a[2])),
        Some("replay") if a.len() == 3 => {
            let b = std::fs::read(&a[2]).unwrap();
            let (head, inputs, rest) = engine::parse_replay(&b).unwrap_or_else(|| usage());
            println!("{}", head);
            runner::install_hook();
            for i in inputs {
                let (h, f) = i.fields();
                println!("=== {}", h);
                for x in f { println!("{}", x); }
                println!("=== implementation");
                print!("{}", runner::execute(&i).canon());
            }
            println!("{}", rest);
        }
        Some("run") if a.len() >= 3 => {
            runner::install_hook();
            let i = if a[2] == "-o" { runner::Input::opt(a[3].clone()) } else { runner::Input::run(a[2].clone()) };
            print!("{}", runner::execute(&i).canon());
        }
        // what remains allocated after a program, for each of several executions
        Some("leak") if a.len() >= 3 => {
            runner::install_hook();
            for src in &a[2..] {
                let i = runner::Input::run(src.clone());
                let m: Vec<_> = [false, false, true].iter().map(|p| { let (o, b, n) = runner::measure(&i, *p); (o.end, o.first().to_string(), b, n) }).collect();
                println!("{:?} {:?} {} {:?}", (m[1].2, m[1].3), (m[2].2, m[2].3), src, (m[0].0, &m[0].1));
            }
        }
        Some("repl") if a.len() == 3 => {
            runner::install_hook();
            let i = runner::Input::Repl { lines: a[2].split('\n').map(String::from).collect() };
            print!("{}", runner::execute(&i).canon());
        }
        Some("model") if a.len() >= 3 => println!("{:?}", checks::predict(&a[2])),
        // programs separated by NUL characters: model against implementation
        Some("conf") if a.len() == 3 => {
            runner::install_hook();
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let (mut n, mut skip) = (0, 0);
            for src in t.split('\0') {
                let m = checks::predict(src);
                if m.end == Err(model::interp::Er::Skip) { skip += 1; println!("SKIP {}", src); continue; }
                let i = runner::Input::run(src);
                let o = runner::execute(&i);
                n += 1;
                if let Some(e) = checks::disagree(&m, &o) { println!("## {}\n  exp: {}\n  act: {}", src, e, o.canon()); }
            }
            println!("{} compared, {} skipped", n, skip);
        }
        Some("list") => for m in checks::ALL { println!("{}", m.id) },
        _ => usage(),
    }
}
