#![allow(dead_code)]
mod checks;
mod conv;
mod engine;
mod opdict;
mod serve;
mod vocab;
mod xml;
use engine::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let specs = checks::specs();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let find = |id: &str| specs.iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(find(&a[2]), tier(&a[3])),
        Some("worker") => {
            worker(find(&a[2]), tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6], a[7].parse().unwrap());
            0
        }
        Some("one") => one(find(&a[2]), tier(&a[3]), a[4].parse().unwrap()),
        Some("count") => {
            println!("{}", count(find(&a[2]), tier(&a[3])));
            0
        }
        Some("replay") => replay(&specs, &a[2]),
        Some("eval") => {
            eval(&a[2..]);
            0
        }
        // Build everything the checks drive from outside.
        Some("prepare") => {
            let mut code = 0;
            for s in &specs {
                if let Some(Err(e)) = s.prepare.map(|p| p(Tier::Quick)) {
                    eprintln!("{}: {e}", s.id);
                    code = 2;
                }
            }
            code
        }
        Some("list") => {
            for s in &specs {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc run <ID> quick|thorough | replay <file> | eval [-u] [-g] < lines");
            2
        }
    };
    std::process::exit(code);
}

/// Interactive helper: one input per line (␤ stands for a newline), one converter for all lines.
fn eval(a: &[String]) {
    use std::io::BufRead;
    install_panic_hook();
    let mut c = conv::Cfg::new();
    c.ignore = a.iter().any(|x| x == "-u");
    c.global_group = a.iter().any(|x| x == "-g");
    c.pretty = a.iter().any(|x| x == "-p") as u8;
    c.annotation = a.iter().any(|x| x == "-a");
    let d = if a.iter().any(|x| x == "-i") { conv::INL } else { conv::BLK };
    let mut l = c.build();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap().replace('␤', "\n");
        println!("{}\n    {}", line.escape_debug(), conv::global(&mut l, &line, d).show());
    }
}
