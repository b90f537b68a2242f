#![allow(dead_code)]
mod asm;
mod avail;
mod chash;
mod check;
mod conc;
mod config;
mod contract;
mod explore;
mod interp;
mod ir;
mod irq;
mod isa;
mod ops;
mod par;
mod report;
mod memmodel;
mod native;
mod seq;
mod weak;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|x| x.as_str()) {
        Some("setup") => {
            let t0 = Instant::now();
            let all = config::all();
            let r = par::map(&all, |c| (c.id.clone(), config::build(c)));
            for (id, r) in r {
                match r {
                    Ok(b) => println!("{id}: {}", b.types.iter().map(|t| format!("{}:{}{}{}{}", t.name, t.load as u8, t.store as u8, t.swap as u8, t.cas as u8)).collect::<Vec<_>>().join(" ")),
                    Err(e) => println!("{id}: ERROR {e}"),
                }
            }
            println!("{:?}", t0.elapsed());
        }
        Some("selftest") => match memmodel::selftest().and_then(|a| weak::selftest().map(|b| a + b)) {
            Ok(n) => println!("{n} verdicts of the memory models agree with the published ones"),
            Err(e) => {
                println!("{e}");
                std::process::exit(2);
            }
        },
        Some("check") => {
            let tier = a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            std::process::exit(check::run(&a[1], &tier));
        }
        Some("parse") => {
            for f in &a[1..] {
                let t = std::fs::read_to_string(f).unwrap();
                match ir::parse_module(&t) {
                    Ok(m) => println!("{f}: {} funcs {} asms", m.funcs.len(), m.asms.len()),
                    Err(e) => println!("{f}: ERROR {e}"),
                }
            }
        }
        _ => {
            eprintln!("usage: amuck setup | check ID [quick|thorough]");
            std::process::exit(2);
        }
    }
}
