//! Driver: runs one property's check over the configurations, writes evidence and verdict.
use crate::config::{self, Config};
use crate::conc::Fam;
use crate::interp;
use crate::report::*;
use crate::seq::Cc;
use std::fs;
use std::time::{Duration, Instant};

pub const IDS: [&str; 16] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

fn one_config(id: &'static str, c: &Config, thorough: bool, deadline: Instant) -> Result<Report, String> {
    let mut r = Report::default();
    let b = config::build(c)?;
    if id == "C15" {
        crate::avail::check(c, &b, &mut r);
        return Ok(r);
    }
    let mut feats: Vec<String> = b.printed.lines().filter_map(|l| l.strip_prefix("target_feature=\"")).map(|x| x.trim_end_matches('"').to_string()).collect();
    for f in &c.flags {
        if let Some(l) = f.strip_prefix("-Ctarget-feature=") {
            feats.extend(l.split(',').filter_map(|x| x.strip_prefix('+')).map(|x| x.to_string()));
        }
    }
    let arch = b.printed.lines().find_map(|l| l.strip_prefix("target_arch=\"")).unwrap_or("").trim_end_matches('"').to_string();
    let Some(isa) = crate::isa::for_arch(&arch, &c.target, &feats) else {
        r.notes.insert(format!("{}: instruction set {arch} not modelled", c.id));
        return Ok(r);
    };
    let irq = isa.tick_each();
    if id == "C16" && !irq {
        return Ok(r);
    }
    let l = config::load_linked(&b)?;
    let cx = interp::ctx(l, isa)?;
    let cc = Cc { cx: &cx, built: &b, cfg: c, hs: crate::chash::Hasher::new(&cx.l), thorough, deadline, prop: id };
    let types: Vec<config::TypeInfo> = b.types.iter().filter(|t| t.load || t.store).cloned().collect();
    use crate::{conc, contract, irq, seq, weak};
    match id {
        "C01" => conc::check(&cc, &mut r, &types, Fam::Lin),
        "C02" => types.iter().for_each(|t| seq::values(&cc, &mut r, t, false)),
        "C03" => types.iter().for_each(|t| seq::compare(&cc, &mut r, t)),
        "C04" => {
            types.iter().for_each(|t| seq::values(&cc, &mut r, t, true));
            conc::check(&cc, &mut r, &types, Fam::Neighbour);
        }
        "C05" => {
            types.iter().for_each(|t| seq::loads(&cc, &mut r, t));
            conc::check(&cc, &mut r, &types, Fam::LoadRo);
        }
        "C09" => types.iter().for_each(|t| seq::orderings(&cc, &mut r, t)),
        "C10" => conc::check(&cc, &mut r, &types.iter().filter(|t| t.cas).cloned().collect::<Vec<_>>(), Fam::Update),
        "C11" => {
            types.iter().for_each(|t| conc::solo(&cc, &mut r, t));
            conc::check(&cc, &mut r, &types, Fam::Progress);
        }
        "C12" => types.iter().for_each(|t| seq::uninit(&cc, &mut r, t)),
        "C13" => types.iter().for_each(|t| contract::check(&cc, &mut r, t)),
        "C14" => b.types.iter().for_each(|t| seq::conversions(&cc, &mut r, t)),
        "C06" => weak::check(&cc, &mut r, &types, weak::Fam::AcqRel),
        "C07" => weak::check(&cc, &mut r, &types, weak::Fam::SeqCst),
        "C08" => weak::check(&cc, &mut r, &types, weak::Fam::Coherence),
        "C16" => {
            types.iter().for_each(|t| irq::solo(&cc, &mut r, t));
            conc::check(&cc, &mut r, &types, Fam::Irq);
        }
        _ => {}
    }
    if matches!(id, "C02" | "C03" | "C05" | "C09" | "C13") {
        crate::native::sequential(&cc, &mut r, &types);
    }
    r.add("interpreted_steps", cx.insns.get());
    r.add("configurations", 1);
    Ok(r)
}

pub fn known() -> Vec<(String, String)> {
    let t = fs::read_to_string(config::verif().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.trim();
            let rest = l.strip_prefix("known: property=")?;
            let (id, k) = rest.split_once(' ')?;
            Some((id.to_string(), k.split(" -- ").next().unwrap().trim().to_string()))
        })
        .collect()
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let Some(id) = IDS.iter().copied().find(|x| *x == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let thorough = tier == "thorough";
    let secs = std::env::var("AMUCK_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
    let deadline = t0 + Duration::from_secs(secs);
    let only = std::env::var("AMUCK_ONLY").ok();
    let mut cfgs: Vec<Config> = config::all();
    if let Some(o) = &only {
        cfgs.retain(|c| o.split(',').any(|x| c.id == x || (c.arch == x) || x.strip_prefix('=') == Some(&c.id)));
    }
    config::prune();
    crate::par::watch_memory();
    let mut verdicts = 0;
    if matches!(id, "C06" | "C07" | "C08") {
        match crate::memmodel::selftest().and_then(|a| crate::weak::selftest().map(|b| a + b)) {
            Ok(n) => verdicts = n,
            Err(e) => {
                eprintln!("check error: {e}");
                return 2;
            }
        }
    }
    let res = crate::par::map(&cfgs, |c| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one_config(id, c, thorough, deadline)));
        match r {
            Ok(r) => r,
            Err(_) => Err("engine panicked".into()),
        }
    });
    let mut rep = Report::default();
    if verdicts > 0 {
        rep.add("litmus_verdicts_checked", verdicts);
    }
    let mut fatal = None;
    for (c, r) in cfgs.iter().zip(res) {
        match r {
            Ok(r) => rep.merge(r),
            Err(e) => {
                let e: String = e.chars().take(500).collect();
                if c.id == "x86_64" || e.contains("engine panicked") {
                    fatal = Some(format!("{}: {e}", c.id));
                }
                if id == "C15" && e.contains("does not compile") {
                    rep.viol(format!("{}|build", c.id), format!("configuration {}: {e}", c.id));
                }
                rep.notes.insert(format!("{}: not built: {e}", c.id));
                rep.add("configurations_not_built", 1);
            }
        }
    }
    if let Some(f) = fatal {
        eprintln!("check error: {f}");
        return 2;
    }
    finish(id, tier, rep, t0)
}

pub fn finish(id: &str, tier: &str, rep: Report, t0: Instant) -> i32 {
    let ev = config::verif().join("evidence");
    let _ = fs::create_dir_all(ev.join("replays"));
    let kn = known();
    let mut shown = std::collections::HashSet::new();
    let mut new: Vec<&Viol> = vec![];
    for v in &rep.viols {
        if let Some((_, k)) = kn.iter().find(|(i, k)| i == id && *k == v.key) {
            if shown.insert(k.clone()) {
                println!("KNOWN-FINDING: property={id} {k}");
            }
        } else {
            new.push(v);
        }
    }
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n", esc(id), esc(tier), std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1)));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {},\n", rep.states, rep.transitions, rep.traces, rep.evals, rep.nontrivial));
    o.push_str("  \"rule\": \"evaluations = explored scenarios (calls or thread programs); distinct_nontrivial = groups (configuration, type, operation or asm block) whose code differs from every other explored group\",\n");
    for (k, v) in &rep.counters {
        o.push_str(&format!("  {}: {v},\n", esc(k)));
    }
    o.push_str(&format!("  \"exhaustive\": {},\n", !rep.capped));
    o.push_str(&format!("  \"not_explored\": [{}],\n", rep.notes.iter().take(60).map(|x| esc(x)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!("  \"samples\": [{}]\n }},\n", rep.samples.iter().take(8).map(|x| esc(x)).collect::<Vec<_>>().join(",\n   ")));
    o.push_str(&format!(" \"assumptions\": [{}],\n", assumptions(id).iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"wall_s\": {:.1}, \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), new.len()));
    let _ = fs::write(ev.join(format!("{id}.json")), o);
    println!("{id} {tier}: {} scenarios, {} states, {} transitions, {} groups, {} traces replayed, {:.1}s{}", rep.evals, rep.states, rep.transitions, rep.nontrivial, rep.traces, t0.elapsed().as_secs_f64(), if rep.capped { " (time cap reached)" } else { "" });
    for n in rep.notes.iter().take(if std::env::var("AMUCK_NOTES").is_ok() { 1000 } else { 5 }) {
        println!("  note: {n}");
    }
    if new.is_empty() {
        return 0;
    }
    let path = ev.join("replays").join(format!("{id}.txt"));
    let mut t = String::new();
    for v in &new {
        t.push_str(&format!("== {}\n{}\n\n", v.key, v.text));
    }
    let _ = fs::write(&path, &t);
    for v in new.iter().take(6) {
        println!("  {}: {}", v.key, v.text.lines().take(4).collect::<Vec<_>>().join(" / ").chars().take(500).collect::<String>());
    }
    println!("VIOLATION property={id} replay={}", path.display());
    1
}

fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec!["rustc front end and LLVM back end translate the generated IR faithfully (the explored object is the unoptimised LLVM IR and the inline assembly of the current tree)", "the instruction-set models in engine/src/isa describe the hardware"];
    if matches!(id, "C01" | "C04" | "C10" | "C11") {
        v.push("sequentially consistent interleaving of single-copy-atomic accesses (weak memory behaviour is C06-C08)");
    }
    if id == "C15" {
        v = vec!["the documented availability table transcribed in engine/src/avail.rs"];
    }
    v
}
