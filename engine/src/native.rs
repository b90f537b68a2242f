//! Stateless exploration of the compiled operations on this machine (x86_64 and 32-bit x86).
//!
//! The crate and the harness are compiled to machine code and linked with native/drv.c, which runs the calls of a
//! scenario as coroutines, stops at every access to the shared page, and enumerates every schedule of the accesses.
//! The results are judged by the same sequential specification as the model's, and each native execution is compared
//! with what the model does under the same schedule.
use crate::config::{self, Built, Config};
use crate::explore::*;
use crate::ops::*;
use crate::report::Report;
use crate::seq::Cc;
use std::collections::HashMap;
use std::fs;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};

const NWIN: usize = 64;

pub struct Native {
    exe: PathBuf,
    tab: HashMap<String, u16>,
    pub variant: &'static str,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub sc: Scenario,
    pub ro: bool,
    pub max_runs: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Not,
    Done,
    Panic,
    Fault,
    Illegal,
    Long,
    ReadOnly,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub status: Status,
    pub state: u8,
    pub nacc: u8,
    pub res: Res,
}
#[derive(Clone, Debug)]
pub struct Run {
    pub sched: Vec<u8>,
    pub calls: Vec<Vec<Call>>,
    pub mem: Vec<u8>,
}

fn cpu_has(flag: &str) -> bool {
    static F: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let f = F.get_or_init(|| fs::read_to_string("/proc/cpuinfo").unwrap_or_default().lines().find(|l| l.starts_with("flags")).unwrap_or("").to_string());
    f.split(' ').any(|x| x == flag)
}

/// Can this configuration run on this machine?
pub fn possible(c: &Config) -> bool {
    if !matches!(c.target.as_str(), "x86_64-unknown-linux-gnu" | "i686-unknown-linux-gnu" | "i586-unknown-linux-gnu") {
        return false;
    }
    for f in &c.flags {
        if f.contains("+cmpxchg16b") && !cpu_has("cx16") || f.contains("+avx") && !cpu_has("avx") {
            return false;
        }
    }
    true
}

fn cmd(c: &mut Command) -> Result<String, String> {
    let o = c.output().map_err(|e| format!("{c:?}: {e}"))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        return Err(e.lines().filter(|l| l.contains("error")).take(4).collect::<Vec<_>>().join(" | "));
    }
    Ok(String::from_utf8_lossy(&o.stdout).to_string())
}

pub fn build(c: &Config, b: &Built, opt: &'static str) -> Result<Native, String> {
    let drv = config::verif().join("native/drv.c");
    let src = fs::read(&drv).map_err(|e| e.to_string())?;
    let mut h = 0xcbf29ce484222325u64;
    for x in src {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    let dir = b.dir.join(format!("native-{opt}-{h:016x}"));
    let mut names = vec![];
    for t in &b.types {
        for k in kinds(t) {
            names.push(Op::new(k, t, 0).fname());
        }
    }
    let tab: HashMap<String, u16> = names.iter().enumerate().map(|(i, n)| (n.clone(), i as u16)).collect();
    let exe = dir.join("drv");
    if !exe.exists() {
        let tmp = b.dir.join(format!("native.tmp{}.{:?}", std::process::id(), std::thread::current().id()));
        let _ = fs::remove_dir_all(&tmp);
        fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
        let sys = config::core_dir(c).display().to_string();
        let rustc = |krate: &str, src: PathBuf, extra: &[String]| -> Result<String, String> {
            let mut m = Command::new(config::nightly());
            m.env("RUSTC_BOOTSTRAP", if c.stable && krate != "ops" { "-1" } else { "1" })
                .env("CARGO_PKG_NAME", "atomic-maybe-uninit")
                .args(["--edition", "2021", "--crate-name", krate, "--crate-type", "rlib", "--emit=metadata,obj", "--sysroot", &sys, "--target", &c.target])
                .args(["-Cpanic=abort", "-Ccodegen-units=1", "-Crelocation-model=static", "--cap-lints", "allow", "-Cdebug-assertions=off"])
                .arg(format!("-Copt-level={}", &opt[1..]))
                .args(&c.flags)
                .args(extra)
                .arg(src)
                .arg("--out-dir")
                .arg(&tmp);
            cmd(&mut m)
        };
        let mut x: Vec<String> = vec![];
        for f in &b.cfgs {
            x.extend(["--cfg".to_string(), f.clone()]);
        }
        rustc("atomic_maybe_uninit", config::repo().join("src/lib.rs"), &x)?;
        let mut x: Vec<String> = vec!["--extern".into(), format!("atomic_maybe_uninit={}", tmp.join("libatomic_maybe_uninit.rmeta").display())];
        for t in &b.types {
            for (b, n) in [(t.load, "load"), (t.store, "store"), (t.swap, "swap"), (t.cas, "cas")] {
                if b {
                    x.extend(["--cfg".to_string(), format!("{n}_{}", t.name)]);
                }
            }
        }
        rustc("ops", config::verif().join("harness/ops.rs"), &x)?;
        let mut t = String::new();
        for n in &names {
            t.push_str(&format!("extern char {n}[];\n"));
        }
        t.push_str("void *optab[] = {\n");
        for n in &names {
            t.push_str(&format!("{n},\n"));
        }
        t.push_str("0};\n");
        fs::write(tmp.join("table.c"), t).map_err(|e| e.to_string())?;
        // what the code needs from core: only panics may stay unresolved (calling one is recognised as a panic)
        let undef = cmd(Command::new("nm").args(["-u"]).arg(tmp.join("ops.o")).arg(tmp.join("atomic_maybe_uninit.o")))?;
        for l in undef.lines() {
            let Some(s) = l.trim().strip_prefix("U ") else { continue };
            if s.contains("panic") || s.contains("unwind") || s.contains("atomic_maybe_uninit") || s.starts_with("mem") || s == "bcmp" || s == "_GLOBAL_OFFSET_TABLE_" {
                continue;
            }
            // formatting machinery, only reached from the Debug entry points (not called here)
            if s.contains("3fmt") || s.contains("slice") || s.contains("str") || s.contains("core4char") || s.contains("4core7unicode") {
                continue;
            }
            return Err(format!("needs {s} from core"));
        }
        let m = if c.target.starts_with("x86_64") { "-m64" } else { "-m32" };
        cmd(Command::new("gcc")
            .args([m, "-O1", "-ffreestanding", "-nostdlib", "-static", "-no-pie", "-fno-pic", "-fno-stack-protector", "-fcf-protection=none", "-mgeneral-regs-only", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,noexecstack", "-o"])
            .arg(tmp.join("drv"))
            .arg(&drv)
            .arg(tmp.join("table.c"))
            .arg(tmp.join("ops.o"))
            .arg(tmp.join("atomic_maybe_uninit.o")))?;
        if fs::rename(&tmp, &dir).is_err() {
            let _ = fs::remove_dir_all(&tmp);
        }
    }
    Ok(Native { exe, tab, variant: opt })
}

impl Native {
    fn encode(&self, j: &Job, wbase: u64) -> Option<Vec<u8>> {
        let mut o = vec![0u8; 12];
        o[0] = j.sc.threads.len() as u8;
        for (i, t) in j.sc.threads.iter().enumerate() {
            if t.len() > 4 {
                return None;
            }
            o[1 + i] = t.len() as u8;
        }
        o[4] = j.ro as u8;
        o[8..12].copy_from_slice(&j.max_runs.to_le_bytes());
        let mut mem = initial(&j.sc, wbase);
        mem.resize(NWIN, 0x5a);
        o.extend(mem);
        for t in 0..3 {
            for i in 0..4 {
                let mut c = [0u8; 44];
                if let Some(op) = j.sc.threads.get(t).and_then(|x| x.get(i)) {
                    let off = op.addr.wrapping_sub(wbase);
                    if off + op.size as u64 > NWIN as u64 {
                        return None;
                    }
                    let f = if op.k == K::RawStore { 0 } else { *self.tab.get(&op.fname())? };
                    c[0..2].copy_from_slice(&f.to_le_bytes());
                    c[2..4].copy_from_slice(&(off as u16).to_le_bytes());
                    c[4] = match op.k {
                        K::Load => 0,
                        K::Store => 1,
                        K::Swap => 2,
                        K::Cas => 3,
                        K::Casw => 4,
                        K::Fu => 5,
                        K::Fus => 6,
                        K::RawStore => 7,
                        _ => return None,
                    };
                    c[5] = op.size;
                    c[6] = op.o1;
                    c[7] = op.o2;
                    c[8] = op.none_at;
                    c[12..28].copy_from_slice(&op.a.to_le_bytes());
                    c[28..44].copy_from_slice(&op.c.to_le_bytes());
                }
                o.extend(c);
            }
        }
        Some(o)
    }

    /// Runs the jobs; per job the executions and whether they are all of them.
    pub fn run(&self, jobs: &[Job], wbase: u64) -> Result<Vec<(Vec<Run>, bool)>, String> {
        let mut input = vec![];
        let mut ok = vec![];
        for j in jobs {
            match self.encode(j, wbase) {
                Some(x) => {
                    input.extend(x);
                    ok.push(true);
                }
                None => ok.push(false),
            }
        }
        let mut p = Command::new(&self.exe).env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let mut si = p.stdin.take().unwrap();
        let mut so = p.stdout.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&input);
        });
        let pid = p.id();
        let fin = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let f2 = fin.clone();
        let wd = std::thread::spawn(move || {
            for _ in 0..600 {
                if f2.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                std::thread::sleep(std::time::Duration::from_millis(100));
            }
            let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
        });
        let mut out = vec![];
        let _ = so.read_to_end(&mut out);
        fin.store(true, std::sync::atomic::Ordering::Relaxed);
        let st = p.wait().map_err(|e| e.to_string())?;
        let _ = w.join();
        let _ = wd.join();
        if !st.success() {
            return Err(format!("the driver ended with {st}"));
        }
        let mut i = 0;
        let mut take = |n: usize| -> Result<&[u8], String> {
            let r = out.get(i..i + n).ok_or("short output")?;
            i += n;
            Ok(r)
        };
        let mut res = vec![];
        for (j, ok) in jobs.iter().zip(ok) {
            let mut runs = vec![];
            if !ok {
                res.push((runs, false));
                continue;
            }
            let all = loop {
                match take(1)?[0] {
                    2 => break true,
                    3 => break false,
                    _ => {}
                }
                let n = u16::from_le_bytes(take(2)?.try_into().unwrap()) as usize;
                let sched = take(n)?.to_vec();
                let mut calls = vec![];
                for t in &j.sc.threads {
                    let mut v = vec![];
                    for op in t {
                        let b = take(56)?;
                        let m = if op.size == 16 { u128::MAX } else { (1u128 << (8 * op.size)) - 1 };
                        let g = |o: usize| u128::from_le_bytes(b[o..o + 16].try_into().unwrap()) & m;
                        let fu = matches!(op.k, K::Fu | K::Fus);
                        let done = b[0] == 1;
                        v.push(Call {
                            status: [Status::Not, Status::Done, Status::Panic, Status::Fault, Status::Illegal, Status::Long, Status::ReadOnly][b[0] as usize],
                            state: b[3],
                            nacc: b[4],
                            res: Res { ok: b[1] != 0, calls: if fu { b[2] } else { 0 }, val: if done && op.has_result() { g(8) } else { 0 }, undef: 0, lastarg: if fu { g(24) } else { 0 }, lastret: if fu { g(40) } else { 0 } },
                        });
                    }
                    calls.push(v);
                }
                let mem = take(NWIN)?.to_vec();
                runs.push(Run { sched, calls, mem });
            };
            res.push((runs, all));
        }
        Ok(res)
    }
}

/// Is there an order of the calls, respecting which call ended before which began, that explains results and contents?
fn explained(sc: &Scenario, run: &Run, wbase: u64) -> bool {
    struct C {
        op: Op,
        obj: usize,
        res: Res,
        inv: usize,
        ret: usize,
        t: usize,
    }
    let mut v: Vec<C> = vec![];
    for (t, ops) in sc.threads.iter().enumerate() {
        let steps: Vec<usize> = run.sched.iter().enumerate().filter(|x| *x.1 as usize == t).map(|x| x.0).collect();
        let mut pos = 0;
        let mut prev_ret = None;
        for (i, op) in ops.iter().enumerate() {
            let c = &run.calls[t][i];
            if c.status != Status::Done || c.nacc == 0 || pos + c.nacc as usize > steps.len() {
                return false;
            }
            let first = steps[pos];
            pos += c.nacc as usize;
            let ret = steps[pos - 1];
            v.push(C { op: *op, obj: sc.objs.iter().position(|o| o.0 == op.addr && o.1 == op.size).unwrap_or(0), res: c.res, inv: prev_ret.unwrap_or(first), ret, t });
            prev_ret = Some(ret);
        }
    }
    fn go(v: &[C], used: &mut Vec<bool>, vals: &mut Vec<u128>, fin: &dyn Fn(&[u128]) -> bool) -> bool {
        if used.iter().all(|x| *x) {
            return fin(vals);
        }
        for i in 0..v.len() {
            if used[i] || (0..v.len()).any(|j| j != i && !used[j] && (v[j].t == v[i].t && j < i || v[j].t != v[i].t && v[j].ret < v[i].inv)) {
                continue;
            }
            let old = vals[v[i].obj];
            for sp in [false, true] {
                if sp && (v[i].op.k != K::Casw || old != v[i].op.c) {
                    continue;
                }
                let (nv, r) = spec(&v[i].op, old, sp);
                if v[i].op.has_result() && (r.ok, r.val) != (v[i].res.ok, v[i].res.val) {
                    continue;
                }
                vals[v[i].obj] = nv;
                used[i] = true;
                if go(v, used, vals, fin) {
                    return true;
                }
                used[i] = false;
                vals[v[i].obj] = old;
            }
        }
        false
    }
    let mut vals: Vec<u128> = sc.objs.iter().map(|o| o.2).collect();
    go(&v, &mut vec![false; v.len()], &mut vals, &|vals| sc.objs.iter().enumerate().all(|(i, (a, n, _))| from_bytes(false, &run.mem[(a - wbase) as usize..(a - wbase) as usize + *n as usize]) == vals[i]))
}

fn show(cc: &Cc, n: &Native, sc: &Scenario, run: &Run, what: &str) -> String {
    let mut s = format!("configuration {} (target {}), compiled code ({}) run on this machine: {what}\n", cc.cfg.id, cc.cfg.target, n.variant);
    for (t, ops) in sc.threads.iter().enumerate() {
        for (i, op) in ops.iter().enumerate() {
            let c = &run.calls[t][i];
            let e = match c.status {
                Status::Done if !op.has_result() => "returned".to_string(),
                Status::Done => format!("returned {}{:#x}", if matches!(op.k, K::Cas | K::Casw | K::Fus | K::Fu) { if c.res.ok { "Ok " } else { "Err " } } else { "" }, c.res.val),
                Status::Not => "not reached".into(),
                Status::Panic => "panicked".into(),
                Status::Fault => "memory fault".into(),
                Status::Illegal => "illegal instruction".into(),
                Status::Long => "did not finish".into(),
                Status::ReadOnly => "wrote to read-only memory".into(),
            };
            s.push_str(&format!("thread {t}: {} -> {e} ({} accesses)\n", op.show(cc.cx), c.nacc));
        }
    }
    s.push_str(&format!("order of the memory accesses (thread numbers): {:?}\n", run.sched));
    for (i, (a, n, v)) in sc.objs.iter().enumerate() {
        let o = (a - cc.cx.b.shared - WOFF) as usize;
        s.push_str(&format!("object {i} at +{} ({n} bytes): initially {v:#x}, finally {:#x}\n", a - cc.cx.b.shared, from_bytes(false, &run.mem[o..o + *n as usize])));
    }
    s
}

/// What is judged.
#[derive(Clone, Copy, Default)]
pub struct Want {
    pub lin: bool,
    pub outside: bool,
    pub update: bool,
    pub progress: bool,
    pub load_ro: bool,
    pub panic: bool,
    pub state: bool,
}

/// Runs scenarios natively in both variants, judges every execution and compares it with the model.
pub fn judge(cc: &Cc, r: &mut Report, jobs: &[Job], w: Want) {
    if jobs.is_empty() {
        return;
    }
    let wbase = cc.cx.b.shared + WOFF;
    let variants: &[&'static str] = &["O3", "O0"];
    let mut loc = Locals::new(cc.cx);
    for v in variants {
        let n = match build(cc.cfg, cc.built, v) {
            Ok(n) => n,
            Err(e) => {
                r.notes.insert(format!("{}: not run natively ({v}): {}", cc.cfg.id, e.chars().take(200).collect::<String>()));
                continue;
            }
        };
        for chunk in jobs.chunks(100) {
            if cc.late(r) {
                return;
            }
            let res = match n.run(chunk, wbase) {
                Ok(x) => x,
                Err(e) => {
                    r.notes.insert(format!("{}: not run natively ({v}): {e}", cc.cfg.id));
                    break;
                }
            };
            for (j, (runs, all)) in chunk.iter().zip(res) {
                r.add("native_scenarios", 1);
                if !all {
                    r.add("native_scenarios_truncated", 1);
                }
                let mut ex = Explorer::new(&mut loc, cc.deadline);
                for run in runs {
                    r.add("native_schedules", 1);
                    r.add("native_accesses", run.sched.len() as u64);
                    let names: Vec<String> = j.sc.threads.iter().map(|o| o.iter().map(|x| x.fname()).collect::<Vec<_>>().join(",")).collect();
                    let names = names.join("||");
                    let mut bad: Option<String> = None;
                    let each = || j.sc.threads.iter().zip(&run.calls).flat_map(|(o, c)| o.iter().zip(c));
                    if let Some((_, c)) = each().find(|(_, c)| matches!(c.status, Status::Fault | Status::Illegal | Status::ReadOnly)) {
                        if w.lin || w.outside && c.status == Status::Fault || w.load_ro && j.ro && c.status == Status::ReadOnly {
                            bad = Some(format!("a call ended with {:?}", c.status));
                        }
                    } else if each().any(|(_, c)| c.status == Status::Panic) {
                        if w.panic || w.lin {
                            bad = Some("a call panicked".into());
                        }
                    } else if each().any(|(_, c)| c.status == Status::Long) {
                        if w.progress {
                            bad = Some("a call does not complete".into());
                        }
                    } else {
                        let ok = explained(&j.sc, &run, wbase);
                        if !ok && (w.lin || w.outside && j.sc.objs.len() > 1) {
                            bad = Some("no order of the calls explains the results and the final contents".into());
                        }
                        if w.outside || w.lin {
                            let m0 = initial(&j.sc, wbase);
                            let owned = |i: usize| j.sc.objs.iter().any(|(a, n, _)| (a - wbase) as usize <= i && i < (a - wbase) as usize + *n as usize);
                            if let Some(i) = (0..NWIN).find(|&i| !owned(i) && run.mem[i] != *m0.get(i).unwrap_or(&0x5a)) {
                                bad = Some(format!("byte +{} outside the objects changed", i as u64 + WOFF));
                            }
                        }
                        for (op, c) in each() {
                            if w.update && op.k == K::Fus {
                                let m = if op.size == 16 { u128::MAX } else { (1u128 << op.bits()) - 1 };
                                let s = &c.res;
                                if !(if s.ok { s.lastarg == s.val && s.lastret == s.val.wrapping_add(op.a) & m && s.val != op.c } else { s.lastarg == s.val && s.val == op.c }) || !ok {
                                    bad = Some(format!("{} is not one atomic update: {s:x?}", op.fname()));
                                }
                            }
                            if w.state && c.state != 0 {
                                let l: Vec<&str> = ["x87 control word", "x87 register stack", "MXCSR", "direction flag", "callee-saved registers"].iter().enumerate().filter(|x| c.state >> x.0 & 1 == 1).map(|x| *x.1).collect();
                                bad = Some(format!("{} changed the caller's {}", op.fname(), l.join(", ")));
                            }
                        }
                    }
                    if let Some(b) = bad {
                        if r.viols.len() < 20 {
                            r.viol(cc.key(&format!("native|{names}")), show(cc, &n, &j.sc, &run, &b));
                        }
                        continue;
                    }
                    // the model under the same schedule
                    if each().all(|(_, c)| c.status == Status::Done) {
                        match ex.follow(&j.sc, &run.sched) {
                            Ok((res, mem)) => {
                                r.traces += 1;
                                if w.state {
                                    let off = res.iter().flatten().zip(run.calls.iter().flatten()).find(|(x, y)| (x.ok, x.val) == (y.res.ok, y.res.val) && (x.calls, x.lastarg, x.lastret) != (y.res.calls, y.res.lastarg, y.res.lastret));
                                    if let Some((x, y)) = off {
                                        r.viol(cc.key(&format!("native|{names}")), show(cc, &n, &j.sc, &run, &format!("values the caller keeps were destroyed: closure calls, last argument, last result {:x?}, must be {:x?}", (y.res.calls, y.res.lastarg, y.res.lastret), (x.calls, x.lastarg, x.lastret))));
                                        continue;
                                    }
                                }
                                let same = res.iter().zip(&run.calls).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x.ok, x.val & !x.undef, x.calls, x.lastarg) == (y.res.ok, y.res.val & !x.undef, y.res.calls, y.res.lastarg))) && mem[..] == run.mem[..mem.len()];
                                if !same {
                                    r.add("native_model_mismatches", 1);
                                    r.notes.insert(format!("{}: {names}: model and machine ({v}) differ under schedule {:?}: model {res:x?} machine {:x?}", cc.cfg.id, run.sched, run.calls.iter().map(|c| c.iter().map(|c| c.res).collect::<Vec<_>>()).collect::<Vec<_>>()));
                                }
                            }
                            Err(e) => {
                                r.add("native_schedules_without_model", 1);
                                r.notes.insert(format!("{}: {names}: no model execution for a native schedule ({v}): {e}", cc.cfg.id));
                            }
                        }
                    }
                }
            }
        }
    }
}

fn solo(ops: Vec<Op>, obj: (u64, u8, u128)) -> Job {
    Job { sc: Scenario { objs: vec![obj], threads: vec![ops], spurious: 0 }, ro: false, max_runs: 4 }
}

/// Sequences of calls without interference, judged against the sequential specification.
pub fn sequential(cc: &Cc, r: &mut Report, types: &[config::TypeInfo]) {
    if !possible(cc.cfg) {
        return;
    }
    let cx = cc.cx;
    let wbase = cx.b.shared + WOFF;
    let mut jobs = vec![];
    let mut w = Want { lin: true, outside: true, panic: true, ..Default::default() };
    for t in types {
        let n = t.size;
        let ks = kinds(t);
        if !cc.fresh_all("native", &ks.iter().map(|k| Op::new(*k, t, 0).fname()).collect::<Vec<_>>()) {
            continue;
        }
        let b = crate::seq::base_pat(n as u32);
        let pats = crate::seq::patterns(n as u32, cc.thorough);
        let places: Vec<u64> = (0..32 / n as u64).map(|k| wbase + k * n as u64).collect();
        let mid = wbase + 16;
        let has = |k: K| ks.contains(&k);
        match cc.prop {
            "C02" => {
                for (i, &p) in pats.iter().enumerate() {
                    let q = pats[(i + 3) % pats.len()];
                    for o in 0..3 {
                        for &a in if i < 3 || cc.thorough { &places[..] } else { &places[places.len() / 2..places.len() / 2 + 1] } {
                            let mut v = vec![];
                            if has(K::Store) {
                                let (x, y) = ords(K::Store)[o];
                                v.push(Op::new(K::Store, t, a).ord(x, y).val(p));
                            }
                            if has(K::Load) {
                                let (x, y) = ords(K::Load)[o];
                                v.push(Op::new(K::Load, t, a).ord(x, y));
                            }
                            if has(K::Swap) {
                                for (x, y) in ords(K::Swap).into_iter().skip(o).step_by(3) {
                                    v.push(Op::new(K::Swap, t, a).ord(x, y).val(q));
                                }
                            }
                            v.truncate(4);
                            jobs.push(solo(v.clone(), (a, n, q)));
                            v.reverse();
                            jobs.push(solo(v, (a, n, p)));
                        }
                    }
                }
            }
            "C03" if has(K::Cas) => {
                for k in [K::Cas, K::Casw] {
                    for &held in &pats {
                        let mut curs = vec![held, !held];
                        curs.extend((0..n as u32 * 8).map(|i| held ^ (1u128 << i)));
                        for (j, c) in curs.into_iter().enumerate() {
                            if j > 2 && held != b[0] && !cc.thorough {
                                continue;
                            }
                            for (i, (x, y)) in ords(k).into_iter().enumerate() {
                                if held != b[0] && i != 14 && i != 0 {
                                    continue;
                                }
                                if j > 2 && i != 14 {
                                    continue;
                                }
                                let mut v = vec![Op::new(k, t, mid).ord(x, y).val(b[1]).cur(c)];
                                if has(K::Load) {
                                    v.push(Op::new(K::Load, t, mid));
                                }
                                jobs.push(solo(v, (mid, n, held)));
                            }
                        }
                    }
                }
            }
            "C05" if has(K::Load) && n as u32 * 8 <= cx.l.layout.ptr_bits => {
                w = Want { load_ro: true, lin: true, ..Default::default() };
                for (x, y) in ords(K::Load) {
                    for &a in &places {
                        for &p in pats.iter().take(6) {
                            let mut j = solo(vec![Op::new(K::Load, t, a).ord(x, y)], (a, n, p));
                            j.ro = true;
                            jobs.push(j);
                        }
                    }
                }
            }
            "C09" => {
                for &k in &ks {
                    for (x, y) in ords(k) {
                        for held in [b[0], b[2]] {
                            jobs.push(solo(vec![Op::new(k, t, mid).ord(x, y).val(b[1]).cur(b[0])], (mid, n, held)));
                        }
                    }
                }
            }
            "C13" => {
                w = Want { state: true, lin: true, ..Default::default() };
                for &k in &ks {
                    for (x, y) in ords(k) {
                        for held in [b[0], b[2], 0] {
                            jobs.push(solo(vec![Op::new(k, t, mid).ord(x, y).val(b[1]).cur(b[0])], (mid, n, held)));
                        }
                    }
                    // values the compiler keeps in registers across retries
                    for &k2 in &ks {
                        if !has(K::Fus) {
                            continue;
                        }
                        let f = Op::new(K::Fus, t, mid).val(b[1]).cur(b[2]);
                        for (x, y) in [(0, 0), (4, 4)] {
                            jobs.push(Job { sc: Scenario { objs: vec![(mid, n, b[0])], threads: vec![vec![f.ord(x, y)], vec![Op::new(k2, t, mid).ord(if k2 == K::Load { 0 } else { x }, y).val(b[1] ^ b[2]).cur(b[0])]], spurious: 0 }, ro: false, max_runs: 400 });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    judge(cc, r, &jobs, w);
    if cc.prop == "C09" {
        invalid(cc, r, types);
    }
}

/// Invalid orderings must panic before touching memory.
fn invalid(cc: &Cc, r: &mut Report, types: &[config::TypeInfo]) {
    let cx = cc.cx;
    let wbase = cx.b.shared + WOFF;
    let mid = wbase + 16;
    let mut jobs = vec![];
    for t in types {
        let b = crate::seq::base_pat(t.size as u32);
        for k in kinds(t) {
            let bad: Vec<(u8, u8)> = match k {
                K::Load => vec![(2, 0), (3, 0)],
                K::Store => vec![(1, 0), (3, 0)],
                K::Cas | K::Casw | K::Fus => (0..5).flat_map(|s| [(s, 2), (s, 3)]).collect(),
                _ => vec![],
            };
            for (x, y) in bad {
                jobs.push(solo(vec![Op::new(k, t, mid).ord(x, y).val(b[1]).cur(b[0])], (mid, t.size, b[0])));
            }
        }
    }
    for v in ["O3", "O0"] {
        let Ok(n) = build(cc.cfg, cc.built, v) else { continue };
        let Ok(res) = n.run(&jobs, wbase) else { continue };
        for (j, (runs, _)) in jobs.iter().zip(res) {
            for run in runs {
                r.add("native_schedules", 1);
                let c = &run.calls[0][0];
                let m0 = initial(&j.sc, wbase);
                if c.status != Status::Panic || c.nacc != 0 || run.mem[..m0.len()] != m0[..] {
                    r.viol(cc.key(&format!("native|{}|{:?}", j.sc.threads[0][0].fname(), (j.sc.threads[0][0].o1, j.sc.threads[0][0].o2))), show(cc, &n, &j.sc, &run, "an invalid ordering must panic without any effect"));
                }
            }
        }
    }
}
