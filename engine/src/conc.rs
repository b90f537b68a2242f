//! Scenario families for the interleaving explorer.
use crate::asm::*;
use crate::config::TypeInfo;
use crate::explore::*;
use crate::ops::*;
use crate::report::*;
use crate::seq::*;
use std::collections::HashMap;

/// Groups the valid orderings of an operation by the code they execute (asm text and memory events).
pub fn ord_classes(cc: &Cc, t: &TypeInfo, k: K) -> Vec<(u8, u8)> {
    let cx = cc.cx;
    let b = base_pat(t.size as u32);
    let mut seen: HashMap<String, (u8, u8)> = HashMap::new();
    let mut out = vec![];
    for (o1, o2) in ords(k) {
        let mut sig = String::new();
        for (held, sc) in [(b[0], 0u32), (b[2], 0), (b[0], 1), (b[2], 1)] {
            let op = Op::new(k, t, cx.b.shared + WOFF + 16).ord(o1, o2).val(b[1]).cur(b[0]);
            let mut m = SeqMem::new(cx, 1);
            m.sc_fail = sc;
            m.put(op.addr, t.size as u32, held);
            cx.cov.borrow_mut().clear();
            let r = call(cx, &op, &mut m);
            let mut ids: Vec<u32> = cx.cov.borrow().iter().copied().collect();
            ids.sort();
            for i in ids {
                let d = &cx.infos[i as usize].def;
                sig.push_str(&format!("{}|{}|", d.template, d.constraints));
            }
            for a in &m.log {
                sig.push_str(&format!("{}{}{}{},", a.what, a.addr, a.size, a.flags));
            }
            sig.push_str(&format!("{r:?}"));
        }
        if !seen.contains_key(&sig) {
            seen.insert(sig, (o1, o2));
            out.push((o1, o2));
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
pub enum Fam {
    Lin,       // C01
    Neighbour, // C04
    Update,    // C10
    Progress,  // C11
    LoadRo,    // C05
    Irq,       // C16
}

pub fn check(cc: &Cc, r: &mut Report, types: &[TypeInfo], fam: Fam) {
    let cx = cc.cx;
    cx.seed.set(3);
    let mut loc = Locals::new(cx);
    let stuck = std::cell::Cell::new(0);
    let machine = crate::native::possible(cc.cfg);
    let jobs = std::cell::RefCell::new(vec![]);
    let cats: &[Cat] = match fam {
        Fam::Lin => &[Cat::Lin, Cat::Fault],
        Fam::Neighbour => &[Cat::Outside],
        Fam::Update => &[Cat::Update, Cat::Progress],
        Fam::Progress => &[Cat::Progress],
        Fam::LoadRo => &[Cat::LoadWrite],
        Fam::Irq => &[Cat::Lin, Cat::Fault, Cat::Update],
    };
    for t in types {
        if !t.load && !t.store {
            continue;
        }
        if cc.late(r) {
            break;
        }
        let ks: Vec<K> = kinds(t);
        if !cc.fresh_all(&format!("conc{}", fam as u8), &ks.iter().map(|k| Op::new(*k, t, 0).fname()).collect::<Vec<_>>()) {
            continue;
        }
        r.nontrivial += 1;
        let n = t.size as u32;
        let b = base_pat(n);
        let m = mask(n * 8);
        let a0 = cx.b.shared + WOFF + 16;
        let d = (b[0] ^ b[1]) | 1;
        // values: A initial, B stored, C swapped, D cas'd
        let (va, vb, vc, vd) = (b[0], b[1], b[2], d & m);
        let delta = 0x0101_0101_0101_0101_0101_0101_0101_0101u128 & m;
        let mkop = |k: K, which: usize, o: (u8, u8), addr: u64| -> Op {
            let op = Op::new(k, t, addr).ord(o.0, o.1);
            match k {
                K::Store => op.val([vb, vc.rotate_right(8), va][which % 3]),
                K::Swap => op.val([vc, vb, va][which % 3]),
                K::Cas | K::Casw => match which % 3 {
                    0 => op.val(vd).cur(va),
                    1 => op.val(va).cur(vb),
                    _ => op.val(vb).cur(vd),
                },
                K::Fus => match which % 2 {
                    0 => op.val(delta).cur(vb),
                    _ => op.val(vb.wrapping_sub(va)).cur(vc),
                },
                _ => op,
            }
        };
        let classes: HashMap<K, Vec<(u8, u8)>> = ks.iter().map(|k| (*k, ord_classes(cc, t, *k))).collect();
        let llsc = ks.iter().any(|k| {
            let op = mkop(*k, 0, (0, 0), a0);
            let mut mm = SeqMem::new(cx, 1);
            mm.put(op.addr, n, va);
            let _ = call(cx, &op, &mut mm);
            mm.log.iter().any(|a| a.what.starts_with("sc"))
        });
        let spur = if llsc { if cc.thorough { 3 } else { 2 } } else { 0 };
        let go = |loc: &mut Locals, r: &mut Report, sc: Scenario| -> bool {
            if cc.late(r) || r.viols.len() >= 20 || stuck.get() >= 3 {
                return false;
            }
            if machine && cx.choice.borrow().is_empty() {
                jobs.borrow_mut().push(crate::native::Job { sc: sc.clone(), ro: false, max_runs: if cc.thorough { 20_000 } else { 400 } });
            }
            let mut ex = Explorer::new(loc, cc.deadline);
            let found = ex.run(&sc);
            r.evals += 1;
            r.states += ex.states;
            r.transitions += ex.transitions;
            r.add("schedules", ex.schedules.min(u64::MAX as u128 / 1000) as u64);
            r.add("terminal_states", ex.terminals);
            let md = r.counters.entry("max_depth".into()).or_default();
            *md = (*md).max(ex.max_depth as u64);
            if ex.max_depth > 80 && std::env::var_os("AMUCK_DEEP").is_some() {
                eprintln!("DEEP {} {} {} states {}", cc.cfg.id, t.name, ex.max_depth, ex.states);
            }
            r.capped |= ex.capped;
            if ex.stuck {
                stuck.set(stuck.get() + 1);
            }
            for f in found {
                if f.cat == Cat::Engine {
                    r.fault(&cc.key(t.name), &Fault::Engine(f.msg), String::new);
                } else if cats.contains(&f.cat) {
                    let names: Vec<String> = sc.threads.iter().map(|o| o.iter().map(|x| x.fname()).collect::<Vec<_>>().join(",")).collect();
                    let regs: String = cx.choice.borrow().iter().map(|(aid, a)| format!("\nregister assignment:\n{}", cx.asm_text(*aid, *a))).collect();
                    r.viol(cc.key(&format!("{:?}|{}", f.cat, names.join("||"))), format!("configuration {} (target {})\n{}\n{}{regs}", cc.cfg.id, cc.cfg.target, f.msg, f.trace.join("\n")));
                }
            }
            r.sample(|| format!("{}: {} states, {} transitions, {} complete schedules", sc.threads.iter().map(|o| o.iter().map(|x| x.show(cx)).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join(" || "), ex.states, ex.transitions, ex.schedules));
            true
        };
        let obj = vec![(a0, t.size, va)];
        // other register assignments of the executed asm blocks
        for &k in &ks {
            static SEEN: std::sync::OnceLock<std::sync::Mutex<std::collections::HashSet<String>>> = std::sync::OnceLock::new();
            for &o in &classes[&k] {
                for aid in cc.blocks(&[(mkop(k, 0, o, a0), va), (mkop(k, 0, o, a0), vb)]) {
                    let d = &cx.infos[aid as usize].def;
                    let sig = format!("{}|{}|{}|{:?}|{}|{}|{}|{:?}|{:?}|{}", cc.prop, cx.isa.name(), cx.l.layout.ptr_bits, k, n, d.template, d.constraints, d.ret, d.args, cx.l.layout.big);
                    if !SEEN.get_or_init(Default::default).lock().unwrap().insert(sig) {
                        continue;
                    }
                    for a in cx.representatives(aid) {
                        cx.choice.borrow_mut().insert(aid, a);
                        r.add("register_assignments", 1);
                        let mut loc = Locals::new(cx);
                        let mut scs = vec![];
                        if fam == Fam::Neighbour {
                            let na = a0 + n as u64;
                            let raw = |v: u128| Op { k: K::RawStore, ty: 0, addr: na, o1: 0, o2: 0, a: v, au: 0, c: 0, cu: 0, none_at: 0, size: 1, off: false };
                            scs.push(Scenario { objs: vec![(a0, t.size, va), (na, 1, 0x10)], threads: vec![vec![mkop(k, 0, o, a0)], vec![raw(0x81), raw(0x3c)]], spurious: spur.min(1) });
                        } else {
                            let mut others = vec![k];
                            for x in [K::Store, K::Swap] {
                                if x != k && ks.contains(&x) {
                                    others.push(x);
                                }
                            }
                            for k2 in others {
                                scs.push(Scenario { objs: obj.clone(), threads: vec![vec![mkop(k, 0, o, a0)], vec![mkop(k2, 1, *classes[&k2].last().unwrap(), a0)]], spurious: spur.min(1) });
                            }
                        }
                        for sc in scs {
                            if !go(&mut loc, r, sc) {
                                return;
                            }
                        }
                    }
                    cx.choice.borrow_mut().clear();
                }
            }
        }
        match fam {
            Fam::Irq => irq(&ks, &classes, &mkop, &obj, &mut |sc| go(&mut loc, r, sc), &offsets(cx, n).iter().map(|a| a - 64 + WOFF + 16).collect::<Vec<_>>(), n),
            Fam::Lin | Fam::Progress | Fam::Update | Fam::LoadRo => {
                let want = |a: &[K]| -> bool {
                    match fam {
                        Fam::Update => a.contains(&K::Fus),
                        Fam::LoadRo => a.contains(&K::Load),
                        _ => true,
                    }
                };
                // every pair of (operation, ordering class)
                for (i, &k1) in ks.iter().enumerate() {
                    for &k2 in &ks[i..] {
                        if !want(&[k1, k2]) {
                            continue;
                        }
                        for &o1 in &classes[&k1] {
                            for &o2 in &classes[&k2] {
                                for (w1, w2) in [(0, 0), (0, 1)] {
                                    if w2 != 0 && matches!(k2, K::Load) {
                                        continue;
                                    }
                                    let sc = Scenario { objs: obj.clone(), threads: vec![vec![mkop(k1, w1, o1, a0)], vec![mkop(k2, w2, o2, a0)]], spurious: spur };
                                    if !go(&mut loc, r, sc) {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
                let canon = |k: K| -> (u8, u8) { *classes[&k].last().unwrap() };
                // two calls against one call
                for &k1 in &ks {
                    for &k1b in &ks {
                        for &k2 in &ks {
                            if !want(&[k1, k1b, k2]) {
                                continue;
                            }
                            let first = |k: K| classes[&k][0];
                            for pick in 0..if cc.thorough { 2 } else { 1 } {
                                let o = |k: K| if pick == 0 { canon(k) } else { first(k) };
                                let sc = Scenario { objs: obj.clone(), threads: vec![vec![mkop(k1, 0, o(k1), a0), mkop(k1b, 1, o(k1b), a0)], vec![mkop(k2, 2, o(k2), a0)]], spurious: spur.min(2) };
                                if !go(&mut loc, r, sc) {
                                    return;
                                }
                            }
                            if cc.thorough {
                                for &k2b in &ks {
                                    let sc = Scenario { objs: obj.clone(), threads: vec![vec![mkop(k1, 0, canon(k1), a0), mkop(k1b, 1, canon(k1b), a0)], vec![mkop(k2, 2, canon(k2), a0), mkop(k2b, 0, canon(k2b), a0)]], spurious: spur.min(1) };
                                    if !go(&mut loc, r, sc) {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
                // three threads
                for (i, &k1) in ks.iter().enumerate() {
                    for (j, &k2) in ks.iter().enumerate().skip(i) {
                        for &k3 in &ks[j..] {
                            if !want(&[k1, k2, k3]) {
                                continue;
                            }
                            let sc = Scenario { objs: obj.clone(), threads: vec![vec![mkop(k1, 0, canon(k1), a0)], vec![mkop(k2, 1, canon(k2), a0)], vec![mkop(k3, 2, canon(k3), a0)]], spurious: spur.min(if cc.thorough { 2 } else { 1 }) };
                            if !go(&mut loc, r, sc) {
                                return;
                            }
                        }
                    }
                }
                // other positions inside the containing word
                for &a in offsets(cx, n).iter() {
                    let a = a - 64 + WOFF + 16;
                    if a == a0 {
                        continue;
                    }
                    for (i, &k1) in ks.iter().enumerate() {
                        for &k2 in &ks[i..] {
                            if !want(&[k1, k2]) {
                                continue;
                            }
                            let sc = Scenario { objs: vec![(a, t.size, va)], threads: vec![vec![mkop(k1, 0, canon(k1), a)], vec![mkop(k2, 1, canon(k2), a)]], spurious: spur.min(1) };
                            if !go(&mut loc, r, sc) {
                                return;
                            }
                        }
                    }
                }
            }
            Fam::Neighbour => {
                // every position; the neighbours on both sides are written by plain stores and by the real operations
                for &a in offsets(cx, n).iter() {
                    let a = a - 64 + WOFF + 16;
                    for &k in &ks {
                        for &o in &classes[&k] {
                            let mut nbs: Vec<(u64, u8)> = vec![];
                            for w in [1u8, 2, 4, 8] {
                                if w as u32 * 8 > cx.l.layout.ptr_bits {
                                    continue;
                                }
                                for na in [a.wrapping_sub(w as u64), a + n as u64] {
                                    if na % w as u64 == 0 {
                                        nbs.push((na, w));
                                    }
                                }
                            }
                            if n < 4 {
                                // bytes anywhere else in the containing word
                                for x in 0..4u64 {
                                    let na = (a & !3) + x;
                                    if (na < a || na >= a + n as u64) && !nbs.contains(&(na, 1)) {
                                        nbs.push((na, 1));
                                    }
                                }
                            }
                            for (na, w) in nbs {
                                if w > 1 && o != *classes[&k].last().unwrap() {
                                    continue;
                                }
                                let nv = base_pat(w as u32)[1];
                                let nv2 = base_pat(w as u32)[2];
                                let raw = |v: u128| Op { k: K::RawStore, ty: 0, addr: na, o1: 0, o2: 0, a: v, au: 0, c: 0, cu: 0, none_at: 0, size: w, off: false };
                                let sc = Scenario {
                                    objs: vec![(a, t.size, va), (na, w, base_pat(w as u32)[0])],
                                    threads: vec![vec![mkop(k, 0, o, a)], vec![raw(nv), raw(nv2)]],
                                    spurious: spur.min(1),
                                };
                                if !go(&mut loc, r, sc) {
                                    return;
                                }
                            }
                        }
                    }
                    // neighbour of the same type, real operations on both
                    let na = a ^ n as u64;
                    for &k1 in &ks {
                        for &k2 in &ks {
                            if n >= 16 {
                                continue;
                            }
                            let c = |k: K| *classes[&k].last().unwrap();
                            let sc = Scenario { objs: vec![(a, t.size, va), (na, t.size, va)], threads: vec![vec![mkop(k1, 0, c(k1), a)], vec![mkop(k2, 0, c(k2), na)]], spurious: spur.min(1) };
                            if !go(&mut loc, r, sc) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    if machine {
        let w = crate::native::Want { lin: fam == Fam::Lin, outside: fam == Fam::Neighbour, update: fam == Fam::Update, progress: fam == Fam::Progress, ..Default::default() };
        if fam != Fam::LoadRo {
            crate::native::judge(cc, r, &jobs.borrow(), w);
        }
    }
    r.add("local_states", loc.size() as u64);
    r.add("max_depth", 0);
}

/// C11: bound on the number of accesses of an undisturbed call.
pub fn solo(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    let cx = cc.cx;
    let n = t.size as u32;
    let b = base_pat(n);
    for k in kinds(t) {
        let op0 = Op::new(k, t, cx.b.shared + 64).val(b[1]).cur(b[0]);
        if !cc.fresh("solo", &op0.fname()) {
            continue;
        }
        for (o1, o2) in ords(k) {
            for held in [b[0], b[2], 0] {
                for sc in [0u32, 1, 3, 7] {
                    let op = op0.ord(o1, o2);
                    let mut m = SeqMem::new(cx, 1);
                    m.sc_fail = sc;
                    m.put(op.addr, n, held);
                    r.evals += 1;
                    let key = cc.key(&format!("solo|{}|{}|{}", op.fname(), o1, o2));
                    let res = call(cx, &op, &mut m);
                    let fails = m.log.iter().filter(|a| a.what == "sc-failed").count();
                    let bound = 10 * (1 + fails);
                    r.states += m.log.len() as u64 + 1;
                    r.transitions += m.log.len() as u64 + 1;
                    match res {
                        Err(f @ Fault::Hang(_)) => r.fault(&key, &f, || format!("configuration {}: {}", cc.cfg.id, op.show(cx))),
                        Err(f @ Fault::Engine(_)) => r.fault(&key, &f, String::new),
                        Err(_) => {}
                        Ok(_) => {
                            if m.log.len() > bound {
                                r.viol(key, format!("configuration {}: {} took {} memory accesses without interference", cc.cfg.id, op.show(cx), m.log.len()));
                            }
                            let tries = m.log.iter().filter(|a| matches!(a.what, "rmw" | "sc" | "sc-failed")).count();
                            let wide = k == K::Fus && n * 8 > cx.l.layout.ptr_bits; // a wide load may be a read-modify-write
                            if tries > 1 + wide as usize + fails {
                                r.viol(cc.key(&format!("solo|{}|retry", op.fname())), format!("configuration {}: {} on {held:#x} tries to write {tries} times although nothing interferes", cc.cfg.id, op.show(cx)));
                            }
                            let over = k != K::Fus && fails as u32 > sc.count_ones();
                            if over {
                                r.viol(cc.key("solo"), format!("configuration {}: {} repeats store-conditional without cause", cc.cfg.id, op.show(cx)));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// C16: interrupt handlers (they run with interrupts disabled) and preempting threads.
fn irq(ks: &[K], classes: &HashMap<K, Vec<(u8, u8)>>, mkop: &dyn Fn(K, usize, (u8, u8), u64) -> Op, obj: &[(u64, u8, u128)], go: &mut dyn FnMut(Scenario) -> bool, offs: &[u64], n: u32) {
    let a0 = obj[0].0;
    let va = obj[0].2;
    let h = |mut o: Op| {
        o.off = true;
        o
    };
    let canon = |k: K| *classes[&k].last().unwrap();
    // every (operation, ordering class) interrupted by every (operation, ordering class)
    for &k1 in ks {
        for &k2 in ks {
            for &o1 in &classes[&k1] {
                for &o2 in &classes[&k2] {
                    for (w1, w2) in [(0, 0), (0, 1), (0, 2), (1, 0)] {
                        let (m, i) = (mkop(k1, w1, o1, a0), mkop(k2, w2, o2, a0));
                        for threads in [vec![vec![m], vec![h(i)]], vec![vec![m], vec![i]]] {
                            if !go(Scenario { objs: obj.to_vec(), threads, spurious: 0 }) {
                                return;
                            }
                        }
                    }
                }
            }
            // a handler with two calls, two handlers, two calls interrupted
            for &k3 in ks {
                let (x, y, z) = (mkop(k1, 0, canon(k1), a0), mkop(k2, 1, canon(k2), a0), mkop(k3, 2, canon(k3), a0));
                for threads in [vec![vec![x], vec![h(y), h(z)]], vec![vec![x], vec![h(y)], vec![h(z)]], vec![vec![x, y], vec![h(z)]], vec![vec![x], vec![y], vec![h(z)]]] {
                    if !go(Scenario { objs: obj.to_vec(), threads, spurious: 0 }) {
                        return;
                    }
                }
            }
            for &a in offs {
                if a != a0 && a % n as u64 == 0 && !go(Scenario { objs: vec![(a, n as u8, va)], threads: vec![vec![mkop(k1, 0, canon(k1), a)], vec![h(mkop(k2, 1, canon(k2), a))]], spurious: 0 }) {
                    return;
                }
            }
        }
    }
}
