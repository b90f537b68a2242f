//! C13: every register assignment the compiler may choose for the operands of every asm block.
use crate::asm::*;
use crate::config::TypeInfo;
use crate::ops::*;
use crate::report::*;
use crate::seq::*;
use std::collections::HashSet;
use std::sync::{Mutex, OnceLock};

pub fn check(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    static SEEN: OnceLock<Mutex<HashSet<String>>> = OnceLock::new();
    let cx = cc.cx;
    let n = t.size as u32;
    let b = base_pat(n);
    let offs = offsets(cx, n);
    cx.contract.set(true);
    for k in kinds(t) {
        if k == K::Fus {
            continue;
        }
        let op0 = Op::new(k, t, offs[offs.len() / 2]);
        if !cc.fresh("contract", &op0.fname()) {
            continue;
        }
        for (o1, o2) in ords(k) {
            if cc.late(r) {
                return;
            }
            // scenarios: (held, current, new)
            let m = mask(n * 8);
            let scen: Vec<(u128, u128, u128)> = if matches!(k, K::Cas | K::Casw) {
                vec![(b[0], b[0], b[1]), (b[0] ^ (1u128 << (n * 8 - 1)), b[0], b[1]), (b[2], b[0], b[1])]
            } else {
                vec![(b[0], 0, b[1]), (m, 0, 0), (0, 0, m)]
            };
            let op1 = op0.ord(o1, o2);
            // which asm blocks run at all
            cx.cov.borrow_mut().clear();
            cx.choice.borrow_mut().clear();
            for (h, c, v) in &scen {
                for sc in [0, 1] {
                    one(cc, r, &op1.val(*v).cur(*c), *h, sc);
                }
            }
            let mut ids: Vec<u32> = cx.cov.borrow().iter().copied().collect();
            ids.sort();
            for aid in ids {
                let d = &cx.infos[aid as usize].def;
                let sig = format!("{}|{}|{:?}|{}|{}|{}|{:?}|{:?}|{}", cx.isa.name(), cx.l.layout.ptr_bits, k, n, d.template, d.constraints, d.ret, d.args, cx.l.layout.big);
                if !SEEN.get_or_init(Default::default).lock().unwrap().insert(sig) {
                    continue;
                }
                r.nontrivial += 1;
                for share in [false, true] {
                    if share && !matches!(k, K::Cas | K::Casw) {
                        continue;
                    }
                    let scen: Vec<(u128, u128, u128)> = if share { vec![(b[0], b[0], b[0]), (b[2], b[0], b[0])] } else { scen.clone() };
                    cx.allocs.borrow_mut().clear();
                    cx.progs.borrow_mut().clear();
                    cx.choice.borrow_mut().clear();
                    cx.share_equal.set(share);
                    one(cc, r, &op1.val(scen[0].2).cur(scen[0].1), scen[0].0, 0);
                    let na = match cx.allocs_of(aid, None, 200_000) {
                        Ok(a) => a.len() as u32,
                        Err(e) => {
                            r.fault(&cc.key(&op1.fname()), &Fault::Engine(e), String::new);
                            continue;
                        }
                    };
                    if na >= 200_000 {
                        r.capped = true;
                    }
                    r.add("register_assignments", na as u64);
                    r.add("asm_blocks", 1);
                    let seeds: u64 = if na > 3000 && !cc.thorough { 2 } else { 4 };
                    for a in 0..na {
                        if a & 63 == 0 && cc.late(r) {
                            break;
                        }
                        cx.choice.borrow_mut().insert(aid, a);
                        for s in 0..seeds {
                            cx.seed.set(s);
                            for (h, c, v) in &scen {
                                one(cc, r, &op1.val(*v).cur(*c), *h, 0);
                                r.states += 1;
                            }
                        }
                        cx.seed.set(0);
                        one(cc, r, &op1.val(scen[0].2).cur(scen[0].1), scen[0].0, 1);
                    }
                    cx.share_equal.set(false);
                    cx.allocs.borrow_mut().clear();
                    cx.progs.borrow_mut().clear();
                    cx.choice.borrow_mut().clear();
                }
            }
        }
    }
    cx.contract.set(false);
}

fn one(cc: &Cc, r: &mut Report, op: &Op, held: u128, sc: u32) {
    let cx = cc.cx;
    let mut m = SeqMem::new(cx, cx.seed.get() + 1);
    m.sc_fail = sc;
    m.put(op.addr, op.size as u32, held);
    r.evals += 1;
    let key = cc.key(&format!("{}|{}|{}", op.fname(), ORD[op.o1 as usize], ORD[op.o2 as usize]));
    let desc = |m: &SeqMem| {
        let mut s = format!("configuration {}: {} on {held:#x}, register garbage seed {}", cc.cfg.id, op.show(cx), cx.seed.get());
        for (aid, a) in cx.choice.borrow().iter() {
            s.push_str(&format!("\nregister assignment {a} of asm block {aid}:\n{}", cx.asm_text(*aid, *a)));
        }
        s.push_str(&format!("\n{} accesses", m.log.len()));
        s
    };
    match call(cx, op, &mut m) {
        Err(f) => {
            let d = desc(&m);
            r.fault(&key, &f, || d)
        }
        Ok((End::Panic(p), _)) => r.viol(key, format!("panic {p}\n{}", desc(&m))),
        Ok((End::Done, res)) => {
            r.transitions += m.log.len() as u64;
            let (nv, w) = spec(op, held, op.k == K::Casw && !res.ok);
            if m.get(op.addr, op.size as u32) != nv || (op.has_result() && res.val != w.val) || res.ok != w.ok {
                r.viol(key, format!("result depends on the register assignment: cell {:#x} (expected {nv:#x}), returned {} {:#x} (expected {} {:#x})\n{}", m.get(op.addr, op.size as u32), res.ok, res.val, w.ok, w.val, desc(&m)));
            }
            r.sample(|| desc(&m));
        }
    }
}
