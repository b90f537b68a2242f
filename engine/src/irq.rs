//! C16: state of the interrupt enable flag around every call on interrupt-based targets.
use crate::asm::*;
use crate::config::TypeInfo;
use crate::ops::*;
use crate::report::*;
use crate::seq::*;

pub fn solo(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    let cx = cc.cx;
    let n = t.size as u32;
    let b = base_pat(n);
    let m = mask(n * 8);
    for k in kinds(t) {
        let op0 = Op::new(k, t, cx.b.shared + 64);
        if !cc.fresh("irq", &op0.fname()) {
            continue;
        }
        r.nontrivial += 1;
        for (o1, o2) in ords(k) {
            for held in [b[0], b[2], 0, m, b[0] ^ 1, b[0] ^ (1 << (n * 8 - 1))] {
                for cur in [b[0], held] {
                    let op = op0.ord(o1, o2).val(b[1]).cur(cur);
                    // asm blocks executed with the canonical registers, then all representative assignments
                    cx.choice.borrow_mut().clear();
                    cx.cov.borrow_mut().clear();
                    one(cc, r, &op, held);
                    let mut ids: Vec<u32> = cx.cov.borrow().iter().copied().collect();
                    ids.sort();
                    for aid in ids {
                        for a in cx.representatives(aid) {
                            cx.choice.borrow_mut().insert(aid, a);
                            one(cc, r, &op, held);
                        }
                        cx.choice.borrow_mut().clear();
                    }
                }
            }
        }
    }
}

fn one(cc: &Cc, r: &mut Report, op: &Op, held: u128) {
    let cx = cc.cx;
    for off in [false, true] {
        let op = Op { off, ..*op };
        let key = cc.key(&format!("{}|{}|{}", op.fname(), ORD[op.o1 as usize], ORD[op.o2 as usize]));
        let desc = |m: &str| {
            let mut s = format!("configuration {} (target {}): {} on {held:#x}, called with interrupts {}\n{m}", cc.cfg.id, cc.cfg.target, op.show(cx), if off { "disabled" } else { "enabled" });
            for (aid, a) in cx.choice.borrow().iter() {
                s.push_str(&format!("\nregister assignment:\n{}", cx.asm_text(*aid, *a)));
            }
            s
        };
        let mut m = SeqMem::new(cx, 1);
        m.put(op.addr, op.size as u32, held);
        r.evals += 1;
        let mut th = match prepare(cx, &op, 0) {
            Ok(t) => t,
            Err(f) => return r.fault(&key, &f, || desc("")),
        };
        // the contract check keeps the other control bits of the status register
        cx.contract.set(true);
        cx.taints.set(true);
        let e = run_solo(cx, &mut th, &mut m, 200);
        cx.contract.set(false);
        cx.taints.set(false);
        r.states += m.log.len() as u64 + 1;
        r.transitions += m.log.len() as u64;
        match e {
            Err(f) => r.fault(&key, &f, || desc("")),
            Ok(End::Panic(p)) => r.viol(key.clone(), desc(&format!("panic {p}"))),
            Ok(End::Done) => {
                let now = th.iflag;
                if now != !off as u8 {
                    r.viol(key.clone(), desc(&format!("interrupts are {} on return", if now == 0 { "disabled" } else { "enabled" })));
                }
                let res = finish(cx, &op, &th);
                let (nv, w) = spec(&op, held, op.k == K::Casw && !res.ok);
                if m.get(op.addr, op.size as u32) != nv || (op.has_result() && res.val != w.val) || res.ok != w.ok {
                    r.viol(key.clone(), desc(&format!("cell {:#x} (expected {nv:#x}), returned {} {:#x} (expected {} {:#x})", m.get(op.addr, op.size as u32), res.ok, res.val, w.ok, w.val)));
                }
            }
        }
        // the compiler must not move memory accesses across the instructions that change the interrupt state
        for &c in &th.chunks {
            let Some(i) = cx.infos.get(c as usize) else { continue };
            if cx.isa.switches_interrupts(&i.def.template) && (!i.def.sideeffect || !i.memory || i.readonly || i.readnone) {
                r.viol(cc.key(&format!("{}|barrier", op.fname())), desc(&format!("the asm block that switches interrupts does not keep memory accesses in place:\n{}", i.def.template)));
            }
        }
    }
}
