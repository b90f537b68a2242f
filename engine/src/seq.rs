//! Bounded-exhaustive exploration of single calls without interference (C02 C03 C05 C09 C12 C14, parts of C10/C11).
use crate::asm::*;
use crate::chash::Hasher;
use crate::config::{Built, Config, TypeInfo};
use crate::interp::*;
use crate::ops::*;
use crate::report::Report;
use std::collections::HashSet;
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub struct Cc<'a> {
    pub cx: &'a Ctx,
    pub built: &'a Built,
    pub cfg: &'a Config,
    pub hs: Hasher<'a>,
    pub thorough: bool,
    pub deadline: Instant,
    pub prop: &'static str,
}

impl<'a> Cc<'a> {
    /// True when no other configuration or type with identical code has been taken for this property and scope.
    pub fn fresh(&self, scope: &str, fname: &str) -> bool {
        static S: OnceLock<Mutex<HashSet<(String, u64)>>> = OnceLock::new();
        let Some(f) = self.cx.func(fname) else { return true };
        let l = &self.cx.l.layout;
        let key = format!("{}|{scope}|{}|{}|{}|{}", self.prop, self.cx.isa.name(), l.ptr_bits, l.big, fname.split('_').next().unwrap());
        let h = self.hs.func(f);
        S.get_or_init(Default::default).lock().unwrap().insert((key, h))
    }
    /// Same for a combination of functions that are explored together.
    pub fn fresh_all(&self, scope: &str, names: &[String]) -> bool {
        static S: OnceLock<Mutex<HashSet<(String, Vec<u64>)>>> = OnceLock::new();
        let l = &self.cx.l.layout;
        let key = format!("{}|{scope}|{}|{}|{}|{:?}", self.prop, self.cx.isa.name(), l.ptr_bits, l.big, names.iter().map(|n| n.split('_').next().unwrap()).collect::<Vec<_>>());
        let hs: Vec<u64> = names.iter().filter_map(|n| self.cx.func(n)).map(|f| self.hs.func(f)).collect();
        hs.len() != names.len() || S.get_or_init(Default::default).lock().unwrap().insert((key, hs))
    }
    /// asm blocks some calls execute
    pub fn blocks(&self, calls: &[(Op, u128)]) -> Vec<u32> {
        let cx = self.cx;
        cx.cov.borrow_mut().clear();
        for (op, held) in calls {
            for sc in [0, 1] {
                let mut m = SeqMem::new(cx, cx.seed.get() + 1);
                m.sc_fail = sc;
                m.put(op.addr, op.size as u32, *held);
                let _ = call(cx, op, &mut m);
            }
        }
        let mut ids: Vec<u32> = cx.cov.borrow().iter().copied().collect();
        ids.sort();
        ids
    }
    pub fn key(&self, rest: &str) -> String {
        format!("{}|{rest}", self.cfg.id)
    }
    pub fn late(&self, r: &mut Report) -> bool {
        if crate::par::past(self.deadline) {
            r.capped = true;
            return true;
        }
        false
    }
}

pub fn patterns(n: u32, more: bool) -> Vec<u128> {
    let bits = n * 8;
    let m = mask(bits);
    let mut v = vec![0, m, 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10 & m, 0x8182_8384_8586_8788_898a_8b8c_8d8e_8f90 & m, 0x1011_1213_1415_1617_1819_1a1b_1c1d_1e1f & m];
    // signalling NaN, denormal, infinity patterns
    v.extend([0x7ff0_0000_0000_0001, 0xfff0_0000_0000_0001, 0x7fa0_0000_7fa0_0000, 0x7ff4_0000_0000_0000, 0x7f80_0001_7f80_0001, 1, 0x8000_0000_0000_0000, 0x43e0_0000_0000_0001, 0x7ff0_0000_0000_0000].map(|x: u128| x & m));
    if n == 16 {
        v.extend([0x7ff0_0000_0000_0001u128 << 64 | 0xfff4_0000_0000_0000, u64::MAX as u128, (u64::MAX as u128) << 64]);
    }
    for i in 0..n {
        v.push(0xffu128 << (8 * i));
        v.push(m & !(0xffu128 << (8 * i)));
    }
    if more {
        for i in 0..bits {
            v.push(1u128 << i);
            v.push(m & !(1u128 << i));
        }
    }
    let mut o = vec![];
    for x in v {
        if !o.contains(&x) {
            o.push(x);
        }
    }
    o
}

/// Object positions: every aligned position inside a 16-byte block.
pub fn offsets(cx: &Ctx, n: u32) -> Vec<u64> {
    (0..16 / n as u64).map(|k| cx.b.shared + 64 + k * n as u64).collect()
}

fn describe(cc: &Cc, op: &Op, held: u128, m: &SeqMem, sc: u32) -> String {
    let mut s = format!("configuration {} (target {})\n{} on a cell holding {held:#x}, register garbage seed {}", cc.cfg.id, cc.cfg.target, op.show(cc.cx), cc.cx.seed.get());
    if sc != 0 {
        s.push_str(&format!(", store-conditional spurious failure mask {sc:#b}"));
    }
    for (aid, a) in cc.cx.choice.borrow().iter() {
        s.push_str(&format!("\n  register assignment:\n    {}", cc.cx.asm_text(*aid, *a).replace('\n', "\n    ")));
    }
    for a in &m.log {
        s.push_str(&format!("\n  access: {} {} bytes at +{}: old {:#x} new {:#x}{}", a.what, a.size, a.addr.wrapping_sub(m.base) as i64, a.old, a.new, if a.flags & PLAIN != 0 { " (plain)" } else { "" }));
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Value,
    Load,
    Uninit,
    Outside,
}

/// Runs one call and compares result and memory with the specification.
fn one(cc: &Cc, r: &mut Report, op: &Op, held: u128, sc: u32, focus: Focus) {
    let cx = cc.cx;
    let n = op.size as u32;
    let mut m = SeqMem::new(cx, cx.seed.get() + 1);
    m.sc_fail = sc;
    m.put(op.addr, n, held);
    let before = m.b.clone();
    r.evals += 1;
    let key = || cc.key(&format!("{}|{}|{}", op.fname(), ORD[op.o1 as usize], ORD[op.o2 as usize]));
    let (end, res) = match call(cx, op, &mut m) {
        Ok(x) => x,
        Err(f) => {
            let d = describe(cc, op, held, &m, sc);
            r.fault(&key(), &f, || d);
            return;
        }
    };
    r.transitions += m.log.len() as u64 + 2;
    r.states += m.log.len() as u64 + 1;
    if let End::Panic(p) = end {
        r.viol(key(), format!("unexpected panic ({p})\n{}", describe(cc, op, held, &m, sc)));
        return;
    }
    let bits = op.bits();
    let mk_ = mask(bits);
    let (nv0, sp) = spec(op, held, false);
    let (want_new, want) = match op.k {
        K::Cas | K::Casw if op.au | op.cu != 0 => {
            // comparison with uninitialized bytes may go either way; the report must be truthful
            if res.ok {
                if (held ^ op.c) & !op.cu & mk_ != 0 {
                    r.viol(key(), format!("Ok although an initialized byte of `current` differs\n{}", describe(cc, op, held, &m, sc)));
                    return;
                }
                (op.a, Res { ok: true, val: held, ..Default::default() })
            } else {
                if op.cu == 0 && held == op.c && op.k == K::Cas {
                    r.viol(key(), format!("Err although `current` is fully initialized and equal\n{}", describe(cc, op, held, &m, sc)));
                    return;
                }
                (held, Res { ok: false, val: held, ..Default::default() })
            }
        }
        K::Casw if !res.ok && held == op.c => (held, Res { ok: false, val: held, ..Default::default() }),
        _ => (nv0, sp),
    };
    let got = m.get(op.addr, n);
    let wmask = if matches!(op.k, K::Store | K::Swap) || (matches!(op.k, K::Cas | K::Casw) && res.ok) { mk_ & !op.au } else { mk_ };
    let bad = if (got ^ want_new) & wmask != 0 {
        Some(format!("the cell holds {got:#x} afterwards, expected {want_new:#x} (bits {wmask:#x})"))
    } else if op.has_result() && res.undef != 0 {
        Some(format!("result has uninitialized bits {:#x} although the cell was initialized", res.undef))
    } else if op.has_result() && res.val != want.val {
        Some(format!("returned {:#x}, expected {:#x}", res.val, want.val))
    } else if res.ok != want.ok {
        Some(format!("returned {}, expected {}", if res.ok { "Ok" } else { "Err" }, if want.ok { "Ok" } else { "Err" }))
    } else {
        None
    };
    let outside = {
        let o = (op.addr - m.base) as usize;
        (0..m.b.len()).find(|&i| (i < o || i >= o + n as usize) && m.b[i] != before[i])
    };
    match focus {
        Focus::Outside => {
            if let Some(i) = outside {
                r.viol(key(), format!("byte at +{i} outside the object changed from {:#x} to {:#x}\n{}", before[i], m.b[i], describe(cc, op, held, &m, sc)));
            }
        }
        Focus::Load => {
            for a in &m.log {
                let w = matches!(a.what, "store" | "rmw" | "sc" | "sc-failed");
                let over = a.addr < op.addr + n as u64 && a.addr + a.size as u64 > op.addr;
                if w && bits <= cx.l.layout.ptr_bits {
                    r.viol(key(), format!("load of a type not wider than a pointer performs a write access\n{}", describe(cc, op, held, &m, sc)));
                    return;
                }
                if w && (a.what == "store" || !over || a.new != a.old) {
                    r.viol(key(), format!("load writes memory other than by atomically rewriting the value\n{}", describe(cc, op, held, &m, sc)));
                    return;
                }
            }
            if got != held || outside.is_some() {
                r.viol(key(), format!("load modified memory\n{}", describe(cc, op, held, &m, sc)));
            }
        }
        _ => {
            if let Some(b) = bad {
                r.viol(key(), format!("{b}\n{}", describe(cc, op, held, &m, sc)));
                return;
            }
            if matches!(op.k, K::Fus | K::Fu) {
                let ok = if res.ok { res.lastarg == held && res.lastret == want_new } else { res.lastarg == held };
                if !ok || res.calls == 0 {
                    r.viol(key(), format!("fetch_update: f was called {} times, last with {:#x}, last result {:#x}\n{}", res.calls, res.lastarg, res.lastret, describe(cc, op, held, &m, sc)));
                }
            }
        }
    }
    r.sample(|| format!("{} holding {held:#x} -> {:?}", op.show(cx), res));
}

pub fn base_pat(n: u32) -> [u128; 3] {
    let m = mask(n * 8);
    [0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10 & m, 0x8192_a3b4_c5d6_e7f8_8091_a2b3_c4d5_e6f7 & m, 0x3c5a_c396_1e78_87e1_2d4b_d2b4_5aa5_690f & m]
}

fn llsc_masks(cc: &Cc, op: &Op) -> Vec<u32> {
    // does this call use store-conditional at all?
    let mut m = SeqMem::new(cc.cx, 1);
    m.put(op.addr, op.size as u32, op.c);
    let _ = call(cc.cx, op, &mut m);
    if m.log.iter().any(|a| a.what.starts_with("sc")) {
        vec![0, 1, 2, 3, 7]
    } else {
        vec![0]
    }
}

/// Repeats a few calls with other register assignments of the asm blocks they execute (C13 enumerates all of them).
fn assignments(cc: &Cc, r: &mut Report, op0: &Op, focus: Focus) {
    static SEEN: OnceLock<Mutex<HashSet<String>>> = OnceLock::new();
    let cx = cc.cx;
    let n = op0.size as u32;
    let b = base_pat(n);
    let cas = matches!(op0.k, K::Cas | K::Casw | K::Fus);
    for (o1, o2) in ords(op0.k) {
        if cc.late(r) {
            return;
        }
        let op1 = op0.ord(o1, o2);
        let scen: Vec<(Op, u128)> = if cas {
            vec![(op1.val(b[1]).cur(b[0]), b[0]), (op1.val(b[1]).cur(b[0]), b[2]), (op1.val(b[1]).cur(b[0]), b[0] ^ 1u128 << (n * 8 - 1)), (op1.val(b[0]).cur(b[0]), b[0])]
        } else {
            vec![(op1.val(b[1]).cur(b[0]), b[0]), (op1.val(b[0]).cur(b[2]), b[2])]
        };
        let ids = cc.blocks(&scen);
        for aid in ids {
            let d = &cx.infos[aid as usize].def;
            let sig = format!("{}|{}|{}|{:?}|{}|{}|{}|{:?}|{:?}|{}", cc.prop, cx.isa.name(), cx.l.layout.ptr_bits, op0.k, n, d.template, d.constraints, d.ret, d.args, cx.l.layout.big);
            if !SEEN.get_or_init(Default::default).lock().unwrap().insert(sig) {
                continue;
            }
            let reps = cx.representatives(aid);
            let offs = offsets(cx, n);
            for a in reps {
                cx.choice.borrow_mut().insert(aid, a);
                r.add("register_assignments", 1);
                for s in 0..2u64 {
                    cx.seed.set(s * 3);
                    for (op, held) in &scen {
                        let op = op.at(offs[(s as usize + 1) % offs.len()]);
                        one(cc, r, &op, *held, 0, focus);
                        one(cc, r, &op, *held, 1, focus);
                    }
                }
            }
            cx.choice.borrow_mut().clear();
        }
    }
}

/// C02 (load/store/swap values) and C04's sequential part.
pub fn values(cc: &Cc, r: &mut Report, t: &TypeInfo, outside: bool) {
    let cx = cc.cx;
    let n = t.size as u32;
    let focus = if outside { Focus::Outside } else { Focus::Value };
    let offs = offsets(cx, n);
    let pats = patterns(n, true);
    let b3 = base_pat(n);
    for k in kinds(t) {
        let kk = match k {
            K::Load | K::Store | K::Swap => k,
            _ if outside => k,
            _ => continue,
        };
        let op0 = Op::new(kk, t, offs[0]);
        if !cc.fresh(if outside { "out" } else { "val" }, &op0.fname()) {
            continue;
        }
        r.nontrivial += 1;
        assignments(cc, r, &op0, focus);
        for (o1, o2) in ords(kk) {
            if cc.late(r) {
                return;
            }
            for (i, &p) in pats.iter().enumerate() {
                if outside && i > 8 {
                    break;
                }
                cx.seed.set(i as u64 % 4);
                let held = if kk == K::Load { p } else { !p & mask(n * 8) };
                let op = op0.ord(o1, o2).val(p).cur(held).at(offs[i % offs.len()]);
                for sc in if i < 2 { llsc_masks(cc, &op) } else { vec![0] } {
                    one(cc, r, &op, held, sc, focus);
                }
                if kk == K::Swap || kk == K::Store {
                    // old value equal to and different from the new one
                    one(cc, r, &op, p, 0, focus);
                }
            }
            for &a in &offs {
                for s in 0..if cc.thorough { 12 } else { 4 } {
                    cx.seed.set(s);
                    for (x, y) in [(b3[0], b3[1]), (b3[1], b3[2])] {
                        let op = op0.ord(o1, o2).val(x).cur(y).at(a);
                        one(cc, r, &op, y, 0, focus);
                        if matches!(kk, K::Cas | K::Casw | K::Fus) {
                            one(cc, r, &op, b3[2] ^ x, 0, focus);
                        }
                    }
                }
            }
        }
    }
}

/// C03
pub fn compare(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    if !t.cas {
        return;
    }
    let cx = cc.cx;
    let n = t.size as u32;
    let offs = offsets(cx, n);
    let m = mask(n * 8);
    for k in [K::Cas, K::Casw] {
        let op0 = Op::new(k, t, offs[0]);
        if !cc.fresh("cmp", &op0.fname()) {
            continue;
        }
        r.nontrivial += 1;
        assignments(cc, r, &op0, Focus::Value);
        for (o1, o2) in ords(k) {
            if cc.late(r) {
                return;
            }
            let op1 = op0.ord(o1, o2);
            let mut i = 0u64;
            let mut go = |r: &mut Report, held: u128, cur: u128, new: u128| {
                cx.seed.set(i % 4);
                let op = op1.val(new).cur(cur).at(offs[i as usize % offs.len()]);
                i += 1;
                one(cc, r, &op, held & m, 0, Focus::Value);
            };
            for p in patterns(n, true) {
                go(r, p, p, !p);
                go(r, p, p, p);
                go(r, p, !p, p);
            }
            for b in base_pat(n) {
                for bit in 0..n * 8 {
                    go(r, b ^ (1 << bit), b, b3_other(b, m));
                    go(r, b, b ^ (1 << bit), b);
                }
            }
            // every offset, every seed, spurious store-conditional failures
            for &a in &offs {
                for s in 0..if cc.thorough { 12 } else { 4 } {
                    cx.seed.set(s);
                    let b = base_pat(n);
                    let op = op1.val(b[1]).cur(b[0]).at(a);
                    for sc in llsc_masks(cc, &op) {
                        one(cc, r, &op, b[0], sc, Focus::Value);
                        one(cc, r, &op, b[2], sc, Focus::Value);
                        // equal in some bytes only
                        one(cc, r, &op, b[0] ^ (1u128 << (n * 8 - 1)), sc, Focus::Value);
                    }
                }
            }
        }
    }
}
fn b3_other(b: u128, m: u128) -> u128 {
    b.rotate_left(4) & m ^ (m & 0x55)
}

/// C05
pub fn loads(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    if !t.load {
        return;
    }
    let cx = cc.cx;
    let n = t.size as u32;
    let offs = offsets(cx, n);
    let op0 = Op::new(K::Load, t, offs[0]);
    if !cc.fresh("load", &op0.fname()) {
        return;
    }
    r.nontrivial += 1;
    assignments(cc, r, &op0, Focus::Load);
    for (o1, _) in ords(K::Load) {
        for (i, p) in patterns(n, false).into_iter().enumerate() {
            for &a in &offs {
                cx.seed.set(i as u64 % 4);
                let op = op0.ord(o1, 0).at(a);
                for sc in llsc_masks(cc, &op) {
                    one(cc, r, &op, p, sc, Focus::Load);
                }
            }
        }
    }
}

/// C09
pub fn orderings(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    let cx = cc.cx;
    let n = t.size as u32;
    let b = base_pat(n);
    let mut ks = kinds(t);
    if t.cas {
        ks.push(K::Fu);
    }
    for k in ks {
        let op0 = Op::new(k, t, cx.b.shared + 64).val(b[1]).cur(b[0]);
        if !cc.fresh("ord", &op0.fname()) {
            continue;
        }
        r.nontrivial += 1;
        let two = matches!(k, K::Cas | K::Casw | K::Fu | K::Fus);
        for o1 in 0..5u8 {
            for o2 in 0..if two { 5u8 } else { 1 } {
                let invalid = match k {
                    K::Load => o1 == 2 || o1 == 3,
                    K::Store => o1 == 1 || o1 == 3,
                    K::Swap => false,
                    _ => o2 == 2 || o2 == 3,
                };
                for (held, none_at) in [(b[0], 255u8), (b[2], 255), (b[2], 0)] {
                    let mut op = op0.ord(o1, o2);
                    op.none_at = none_at;
                    if none_at == 0 && k != K::Fu {
                        continue;
                    }
                    let mut m = SeqMem::new(cx, 1);
                    m.put(op.addr, n, held);
                    let before = m.b.clone();
                    r.evals += 1;
                    let key = cc.key(&format!("{}|{}|{}", op.fname(), ORD[o1 as usize], ORD[o2 as usize]));
                    let mut th = match prepare(cx, &op, 0) {
                        Ok(t) => t,
                        Err(f) => {
                            r.fault(&key, &f, String::new);
                            continue;
                        }
                    };
                    let e = run_solo(cx, &mut th, &mut m, 200);
                    r.transitions += m.log.len() as u64 + 1;
                    r.states += m.log.len() as u64 + 2;
                    match e {
                        Err(f) => r.fault(&key, &f, || describe(cc, &op, held, &m, 0)),
                        Ok(End::Done) if invalid => r.viol(key, format!("a documented-invalid ordering is accepted\n{}", describe(cc, &op, held, &m, 0))),
                        Ok(End::Panic(p)) if !invalid => r.viol(key, format!("a valid ordering panics ({p})\n{}", describe(cc, &op, held, &m, 0))),
                        Ok(End::Panic(p)) => {
                            if p == "trap" {
                                r.viol(key, format!("invalid ordering traps instead of panicking\n{}", describe(cc, &op, held, &m, 0)));
                            } else if m.b != before || m.log.iter().any(|a| a.write) {
                                r.viol(key, format!("memory was modified before the panic\n{}", describe(cc, &op, held, &m, 0)));
                            } else if matches!(k, K::Fu | K::Fus) && calls_made(cx, &op, &th) != 0 {
                                r.viol(key, format!("f was called before the panic\n{}", describe(cc, &op, held, &m, 0)));
                            }
                        }
                        Ok(End::Done) => {
                            // accepted: and the operation took effect exactly as specified
                            let res = finish(cx, &op, &th);
                            let weak_fail = k == K::Casw && !res.ok;
                            let (nv, w) = spec(&op, held, weak_fail);
                            if m.get(op.addr, n) != nv || res.ok != w.ok || (op.has_result() && res.val != w.val) {
                                r.viol(key, format!("accepted ordering, wrong outcome: cell {:#x} (expected {nv:#x}), result {res:x?}\n{}", m.get(op.addr, n), describe(cc, &op, held, &m, 0)));
                            }
                        }
                    }
                    r.sample(|| format!("{} invalid={invalid}", op.show(cx)));
                }
            }
        }
    }
}
fn calls_made(cx: &Ctx, op: &Op, th: &Thread) -> u8 {
    finish(cx, op, th).calls
}

/// C12
pub fn uninit(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    let cx = cc.cx;
    let n = t.size as u32;
    let offs = offsets(cx, n);
    let m = mask(n * 8);
    let expand = |s: u32| -> u128 {
        let mut x = 0u128;
        for i in 0..n {
            if s >> i & 1 == 1 {
                x |= 0xff << (8 * i);
            }
        }
        x
    };
    let subsets: Vec<u128> = if n <= 4 || (n == 8 && cc.thorough) {
        (0..1u32 << n).map(expand).collect()
    } else {
        let mut v: Vec<u32> = vec![0, (1u32 << n) - 1];
        for i in 0..n {
            v.push(1 << i);
            v.push(((1u32 << n) - 1) & !(1 << i));
            v.push((1 << i) - 1);
            v.push(((1u32 << n) - 1) & !((1 << i) - 1));
        }
        for w in [2u32, 4, 8] {
            let mut x = 0;
            for i in 0..n {
                if i / w % 2 == 0 {
                    x |= 1 << i;
                }
            }
            v.push(x);
            v.push(!x & ((1u32 << n) - 1));
        }
        v.sort();
        v.dedup();
        v.into_iter().map(expand).collect()
    };
    let b = base_pat(n);
    for k in kinds(t) {
        if k == K::Fus {
            continue;
        }
        let op0 = Op::new(k, t, offs[0]);
        if !cc.fresh("uninit", &op0.fname()) {
            continue;
        }
        r.nontrivial += 1;
        for (o1, o2) in ords(k) {
            if cc.late(r) {
                return;
            }
            for (i, &u) in subsets.iter().enumerate() {
                for s in 0..4u64 {
                    cx.seed.set(s);
                    let a = offs[(i + s as usize) % offs.len()];
                    let op = op0.ord(o1, o2).at(a).val(b[1]);
                    match k {
                        K::Load => one(cc, r, &op, b[0], 0, Focus::Uninit),
                        K::Store | K::Swap => one(cc, r, &Op { au: u, ..op }, b[0], 0, Focus::Uninit),
                        _ => {
                            // held bytes under the mask stand for uninitialized memory contents
                            let held_junk = (b[0] & !u) | (junk(77, 128, s) & u & m);
                            one(cc, r, &Op { au: u, ..op }.cur(b[0]), b[0], 0, Focus::Uninit);
                            one(cc, r, &Op { au: u, ..op }.cur(b[2]), b[0], 0, Focus::Uninit);
                            one(cc, r, &Op { cu: u, ..op }.cur(b[0]), b[0], 0, Focus::Uninit);
                            one(cc, r, &Op { cu: u, ..op }.cur(b[0]), held_junk, 0, Focus::Uninit);
                            one(cc, r, &Op { cu: u, au: u, ..op }.cur(b[0]), held_junk, 0, Focus::Uninit);
                            one(cc, r, &Op { cu: u, au: m & !u, ..op }.cur(b[2]), held_junk, 0, Focus::Uninit);
                        }
                    }
                }
            }
        }
    }
}

/// C14: the object lives in private memory, every access path must see the same bytes.
pub fn conversions(cc: &Cc, r: &mut Report, t: &TypeInfo) {
    let cx = cc.cx;
    let n = t.size as u64;
    let big = cx.l.layout.big;
    if t.amu_size as u64 != n || t.amu_align as u64 != n {
        r.viol(cc.key(&format!("layout|{}", t.name)), format!("configuration {}: AtomicMaybeUninit<{}> has size {} and alignment {}, expected {n} and {n}", cc.cfg.id, t.name, t.amu_size, t.amu_align));
    }
    r.evals += 1;
    let writers = ["new", "constnew", "frommu", "fromval", "getmutset", "asptrset", "fromptrset", "store"];
    let readers = ["intoinner", "getmutget", "asptrget", "fromptrget", "load"];
    let fname = |w: &str| format!("{w}_{}", t.name);
    let all: Vec<&str> = writers.iter().chain(readers.iter()).copied().collect();
    let mut any = false;
    for w in &all {
        any |= cx.func(&fname(w)).is_some() && cc.fresh("conv", &fname(w));
    }
    if !any {
        return;
    }
    r.nontrivial += 1;
    let b = base_pat(n as u32);
    let m = mask(n as u32 * 8);
    let masks: Vec<u128> = {
        let mut v = vec![0, m];
        for i in 0..n {
            v.push(0xff << (8 * i));
        }
        v
    };
    let run1 = |name: &str, th: &mut Thread, args: Vec<V>| -> FR<()> {
        let f = cx.func(&fname(name)).ok_or_else(|| Fault::Engine(format!("{name} missing")))?;
        let keep = (th.pm.clone(), th.pu.clone(), th.pa.clone());
        let _ = keep;
        th.start(cx, f, args);
        let mut mem = SeqMem::new(cx, 1);
        match run_solo(cx, th, &mut mem, 100)? {
            End::Done => Ok(()),
            End::Panic(p) => Err(Fault::Ub(format!("panic {p}"))),
        }
    };
    let p = |x: u64| V::I(x as u128, 0);
    for w in writers {
        if cx.func(&fname(w)).is_none() {
            continue;
        }
        for rd in readers {
            if cx.func(&fname(rd)).is_none() {
                continue;
            }
            for (i, &u) in masks.iter().enumerate() {
                if w == "fromval" && u != 0 {
                    continue;
                }
                for x in [b[0], b[1], m, 0] {
                    cx.seed.set(i as u64 % 4);
                    r.evals += 1;
                    r.states += 2;
                    r.transitions += 2;
                    let mut th = Thread::new(0);
                    let guard0 = th.alloc(1, 1, cx);
                    let obj = th.alloc(n, n, cx);
                    let val = th.alloc(n, n, cx);
                    let out = th.alloc(n, n, cx);
                    let _ = guard0;
                    let nb = n as usize;
                    th.poke(cx, obj, &to_bytes(big, b[2], nb), &vec![0; nb]);
                    th.poke(cx, val, &to_bytes(big, x, nb), &to_bytes(big, u, nb));
                    let key = cc.key(&format!("{w}->{rd}|{}", t.name));
                    let desc = || format!("configuration {}: bytes {x:#x} (uninitialized bits {u:#x}) put in by `{w}`, taken out by `{rd}`, AtomicMaybeUninit<{}>", cc.cfg.id, t.name);
                    let wargs = if w == "store" { vec![p(obj), V::I(0, 0), p(val)] } else { vec![p(obj), p(val)] };
                    if let Err(f) = run1(w, &mut th, wargs) {
                        r.fault(&key, &f, desc);
                        continue;
                    }
                    let rargs = if rd == "load" { vec![p(obj), V::I(0, 0), p(out)] } else { vec![p(obj), p(out)] };
                    if let Err(f) = run1(rd, &mut th, rargs) {
                        r.fault(&key, &f, desc);
                        continue;
                    }
                    let (ob, ou) = th.peek(cx, out, nb);
                    let (gv, gu) = (from_bytes(big, &ob), from_bytes(big, &ou));
                    let (vb, vu) = th.peek(cx, val, nb);
                    if (gv ^ x) & !u & m != 0 || gu & !u & m != 0 {
                        r.viol(key, format!("{}\nread back {gv:#x} with uninitialized bits {gu:#x}", desc()));
                    } else if from_bytes(big, &vb) & !u != x & !u || from_bytes(big, &vu) != u {
                        r.viol(key, format!("{}\nthe source value was modified", desc()));
                    }
                    r.sample(desc);
                }
            }
        }
    }
    // formatting never looks at the value
    if let Some(f) = cx.func(&fname("debugfmt")) {
        for alt in 0..16u64 {
            let addr = cx.b.shared + 64;
            let mut th = Thread::new(0);
            let buf = th.alloc(64, 8, cx);
            th.start(cx, f, vec![p(addr), V::I(alt as u128, 0), p(buf), p(64)]);
            let mut mem = SeqMem::new(cx, 1);
            mem.put(addr, n as u32, b[0]);
            r.evals += 1;
            let key = cc.key(&format!("debugfmt|{}", t.name));
            let desc = || format!("configuration {}: Debug formatting of AtomicMaybeUninit<{}>, formatter flags {alt:#b} (1 alternate, 2 width, 4 plus sign, 8 hex)", cc.cfg.id, t.name);
            let e = run_solo(cx, &mut th, &mut mem, 1000);
            if mem.log.iter().any(|a| a.addr < addr + n && addr < a.addr + a.size as u64) {
                r.viol(key, format!("{}\nthe value is accessed: {} of {} bytes", desc(), mem.log[0].what, mem.log[0].size));
            } else if let Err(f) = e {
                r.fault(&key, &f, desc);
            }
        }
    }
    // read-modify-write operations on an object reached through the conversions
    if t.swap && cx.func(&fname("swap")).is_some() {
        for rd in readers {
            if cx.func(&fname(rd)).is_none() {
                continue;
            }
            let mut th = Thread::new(0);
            let obj = th.alloc(n, n, cx);
            let val = th.alloc(n, n, cx);
            let out = th.alloc(n, n, cx);
            let out2 = th.alloc(n, n, cx);
            let nb = n as usize;
            th.poke(cx, obj, &to_bytes(big, b[2], nb), &vec![0; nb]);
            th.poke(cx, val, &to_bytes(big, b[1], nb), &vec![0; nb]);
            let key = cc.key(&format!("swap->{rd}|{}", t.name));
            r.evals += 1;
            let a = run1("swap", &mut th, vec![p(obj), V::I(4, 0), p(val), p(out)]).and_then(|_| {
                let rargs = if rd == "load" { vec![p(obj), V::I(0, 0), p(out2)] } else { vec![p(obj), p(out2)] };
                run1(rd, &mut th, rargs)
            });
            match a {
                Err(f) => r.fault(&key, &f, || format!("configuration {}", cc.cfg.id)),
                Ok(()) => {
                    let g = from_bytes(big, &th.peek(cx, out2, nb).0);
                    let o = from_bytes(big, &th.peek(cx, out, nb).0);
                    if g != b[1] || o != b[2] {
                        r.viol(key, format!("configuration {}: swap then {rd}: previous {o:#x} now {g:#x}", cc.cfg.id));
                    }
                }
            }
        }
    }
}
