//! Shared helpers of the RISC-style models.
use crate::asm::*;

pub fn get(m: &AsmState, r: RegId, bits: u32) -> TV {
    m.get(r).mask(bits)
}
/// value zero-extended to the register width
pub fn set(m: &mut AsmState, r: RegId, bits: u32, v: TV) {
    m.set_raw(r, v.mask(bits));
}
pub fn mem(op: Mo, addr: TV, size: u32, flags: u32) -> FR<Step> {
    Ok(Step::Mem(MemReq { op, addr, size, flags }))
}
pub fn fence(k: u32) -> FR<Step> {
    mem(Mo::Fence(k), TV::k(0), 0, 0)
}
pub fn swap_of(v: TV) -> Mo {
    Mo::Rmw { k: Rk::Swap, val: v, cmp: TV::k(0), wb_on_fail: true }
}
pub fn cas_of(new: TV, cmp: TV) -> Mo {
    Mo::Rmw { k: Rk::Cas, val: new, cmp, wb_on_fail: true }
}
pub fn rmw_of(k: Rk, v: TV) -> Mo {
    Mo::Rmw { k, val: v, cmp: TV::k(0), wb_on_fail: true }
}
pub fn ub<T>(i: &Insn, why: &str) -> FR<T> {
    Err(Fault::Ub(format!("{}: {why}", i.text)))
}
pub fn unk<T>(i: &Insn) -> FR<T> {
    eng(format!("instruction '{}'", i.text))
}
/// (bits, signed?) -> extended value
pub fn ext(v: TV, from: u32, signed: bool) -> TV {
    let v = v.mask(from);
    if signed {
        v.map(|x| sext(x, from) as u128)
    } else {
        v
    }
}
pub fn concat(hi: TV, lo: TV, bits: u32) -> TV {
    hi.op(lo, |h, l| (h & mask(bits)) << bits | l & mask(bits))
}
pub fn reg(i: &Insn, k: usize) -> FR<(RegId, u32)> {
    match i.ops.get(k) {
        Some(Oper::Reg(r, _, w)) => Ok((*r, *w)),
        _ => unk(i),
    }
}
pub fn imm(i: &Insn, k: usize) -> FR<i128> {
    match i.ops.get(k) {
        Some(Oper::Imm(v)) => Ok(*v),
        _ => unk(i),
    }
}
pub fn label(i: &Insn, k: usize) -> FR<String> {
    match i.ops.get(k) {
        Some(Oper::Label(l)) => Ok(l.clone()),
        _ => unk(i),
    }
}
/// base + displacement (or base + index) address
pub fn ea(m: &AsmState, i: &Insn, k: usize, bits: u32) -> FR<TV> {
    match i.ops.get(k) {
        Some(Oper::Mem { base, index, scale, disp, .. }) => {
            let mut a = TV::k(*disp as u128);
            if let Some((b, w)) = base {
                a = a.op(get(m, *b, *w), |x, y| x.wrapping_add(y));
            }
            if let Some((b, w)) = index {
                let s = *scale as u128;
                a = a.op(get(m, *b, *w), |x, y| x.wrapping_add(y.wrapping_mul(s)));
            }
            Ok(a.mask(bits))
        }
        _ => unk(i),
    }
}
pub fn is_label(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.')
}
pub fn jump_if(m: &mut AsmState, i: &Insn, k: usize, c: TV) -> FR<Step> {
    m.ctrl |= c.t;
    Ok(if c.v != 0 { Step::Jump(label(i, k)?) } else { Step::Next })
}
