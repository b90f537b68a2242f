//! RISC-V (RV32 and RV64, I M A Zaamo Zabha Zacas).
use super::util::*;
use crate::asm::*;

pub struct Rv {
    pub w: u32,
    pub e: bool,
}

const ABI: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6",
];

fn regn(n: &str) -> Option<RegId> {
    if let Some(k) = n.strip_prefix('x').and_then(|k| k.parse::<RegId>().ok()) {
        return (k < 32).then_some(k);
    }
    if n == "fp" {
        return Some(8);
    }
    ABI.iter().position(|x| *x == n).map(|k| k as RegId)
}

impl Rv {
    fn rd(&self, m: &AsmState, r: RegId) -> TV {
        if r == 0 { TV::k(0) } else { get(m, r, self.w) }
    }
    fn wr(&self, m: &mut AsmState, r: RegId, v: TV) {
        if r != 0 {
            set(m, r, self.w, v)
        }
    }
    fn src(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(v)) => Ok(TV::k(*v as u128 & mask(self.w))),
            Some(Oper::Reg(r, ..)) => Ok(self.rd(m, *r)),
            _ => unk(i),
        }
    }
}

fn annot(s: &str) -> Option<u32> {
    Some(match s {
        "" => 0,
        "aq" => ACQ,
        "rl" => REL,
        "aqrl" => ACQ | REL,
        _ => return None,
    })
}

impl Isa for Rv {
    fn name(&self) -> &'static str {
        if self.w == 64 { "riscv64" } else { "riscv32" }
    }
    fn mm(&self) -> Mm {
        Mm::RiscV
    }
    fn addr_bits(&self) -> u32 {
        self.w
    }
    fn reg_bits(&self, _r: RegId) -> u32 {
        self.w
    }
    fn reg_name(&self, r: RegId) -> String {
        ABI[r as usize].into()
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        let n = if self.e { 16 } else { 32 };
        (c == "r").then(|| ClassInfo { regs: (1..n).filter(|r| ![2, 3, 4].contains(r)).collect(), bits: self.w })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some(r) = regn(n) {
            return Some(if r == 0 { vec![] } else { vec![r] });
        }
        match n {
            "vtype" | "vl" | "vxsat" | "vxrm" | "fflags" | "frm" => Some(vec![]),
            _ if n.starts_with('f') || n.starts_with('v') => Some(vec![]),
            _ => None,
        }
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(ABI[r as usize].to_string()),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with('#')
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split('#').next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if let Some(p) = t.find('(').filter(|_| t.ends_with(')')) {
                let disp = if p == 0 { 0 } else { parse_imm(&t[..p]).ok_or("displacement")? };
                let b = regn(t[p + 1..t.len() - 1].trim()).ok_or("base register")?;
                ops.push(Oper::Mem { base: Some((b, self.w)), index: None, scale: 1, disp, size: 0, extra: 0 });
            } else if let Some(r) = regn(t) {
                ops.push(Oper::Reg(r, 0, self.w));
            } else if mn == "fence" {
                ops.push(Oper::Word(t.to_string()));
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                ops.push(Oper::Word(t.to_string()));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![]
    }
    fn sp(&self) -> Option<RegId> {
        Some(2)
    }
    fn all_regs(&self) -> Vec<RegId> {
        (1..if self.e { 16 } else { 32 }).collect()
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let w = self.w;
        let mn = i.mn.as_str();
        let se = |v: TV| v.map(|x| sext(x, w) as u128);
        // branches
        let cmpb = |f: fn(i128, i128, u128, u128) -> bool, m: &mut AsmState, a: TV, b: TV, k: usize| -> FR<Step> { jump_if(m, i, k, TV { v: f(sext(a.v, w), sext(b.v, w), a.v, b.v) as u128, t: a.t | b.t }) };
        match mn {
            "j" => return Ok(Step::Jump(label(i, 0)?)),
            "beq" | "bne" | "blt" | "bge" | "bltu" | "bgeu" | "bgt" | "ble" | "bgtu" | "bleu" => {
                let (a, b) = (self.src(m, i, 0)?, self.src(m, i, 1)?);
                return match mn {
                    "beq" => cmpb(|a, b, _, _| a == b, m, a, b, 2),
                    "bne" => cmpb(|a, b, _, _| a != b, m, a, b, 2),
                    "blt" => cmpb(|a, b, _, _| a < b, m, a, b, 2),
                    "bge" => cmpb(|a, b, _, _| a >= b, m, a, b, 2),
                    "bgt" => cmpb(|a, b, _, _| a > b, m, a, b, 2),
                    "ble" => cmpb(|a, b, _, _| a <= b, m, a, b, 2),
                    "bltu" => cmpb(|_, _, a, b| a < b, m, a, b, 2),
                    "bgeu" => cmpb(|_, _, a, b| a >= b, m, a, b, 2),
                    "bgtu" => cmpb(|_, _, a, b| a > b, m, a, b, 2),
                    _ => cmpb(|_, _, a, b| a <= b, m, a, b, 2),
                };
            }
            "beqz" | "bnez" | "bltz" | "bgez" => {
                let a = self.src(m, i, 0)?;
                let f: fn(i128, i128, u128, u128) -> bool = match mn {
                    "beqz" => |a, _, _, _| a == 0,
                    "bnez" => |a, _, _, _| a != 0,
                    "bltz" => |a, _, _, _| a < 0,
                    _ => |a, _, _, _| a >= 0,
                };
                return cmpb(f, m, a, TV::k(0), 1);
            }
            "nop" => return Ok(Step::Next),
            "fence" | "fence.tso" | "fence.i" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                if mn == "fence.tso" {
                    // loads before everything, stores before stores: expressed as one fence of the stronger kind would
                    // over-order, so it is not accepted
                    return unk(i);
                }
                if mn == "fence.i" {
                    return Ok(Step::Next);
                }
                let set = |k: usize, r: u32, w: u32| -> FR<u32> {
                    match i.ops.get(k) {
                        None if i.ops.is_empty() => Ok(r | w),
                        Some(Oper::Word(s)) if s.chars().all(|c| "iorw".contains(c)) => Ok(if s.contains('r') { r } else { 0 } | if s.contains('w') { w } else { 0 }),
                        _ => unk(i),
                    }
                };
                return fence(set(0, F_PR, F_PW)? | set(1, F_SR, F_SW)?);
            }
            "li" => {
                let d = reg(i, 0)?.0;
                let v = imm(i, 1)?;
                self.wr(m, d, TV::k(v as u128 & mask(w)));
                return Ok(Step::Next);
            }
            "mv" | "not" | "neg" | "seqz" | "snez" | "sltz" | "sgtz" | "sext.w" | "zext.b" | "negw" | "zext.w" | "sext.b" | "sext.h" | "zext.h" => {
                let d = reg(i, 0)?.0;
                let a = self.rd(m, reg(i, 1)?.0);
                let v = match mn {
                    "mv" => a,
                    "not" => a.map(|x| !x),
                    "neg" => a.map(|x| x.wrapping_neg()),
                    "negw" => ext(a.map(|x| x.wrapping_neg()), 32, true),
                    "seqz" => a.map(|x| (x == 0) as u128),
                    "snez" => a.map(|x| (x != 0) as u128),
                    "sltz" => se(a).map(|x| ((x as i128) < 0) as u128),
                    "sgtz" => se(a).map(|x| ((x as i128) > 0) as u128),
                    "sext.w" => ext(a, 32, true),
                    "sext.b" => ext(a, 8, true),
                    "sext.h" => ext(a, 16, true),
                    "zext.b" => ext(a, 8, false),
                    "zext.h" => ext(a, 16, false),
                    _ => ext(a, 32, false),
                };
                self.wr(m, d, v.mask(w));
                return Ok(Step::Next);
            }
            _ => {}
        }
        // loads and stores
        let ld = |s: &str| -> Option<(u32, bool)> {
            Some(match s {
                "lb" => (1, true),
                "lbu" => (1, false),
                "lh" => (2, true),
                "lhu" => (2, false),
                "lw" => (4, true),
                "lwu" if w == 64 => (4, false),
                "ld" if w == 64 => (8, true),
                _ => return None,
            })
        };
        if let Some((n, sg)) = ld(mn) {
            if c.phase == 0 {
                return mem(Mo::Load, ea(m, i, 1, w)?, n, 0);
            }
            self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, sg).mask(w));
            return Ok(Step::Next);
        }
        let st = match mn {
            "sb" => 1,
            "sh" => 2,
            "sw" => 4,
            "sd" if w == 64 => 8,
            _ => 0,
        };
        if st > 0 {
            if c.phase == 0 {
                return mem(Mo::Store(self.rd(m, reg(i, 0)?.0).mask(st * 8)), ea(m, i, 1, w)?, st, 0);
            }
            return Ok(Step::Next);
        }
        let parts: Vec<&str> = mn.split('.').collect();
        if parts.len() >= 2 {
            let n = match parts[1] {
                "b" => 1,
                "h" => 2,
                "w" => 4,
                "d" if w == 64 => 8,
                _ => 0,
            };
            let fl = annot(parts.get(2).unwrap_or(&""));
            if let (true, Some(fl), true) = (n > 0, fl, parts.len() <= 3) {
                match parts[0] {
                    "lr" if n >= 4 => {
                        if c.phase == 0 {
                            return mem(Mo::Ll, ea(m, i, 1, w)?, n, fl);
                        }
                        self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, true).mask(w));
                        return Ok(Step::Next);
                    }
                    "sc" if n >= 4 => {
                        if c.phase == 0 {
                            return mem(Mo::Sc(self.rd(m, reg(i, 1)?.0).mask(n * 8)), ea(m, i, 2, w)?, n, fl);
                        }
                        self.wr(m, reg(i, 0)?.0, c.resp.unwrap().map(|x| x ^ 1));
                        return Ok(Step::Next);
                    }
                    "amocas" => {
                        if c.phase == 0 {
                            let (d, s) = (reg(i, 0)?.0, reg(i, 1)?.0);
                            return mem(cas_of(self.rd(m, s).mask(n * 8), self.rd(m, d).mask(n * 8)), ea(m, i, 2, w)?, n, fl);
                        }
                        self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, true).mask(w));
                        return Ok(Step::Next);
                    }
                    p if p.starts_with("amo") => {
                        let k = match &p[3..] {
                            "swap" => Rk::Swap,
                            "add" => Rk::Add,
                            "and" => Rk::And,
                            "or" => Rk::Or,
                            "xor" => Rk::Xor,
                            "max" => Rk::Max,
                            "min" => Rk::Min,
                            "maxu" => Rk::Umax,
                            "minu" => Rk::Umin,
                            _ => return unk(i),
                        };
                        if c.phase == 0 {
                            return mem(rmw_of(k, self.rd(m, reg(i, 1)?.0).mask(n * 8)), ea(m, i, 2, w)?, n, fl);
                        }
                        self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, true).mask(w));
                        return Ok(Step::Next);
                    }
                    _ => {}
                }
            }
        }
        // arithmetic
        if i.ops.len() == 3 {
            let d = reg(i, 0)?.0;
            let (a, b) = (self.rd(m, reg(i, 1)?.0), self.src(m, i, 2)?);
            let is_imm = matches!(i.ops[2], Oper::Imm(_));
            let base = mn.strip_suffix('w').filter(|x| matches!(*x, "add" | "addi" | "sub" | "sll" | "slli" | "srl" | "srli" | "sra" | "srai") && w == 64);
            let word = base.is_some();
            let mut op = base.unwrap_or(mn);
            if let Some(x) = op.strip_suffix('i').filter(|x| matches!(*x, "add" | "and" | "or" | "xor" | "sll" | "srl" | "sra" | "slt")) {
                if !is_imm {
                    return unk(i);
                }
                op = x;
            } else if op == "sltiu" && is_imm {
                op = "sltu";
            }
            let ww = if word { 32 } else { w };
            let a = a.mask(ww);
            let v = a.op(b, |x, y| match op {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "and" => x & y,
                "or" => x | y,
                "xor" => x ^ y,
                "andn" => x & !y,
                "orn" => x | !y,
                "xnor" => !(x ^ y),
                "sll" => x << (y as u32 % ww),
                "srl" => x >> (y as u32 % ww),
                "sra" => (sext(x, ww) >> (y as u32 % ww)) as u128,
                "slt" => (sext(x, ww) < sext(y & mask(ww), ww)) as u128,
                _ => (x < y & mask(ww)) as u128,
            });
            if !matches!(op, "add" | "sub" | "and" | "or" | "xor" | "andn" | "orn" | "xnor" | "sll" | "srl" | "sra" | "slt" | "sltu") {
                return unk(i);
            }
            self.wr(m, d, if word { ext(v, 32, true).mask(w) } else { v.mask(w) });
            return Ok(Step::Next);
        }
        unk(i)
    }
}
