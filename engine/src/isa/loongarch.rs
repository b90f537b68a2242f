//! LoongArch (LA32 and LA64).
use super::util::*;
use crate::asm::*;

pub struct La {
    pub w: u32,
}

const ABI: [&str; 32] = [
    "zero", "ra", "tp", "sp", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "r21", "fp", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8",
];

fn regn(n: &str) -> Option<RegId> {
    let n = n.strip_prefix('$').unwrap_or(n);
    if let Some(k) = n.strip_prefix('r').and_then(|k| k.parse::<RegId>().ok()) {
        return (k < 32).then_some(k);
    }
    if n == "s9" {
        return Some(22);
    }
    ABI.iter().position(|x| *x == n).map(|k| k as RegId)
}

impl La {
    fn rd(&self, m: &AsmState, r: RegId) -> TV {
        if r == 0 { TV::k(0) } else { get(m, r, self.w) }
    }
    fn wr(&self, m: &mut AsmState, r: RegId, v: TV) {
        if r != 0 {
            set(m, r, self.w, v.mask(self.w))
        }
    }
    fn src(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(v)) => Ok(TV::k(*v as u128 & mask(self.w))),
            Some(Oper::Reg(r, ..)) => Ok(self.rd(m, *r)),
            _ => unk(i),
        }
    }
    /// address operand written as "$base, disp" or "$base" (AM*), "$base, $index" (LDX)
    fn ea2(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        let b = self.src(m, i, k)?;
        Ok(match i.ops.get(k + 1) {
            None => b,
            Some(_) => {
                let d = self.src(m, i, k + 1)?;
                b.op(d, |x, y| x.wrapping_add(y)).mask(self.w)
            }
        })
    }
}

impl Isa for La {
    fn name(&self) -> &'static str {
        if self.w == 64 { "loongarch64" } else { "loongarch32" }
    }
    fn mm(&self) -> Mm {
        Mm::WeakRr
    }
    fn addr_bits(&self) -> u32 {
        self.w
    }
    fn reg_bits(&self, _r: RegId) -> u32 {
        self.w
    }
    fn reg_name(&self, r: RegId) -> String {
        format!("${}", ABI[r as usize])
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        (c == "r").then(|| ClassInfo { regs: (1..32).filter(|r| ![2, 3, 21].contains(r)).collect(), bits: self.w })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some(r) = regn(n) {
            return Some(if r == 0 { vec![] } else { vec![r] });
        }
        let b = n.strip_prefix('$').unwrap_or(n);
        (b.starts_with('f') || b.starts_with("vr") || b.starts_with("xr")).then(Vec::new)
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with('#')
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split('#').next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if t.starts_with('$') {
                ops.push(Oper::Reg(regn(t).ok_or("register")?, 0, self.w));
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![]
    }
    fn sp(&self) -> Option<RegId> {
        Some(3)
    }
    fn all_regs(&self) -> Vec<RegId> {
        (1..32).collect()
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let w = self.w;
        let mn = i.mn.as_str();
        let br = |m: &mut AsmState, a: TV, b: TV, k: usize, v: bool| jump_if(m, i, k, TV { v: v as u128, t: a.t | b.t });
        match mn {
            "b" => return Ok(Step::Jump(label(i, 0)?)),
            "nop" => return Ok(Step::Next),
            "beq" | "bne" | "blt" | "bge" | "bltu" | "bgeu" => {
                let (a, b) = (self.src(m, i, 0)?, self.src(m, i, 1)?);
                let (x, y) = (sext(a.v, w), sext(b.v, w));
                let v = match mn {
                    "beq" => x == y,
                    "bne" => x != y,
                    "blt" => x < y,
                    "bge" => x >= y,
                    "bltu" => a.v < b.v,
                    _ => a.v >= b.v,
                };
                return br(m, a, b, 2, v);
            }
            "beqz" | "bnez" => {
                let a = self.src(m, i, 0)?;
                return br(m, a, TV::k(0), 1, (a.v == 0) == (mn == "beqz"));
            }
            "dbar" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                let h = imm(i, 0)?;
                // hint: bits 3..2 what comes before (reads, writes are constrained when the bit is 0), bits 1..0 what follows
                return fence(match h {
                    0x700 => F_SAMEADDR,
                    0x10..=0x1f => {
                        let h = !h;
                        let pick = |b: i128, f: u32| if h & b != 0 { f } else { 0 };
                        pick(8, F_PR) | pick(4, F_PW) | pick(2, F_SR) | pick(1, F_SW)
                    }
                    _ => F_ALL,
                });
            }
            "ibar" => return Ok(Step::Next),
            "li" | "li.w" | "li.d" => {
                let v = imm(i, 1)?;
                self.wr(m, reg(i, 0)?.0, TV::k(v as u128));
                return Ok(Step::Next);
            }
            "move" | "ext.w.b" | "ext.w.h" => {
                let a = self.rd(m, reg(i, 1)?.0);
                self.wr(m, reg(i, 0)?.0, match mn {
                    "move" => a,
                    "ext.w.b" => ext(a, 8, true),
                    _ => ext(a, 16, true),
                });
                return Ok(Step::Next);
            }
            _ => {}
        }
        let parts: Vec<&str> = mn.split('.').collect();
        let size = |s: &str| -> Option<(u32, bool)> {
            Some(match s {
                "b" => (1, true),
                "bu" => (1, false),
                "h" => (2, true),
                "hu" => (2, false),
                "w" => (4, true),
                "wu" if w == 64 => (4, false),
                "d" if w == 64 => (8, true),
                _ => return None,
            })
        };
        if parts.len() == 2 {
            if let Some((n, sg)) = size(parts[1]) {
                match parts[0] {
                    "ld" | "ldx" => {
                        if c.phase == 0 {
                            return mem(Mo::Load, self.ea2(m, i, 1)?, n, 0);
                        }
                        self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, sg));
                        return Ok(Step::Next);
                    }
                    "st" | "stx" if sg => {
                        if c.phase == 0 {
                            return mem(Mo::Store(self.rd(m, reg(i, 0)?.0).mask(n * 8)), self.ea2(m, i, 1)?, n, 0);
                        }
                        return Ok(Step::Next);
                    }
                    // LL: a barrier and then the load; SC: the store and then a barrier
                    "ll" if n >= 4 && sg => {
                        if c.phase == 0 {
                            return fence(F_ALL);
                        }
                        if c.phase == 1 {
                            return mem(Mo::Ll, self.ea2(m, i, 1)?, n, 0);
                        }
                        self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, true));
                        return Ok(Step::Next);
                    }
                    "sc" if n >= 4 && sg => {
                        if c.phase == 0 {
                            return mem(Mo::Sc(self.rd(m, reg(i, 0)?.0).mask(n * 8)), self.ea2(m, i, 1)?, n, 0);
                        }
                        if c.phase == 1 {
                            self.wr(m, reg(i, 0)?.0, c.resp.unwrap());
                            return fence(F_ALL);
                        }
                        return Ok(Step::Next);
                    }
                    am if am.starts_with("am") => {
                        let (op, db) = match am[2..].strip_suffix("_db") {
                            Some(x) => (x, true),
                            None => (&am[2..], false),
                        };
                        let (d, s, a) = (reg(i, 0)?.0, reg(i, 1)?.0, reg(i, 2)?.0);
                        let k = match op {
                            "swap" => Rk::Swap,
                            "cas" => Rk::Cas,
                            "add" => Rk::Add,
                            "and" => Rk::And,
                            "or" => Rk::Or,
                            "xor" => Rk::Xor,
                            "max" => Rk::Max,
                            "min" => Rk::Min,
                            _ => return unk(i),
                        };
                        if d != 0 && d == a {
                            return ub(i, "destination equals the address register");
                        }
                        if d != 0 && d == s && k != Rk::Cas {
                            return ub(i, "destination equals the source register");
                        }
                        if c.phase == 0 {
                            let v = self.rd(m, s).mask(n * 8);
                            let op = if k == Rk::Cas { cas_of(v, self.rd(m, d).mask(n * 8)) } else { rmw_of(k, v) };
                            return mem(op, self.rd(m, a), n, if db { LOCK } else { 0 });
                        }
                        self.wr(m, d, ext(c.resp.unwrap(), n * 8, true));
                        return Ok(Step::Next);
                    }
                    _ => {}
                }
            }
        }
        // arithmetic
        if i.ops.len() == 3 {
            let d = reg(i, 0)?.0;
            let (a, b) = (self.rd(m, reg(i, 1)?.0), self.src(m, i, 2)?);
            let is_imm = matches!(i.ops[2], Oper::Imm(_));
            let word = parts.len() == 2 && parts[1] == "w";
            if parts.len() == 2 && !word && !(parts[1] == "d" && w == 64) {
                return unk(i);
            }
            let mut op = parts[0];
            let ww = if word { 32 } else { w };
            if is_imm {
                op = match op {
                    "addi" | "andi" | "ori" | "xori" | "slli" | "srli" | "srai" | "slti" => &op[..op.len() - 1],
                    "sltui" => "sltu",
                    _ => return unk(i),
                };
            }
            if !matches!(op, "add" | "sub" | "and" | "or" | "nor" | "xor" | "andn" | "orn" | "sll" | "srl" | "sra" | "slt" | "sltu" | "maskeqz" | "masknez") {
                return unk(i);
            }
            let v = a.op(b, |x, y| {
                let (x, y) = (x & mask(ww), y & mask(ww));
                match op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "and" => x & y,
                    "or" => x | y,
                    "nor" => !(x | y),
                    "xor" => x ^ y,
                    "andn" => x & !y,
                    "orn" => x | !y,
                    "sll" => x << (y as u32 % ww),
                    "srl" => x >> (y as u32 % ww),
                    "sra" => (sext(x, ww) >> (y as u32 % ww)) as u128,
                    "slt" => (sext(x, ww) < sext(y, ww)) as u128,
                    "sltu" => (x < y) as u128,
                    "maskeqz" => if y == 0 { 0 } else { x },
                    _ => if y != 0 { 0 } else { x },
                }
            });
            self.wr(m, d, if word { ext(v, 32, true) } else { v });
            return Ok(Step::Next);
        }
        unk(i)
    }
}
