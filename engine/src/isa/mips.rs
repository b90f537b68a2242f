//! MIPS (32-bit and 64-bit, release 2 and release 6), assembled in reorder mode (no visible delay slots).
use super::util::*;
use crate::asm::*;

pub struct Mips {
    pub w: u32,
    pub r6: bool,
}

fn regn(n: &str) -> Option<RegId> {
    if let Some(k) = n.strip_prefix('$').and_then(|n| n.parse::<RegId>().ok()) {
        return (k < 32).then_some(k);
    }
    let n = n.strip_prefix('$').unwrap_or(n);
    Some(match n {
        "zero" => 0,
        "at" => 1,
        "gp" => 28,
        "sp" => 29,
        "fp" | "s8" => 30,
        "ra" => 31,
        _ => return None,
    })
}

impl Mips {
    fn rd(&self, m: &AsmState, r: RegId) -> TV {
        if r == 0 { TV::k(0) } else { get(m, r, self.w) }
    }
    fn wr(&self, m: &mut AsmState, r: RegId, v: TV) {
        if r != 0 {
            set(m, r, self.w, v.mask(self.w))
        }
    }
    fn src(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(v)) => Ok(TV::k(*v as u128 & mask(self.w))),
            Some(Oper::Reg(r, ..)) => Ok(self.rd(m, *r)),
            _ => unk(i),
        }
    }
}

impl Isa for Mips {
    fn name(&self) -> &'static str {
        match (self.w, self.r6) {
            (64, false) => "mips64",
            (64, true) => "mips64r6",
            (_, false) => "mips",
            _ => "mips32r6",
        }
    }
    fn mm(&self) -> Mm {
        Mm::Weak
    }
    fn addr_bits(&self) -> u32 {
        self.w
    }
    fn reg_bits(&self, _r: RegId) -> u32 {
        self.w
    }
    fn reg_name(&self, r: RegId) -> String {
        format!("${r}")
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        // 2..25 and, without a frame pointer, 30 and 31 (left out: they behave like any other)
        (c == "r").then(|| ClassInfo { regs: (2..26).collect(), bits: self.w })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some(r) = regn(n) {
            return Some(if r == 0 { vec![] } else { vec![r] });
        }
        let b = n.strip_prefix('$').unwrap_or(n);
        (b.starts_with('f') || b == "hi" || b == "lo" || b.starts_with("ac") || b.starts_with("msa")).then(Vec::new)
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with('#') || matches!(l.split_whitespace().collect::<Vec<_>>()[..], [".set", "push" | "pop" | "noat" | "at" | "macro" | "nomacro" | "reorder"])
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split('#').next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if let Some((d, b)) = t.strip_suffix(')').and_then(|x| x.split_once('(')) {
                let disp = if d.trim().is_empty() { 0 } else { parse_imm(d).ok_or("displacement")? };
                let r = regn(b.trim()).ok_or("base register")?;
                ops.push(Oper::Mem { base: (r != 0).then_some((r, self.w)), index: None, scale: 1, disp, size: 0, extra: 0 });
            } else if t.starts_with('$') {
                ops.push(Oper::Reg(regn(t).ok_or("register")?, 0, self.w));
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) && !mn.starts_with('.') {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![]
    }
    fn sp(&self) -> Option<RegId> {
        Some(29)
    }
    fn all_regs(&self) -> Vec<RegId> {
        (1..32).collect()
    }
    /// 64-bit MIPS keeps 32-bit values sign-extended
    fn sext_in(&self) -> bool {
        self.w == 64
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let w = self.w;
        let mn = i.mn.as_str();
        let size = |s: &str| -> Option<(u32, bool)> {
            Some(match s {
                "b" => (1, true),
                "bu" => (1, false),
                "h" => (2, true),
                "hu" => (2, false),
                "w" => (4, true),
                "wu" if w == 64 => (4, false),
                "d" if w == 64 => (8, true),
                _ => return None,
            })
        };
        match mn {
            "b" | "j" => return Ok(Step::Jump(label(i, 0)?)),
            "nop" | "ssnop" | "ehb" => return Ok(Step::Next),
            "sync" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                return fence(match i.ops.first() {
                    None | Some(Oper::Imm(0)) => F_ALL,
                    Some(Oper::Imm(4)) => F_PW | F_SW,
                    Some(Oper::Imm(0x10)) => F_PR | F_PW | F_SR | F_SW,
                    Some(Oper::Imm(0x11)) => F_PR | F_SR | F_SW,
                    Some(Oper::Imm(0x12)) => F_PR | F_PW | F_SW,
                    Some(Oper::Imm(0x13)) => F_PR | F_SR,
                    _ => return unk(i),
                });
            }
            "beq" | "bne" => {
                let (a, b) = (self.src(m, i, 0)?, self.src(m, i, 1)?);
                return jump_if(m, i, 2, a.op(b, |x, y| ((x == y) == (mn == "beq")) as u128));
            }
            "beqz" | "bnez" => {
                let a = self.src(m, i, 0)?;
                return jump_if(m, i, 1, a.map(|x| ((x == 0) == (mn == "beqz")) as u128));
            }
            "li" | "dli" => {
                let v = imm(i, 1)?;
                self.wr(m, reg(i, 0)?.0, TV::k(v as u128));
                return Ok(Step::Next);
            }
            "move" => {
                let v = self.rd(m, reg(i, 1)?.0);
                self.wr(m, reg(i, 0)?.0, v);
                return Ok(Step::Next);
            }
            "not" => {
                let v = self.rd(m, reg(i, 1)?.0);
                self.wr(m, reg(i, 0)?.0, v.map(|x| !x));
                return Ok(Step::Next);
            }
            "seb" | "seh" => {
                let v = self.rd(m, reg(i, 1)?.0);
                self.wr(m, reg(i, 0)?.0, ext(v, if mn == "seb" { 8 } else { 16 }, true));
                return Ok(Step::Next);
            }
            _ => {}
        }
        if let Some((n, sg)) = match mn {
            "ll" => Some((4, true)),
            "lld" if w == 64 => Some((8, true)),
            _ => None,
        } {
            if c.phase == 0 {
                return mem(Mo::Ll, ea(m, i, 1, w)?, n, 0);
            }
            self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, sg));
            return Ok(Step::Next);
        }
        if let Some(n) = match mn {
            "sc" => Some(4),
            "scd" if w == 64 => Some(8),
            _ => None,
        } {
            let d = reg(i, 0)?.0;
            if c.phase == 0 {
                return mem(Mo::Sc(self.rd(m, d).mask(n * 8)), ea(m, i, 1, w)?, n, 0);
            }
            self.wr(m, d, c.resp.unwrap());
            return Ok(Step::Next);
        }
        if let Some((n, sg)) = mn.strip_prefix('l').and_then(size) {
            if c.phase == 0 {
                return mem(Mo::Load, ea(m, i, 1, w)?, n, 0);
            }
            self.wr(m, reg(i, 0)?.0, ext(c.resp.unwrap(), n * 8, sg));
            return Ok(Step::Next);
        }
        if let Some((n, true)) = mn.strip_prefix('s').and_then(size) {
            if c.phase == 0 {
                return mem(Mo::Store(self.rd(m, reg(i, 0)?.0).mask(n * 8)), ea(m, i, 1, w)?, n, 0);
            }
            return Ok(Step::Next);
        }
        if i.ops.len() == 3 || i.ops.len() == 2 {
            let d = reg(i, 0)?.0;
            let (a, b) = if i.ops.len() == 3 { (self.rd(m, reg(i, 1)?.0), self.src(m, i, 2)?) } else { (self.rd(m, d), self.src(m, i, 1)?) };
            // (operation, word-sized?, source must be a sign-extended word)
            let (op, word, strict) = match mn {
                "and" | "andi" => ("and", false, false),
                "or" | "ori" => ("or", false, false),
                "xor" | "xori" => ("xor", false, false),
                "nor" => ("nor", false, false),
                "sltu" | "sltiu" => ("sltu", false, false),
                "slt" | "slti" => ("slt", false, false),
                "addu" | "addiu" => ("add", true, true),
                "subu" => ("sub", true, true),
                "sllv" | "sll" => ("sll", true, false),
                "srlv" | "srl" => ("srl", true, true),
                "srav" | "sra" => ("sra", true, true),
                "daddu" | "daddiu" if w == 64 => ("add", false, false),
                "dsubu" if w == 64 => ("sub", false, false),
                "dsllv" | "dsll" if w == 64 => ("sll", false, false),
                "dsrlv" | "dsrl" if w == 64 => ("srl", false, false),
                "seleqz" if self.r6 => ("seleqz", false, false),
                "selnez" if self.r6 => ("selnez", false, false),
                _ => return unk(i),
            };
            let ww = if word { 32 } else { w };
            if strict && w == 64 && sext(a.v, 32) as u128 & mask(64) != a.v {
                return ub(i, "the source is not a sign-extended word");
            }
            let v = a.op(b, |x, y| {
                let (x, y) = (x & mask(ww), y & mask(ww));
                mask(ww)
                    & match op {
                        "and" => x & y,
                        "or" => x | y,
                        "xor" => x ^ y,
                        "nor" => !(x | y),
                        "sltu" => (x < y) as u128,
                        "slt" => (sext(x, ww) < sext(y, ww)) as u128,
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "sll" => x << (y as u32 % ww),
                        "srl" => x >> (y as u32 % ww),
                        "sra" => (sext(x, ww) >> (y as u32 % ww)) as u128,
                        "seleqz" => if y == 0 { x } else { 0 },
                        _ => if y != 0 { x } else { 0 },
                    }
            });
            self.wr(m, d, if word { ext(v, 32, true) } else { v });
            return Ok(Step::Next);
        }
        unk(i)
    }
}
