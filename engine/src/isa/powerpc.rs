//! 32-bit and 64-bit Power.
use super::util::*;
use crate::asm::*;

pub struct Ppc {
    pub w: u32,
}

/// condition register fields 0..7, four bits each: LT GT EQ SO (from the most significant)
const CR: RegId = 40;
const SO: RegId = 50;

fn regn(n: &str) -> Option<RegId> {
    let n = n.strip_prefix('%').unwrap_or(n);
    let k: RegId = n.strip_prefix('r')?.parse().ok()?;
    (k < 32).then_some(k)
}
fn crn(n: &str) -> Option<RegId> {
    let n = n.strip_prefix('%').unwrap_or(n);
    let k: RegId = n.strip_prefix("cr")?.parse().ok()?;
    (k < 8).then_some(CR + k)
}

impl Ppc {
    fn rd(&self, m: &AsmState, r: RegId) -> TV {
        get(m, r, self.w)
    }
    fn src(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(v)) => Ok(TV::k(*v as u128 & mask(self.w))),
            Some(Oper::Reg(r, ..)) if *r < 32 => Ok(self.rd(m, *r)),
            _ => unk(i),
        }
    }
    /// register 0 as a base means the number 0
    fn base(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(0)) => Ok(TV::k(0)),
            Some(Oper::Reg(0, ..)) => Ok(TV::k(0)),
            Some(Oper::Reg(r, ..)) if *r < 32 => Ok(self.rd(m, *r)),
            _ => unk(i),
        }
    }
    fn cmp(&self, m: &mut AsmState, f: RegId, a: TV, b: TV, bits: u32, signed: bool) {
        let so = m.get(SO).v & 1;
        let v = a.op(b, |x, y| {
            let o = if signed { sext(x, bits).cmp(&sext(y, bits)) } else { (x & mask(bits)).cmp(&(y & mask(bits))) };
            so | match o {
                std::cmp::Ordering::Less => 8,
                std::cmp::Ordering::Greater => 4,
                std::cmp::Ordering::Equal => 2,
            }
        });
        m.set_raw(f, v);
    }
}

impl Isa for Ppc {
    fn name(&self) -> &'static str {
        if self.w == 64 { "powerpc64" } else { "powerpc" }
    }
    fn mm(&self) -> Mm {
        Mm::Power
    }
    fn addr_bits(&self) -> u32 {
        self.w
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        match r {
            SO => 1,
            CR..=47 => 4,
            _ => self.w,
        }
    }
    fn reg_name(&self, r: RegId) -> String {
        match r {
            SO => "xer[so]".into(),
            CR..=47 => format!("%cr{}", r - CR),
            _ => format!("%r{r}"),
        }
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        let regs: Vec<RegId> = (0..29).filter(|r| ![1, 2, 13].contains(r)).collect();
        match c {
            "r" => Some(ClassInfo { regs, bits: self.w }),
            "b" => Some(ClassInfo { regs: regs.into_iter().filter(|r| *r != 0).collect(), bits: self.w }),
            _ => None,
        }
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some(r) = regn(n).or_else(|| crn(n)) {
            return Some(vec![r]);
        }
        let b = n.strip_prefix('%').unwrap_or(n);
        match b {
            "xer" => Some(vec![SO]),
            "cc" => Some(vec![CR]),
            _ => (b.starts_with('f') || b.starts_with('v') || b == "lr" || b == "ctr").then(Vec::new),
        }
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with('#')
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split('#').next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if let Some((d, b)) = t.strip_suffix(')').and_then(|x| x.split_once('(')) {
                let disp = if d.trim().is_empty() { 0 } else { parse_imm(d).ok_or("displacement")? };
                let r = regn(b.trim()).ok_or("base register")?;
                // register 0 as a base means the number 0
                ops.push(Oper::Mem { base: (r != 0).then_some((r, self.w)), index: None, scale: 1, disp, size: 0, extra: 0 });
            } else if let Some(r) = regn(t).or_else(|| crn(t)) {
                ops.push(Oper::Reg(r, 0, self.w));
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![]
    }
    fn sp(&self) -> Option<RegId> {
        Some(1)
    }
    fn all_regs(&self) -> Vec<RegId> {
        (0..32).chain(CR..CR + 8).chain([SO]).collect()
    }
    fn special_regs(&self) -> Vec<RegId> {
        vec![0]
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let w = self.w;
        let mn = i.mn.as_str();
        match mn {
            "nop" => return Ok(Step::Next),
            "b" => return Ok(Step::Jump(label(i, 0)?)),
            "sync" | "hwsync" | "lwsync" | "isync" | "ptesync" | "eieio" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                return match (mn, i.ops.first()) {
                    ("sync", None | Some(Oper::Imm(0))) | ("hwsync", None) => fence(F_ALL | F_FULL),
                    ("sync", Some(Oper::Imm(1))) | ("lwsync", None) => fence(F_LW),
                    ("ptesync", None) => fence(F_ALL | F_FULL),
                    ("eieio", None) => fence(F_LW | F_PW | F_SW),
                    ("isync", None) => fence(F_ISYNC),
                    _ => unk(i),
                };
            }
            "mfcr" => {
                let mut v = TV::k(0);
                for f in 0..8 {
                    v = v.op(m.get(CR + f), |a, b| a << 4 | b & 15);
                }
                set(m, reg(i, 0)?.0, w, v);
                return Ok(Step::Next);
            }
            "mfocrf" | "mtcrf" => return unk(i),
            "li" => {
                let v = imm(i, 1)?;
                set(m, reg(i, 0)?.0, w, TV::k(v as u128));
                return Ok(Step::Next);
            }
            "lis" => {
                let v = (imm(i, 1)? << 16) as u128;
                set(m, reg(i, 0)?.0, w, TV::k(v).mask(w));
                return Ok(Step::Next);
            }
            "not" | "neg" => {
                let v = self.src(m, i, 1)?.map(|x| if mn == "not" { !x } else { x.wrapping_neg() });
                set(m, reg(i, 0)?.0, w, v.mask(w));
                return Ok(Step::Next);
            }
            "addi" => {
                // register 0 as the first source means the number 0
                let a = if reg(i, 1)?.0 == 0 { TV::k(0) } else { self.src(m, i, 1)? };
                let k = imm(i, 2)? as u128;
                set(m, reg(i, 0)?.0, w, a.map(|x| x.wrapping_add(k)).mask(w));
                return Ok(Step::Next);
            }
            "clrlwi" | "clrldi" => {
                let full = if mn == "clrlwi" { 32 } else { 64 };
                let n = imm(i, 2)? as u32;
                if n >= full || full > w {
                    return unk(i);
                }
                let v = self.src(m, i, 1)?.mask(full - n);
                set(m, reg(i, 0)?.0, w, v);
                return Ok(Step::Next);
            }
            "mr" => {
                let v = self.src(m, i, 1)?;
                set(m, reg(i, 0)?.0, w, v);
                return Ok(Step::Next);
            }
            "extsb" | "extsh" | "extsw" => {
                let n = match mn {
                    "extsb" => 8,
                    "extsh" => 16,
                    _ => 32,
                };
                let v = self.src(m, i, 1)?;
                set(m, reg(i, 0)?.0, w, ext(v, n, true));
                return Ok(Step::Next);
            }
            _ => {}
        }
        // conditional branches
        let bm = mn.trim_end_matches(['+', '-']);
        if let Some(bit) = match bm {
            "beq" | "bne" => Some(2),
            "blt" | "bge" => Some(8),
            "bgt" | "ble" => Some(4),
            _ => None,
        } {
            let pos = matches!(bm, "beq" | "blt" | "bgt");
            let (f, k) = match i.ops.first() {
                Some(Oper::Reg(r, ..)) if *r >= CR => (*r, 1),
                Some(Oper::Label(_)) => (CR, 0),
                _ => return unk(i),
            };
            let v = m.get(f).map(|x| ((x & bit != 0) == pos) as u128);
            return jump_if(m, i, k, v);
        }
        if let Some((bits, signed)) = match mn {
            "cmpw" | "cmpwi" => Some((32, true)),
            "cmplw" | "cmplwi" => Some((32, false)),
            "cmpd" | "cmpdi" if w == 64 => Some((64, true)),
            "cmpld" | "cmpldi" if w == 64 => Some((64, false)),
            _ => None,
        } {
            let (f, k) = match i.ops.first() {
                Some(Oper::Reg(r, ..)) if *r >= CR => (*r, 1),
                _ => (CR, 0),
            };
            let (a, b) = (self.src(m, i, k)?, self.src(m, i, k + 1)?);
            self.cmp(m, f, a, b, bits, signed);
            return Ok(Step::Next);
        }
        // reservations
        let size = |s: &str| -> Option<u32> {
            Some(match s {
                "b" => 1,
                "h" => 2,
                "w" => 4,
                "d" if w == 64 => 8,
                "q" if w == 64 => 16,
                _ => return None,
            })
        };
        let even = |r: RegId| -> FR<()> { if r % 2 != 0 { ub(i, "quadword register pair must start at an even register") } else { Ok(()) } };
        if let Some(n) = mn.strip_prefix('l').and_then(|x| x.strip_suffix("arx")).and_then(size) {
            let d = reg(i, 0)?.0;
            if c.phase == 0 {
                let a = self.base(m, i, 1)?.op(self.src(m, i, 2)?, |x, y| x.wrapping_add(y)).mask(w);
                if n == 16 {
                    even(d)?;
                    if [1, 2].iter().any(|k| matches!(i.ops.get(*k), Some(Oper::Reg(r, ..)) if *r == d || *r == d + 1)) {
                        return ub(i, "quadword register pair overlaps the address register");
                    }
                }
                return mem(Mo::Ll, a, n, 0);
            }
            let v = c.resp.unwrap();
            if n == 16 {
                set(m, d, w, v.map(|x| x >> 64));
                set(m, d + 1, w, v.mask(64));
            } else {
                set(m, d, w, v.mask(n * 8));
            }
            return Ok(Step::Next);
        }
        if let Some(n) = mn.strip_prefix("st").and_then(|x| x.strip_suffix("cx.")).and_then(size) {
            let s = reg(i, 0)?.0;
            if c.phase == 0 {
                let a = self.base(m, i, 1)?.op(self.src(m, i, 2)?, |x, y| x.wrapping_add(y)).mask(w);
                let v = if n == 16 {
                    even(s)?;
                    concat(self.rd(m, s), self.rd(m, s + 1), 64)
                } else {
                    self.rd(m, s).mask(n * 8)
                };
                return mem(Mo::Sc(v), a, n, 0);
            }
            let so = m.get(SO).v & 1;
            m.set_raw(CR, c.resp.unwrap().map(|x| so | x << 1));
            return Ok(Step::Next);
        }
        if let Some((n, sg)) = match mn {
            "lbz" => Some((1, false)),
            "lhz" => Some((2, false)),
            "lha" => Some((2, true)),
            "lwz" => Some((4, false)),
            "lwa" if w == 64 => Some((4, true)),
            "ld" if w == 64 => Some((8, false)),
            "lq" if w == 64 => Some((16, false)),
            _ => None,
        } {
            let d = reg(i, 0)?.0;
            if c.phase == 0 {
                let a = ea(m, i, 1, w)?;
                if n == 16 {
                    even(d)?;
                    if matches!(i.ops.get(1), Some(Oper::Mem { base: Some((b, _)), .. }) if *b == d || *b == d + 1) {
                        return ub(i, "quadword register pair overlaps the address register");
                    }
                }
                return mem(Mo::Load, a, n, 0);
            }
            let v = c.resp.unwrap();
            if n == 16 {
                set(m, d, w, v.map(|x| x >> 64));
                set(m, d + 1, w, v.mask(64));
            } else {
                set(m, d, w, ext(v, n * 8, sg));
            }
            return Ok(Step::Next);
        }
        if let Some(n) = match mn {
            "stb" => Some(1),
            "sth" => Some(2),
            "stw" => Some(4),
            "std" if w == 64 => Some(8),
            "stq" if w == 64 => Some(16),
            _ => None,
        } {
            if c.phase == 0 {
                let s = reg(i, 0)?.0;
                let v = if n == 16 {
                    even(s)?;
                    concat(self.rd(m, s), self.rd(m, s + 1), 64)
                } else {
                    self.rd(m, s).mask(n * 8)
                };
                return mem(Mo::Store(v), ea(m, i, 1, w)?, n, 0);
            }
            return Ok(Step::Next);
        }
        if i.ops.len() == 3 {
            let (op, dot) = match mn.strip_suffix('.') {
                Some(o) => (o, true),
                None => (mn, false),
            };
            let d = reg(i, 0)?.0;
            let (a, b) = (self.src(m, i, 1)?, self.src(m, i, 2)?);
            let isimm = matches!(i.ops[2], Oper::Imm(_));
            let ok = if isimm { matches!(op, "slwi" | "srwi" | "ori" | "xori" | "sldi" | "srdi") || op == "andi" && dot } else { matches!(op, "and" | "andc" | "or" | "orc" | "nor" | "nand" | "eqv" | "xor" | "slw" | "srw" | "sld" | "srd" | "add" | "subf") };
            if !ok || (matches!(op, "sld" | "srd" | "sldi" | "srdi") && w == 32) {
                return unk(i);
            }
            let v = a.op(b, |x, y| {
                let s6 = (y & 63) as u32;
                match op {
                    "and" | "andi" => x & y,
                    "andc" => x & !y,
                    "or" | "ori" => x | y,
                    "orc" => x | !y,
                    "nor" => !(x | y),
                    "nand" => !(x & y),
                    "eqv" => !(x ^ y),
                    "xor" | "xori" => x ^ y,
                    "add" => x.wrapping_add(y),
                    "subf" => y.wrapping_sub(x),
                    "slw" | "slwi" => if s6 > 31 { 0 } else { (x & mask(32)) << s6 & mask(32) },
                    "srw" | "srwi" => if s6 > 31 { 0 } else { (x & mask(32)) >> s6 },
                    _ => {
                        let s7 = (y & 127) as u32;
                        if s7 > 63 {
                            0
                        } else if op.starts_with("sl") {
                            x << s7
                        } else {
                            (x & mask(64)) >> s7
                        }
                    }
                }
            })
            .mask(w);
            set(m, d, w, v);
            if dot {
                self.cmp(m, CR, v, TV::k(0), w, true);
            }
            return Ok(Step::Next);
        }
        unk(i)
    }
}
