//! AArch64 (A64).
use super::util::*;
use crate::asm::*;

pub struct A64 {
    pub lse2: bool,
    pub name: &'static str,
    pub be: bool,
}

const SP: RegId = 31;
const XZR: RegId = 32;
const N: RegId = 40;
const Z: RegId = 41;
const C: RegId = 42;
const V: RegId = 43;

impl A64 {
    fn reg(&self, n: &str) -> Option<(RegId, u32)> {
        Some(match n {
            "sp" => (SP, 64),
            "wsp" => (SP, 32),
            "xzr" => (XZR, 64),
            "wzr" => (XZR, 32),
            "fp" => (29, 64),
            "lr" => (30, 64),
            _ => {
                let w = match n.as_bytes().first()? {
                    b'x' => 64,
                    b'w' => 32,
                    _ => return None,
                };
                let k: RegId = n[1..].parse().ok()?;
                if k > 30 || n.len() > 3 {
                    return None;
                }
                (k, w)
            }
        })
    }
    fn rd(&self, m: &AsmState, (r, w): (RegId, u32)) -> TV {
        if r == XZR { TV::k(0) } else { get(m, r, w) }
    }
    fn wr(&self, m: &mut AsmState, (r, w): (RegId, u32), v: TV) {
        if r != XZR {
            set(m, r, w, v)
        }
    }
    fn cond(&self, m: &AsmState, c: &str) -> Option<TV> {
        let f = |r| m.get(r);
        let not = |x: TV| x.map(|v| v ^ 1);
        Some(match c {
            "eq" => f(Z),
            "ne" => not(f(Z)),
            "cs" | "hs" => f(C),
            "cc" | "lo" => not(f(C)),
            "mi" => f(N),
            "pl" => not(f(N)),
            "vs" => f(V),
            "vc" => not(f(V)),
            "hi" => f(C).op(f(Z), |c, z| c & (z ^ 1)),
            "ls" => not(f(C).op(f(Z), |c, z| c & (z ^ 1))),
            "ge" => not(f(N).op(f(V), |a, b| a ^ b)),
            "lt" => f(N).op(f(V), |a, b| a ^ b),
            "gt" => not(f(N).op(f(V), |a, b| a ^ b).op(f(Z), |a, b| a | b)),
            "le" => f(N).op(f(V), |a, b| a ^ b).op(f(Z), |a, b| a | b),
            "al" => TV::k(1),
            _ => return None,
        })
    }
    fn flags(&self, m: &mut AsmState, a: TV, b: TV, w: u32, sub: bool) -> TV {
        let (x, y) = (a.v & mask(w), if sub { !b.v & mask(w) } else { b.v & mask(w) });
        let s = x + y + sub as u128;
        let t = a.t | b.t;
        let r = s & mask(w);
        m.set_raw(N, TV { v: r >> (w - 1) & 1, t });
        m.set_raw(Z, TV { v: (r == 0) as u128, t });
        m.set_raw(C, TV { v: (s >> w) & 1, t });
        m.set_raw(V, TV { v: ((x ^ r) & (y ^ r)) >> (w - 1) & 1, t });
        TV { v: r, t }
    }
    /// second source operand with optional shift/extension words
    fn src2(&self, m: &AsmState, i: &Insn, k: usize, w: u32) -> FR<TV> {
        let v = match i.ops.get(k) {
            Some(Oper::Imm(v)) => TV::k(*v as u128 & mask(w)),
            Some(Oper::Reg(r, _, rw)) => self.rd(m, (*r, *rw)),
            _ => return unk(i),
        };
        match i.ops.get(k + 1) {
            None => Ok(v),
            Some(Oper::Word(s)) => {
                let (n, a) = s.split_once(' ').unwrap_or((s, "#0"));
                let a = parse_imm(a).unwrap_or(0) as u32;
                Ok(match n {
                    "uxtb" => v.map(|x| (x & 0xff) << a),
                    "uxth" => v.map(|x| (x & 0xffff) << a),
                    "uxtw" => v.map(|x| (x & 0xffff_ffff) << a),
                    "uxtx" | "lsl" => v.map(|x| x << a),
                    "sxtb" => v.map(|x| (sext(x & 0xff, 8) << a) as u128),
                    "sxth" => v.map(|x| (sext(x & 0xffff, 16) << a) as u128),
                    "sxtw" => v.map(|x| (sext(x & 0xffff_ffff, 32) << a) as u128),
                    "lsr" => v.map(|x| (x & mask(w)) >> a),
                    "asr" => v.map(|x| (sext(x & mask(w), w) >> a) as u128),
                    _ => return unk(i),
                }
                .mask(w))
            }
            _ => unk(i),
        }
    }
    fn pairv(&self, first: TV, second: TV, bits: u32) -> TV {
        if self.be { concat(first, second, bits) } else { concat(second, first, bits) }
    }
    fn split(&self, v: TV, bits: u32) -> (TV, TV) {
        let lo = v.mask(bits);
        let hi = v.map(|x| x >> bits).mask(bits);
        if self.be { (hi, lo) } else { (lo, hi) }
    }
}

/// suffix -> (access bytes, remaining mnemonic)
fn size_suffix(s: &str, w: u32) -> Option<(u32, bool)> {
    Some(match s {
        "" => (w / 8, false),
        "b" => (1, false),
        "h" => (2, false),
        "sb" => (1, true),
        "sh" => (2, true),
        "sw" => (4, true),
        _ => return None,
    })
}

impl Isa for A64 {
    fn name(&self) -> &'static str {
        self.name
    }
    fn mm(&self) -> Mm {
        Mm::AArch64
    }
    fn addr_bits(&self) -> u32 {
        64
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        if r >= N { 1 } else { 64 }
    }
    fn reg_name(&self, r: RegId) -> String {
        match r {
            SP => "sp".into(),
            XZR => "xzr".into(),
            N => "N".into(),
            Z => "Z".into(),
            C => "C".into(),
            V => "V".into(),
            _ => format!("x{r}"),
        }
    }
    fn class(&self, c: &str, bits: u32) -> Option<ClassInfo> {
        match c {
            "r" => Some(ClassInfo { regs: (0..31).filter(|r| ![18, 19, 29].contains(r)).collect(), bits }),
            _ => None,
        }
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some((r, _)) = self.reg(n) {
            return Some(if r == XZR { vec![] } else { vec![r] });
        }
        match n {
            "cc" => Some(vec![N, Z, C, V]),
            _ if n.len() >= 2 && b"vqdshbzp".contains(&n.as_bytes()[0]) && n[1..].parse::<u32>().is_ok() => Some(vec![]),
            "ffr" | "za" => Some(vec![]),
            _ => None,
        }
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None | Some('x') => Ok(format!("x{r}")),
            Some('w') => Ok(format!("w{r}")),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with("//") || l.starts_with('#')
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split("//").next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if let Some(inner) = t.strip_prefix('[') {
                let inner = inner.strip_suffix(']').ok_or("address writeback")?;
                let p = split_ops(inner);
                let (b, w) = self.reg(&p[0]).ok_or("base register")?;
                if w != 64 || b == XZR {
                    return Err("base register".into());
                }
                let mut index = None;
                let mut disp = 0;
                if let Some(d) = p.get(1) {
                    if let Some(v) = parse_imm(d) {
                        disp = v;
                    } else {
                        index = Some(self.reg(d).filter(|x| x.1 == 64 && p.len() == 2).ok_or("index register")?);
                    }
                }
                ops.push(Oper::Mem { base: Some((b, 64)), index, scale: 1, disp, size: 0, extra: 0 });
            } else if let Some((r, w)) = self.reg(t) {
                ops.push(Oper::Reg(r, 0, w));
            } else if let Some(v) = parse_imm(t).filter(|_| t.starts_with('#') || t.starts_with(|c: char| c.is_ascii_digit() || c == '-') && !t.ends_with(['b', 'f'])) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) && (mn.starts_with('b') || mn.starts_with("cb") || mn.starts_with("tb")) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                ops.push(Oper::Word(t.to_string()));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![N, Z, C, V]
    }
    fn sp(&self) -> Option<RegId> {
        Some(SP)
    }
    fn all_regs(&self) -> Vec<RegId> {
        (0..32).chain(N..=V).collect()
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let mn = i.mn.as_str();
        let word = |k: usize| -> FR<&str> {
            match i.ops.get(k) {
                Some(Oper::Word(w)) => Ok(w.as_str()),
                _ => unk(i),
            }
        };
        // branches
        if mn == "b" {
            return Ok(Step::Jump(label(i, 0)?));
        }
        if let Some(cc) = mn.strip_prefix("b.") {
            let v = self.cond(m, cc).ok_or(Fault::Engine(i.text.clone()))?;
            return jump_if(m, i, 0, v);
        }
        match mn {
            "cbz" | "cbnz" => {
                let v = self.rd(m, reg(i, 0)?).map(|x| ((x == 0) == (mn == "cbz")) as u128);
                return jump_if(m, i, 1, v);
            }
            "tbz" | "tbnz" => {
                let b = imm(i, 1)? as u32;
                let v = self.rd(m, reg(i, 0)?).map(|x| ((x >> b & 1 == 0) == (mn == "tbz")) as u128);
                return jump_if(m, i, 2, v);
            }
            "nop" | "yield" | "prfm" | "prfum" | "hint" => return Ok(Step::Next),
            "clrex" => {
                return if c.phase == 0 { mem(Mo::ClrEx, TV::k(0), 0, 0) } else { Ok(Step::Next) };
            }
            "dmb" | "dsb" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                return match word(0)? {
                    "ish" | "osh" | "sy" => fence(F_ALL),
                    "ishld" | "oshld" | "ld" => fence(F_PR | F_SR | F_SW),
                    "ishst" | "oshst" | "st" => fence(F_PW | F_SW),
                    // does not reach other processors
                    "nsh" | "nshld" | "nshst" => Ok(Step::Next),
                    _ => unk(i),
                };
            }
            "isb" => return if c.phase == 0 { fence(F_ISYNC) } else { Ok(Step::Next) },
            "mov" => {
                let d = reg(i, 0)?;
                let v = self.src2(m, i, 1, d.1)?;
                if let Some(Oper::Reg(_, _, w)) = i.ops.get(1) {
                    if *w != d.1 {
                        return unk(i);
                    }
                }
                self.wr(m, d, v);
                return Ok(Step::Next);
            }
            "mvn" => {
                let d = reg(i, 0)?;
                let v = self.src2(m, i, 1, d.1)?.map(|x| !x);
                self.wr(m, d, v.mask(d.1));
                return Ok(Step::Next);
            }
            "neg" => {
                let d = reg(i, 0)?;
                let v = self.src2(m, i, 1, d.1)?.map(|x| x.wrapping_neg());
                self.wr(m, d, v.mask(d.1));
                return Ok(Step::Next);
            }
            "movz" | "movn" | "movk" if i.ops.len() == 2 => {
                let d = reg(i, 0)?;
                let v = imm(i, 1)? as u128 & 0xffff;
                let v = match mn {
                    "movz" => TV::k(v),
                    "movn" => TV::k(!v & mask(d.1)),
                    _ => self.rd(m, d).map(|x| x & !0xffff | v),
                };
                self.wr(m, d, v);
                return Ok(Step::Next);
            }
            "ubfx" | "sbfx" | "bfi" | "bfxil" => {
                let (d, s) = (reg(i, 0)?, self.rd(m, reg(i, 1)?));
                let (lsb, n) = (imm(i, 2)? as u32, imm(i, 3)? as u32);
                if n == 0 || lsb + n > d.1 {
                    return unk(i);
                }
                let v = match mn {
                    "ubfx" => s.map(|x| x >> lsb & mask(n)),
                    "sbfx" => s.map(|x| sext(x >> lsb & mask(n), n) as u128),
                    "bfi" => self.rd(m, d).op(s, |o, x| o & !(mask(n) << lsb) | (x & mask(n)) << lsb),
                    _ => self.rd(m, d).op(s, |o, x| o & !mask(n) | x >> lsb & mask(n)),
                };
                self.wr(m, d, v.mask(d.1));
                return Ok(Step::Next);
            }
            "rev" => {
                let d = reg(i, 0)?;
                let w = d.1;
                let v = self.rd(m, reg(i, 1)?).map(|x| if w == 64 { (x as u64).swap_bytes() as u128 } else { (x as u32).swap_bytes() as u128 });
                self.wr(m, d, v);
                return Ok(Step::Next);
            }
            "uxtb" | "uxth" | "sxtb" | "sxth" | "sxtw" => {
                let d = reg(i, 0)?;
                let f = match &mn[3..] {
                    "b" => 8,
                    "h" => 16,
                    _ => 32,
                };
                let v = ext(self.rd(m, reg(i, 1)?), f, mn.starts_with('s'));
                self.wr(m, d, v.mask(d.1));
                return Ok(Step::Next);
            }
            "cmp" | "cmn" => {
                let d = reg(i, 0)?;
                let a = self.rd(m, d);
                let b = self.src2(m, i, 1, d.1)?;
                self.flags(m, a, b, d.1, mn == "cmp");
                return Ok(Step::Next);
            }
            "tst" => {
                let d = reg(i, 0)?;
                let v = self.rd(m, d).op(self.src2(m, i, 1, d.1)?, |a, b| a & b);
                self.flags(m, v, TV::k(0), d.1, false);
                m.set_raw(C, TV::k(0));
                m.set_raw(V, TV::k(0));
                return Ok(Step::Next);
            }
            "ccmp" => {
                let a = reg(i, 0)?;
                let cv = self.cond(m, word(3)?).ok_or(Fault::Engine(i.text.clone()))?;
                let b = match &i.ops[1] {
                    Oper::Imm(v) => TV::k(*v as u128),
                    Oper::Reg(r, _, w) => self.rd(m, (*r, *w)),
                    _ => return unk(i),
                };
                if cv.v != 0 {
                    let x = self.rd(m, a);
                    self.flags(m, x, b, a.1, true);
                } else {
                    let f = imm(i, 2)? as u128;
                    for (k, r) in [V, C, Z, N].into_iter().enumerate() {
                        m.set_raw(r, TV::k(f >> k & 1));
                    }
                }
                for r in [N, Z, C, V] {
                    let x = m.get(r);
                    m.set_raw(r, TV { v: x.v, t: x.t | cv.t });
                }
                return Ok(Step::Next);
            }
            "cset" | "csetm" => {
                let d = reg(i, 0)?;
                let cv = self.cond(m, word(1)?).ok_or(Fault::Engine(i.text.clone()))?;
                self.wr(m, d, if mn == "cset" { cv } else { cv.map(|x| x.wrapping_neg() & mask(d.1)) });
                return Ok(Step::Next);
            }
            "cinc" | "cinv" | "cneg" => {
                let d = reg(i, 0)?;
                let s = self.rd(m, reg(i, 1)?);
                let cv = self.cond(m, word(2)?).ok_or(Fault::Engine(i.text.clone()))?;
                let v = s.op(cv, |x, c| {
                    if c == 0 {
                        x
                    } else {
                        match mn {
                            "cinc" => x.wrapping_add(1),
                            "cinv" => !x,
                            _ => x.wrapping_neg(),
                        }
                    }
                });
                self.wr(m, d, v.mask(d.1));
                return Ok(Step::Next);
            }
            "csel" | "csinc" | "csinv" | "csneg" => {
                let d = reg(i, 0)?;
                let (a, b) = (self.rd(m, reg(i, 1)?), self.rd(m, reg(i, 2)?));
                let cv = self.cond(m, word(3)?).ok_or(Fault::Engine(i.text.clone()))?;
                let v = if cv.v != 0 {
                    a.v
                } else {
                    match mn {
                        "csel" => b.v,
                        "csinc" => b.v.wrapping_add(1),
                        "csinv" => !b.v,
                        _ => b.v.wrapping_neg(),
                    }
                };
                self.wr(m, d, TV { v, t: a.t | b.t | cv.t }.mask(d.1));
                return Ok(Step::Next);
            }
            "add" | "sub" | "adds" | "subs" | "and" | "ands" | "orr" | "eor" | "bic" | "orn" | "eon" | "lsl" | "lsr" | "asr" | "ror" => {
                let d = reg(i, 0)?;
                let w = d.1;
                let a = self.rd(m, reg(i, 1)?);
                let b = self.src2(m, i, 2, w)?;
                let v = match mn {
                    "adds" => self.flags(m, a, b, w, false),
                    "subs" => self.flags(m, a, b, w, true),
                    _ => a.op(b, |x, y| match mn {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "and" | "ands" => x & y,
                        "orr" => x | y,
                        "eor" => x ^ y,
                        "bic" => x & !y,
                        "orn" => x | !y,
                        "eon" => x ^ !y,
                        "lsl" => x << (y as u32 % w),
                        "lsr" => (x & mask(w)) >> (y as u32 % w),
                        "asr" => (sext(x & mask(w), w) >> (y as u32 % w)) as u128,
                        _ => {
                            let n = y as u32 % w;
                            (x & mask(w)) >> n | if n == 0 { 0 } else { x << (w - n) }
                        }
                    }),
                };
                if mn == "ands" {
                    self.flags(m, v, TV::k(0), w, false);
                    m.set_raw(C, TV::k(0));
                    m.set_raw(V, TV::k(0));
                }
                self.wr(m, d, v.mask(w));
                return Ok(Step::Next);
            }
            "ldp" | "ldnp" | "ldiapp" | "stp" | "stnp" | "stilp" => {
                let (r1, r2) = (reg(i, 0)?, reg(i, 1)?);
                let a = ea(m, i, 2, 64)?;
                let w = r1.1;
                if mn.starts_with('s') {
                    let v = self.pairv(self.rd(m, r1), self.rd(m, r2), w);
                    let fl = if mn == "stilp" { REL } else { 0 };
                    if self.lse2 {
                        return if c.phase == 0 { mem(Mo::Store(v), a, w / 4, fl) } else { Ok(Step::Next) };
                    }
                    return match c.phase {
                        0 => mem(Mo::Store(self.rd(m, r1)), a, w / 8, fl),
                        1 => mem(Mo::Store(self.rd(m, r2)), a.map(|x| x.wrapping_add(w as u128 / 8)), w / 8, fl),
                        _ => Ok(Step::Next),
                    };
                }
                if r1.0 == r2.0 && r1.0 != XZR {
                    return ub(i, "both destinations are the same register");
                }
                let fl = if mn == "ldiapp" { ACQPC } else { 0 };
                if self.lse2 {
                    if c.phase == 0 {
                        return mem(Mo::Load, a, w / 4, fl);
                    }
                    let (x, y) = self.split(c.resp.unwrap(), w);
                    self.wr(m, r1, x);
                    self.wr(m, r2, y);
                    return Ok(Step::Next);
                }
                match c.phase {
                    0 => return mem(Mo::Load, a, w / 8, fl),
                    1 => {
                        m.tmp[0] = c.resp.unwrap();
                        return mem(Mo::Load, a.map(|x| x.wrapping_add(w as u128 / 8)), w / 8, fl);
                    }
                    _ => {
                        let x = m.tmp[0];
                        m.tmp[0] = TV::k(0);
                        self.wr(m, r1, x);
                        self.wr(m, r2, c.resp.unwrap());
                        return Ok(Step::Next);
                    }
                }
            }
            "ldxp" | "ldaxp" => {
                let (r1, r2) = (reg(i, 0)?, reg(i, 1)?);
                let w = r1.1;
                let a = ea(m, i, 2, 64)?;
                if r1.0 == r2.0 {
                    return ub(i, "both destinations are the same register");
                }
                let fl = if mn == "ldaxp" { ACQ } else { 0 };
                // a pair of 64-bit registers is only guaranteed to be read as two 64-bit quantities
                return match c.phase {
                    0 => mem(Mo::Ll, a, w / 4, fl),
                    1 => {
                        let (x, y) = self.split(c.resp.unwrap(), w);
                        if w == 64 && !c.weak {
                            m.tmp[0] = x;
                            return mem(Mo::Load, a.map(|x| x.wrapping_add(8)), 8, fl);
                        }
                        self.wr(m, r1, x);
                        self.wr(m, r2, y);
                        Ok(Step::Next)
                    }
                    _ => {
                        let x = m.tmp[0];
                        m.tmp[0] = TV::k(0);
                        self.wr(m, r1, x);
                        self.wr(m, r2, c.resp.unwrap());
                        Ok(Step::Next)
                    }
                };
            }
            "stxp" | "stlxp" => {
                let (s, r1, r2) = (reg(i, 0)?, reg(i, 1)?, reg(i, 2)?);
                let w = r1.1;
                if s.1 != 32 {
                    return unk(i);
                }
                if s.0 == r1.0 || s.0 == r2.0 || matches!(i.ops[3], Oper::Mem { base: Some((b, _)), .. } if b == s.0) {
                    return ub(i, "status register overlaps another operand");
                }
                if c.phase == 0 {
                    let v = self.pairv(self.rd(m, r1), self.rd(m, r2), w);
                    return mem(Mo::Sc(v), ea(m, i, 3, 64)?, w / 4, if mn == "stlxp" { REL } else { 0 });
                }
                self.wr(m, s, c.resp.unwrap().map(|x| x ^ 1));
                return Ok(Step::Next);
            }
            "swpp" | "swppa" | "swppl" | "swppal" => {
                let (r1, r2) = (reg(i, 0)?, reg(i, 1)?);
                if r1.0 == r2.0 || r1.0 == XZR || r2.0 == XZR {
                    return ub(i, "invalid registers");
                }
                if c.phase == 0 {
                    let v = self.pairv(self.rd(m, r1), self.rd(m, r2), 64);
                    return mem(swap_of(v), ea(m, i, 2, 64)?, 16, acqrel(&mn[4..]));
                }
                let (x, y) = self.split(c.resp.unwrap(), 64);
                self.wr(m, r1, x);
                self.wr(m, r2, y);
                return Ok(Step::Next);
            }
            "casp" | "caspa" | "caspl" | "caspal" => {
                let r: Vec<(RegId, u32)> = (0..4).map(|k| reg(i, k)).collect::<FR<_>>()?;
                if r[0].0 % 2 != 0 || r[2].0 % 2 != 0 || r[1].0 != r[0].0 + 1 || r[3].0 != r[2].0 + 1 {
                    return unk(i);
                }
                let w = r[0].1;
                if c.phase == 0 {
                    let cmp = self.pairv(self.rd(m, r[0]), self.rd(m, r[1]), w);
                    let new = self.pairv(self.rd(m, r[2]), self.rd(m, r[3]), w);
                    return mem(cas_of(new, cmp), ea(m, i, 4, 64)?, w / 4, acqrel(&mn[4..]));
                }
                let (x, y) = self.split(c.resp.unwrap(), w);
                self.wr(m, r[0], x);
                self.wr(m, r[1], y);
                return Ok(Step::Next);
            }
            _ => {}
        }
        // single-register memory instructions
        for (p, fl) in [("ldapur", ACQPC), ("ldapr", ACQPC), ("ldar", ACQ), ("ldlar", ACQ), ("ldur", 0), ("ldr", 0)] {
            if let Some(s) = mn.strip_prefix(p) {
                let d = reg(i, 0)?;
                let Some((n, sg)) = size_suffix(s, d.1) else { continue };
                if c.phase == 0 {
                    return mem(Mo::Load, ea(m, i, 1, 64)?, n, fl);
                }
                self.wr(m, d, ext(c.resp.unwrap(), n * 8, sg).mask(d.1));
                return Ok(Step::Next);
            }
        }
        for (p, fl) in [("stlur", REL), ("stlr", REL), ("stllr", REL), ("stur", 0), ("str", 0)] {
            if let Some(s) = mn.strip_prefix(p) {
                let d = reg(i, 0)?;
                let Some((n, false)) = size_suffix(s, d.1) else { continue };
                if c.phase == 0 {
                    return mem(Mo::Store(self.rd(m, d).mask(n * 8)), ea(m, i, 1, 64)?, n, fl);
                }
                return Ok(Step::Next);
            }
        }
        for (p, fl) in [("ldaxr", ACQ), ("ldxr", 0)] {
            if let Some(s) = mn.strip_prefix(p) {
                let d = reg(i, 0)?;
                let Some((n, false)) = size_suffix(s, d.1) else { continue };
                if c.phase == 0 {
                    return mem(Mo::Ll, ea(m, i, 1, 64)?, n, fl);
                }
                self.wr(m, d, c.resp.unwrap().mask(n * 8));
                return Ok(Step::Next);
            }
        }
        for (p, fl) in [("stlxr", REL), ("stxr", 0)] {
            if let Some(s) = mn.strip_prefix(p) {
                let (st, d) = (reg(i, 0)?, reg(i, 1)?);
                let Some((n, false)) = size_suffix(s, d.1) else { continue };
                if st.1 != 32 {
                    return unk(i);
                }
                if st.0 == d.0 || matches!(i.ops[2], Oper::Mem { base: Some((b, _)), .. } if b == st.0) {
                    return ub(i, "status register overlaps another operand");
                }
                if c.phase == 0 {
                    return mem(Mo::Sc(self.rd(m, d).mask(n * 8)), ea(m, i, 2, 64)?, n, fl);
                }
                self.wr(m, st, c.resp.unwrap().map(|x| x ^ 1));
                return Ok(Step::Next);
            }
        }
        // LSE
        if let Some(s) = mn.strip_prefix("cas") {
            let (o, s) = order_suffix(s);
            let (d, v) = (reg(i, 0)?, reg(i, 1)?);
            if let Some((n, false)) = size_suffix(s, d.1) {
                if c.phase == 0 {
                    return mem(cas_of(self.rd(m, v).mask(n * 8), self.rd(m, d).mask(n * 8)), ea(m, i, 2, 64)?, n, o);
                }
                self.wr(m, d, c.resp.unwrap().mask(n * 8));
                return Ok(Step::Next);
            }
        }
        for (p, k) in [("swp", Rk::Swap), ("ldadd", Rk::Add), ("ldset", Rk::Or), ("ldclr", Rk::Clr), ("ldeor", Rk::Xor)] {
            if let Some(s) = mn.strip_prefix(p) {
                let (mut o, s) = order_suffix(s);
                let (v, d) = (reg(i, 0)?, reg(i, 1)?);
                if d.0 == XZR {
                    o &= !ACQ;
                }
                if let Some((n, false)) = size_suffix(s, v.1) {
                    if c.phase == 0 {
                        let x = self.rd(m, v).mask(n * 8);
                        return mem(rmw_of(k, x), ea(m, i, 2, 64)?, n, o);
                    }
                    self.wr(m, d, c.resp.unwrap().mask(n * 8));
                    return Ok(Step::Next);
                }
            }
        }
        unk(i)
    }
}

fn acqrel(s: &str) -> u32 {
    match s {
        "a" => ACQ,
        "l" => REL,
        "al" => ACQ | REL,
        _ => 0,
    }
}
fn order_suffix(s: &str) -> (u32, &str) {
    for o in ["al", "a", "l"] {
        if let Some(r) = s.strip_prefix(o) {
            return (acqrel(o), r);
        }
    }
    (0, s)
}
