//! SPARC V8 (TSO) and V9 (RMO).
use super::util::*;
use crate::asm::*;

pub struct Sparc {
    pub w: u32,
    pub v9: bool,
}

const ICC: RegId = 32;
const XCC: RegId = 33;

fn regn(n: &str) -> Option<RegId> {
    let n = n.strip_prefix('%')?;
    if n == "sp" {
        return Some(14);
    }
    if n == "fp" {
        return Some(30);
    }
    let (b, k) = (n.get(..1)?, n.get(1..)?);
    let k: RegId = k.parse().ok()?;
    let base = match b {
        "g" => 0,
        "o" => 8,
        "l" => 16,
        "i" => 24,
        "r" => return (k < 32).then_some(k),
        _ => return None,
    };
    (k < 8).then_some(base + k)
}

impl Sparc {
    fn rd(&self, m: &AsmState, r: RegId) -> TV {
        if r == 0 { TV::k(0) } else { get(m, r, self.w) }
    }
    fn wr(&self, m: &mut AsmState, r: RegId, v: TV) {
        if r != 0 {
            set(m, r, self.w, v.mask(self.w))
        }
    }
    fn src(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(v)) => Ok(TV::k(*v as u128 & mask(self.w))),
            Some(Oper::Reg(r, ..)) if *r < 32 => Ok(self.rd(m, *r)),
            _ => unk(i),
        }
    }
    fn ea(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Mem { base: Some((b, _)), index, disp, .. }) => {
                let mut a = self.rd(m, *b).map(|x| x.wrapping_add(*disp as u128));
                if let Some((x, _)) = index {
                    a = a.op(self.rd(m, *x), |x, y| x.wrapping_add(y));
                }
                Ok(a.mask(self.w))
            }
            _ => unk(i),
        }
    }
    /// condition codes n z v c (8 4 2 1) of a - b
    fn subcc(&self, m: &mut AsmState, a: TV, b: TV) {
        for (f, n) in [(ICC, 32), (XCC, 64)] {
            if n > self.w {
                continue;
            }
            let v = a.op(b, |x, y| {
                let (x, y) = (x & mask(n), y & mask(n));
                let r = x.wrapping_sub(y) & mask(n);
                let (sx, sy, sr) = (x >> (n - 1) & 1, y >> (n - 1) & 1, r >> (n - 1) & 1);
                sr << 3 | ((r == 0) as u128) << 2 | ((sx != sy && sr != sx) as u128) << 1 | (x < y) as u128
            });
            m.set_raw(f, v);
        }
    }
    fn logcc(&self, m: &mut AsmState, r: TV) {
        for (f, n) in [(ICC, 32), (XCC, 64)] {
            if n <= self.w {
                m.set_raw(f, r.map(|x| (x >> (n - 1) & 1) << 3 | (((x & mask(n)) == 0) as u128) << 2));
            }
        }
    }
    fn cond(&self, m: &AsmState, f: RegId, c: &str) -> Option<TV> {
        let k = |g: fn(u128) -> bool| Some(m.get(f).map(|x| g(x) as u128));
        match c {
            "a" | "" => Some(TV::k(1)),
            "n" => Some(TV::k(0)),
            "ne" | "nz" => k(|x| x & 4 == 0),
            "e" | "eq" | "z" => k(|x| x & 4 != 0),
            "g" => k(|x| !(x & 4 != 0 || (x >> 3 ^ x >> 1) & 1 != 0)),
            "le" => k(|x| x & 4 != 0 || (x >> 3 ^ x >> 1) & 1 != 0),
            "ge" => k(|x| (x >> 3 ^ x >> 1) & 1 == 0),
            "l" => k(|x| (x >> 3 ^ x >> 1) & 1 != 0),
            "gu" => k(|x| x & 5 == 0),
            "leu" => k(|x| x & 5 != 0),
            "cc" | "geu" => k(|x| x & 1 == 0),
            "cs" | "lu" => k(|x| x & 1 != 0),
            "pos" => k(|x| x & 8 == 0),
            "neg" => k(|x| x & 8 != 0),
            _ => None,
        }
    }
}

impl Isa for Sparc {
    fn name(&self) -> &'static str {
        match (self.w, self.v9) {
            (64, _) => "sparc64",
            (_, true) => "sparc-v9",
            _ => "sparc-v8",
        }
    }
    fn mm(&self) -> Mm {
        if self.v9 { Mm::Weak } else { Mm::Tso }
    }
    fn addr_bits(&self) -> u32 {
        self.w
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        if r >= 32 { 4 } else { self.w }
    }
    fn reg_name(&self, r: RegId) -> String {
        match r {
            ICC => "%icc".into(),
            XCC => "%xcc".into(),
            _ => format!("%{}{}", ["g", "o", "l", "i"][r as usize / 8], r % 8),
        }
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        (c == "r").then(|| ClassInfo { regs: (8..14).chain(16..30).chain(2..5).collect(), bits: self.w })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        let p = if n.starts_with('%') { n.to_string() } else { format!("%{n}") };
        if let Some(r) = regn(&p) {
            return Some(if r == 0 { vec![] } else { vec![r] });
        }
        match &p[1..] {
            "icc" | "xcc" | "ccr" => Some(if self.w == 64 { vec![ICC, XCC] } else { vec![ICC] }),
            b => (b.starts_with('f') || b == "y").then(Vec::new),
        }
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with('!') || l.starts_with('#') || l.starts_with(".p2align") || l.starts_with(".align")
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split('!').next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if let Some(x) = t.strip_prefix('[') {
                let (a, tail) = x.split_once(']').ok_or("address")?;
                let asi = match tail.trim() {
                    "" => 0,
                    t => parse_imm(t).ok_or("address space")? as i64,
                };
                let a = a.trim();
                let k = a[1..].find(['+', '-']).map_or(a.len(), |k| k + 1);
                let base = regn(a[..k].trim()).ok_or("base register")?;
                let rest = a[k..].trim();
                let (mut index, mut disp) = (None, 0);
                if !rest.is_empty() {
                    if let Some(r) = rest.strip_prefix('+').and_then(|r| regn(r.trim())) {
                        index = Some((r, self.w));
                    } else {
                        disp = parse_imm(rest.strip_prefix('+').unwrap_or(rest).trim()).ok_or("displacement")?;
                    }
                }
                ops.push(Oper::Mem { base: Some((base, self.w)), index, scale: 1, disp, size: 0, extra: asi as _ });
            } else if t == "%icc" {
                ops.push(Oper::Reg(ICC, 0, 4));
            } else if t == "%xcc" {
                ops.push(Oper::Reg(XCC, 0, 4));
            } else if t.starts_with('%') {
                ops.push(Oper::Reg(regn(t).ok_or("register")?, 0, self.w));
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) && !mn.starts_with('.') {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        if self.w == 64 { vec![ICC, XCC] } else { vec![ICC] }
    }
    fn sp(&self) -> Option<RegId> {
        Some(14)
    }
    /// nothing may live below the stack pointer
    fn red_zone(&self) -> bool {
        false
    }
    fn all_regs(&self) -> Vec<RegId> {
        (1..32).chain(self.flag_regs()).collect()
    }
    fn delay_slot(&self, _st: &AsmState, _i: &Insn, _taken: bool) -> bool {
        true
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let w = self.w;
        let mn = i.mn.as_str();
        let asi_ok = |k: usize| matches!(i.ops.get(k), Some(Oper::Mem { extra, .. }) if *extra == 10 || self.v9 && *extra == 0x80);
        match mn {
            "nop" => return Ok(Step::Next),
            "stbar" | "membar" => {
                let f = if mn == "stbar" {
                    8
                } else if !self.v9 {
                    return unk(i);
                } else {
                    imm(i, 0)? as u32 & 15
                };
                // one fence per set of pairs: #LoadLoad 1, #StoreLoad 2, #LoadStore 4, #StoreStore 8
                let (r, w_) = (|x: u32| [(1, F_SR), (4, F_SW)].iter().filter(|b| x & b.0 != 0).fold(0, |a, b| a | b.1), |x: u32| [(2, F_SR), (8, F_SW)].iter().filter(|b| x & b.0 != 0).fold(0, |a, b| a | b.1));
                let mut fs = vec![];
                match (r(f), w_(f)) {
                    (0, 0) => {}
                    (a, 0) => fs.push(F_PR | a),
                    (0, b) => fs.push(F_PW | b),
                    (a, b) if a == b => fs.push(F_PR | F_PW | a),
                    (a, b) => fs.extend([F_PR | a, F_PW | b]),
                }
                return match fs.get(c.phase as usize) {
                    Some(f) => fence(*f),
                    None => Ok(Step::Next),
                };
            }
            "mov" => {
                let v = self.src(m, i, 0)?;
                self.wr(m, reg(i, 1)?.0, v);
                return Ok(Step::Next);
            }
            "clr" => {
                self.wr(m, reg(i, 0)?.0, TV::k(0));
                return Ok(Step::Next);
            }
            "cmp" => {
                let (a, b) = (self.src(m, i, 0)?, self.src(m, i, 1)?);
                self.subcc(m, a, b);
                return Ok(Step::Next);
            }
            "tst" => {
                let a = self.src(m, i, 0)?;
                self.logcc(m, a);
                return Ok(Step::Next);
            }
            "ld" | "lduw" | "ldsw" | "ldub" | "ldsb" | "lduh" | "ldsh" | "ldx" => {
                let (n, s) = match mn {
                    "ld" | "lduw" => (4, false),
                    "ldsw" if w == 64 => (4, true),
                    "ldub" => (1, false),
                    "ldsb" => (1, true),
                    "lduh" => (2, false),
                    "ldsh" => (2, true),
                    "ldx" if w == 64 => (8, false),
                    _ => return unk(i),
                };
                if c.phase == 0 {
                    return mem(Mo::Load, self.ea(m, i, 0)?, n, 0);
                }
                self.wr(m, reg(i, 1)?.0, ext(c.resp.unwrap(), n * 8, s));
                return Ok(Step::Next);
            }
            "st" | "stw" | "stb" | "sth" | "stx" => {
                let n = match mn {
                    "st" | "stw" => 4,
                    "stb" => 1,
                    "sth" => 2,
                    "stx" if w == 64 => 8,
                    _ => return unk(i),
                };
                if c.phase == 0 {
                    return mem(Mo::Store(self.src(m, i, 0)?.mask(n * 8)), self.ea(m, i, 1)?, n, 0);
                }
                return Ok(Step::Next);
            }
            "ldstub" | "swap" => {
                let d = reg(i, 1)?.0;
                let n = if mn == "swap" { 4 } else { 1 };
                if c.phase == 0 {
                    let v = if mn == "swap" { self.rd(m, d).mask(32) } else { TV::k(0xff) };
                    return mem(swap_of(v), self.ea(m, i, 0)?, n, if self.v9 { 0 } else { LOCK });
                }
                self.wr(m, d, c.resp.unwrap().mask(n * 8));
                return Ok(Step::Next);
            }
            "cas" | "casa" | "casx" | "casxa" => {
                let n = match mn {
                    "cas" | "casx" if !self.v9 => return unk(i),
                    "casa" | "casxa" if !asi_ok(0) => return unk(i),
                    "cas" | "casa" => 4,
                    _ if w == 64 => 8,
                    _ => return unk(i),
                };
                let (cmp, d) = (self.src(m, i, 1)?.mask(n * 8), reg(i, 2)?.0);
                if c.phase == 0 {
                    return mem(cas_of(self.rd(m, d).mask(n * 8), cmp), self.ea(m, i, 0)?, n, if self.v9 { 0 } else { LOCK });
                }
                self.wr(m, d, c.resp.unwrap().mask(n * 8));
                return Ok(Step::Next);
            }
            _ => {}
        }
        if let Some(cc) = mn.strip_prefix("mov") {
            // conditional move
            if let (true, Some(Oper::Reg(f @ (ICC | XCC), ..))) = (self.v9, i.ops.first()) {
                let (v, d) = (self.src(m, i, 1)?, reg(i, 2)?.0);
                let Some(t) = self.cond(m, *f, cc) else { return unk(i) };
                let old = self.rd(m, d);
                let r = if t.v != 0 { v } else { old };
                self.wr(m, d, TV { v: r.v, t: v.t | old.t | t.t });
                return Ok(Step::Next);
            }
            return unk(i);
        }
        if let (Some(cc), true) = (mn.strip_prefix('b'), matches!(i.ops.last(), Some(Oper::Label(_)))) {
            let (f, k) = match i.ops.first() {
                Some(Oper::Reg(f @ (ICC | XCC), ..)) if self.v9 => (*f, 1),
                _ => (ICC, 0),
            };
            let Some(t) = self.cond(m, f, cc) else { return unk(i) };
            return jump_if(m, i, k, t);
        }
        if i.ops.len() == 3 {
            let (base, set_cc) = match mn.strip_suffix("cc") {
                Some(b) => (b, true),
                None => (mn, false),
            };
            if !matches!(base, "and" | "andn" | "or" | "orn" | "xor" | "xnor" | "add" | "sub" | "sll" | "srl" | "sra" | "sllx" | "srlx" | "srax") || base.ends_with('x') && w == 32 {
                return unk(i);
            }
            let (a, b) = (self.src(m, i, 0)?, self.src(m, i, 1)?);
            let v = a.op(b, |x, y| {
                mask(w)
                    & match base {
                        "and" => x & y,
                        "andn" => x & !y,
                        "or" => x | y,
                        "orn" => x | !y,
                        "xor" => x ^ y,
                        "xnor" => !(x ^ y),
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "sll" => x << (y as u32 & 31),
                        "srl" => (x & mask(32)) >> (y as u32 & 31),
                        "sra" => (sext(x, 32) >> (y as u32 & 31)) as u128,
                        "sllx" => x << (y as u32 & 63),
                        "srlx" => x >> (y as u32 & 63),
                        _ => (sext(x, 64) >> (y as u32 & 63)) as u128,
                    }
            });
            if set_cc {
                match base {
                    "sub" => self.subcc(m, a, b),
                    "and" | "andn" | "or" | "orn" | "xor" | "xnor" => self.logcc(m, v),
                    _ => return unk(i),
                }
            }
            self.wr(m, reg(i, 2)?.0, v);
            return Ok(Step::Next);
        }
        unk(i)
    }
}
