//! x86 / x86_64 (Intel syntax inline asm).
use crate::asm::*;

pub struct X86 {
    pub long: bool, // 64-bit mode
}

const GPR: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
const AX: RegId = 0;
const CX: RegId = 1;
const DX: RegId = 2;
const BX: RegId = 3;
const SP: RegId = 4;
const XMM0: RegId = 16;
const CF: RegId = 32;
const PF: RegId = 33;
const AF: RegId = 34;
const ZF: RegId = 35;
const SF: RegId = 36;
const OF: RegId = 37;
const DF: RegId = 38;
const ST0: RegId = 40; // physical x87 stack slots, 40 = bottom-most pushed
const STN: RegId = 48; // number of values on the x87 stack
const FPSW: RegId = 49;
const ZMMHI: RegId = 60; // upper parts of vector registers (one pseudo register each)

const FENCE_MFENCE: u32 = F_ALL;
const FENCE_SFENCE: u32 = F_PW | F_SW;
const FENCE_LFENCE: u32 = F_PR | F_SR | F_SW;

const TAG_INT: u128 = 1 << 120;
const TAG_F64: u128 = 1 << 121;
const TAG_F32: u128 = 1 << 122;
const TAG_F80: u128 = 1 << 123;

impl X86 {
    /// (reg, bit offset, width)
    fn reg(&self, n: &str) -> Option<(RegId, u32, u32)> {
        if let Some(k) = n.strip_prefix("xmm").and_then(|k| k.parse::<u16>().ok()) {
            return Some((XMM0 + k, 0, 128));
        }
        if let Some(k) = GPR.iter().position(|&g| g == n) {
            return if k < 8 || self.long { Some((k as RegId, 0, 64)) } else { None };
        }
        let legacy = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"];
        if let Some(k) = legacy.iter().position(|&g| g == n) {
            return Some((k as RegId, 0, 16));
        }
        if let Some(r) = n.strip_prefix('e') {
            if let Some(k) = legacy.iter().position(|&g| g == r) {
                return Some((k as RegId, 0, 32));
            }
        }
        let low = ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"];
        if let Some(k) = low.iter().position(|&g| g == n) {
            return if k < 4 || self.long { Some((k as RegId, 0, 8)) } else { None };
        }
        let high = ["ah", "ch", "dh", "bh"];
        if let Some(k) = high.iter().position(|&g| g == n) {
            return Some((k as RegId, 8, 8));
        }
        if let Some(r) = n.strip_prefix('r') {
            let (d, w) = match r.chars().last() {
                Some('d') => (&r[..r.len() - 1], 32),
                Some('w') => (&r[..r.len() - 1], 16),
                Some('b') => (&r[..r.len() - 1], 8),
                _ => (r, 64),
            };
            if let Ok(k) = d.parse::<u16>() {
                if (8..16).contains(&k) && self.long {
                    return Some((k, 0, w));
                }
            }
        }
        None
    }
    fn name(&self, r: RegId, w: u32) -> String {
        let i = r as usize;
        if i < 8 {
            let l = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"][i];
            match w {
                64 => GPR[i].into(),
                32 => format!("e{l}"),
                16 => l.into(),
                _ => ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"][i].into(),
            }
        } else if i < 16 {
            format!("{}{}", GPR[i], match w { 64 => "", 32 => "d", 16 => "w", _ => "b" })
        } else if (16..32).contains(&i) {
            format!("xmm{}", i - 16)
        } else {
            format!("?{i}")
        }
    }
    fn rd(&self, m: &AsmState, r: RegId, off: u32, w: u32) -> TV {
        let x = m.get_raw(r).unwrap();
        TV { v: (x.v >> off) & mask(w), t: x.t }
    }
    fn wr(&self, m: &mut AsmState, r: RegId, off: u32, w: u32, val: TV) {
        let old = m.get_raw(r).unwrap();
        let full = if self.long { 64 } else { 32 };
        let v = if r < 16 && (w >= full || (w == 32 && self.long)) {
            TV { v: val.v & mask(w), t: val.t }
        } else {
            TV { v: (old.v & !(mask(w) << off)) | ((val.v & mask(w)) << off), t: old.t | val.t }
        };
        m.set_raw(r, v);
    }
    fn addr(&self, m: &AsmState, o: &Oper) -> FR<TV> {
        let Oper::Mem { base, index, scale, disp, .. } = o else { return eng("addr") };
        let mut a = TV::k(*disp as u128);
        let mut aw = if self.long { 64 } else { 32 };
        if let Some((b, w)) = base {
            a = a.op(self.rd(m, *b, 0, *w), |x, y| x.wrapping_add(y));
            aw = *w;
        }
        if let Some((b, w)) = index {
            let s = *scale as u128;
            a = a.op(self.rd(m, *b, 0, *w), |x, y| x.wrapping_add(y.wrapping_mul(s)));
            aw = *w;
        }
        Ok(a.mask(aw))
    }
    fn set_szp(&self, m: &mut AsmState, r: TV, w: u32) {
        m.set_raw(ZF, r.map(|v| (v & mask(w) == 0) as u128));
        m.set_raw(SF, r.map(|v| (v >> (w - 1)) & 1));
        m.set_raw(PF, r.map(|v| ((v as u8).count_ones() % 2 == 0) as u128));
    }
    fn alu(&self, m: &mut AsmState, op: &str, a: TV, b: TV, w: u32) -> FR<TV> {
        let mk_ = mask(w);
        Ok(match op {
            "add" | "adc" | "xadd" => {
                let c = if op == "adc" { m.get_raw(CF).unwrap() } else { TV::k(0) };
                let (av, bv) = (a.v & mk_, b.v & mk_);
                let s = av.wrapping_add(bv).wrapping_add(c.v);
                let r = TV { v: s & mk_, t: a.t | b.t | c.t };
                let cf = if w >= 128 { 0 } else { (s >> w) & 1 };
                m.set_raw(CF, TV { v: cf, t: r.t });
                m.set_raw(OF, TV { v: ((av ^ r.v) & (bv ^ r.v)) >> (w - 1) & 1, t: r.t });
                m.set_raw(AF, TV { v: ((av ^ bv ^ r.v) >> 4) & 1, t: r.t });
                self.set_szp(m, r, w);
                r
            }
            "sub" | "cmp" | "sbb" => {
                let c = if op == "sbb" { m.get_raw(CF).unwrap() } else { TV::k(0) };
                let (av, bv) = (a.v & mk_, b.v & mk_);
                let r = TV { v: av.wrapping_sub(bv).wrapping_sub(c.v) & mk_, t: a.t | b.t | c.t };
                m.set_raw(CF, TV { v: (av < bv + c.v) as u128, t: r.t });
                m.set_raw(OF, TV { v: ((av ^ bv) & (av ^ r.v)) >> (w - 1) & 1, t: r.t });
                m.set_raw(AF, TV { v: ((av ^ bv ^ r.v) >> 4) & 1, t: r.t });
                self.set_szp(m, r, w);
                r
            }
            "and" | "or" | "xor" | "test" => {
                let r = a.op(b, |x, y| match op {
                    "or" => x | y,
                    "xor" => x ^ y,
                    _ => x & y,
                });
                let r = r.mask(w);
                m.set_raw(CF, TV::k(0));
                m.set_raw(OF, TV::k(0));
                self.set_szp(m, r, w);
                r
            }
            "inc" | "dec" => {
                let cf = m.get_raw(CF).unwrap();
                let r = self.alu(m, if op == "inc" { "add" } else { "sub" }, a, TV::k(1), w)?;
                m.set_raw(CF, cf);
                r
            }
            "neg" => self.alu(m, "sub", TV::k(0), a, w)?,
            "not" => a.map(|x| !x & mk_),
            "shl" | "sal" | "shr" | "sar" | "rol" | "ror" => {
                let n = (b.v as u32) & if w == 64 { 63 } else { 31 };
                let av = a.v & mk_;
                let r = match op {
                    "shl" | "sal" => (av << n) & mk_,
                    "shr" => av >> n,
                    "sar" => (sext(av, w) >> n) as u128 & mk_,
                    "rol" => {
                        let n = n % w;
                        ((av << n) | if n == 0 { 0 } else { av >> (w - n) }) & mk_
                    }
                    _ => {
                        let n = n % w;
                        ((av >> n) | if n == 0 { 0 } else { av << (w - n) }) & mk_
                    }
                };
                let r = TV { v: r, t: a.t | b.t };
                if n != 0 {
                    let cf = match op {
                        "shl" | "sal" => if n <= w { (av >> (w - n)) & 1 } else { 0 },
                        "shr" | "sar" => (av >> (n - 1)) & 1,
                        "rol" => r.v & 1,
                        _ => (r.v >> (w - 1)) & 1,
                    };
                    m.set_raw(CF, TV { v: cf, t: r.t });
                    m.set_raw(OF, TV { v: 0, t: r.t });
                    if !op.starts_with('r') {
                        self.set_szp(m, r, w);
                    }
                }
                r
            }
            _ => return eng(format!("alu {op}")),
        })
    }
    fn cond(&self, m: &AsmState, cc: &str) -> Option<TV> {
        let f = |r: RegId| m.get_raw(r).unwrap();
        let not = |x: TV| x.map(|v| v ^ 1);
        let or = |a: TV, b: TV| a.op(b, |x, y| x | y);
        Some(match cc {
            "e" | "z" => f(ZF),
            "ne" | "nz" => not(f(ZF)),
            "c" | "b" | "nae" => f(CF),
            "nc" | "ae" | "nb" => not(f(CF)),
            "s" => f(SF),
            "ns" => not(f(SF)),
            "o" => f(OF),
            "no" => not(f(OF)),
            "p" | "pe" => f(PF),
            "np" | "po" => not(f(PF)),
            "be" | "na" => or(f(CF), f(ZF)),
            "a" | "nbe" => not(or(f(CF), f(ZF))),
            "l" | "nge" => f(SF).op(f(OF), |a, b| a ^ b),
            "ge" | "nl" => not(f(SF).op(f(OF), |a, b| a ^ b)),
            "le" | "ng" => or(f(ZF), f(SF).op(f(OF), |a, b| a ^ b)),
            "g" | "nle" => not(or(f(ZF), f(SF).op(f(OF), |a, b| a ^ b))),
            _ => return None,
        })
    }
    fn st_push(&self, m: &mut AsmState, v: TV) -> FR<()> {
        let n = m.get_raw(STN).unwrap().v as u16;
        if n >= 8 {
            // overflow: hardware would store the indefinite value
            return Err(Fault::Contract("x87 stack overflow".into()));
        }
        m.set_raw(ST0 + n, v);
        m.set_raw(STN, TV::k(n as u128 + 1));
        m.set_raw(FPSW, TV::k(m.get_raw(FPSW).unwrap().v ^ 1));
        Ok(())
    }
    fn st_top(&self, m: &AsmState) -> FR<TV> {
        let n = m.get_raw(STN).unwrap().v as u16;
        if n == 0 {
            return Err(Fault::Ub("x87 stack underflow".into()));
        }
        Ok(m.get_raw(ST0 + n - 1).unwrap())
    }
    fn st_pop(&self, m: &mut AsmState) {
        let n = m.get_raw(STN).unwrap().v;
        m.set_raw(STN, TV::k(n - 1));
        m.set_raw(FPSW, TV::k(m.get_raw(FPSW).unwrap().v ^ 2));
    }
}

fn x87_to_int(v: u128, bits: u32) -> u128 {
    let i: i128 = if v & TAG_INT != 0 {
        v as u64 as i64 as i128
    } else {
        let f = if v & TAG_F64 != 0 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
        let indef = -(1i128 << (bits - 1));
        if f.is_nan() || f.abs() >= 1.8e19 {
            indef
        } else {
            let fl = f.floor();
            let d = f - fl;
            let r = if d < 0.5 || (d == 0.5 && (fl as i128) % 2 == 0) { fl } else { fl + 1.0 };
            r as i128
        }
    };
    let lo = -(1i128 << (bits - 1));
    let hi = (1i128 << (bits - 1)) - 1;
    let r = if i < lo || i > hi { lo } else { i };
    r as u128 & mask(bits)
}
fn x87_to_f64(v: u128) -> u64 {
    if v & TAG_INT != 0 {
        (v as u64 as i64 as f64).to_bits()
    } else if v & TAG_F64 != 0 {
        v as u64
    } else {
        (f32::from_bits(v as u32) as f64).to_bits()
    }
}
fn quiet64(b: u64) -> u64 {
    let f = f64::from_bits(b);
    if f.is_nan() {
        b | (1 << 51)
    } else {
        b
    }
}

impl Isa for X86 {
    fn name(&self) -> &'static str {
        if self.long { "x86_64" } else { "x86" }
    }
    fn mm(&self) -> Mm {
        Mm::Tso
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        match r {
            0..=15 => if self.long { 64 } else { 32 },
            16..=31 => 128,
            CF..=DF => 1,
            ZMMHI..=91 => 64,
            STN => 4,
            _ => 120,
        }
    }
    fn reg_name(&self, r: RegId) -> String {
        match r {
            0..=15 => if self.long { self.name(r, 64) } else { self.name(r, 32) },
            16..=31 => format!("xmm{}", r - 16),
            CF..=DF => ["CF", "PF", "AF", "ZF", "SF", "OF", "DF"][(r - CF) as usize].into(),
            STN => "x87-stack".into(),
            FPSW => "x87-status".into(),
            ZMMHI..=91 => format!("ymm{}-upper", r - ZMMHI),
            _ => format!("st#{}", r - ST0),
        }
    }
    fn class(&self, c: &str, bits: u32) -> Option<ClassInfo> {
        let n = if self.long { 16 } else { 8 };
        let g: Vec<RegId> = (0..n).filter(|&r| r != SP).collect();
        Some(match c {
            "r" => {
                if !self.long && bits == 8 {
                    ClassInfo { regs: vec![0, 1, 2, 3], bits }
                } else {
                    ClassInfo { regs: g, bits }
                }
            }
            "q" => {
                if self.long {
                    ClassInfo { regs: g, bits }
                } else {
                    ClassInfo { regs: vec![0, 1, 2, 3], bits }
                }
            }
            "Q" => ClassInfo { regs: vec![0, 1, 2, 3], bits },
            "x" | "v" => ClassInfo { regs: (16..if self.long { 32 } else { 24 }).collect(), bits },
            _ => return None,
        })
    }
    fn misalign_ok(&self) -> bool {
        true
    }
    fn uncovered(&self, r: RegId, bits: u32) -> u128 {
        // ah, ch, dh, bh are registers of their own for the compiler (allocated on 32-bit x86)
        if !self.long && r < 4 && bits == 8 { 0xff00 } else { 0 }
    }
    fn name_bits(&self, n: &str) -> u32 {
        self.reg(n).map_or(0, |x| x.2)
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some((r, _, _)) = self.reg(n) {
            return Some(vec![r]);
        }
        if let Some(r) = n.strip_prefix('y').or_else(|| n.strip_prefix('z')) {
            if let Some(k) = r.strip_prefix("mm").and_then(|k| k.parse::<u16>().ok()) {
                return Some(if k < 16 { vec![XMM0 + k] } else { vec![] });
            }
        }
        if n == "st" {
            return Some(vec![ST0]);
        }
        if let Some(k) = n.strip_prefix("st(").and_then(|k| k.strip_suffix(')')).and_then(|k| k.parse::<u16>().ok()) {
            return Some(vec![ST0 + k]);
        }
        Some(match n {
            "flags" | "cc" => vec![CF, PF, AF, ZF, SF, OF],
            "dirflag" => vec![DF],
            "fpsr" => vec![FPSW],
            _ if n.starts_with("mm") || n.starts_with("xmm") || n.starts_with("tmm") || (n.starts_with('k') && n.len() == 2) || n == "mxcsr" || n == "fpcr" => vec![],
            _ => return None,
        })
    }
    fn format(&self, r: RegId, md: Option<char>, bits: u32) -> Result<String, String> {
        if (16..32).contains(&r) {
            return Ok(format!("{}{}", match md { Some('t') => "ymm", Some('g') => "zmm", _ => "xmm" }, r - 16));
        }
        Ok(match md {
            Some('q') => if self.long { self.name(r, 64) } else { self.name(r, 32) },
            Some('k') => self.name(r, 32),
            Some('w') => self.name(r, 16),
            Some('b') => self.name(r, 8),
            Some('h') => {
                if r < 4 {
                    ["ah", "ch", "dh", "bh"][r as usize].into()
                } else {
                    return Err("high byte of this register".into());
                }
            }
            None | Some('x') => self.name(r, bits),
            Some(c) => return Err(format!("x86 modifier {c}")),
        })
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split('#').next().unwrap().trim();
        let lower = line.to_ascii_lowercase();
        let mut s = lower.as_str();
        let mut x = 0;
        loop {
            let (w, r) = s.split_once(char::is_whitespace).unwrap_or((s, ""));
            match w {
                "lock" => {
                    x |= 1;
                    s = r.trim_start();
                }
                "rep" | "repz" | "repe" | "repne" | "data16" | "xacquire" | "xrelease" => {
                    x |= 2;
                    s = r.trim_start();
                }
                _ => break,
            }
        }
        let (mn, rest) = s.split_once(char::is_whitespace).unwrap_or((s, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let mut t = o.trim();
            let mut size = 0;
            for (k, sz) in [("byte", 1), ("word", 2), ("dword", 4), ("qword", 8), ("xmmword", 16), ("oword", 16), ("tbyte", 10), ("xword", 10), ("mmword", 8)] {
                if let Some(r) = t.strip_prefix(k) {
                    if r.starts_with(char::is_whitespace) || r.starts_with('[') {
                        let r = r.trim_start();
                        t = r.strip_prefix("ptr").unwrap_or(r).trim_start();
                        size = sz;
                        break;
                    }
                }
            }
            if let Some(p) = t.find('[') {
                let pre = t[..p].trim();
                let inner = t[p + 1..].strip_suffix(']').ok_or("memory operand")?;
                let mut disp: i128 = if pre.is_empty() { 0 } else { parse_imm(pre).ok_or(format!("memory operand {t}"))? };
                let mut base = None;
                let mut index = None;
                let mut scale = 1;
                let mut cur = String::new();
                let mut terms = vec![];
                let mut sign = 1;
                for c in inner.chars().chain("+".chars()) {
                    if c == '+' || c == '-' {
                        if !cur.trim().is_empty() {
                            terms.push((sign, cur.trim().to_string()));
                        }
                        sign = if c == '-' { -1 } else { 1 };
                        cur.clear();
                    } else {
                        cur.push(c);
                    }
                }
                for (sg, term) in terms {
                    if let Some((a, b)) = term.split_once('*') {
                        let (a, b) = (a.trim(), b.trim());
                        let (rn, sc) = if self.reg(a).is_some() { (a, b) } else { (b, a) };
                        let (r, _, w) = self.reg(rn).ok_or(format!("register {rn}"))?;
                        index = Some((r, w));
                        scale = parse_imm(sc).ok_or("scale")?;
                    } else if let Some((r, _, w)) = self.reg(&term) {
                        if w != 32 && w != 64 {
                            return Err(format!("address register {term}"));
                        }
                        if !self.long && w == 64 {
                            return Err(format!("address register {term}"));
                        }
                        if base.is_none() {
                            base = Some((r, w));
                        } else {
                            index = Some((r, w));
                        }
                    } else {
                        disp += sg * parse_imm(&term).ok_or(format!("address term {term}"))?;
                    }
                }
                ops.push(Oper::Mem { base, index, scale, disp, size, extra: 0 });
            } else if let Some((r, off, w)) = self.reg(t) {
                if w == 64 && r < 16 && !self.long {
                    return Err(format!("64-bit register {t} in 32-bit mode"));
                }
                ops.push(Oper::Reg(r, off, w));
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if t == "st" || t.starts_with("st(") {
                ops.push(Oper::Word(t.to_string()));
            } else if t.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.') {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        // give memory operands a size from the other operand where unspecified
        let rw = ops.iter().find_map(|o| if let Oper::Reg(_, _, w) = o { Some(*w / 8) } else { None });
        for o in ops.iter_mut() {
            if let Oper::Mem { size, .. } = o {
                if *size == 0 {
                    *size = match mn {
                        "cmpxchg8b" => 8,
                        "cmpxchg16b" => 16,
                        "movq" | "movlps" | "movlpd" | "movsd" | "vmovq" | "vmovlps" | "vmovsd" | "movhps" | "movhpd" => 8,
                        "movd" | "movss" | "vmovd" | "vmovss" => 4,
                        "lea" => 1,
                        _ => rw.ok_or("ambiguous operand size")?,
                    };
                } else if let Some(rw) = rw {
                    // explicit size must agree with the register operand for plain integer instructions
                    if ["mov", "xchg", "cmpxchg", "xadd", "add", "sub", "and", "or", "xor", "cmp", "test", "adc", "sbb"].contains(&mn) && *size != rw {
                        return Err(format!("operand size mismatch: {size} vs {rw}"));
                    }
                }
            }
        }
        Ok(mk(mn, ops, line, x))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![CF, PF, AF, ZF, SF, OF]
    }
    fn sp(&self) -> Option<RegId> {
        Some(SP)
    }
    fn all_regs(&self) -> Vec<RegId> {
        let mut v: Vec<RegId> = (0..if self.long { 16 } else { 8 }).collect();
        v.extend(16..if self.long { 32 } else { 24 });
        v.extend(CF..=DF);
        v.extend(ST0..=FPSW);
        v
    }
    fn entry_value(&self, r: RegId) -> Option<u128> {
        match r {
            DF => Some(0),
            STN => Some(0),
            _ => None,
        }
    }
    fn exit_value(&self, r: RegId) -> Option<u128> {
        match r {
            DF => Some(0),
            _ => None,
        }
    }
    fn extra_exit_check(&self, m: &AsmState) -> Result<(), String> {
        if m.get_raw(STN).map_or(false, |x| x.v != 0) {
            return Err("x87 register stack is not empty at exit".into());
        }
        Ok(())
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let lock = i.x & 1 != 0;
        let lockf = LOCK;
        let ops = &i.ops;
        let mn = i.mn.as_str();
        let width = |o: &Oper| -> u32 {
            match o {
                Oper::Reg(_, _, w) => *w,
                Oper::Mem { size, .. } => size * 8,
                _ => 0,
            }
        };
        let memreq = |op: Mo, addr: TV, size: u32, flags: u32| Ok(Step::Mem(MemReq { op, addr, size, flags }));
        // locked instructions need a memory destination and must be lockable
        if lock {
            let ok = ["add", "adc", "and", "btc", "btr", "bts", "cmpxchg", "cmpxchg8b", "cmpxchg16b", "dec", "inc", "neg", "not", "or", "sbb", "sub", "xor", "xadd", "xchg"].contains(&mn)
                && ops.iter().any(|o| matches!(o, Oper::Mem { .. }))
                && !(ops.len() == 2 && matches!(ops[1], Oper::Mem { .. }) && mn != "xchg");
            if !ok {
                return Err(Fault::Ub(format!("#UD: {}", i.text)));
            }
        }
        // read operand (register/imm only)
        let rdo = |m: &AsmState, o: &Oper, w: u32| -> FR<TV> {
            match o {
                Oper::Reg(r, off, w) => Ok(self.rd(m, *r, *off, *w)),
                Oper::Imm(v) => Ok(TV::k(*v as u128 & mask(w))),
                _ => eng(format!("operand of {}", i.text)),
            }
        };
        if let Some(cc) = mn.strip_prefix("set") {
            if let Some(v) = self.cond(m, cc) {
                match &ops[0] {
                    Oper::Reg(r, off, w) => {
                        self.wr(m, *r, *off, *w, v);
                        return Ok(Step::Next);
                    }
                    o => {
                        if c.phase == 0 {
                            return memreq(Mo::Store(v), self.addr(m, o)?, 1, 0);
                        }
                        return Ok(Step::Next);
                    }
                }
            }
        }
        if let Some(cc) = mn.strip_prefix("cmov") {
            if let Some(v) = self.cond(m, cc) {
                let w = width(&ops[0]);
                let src = match &ops[1] {
                    o @ Oper::Mem { size, .. } => {
                        if c.phase == 0 {
                            return memreq(Mo::Load, self.addr(m, o)?, *size, 0);
                        }
                        c.resp.unwrap()
                    }
                    o => rdo(m, o, w)?,
                };
                if let Oper::Reg(r, off, w) = &ops[0] {
                    let old = self.rd(m, *r, *off, *w);
                    let nv = if v.v != 0 { src } else { old };
                    self.wr(m, *r, *off, *w, TV { v: nv.v, t: src.t | old.t | v.t });
                }
                return Ok(Step::Next);
            }
        }
        if mn != "jmp" {
            if let Some(cc) = mn.strip_prefix('j') {
                if let Some(v) = self.cond(m, cc) {
                    m.ctrl |= v.t;
                    if let Oper::Label(l) = &ops[0] {
                        return Ok(if v.v != 0 { Step::Jump(l.clone()) } else { Step::Next });
                    }
                }
            }
        }
        match mn {
            "nop" | "pause" | "endbr64" | "endbr32" | "wait" | "fwait" => Ok(Step::Next),
            "jmp" => match &ops[0] {
                Oper::Label(l) => Ok(Step::Jump(l.clone())),
                _ => eng("jmp"),
            },
            "mfence" | "sfence" | "lfence" => {
                if c.phase == 0 {
                    let k = match mn {
                        "mfence" => FENCE_MFENCE,
                        "sfence" => FENCE_SFENCE,
                        _ => FENCE_LFENCE,
                    };
                    return memreq(Mo::Fence(k), TV::k(0), 0, 0);
                }
                Ok(Step::Next)
            }
            "cld" => {
                m.set_raw(DF, TV::k(0));
                Ok(Step::Next)
            }
            "std" => {
                m.set_raw(DF, TV::k(1));
                Ok(Step::Next)
            }
            "clc" | "stc" => {
                m.set_raw(CF, TV::k((mn == "stc") as u128));
                Ok(Step::Next)
            }
            "prefetcht0" | "prefetcht1" | "prefetcht2" | "prefetchnta" | "prefetchw" | "emms" | "vzeroupper" | "serialize" => Ok(Step::Next),
            "movnti" => {
                let o @ Oper::Mem { size, .. } = &ops[0] else { return eng(i.text.clone()) };
                if c.phase == 0 {
                    let v = rdo(m, &ops[1], size * 8)?;
                    return memreq(Mo::Store(v), self.addr(m, o)?, *size, NT);
                }
                Ok(Step::Next)
            }
            "mov" | "movabs" => match (&ops[0], &ops[1]) {
                (Oper::Reg(r, off, w), o @ Oper::Mem { size, .. }) => {
                    if c.phase == 0 {
                        return memreq(Mo::Load, self.addr(m, o)?, *size, 0);
                    }
                    self.wr(m, *r, *off, *w, c.resp.unwrap());
                    Ok(Step::Next)
                }
                (o @ Oper::Mem { size, .. }, s) => {
                    if c.phase == 0 {
                        let v = rdo(m, s, size * 8)?;
                        return memreq(Mo::Store(v), self.addr(m, o)?, *size, 0);
                    }
                    Ok(Step::Next)
                }
                (Oper::Reg(r, off, w), s) => {
                    if let Oper::Reg(_, _, w2) = s {
                        if w2 != w {
                            return eng(format!("mov width mismatch {}", i.text));
                        }
                    }
                    let v = rdo(m, s, *w)?;
                    self.wr(m, *r, *off, *w, v);
                    Ok(Step::Next)
                }
                _ => eng("mov"),
            },
            "movzx" | "movsx" | "movsxd" => {
                let (v, sw) = match &ops[1] {
                    o @ Oper::Mem { size, .. } => {
                        if c.phase == 0 {
                            return memreq(Mo::Load, self.addr(m, o)?, *size, 0);
                        }
                        (c.resp.unwrap(), size * 8)
                    }
                    o => (rdo(m, o, 0)?, width(o)),
                };
                if let Oper::Reg(r, off, w) = &ops[0] {
                    let v = if mn == "movzx" { v } else { v.map(|x| sext(x, sw) as u128) };
                    self.wr(m, *r, *off, *w, v.mask(*w));
                }
                Ok(Step::Next)
            }
            "lea" => {
                let a = self.addr(m, &ops[1])?;
                if let Oper::Reg(r, off, w) = &ops[0] {
                    self.wr(m, *r, *off, *w, a.mask(*w));
                }
                Ok(Step::Next)
            }
            "bswap" => {
                if let Oper::Reg(r, off, w) = &ops[0] {
                    let v = self.rd(m, *r, *off, *w);
                    let n = *w;
                    self.wr(m, *r, *off, n, v.map(|x| if n == 64 { (x as u64).swap_bytes() as u128 } else { (x as u32).swap_bytes() as u128 }));
                }
                Ok(Step::Next)
            }
            "xchg" => {
                let (mo, ro) = match (&ops[0], &ops[1]) {
                    (a @ Oper::Mem { .. }, b) => (a, b),
                    (a, b @ Oper::Mem { .. }) => (b, a),
                    (Oper::Reg(r1, o1, w1), Oper::Reg(r2, o2, w2)) => {
                        if w1 != w2 {
                            return eng("xchg widths");
                        }
                        let a = self.rd(m, *r1, *o1, *w1);
                        let b = self.rd(m, *r2, *o2, *w2);
                        self.wr(m, *r1, *o1, *w1, b);
                        self.wr(m, *r2, *o2, *w2, a);
                        return Ok(Step::Next);
                    }
                    _ => return eng("xchg"),
                };
                let Oper::Mem { size, .. } = mo else { unreachable!() };
                if c.phase == 0 {
                    let v = rdo(m, ro, size * 8)?;
                    return memreq(Mo::Rmw { k: Rk::Swap, val: v, cmp: TV::k(0), wb_on_fail: true }, self.addr(m, mo)?, *size, lockf);
                }
                if let Oper::Reg(r, off, w) = ro {
                    self.wr(m, *r, *off, *w, c.resp.unwrap());
                }
                Ok(Step::Next)
            }
            "cmpxchg" => {
                let w = width(&ops[1]);
                let acc = self.rd(m, AX, 0, w);
                let new = rdo(m, &ops[1], w)?;
                let fin = |m: &mut AsmState, old: TV| -> FR<bool> {
                    self.alu(m, "cmp", acc, old, w)?;
                    let eq = acc.v == old.v;
                    if !eq {
                        self.wr(m, AX, 0, w, TV { v: old.v, t: old.t | acc.t });
                    } else {
                        let a = self.rd(m, AX, 0, w);
                        // value is unchanged but now depends on the comparison
                        let full = m.get_raw(AX).unwrap();
                        m.set_raw(AX, TV { v: full.v, t: full.t | a.t | old.t });
                    }
                    Ok(eq)
                };
                match &ops[0] {
                    o @ Oper::Mem { size, .. } => {
                        let addr = self.addr(m, o)?;
                        if lock {
                            if c.phase == 0 {
                                return memreq(Mo::Rmw { k: Rk::Cas, val: new, cmp: acc, wb_on_fail: true }, addr, *size, lockf);
                            }
                            fin(m, c.resp.unwrap())?;
                            Ok(Step::Next)
                        } else {
                            match c.phase {
                                0 => memreq(Mo::Load, addr, *size, 0),
                                1 => {
                                    let old = c.resp.unwrap();
                                    m.tmp[0] = old;
                                    let st = if old.v == acc.v { new } else { old };
                                    memreq(Mo::Store(st), addr, *size, 0)
                                }
                                _ => {
                                    let old = m.tmp[0];
                                    m.tmp[0] = TV::default();
                                    fin(m, old)?;
                                    Ok(Step::Next)
                                }
                            }
                        }
                    }
                    Oper::Reg(r, off, w) => {
                        let old = self.rd(m, *r, *off, *w);
                        if fin(m, old)? {
                            self.wr(m, *r, *off, *w, new);
                        }
                        Ok(Step::Next)
                    }
                    _ => eng("cmpxchg"),
                }
            }
            "cmpxchg8b" | "cmpxchg16b" => {
                let h = if mn == "cmpxchg8b" { 32 } else { 64 };
                if h == 64 && !self.long {
                    return Err(Fault::Ub("cmpxchg16b in 32-bit mode".into()));
                }
                let o = &ops[0];
                let addr = self.addr(m, o)?;
                let pair = |m: &AsmState, hi: RegId, lo: RegId| {
                    let a = self.rd(m, hi, 0, h);
                    let b = self.rd(m, lo, 0, h);
                    TV { v: (a.v << h) | b.v, t: a.t | b.t }
                };
                let cmp = pair(m, DX, AX);
                let new = pair(m, CX, BX);
                let sz = h / 4;
                if h == 64 && addr.v % 16 != 0 {
                    return Err(Fault::Mem("cmpxchg16b on misaligned address (#GP)".into()));
                }
                let fin = |m: &mut AsmState, old: TV| {
                    let eq = old.v == cmp.v;
                    m.set_raw(ZF, TV { v: eq as u128, t: old.t | cmp.t });
                    let t = old.t | cmp.t;
                    self.wr(m, DX, 0, h, TV { v: old.v >> h, t });
                    self.wr(m, AX, 0, h, TV { v: old.v & mask(h), t });
                };
                if lock {
                    if c.phase == 0 {
                        return memreq(Mo::Rmw { k: Rk::Cas, val: new, cmp, wb_on_fail: true }, addr, sz, lockf);
                    }
                    fin(m, c.resp.unwrap());
                    Ok(Step::Next)
                } else {
                    match c.phase {
                        0 => memreq(Mo::Load, addr, sz, BIGPIECE),
                        1 => {
                            let old = c.resp.unwrap();
                            m.tmp[0] = old;
                            let st = if old.v == cmp.v { new } else { old };
                            memreq(Mo::Store(st), addr, sz, BIGPIECE)
                        }
                        _ => {
                            let old = m.tmp[0];
                            m.tmp[0] = TV::default();
                            fin(m, old);
                            Ok(Step::Next)
                        }
                    }
                }
            }
            "add" | "sub" | "and" | "or" | "xor" | "adc" | "sbb" | "cmp" | "test" | "inc" | "dec" | "neg" | "not" | "shl" | "sal" | "shr" | "sar" | "rol" | "ror" | "xadd" => {
                let w = width(&ops[0]).max(if matches!(ops[0], Oper::Imm(_)) { 0 } else { 8 });
                let writes = mn != "cmp" && mn != "test";
                match (&ops[0], ops.get(1)) {
                    (o @ Oper::Mem { size, .. }, src) => {
                        let addr = self.addr(m, o)?;
                        let b = match src {
                            Some(s) => {
                                let v = rdo(m, s, w)?;
                                // imm8/imm32 sign extension is already done by masking to width
                                v
                            }
                            None => TV::k(1),
                        };
                        if lock && writes {
                            let (k, val) = match mn {
                                "add" | "xadd" => (Rk::Add, b),
                                "sub" => (Rk::Sub, b),
                                "and" => (Rk::And, b),
                                "or" => (Rk::Or, b),
                                "xor" => (Rk::Xor, b),
                                "inc" => (Rk::Add, TV::k(1)),
                                "dec" => (Rk::Sub, TV::k(1)),
                                "not" => (Rk::Xor, TV::k(mask(w))),
                                _ => return eng(format!("lock {mn}")),
                            };
                            if c.phase == 0 {
                                return memreq(Mo::Rmw { k, val, cmp: TV::k(0), wb_on_fail: true }, addr, *size, lockf);
                            }
                            let old = c.resp.unwrap();
                            if mn != "not" {
                                self.alu(m, mn, old, val, w)?;
                            }
                            if mn == "xadd" {
                                if let Some(Oper::Reg(r, off, w)) = src {
                                    self.wr(m, *r, *off, *w, old);
                                }
                            }
                            return Ok(Step::Next);
                        }
                        match c.phase {
                            0 => memreq(Mo::Load, addr, *size, 0),
                            1 => {
                                let old = c.resp.unwrap();
                                let r = self.alu(m, mn, old, b, w)?;
                                if !writes {
                                    return Ok(Step::Next);
                                }
                                if mn == "xadd" {
                                    if let Some(Oper::Reg(r, off, w)) = src {
                                        self.wr(m, *r, *off, *w, old);
                                    }
                                }
                                memreq(Mo::Store(r), addr, *size, 0)
                            }
                            _ => Ok(Step::Next),
                        }
                    }
                    (Oper::Reg(r, off, w), Some(o @ Oper::Mem { size, .. })) => {
                        if c.phase == 0 {
                            return memreq(Mo::Load, self.addr(m, o)?, *size, 0);
                        }
                        let a = self.rd(m, *r, *off, *w);
                        let v = self.alu(m, mn, a, c.resp.unwrap(), *w)?;
                        if writes {
                            self.wr(m, *r, *off, *w, v);
                        }
                        Ok(Step::Next)
                    }
                    (Oper::Reg(r, off, w), src) => {
                        let a = self.rd(m, *r, *off, *w);
                        let b = match src {
                            Some(Oper::Reg(r2, o2, w2)) => {
                                // xor/sub of a register with itself does not depend on it
                                if r2 == r && o2 == off && (mn == "xor" || mn == "sub") {
                                    let z = TV { v: a.v, t: 0 };
                                    let v = self.alu(m, mn, z, z, *w)?;
                                    self.wr(m, *r, *off, *w, v);
                                    return Ok(Step::Next);
                                }
                                self.rd(m, *r2, *o2, *w2)
                            }
                            Some(s) => rdo(m, s, *w)?,
                            None => TV::k(1),
                        };
                        let v = self.alu(m, mn, a, b, *w)?;
                        if mn == "xadd" {
                            if let Some(Oper::Reg(r2, o2, w2)) = src {
                                self.wr(m, *r2, *o2, *w2, a);
                            }
                        }
                        if writes {
                            self.wr(m, *r, *off, *w, v);
                        }
                        Ok(Step::Next)
                    }
                    _ => eng(format!("{}", i.text)),
                }
            }
            // ---- vector moves
            "movq" | "vmovq" | "movd" | "vmovd" | "movlps" | "movlpd" | "vmovlps" | "movsd" | "vmovsd" | "movss" | "vmovss" | "movhps" | "movhpd" => {
                let n = match mn {
                    "movd" | "vmovd" | "movss" | "vmovss" => 32,
                    _ => 64,
                };
                let hi = mn == "movhps" || mn == "movhpd";
                match (&ops[0], &ops[ops.len() - 1]) {
                    (Oper::Reg(r, off, w), o @ Oper::Mem { size, .. }) => {
                        if c.phase == 0 {
                            if *size * 8 != n {
                                return eng(format!("size in {}", i.text));
                            }
                            return memreq(Mo::Load, self.addr(m, o)?, *size, 0);
                        }
                        let v = c.resp.unwrap();
                        if *r < 16 {
                            self.wr(m, *r, *off, *w, v);
                        } else {
                            let old = m.get_raw(*r).unwrap();
                            let keep = matches!(mn, "movlps" | "movlpd");
                            let nv = if hi {
                                TV { v: (old.v & mask(64)) | (v.v << 64), t: old.t | v.t }
                            } else if keep {
                                TV { v: (old.v & !mask(n)) | v.v, t: old.t | v.t }
                            } else {
                                v
                            };
                            m.set_raw(*r, nv);
                        }
                        Ok(Step::Next)
                    }
                    (o @ Oper::Mem { size, .. }, Oper::Reg(r, off, w)) => {
                        if c.phase == 0 {
                            if *size * 8 != n {
                                return eng(format!("size in {}", i.text));
                            }
                            let v = if *r < 16 { self.rd(m, *r, *off, *w) } else { self.rd(m, *r, if hi { 64 } else { 0 }, n) };
                            return memreq(Mo::Store(v), self.addr(m, o)?, *size, 0);
                        }
                        Ok(Step::Next)
                    }
                    (Oper::Reg(r1, o1, w1), Oper::Reg(r2, o2, w2)) => {
                        let v = if *r2 < 16 { self.rd(m, *r2, *o2, *w2) } else { self.rd(m, *r2, 0, n) };
                        if *r1 < 16 {
                            self.wr(m, *r1, *o1, *w1, v);
                        } else if matches!(mn, "movsd" | "movss") {
                            let old = m.get_raw(*r1).unwrap();
                            m.set_raw(*r1, TV { v: (old.v & !mask(n)) | v.v, t: old.t | v.t });
                        } else {
                            m.set_raw(*r1, v.mask(n));
                        }
                        Ok(Step::Next)
                    }
                    _ => eng(i.text.clone()),
                }
            }
            "movaps" | "movups" | "movdqa" | "movdqu" | "movapd" | "movupd" | "vmovaps" | "vmovups" | "vmovdqa" | "vmovdqu" | "lddqu" => {
                let al = mn.contains('a') && mn != "lddqu" && !mn.contains("up");
                match (&ops[0], &ops[1]) {
                    (Oper::Reg(r, _, _), o @ Oper::Mem { .. }) => {
                        let a = self.addr(m, o)?;
                        if al && a.v % 16 != 0 {
                            return Err(Fault::Mem("misaligned 16-byte vector access".into()));
                        }
                        match c.phase {
                            0 => memreq(Mo::Load, a, 8, 0),
                            1 => {
                                m.tmp[0] = c.resp.unwrap();
                                memreq(Mo::Load, a.map(|x| x + 8), 8, 0)
                            }
                            _ => {
                                let v = m.tmp[0].op(c.resp.unwrap(), |l, h| l | (h << 64));
                                m.tmp[0] = TV::default();
                                m.set_raw(*r, v);
                                Ok(Step::Next)
                            }
                        }
                    }
                    (o @ Oper::Mem { .. }, Oper::Reg(r, _, _)) => {
                        let a = self.addr(m, o)?;
                        if al && a.v % 16 != 0 {
                            return Err(Fault::Mem("misaligned 16-byte vector access".into()));
                        }
                        let v = m.get_raw(*r).unwrap();
                        match c.phase {
                            0 => memreq(Mo::Store(v.mask(64)), a, 8, 0),
                            1 => memreq(Mo::Store(v.map(|x| x >> 64)), a.map(|x| x + 8), 8, 0),
                            _ => Ok(Step::Next),
                        }
                    }
                    (Oper::Reg(r1, _, _), Oper::Reg(r2, _, _)) => {
                        let v = m.get_raw(*r2).unwrap();
                        m.set_raw(*r1, v);
                        Ok(Step::Next)
                    }
                    _ => eng(i.text.clone()),
                }
            }
            "xorps" | "pxor" | "xorpd" | "orps" | "por" | "andps" | "pand" => {
                if let (Oper::Reg(a, _, _), Oper::Reg(b, _, _)) = (&ops[0], &ops[1]) {
                    let (x, y) = (m.get_raw(*a).unwrap(), m.get_raw(*b).unwrap());
                    let v = if a == b && mn.contains("xor") {
                        TV::k(0)
                    } else {
                        x.op(y, |p, q| if mn.contains("xor") { p ^ q } else if mn.contains("or") { p | q } else { p & q })
                    };
                    m.set_raw(*a, v);
                    return Ok(Step::Next);
                }
                eng(i.text.clone())
            }
            "pshufd" | "shufps" | "punpckldq" | "punpcklqdq" | "unpcklps" | "movhlps" | "movlhps" | "psrlq" | "psrldq" => {
                let n = match ops.last() {
                    Some(Oper::Imm(n)) => *n as u32,
                    _ => 0,
                };
                let (Oper::Reg(d, _, _), src) = (&ops[0], &ops[1]) else { return eng(i.text.clone()) };
                let a = m.get_raw(*d).unwrap();
                let b = match src {
                    Oper::Reg(s, _, _) => m.get_raw(*s).unwrap(),
                    _ => a,
                };
                let lane = |v: u128, k: u32| (v >> (32 * (k & 3))) & mask(32);
                let pack = |l: [u128; 4]| l[0] | l[1] << 32 | l[2] << 64 | l[3] << 96;
                let v = a.op(b, |x, y| match mn {
                    "pshufd" => pack([0, 2, 4, 6].map(|s| lane(y, n >> s))),
                    "shufps" => pack([lane(x, n), lane(x, n >> 2), lane(y, n >> 4), lane(y, n >> 6)]),
                    "punpckldq" | "unpcklps" => pack([lane(x, 0), lane(y, 0), lane(x, 1), lane(y, 1)]),
                    "punpcklqdq" | "movlhps" => (x & mask(64)) | (y & mask(64)) << 64,
                    "movhlps" => (x & !mask(64)) | y >> 64,
                    "psrlq" => {
                        if n > 63 { 0 } else { ((x >> 64) >> n) << 64 | ((x & mask(64)) >> n) }
                    }
                    _ => {
                        if n > 15 { 0 } else { x >> (8 * n) }
                    }
                });
                m.set_raw(*d, v);
                Ok(Step::Next)
            }
            // ---- x87
            "fild" | "fld" => {
                let Oper::Mem { size, .. } = &ops[0] else { return eng(i.text.clone()) };
                if c.phase == 0 {
                    return memreq(Mo::Load, self.addr(m, &ops[0])?, *size, 0);
                }
                let r = c.resp.unwrap();
                let v = if mn == "fild" {
                    (sext(r.v, size * 8) as u128 & mask(64)) | TAG_INT
                } else {
                    match size {
                        8 => quiet64(r.v as u64) as u128 | TAG_F64,
                        4 => {
                            let f = f32::from_bits(r.v as u32);
                            (if f.is_nan() { r.v as u32 | (1 << 22) } else { r.v as u32 }) as u128 | TAG_F32
                        }
                        _ => (r.v & mask(80)) | TAG_F80,
                    }
                };
                self.st_push(m, TV { v, t: r.t })?;
                Ok(Step::Next)
            }
            "fistp" | "fist" | "fstp" | "fst" | "fisttp" => {
                let Oper::Mem { size, .. } = &ops[0] else {
                    // fstp st(0): pop
                    if mn == "fstp" {
                        self.st_top(m)?;
                        self.st_pop(m);
                        return Ok(Step::Next);
                    }
                    return eng(i.text.clone());
                };
                let top = self.st_top(m)?;
                if c.phase == 0 {
                    let v = if mn.starts_with("fi") {
                        x87_to_int(top.v, size * 8)
                    } else {
                        match size {
                            8 => x87_to_f64(top.v) as u128,
                            4 => (f64::from_bits(x87_to_f64(top.v)) as f32).to_bits() as u128,
                            _ => return eng("fstp tbyte"),
                        }
                    };
                    return memreq(Mo::Store(TV { v, t: top.t }), self.addr(m, &ops[0])?, *size, 0);
                }
                if mn.ends_with('p') {
                    self.st_pop(m);
                }
                Ok(Step::Next)
            }
            "push" | "pop" | "pushfd" | "pushfq" | "popfd" | "popfq" | "pushf" | "popf" => {
                let n = if self.long { 8u32 } else { 4 };
                let wbits = n * 8;
                let sp = self.rd(m, SP, 0, wbits);
                if mn.starts_with("push") {
                    if c.phase == 0 {
                        let v = if ops.is_empty() {
                            let mut f = 2u128;
                            for (r, b) in [(CF, 0), (PF, 2), (AF, 4), (ZF, 6), (SF, 7), (DF, 10), (OF, 11)] {
                                f |= (m.get_raw(r).unwrap().v & 1) << b;
                            }
                            TV::k(f)
                        } else {
                            rdo(m, &ops[0], wbits)?
                        };
                        return memreq(Mo::Store(v), sp.map(|x| x.wrapping_sub(n as u128)), n, 0);
                    }
                    self.wr(m, SP, 0, wbits, sp.map(|x| x.wrapping_sub(n as u128)));
                    Ok(Step::Next)
                } else {
                    if c.phase == 0 {
                        return memreq(Mo::Load, sp, n, 0);
                    }
                    let v = c.resp.unwrap();
                    self.wr(m, SP, 0, wbits, sp.map(|x| x.wrapping_add(n as u128)));
                    if ops.is_empty() {
                        for (r, b) in [(CF, 0), (PF, 2), (AF, 4), (ZF, 6), (SF, 7), (DF, 10), (OF, 11)] {
                            m.set_raw(r, v.map(|x| (x >> b) & 1));
                        }
                    } else if let Oper::Reg(r, off, w) = &ops[0] {
                        self.wr(m, *r, *off, *w, v);
                    }
                    Ok(Step::Next)
                }
            }
            "lahf" | "sahf" => {
                if mn == "lahf" {
                    let mut f = 2u128;
                    for (r, b) in [(CF, 0), (PF, 2), (AF, 4), (ZF, 6), (SF, 7)] {
                        f |= (m.get_raw(r).unwrap().v & 1) << b;
                    }
                    self.wr(m, AX, 8, 8, TV::k(f));
                } else {
                    let v = self.rd(m, AX, 8, 8);
                    for (r, b) in [(CF, 0), (PF, 2), (AF, 4), (ZF, 6), (SF, 7)] {
                        m.set_raw(r, v.map(|x| (x >> b) & 1));
                    }
                }
                Ok(Step::Next)
            }
            "cdq" | "cqo" | "cwd" => {
                let w = match mn {
                    "cdq" => 32,
                    "cqo" => 64,
                    _ => 16,
                };
                let a = self.rd(m, AX, 0, w);
                self.wr(m, DX, 0, w, a.map(|x| if (x >> (w - 1)) & 1 == 1 { mask(w) } else { 0 }));
                Ok(Step::Next)
            }
            "ud2" => Err(Fault::Ub("ud2".into())),
            _ => eng(format!("x86 instruction not modelled: {}", i.text)),
        }
    }
}
