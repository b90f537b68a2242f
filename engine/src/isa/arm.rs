//! 32-bit Arm (A32 and T32), with the Linux kernel's user helpers for pre-v6 cores.
use super::util::*;
use crate::asm::*;

pub struct Arm {
    pub be: bool,
    /// Thumb-1 register class
    pub t1: bool,
    /// M profile
    pub m: bool,
    pub v8: bool,
    pub name: &'static str,
}

const SP: RegId = 13;
const LR: RegId = 14;
const PC: RegId = 15;
const N: RegId = 20;
const Z: RegId = 21;
const C: RegId = 22;
const V: RegId = 23;
/// temporaries of multi-step instructions
const T0: RegId = 24;
const T1: RegId = 25;
/// lr after `mov lr, pc`
const RET: u128 = 0x7EAD_0008;

const KUSER_CMPXCHG: u128 = 0xFFFF0FC0;
const KUSER_BARRIER: u128 = 0xFFFF0FA0;
const KUSER_CMPXCHG64: u128 = 0xFFFF0F60;
pub const KUSER_VERSION: u64 = 0xFFFF0FFC;

fn regn(n: &str) -> Option<RegId> {
    Some(match n {
        "sp" => SP,
        "lr" => LR,
        "pc" => PC,
        "ip" => 12,
        "fp" => 11,
        "sl" => 10,
        "sb" => 9,
        _ => {
            let k: RegId = n.strip_prefix('r')?.parse().ok()?;
            if k > 15 {
                return None;
            }
            k
        }
    })
}

impl Arm {
    fn cond(&self, m: &AsmState, c: &str) -> Option<TV> {
        let f = |r| m.get(r);
        let not = |x: TV| x.map(|v| v ^ 1);
        Some(match c {
            "eq" => f(Z),
            "ne" => not(f(Z)),
            "cs" | "hs" => f(C),
            "cc" | "lo" => not(f(C)),
            "mi" => f(N),
            "pl" => not(f(N)),
            "vs" => f(V),
            "vc" => not(f(V)),
            "hi" => f(C).op(f(Z), |c, z| c & (z ^ 1)),
            "ls" => not(f(C).op(f(Z), |c, z| c & (z ^ 1))),
            "ge" => not(f(N).op(f(V), |a, b| a ^ b)),
            "lt" => f(N).op(f(V), |a, b| a ^ b),
            "gt" => not(f(N).op(f(V), |a, b| a ^ b).op(f(Z), |a, b| a | b)),
            "le" => f(N).op(f(V), |a, b| a ^ b).op(f(Z), |a, b| a | b),
            "al" => TV::k(1),
            _ => return None,
        })
    }
    fn add(&self, m: &mut AsmState, a: TV, b: TV, sub: bool, fl: bool) -> TV {
        let (x, y) = (a.v & mask(32), if sub { !b.v & mask(32) } else { b.v & mask(32) });
        let s = x + y + sub as u128;
        let t = a.t | b.t;
        let r = s & mask(32);
        if fl {
            m.set_raw(N, TV { v: r >> 31 & 1, t });
            m.set_raw(Z, TV { v: (r == 0) as u128, t });
            m.set_raw(C, TV { v: (s >> 32) & 1, t });
            m.set_raw(V, TV { v: ((x ^ r) & (y ^ r)) >> 31 & 1, t });
        }
        TV { v: r, t }
    }
    fn nz(&self, m: &mut AsmState, r: TV) {
        m.set_raw(N, r.map(|v| v >> 31 & 1));
        m.set_raw(Z, r.map(|v| (v & mask(32) == 0) as u128));
    }
    fn src(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(v)) => Ok(TV::k(*v as u128 & mask(32))),
            Some(Oper::Reg(PC, ..)) => unk(i),
            Some(Oper::Reg(r, ..)) => Ok(get(m, *r, 32)),
            _ => unk(i),
        }
    }
    fn pairv(&self, lo: TV, hi: TV) -> TV {
        if self.be { concat(lo, hi, 32) } else { concat(hi, lo, 32) }
    }
    fn split(&self, v: TV) -> (TV, TV) {
        let lo = v.mask(32);
        let hi = v.map(|x| x >> 32).mask(32);
        if self.be { (hi, lo) } else { (lo, hi) }
    }
    /// register pair of the doubleword instructions
    fn pair2(&self, i: &Insn, k: usize) -> FR<(RegId, RegId)> {
        let (a, b) = (reg(i, k)?.0, reg(i, k + 1)?.0);
        if self.t1 || self.m {
            return unk(i);
        }
        if a % 2 != 0 || b != a + 1 || a == LR {
            return ub(i, "register pair must be an even register and the next one");
        }
        Ok((a, b))
    }
    fn kuser(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx, f: u128) -> FR<Step> {
        let j = |m: &mut AsmState, r: RegId, bits: u32| m.set_raw(r, TV::k(crate::asm::junk(90 + r, bits, c.seed)));
        match f {
            KUSER_BARRIER => {
                if c.phase == 0 {
                    return fence(F_ALL | F_FULL);
                }
                Ok(Step::Next)
            }
            KUSER_CMPXCHG => {
                // "This routine already includes memory barriers as needed": smp_dmb on both sides
                match c.phase {
                    0 | 2 => {
                        if c.phase == 2 {
                            m.set_raw(T0, c.resp.unwrap());
                        }
                        return fence(F_ALL | F_FULL);
                    }
                    1 => return mem(cas_of(get(m, 1, 32), get(m, 0, 32)), get(m, 2, 32), 4, LOCK),
                    _ => {}
                }
                let ok = m.get(T0).op(get(m, 0, 32), |a, b| (a & mask(32) == b) as u128);
                m.set_raw(T0, TV::k(0));
                for r in [3, 12] {
                    j(m, r, 32);
                }
                self.done(m, c, ok);
                Ok(Step::Next)
            }
            KUSER_CMPXCHG64 => match c.phase {
                0 => mem(Mo::Load, get(m, 0, 32), 8, 0),
                1 => {
                    m.set_raw(T0, c.resp.unwrap());
                    mem(Mo::Load, get(m, 1, 32), 8, 0)
                }
                2 => {
                    m.set_raw(T1, c.resp.unwrap());
                    fence(F_ALL | F_FULL)
                }
                3 => mem(cas_of(m.get(T1), m.get(T0)), get(m, 2, 32), 8, LOCK),
                4 => {
                    m.set_raw(T1, c.resp.unwrap());
                    fence(F_ALL | F_FULL)
                }
                _ => {
                    let ok = m.get(T1).op(m.get(T0), |a, b| (a & mask(64) == b & mask(64)) as u128);
                    m.set_raw(T0, TV::k(0));
                    m.set_raw(T1, TV::k(0));
                    j(m, 3, 32);
                    self.done(m, c, ok);
                    Ok(Step::Next)
                }
            },
            _ => ub(i, "call to an address that is not a kernel helper"),
        }
    }
    fn done(&self, m: &mut AsmState, c: &AsmCtx, ok: TV) {
        m.set_raw(0, ok.map(|x| if x == 1 { 0 } else { crate::asm::junk(77, 32, c.seed) | 1 }));
        m.set_raw(C, ok);
        m.set_raw(LR, TV::k(crate::asm::junk(78, 32, c.seed)));
        m.set_raw(N, TV::k(crate::asm::junk(79, 1, c.seed)));
        m.set_raw(Z, TV::k(crate::asm::junk(80, 1, c.seed)));
        m.set_raw(V, TV::k(crate::asm::junk(81, 1, c.seed)));
    }
}

fn size_of(s: &str) -> Option<u32> {
    Some(match s {
        "" => 4,
        "b" => 1,
        "h" => 2,
        "d" => 8,
        _ => return None,
    })
}

impl Isa for Arm {
    fn name(&self) -> &'static str {
        self.name
    }
    fn mm(&self) -> Mm {
        if self.v8 { Mm::AArch64 } else { Mm::Arm7 }
    }
    fn addr_bits(&self) -> u32 {
        32
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        match r {
            N..=V => 1,
            T0 | T1 => 64,
            _ => 32,
        }
    }
    fn reg_name(&self, r: RegId) -> String {
        match r {
            SP => "sp".into(),
            LR => "lr".into(),
            PC => "pc".into(),
            N => "N".into(),
            Z => "Z".into(),
            C => "C".into(),
            V => "V".into(),
            _ => format!("r{r}"),
        }
    }
    fn class(&self, c: &str, bits: u32) -> Option<ClassInfo> {
        let regs: Vec<RegId> = match c {
            "r" if self.t1 => (0..7).collect(),
            "r" => (0..13).filter(|r| *r != 11).chain([LR]).collect(),
            "l" => (0..7).collect(),
            _ => return None,
        };
        Some(ClassInfo { regs, bits })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some(r) = regn(n) {
            return Some(vec![r]);
        }
        match n {
            "cc" => Some(vec![N, Z, C, V]),
            _ if n.len() >= 2 && b"sdq".contains(&n.as_bytes()[0]) && n[1..].parse::<u32>().is_ok() => Some(vec![]),
            _ => None,
        }
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with("//") || l.starts_with('@')
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split("//").next().unwrap().split('@').next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if let Some(inner) = t.strip_prefix('[') {
                let inner = inner.strip_suffix(']').ok_or("address writeback")?;
                let p = split_ops(inner);
                let b = regn(p[0].trim()).filter(|b| *b != PC).ok_or("base register")?;
                let mut index = None;
                let mut disp = 0;
                if let Some(d) = p.get(1) {
                    if let Some(v) = parse_imm(d) {
                        disp = v;
                    } else {
                        index = Some((regn(d.trim()).filter(|_| p.len() == 2).ok_or("index register")?, 32));
                    }
                }
                ops.push(Oper::Mem { base: Some((b, 32)), index, scale: 1, disp, size: 0, extra: 0 });
            } else if let Some(r) = regn(t) {
                ops.push(Oper::Reg(r, 0, 32));
            } else if let Some(v) = parse_imm(t).filter(|_| t.starts_with('#') || t.parse::<i64>().is_ok()) {
                ops.push(Oper::Imm(v));
            } else if mn.starts_with('b') && is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                ops.push(Oper::Word(t.to_string()));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![N, Z, C, V]
    }
    fn sp(&self) -> Option<RegId> {
        Some(SP)
    }
    fn all_regs(&self) -> Vec<RegId> {
        (0..15).chain(N..=T1).collect()
    }
    fn scratch_regs(&self) -> Vec<RegId> {
        vec![T0, T1]
    }
    fn zero_regs(&self) -> Vec<RegId> {
        vec![T0, T1]
    }
    fn const_mem(&self, a: u64, n: u64) -> Option<u128> {
        (a == KUSER_VERSION && n == 4).then_some(5)
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let mn0 = i.mn.strip_suffix(".w").unwrap_or(&i.mn);
        let mn = mn0;
        match mn {
            "b" => return Ok(Step::Jump(label(i, 0)?)),
            "nop" | "yield" | "dsb.nop" => return Ok(Step::Next),
            "it" | "ite" | "itt" | "itte" | "ittt" | "itee" => return Ok(Step::Next),
            "cbz" | "cbnz" => {
                let v = get(m, reg(i, 0)?.0, 32).map(|x| ((x == 0) == (mn == "cbz")) as u128);
                return jump_if(m, i, 1, v);
            }
            "clrex" => return if c.phase == 0 { mem(Mo::ClrEx, TV::k(0), 0, 0) } else { Ok(Step::Next) },
            "isb" => return if c.phase == 0 { fence(F_ISYNC) } else { Ok(Step::Next) },
            "dmb" | "dsb" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                let o = match i.ops.first() {
                    None => "sy",
                    Some(Oper::Word(w)) => w.as_str(),
                    _ => return unk(i),
                };
                return match o {
                    "ish" | "osh" | "sy" => fence(F_ALL | F_FULL),
                    "ishst" | "oshst" | "st" => fence(F_PW | F_SW),
                    "ishld" | "oshld" | "ld" if self.v8 => fence(F_PR | F_SR | F_SW),
                    "nsh" | "nshld" | "nshst" | "un" | "unst" => Ok(Step::Next),
                    _ => unk(i),
                };
            }
            "mcr" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                let w = |k: usize| match i.ops.get(k) {
                    Some(Oper::Word(w)) => w.as_str(),
                    _ => "",
                };
                if w(0) != "p15" || imm(i, 1)? != 0 || w(3) != "c7" {
                    return unk(i);
                }
                if get(m, reg(i, 2)?.0, 32).v != 0 {
                    return ub(i, "the register operand of a CP15 barrier must be zero");
                }
                return match (w(4), imm(i, 5)?) {
                    ("c10", 5) | ("c10", 4) => fence(F_ALL | F_FULL),
                    ("c5", 4) => fence(F_ISYNC),
                    _ => unk(i),
                };
            }
            "blx" | "bl" => {
                let f = get(m, reg(i, 0)?.0, 32);
                if c.phase == 0 {
                    m.set_raw(LR, TV::k(crate::asm::junk(78, 32, c.seed)));
                }
                return self.kuser(m, i, c, f.v);
            }
            "bx" => {
                let f = get(m, reg(i, 0)?.0, 32);
                if c.phase == 0 && m.get(LR).v != RET {
                    return ub(i, "jump out of the assembly without a return address");
                }
                let s = self.kuser(m, i, c, f.v)?;
                if matches!(s, Step::Next) {
                    m.set_raw(LR, TV::k(crate::asm::junk(78, 32, c.seed)));
                }
                return Ok(s);
            }
            "ldrd" | "strd" => {
                // two single-copy atomic words, except on cores where an aligned doubleword access is atomic (v8-A)
                let (a, b) = self.pair2(i, 0)?;
                let ad = ea(m, i, 2, 32)?;
                let ad4 = ad.map(|x| x.wrapping_add(4)).mask(32);
                let one = self.v8 && !self.m && ad.v % 8 == 0;
                let ld = mn == "ldrd";
                if one {
                    if c.phase == 0 {
                        return mem(if ld { Mo::Load } else { Mo::Store(self.pairv(get(m, a, 32), get(m, b, 32))) }, ad, 8, 0);
                    }
                    if ld {
                        let (x, y) = self.split(c.resp.unwrap());
                        m.set_raw(a, x);
                        m.set_raw(b, y);
                    }
                    return Ok(Step::Next);
                }
                return match (c.phase, ld) {
                    (0, true) => mem(Mo::Load, ad, 4, 0),
                    (1, true) => {
                        m.set_raw(T0, c.resp.unwrap().mask(32));
                        mem(Mo::Load, ad4, 4, 0)
                    }
                    (_, true) => {
                        m.set_raw(a, m.get(T0));
                        m.set_raw(b, c.resp.unwrap().mask(32));
                        m.set_raw(T0, TV::k(0));
                        Ok(Step::Next)
                    }
                    (0, false) => mem(Mo::Store(get(m, a, 32)), ad, 4, 0),
                    (1, false) => mem(Mo::Store(get(m, b, 32)), ad4, 4, 0),
                    _ => Ok(Step::Next),
                };
            }
            _ => {}
        }
        // conditional branch
        if let Some(cc) = mn.strip_prefix('b').filter(|_| matches!(i.ops.first(), Some(Oper::Label(_)))) {
            if let Some(v) = self.cond(m, cc) {
                return jump_if(m, i, 0, v);
            }
        }
        // exclusives, acquire/release, plain accesses
        for (p, fl, needs8) in [("ldrex", 0, false), ("ldaex", ACQ, true)] {
            if let Some(n) = mn.strip_prefix(p).and_then(size_of).filter(|_| self.v8 || !needs8) {
                let k = if n == 8 { 2 } else { 1 };
                if c.phase == 0 {
                    if n == 8 {
                        self.pair2(i, 0)?;
                    }
                    return mem(Mo::Ll, ea(m, i, k, 32)?, n, fl);
                }
                let v = c.resp.unwrap();
                if n == 8 {
                    let (a, b) = self.pair2(i, 0)?;
                    let (x, y) = self.split(v);
                    m.set_raw(a, x);
                    m.set_raw(b, y);
                } else {
                    set(m, reg(i, 0)?.0, 32, v.mask(n * 8));
                }
                return Ok(Step::Next);
            }
        }
        for (p, fl, needs8) in [("strex", 0, false), ("stlex", REL, true)] {
            if let Some(n) = mn.strip_prefix(p).and_then(size_of).filter(|_| self.v8 || !needs8) {
                let d = reg(i, 0)?.0;
                let k = if n == 8 { 3 } else { 2 };
                if c.phase == 0 {
                    let base = match i.ops.get(k) {
                        Some(Oper::Mem { base: Some((b, _)), .. }) => *b,
                        _ => return unk(i),
                    };
                    let (v, rs) = if n == 8 {
                        let (a, b) = self.pair2(i, 1)?;
                        (self.pairv(get(m, a, 32), get(m, b, 32)), vec![a, b])
                    } else {
                        let a = reg(i, 1)?.0;
                        (get(m, a, 32).mask(n * 8), vec![a])
                    };
                    if d == base || rs.contains(&d) {
                        return ub(i, "status register equals another operand");
                    }
                    return mem(Mo::Sc(v), ea(m, i, k, 32)?, n, fl);
                }
                m.set_raw(d, c.resp.unwrap().map(|x| x ^ 1));
                return Ok(Step::Next);
            }
        }
        for (p, fl, needs8) in [("ldr", 0, false), ("lda", ACQ, true)] {
            let r = mn.strip_prefix(p).filter(|_| self.v8 || !needs8);
            let (r, sg) = match r.and_then(|r| r.strip_prefix('s')).filter(|_| p == "ldr") {
                Some(x) => (Some(x), true),
                None => (r, false),
            };
            if let Some(n) = r.and_then(size_of).filter(|n| *n < 8) {
                if c.phase == 0 {
                    return mem(Mo::Load, ea(m, i, 1, 32)?, n, fl);
                }
                set(m, reg(i, 0)?.0, 32, ext(c.resp.unwrap(), n * 8, sg).mask(32));
                return Ok(Step::Next);
            }
        }
        for (p, fl, needs8) in [("str", 0, false), ("stl", REL, true)] {
            if let Some(n) = mn.strip_prefix(p).and_then(size_of).filter(|n| *n < 8 && (self.v8 || !needs8)) {
                if c.phase == 0 {
                    return mem(Mo::Store(self.src(m, i, 0)?.mask(n * 8)), ea(m, i, 1, 32)?, n, fl);
                }
                return Ok(Step::Next);
            }
        }
        // data processing
        let data = |op: &str| matches!(op, "mov" | "mvn" | "and" | "orr" | "orn" | "eor" | "bic" | "add" | "sub" | "rsb" | "lsl" | "lsr" | "asr" | "ror" | "uxtb" | "uxth" | "sxtb" | "sxth" | "clz" | "neg" | "movw" | "movt");
        let cmp = |op: &str| matches!(op, "cmp" | "cmn" | "tst" | "teq");
        let (op, fl) = if data(mn) {
            (mn, false)
        } else if cmp(mn) {
            (mn, true)
        } else if let Some(b) = mn.strip_suffix('s').filter(|b| data(b)) {
            (b, true)
        } else {
            // a condition suffix
            let (b, cc) = mn.split_at(mn.len().saturating_sub(2));
            let ok = data(b) || cmp(b);
            return match self.cond(m, cc).filter(|_| ok) {
                Some(v) if v.v != 0 => {
                    let mut j = i.clone();
                    j.mn = b.to_string();
                    m.ctrl |= v.t;
                    self.exec(m, &j, c)
                }
                Some(v) => {
                    m.ctrl |= v.t;
                    Ok(Step::Next)
                }
                None => unk(i),
            };
        };
        if cmp(op) {
            let (a, b) = (self.src(m, i, 0)?, self.src(m, i, 1)?);
            if i.ops.len() > 2 {
                return unk(i);
            }
            match op {
                "cmp" => {
                    self.add(m, a, b, true, true);
                }
                "cmn" => {
                    self.add(m, a, b, false, true);
                }
                "tst" => self.nz(m, a.op(b, |x, y| x & y)),
                _ => self.nz(m, a.op(b, |x, y| x ^ y)),
            }
            return Ok(Step::Next);
        }
        let d = reg(i, 0)?.0;
        if d == PC {
            return unk(i);
        }
        if op == "mov" && matches!(i.ops.get(1), Some(Oper::Reg(PC, ..))) {
            if d != LR || fl {
                return unk(i);
            }
            m.set_raw(LR, TV::k(RET));
            return Ok(Step::Next);
        }
        if matches!(op, "mov" | "mvn" | "uxtb" | "uxth" | "sxtb" | "sxth" | "clz" | "neg" | "movw" | "movt") {
            if i.ops.len() > 2 {
                return unk(i);
            }
            let b = self.src(m, i, 1)?;
            let v = match op {
                "mov" | "movw" => b,
                "movt" => get(m, d, 32).op(b, |x, y| x & 0xffff | y << 16),
                "mvn" => b.map(|x| !x),
                "uxtb" => ext(b, 8, false),
                "uxth" => ext(b, 16, false),
                "sxtb" => ext(b, 8, true),
                "sxth" => ext(b, 16, true),
                "clz" => b.map(|x| (x as u32).leading_zeros() as u128),
                _ => self.add(m, TV::k(0), b, true, fl),
            }
            .mask(32);
            m.set_raw(d, v);
            if fl && op != "neg" {
                self.nz(m, v);
            }
            return Ok(Step::Next);
        }
        let (a, b) = match i.ops.len() {
            2 => (get(m, d, 32), self.src(m, i, 1)?),
            3 => (self.src(m, i, 1)?, self.src(m, i, 2)?),
            _ => return unk(i),
        };
        let v = match op {
            "add" => self.add(m, a, b, false, fl),
            "sub" => self.add(m, a, b, true, fl),
            "rsb" => self.add(m, b, a, true, fl),
            _ => {
                let v = a.op(b, |x, y| {
                    let s = (y & 0xff) as u32;
                    match op {
                        "and" => x & y,
                        "orr" => x | y,
                        "orn" => x | !y,
                        "eor" => x ^ y,
                        "bic" => x & !y,
                        "lsl" => if s > 31 { 0 } else { x << s },
                        "lsr" => if s > 31 { 0 } else { (x & mask(32)) >> s },
                        "asr" => (sext(x, 32) >> s.min(31)) as u128,
                        _ => ((x as u32).rotate_right(s & 31)) as u128,
                    }
                });
                let v = v.mask(32);
                if fl {
                    self.nz(m, v);
                    if matches!(op, "lsl" | "lsr" | "asr" | "ror") {
                        // shifter carry: not needed by anything here, left arbitrary
                        m.set_raw(C, TV { v: crate::asm::junk(82, 1, c.seed), t: v.t });
                    }
                }
                v
            }
        };
        m.set_raw(d, v.mask(32));
        Ok(Step::Next)
    }
}
