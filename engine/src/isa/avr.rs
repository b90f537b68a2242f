//! AVR. Single core; shared memory is accessed by interrupt handlers and preempting threads.
use super::util::*;
use crate::asm::*;

pub struct Avr;

const SREG: RegId = 32; // C 1, Z 2, N 4, V 8, S 16, H 32, T 64, I 128
const SP: RegId = 33;

fn regn(n: &str) -> Option<RegId> {
    let k: RegId = n.strip_prefix('r')?.parse().ok()?;
    (k < 32).then_some(k)
}
fn ptr(n: &str) -> Option<RegId> {
    match n {
        "x" => Some(26),
        "y" => Some(28),
        "z" => Some(30),
        _ => None,
    }
}
fn pget(m: &AsmState, r: RegId) -> TV {
    concat(m.get(r + 1).mask(8), m.get(r).mask(8), 8)
}
fn pset(m: &mut AsmState, r: RegId, v: TV) {
    set(m, r, 8, v);
    set(m, r + 1, 8, v.map(|x| x >> 8));
}
/// replaces the flags in `which`
fn fl(m: &mut AsmState, which: u128, f: TV) {
    let o = m.get(SREG);
    let f = f.map(|f| {
        let f = f & 0xf;
        f | (f >> 2 ^ f >> 3) << 4 & 16
    });
    m.set_raw(SREG, o.op(f, |o, f| o & !which | f & which));
}
fn nz(v: u128) -> u128 {
    ((v & 0xff == 0) as u128) << 1 | (v >> 7 & 1) << 2
}

impl Isa for Avr {
    fn name(&self) -> &'static str {
        "avr"
    }
    fn tick_each(&self) -> bool {
        true
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        if r == SP { 16 } else { 8 }
    }
    fn reg_name(&self, r: RegId) -> String {
        match r {
            SREG => "sreg".into(),
            SP => "sp".into(),
            _ => format!("r{r}"),
        }
    }
    fn class(&self, c: &str, bits: u32) -> Option<ClassInfo> {
        let ok = |r: &RegId| !(28..30).contains(r) && (bits <= 8 || r % 2 == 0);
        let regs: Vec<RegId> = match c {
            "r" => (2..32).filter(ok).collect(),
            "d" => (16..32).filter(ok).collect(),
            "l" => (2..16).filter(ok).collect(),
            "w" => (24..32).filter(ok).collect(),
            "e" => vec![26, 30],
            "b" => vec![30],
            _ => return None,
        };
        Some(ClassInfo { regs, bits: if bits <= 8 { 8 } else { 16 } })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        let n = n.to_ascii_lowercase();
        if n == "sreg" {
            return Some(vec![SREG]);
        }
        if let Some(p) = ptr(&n) {
            return Some(vec![p, p + 1]);
        }
        // pairs are written high byte first
        if let Some(i) = n[1..].find('r') {
            let lo = regn(&n[i + 1..])?;
            return Some(vec![lo, lo + 1]);
        }
        regn(&n).map(|r| vec![r])
    }
    fn pair(&self, r: RegId, bits: u32) -> Option<Vec<RegId>> {
        (bits > 8 && bits <= 16 && r < 32).then(|| vec![r, r + 1])
    }
    fn format(&self, r: RegId, md: Option<char>, bits: u32) -> Result<String, String> {
        match md {
            None if bits > 8 => Ok(match r {
                26 => "X".into(),
                28 => "Y".into(),
                30 => "Z".into(),
                _ => self.reg_name(r),
            }),
            None => Ok(self.reg_name(r)),
            Some('A') => Ok(self.reg_name(r)),
            Some('B') => Ok(self.reg_name(r + 1)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with(';') || l.starts_with("//")
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for t in split_ops(rest) {
            let t = t.trim();
            let (core, pre, post) = match (t.strip_prefix('-'), t.strip_suffix('+')) {
                (Some(x), _) => (x, true, false),
                (_, Some(x)) => (x, false, true),
                _ => (t, false, false),
            };
            if let Some(r) = regn(t) {
                ops.push(Oper::Reg(r, 0, 8));
            } else if let Some(p) = ptr(core) {
                ops.push(Oper::Mem { base: Some((p, 16)), index: None, scale: 1, disp: 0, size: 0, extra: if pre { 2 } else { post as u32 as _ } });
            } else if let Some((p, d)) = t.split_once('+').and_then(|(p, d)| Some((ptr(p.trim())?, parse_imm(d)?))) {
                ops.push(Oper::Mem { base: Some((p, 16)), index: None, scale: 1, disp: d, size: 0, extra: 0 });
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![SREG]
    }
    fn sp(&self) -> Option<RegId> {
        Some(SP)
    }
    fn red_zone(&self) -> bool {
        false
    }
    fn all_regs(&self) -> Vec<RegId> {
        (0..34).collect()
    }
    fn scratch_regs(&self) -> Vec<RegId> {
        vec![0]
    }
    fn entry_value(&self, r: RegId) -> Option<u128> {
        (r == 1).then_some(0)
    }
    fn exit_value(&self, r: RegId) -> Option<u128> {
        (r == 1).then_some(0)
    }
    fn asm_entry(&self, st: &mut AsmState, iflag: u8) {
        st.set_raw(SREG, TV::k(st.get(SREG).v & 0x7f | if iflag != 0 { 0x80 } else { 0 }));
    }
    fn asm_iflag(&self, st: &AsmState, _old: u8) -> u8 {
        (st.get(SREG).v >> 7 & 1) as u8
    }
    fn switches_interrupts(&self, tmpl: &str) -> bool {
        self.lines(tmpl).iter().any(|l| ["cli", "sei", "out", "bset", "bclr"].iter().any(|x| l.split_whitespace().next() == Some(x)))
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        if let ([Oper::Label(_)], Some(cc)) = (&i.ops[..], i.mn.strip_prefix("br")) {
            let bit = |b: u128, want: bool| m.get(SREG).map(|x| ((x & b != 0) == want) as u128);
            let t = match cc {
                "eq" => bit(2, true),
                "ne" => bit(2, false),
                "cs" | "lo" => bit(1, true),
                "cc" | "sh" => bit(1, false),
                "mi" => bit(4, true),
                "pl" => bit(4, false),
                "ge" => bit(16, false),
                "lt" => bit(16, true),
                "ie" => bit(128, true),
                "id" => bit(128, false),
                "ts" => bit(64, true),
                "tc" => bit(64, false),
                _ => return unk(i),
            };
            return jump_if(m, i, 0, t);
        }
        match (i.mn.as_str(), &i.ops[..]) {
            ("nop", []) => {}
            ("rjmp" | "jmp", [Oper::Label(_)]) => return jump_if(m, i, 0, TV::k(1)),
            ("cli" | "sei" | "clt" | "set" | "clc" | "sec" | "clz" | "sez", []) => {
                let b = match &i.mn[2..] {
                    "i" => 128,
                    "t" => 64,
                    "c" => 1,
                    _ => 2,
                };
                let on = i.mn.starts_with("se");
                let o = m.get(SREG);
                m.set_raw(SREG, o.map(|x| if on { x | b } else { x & !b }));
            }
            ("in", [Oper::Reg(d, ..), Oper::Imm(0x3f)]) => {
                let v = m.get(SREG);
                set(m, *d, 8, v);
            }
            ("out", [Oper::Imm(0x3f), Oper::Reg(s, ..)]) => {
                let v = get(m, *s, 8);
                m.set_raw(SREG, v);
            }
            ("mov", [Oper::Reg(d, ..), Oper::Reg(s, ..)]) => {
                let v = get(m, *s, 8);
                set(m, *d, 8, v);
            }
            ("movw", [Oper::Reg(d, ..), Oper::Reg(s, ..)]) if d % 2 == 0 && s % 2 == 0 => {
                let v = pget(m, *s);
                pset(m, *d, v);
            }
            ("ldi", [Oper::Reg(d @ 16.., ..), Oper::Imm(v)]) => set(m, *d, 8, TV::k(*v as u128 & 0xff)),
            ("eor" | "and" | "or", [Oper::Reg(d, ..), Oper::Reg(s, ..)]) => {
                let v = get(m, *d, 8).op(get(m, *s, 8), |x, y| match i.mn.as_str() {
                    "eor" => x ^ y,
                    "and" => x & y,
                    _ => x | y,
                });
                set(m, *d, 8, v);
                fl(m, 0x1e, v.map(nz));
            }
            ("andi" | "ori", [Oper::Reg(d @ 16.., ..), Oper::Imm(k)]) => {
                let k = *k as u128 & 0xff;
                let v = get(m, *d, 8).map(|x| if i.mn == "andi" { x & k } else { x | k });
                set(m, *d, 8, v);
                fl(m, 0x1e, v.map(nz));
            }
            ("clr", [Oper::Reg(d, ..)]) => {
                set(m, *d, 8, TV::k(0));
                fl(m, 0x1e, TV::k(2));
            }
            ("tst", [Oper::Reg(d, ..)]) => {
                let v = get(m, *d, 8);
                fl(m, 0x1e, v.map(nz));
            }
            ("com", [Oper::Reg(d, ..)]) => {
                let v = get(m, *d, 8).map(|x| !x & 0xff);
                set(m, *d, 8, v);
                fl(m, 0x1f, v.map(|v| nz(v) | 1));
            }
            ("cp" | "cpc" | "sub" | "sbc" | "cpi" | "subi", [Oper::Reg(d, ..), s]) => {
                let s = match s {
                    Oper::Reg(s, ..) => get(m, *s, 8),
                    Oper::Imm(k) if *d >= 16 => TV::k(*k as u128 & 0xff),
                    _ => return unk(i),
                };
                let carry = matches!(i.mn.as_str(), "cpc" | "sbc");
                let o = m.get(SREG);
                let s9 = if carry { s.op(o, |s, o| s + (o & 1)) } else { s };
                let dv = get(m, *d, 8);
                let r = dv.op(s9, |d, s| d.wrapping_sub(s) & 0xff);
                let cf = dv.op(s9, |d, s| (d < s) as u128);
                let vf = dv.op(s, |d, s| d ^ s).op(dv.op(r, |d, r| d ^ r), |a, b| (a & b) >> 7 & 1);
                let z = r.op(o, |r, o| if carry { ((r == 0 && o & 2 != 0) as u128) << 1 } else { ((r == 0) as u128) << 1 });
                let f = r.map(|r| (r >> 7 & 1) << 2).op(z, |a, b| a | b).op(cf, |a, b| a | b).op(vf, |a, b| a | b << 3);
                if matches!(i.mn.as_str(), "sub" | "sbc" | "subi") {
                    set(m, *d, 8, r);
                }
                // the half-carry flag is left arbitrary
                let h = m.get(SREG);
                m.set_raw(SREG, h.map(|x| x ^ 32));
                fl(m, 0x1f, f);
            }
            ("ld" | "ldd", [Oper::Reg(d, ..), Oper::Mem { base: Some((p, _)), disp, extra, .. }]) | ("st" | "std", [Oper::Mem { base: Some((p, _)), disp, extra, .. }, Oper::Reg(d, ..)]) => {
                let (ex, disp) = (*extra as u32, *disp as u128);
                let pre = if ex == 2 { 1u128 } else { 0 };
                let a = pget(m, *p).map(|x| x.wrapping_sub(pre).wrapping_add(disp) & 0xffff);
                let st = i.mn.starts_with("st");
                if c.phase == 0 {
                    return mem(if st { Mo::Store(get(m, *d, 8)) } else { Mo::Load }, a, 1, 0);
                }
                if ex != 0 {
                    pset(m, *p, if ex == 2 { a } else { a.map(|x| x.wrapping_add(1) & 0xffff) });
                }
                if !st {
                    set(m, *d, 8, c.resp.unwrap());
                }
            }
            ("push", [Oper::Reg(r, ..)]) => {
                // post-decrement
                let sp = m.get(SP);
                if c.phase == 0 {
                    return mem(Mo::Store(get(m, *r, 8)), sp.map(|x| x.wrapping_sub(1) & 0xffff), 1, 0);
                }
                m.set_raw(SP, sp.map(|x| x.wrapping_sub(1) & 0xffff));
            }
            ("pop", [Oper::Reg(r, ..)]) => {
                let sp = m.get(SP);
                if c.phase == 0 {
                    return mem(Mo::Load, sp, 1, 0);
                }
                m.set_raw(SP, sp.map(|x| x.wrapping_add(1) & 0xffff));
                set(m, *r, 8, c.resp.unwrap());
            }
            _ => return unk(i),
        }
        Ok(Step::Next)
    }
}
