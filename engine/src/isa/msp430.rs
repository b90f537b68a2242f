//! MSP430. Single core; shared memory is accessed by interrupt handlers and preempting threads.
use super::util::*;
use crate::asm::*;

pub struct Msp430;

const SR: RegId = 2; // C 1, Z 2, N 4, GIE 8, CPUOFF OSCOFF SCG0 SCG1 0xf0, V 0x100
const GIE: u128 = 8;
const CTL: u128 = 0xf0;

fn regn(n: &str) -> Option<RegId> {
    match n {
        "pc" => return Some(0),
        "sp" => return Some(1),
        "sr" => return Some(2),
        "cg" => return Some(3),
        _ => {}
    }
    let k: RegId = n.strip_prefix('r')?.parse().ok()?;
    (k < 16).then_some(k)
}
fn flags(m: &mut AsmState, v: TV, n: u32, c: TV, vf: TV) {
    let o = m.get(SR);
    let f = v.op(c, |v, c| {
        let z = v & mask(n) == 0;
        (c & 1) | (z as u128) << 1 | (v >> (n - 1) & 1) << 2
    });
    let f = f.op(vf, |f, v| f | (v & 1) << 8);
    m.set_raw(SR, o.op(f, |o, f| o & !0x107 | f));
}

impl Isa for Msp430 {
    fn name(&self) -> &'static str {
        "msp430"
    }
    fn tick_each(&self) -> bool {
        true
    }
    fn reg_bits(&self, _r: RegId) -> u32 {
        16
    }
    fn reg_name(&self, r: RegId) -> String {
        format!("r{r}")
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        (c == "r").then(|| ClassInfo { regs: (4..16).collect(), bits: 16 })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        regn(n).map(|r| vec![r])
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn lines(&self, tmpl: &str) -> Vec<String> {
        tmpl.split(['\n', '{']).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with(';') || l.starts_with("//")
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for t in split_ops(rest) {
            let t = t.trim();
            if let Some(r) = regn(t) {
                ops.push(Oper::Reg(r, 0, 16));
            } else if let Some(x) = t.strip_prefix('#') {
                ops.push(Oper::Imm(parse_imm(x).ok_or("immediate")?));
            } else if let Some(x) = t.strip_prefix('@') {
                let (x, inc) = x.strip_suffix('+').map_or((x, 0), |x| (x, 1));
                ops.push(Oper::Mem { base: Some((regn(x).ok_or("base register")?, 16)), index: None, scale: 1, disp: 0, size: 0, extra: inc });
            } else if let Some(a) = t.strip_suffix(')') {
                let (d, a) = a.split_once('(').ok_or("address")?;
                ops.push(Oper::Mem { base: Some((regn(a.trim()).ok_or("base register")?, 16)), index: None, scale: 1, disp: if d.trim().is_empty() { 0 } else { parse_imm(d).ok_or("displacement")? }, size: 0, extra: 0 });
            } else if is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![SR]
    }
    fn sp(&self) -> Option<RegId> {
        Some(1)
    }
    fn red_zone(&self) -> bool {
        false
    }
    fn all_regs(&self) -> Vec<RegId> {
        (1..16).filter(|r| *r != 3).collect()
    }
    fn asm_entry(&self, st: &mut AsmState, iflag: u8) {
        // CPU running, system clock generator 0 off
        st.set_raw(SR, TV::k(st.get(SR).v & 0x107 | 0x40 | if iflag == 1 { GIE } else { 0 }));
    }
    fn asm_iflag(&self, st: &AsmState, old: u8) -> u8 {
        if st.get(SR).v & GIE != 0 {
            return 1;
        }
        // an interrupt may still be taken after the instruction that follows the disabling one
        match old {
            1 => 3,
            3 => 2,
            _ => 0,
        }
    }
    fn iflag_fade(&self, old: u8) -> u8 {
        match old {
            3 => 2,
            2 => 0,
            x => x,
        }
    }
    fn extra_exit_check(&self, m: &AsmState) -> Result<(), String> {
        let v = m.get(SR).v & CTL;
        if v == 0x40 { Ok(()) } else { Err(format!("control bits of the status register are {v:#x} at exit, were 0x40")) }
    }
    fn switches_interrupts(&self, tmpl: &str) -> bool {
        self.lines(tmpl).iter().any(|l| {
            let w: Vec<&str> = l.split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty()).collect();
            matches!(w.first(), Some(&"dint") | Some(&"eint")) || w.len() > 2 && matches!(w[w.len() - 1], "r2" | "sr" | "R2" | "SR")
        })
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let (base, n) = match i.mn.rsplit_once('.') {
            Some((b, "b")) => (b, 8u32),
            Some((b, "w")) => (b, 16),
            Some(_) => return unk(i),
            None => (i.mn.as_str(), 16),
        };
        let putr = |m: &mut AsmState, r: RegId, v: TV| -> FR<()> {
            if r == 3 {
                return Ok(()); // constant generator
            }
            if r == 0 {
                return unk(i).map(|_: ()| ());
            }
            set(m, r, 16, v.mask(n));
            Ok(())
        };
        match base {
            "nop" => return Ok(Step::Next),
            "dint" | "eint" | "clrc" | "setc" | "clrz" | "setz" | "clrn" | "setn" if i.ops.is_empty() => {
                let (b, on) = match base {
                    "dint" => (GIE, false),
                    "eint" => (GIE, true),
                    _ => (
                        match &base[3..] {
                            "c" => 1,
                            "z" => 2,
                            _ => 4,
                        },
                        &base[..3] == "set",
                    ),
                };
                let o = m.get(SR);
                m.set_raw(SR, o.map(|x| if on { x | b } else { x & !b }));
                return Ok(Step::Next);
            }
            _ => {}
        }
        if let [Oper::Label(_)] = &i.ops[..] {
            let f = m.get(SR);
            let k = |g: fn(u128) -> bool| f.map(|x| g(x) as u128);
            let t = match base {
                "jmp" | "br" => TV::k(1),
                "jz" | "jeq" => k(|x| x & 2 != 0),
                "jnz" | "jne" => k(|x| x & 2 == 0),
                "jc" | "jhs" => k(|x| x & 1 != 0),
                "jnc" | "jlo" => k(|x| x & 1 == 0),
                "jn" => k(|x| x & 4 != 0),
                "jge" => k(|x| (x >> 2 ^ x >> 8) & 1 == 0),
                "jl" => k(|x| (x >> 2 ^ x >> 8) & 1 != 0),
                _ => return unk(i),
            };
            return jump_if(m, i, 0, t);
        }
        // one-operand forms
        let (base, ops): (&str, Vec<Oper>) = match (base, &i.ops[..]) {
            ("clr", [d]) => ("mov", vec![Oper::Imm(0), d.clone()]),
            ("inc", [d]) => ("add", vec![Oper::Imm(1), d.clone()]),
            ("dec", [d]) => ("sub", vec![Oper::Imm(1), d.clone()]),
            ("inv", [d]) => ("xor", vec![Oper::Imm(mask(n) as i128), d.clone()]),
            ("tst", [d]) => ("cmp", vec![Oper::Imm(0), d.clone()]),
            ("swpb", [Oper::Reg(r, ..)]) => {
                let v = get(m, *r, 16).map(|x| (x >> 8 | x << 8) & 0xffff);
                set(m, *r, 16, v);
                return Ok(Step::Next);
            }
            ("sxt", [Oper::Reg(r, ..)]) => {
                let v = ext(get(m, *r, 8), 8, true).mask(16);
                set(m, *r, 16, v);
                let nz = v.map(|x| (x != 0) as u128);
                flags(m, v, 16, nz, TV::k(0));
                return Ok(Step::Next);
            }
            ("push", [Oper::Reg(r, ..)]) => {
                let sp = get(m, 1, 16).map(|x| x.wrapping_sub(2) & 0xffff);
                if c.phase == 0 {
                    return mem(Mo::Store(get(m, *r, n)), sp, 2, 0);
                }
                set(m, 1, 16, sp);
                return Ok(Step::Next);
            }
            ("pop", [Oper::Reg(r, ..)]) => {
                let sp = get(m, 1, 16);
                if c.phase == 0 {
                    return mem(Mo::Load, sp, 2, 0);
                }
                set(m, 1, 16, sp.map(|x| x.wrapping_add(2) & 0xffff));
                putr(m, *r, c.resp.unwrap())?;
                return Ok(Step::Next);
            }
            (b, [a, d]) => (b, vec![a.clone(), d.clone()]),
            _ => return unk(i),
        };
        let ii = Insn { mn: i.mn.clone(), ops: ops.clone(), text: i.text.clone(), x: 0 };
        let srcmem = matches!(ops[0], Oper::Mem { .. });
        let dstmem = matches!(ops[1], Oper::Mem { .. });
        // phases: load source, load destination (unless mov), store destination
        let mut ph = c.phase;
        if srcmem {
            if ph == 0 {
                let a = ea(m, &ii, 0, 16)?;
                return mem(Mo::Load, a, n / 8, 0);
            }
            if ph == 1 {
                m.tmp[0] = c.resp.unwrap().mask(n);
                if let Oper::Mem { base: Some((r, _)), extra: 1, .. } = ops[0] {
                    let v = get(m, r, 16).map(|x| x.wrapping_add((n / 8) as u128) & 0xffff);
                    set(m, r, 16, v);
                }
            }
            ph -= 1;
        }
        let s = match &ops[0] {
            Oper::Imm(v) => TV::k(*v as u128 & mask(n)),
            Oper::Reg(r, ..) if *r != 0 && *r != 3 => get(m, *r, n),
            Oper::Mem { .. } => m.tmp[0],
            _ => return unk(i),
        };
        if base == "mov" {
            if dstmem {
                if ph == 0 {
                    return mem(Mo::Store(s), ea(m, &ii, 1, 16)?, n / 8, 0);
                }
                return Ok(Step::Next);
            }
            putr(m, reg(&ii, 1)?.0, s)?;
            return Ok(Step::Next);
        }
        if dstmem {
            if ph == 0 {
                return mem(Mo::Load, ea(m, &ii, 1, 16)?, n / 8, 0);
            }
            if ph == 1 {
                m.tmp[1] = c.resp.unwrap().mask(n);
            }
        }
        let d = if dstmem { m.tmp[1] } else { get(m, reg(&ii, 1)?.0, n) };
        let mk_ = mask(n);
        let top = n - 1;
        let (r, fl): (TV, Option<(TV, TV)>) = match base {
            "xor" => {
                let r = d.op(s, |d, s| d ^ s);
                (r, Some((r.map(|x| (x != 0) as u128), d.op(s, |d, s| d >> top & s >> top & 1))))
            }
            "and" | "bit" => {
                let r = d.op(s, |d, s| d & s);
                (r, Some((r.map(|x| (x != 0) as u128), TV::k(0))))
            }
            "bis" => (d.op(s, |d, s| d | s), None),
            "bic" => (d.op(s, |d, s| d & !s), None),
            "add" => {
                let r = d.op(s, |d, s| d.wrapping_add(s) & mk_);
                (r, Some((d.op(s, |d, s| (d + s) >> n & 1), d.op(s, |d, s| { let r = d.wrapping_add(s); (r ^ d) & (r ^ s) }).map(|x| x >> top & 1))))
            }
            "sub" | "cmp" => {
                let r = d.op(s, |d, s| d.wrapping_sub(s) & mk_);
                (r, Some((d.op(s, |d, s| (d >= s) as u128), d.op(s, |d, s| { let r = d.wrapping_sub(s); (d ^ s) & (r ^ d) }).map(|x| x >> top & 1))))
            }
            _ => return unk(i),
        };
        if dstmem && !matches!(base, "cmp" | "bit") && ph == 1 {
            return mem(Mo::Store(r), ea(m, &ii, 1, 16)?, n / 8, 0);
        }
        let tosr = matches!(ops[1], Oper::Reg(SR, ..)) && !matches!(base, "cmp" | "bit");
        if !dstmem && !matches!(base, "cmp" | "bit") {
            putr(m, reg(&ii, 1)?.0, r)?;
        }
        if let (Some((cf, vf)), false) = (fl, tosr) {
            flags(m, r, n, cf, vf);
        }
        Ok(Step::Next)
    }
}
