//! Motorola 68000 family. Single bus master order: sequentially consistent.
use super::util::*;
use crate::asm::*;

pub struct M68k;

const CCR: RegId = 16; // X 16, N 8, Z 4, V 2, C 1

fn regn(n: &str) -> Option<RegId> {
    let n = n.strip_prefix('%').unwrap_or(n);
    if n == "sp" {
        return Some(15);
    }
    if n == "fp" {
        return Some(14);
    }
    let k: RegId = n.get(1..)?.parse().ok()?;
    match n.get(..1)? {
        "d" if k < 8 => Some(k),
        "a" if k < 8 => Some(8 + k),
        _ => None,
    }
}
fn cond(m: &AsmState, c: &str) -> Option<TV> {
    let k = |g: fn(u128) -> bool| Some(m.get(CCR).map(|x| g(x) as u128));
    match c {
        "ra" | "t" => Some(TV::k(1)),
        "f" => Some(TV::k(0)),
        "ne" => k(|x| x & 4 == 0),
        "eq" => k(|x| x & 4 != 0),
        "cc" | "hs" => k(|x| x & 1 == 0),
        "cs" | "lo" => k(|x| x & 1 != 0),
        "pl" => k(|x| x & 8 == 0),
        "mi" => k(|x| x & 8 != 0),
        "hi" => k(|x| x & 5 == 0),
        "ls" => k(|x| x & 5 != 0),
        "vc" => k(|x| x & 2 == 0),
        "vs" => k(|x| x & 2 != 0),
        "ge" => k(|x| (x >> 3 ^ x >> 1) & 1 == 0),
        "lt" => k(|x| (x >> 3 ^ x >> 1) & 1 != 0),
        "gt" => k(|x| (x >> 3 ^ x >> 1) & 1 == 0 && x & 4 == 0),
        "le" => k(|x| (x >> 3 ^ x >> 1) & 1 != 0 || x & 4 != 0),
        _ => None,
    }
}
/// N Z 0 0 of a value; X kept
fn logcc(m: &mut AsmState, v: TV, n: u32) {
    let o = m.get(CCR);
    m.set_raw(CCR, v.op(o, |x, o| o & 16 | (x >> (n - 1) & 1) << 3 | (((x & mask(n)) == 0) as u128) << 2));
}
/// flags of a - b; X kept
fn subcc(m: &mut AsmState, a: TV, b: TV, n: u32) {
    let v = a.op(b, |x, y| {
        let (x, y) = (x & mask(n), y & mask(n));
        let r = x.wrapping_sub(y) & mask(n);
        let (sx, sy, sr) = (x >> (n - 1) & 1, y >> (n - 1) & 1, r >> (n - 1) & 1);
        sr << 3 | ((r == 0) as u128) << 2 | ((sx != sy && sr != sx) as u128) << 1 | (x < y) as u128
    });
    let o = m.get(CCR);
    m.set_raw(CCR, v.op(o, |x, o| o & 16 | x));
}
/// write the low n bits
fn part(m: &mut AsmState, r: RegId, n: u32, v: TV) {
    if r >= 8 {
        // address registers are always written whole
        return set(m, r, 32, ext(v, n, true).mask(32));
    }
    let o = get(m, r, 32);
    let v = v.mask(n);
    let w = if n == 32 { v } else { v.op(o, |x, o| o & !mask(n) & mask(32) | x) };
    set(m, r, 32, w);
}

impl Isa for M68k {
    fn name(&self) -> &'static str {
        "m68k"
    }
    fn addr_bits(&self) -> u32 {
        32
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        if r == CCR { 5 } else { 32 }
    }
    fn reg_name(&self, r: RegId) -> String {
        match r {
            CCR => "ccr".into(),
            0..=7 => format!("%d{r}"),
            _ => format!("%a{}", r - 8),
        }
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        let regs: Vec<RegId> = match c {
            "d" => (0..8).collect(),
            "a" => (8..12).collect(),
            "r" => (0..12).collect(),
            _ => return None,
        };
        Some(ClassInfo { regs, bits: 32 })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if n == "ccr" {
            return Some(vec![CCR]);
        }
        regn(n).map(|r| vec![r])
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with('|') || l.starts_with('#')
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for t in split_ops(rest) {
            let t = t.trim();
            if let Some(r) = regn(t) {
                ops.push(Oper::Reg(r, 0, 32));
            } else if let Some(x) = t.strip_prefix('#') {
                ops.push(Oper::Imm(parse_imm(x).ok_or("immediate")?));
            } else if let Some(a) = t.strip_suffix(')') {
                let (d, a) = a.split_once('(').ok_or("address")?;
                let (d, a) = match a.split_once(',') {
                    Some((x, a)) if d.is_empty() => (x.trim(), a.trim()),
                    _ => (d, a),
                };
                let disp = if d.is_empty() { 0 } else { parse_imm(d).ok_or("displacement")? };
                let b = regn(a.trim()).filter(|r| *r >= 8).ok_or("base register")?;
                ops.push(Oper::Mem { base: Some((b, 32)), index: None, scale: 1, disp, size: 0, extra: 0 });
            } else if is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![CCR]
    }
    fn sp(&self) -> Option<RegId> {
        Some(15)
    }
    fn red_zone(&self) -> bool {
        false
    }
    fn all_regs(&self) -> Vec<RegId> {
        (0..17).collect()
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let (base, n) = match i.mn.rsplit_once('.') {
            Some((b, "b")) => (b, 8),
            Some((b, "w")) => (b, 16),
            Some((b, "l")) => (b, 32),
            Some(_) => return unk(i),
            None => (i.mn.as_str(), 0),
        };
        if base == "nop" {
            return Ok(Step::Next);
        }
        if let (Some(cc), [Oper::Label(_)]) = (base.strip_prefix('b'), &i.ops[..]) {
            let Some(t) = cond(m, cc) else { return unk(i) };
            return jump_if(m, i, 0, t);
        }
        if let (0, Some(cc), [Oper::Reg(r @ 0..=7, ..)]) = (n, base.strip_prefix('s'), &i.ops[..]) {
            let Some(t) = cond(m, cc) else { return unk(i) };
            part(m, *r, 8, t.map(|x| if x != 0 { 0xff } else { 0 }));
            return Ok(Step::Next);
        }
        let src = |m: &AsmState, k: usize| match &i.ops[k] {
            Oper::Imm(v) => Ok(TV::k(*v as u128 & mask(32))),
            Oper::Reg(r, ..) => Ok(get(m, *r, 32)),
            _ => unk(i),
        };
        match base {
            "moveq" => {
                let v = src(m, 0)?;
                part(m, reg(i, 1)?.0, 32, v);
                logcc(m, v, 32);
                return Ok(Step::Next);
            }
            "move" | "movea" if n != 0 && i.ops.len() == 2 => {
                match (&i.ops[0], &i.ops[1]) {
                    (Oper::Mem { .. }, Oper::Reg(d, ..)) => {
                        if c.phase == 0 {
                            return mem(Mo::Load, ea(m, i, 0, 32)?, n / 8, 0);
                        }
                        let v = c.resp.unwrap();
                        if *d >= 8 && n == 8 {
                            return unk(i);
                        }
                        part(m, *d, n, v);
                        if *d < 8 {
                            logcc(m, v, n);
                        }
                    }
                    (_, Oper::Mem { .. }) => {
                        let v = src(m, 0)?.mask(n);
                        if c.phase == 0 {
                            return mem(Mo::Store(v), ea(m, i, 1, 32)?, n / 8, 0);
                        }
                        logcc(m, v, n);
                    }
                    (_, Oper::Reg(d, ..)) => {
                        let v = src(m, 0)?.mask(n);
                        if *d >= 8 && n == 8 {
                            return unk(i);
                        }
                        part(m, *d, n, v);
                        if *d < 8 {
                            logcc(m, v, n);
                        }
                    }
                    _ => return unk(i),
                }
                return Ok(Step::Next);
            }
            "cas" if n != 0 && i.ops.len() == 3 => {
                let (o, w) = (reg(i, 0)?.0, reg(i, 1)?.0);
                if o >= 8 || w >= 8 {
                    return unk(i);
                }
                let cmp = get(m, o, n);
                if c.phase == 0 {
                    return mem(cas_of(get(m, w, n), cmp), ea(m, i, 2, 32)?, n / 8, LOCK);
                }
                let v = c.resp.unwrap().mask(n);
                subcc(m, v, cmp, n);
                // equal: the register already holds that value
                part(m, o, n, v);
                return Ok(Step::Next);
            }
            "tas" if i.ops.len() == 1 => {
                if c.phase == 0 {
                    return mem(rmw_of(Rk::Or, TV::k(0x80)), ea(m, i, 0, 32)?, 1, LOCK);
                }
                logcc(m, c.resp.unwrap(), 8);
                return Ok(Step::Next);
            }
            _ => {}
        }
        if n == 0 {
            return unk(i);
        }
        match (base, &i.ops[..]) {
            ("clr", [Oper::Reg(d @ 0..=7, ..)]) => {
                part(m, *d, n, TV::k(0));
                logcc(m, TV::k(0), n);
            }
            ("tst", [Oper::Reg(d @ 0..=7, ..)]) => {
                let v = get(m, *d, n);
                logcc(m, v, n);
            }
            ("cmp" | "cmpi", [_, Oper::Reg(d @ 0..=7, ..)]) => {
                let (a, b) = (get(m, *d, n), src(m, 0)?);
                subcc(m, a, b, n);
            }
            ("not", [Oper::Reg(d @ 0..=7, ..)]) => {
                let v = get(m, *d, n).map(|x| !x & mask(n));
                part(m, *d, n, v);
                logcc(m, v, n);
            }
            ("and" | "andi" | "or" | "ori" | "eor" | "eori", [_, Oper::Reg(d @ 0..=7, ..)]) => {
                let v = get(m, *d, n).op(src(m, 0)?.mask(n), |x, y| match &base[..2] {
                    "an" => x & y,
                    "or" => x | y,
                    _ => x ^ y,
                });
                part(m, *d, n, v);
                logcc(m, v, n);
            }
            ("neg", [Oper::Reg(d @ 0..=7, ..)]) => {
                let v = get(m, *d, n);
                subcc(m, TV::k(0), v, n);
                let f = m.get(CCR);
                m.set_raw(CCR, f.map(|x| x & 15 | (x & 1) << 4));
                part(m, *d, n, v.map(|x| x.wrapping_neg() & mask(n)));
            }
            _ => return unk(i),
        }
        Ok(Step::Next)
    }
}
