//! Hexagon. Sequentially consistent (the crate relies on the hardware keeping program order).
use super::util::*;
use crate::asm::*;

pub struct Hex;

const P: RegId = 32;

fn r32(n: &str) -> Option<RegId> {
    match n {
        "sp" => return Some(29),
        "fp" => return Some(30),
        "lr" => return Some(31),
        _ => {}
    }
    let k: RegId = n.strip_prefix('r')?.parse().ok()?;
    (k < 32).then_some(k)
}
fn preg(n: &str) -> Option<RegId> {
    let k: RegId = n.strip_prefix('p')?.parse().ok()?;
    (k < 4).then_some(P + k)
}
/// register pair rA_B (written rA:B)
fn rpair(n: &str) -> Option<RegId> {
    let (a, b) = n.split_once('_')?;
    let (a, b) = (r32(a)?, b.parse::<RegId>().ok()?);
    (a == b + 1 && b % 2 == 0).then_some(b)
}
fn operand(t: &str) -> Option<Oper> {
    let t = t.trim();
    if let Some(r) = r32(t) {
        Some(Oper::Reg(r, 0, 32))
    } else if let Some(r) = rpair(t) {
        Some(Oper::Reg(r, 0, 64))
    } else if let Some(r) = preg(t) {
        Some(Oper::Reg(r, 0, 8))
    } else if let Some(x) = t.strip_prefix('#') {
        Some(Oper::Imm(parse_imm(x)?))
    } else if let Some(x) = t.strip_prefix('~') {
        Some(Oper::Reg(r32(x.trim())?, 1, 32)) // complemented
    } else {
        None
    }
}
/// "mem…(args)" -> mnemonic, address, rest of the arguments
fn memory(t: &str) -> Option<(&str, Oper, Vec<String>)> {
    let (mn, a) = t.split_once('(')?;
    if !mn.starts_with("mem") {
        return None;
    }
    let mut a = split_ops(a.strip_suffix(')')?);
    let ad = a.remove(0);
    let (b, d) = match ad.split_once('+') {
        Some((b, d)) => (b.trim(), parse_imm(d.trim().strip_prefix('#')?)?),
        None => (ad.trim(), 0),
    };
    Some((mn.trim(), Oper::Mem { base: Some((r32(b)?, 32)), index: None, scale: 1, disp: d, size: 0, extra: 0 }, a))
}

impl Hex {
    fn src(&self, m: &AsmState, i: &Insn, k: usize) -> FR<TV> {
        match i.ops.get(k) {
            Some(Oper::Imm(v)) => Ok(TV::k(*v as u128 & mask(32))),
            Some(Oper::Reg(r, c, 32)) => {
                let v = get(m, *r, 32);
                Ok(if *c == 1 { v.map(|x| !x & mask(32)) } else { v })
            }
            Some(Oper::Reg(r, _, 64)) => Ok(concat(get(m, *r + 1, 32), get(m, *r, 32), 32)),
            _ => unk(i),
        }
    }
    fn wr(&self, m: &mut AsmState, i: &Insn, k: usize, v: TV) -> FR<()> {
        match i.ops.get(k) {
            Some(Oper::Reg(r, 0, 32)) => set(m, *r, 32, v),
            Some(Oper::Reg(r, 0, 64)) => {
                set(m, *r, 32, v.map(|x| x & mask(32)));
                set(m, *r + 1, 32, v.map(|x| x >> 32 & mask(32)));
            }
            _ => return unk(i),
        }
        Ok(())
    }
    fn one(&self, line: &str) -> Result<Insn, String> {
        let e = || format!("instruction '{line}'");
        if let Some(r) = line.strip_prefix("if ").or_else(|| line.strip_prefix("if(")) {
            let r = r.trim().trim_start_matches('(');
            let (c, act) = r.split_once(')').ok_or_else(e)?;
            let (neg, c) = match c.trim().strip_prefix('!') {
                Some(c) => (1, c.trim()),
                None => (0, c.trim()),
            };
            let (new, c) = match c.strip_suffix(".new") {
                Some(c) => (2, c),
                None => (0, c),
            };
            let p = Oper::Reg(preg(c).ok_or_else(e)?, 0, 8);
            let act = act.trim();
            if let Some(l) = act.strip_prefix("jump") {
                let l = l.trim_start_matches(":nt").trim_start_matches(":t").trim();
                return Ok(mk("jumpif", vec![p, Oper::Label(l.into())], line, neg | new));
            }
            let (d, s) = act.split_once('=').ok_or_else(e)?;
            return Ok(mk("movif", vec![operand(d).ok_or_else(e)?, p, operand(s).ok_or_else(e)?], line, neg | new));
        }
        if let Some(l) = line.strip_prefix("jump ") {
            return Ok(mk("jump", vec![Oper::Label(l.trim().into())], line, 0));
        }
        if matches!(line, "nop" | "barrier" | "syncht" | "isync") {
            return Ok(mk(line, vec![], line, 0));
        }
        let (d, s) = line.split_once('=').ok_or_else(e)?;
        let (d, s) = (d.trim(), s.trim());
        if let Some((mn, ad, rest)) = memory(d) {
            let mut ops = vec![ad, operand(s).ok_or_else(e)?];
            for r in &rest {
                ops.push(operand(r).ok_or_else(e)?);
            }
            return Ok(mk(&format!("st {mn}"), ops, line, 0));
        }
        let d = operand(d).ok_or_else(e)?;
        if let Some((mn, ad, rest)) = memory(s) {
            if !rest.is_empty() {
                return Err(e());
            }
            return Ok(mk(&format!("ld {mn}"), vec![d, ad], line, 0));
        }
        if let Some(s) = operand(s) {
            return Ok(mk("mov", vec![d, s], line, 0));
        }
        let (mn, a) = s.split_once('(').ok_or_else(e)?;
        let mut ops = vec![d];
        for x in split_ops(a.strip_suffix(')').ok_or_else(e)?) {
            ops.push(operand(&x).ok_or_else(e)?);
        }
        Ok(mk(mn.trim(), ops, line, 0))
    }
}

impl Isa for Hex {
    fn name(&self) -> &'static str {
        "hexagon"
    }
    fn addr_bits(&self) -> u32 {
        32
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        if r >= P { 8 } else { 32 }
    }
    fn reg_name(&self, r: RegId) -> String {
        if r >= P { format!("p{}", r - P) } else { format!("r{r}") }
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        (c == "r").then(|| ClassInfo { regs: (0..19).chain(20..29).collect(), bits: 32 })
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        r32(n).or(preg(n)).map(|r| vec![r])
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    /// packets become one line
    fn lines(&self, tmpl: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut open = false;
        for l in tmpl.split('\n') {
            let l = l.split("//").next().unwrap().trim().to_ascii_lowercase();
            if l.is_empty() {
                continue;
            }
            // rA:B -> rA_B
            let b = l.as_bytes();
            let mut s = String::new();
            for (k, ch) in l.char_indices() {
                let digit = |j: usize| b.get(j).is_some_and(|c| c.is_ascii_digit());
                let pair = ch == ':' && k > 1 && digit(k - 1) && digit(k + 1) && l[..k].trim_end_matches(|c: char| c.is_ascii_digit()).ends_with('r');
                s.push(if pair { '_' } else { ch });
            }
            if open {
                let t = v.last_mut().unwrap();
                t.push_str(" ; ");
                t.push_str(&s);
            } else {
                v.push(s.clone());
            }
            for ch in s.chars() {
                match ch {
                    '{' => open = true,
                    '}' => open = false,
                    _ => {}
                }
            }
        }
        v
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let Some(p) = line.strip_prefix('{') else { return self.one(line) };
        let p = p.trim_end().strip_suffix('}').ok_or("packet")?;
        let mut v = vec![];
        for s in p.split(';') {
            if !s.trim().is_empty() {
                v.push(self.one(s.trim())?);
            }
        }
        match &v[..] {
            [a] => Ok(mk(&a.mn, a.ops.clone(), line, a.x)),
            // compare and branch on the new predicate
            [a, b] if a.mn.starts_with("cmp.") && b.mn == "jumpif" && b.x & 2 != 0 && a.ops[0] == b.ops[0] => {
                let mut ops = a.ops.clone();
                ops.push(b.ops[1].clone());
                Ok(mk(&a.mn, ops, line, 4 | b.x & 1))
            }
            _ => Err("packet".into()),
        }
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![]
    }
    fn sp(&self) -> Option<RegId> {
        Some(29)
    }
    fn red_zone(&self) -> bool {
        false
    }
    fn all_regs(&self) -> Vec<RegId> {
        (0..36).collect()
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let mn = i.mn.as_str();
        if let Some(k) = mn.strip_prefix("ld ") {
            let (n, s) = match k {
                "memb" => (1, true),
                "memub" => (1, false),
                "memh" => (2, true),
                "memuh" => (2, false),
                "memw" | "memw_locked" => (4, false),
                "memd" | "memd_locked" => (8, false),
                _ => return unk(i),
            };
            if (n == 8) != matches!(i.ops[0], Oper::Reg(_, _, 64)) {
                return unk(i);
            }
            if c.phase == 0 {
                return mem(if k.ends_with("locked") { Mo::Ll } else { Mo::Load }, ea(m, i, 1, 32)?, n, 0);
            }
            self.wr(m, i, 0, ext(c.resp.unwrap(), n * 8, s))?;
            return Ok(Step::Next);
        }
        if let Some(k) = mn.strip_prefix("st ") {
            let n = match k {
                "memb" => 1,
                "memh" => 2,
                "memw" | "memw_locked" => 4,
                "memd" | "memd_locked" => 8,
                _ => return unk(i),
            };
            let v = self.src(m, i, 1)?;
            if (n == 8) != matches!(i.ops[1], Oper::Reg(_, _, 64)) {
                return unk(i);
            }
            if k.ends_with("locked") {
                let Some(Oper::Reg(p, _, 8)) = i.ops.get(2) else { return unk(i) };
                if c.phase == 0 {
                    return mem(Mo::Sc(v), ea(m, i, 0, 32)?, n, 0);
                }
                set(m, *p, 8, c.resp.unwrap().map(|x| if x != 0 { 0xff } else { 0 }));
                return Ok(Step::Next);
            }
            if i.ops.len() != 2 {
                return unk(i);
            }
            if c.phase == 0 {
                return mem(Mo::Store(v.mask(n * 8)), ea(m, i, 0, 32)?, n, 0);
            }
            return Ok(Step::Next);
        }
        match mn {
            "nop" => return Ok(Step::Next),
            "barrier" | "syncht" | "isync" => return if c.phase == 0 { fence(F_ALL | F_FULL) } else { Ok(Step::Next) },
            "jump" => return Ok(Step::Jump(label(i, 0)?)),
            "jumpif" | "movif" => {
                // .new refers to a predicate written in the same packet
                if i.x & 2 != 0 {
                    return unk(i);
                }
                let k = (mn == "movif") as usize;
                let t = get(m, reg(i, k)?.0, 8).map(|x| (x & 1) ^ (i.x as u128 & 1));
                if mn == "jumpif" {
                    return jump_if(m, i, 1, t);
                }
                let (s, d) = (self.src(m, i, 2)?, self.src(m, i, 0)?);
                let r = if t.v != 0 { s } else { d };
                self.wr(m, i, 0, TV { v: r.v, t: s.t | d.t | t.t })?;
                return Ok(Step::Next);
            }
            "mov" => {
                let v = self.src(m, i, 1)?;
                self.wr(m, i, 0, v)?;
                return Ok(Step::Next);
            }
            "mux" => {
                let t = get(m, reg(i, 1)?.0, 8).map(|x| x & 1);
                let (a, b) = (self.src(m, i, 2)?, self.src(m, i, 3)?);
                let r = if t.v != 0 { a } else { b };
                self.wr(m, i, 0, TV { v: r.v, t: a.t | b.t | t.t })?;
                return Ok(Step::Next);
            }
            "cmp.eq" | "cmp.gt" | "cmp.gtu" => {
                let (p, b) = (reg(i, 0)?, self.src(m, i, 2)?);
                if p.1 != 8 {
                    return unk(i);
                }
                let w = reg(i, 1)?.1;
                let a = self.src(m, i, 1)?;
                let v = a.op(b, |x, y| {
                    let t = match mn {
                        "cmp.eq" => x == y,
                        "cmp.gtu" => x > y,
                        _ => sext(x, w) > sext(y, w),
                    };
                    if t { 0xff } else { 0 }
                });
                set(m, p.0, 8, v);
                if i.x & 4 != 0 {
                    return jump_if(m, i, 3, v.map(|x| (x & 1) ^ (i.x as u128 & 1)));
                }
                return Ok(Step::Next);
            }
            "not" | "neg" | "zxtb" | "zxth" | "sxtb" | "sxth" => {
                let v = self.src(m, i, 1)?.map(|x| {
                    mask(32)
                        & match mn {
                            "not" => !x,
                            "neg" => x.wrapping_neg(),
                            "zxtb" => x & 0xff,
                            "zxth" => x & 0xffff,
                            "sxtb" => sext(x & 0xff, 8) as u128,
                            _ => sext(x & 0xffff, 16) as u128,
                        }
                });
                self.wr(m, i, 0, v)?;
                return Ok(Step::Next);
            }
            "combine" => {
                let v = concat(self.src(m, i, 1)?, self.src(m, i, 2)?, 32);
                self.wr(m, i, 0, v)?;
                return Ok(Step::Next);
            }
            "and" | "or" | "xor" | "add" | "sub" | "asl" | "lsl" | "asr" | "lsr" => {}
            _ => return unk(i),
        }
        let w = match i.ops.first() {
            Some(Oper::Reg(_, _, w @ (32 | 64))) => *w,
            _ => return unk(i),
        };
        if i.ops.len() != 3 || w == 64 && !matches!(mn, "and" | "or" | "xor" | "add" | "sub") && !matches!(i.ops[1], Oper::Reg(_, _, 64)) {
            return unk(i);
        }
        let (a, b) = (self.src(m, i, 1)?, self.src(m, i, 2)?);
        let v = a.op(b, |x, y| {
            // register shift amounts are signed 7-bit values; negative amounts shift the other way
            let s = sext(y & 0x7f, 7) as i32;
            let l = |s: i32| if s >= w as i32 { 0 } else { x << s };
            let r = |s: i32, ar: bool| match ar {
                true => (sext(x, w) >> s.min(w as i32 - 1)) as u128,
                _ if s >= w as i32 => 0,
                _ => x >> s,
            };
            mask(w)
                & match mn {
                    "and" => x & y,
                    "or" => x | y,
                    "xor" => x ^ y,
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "asl" if s < 0 => r(-s, true),
                    "lsl" if s < 0 => r(-s, false),
                    "asl" | "lsl" => l(s),
                    _ if s < 0 => l(-s),
                    "asr" => r(s, true),
                    _ => r(s, false),
                }
        });
        self.wr(m, i, 0, v)?;
        Ok(Step::Next)
    }
}
