//! z/Architecture.
use super::util::*;
use crate::asm::*;

pub struct Z;

const CC: RegId = 16;

fn regn(n: &str) -> Option<RegId> {
    let n = n.strip_prefix('%').unwrap_or(n);
    let k: RegId = n.strip_prefix('r')?.parse().ok()?;
    (k < 16).then_some(k)
}
fn get_lo(m: &AsmState, r: RegId, n: u32) -> TV {
    get(m, r, n)
}
/// writes the low `n` bits and keeps the rest of the register
fn set_lo(m: &mut AsmState, r: RegId, n: u32, v: TV) {
    let old = m.get(r);
    let v = v.mask(n);
    let hi = TV { v: old.v & !mask(n) & mask(64), t: if n < 64 { old.t } else { v.t } };
    m.set_raw(r, TV { v: hi.v | v.v, t: hi.t | v.t });
}
fn cc(m: &mut AsmState, v: TV) {
    m.set_raw(CC, v)
}
fn cmp3(x: i128, y: i128) -> u128 {
    match x.cmp(&y) {
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Less => 1,
        std::cmp::Ordering::Greater => 2,
    }
}

impl Isa for Z {
    fn name(&self) -> &'static str {
        "s390x"
    }
    fn mm(&self) -> Mm {
        Mm::Tso
    }
    fn addr_bits(&self) -> u32 {
        64
    }
    fn reg_bits(&self, r: RegId) -> u32 {
        if r == CC { 2 } else { 64 }
    }
    fn reg_name(&self, r: RegId) -> String {
        if r == CC { "cc".into() } else { format!("%r{r}") }
    }
    fn class(&self, c: &str, _bits: u32) -> Option<ClassInfo> {
        // r11 may be the frame pointer, r15 is the stack pointer
        let regs = (0..15).filter(|r| *r != 11);
        match c {
            "r" | "d" => Some(ClassInfo { regs: regs.collect(), bits: 64 }),
            "a" => Some(ClassInfo { regs: regs.filter(|r| *r != 0).collect(), bits: 64 }),
            _ => None,
        }
    }
    fn by_name(&self, n: &str) -> Option<Vec<RegId>> {
        if let Some(r) = regn(n) {
            return Some(vec![r]);
        }
        match n.strip_prefix('%').unwrap_or(n) {
            "cc" => Some(vec![CC]),
            b => (b.starts_with('f') || b.starts_with('v') || b.starts_with('a')).then(Vec::new),
        }
    }
    fn format(&self, r: RegId, md: Option<char>, _bits: u32) -> Result<String, String> {
        match md {
            None => Ok(self.reg_name(r)),
            Some(c) => Err(format!("modifier {c}")),
        }
    }
    fn is_comment(&self, l: &str) -> bool {
        l.starts_with('#')
    }
    fn parse(&self, line: &str) -> Result<Insn, String> {
        let line = line.split('#').next().unwrap().trim().to_ascii_lowercase();
        let (mn, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
        let mut ops = vec![];
        for o in split_ops(rest) {
            let t = o.trim();
            if let Some((d, b)) = t.strip_suffix(')').and_then(|x| x.split_once('(')) {
                let disp = if d.trim().is_empty() { 0 } else { parse_imm(d).ok_or("displacement")? };
                let mut r = vec![];
                for x in b.split(',') {
                    // register 0 in an address means the number 0
                    let k = regn(x.trim()).ok_or("address register")?;
                    r.push((k != 0).then_some((k, 64)));
                }
                let (base, index) = if r.len() == 2 { (r[1], r[0]) } else { (r[0], None) };
                ops.push(Oper::Mem { base, index, scale: 1, disp, size: 0, extra: 0 });
            } else if let Some(r) = regn(t) {
                ops.push(Oper::Reg(r, 0, 64));
            } else if let Some(v) = parse_imm(t) {
                ops.push(Oper::Imm(v));
            } else if is_label(t) {
                ops.push(Oper::Label(t.to_string()));
            } else {
                return Err(format!("operand '{t}'"));
            }
        }
        Ok(mk(mn, ops, &line, 0))
    }
    fn flag_regs(&self) -> Vec<RegId> {
        vec![CC]
    }
    fn sp(&self) -> Option<RegId> {
        Some(15)
    }
    fn all_regs(&self) -> Vec<RegId> {
        (0..17).collect()
    }
    fn special_regs(&self) -> Vec<RegId> {
        vec![0]
    }
    fn exec(&self, m: &mut AsmState, i: &Insn, c: &AsmCtx) -> FR<Step> {
        let mn = i.mn.as_str();
        let adr = |m: &AsmState, k: usize| ea(m, i, k, 64);
        match mn {
            // loads: (bytes, register bits written, signed)
            "l" | "ly" | "lg" | "lb" | "lgb" | "lh" | "lhy" | "lgh" | "lgf" | "llgf" | "llc" | "llh" | "llgc" | "llgh" | "lrvg" | "lrv" => {
                let (n, w, s) = match mn {
                    "l" | "ly" | "lrv" => (4, 32, false),
                    "lg" | "lrvg" => (8, 64, false),
                    "lb" => (1, 32, true),
                    "lgb" => (1, 64, true),
                    "lh" | "lhy" => (2, 32, true),
                    "lgh" => (2, 64, true),
                    "lgf" => (4, 64, true),
                    "llgf" => (4, 64, false),
                    "llc" => (1, 32, false),
                    "llh" => (2, 32, false),
                    "llgc" => (1, 64, false),
                    _ => (2, 64, false),
                };
                if mn.starts_with("lrv") {
                    return unk(i);
                }
                if c.phase == 0 {
                    return mem(Mo::Load, adr(m, 1)?, n, 0);
                }
                set_lo(m, reg(i, 0)?.0, w, ext(c.resp.unwrap(), n * 8, s));
                return Ok(Step::Next);
            }
            "st" | "sty" | "stg" | "stc" | "stcy" | "sth" | "sthy" => {
                let n = match mn {
                    "st" | "sty" => 4,
                    "stg" => 8,
                    "stc" | "stcy" => 1,
                    _ => 2,
                };
                if c.phase == 0 {
                    return mem(Mo::Store(get_lo(m, reg(i, 0)?.0, n * 8)), adr(m, 1)?, n, 0);
                }
                return Ok(Step::Next);
            }
            "lpq" | "stpq" => {
                let r = reg(i, 0)?.0;
                if r % 2 != 0 {
                    return ub(i, "odd register of a pair");
                }
                if c.phase == 0 {
                    let op = if mn == "lpq" { Mo::Load } else { Mo::Store(concat(get(m, r, 64), get(m, r + 1, 64), 64)) };
                    return mem(op, adr(m, 1)?, 16, 0);
                }
                if mn == "lpq" {
                    let v = c.resp.unwrap();
                    set(m, r, 64, v.map(|x| x >> 64));
                    set(m, r + 1, 64, v);
                }
                return Ok(Step::Next);
            }
            "lmg" | "stmg" | "lm" | "stm" => {
                // one access per register
                let (a, b) = (reg(i, 0)?.0, reg(i, 1)?.0);
                let n = if mn.ends_with('g') { 8 } else { 4 };
                let cnt = (b + 16 - a) % 16 + 1;
                let k = c.phase as RegId;
                let at = |k: RegId| (a + k) % 16;
                if k > 0 && mn.starts_with('l') {
                    // the base may be among the registers: addresses come from before
                    if matches!(i.ops[2], Oper::Mem { base: Some((x, _)), .. } if (0..cnt - 1).any(|k| at(k) == x)) {
                        return unk(i);
                    }
                    set_lo(m, at(k - 1), n * 8, c.resp.unwrap());
                }
                if k == cnt {
                    return Ok(Step::Next);
                }
                let ad = adr(m, 2)?.map(|x| x + (k as u32 * n) as u128);
                return mem(if mn.starts_with('l') { Mo::Load } else { Mo::Store(get_lo(m, at(k), n * 8)) }, ad, n, 0);
            }
            "cs" | "csy" | "csg" | "cdsg" | "cds" | "cdsy" => {
                let (r, v) = (reg(i, 0)?.0, reg(i, 1)?.0);
                let pair = mn.starts_with("cds");
                let g = mn.ends_with('g');
                let n = match (pair, g) {
                    (false, false) => 4,
                    (false, true) | (true, false) => 8,
                    (true, true) => 16,
                };
                if pair && (r % 2 != 0 || v % 2 != 0) {
                    return ub(i, "odd register of a pair");
                }
                let h = if g { 64 } else { 32 };
                let val = |m: &AsmState, r: RegId| if pair { concat(get(m, r, h), get(m, r + 1, h), h) } else { get_lo(m, r, h) };
                let cmp = val(m, r);
                if c.phase == 0 {
                    return mem(cas_of(val(m, v), cmp), adr(m, 2)?, n, LOCK);
                }
                let old = c.resp.unwrap().mask(n * 8);
                cc(m, old.op(cmp, |a, b| (a != b) as u128));
                if old.v != cmp.v {
                    if pair {
                        set_lo(m, r, h, old.map(|x| x >> h));
                        set_lo(m, r + 1, h, old);
                    } else {
                        set_lo(m, r, h, old);
                    }
                }
                return Ok(Step::Next);
            }
            "lao" | "laog" | "lan" | "lang" | "lax" | "laxg" | "laa" | "laag" => {
                let n = if mn.len() == 4 { 8 } else { 4 };
                let k = match &mn[..3] {
                    "lao" => Rk::Or,
                    "lan" => Rk::And,
                    "lax" => Rk::Xor,
                    _ => Rk::Add,
                };
                if c.phase == 0 {
                    return mem(rmw_of(k, get_lo(m, reg(i, 1)?.0, n * 8)), adr(m, 2)?, n, LOCK);
                }
                let old = c.resp.unwrap().mask(n * 8);
                set_lo(m, reg(i, 0)?.0, n * 8, old);
                cc(m, old.map(|x| (x != 0) as u128)); // (not the exact code)
                return Ok(Step::Next);
            }
            "bcr" => {
                if c.phase > 0 {
                    return Ok(Step::Next);
                }
                return match (imm(i, 0)?, i.ops.get(1)) {
                    (14 | 15, Some(Oper::Imm(0))) => fence(F_ALL),
                    (_, Some(Oper::Imm(0))) => Ok(Step::Next),
                    _ => unk(i),
                };
            }
            "nop" | "nopr" | "bcrl" => return Ok(Step::Next),
            "j" => return Ok(Step::Jump(label(i, 0)?)),
            "je" | "jne" | "jl" | "jh" | "jlh" | "jnl" | "jnh" | "jhe" | "jle" | "jo" | "jno" | "jz" | "jnz" | "jm" | "jp" => {
                // mask of condition codes 0..3 (bit 8 is code 0)
                let k: u128 = match &mn[1..] {
                    "e" | "z" => 8,
                    "ne" | "nz" => 7,
                    "l" | "m" => 4,
                    "h" | "p" => 2,
                    "lh" => 6,
                    "nl" | "nm" => 11,
                    "nh" | "np" => 13,
                    "he" => 10,
                    "le" => 12,
                    "o" => 1,
                    _ => 14,
                };
                let f = m.get(CC);
                return jump_if(m, i, 0, f.map(|x| k >> (3 - (x & 3)) & 1));
            }
            "brc" => {
                let k = imm(i, 0)? as u128;
                let f = m.get(CC);
                return jump_if(m, i, 1, f.map(|x| k >> (3 - (x & 3)) & 1));
            }
            "ipm" => {
                let r = reg(i, 0)?.0;
                let f = m.get(CC);
                let old = get_lo(m, r, 32);
                // bits 0-1 zero, the condition code, the program mask (zero here)
                set_lo(m, r, 32, old.op(f, |o, f| o & 0xff_ffff | (f & 3) << 28));
                return Ok(Step::Next);
            }
            "lhi" | "lghi" => {
                let w = if mn == "lghi" { 64 } else { 32 };
                let v = imm(i, 1)?;
                set_lo(m, reg(i, 0)?.0, w, TV::k(v as u128));
                return Ok(Step::Next);
            }
            "lr" | "lgr" | "llcr" | "llhr" | "llgcr" | "llghr" | "llgfr" | "lgfr" | "lbr" | "lhr" | "lgbr" | "lghr" => {
                let (from, w, s) = match mn {
                    "lr" => (32, 32, false),
                    "lgr" => (64, 64, false),
                    "llcr" => (8, 32, false),
                    "llhr" => (16, 32, false),
                    "llgcr" => (8, 64, false),
                    "llghr" => (16, 64, false),
                    "llgfr" => (32, 64, false),
                    "lgfr" => (32, 64, true),
                    "lbr" => (8, 32, true),
                    "lhr" => (16, 32, true),
                    "lgbr" => (8, 64, true),
                    _ => (16, 64, true),
                };
                let v = ext(get_lo(m, reg(i, 1)?.0, from), from, s);
                set_lo(m, reg(i, 0)?.0, w, v);
                return Ok(Step::Next);
            }
            "cr" | "cgr" | "clr" | "clgr" | "chi" | "cghi" => {
                let w = if mn.contains('g') { 64 } else { 32 };
                let a = get_lo(m, reg(i, 0)?.0, w);
                let b = if mn.ends_with('i') { TV::k(imm(i, 1)? as u128 & mask(w)) } else { get_lo(m, reg(i, 1)?.0, w) };
                let lg = mn.starts_with("cl");
                cc(m, a.op(b, |x, y| if lg { cmp3(x as i128, y as i128) } else { cmp3(sext(x, w), sext(y, w)) }));
                return Ok(Step::Next);
            }
            "rll" | "rllg" | "sllk" | "srlk" | "srak" | "sllg" | "srlg" | "srag" => {
                let w = if mn.ends_with('g') { 64 } else { 32 };
                let sh = adr(m, 2)?;
                let v = get_lo(m, reg(i, 1)?.0, w).op(sh, |x, s| {
                    let s = s as u32 & 63;
                    match &mn[..3] {
                        "rll" => {
                            let s = s % w;
                            if s == 0 { x } else { (x << s | x >> (w - s)) & mask(w) }
                        }
                        "sll" => x << s,
                        "srl" => x >> s,
                        _ => (sext(x, w) >> s) as u128,
                    }
                });
                set_lo(m, reg(i, 0)?.0, w, v);
                if mn.starts_with("sra") {
                    let r = get_lo(m, reg(i, 0)?.0, w);
                    cc(m, r.map(|x| cmp3(sext(x, w), 0)));
                }
                return Ok(Step::Next);
            }
            "risbg" | "risbgn" => {
                let (a, b) = (reg(i, 0)?.0, reg(i, 1)?.0);
                let (i3, i4) = (imm(i, 2)?, imm(i, 3)?);
                let i5 = if i.ops.len() > 4 { imm(i, 4)? } else { 0 };
                let zero = i4 & 0x80 != 0;
                let (s, e, rot) = ((i3 & 63) as u32, (i4 & 63) as u32, (i5 & 63) as u32);
                // bits s..=e, numbered from the most significant, possibly wrapping
                let mut sel = 0u128;
                let mut k = s;
                loop {
                    sel |= 1 << (63 - k);
                    if k == e {
                        break;
                    }
                    k = (k + 1) % 64;
                }
                let v = get(m, a, 64).op(get(m, b, 64), |x, y| {
                    let y = if rot == 0 { y } else { (y << rot | y >> (64 - rot)) & mask(64) };
                    (if zero { 0 } else { x & !sel }) | y & sel
                });
                set(m, a, 64, v);
                if mn == "risbg" {
                    cc(m, v.map(|x| cmp3(sext(x, 64), 0)));
                }
                return Ok(Step::Next);
            }
            _ => {}
        }
        // two- and three-operand arithmetic
        let (base, k3) = match mn.strip_suffix('k') {
            Some(b) => (b, true),
            None => (mn, false),
        };
        let (op, w) = match base {
            "ar" | "alr" => ("add", 32),
            "agr" | "algr" => ("add", 64),
            "sr" | "slr" => ("sub", 32),
            "sgr" | "slgr" => ("sub", 64),
            "nr" => ("and", 32),
            "ngr" => ("and", 64),
            "or" => ("or", 32),
            "ogr" => ("or", 64),
            "xr" => ("xor", 32),
            "xgr" => ("xor", 64),
            _ => return unk(i),
        };
        let d = reg(i, 0)?.0;
        let (a, b) = if k3 { (reg(i, 1)?.0, reg(i, 2)?.0) } else { (d, reg(i, 1)?.0) };
        let v = get_lo(m, a, w).op(get_lo(m, b, w), |x, y| {
            mask(w)
                & match op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "and" => x & y,
                    "or" => x | y,
                    _ => x ^ y,
                }
        });
        if op == "add" || op == "sub" {
            cc(m, v.map(|x| cmp3(sext(x, w), 0))); // (overflow and carry codes are not modelled; nothing branches on them)
        } else {
            cc(m, v.map(|x| (x != 0) as u128));
        }
        set_lo(m, d, w, v);
        Ok(Step::Next)
    }
}
