//! Inline-asm machine: operand binding under the asm! contract, generic machine state, ISA trait.
use crate::ir::AsmDef;
use std::collections::HashMap;
use std::rc::Rc;

pub type RegId = u16;

/// Value plus the set of (program-order indexes of) read events it depends on.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct TV {
    pub v: u128,
    pub t: u64,
}
impl TV {
    pub fn k(v: u128) -> TV {
        TV { v, t: 0 }
    }
    pub fn map(self, f: impl FnOnce(u128) -> u128) -> TV {
        TV { v: f(self.v), t: self.t }
    }
    pub fn op(self, o: TV, f: impl FnOnce(u128, u128) -> u128) -> TV {
        TV { v: f(self.v, o.v), t: self.t | o.t }
    }
    pub fn mask(self, bits: u32) -> TV {
        TV { v: self.v & mask(bits), t: self.t }
    }
}
pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}
pub fn sext(v: u128, bits: u32) -> i128 {
    if bits >= 128 {
        v as i128
    } else {
        ((v << (128 - bits)) as i128) >> (128 - bits)
    }
}

// access flags
pub const ACQ: u32 = 1;
pub const REL: u32 = 2;
pub const ACQPC: u32 = 4;
pub const LOCK: u32 = 8; // full-fence RMW (x86 lock, s390x interlocked, ...)
pub const BIGPIECE: u32 = 16;
pub const NT: u32 = 32; // x86 non-temporal store: weakly ordered even under TSO

// fence strength: predecessor / successor sets and special kinds
pub const F_PR: u32 = 1;
pub const F_PW: u32 = 2;
pub const F_SR: u32 = 4;
pub const F_SW: u32 = 8;
pub const F_ALL: u32 = 15;
pub const F_ISYNC: u32 = 16;
pub const F_LW: u32 = 32;
pub const F_FULL: u32 = 64;
pub const F_SAMEADDR: u32 = 128;

/// Hardware memory model of an instruction set.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mm {
    Sc,
    Tso,
    AArch64,
    Arm7,
    Power,
    RiscV,
    /// multi-copy atomic, nothing ordered except by dependencies and barriers
    Weak,
    /// as Weak, but even same-address loads may be reordered
    WeakRr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rk {
    Swap,
    Cas,
    Add,
    Sub,
    And,
    Or,
    Xor,
    /// clear bits: old & !val
    Clr,
    /// masked compare-and-swap on a wider word is expressed by Cas
    Max,
    Min,
    Umax,
    Umin,
    /// test and set (store all-ones byte)
    Tas,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Mo {
    Load,
    Store(TV),
    /// atomic read-modify-write; `weak_store`: on failed compare the old value is written back
    Rmw { k: Rk, val: TV, cmp: TV, wb_on_fail: bool },
    /// load-linked / store-conditional; SC's response is 1 on success and 0 on failure
    Ll,
    Sc(TV),
    Fence(u32),
    ClrEx,
    /// interrupt-related scheduling point without memory access (after each instruction on interrupt targets)
    Tick,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MemReq {
    pub op: Mo,
    pub addr: TV,
    pub size: u32,
    pub flags: u32,
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub v: TV,
}

pub enum Step {
    Next,
    Jump(String),
    Mem(MemReq),
    Goto(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    /// the code has undefined behaviour on this input
    Ub(String),
    /// asm! contract violated
    Contract(String),
    /// bad memory access (outside every object, misaligned, ...)
    Mem(String),
    /// step bound exceeded without visible effect
    Hang(String),
    /// this engine cannot interpret something
    Engine(String),
}
pub type FR<T> = Result<T, Fault>;
pub fn eng<T>(s: impl Into<String>) -> FR<T> {
    Err(Fault::Engine(s.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Oper {
    Reg(RegId, u32, u32), // id, low bit offset, width in bits
    Imm(i128),
    Mem { base: Option<(RegId, u32)>, index: Option<(RegId, u32)>, scale: i128, disp: i128, size: u32, extra: u32 },
    Label(String),
    Word(String),
    List(Vec<RegId>),
}

#[derive(Clone, Debug)]
pub struct Insn {
    pub mn: String,
    pub ops: Vec<Oper>,
    pub text: String,
    pub x: u32, // ISA specific flags (lock prefix, annul bit, ...)
}

#[derive(Debug)]
pub struct Prog {
    pub insns: Vec<Insn>,
    pub labels: HashMap<String, Vec<usize>>,
}

impl Prog {
    pub fn target(&self, from: usize, l: &str) -> Option<usize> {
        // numeric labels with direction
        if let Some(n) = l.strip_suffix('b').filter(|n| !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit())) {
            return self.labels.get(n)?.iter().filter(|&&p| p <= from).max().copied();
        }
        if let Some(n) = l.strip_suffix('f').filter(|n| !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit())) {
            return self.labels.get(n)?.iter().filter(|&&p| p > from).min().copied();
        }
        self.labels.get(l)?.first().copied()
    }
}

#[derive(Clone, Debug)]
pub struct ClassInfo {
    pub regs: Vec<RegId>,
    pub bits: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cons {
    Fixed(String),
    Class(String),
    Tied(usize),
    Imm,
    Mem,
}
#[derive(Clone, Debug)]
pub struct OpCons {
    pub out: bool,
    pub early: bool,
    pub c: Cons,
}

#[derive(Debug)]
pub struct AsmInfo {
    pub def: AsmDef,
    pub ops: Vec<OpCons>, // outputs first
    pub nout: usize,
    pub clobbers: Vec<String>,
    pub memory: bool,
    pub readonly: bool,
    pub readnone: bool,
    pub nostack: bool,
}

pub fn parse_constraints(d: &AsmDef) -> Result<AsmInfo, String> {
    let mut ops = vec![];
    let mut clobbers = vec![];
    let mut memory = false;
    if !d.constraints.is_empty() {
        // split on commas outside braces
        let mut parts = vec![];
        let mut cur = String::new();
        let mut depth = 0;
        for ch in d.constraints.chars() {
            match ch {
                '{' => depth += 1,
                '}' => depth -= 1,
                ',' if depth == 0 => {
                    parts.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => {}
            }
            cur.push(ch);
        }
        parts.push(cur);
        for p in parts {
            if let Some(c) = p.strip_prefix('~') {
                let c = c.trim_start_matches('{').trim_end_matches('}').to_string();
                if c == "memory" {
                    memory = true;
                } else {
                    clobbers.push(c);
                }
                continue;
            }
            let mut s = p.as_str();
            let mut out = false;
            let mut early = false;
            loop {
                if let Some(r) = s.strip_prefix('=') {
                    out = true;
                    s = r;
                } else if let Some(r) = s.strip_prefix('&') {
                    early = true;
                    s = r;
                } else {
                    break;
                }
            }
            let c = if s.starts_with('{') {
                Cons::Fixed(s.trim_start_matches('{').trim_end_matches('}').to_string())
            } else if s.bytes().all(|c| c.is_ascii_digit()) && !s.is_empty() {
                Cons::Tied(s.parse().unwrap())
            } else if s == "i" || s == "n" || s == "s" || s == "X" {
                Cons::Imm
            } else if s.starts_with('*') {
                Cons::Mem
            } else {
                Cons::Class(s.trim_start_matches('^').to_string())
            };
            ops.push(OpCons { out, early, c });
        }
    }
    let nout = ops.iter().filter(|o| o.out).count();
    let a = &d.attrs;
    let readnone = a.contains("memory(none)") || a.contains("readnone");
    let readonly = a.contains("memory(read)") || a.contains("readonly") || a.contains("memory(argmem: read)");
    Ok(AsmInfo { def: d.clone(), ops, nout, clobbers, memory, readonly, readnone, nostack: !d.alignstack })
}

/// Concrete register assignment: one physical register per operand.
pub type Alloc = Vec<RegId>;

pub trait Isa {
    fn name(&self) -> &'static str;
    fn reg_bits(&self, r: RegId) -> u32;
    fn reg_name(&self, r: RegId) -> String;
    /// register allocation class for an LLVM constraint letter and operand width
    fn class(&self, c: &str, bits: u32) -> Option<ClassInfo>;
    /// physical register(s) of a fixed constraint / clobber name; empty = known but not modelled
    fn by_name(&self, n: &str) -> Option<Vec<RegId>>;
    /// text substituted for an operand
    fn format(&self, r: RegId, modifier: Option<char>, bits: u32) -> Result<String, String>;
    /// split the template into instruction lines
    fn lines(&self, tmpl: &str) -> Vec<String> {
        tmpl.split(['\n', ';']).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
    }
    fn parse(&self, line: &str) -> Result<Insn, String>;
    fn exec(&self, m: &mut AsmState, i: &Insn, ctx: &AsmCtx) -> FR<Step>;
    /// pseudo registers that hold flags
    fn flag_regs(&self) -> Vec<RegId>;
    fn sp(&self) -> Option<RegId>;
    /// registers that must be preserved unless declared
    fn all_regs(&self) -> Vec<RegId>;
    /// registers that may be freely changed by any asm
    fn scratch_regs(&self) -> Vec<RegId> {
        vec![]
    }
    /// registers whose number means something to some instruction
    fn special_regs(&self) -> Vec<RegId> {
        vec![]
    }
    fn zero_regs(&self) -> Vec<RegId> {
        vec![]
    }
    /// whether `~{flags}`-like clobber list covers flag register r
    fn big_endian_pairs(&self) -> bool {
        false
    }
    /// Values registers must have at entry (default: junk), e.g. direction flag clear.
    fn entry_value(&self, _r: RegId) -> Option<u128> {
        None
    }
    /// Bits of a register that an output of this width does not cover although the compiler may keep something there.
    fn uncovered(&self, _r: RegId, _bits: u32) -> u128 {
        0
    }
    /// Width of the part of a register that a name denotes (0: all of it).
    fn name_bits(&self, _n: &str) -> u32 {
        0
    }
    /// Values registers must have at exit even when clobbered.
    fn exit_value(&self, _r: RegId) -> Option<u128> {
        None
    }
    /// memory provided by the system at a fixed address
    fn const_mem(&self, _addr: u64, _n: u64) -> Option<u128> {
        None
    }
    /// interrupt-based target: single core, atomicity by disabling interrupts
    fn tick_each(&self) -> bool {
        false
    }
    fn mm(&self) -> Mm {
        Mm::Sc
    }
    fn is_comment(&self, _line: &str) -> bool {
        false
    }
    /// how a value of `bits` is placed in register (for wide register pairs see `pair`)
    fn pair(&self, _r: RegId, _bits: u32) -> Option<Vec<RegId>> {
        None
    }
    /// value position inside the register: (low bit, value)
    fn place_in(&self, _r: RegId, _bits: u32, v: u128) -> (u32, u128) {
        (0, v)
    }
    /// memory below the stack pointer belongs to the function
    fn red_zone(&self) -> bool {
        true
    }
    /// narrower operands arrive sign-extended from 32 bits
    fn sext_in(&self) -> bool {
        false
    }
    /// width of machine addresses (may exceed the pointer width, e.g. x32)
    fn addr_bits(&self) -> u32 {
        16
    }
    /// interrupt-based targets: machine state when an asm block starts; 0 = interrupts disabled
    fn asm_entry(&self, _st: &mut AsmState, _iflag: u8) {}
    /// after an instruction: 0 = no interrupt is taken at this boundary, 1 = enabled, others: about to be disabled
    fn asm_iflag(&self, _st: &AsmState, old: u8) -> u8 {
        old
    }
    /// does the template read or write the interrupt enable flag?
    fn switches_interrupts(&self, _tmpl: &str) -> bool {
        false
    }
    /// the same after an instruction outside of asm blocks
    fn iflag_fade(&self, old: u8) -> u8 {
        old
    }
    /// taken branch `i` executes the following instruction first
    fn delay_slot(&self, _st: &AsmState, _i: &Insn, _taken: bool) -> bool {
        false
    }
    /// untaken branch annuls the following instruction
    fn skip_slot(&self, _i: &Insn) -> bool {
        false
    }
    fn misalign_ok(&self) -> bool {
        false
    }
    fn extra_exit_check(&self, _m: &AsmState) -> Result<(), String> {
        Ok(())
    }
}

pub struct AsmCtx<'a> {
    pub prog: &'a Prog,
    pub phase: u32,
    pub resp: Option<TV>,
    pub pc: usize,
    pub seed: u64,
    /// weak-memory exploration (dependencies are tracked)
    pub weak: bool,
}

/// Entry values of all registers (shared, not part of state identity).
#[derive(Clone)]
pub struct RegBase(pub Rc<Vec<TV>>);
impl PartialEq for RegBase {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for RegBase {}
impl std::hash::Hash for RegBase {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl std::fmt::Debug for RegBase {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("_")
    }
}
/// Register values at entry, kept only when the asm! contract is checked.
#[derive(Clone, Debug, Default)]
pub struct EntryRegs(pub Option<Rc<Vec<(RegId, TV)>>>);
impl PartialEq for EntryRegs {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for EntryRegs {}
impl std::hash::Hash for EntryRegs {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

/// Machine state while executing one asm block.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct AsmState {
    pub asm: u32,
    pub alloc: u32,
    pub pc: u32,
    pub phase: u32,
    pub waiting: bool,
    pub regs: Vec<(RegId, TV)>, // sorted; registers that differ from their initial junk or were initialised
    pub tmp: [TV; 4],
    pub ctrl: u64,
    pub steps: u32,
    pub npc: u32, // delayed branch: u32::MAX = none
    pub stk: Vec<(u64, u8)>, // bytes written to the stack below/above SP by the asm itself
    pub base: RegBase,
    pub entry: EntryRegs,
}

pub fn junk(r: RegId, bits: u32, seed: u64) -> u128 {
    // distinct per register; seeds 0/1 give all-zero / all-one style garbage in a few registers on purpose
    let mut x = (r as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ seed.wrapping_mul(0xD1B5_4A32_D192_ED03);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    let y = x.wrapping_mul(0x94D0_49BB_1331_11EB) ^ (x >> 17);
    let v = ((x as u128) << 64) | y as u128;
    let v = match seed & 3 {
        0 => v,
        1 => u128::MAX,
        2 => 0,
        _ => !v,
    };
    v & mask(bits)
}

impl AsmState {
    pub fn get_raw(&self, r: RegId) -> Option<TV> {
        match self.regs.binary_search_by_key(&r, |x| x.0) {
            Ok(i) => Some(self.regs[i].1),
            Err(_) => self.base.0.get(r as usize).copied(),
        }
    }
    pub fn get(&self, r: RegId) -> TV {
        self.get_raw(r).unwrap_or_default()
    }
    pub fn set_raw(&mut self, r: RegId, v: TV) {
        match self.regs.binary_search_by_key(&r, |x| x.0) {
            Ok(i) => self.regs[i].1 = v,
            Err(i) => self.regs.insert(i, (r, v)),
        }
    }
}

/// Registers whose identity can matter to an asm block.
fn interesting(isa: &dyn Isa, a: &AsmInfo) -> Result<Vec<RegId>, String> {
    let mut inter: Vec<RegId> = vec![];
    for o in &a.ops {
        if let Cons::Fixed(n) = &o.c {
            inter.extend(isa.by_name(n).ok_or_else(|| format!("unknown register {n}"))?);
        }
    }
    for c in &a.clobbers {
        inter.extend(isa.by_name(c).ok_or_else(|| format!("unknown clobber {c}"))?);
    }
    inter.extend(isa.special_regs());
    let text = literal(&a.def.template);
    for r in isa.all_regs() {
        let n = isa.reg_name(r);
        if mentions(&text, &n) || isa_mentions(isa, &text, r) {
            inter.push(r);
        }
    }
    Ok(inter)
}

/// A few assignments that together exhibit every pair of operands that may share a register and every operand in every
/// register whose identity matters (indices into `all`, the canonical one left out).
pub fn representative(isa: &dyn Isa, a: &AsmInfo, all: &[Alloc]) -> Vec<u32> {
    let inter = interesting(isa, a).unwrap_or_default();
    let class: Vec<usize> = (0..a.ops.len()).filter(|&k| matches!(a.ops[k].c, Cons::Class(_))).collect();
    let mut feats: Vec<(usize, Vec<(usize, usize)>)> = all
        .iter()
        .enumerate()
        .map(|(ix, v)| {
            let mut f = vec![];
            for &i in &class {
                if inter.contains(&v[i]) {
                    f.push((i, 1000 + v[i] as usize));
                }
                for j in 0..v.len() {
                    if i != j && v[i] == v[j] && a.ops[j].c != Cons::Tied(i) && !(class.contains(&j) && j < i) {
                        f.push((i, j));
                    }
                }
            }
            (ix, f)
        })
        .collect();
    feats.sort_by_key(|(ix, f)| (f.len(), *ix));
    let mut seen: std::collections::HashSet<(usize, usize)> = feats.iter().find(|x| x.0 == 0).map(|x| x.1.iter().copied().collect()).unwrap_or_default();
    let mut out = vec![];
    for (ix, f) in feats {
        if ix != 0 && f.iter().any(|x| !seen.contains(x)) {
            seen.extend(f);
            out.push(ix as u32);
        }
    }
    out
}

/// Enumerate register assignments. `interesting`: registers whose identity can matter (mentioned in the template or
/// constraints); all others are interchangeable, only the lowest unused one is tried.
pub fn enum_allocs(isa: &dyn Isa, a: &AsmInfo, vals_eq: &dyn Fn(usize, usize) -> bool, limit: usize, ptr_bits: u32) -> Result<Vec<Alloc>, String> {
    let bits_of = |k: usize| -> u32 {
        match op_bits(a, k) {
            0 => ptr_bits,
            b => b,
        }
    };
    let mut fixed: Vec<Option<RegId>> = vec![None; a.ops.len()];
    let mut inter = interesting(isa, a)?;
    for (k, o) in a.ops.iter().enumerate() {
        if let Cons::Fixed(n) = &o.c {
            let r = isa.by_name(n).ok_or_else(|| format!("unknown register {n}"))?;
            if r.is_empty() {
                // known but unmodelled register (clobber-only output)
                continue;
            }
            fixed[k] = Some(r[0]);
        }
    }
    let mut clob: Vec<RegId> = vec![];
    for c in &a.clobbers {
        let r = isa.by_name(c).ok_or_else(|| format!("unknown clobber {c}"))?;
        clob.extend(r);
    }
    inter.sort();
    inter.dedup();
    let mut out = vec![];
    // registers occupied: per operand (r). Conflict rules:
    //  inputs & early outputs & clobbers mutually distinct (inputs with equal values may coincide);
    //  late outputs distinct from other outputs/clobbers, may coincide with an input that is not tied to another output.
    fn rec(
        isa: &dyn Isa,
        a: &AsmInfo,
        k: usize,
        order: &[usize],
        cur: &mut Vec<Option<RegId>>,
        fixed: &[Option<RegId>],
        clob: &[RegId],
        inter: &[RegId],
        bits_of: &dyn Fn(usize) -> u32,
        vals_eq: &dyn Fn(usize, usize) -> bool,
        out: &mut Vec<Alloc>,
        limit: usize,
    ) -> Result<(), String> {
        if out.len() >= limit {
            return Ok(());
        }
        if k == order.len() {
            let v: Alloc = cur.iter().map(|x| x.unwrap_or(RegId::MAX)).collect();
            out.push(v);
            return Ok(());
        }
        let o = order[k];
        let oc = &a.ops[o];
        let tied_to_other = |i: usize| -> Option<usize> {
            if let Cons::Tied(t) = a.ops[i].c {
                Some(t)
            } else {
                None
            }
        };
        let overlaps = |x: RegId, bx: u32, y: RegId, by: u32| -> bool {
            let px = isa.pair(x, bx).unwrap_or_else(|| vec![x]);
            let py = isa.pair(y, by).unwrap_or_else(|| vec![y]);
            px.iter().any(|r| py.contains(r))
        };
        let conflict = |cur: &Vec<Option<RegId>>, r: RegId| -> bool {
            if !oc.out || oc.early {
                if clob.iter().any(|&c| overlaps(r, bits_of(o), c, 0)) {
                    return true;
                }
            }
            for (j, c) in cur.iter().enumerate() {
                let Some(c) = c else { continue };
                if j == o || !overlaps(r, bits_of(o), *c, bits_of(j)) {
                    continue;
                }
                let jc = &a.ops[j];
                if oc.out && jc.out {
                    return true;
                }
                if !oc.out && !jc.out {
                    // two inputs
                    if *c == r && vals_eq(o, j) && tied_to_other(o).is_none() && tied_to_other(j).is_none() {
                        continue;
                    }
                    return true;
                }
                // one input one output
                let (i, ou) = if oc.out { (j, o) } else { (o, j) };
                if tied_to_other(i) == Some(ou) {
                    continue;
                }
                if a.ops[ou].early {
                    return true;
                }
                if tied_to_other(i).is_some() {
                    return true;
                }
                // a late output with a tied input: its register holds that input too, so it conflicts with others
                let ou_tied = a.ops.iter().any(|x| x.c == Cons::Tied(ou));
                if ou_tied {
                    return true;
                }
            }
            false
        };
        match &oc.c {
            Cons::Fixed(n) => {
                let Some(r) = fixed[o] else {
                    cur[o] = None;
                    return rec(isa, a, k + 1, order, cur, fixed, clob, inter, bits_of, vals_eq, out, limit);
                };
                let _ = n;
                if conflict(cur, r) {
                    return Ok(());
                }
                cur[o] = Some(r);
                rec(isa, a, k + 1, order, cur, fixed, clob, inter, bits_of, vals_eq, out, limit)?;
                cur[o] = None;
            }
            Cons::Tied(t) => {
                let r = cur[*t].ok_or("tied operand order")?;
                // the tied input occupies the register as an input: must not clash with other inputs
                if conflict(cur, r) {
                    return Ok(());
                }
                cur[o] = Some(r);
                rec(isa, a, k + 1, order, cur, fixed, clob, inter, bits_of, vals_eq, out, limit)?;
                cur[o] = None;
            }
            Cons::Class(c) => {
                let b = bits_of(o);
                let ci = isa.class(c, b).ok_or_else(|| format!("unknown class {c} for {b} bits"))?;
                let mut fresh_done = false;
                for &r in &ci.regs {
                    let used = cur.iter().enumerate().any(|(j, x)| x.is_some_and(|x| overlaps(r, b, x, bits_of(j))));
                    let interesting = inter.contains(&r) || isa.pair(r, b).is_some_and(|p| p.iter().any(|x| inter.contains(x)));
                    if !used && !interesting {
                        if fresh_done {
                            continue;
                        }
                        fresh_done = true;
                    }
                    if conflict(cur, r) {
                        continue;
                    }
                    cur[o] = Some(r);
                    rec(isa, a, k + 1, order, cur, fixed, clob, inter, bits_of, vals_eq, out, limit)?;
                    cur[o] = None;
                }
            }
            Cons::Imm | Cons::Mem => return Err("unsupported operand kind".into()),
        }
        Ok(())
    }
    // fixed first, then outputs, then inputs
    let mut order: Vec<usize> = (0..a.ops.len()).filter(|&k| matches!(a.ops[k].c, Cons::Fixed(_))).collect();
    order.extend((0..a.ops.len()).filter(|&k| matches!(a.ops[k].c, Cons::Class(_))));
    order.extend((0..a.ops.len()).filter(|&k| matches!(a.ops[k].c, Cons::Tied(_))));
    let mut cur = vec![None; a.ops.len()];
    rec(isa, a, 0, &order, &mut cur, &fixed, &clob, &inter, &bits_of, vals_eq, &mut out, limit)?;
    if out.is_empty() {
        return Err(format!("no register assignment satisfies {}", a.def.constraints));
    }
    // canonical first: all operands in distinct registers where possible, no interesting ones
    let score = |v: &Alloc| -> usize {
        let mut s = 0;
        for i in 0..v.len() {
            if matches!(a.ops[i].c, Cons::Class(_)) {
                if inter.contains(&v[i]) {
                    s += 10;
                }
                for j in 0..v.len() {
                    if i != j && v[i] == v[j] && a.ops[j].c != Cons::Tied(i) {
                        s += 1;
                    }
                }
            }
        }
        s
    };
    let (bi, _) = out.iter().enumerate().min_by_key(|(i, v)| (score(v), *i)).unwrap();
    out.swap(0, bi);
    Ok(out)
}

pub fn op_bits(a: &AsmInfo, k: usize) -> u32 {
    use crate::ir::Ty;
    fn tb(t: &Ty) -> u32 {
        match t {
            Ty::Int(n) => *n,
            Ty::Float(n) => *n,
            Ty::Vec(n, e) => n * tb(e),
            _ => 0, // pointer: caller's pointer width
        }
    }
    if k < a.nout {
        match &a.def.ret {
            Ty::Struct(f, _) if a.nout > 1 => tb(&f[k]),
            t => tb(t),
        }
    } else {
        tb(&a.def.args[k - a.nout])
    }
}

/// the template without operand references, `$$` unescaped
fn literal(t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() {
            match b[i + 1] {
                '$' => {
                    o.push('$');
                    i += 2;
                    continue;
                }
                '{' => {
                    while i < b.len() && b[i] != '}' {
                        i += 1;
                    }
                    i += 1;
                    o.push(' ');
                    continue;
                }
                c if c.is_ascii_digit() => {
                    i += 1;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                    o.push(' ');
                    continue;
                }
                _ => {}
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}
pub fn mentions(t: &str, name: &str) -> bool {
    let b = t.as_bytes();
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    while let Some(p) = t[i..].find(name) {
        let s = i + p;
        let e = s + name.len();
        let before = s == 0 || (!isw(b[s - 1]));
        let after = e >= b.len() || !isw(b[e]);
        if before && after {
            return true;
        }
        i = s + 1;
    }
    false
}
fn isa_mentions(isa: &dyn Isa, t: &str, r: RegId) -> bool {
    // any identifier in the template that names (part of) this register
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once(' ')) {
        if c.is_ascii_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            if !w.is_empty() {
                if let Some(v) = isa.by_name(&w) {
                    if v.contains(&r) {
                        return true;
                    }
                }
            }
            w.clear();
            if c == '$' {
                w.push('$');
            }
        }
    }
    false
}

/// Substitute operands into the template.
pub fn substitute(isa: &dyn Isa, a: &AsmInfo, al: &Alloc, ptr_bits: u32) -> Result<String, String> {
    let t: Vec<char> = a.def.template.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] != '$' {
            o.push(t[i]);
            i += 1;
            continue;
        }
        i += 1;
        if i >= t.len() {
            return Err("dangling $".into());
        }
        if t[i] == '$' {
            o.push('$');
            i += 1;
        } else if t[i] == '{' {
            let mut j = i + 1;
            let mut s = String::new();
            while t[j] != '}' {
                s.push(t[j]);
                j += 1;
            }
            i = j + 1;
            let (n, m) = match s.split_once(':') {
                Some((n, m)) => (n, m.chars().next()),
                None => (s.as_str(), None),
            };
            let n: usize = match n.parse() {
                Ok(n) => n,
                Err(_) => return Err(format!("template operand {s}")),
            };
            let mut b = op_bits(a, n);
            if b == 0 {
                b = ptr_bits;
            }
            o.push_str(&isa.format(al[n], m, b)?);
        } else if t[i].is_ascii_digit() {
            let mut n = 0usize;
            while i < t.len() && t[i].is_ascii_digit() {
                n = n * 10 + t[i] as usize - '0' as usize;
                i += 1;
            }
            let mut b = op_bits(a, n);
            if b == 0 {
                b = ptr_bits;
            }
            o.push_str(&isa.format(al[n], None, b)?);
        } else {
            return Err(format!("template at {:?}", &t[i..]));
        }
    }
    Ok(o)
}

pub fn assemble(isa: &dyn Isa, text: &str) -> Result<Prog, String> {
    let mut insns = vec![];
    let mut labels: HashMap<String, Vec<usize>> = HashMap::new();
    // block comments
    let mut plain = String::new();
    let mut rest = text;
    while let Some((a, b)) = rest.split_once("/*") {
        plain.push_str(a);
        plain.push(' ');
        rest = b.split_once("*/").map_or("", |x| x.1);
    }
    plain.push_str(rest);
    for l in isa.lines(&plain) {
        let mut l = l.as_str();
        // leading labels
        loop {
            let t = l.trim_start();
            if let Some(p) = t.find(':') {
                let n = &t[..p];
                if !n.is_empty() && n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$') {
                    labels.entry(n.to_string()).or_default().push(insns.len());
                    l = &t[p + 1..];
                    continue;
                }
            }
            l = t;
            break;
        }
        if l.is_empty() || isa.is_comment(l) {
            continue;
        }
        insns.push(isa.parse(l).map_err(|e| format!("{e} in '{l}'"))?);
    }
    Ok(Prog { insns, labels })
}

/// Helpers for ISA parsers
pub fn split_ops(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut d = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            ',' if d == 0 => {
                v.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    v
}
pub fn parse_imm(s: &str) -> Option<i128> {
    let s = s.trim().trim_start_matches('#').trim();
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t.trim()),
        None => (false, s.strip_prefix('+').unwrap_or(s).trim()),
    };
    let v = if let Some(h) = t.strip_prefix("0x").or_else(|| t.strip_prefix("0X")) {
        i128::from_str_radix(h, 16).ok()?
    } else if let Some(h) = t.strip_prefix("0b").or_else(|| t.strip_prefix("0B")) {
        i128::from_str_radix(h, 2).ok()?
    } else if t.len() > 1 && t.starts_with('0') && t.bytes().all(|c| c.is_ascii_digit()) {
        i128::from_str_radix(t, 8).ok()?
    } else {
        t.parse::<i128>().ok()?
    };
    Some(if neg { -v } else { v })
}
pub fn mk(mn: &str, ops: Vec<Oper>, text: &str, x: u32) -> Insn {
    Insn { mn: mn.to_string(), ops, text: text.to_string(), x }
}
pub type RcIsa = Rc<dyn Isa>;
