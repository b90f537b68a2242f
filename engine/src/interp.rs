//! IR interpreter: executes one thread of the real code up to its next access of shared memory.
use crate::asm::*;
use crate::ir::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub const PLAIN: u32 = 0x1000; // MemReq flag: ordinary (non-atomic, IR-level) access
pub const IRATOMIC: u32 = 0x2000; // MemReq flag: LLVM atomic access

/// IR value. `u` marks bits that are undef.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    N,
    I(u128, u128),
    A(Rc<Vec<V>>),
}
impl V {
    fn any_undef(&self) -> bool {
        match self {
            V::N => true,
            V::I(_, u) => *u != 0,
            V::A(v) => v.iter().any(|x| x.any_undef()),
        }
    }
}

pub struct Linked {
    pub mods: Vec<Module>,
    pub layout: Layout,
    pub funcs: Vec<(usize, Rc<Func>)>,
    pub fidx: HashMap<String, u32>,
    pub fidx_mod: Vec<HashMap<String, u32>>,
    pub gaddr: Vec<HashMap<String, u64>>,
    pub gmem: Vec<u8>,
    pub gbase: u64,
    pub faddr: HashMap<u64, u32>,
    pub asm_off: Vec<usize>,
    pub calls: Vec<Vec<u32>>, // unused slot for future call graph
}

pub struct Bases {
    pub shared: u64,
    pub private: u64,
    pub pstep: u64,
    pub stack: u64,
    pub globals: u64,
}
pub fn bases(pb: u32) -> Bases {
    match pb {
        16 => Bases { shared: 0x2100, private: 0x4000, pstep: 0x1000, stack: 0x3400, globals: 0x8000 },
        32 => Bases { shared: 0x9ab8_1000, private: 0xc123_0000, pstep: 0x10000, stack: 0xb765_4000, globals: 0xe100_0000 },
        _ => Bases { shared: 0x7a5c_9ab8_1000, private: 0x7b01_8123_0000, pstep: 0x10000, stack: 0x7ffe_b765_4000, globals: 0x55e1_8100_0000 },
    }
}

pub fn link(mods: Vec<Module>) -> Result<Linked, String> {
    let layout = mods[0].layout.clone();
    let b = bases(layout.ptr_bits);
    let mut funcs = vec![];
    let mut fidx = HashMap::new();
    let mut fidx_mod = vec![];
    let mut asm_off = vec![];
    let mut off = 0;
    for (i, m) in mods.iter().enumerate() {
        asm_off.push(off);
        off += m.asms.len();
        let mut local = HashMap::new();
        let mut names: Vec<&String> = m.funcs.keys().collect();
        names.sort();
        for n in names {
            let id = funcs.len() as u32;
            funcs.push((i, m.funcs[n].clone()));
            local.insert(n.clone(), id);
            fidx.entry(n.clone()).or_insert(id);
        }
        fidx_mod.push(local);
    }
    let mut l = Linked { mods, layout, funcs, fidx, fidx_mod, gaddr: vec![], gmem: vec![], gbase: b.globals, faddr: HashMap::new(), asm_off, calls: vec![] };
    // place globals
    let mut pos = b.globals;
    let mut ext: HashMap<String, u64> = HashMap::new();
    for m in &l.mods {
        let mut map = HashMap::new();
        for g in &m.globals {
            if g.init.is_none() {
                continue;
            }
            let a = g.align.max(1);
            pos = pos.div_ceil(a) * a;
            map.insert(g.name.clone(), pos);
            ext.entry(g.name.clone()).or_insert(pos);
            pos += l.layout.size(&g.ty).max(1) + 1;
        }
        l.gaddr.push(map);
    }
    for (i, m) in l.mods.iter().enumerate() {
        for g in &m.globals {
            if g.init.is_none() {
                let a = ext.get(&g.name).copied().unwrap_or_else(|| {
                    pos += 16;
                    pos - 16
                });
                l.gaddr[i].insert(g.name.clone(), a);
            }
        }
    }
    // function addresses
    pos = pos.div_ceil(16) * 16 + 16;
    let fcount = l.funcs.len();
    let fa: Vec<u64> = (0..fcount).map(|i| pos + i as u64 * 4).collect();
    for (i, a) in fa.iter().enumerate() {
        l.faddr.insert(*a, i as u32);
    }
    for k in 0..l.mods.len() {
        let names: Vec<(String, u32)> = l.fidx.iter().map(|(n, i)| (n.clone(), *i)).collect();
        for (n, i) in names {
            l.gaddr[k].entry(n).or_insert(fa[i as usize]);
        }
        let loc: Vec<(String, u32)> = l.fidx_mod[k].iter().map(|(n, i)| (n.clone(), *i)).collect();
        for (n, i) in loc {
            l.gaddr[k].insert(n, fa[i as usize]);
        }
    }
    // initial contents
    l.gmem = vec![0; (pos - b.globals) as usize];
    for i in 0..l.mods.len() {
        for k in 0..l.mods[i].globals.len() {
            let g = l.mods[i].globals[k].clone();
            if let Some(c) = &g.init {
                let at = (l.gaddr[i][&g.name] - b.globals) as usize;
                let mut buf = vec![0u8; l.layout.size(&g.ty) as usize];
                write_const(&l, i, &g.ty, c, &mut buf)?;
                l.gmem[at..at + buf.len()].copy_from_slice(&buf);
            }
        }
    }
    Ok(l)
}

fn put_int(big: bool, v: u128, n: usize, out: &mut [u8]) {
    for i in 0..n.min(out.len()) {
        let b = if i < 16 { (v >> (8 * i)) as u8 } else { 0 };
        if big {
            out[n - 1 - i] = b;
        } else {
            out[i] = b;
        }
    }
}

fn write_const(l: &Linked, m: usize, t: &Ty, c: &Const, out: &mut [u8]) -> Result<(), String> {
    match c {
        Const::Undef | Const::Zero => Ok(()),
        Const::Bytes(b) => {
            let n = b.len().min(out.len());
            out[..n].copy_from_slice(&b[..n]);
            Ok(())
        }
        Const::Agg(v) => {
            match t {
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    let s = l.layout.size(e) as usize;
                    for (i, (ty, c)) in v.iter().enumerate() {
                        write_const(l, m, ty, c, &mut out[i * s..])?;
                    }
                }
                Ty::Struct(f, p) => {
                    for (i, (ty, c)) in v.iter().enumerate() {
                        let o = l.layout.field_off(f, *p, i) as usize;
                        write_const(l, m, ty, c, &mut out[o..])?;
                    }
                }
                _ => return Err("aggregate constant".into()),
            }
            Ok(())
        }
        _ => {
            if let V::I(v, _) = const_val(l, m, t, c)? {
                put_int(l.layout.big, v, l.layout.store_size(t) as usize, out);
            }
            Ok(())
        }
    }
}

pub fn const_val(l: &Linked, m: usize, t: &Ty, c: &Const) -> Result<V, String> {
    Ok(match c {
        Const::Int(v) => V::I(*v & mask(l.layout.size_bits(t) as u32), 0),
        Const::Undef => undef_of(&l.layout, t),
        Const::Zero => zero_of(&l.layout, t),
        Const::Global(n) => V::I(*l.gaddr[m].get(n).unwrap_or(&(l.gbase - 64)) as u128, 0),
        Const::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| const_val(l, m, t, c)).collect::<Result<Vec<_>, _>>()?)),
        Const::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::I(x as u128, 0)).collect())),
        Const::Gep(base, ty, idx) => {
            let V::I(b, u) = const_val(l, m, &base.0, &base.1)? else { return Err("gep".into()) };
            let mut ix = vec![];
            for (t, c) in idx {
                let V::I(v, _) = const_val(l, m, t, c)? else { return Err("gep".into()) };
                ix.push(sext(v, l.layout.size_bits(t) as u32));
            }
            let o = gep_off(&l.layout, ty, &ix)?;
            V::I((b as i128 + o) as u128 & mask(l.layout.ptr_bits), u)
        }
        Const::Cast(b) => {
            let V::I(v, u) = const_val(l, m, &b.0, &b.1)? else { return Err("cast".into()) };
            V::I(v & mask(l.layout.size_bits(t) as u32), u)
        }
        Const::Sub(a, b) => {
            let (V::I(x, _), V::I(y, _)) = (const_val(l, m, &a.0, &a.1)?, const_val(l, m, &b.0, &b.1)?) else { return Err("sub".into()) };
            V::I(x.wrapping_sub(y) & mask(l.layout.size_bits(t) as u32), 0)
        }
    })
}

fn gep_off(l: &Layout, ty: &Ty, ix: &[i128]) -> Result<i128, String> {
    let mut o = ix[0] * l.size(ty) as i128;
    let mut t = ty.clone();
    for &i in &ix[1..] {
        match &t.clone() {
            Ty::Struct(f, p) => {
                o += l.field_off(f, *p, i as usize) as i128;
                t = f[i as usize].clone();
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                o += i * l.size(e) as i128;
                t = (**e).clone();
            }
            _ => return Err("gep index".into()),
        }
    }
    Ok(o)
}

pub fn undef_of(l: &Layout, t: &Ty) -> V {
    match t {
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| undef_of(l, t)).collect())),
        Ty::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| undef_of(l, e)).collect())),
        Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| undef_of(l, e)).collect())),
        Ty::Void | Ty::Opaque => V::N,
        _ => V::I(0, mask(l.size_bits(t) as u32)),
    }
}
pub fn zero_of(l: &Layout, t: &Ty) -> V {
    match t {
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| zero_of(l, t)).collect())),
        Ty::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| zero_of(l, e)).collect())),
        Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| zero_of(l, e)).collect())),
        Ty::Void | Ty::Opaque => V::N,
        _ => V::I(0, 0),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame {
    f: u32,
    block: u32,
    ip: u32,
    locals: Vec<V>,
    base: u32, // private memory height at entry
    dst: Option<u32>,
    asm: Option<Box<AsmState>>,
    phase: u8,
    tmp: u128,
}

impl Frame {
    pub fn asm_ctrl(&self) -> Option<u64> {
        self.asm.as_ref().map(|a| a.ctrl)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub pm: Vec<u8>,
    pub pu: Vec<u8>,  // undef bits
    pub pa: Vec<bool>, // allocated
    pub ix: u8,
    pub ret: Option<V>,
    pub iflag: u8, // interrupt enable (interrupt-based targets)
    pub open: bool, // an interrupt could be taken since the previous shared access
    pub fade: bool, // the pending access is outside of asm blocks
    pub open_at: bool, // the same when the pending shared access was reached
    pub chunks: Vec<u32>, // asm blocks entered so far (u32::MAX: compiler fence); only recorded when taints are tracked
    pub pendf: u8,        // fence effect of a private locked access: 1 = to be reported, 2 = reported
}

#[derive(Clone, Debug)]
pub enum Ev {
    Mem(MemReq),
    Tick,
    Done,
    Panic(String),
}

/// One register assignment per asm block; `None` = canonical.
pub type AllocMap = BTreeMap<u32, u32>;

pub struct Ctx {
    pub l: Linked,
    pub isa: RcIsa,
    pub infos: Vec<AsmInfo>,
    pub progs: RefCell<HashMap<(u32, u32), Rc<Prog>>>,
    pub allocs: RefCell<HashMap<u32, Rc<Vec<Alloc>>>>,
    pub choice: RefCell<AllocMap>,
    pub seed: Cell<u64>,
    pub rb: RefCell<HashMap<u64, RegBase>>,
    pub contract: Cell<bool>,
    pub share_equal: Cell<bool>,
    pub taints: Cell<bool>,
    pub cov: RefCell<HashSet<u32>>,
    pub insns: Cell<u64>,
    pub b: Bases,
    pub shared_len: u64,
    pub trace: Cell<bool>,
}

pub const SHARED_LEN: u64 = 256;
const STEP_LIMIT: u32 = 4000;

pub fn ctx(l: Linked, isa: RcIsa) -> Result<Ctx, String> {
    let mut infos = vec![];
    for m in &l.mods {
        for a in &m.asms {
            infos.push(parse_constraints(a)?);
        }
    }
    let b = bases(l.layout.ptr_bits);
    Ok(Ctx {
        l,
        isa,
        infos,
        progs: Default::default(),
        allocs: Default::default(),
        choice: Default::default(),
        seed: Cell::new(0),
        rb: Default::default(),
        contract: Cell::new(false),
        share_equal: Cell::new(false),
        taints: Cell::new(false),
        cov: Default::default(),
        insns: Cell::new(0),
        b,
        shared_len: SHARED_LEN,
        trace: Cell::new(false),
    })
}

impl Ctx {
    pub fn func(&self, n: &str) -> Option<u32> {
        self.l.fidx.get(n).copied()
    }
    pub fn private_base(&self, ix: u8) -> u64 {
        self.b.private + ix as u64 * self.b.pstep
    }
    fn is_shared(&self, a: u64) -> bool {
        a >= self.b.shared && a < self.b.shared + self.shared_len
    }
    fn regbase(&self) -> RegBase {
        let s = self.seed.get();
        self.rb.borrow_mut().entry(s).or_insert_with(|| crate::isa::reg_base(&*self.isa, s)).clone()
    }
    pub fn allocs_of(&self, aid: u32, vals: Option<&[V]>, limit: usize) -> Result<Rc<Vec<Alloc>>, String> {
        let info = &self.infos[aid as usize];
        if let Some(v) = vals {
            let n = info.nout;
            let eq = |a: usize, b: usize| a >= n && b >= n && v[a - n] == v[b - n] && info.def.args[a - n] == info.def.args[b - n];
            return Ok(Rc::new(enum_allocs(&*self.isa, info, &eq, limit, self.l.layout.ptr_bits)?));
        }
        if let Some(a) = self.allocs.borrow().get(&aid) {
            return Ok(a.clone());
        }
        let r = Rc::new(enum_allocs(&*self.isa, info, &|_, _| false, limit, self.l.layout.ptr_bits)?);
        self.allocs.borrow_mut().insert(aid, r.clone());
        Ok(r)
    }
    pub fn representatives(&self, aid: u32) -> Vec<u32> {
        self.allocs_of(aid, None, 50_000).map(|a| representative(&*self.isa, &self.infos[aid as usize], &a)).unwrap_or_default()
    }
    fn prog(&self, aid: u32, alix: u32) -> FR<Rc<Prog>> {
        if let Some(p) = self.progs.borrow().get(&(aid, alix)) {
            return Ok(p.clone());
        }
        let info = &self.infos[aid as usize];
        let al = self.allocs_of(aid, None, 200_000).map_err(|e| Fault::Engine(format!("{e} in asm of {}", info.def.func)))?;
        let t = substitute(&*self.isa, info, &al[alix as usize], self.l.layout.ptr_bits).map_err(Fault::Engine)?;
        let p = assemble(&*self.isa, &t).map_err(Fault::Engine)?;
        let p = Rc::new(p);
        self.progs.borrow_mut().insert((aid, alix), p.clone());
        Ok(p)
    }
    pub fn asm_text(&self, aid: u32, alix: u32) -> String {
        let info = &self.infos[aid as usize];
        match self.allocs_of(aid, None, 200_000) {
            Ok(al) => substitute(&*self.isa, info, &al[alix as usize], self.l.layout.ptr_bits).unwrap_or_default(),
            Err(_) => info.def.template.clone(),
        }
    }
}

impl Thread {
    pub fn new(ix: u8) -> Thread {
        Thread { ix, ..Default::default() }
    }
    /// Allocate `size` bytes of private memory.
    pub fn alloc(&mut self, size: u64, align: u64, cx: &Ctx) -> u64 {
        let base = cx.private_base(self.ix);
        let mut at = self.pm.len() as u64 + 3; // guard gap
        let al = align.max(1);
        at = (base + at).div_ceil(al) * al - base;
        let end = (at + size) as usize;
        self.pm.resize(end, 0);
        self.pu.resize(at as usize, 0xff);
        self.pu.resize(end, 0xff);
        self.pa.resize(at as usize, false);
        self.pa.resize(end, true);
        base + at
    }
    pub fn poke(&mut self, cx: &Ctx, a: u64, bytes: &[u8], undef: &[u8]) {
        let o = (a - cx.private_base(self.ix)) as usize;
        self.pm[o..o + bytes.len()].copy_from_slice(bytes);
        for i in 0..bytes.len() {
            self.pu[o + i] = undef.get(i).copied().unwrap_or(0);
        }
    }
    pub fn peek(&self, cx: &Ctx, a: u64, n: usize) -> (Vec<u8>, Vec<u8>) {
        let o = (a - cx.private_base(self.ix)) as usize;
        (self.pm[o..o + n].to_vec(), self.pu[o..o + n].to_vec())
    }
    pub fn start(&mut self, cx: &Ctx, f: u32, args: Vec<V>) {
        let fu = &cx.l.funcs[f as usize].1;
        let mut locals = vec![V::N; fu.nlocals as usize];
        for (i, a) in args.into_iter().enumerate() {
            locals[i] = a;
        }
        self.ret = None;
        self.iflag = 1;
        self.open = false;
        self.open_at = false;
        self.frames = vec![Frame { f, block: 0, ip: 0, locals, base: self.pm.len() as u32, dst: None, asm: None, phase: 0, tmp: 0 }];
    }
    fn prange(&self, cx: &Ctx, a: u64, n: u64) -> Option<usize> {
        let b = cx.private_base(self.ix);
        if a < b {
            return None;
        }
        let o = (a - b) as usize;
        if o.checked_add(n as usize).is_none_or(|e| e > self.pm.len()) {
            return None;
        }
        if self.pa[o..o + n as usize].iter().all(|x| *x) {
            Some(o)
        } else {
            None
        }
    }
    fn read_bytes(&self, cx: &Ctx, a: u64, n: u64) -> FR<(Vec<u8>, Vec<u8>)> {
        if let Some(o) = self.prange(cx, a, n) {
            return Ok((self.pm[o..o + n as usize].to_vec(), self.pu[o..o + n as usize].to_vec()));
        }
        if a >= cx.l.gbase && a.checked_add(n).is_some_and(|e| e <= cx.l.gbase + cx.l.gmem.len() as u64) {
            let o = (a - cx.l.gbase) as usize;
            return Ok((cx.l.gmem[o..o + n as usize].to_vec(), vec![0; n as usize]));
        }
        if let Some(v) = cx.isa.const_mem(a, n) {
            let mut b = vec![0; n as usize];
            put_int(cx.l.layout.big, v, n as usize, &mut b);
            return Ok((b, vec![0; n as usize]));
        }
        Err(Fault::Mem(format!("read of {n} bytes at {a:#x}, which is outside every live object")))
    }
    fn write_bytes(&mut self, cx: &Ctx, a: u64, v: &[u8], u: &[u8]) -> FR<()> {
        if let Some(o) = self.prange(cx, a, v.len() as u64) {
            self.pm[o..o + v.len()].copy_from_slice(v);
            self.pu[o..o + v.len()].copy_from_slice(u);
            return Ok(());
        }
        Err(Fault::Mem(format!("write of {} bytes at {a:#x}, which is outside every live object", v.len())))
    }
}

fn bytes_of(l: &Layout, t: &Ty, v: &V, out: &mut Vec<u8>, und: &mut Vec<u8>) -> FR<()> {
    match (t, v) {
        (Ty::Struct(f, p), V::A(vs)) => {
            let st = out.len();
            let tot = l.size(t) as usize;
            for (i, ft) in f.iter().enumerate() {
                let o = l.field_off(f, *p, i) as usize;
                while out.len() < st + o {
                    out.push(0);
                    und.push(0xff);
                }
                bytes_of(l, ft, &vs[i], out, und)?;
            }
            while out.len() < st + tot {
                out.push(0);
                und.push(0xff);
            }
            Ok(())
        }
        (Ty::Arr(_, e), V::A(vs)) => {
            let s = l.size(e) as usize;
            for x in vs.iter() {
                let st = out.len();
                bytes_of(l, e, x, out, und)?;
                while out.len() < st + s {
                    out.push(0);
                    und.push(0xff);
                }
            }
            Ok(())
        }
        (Ty::Vec(_, e), V::A(vs)) => {
            for x in vs.iter() {
                bytes_of(l, e, x, out, und)?;
            }
            Ok(())
        }
        (Ty::Int(_) | Ty::Ptr | Ty::Float(_), V::I(v, u)) => {
            let n = l.store_size(t) as usize;
            let mut b = vec![0u8; n];
            let mut ub = vec![0u8; n];
            put_int(l.big, *v, n, &mut b);
            put_int(l.big, *u, n, &mut ub);
            out.extend(b);
            und.extend(ub);
            Ok(())
        }
        _ => eng(format!("store of {t:?} {v:?}")),
    }
}
fn get_int(big: bool, b: &[u8]) -> u128 {
    let mut v = 0u128;
    let n = b.len();
    for i in 0..n.min(16) {
        let x = if big { b[n - 1 - i] } else { b[i] };
        v |= (x as u128) << (8 * i);
    }
    v
}
fn val_of(l: &Layout, t: &Ty, b: &[u8], u: &[u8]) -> FR<V> {
    match t {
        Ty::Struct(f, p) => {
            let mut v = vec![];
            for (i, ft) in f.iter().enumerate() {
                let o = l.field_off(f, *p, i) as usize;
                let n = l.store_size(ft) as usize;
                v.push(val_of(l, ft, &b[o..o + n], &u[o..o + n])?);
            }
            Ok(V::A(Rc::new(v)))
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => {
            let s = if matches!(t, Ty::Vec(..)) { l.store_size(e) } else { l.size(e) } as usize;
            let n = n_of(t);
            let ss = l.store_size(e) as usize;
            let mut v = vec![];
            for i in 0..n as usize {
                v.push(val_of(l, e, &b[i * s..i * s + ss], &u[i * s..i * s + ss])?);
            }
            Ok(V::A(Rc::new(v)))
        }
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
            let m = mask(l.size_bits(t) as u32);
            Ok(V::I(get_int(l.big, b) & m, get_int(l.big, u) & m))
        }
        _ => eng(format!("load of {t:?}")),
    }
}
fn n_of(t: &Ty) -> u64 {
    match t {
        Ty::Arr(n, _) => *n,
        Ty::Vec(n, _) => *n as u64,
        _ => 0,
    }
}

fn lane_bits(l: &Layout, t: &Ty) -> u32 {
    match t {
        Ty::Vec(_, e) => l.size_bits(e) as u32,
        _ => l.size_bits(t) as u32,
    }
}

/// lowest undef bit and everything above
fn above(u: u128) -> u128 {
    if u == 0 {
        0
    } else {
        !((1u128 << u.trailing_zeros()) - 1)
    }
}

pub enum Flow {
    Cont,
    Ev(Ev),
}

impl Thread {
    fn opd(&self, cx: &Ctx, t: &Ty, o: &Opd) -> FR<V> {
        let fr = self.frames.last().unwrap();
        match o {
            Opd::Local(i) => Ok(fr.locals[*i as usize].clone()),
            Opd::Const(Const::Int(v)) => Ok(V::I(*v & mask(cx.l.layout.size_bits(t) as u32), 0)),
            Opd::Const(c) => const_val(&cx.l, cx.l.funcs[fr.f as usize].0, t, c).map_err(Fault::Engine),
        }
    }
    fn opd_int(&self, cx: &Ctx, t: &Ty, o: &Opd) -> FR<(u128, u128)> {
        match self.opd(cx, t, o)? {
            V::I(v, u) => Ok((v, u)),
            x => eng(format!("scalar expected, got {x:?}")),
        }
    }
    fn ptr(&self, cx: &Ctx, o: &Opd) -> FR<u64> {
        let (v, u) = self.opd_int(cx, &Ty::Ptr, o)?;
        if u != 0 {
            return Err(Fault::Ub("use of an uninitialized pointer".into()));
        }
        Ok(v as u64)
    }
    fn set(&mut self, d: u32, v: V) {
        self.frames.last_mut().unwrap().locals[d as usize] = v;
    }
    fn check_attr(&self, cx: &Ctx, a: &PAttr, v: &V, what: &str) -> FR<()> {
        if a.noundef && v.any_undef() && !matches!(v, V::N) {
            return Err(Fault::Ub(format!("uninitialized data passed as {what}")));
        }
        if let (Some((lo, hi)), V::I(x, 0)) = (a.range, v) {
            let ok = if lo < hi { *x >= lo && *x < hi } else { *x >= lo || *x < hi };
            if !ok {
                return Err(Fault::Ub(format!("invalid value {x:#x} passed as {what}")));
            }
        }
        if a.nonnull {
            if let V::I(0, 0) = v {
                return Err(Fault::Ub(format!("null passed as {what}")));
            }
        }
        let _ = cx;
        Ok(())
    }

    /// Runs until the next event. `resp` answers the previous Mem event.
    pub fn run(&mut self, cx: &Ctx, mut resp: Option<TV>) -> FR<Ev> {
        let mut n = 0u32;
        if std::mem::take(&mut self.fade) {
            self.iflag = cx.isa.iflag_fade(self.iflag);
            self.open |= self.iflag != 0;
        }
        if self.pendf == 2 {
            self.pendf = 0;
            resp = None;
        }
        loop {
            n += 1;
            if n > 200_000 {
                return Err(Fault::Hang("too many steps without a visible action".into()));
            }
            cx.insns.set(cx.insns.get() + 1);
            match self.step(cx, resp.take())? {
                Flow::Cont => {
                    if self.pendf == 1 {
                        self.pendf = 2;
                        return Ok(Ev::Mem(MemReq { op: Mo::Fence(F_FULL | F_ALL), addr: TV::k(0), size: 0, flags: 0 }));
                    }
                    if self.frames.is_empty() {
                        return Ok(Ev::Done);
                    }
                }
                Flow::Ev(e) => {
                    if let Ev::Mem(r) = &e {
                        self.open_at = self.open || self.iflag != 0;
                        self.open = false;
                        self.fade = r.flags & PLAIN != 0;
                    }
                    return Ok(e);
                }
            }
        }
    }

    fn jump(&mut self, cx: &Ctx, to: u32) -> FR<()> {
        let fr = self.frames.last().unwrap();
        let from = fr.block;
        let fu = cx.l.funcs[fr.f as usize].1.clone();
        let mut upd = vec![];
        for i in &fu.blocks[to as usize] {
            if let Inst::Phi { dst, ty, inc } = i {
                let (o, _) = inc.iter().find(|x| x.1 == from).ok_or(Fault::Engine("phi".into()))?;
                upd.push((*dst, self.opd(cx, ty, o)?));
            } else {
                break;
            }
        }
        let k = upd.len();
        for (d, v) in upd {
            self.set(d, v);
        }
        let fr = self.frames.last_mut().unwrap();
        fr.block = to;
        fr.ip = k as u32;
        Ok(())
    }

    fn shared_access(&self, cx: &Ctx, a: u64, n: u64) -> FR<bool> {
        let s = cx.is_shared(a);
        let e = cx.is_shared(a + n.max(1) - 1);
        if s != e {
            return Err(Fault::Mem(format!("access of {n} bytes at {a:#x} crosses the end of an object")));
        }
        Ok(s)
    }

    fn step(&mut self, cx: &Ctx, resp: Option<TV>) -> FR<Flow> {
        let fr = self.frames.last_mut().unwrap();
        if fr.asm.is_some() {
            return self.asm_step(cx, resp);
        }
        let fu = cx.l.funcs[fr.f as usize].1.clone();
        let inst = &fu.blocks[fr.block as usize][fr.ip as usize];
        let l = &cx.l.layout;
        let mi = cx.l.funcs[fr.f as usize].0;
        fr.ip += 1;
        macro_rules! redo {
            () => {
                self.frames.last_mut().unwrap().ip -= 1
            };
        }
        match inst {
            Inst::Phi { .. } => return eng("phi in the middle"),
            Inst::Alloca { dst, size, align } => {
                let p = self.alloc(*size, *align, cx);
                self.set(*dst, V::I(p as u128, 0));
            }
            Inst::Load { dst, ty, ptr, noundef, range, atomic, .. } => {
                let p = self.ptr(cx, ptr)?;
                let n = l.store_size(ty);
                let (b, u) = if n > 0 && self.shared_access(cx, p, n)? {
                    match resp {
                        None => {
                            redo!();
                            if n > 16 {
                                return eng("wide load of shared memory");
                            }
                            return Ok(Flow::Ev(Ev::Mem(MemReq { op: Mo::Load, addr: TV::k(p as u128), size: n as u32, flags: if atomic.is_some() { IRATOMIC } else { PLAIN } })));
                        }
                        Some(r) => {
                            let mut b = vec![0; n as usize];
                            put_int(l.big, r.v, n as usize, &mut b);
                            (b, vec![0; n as usize])
                        }
                    }
                } else {
                    self.read_bytes(cx, p, n)?
                };
                let v = if n == 0 { zero_of(l, ty) } else { val_of(l, ty, &b, &u)? };
                if *noundef && v.any_undef() {
                    return Err(Fault::Ub(format!("load of an uninitialized value in {}", fu.name)));
                }
                if let (Some(r), V::I(x, 0)) = (range, &v) {
                    if let Some(rs) = cx.l.mods[mi].ranges.get(r) {
                        if !rs.iter().any(|&(lo, hi)| if lo < hi { *x >= lo && *x < hi } else { *x >= lo || *x < hi }) {
                            return Err(Fault::Ub(format!("load of invalid value {x:#x}")));
                        }
                    }
                }
                self.set(*dst, v);
            }
            Inst::Store { ty, val, ptr, atomic, .. } => {
                let v = self.opd(cx, ty, val)?;
                let p = self.ptr(cx, ptr)?;
                let mut b = vec![];
                let mut u = vec![];
                if l.store_size(ty) > 0 {
                    bytes_of(l, ty, &v, &mut b, &mut u)?;
                }
                let n = b.len() as u64;
                if n > 0 && self.shared_access(cx, p, n)? {
                    if resp.is_none() {
                        redo!();
                        if n > 16 {
                            return eng("wide store to shared memory");
                        }
                        for i in 0..b.len() {
                            b[i] = (b[i] & !u[i]) | (junk(900 + i as u16, 8, cx.seed.get()) as u8 & u[i]);
                        }
                        let v = get_int(l.big, &b);
                        return Ok(Flow::Ev(Ev::Mem(MemReq { op: Mo::Store(TV::k(v)), addr: TV::k(p as u128), size: n as u32, flags: if atomic.is_some() { IRATOMIC } else { PLAIN } })));
                    }
                } else if n > 0 {
                    self.write_bytes(cx, p, &b, &u)?;
                }
            }
            Inst::Gep { dst, base, ty, idx } => {
                let (b, mut u) = self.opd_int(cx, &Ty::Ptr, base)?;
                let mut ix = vec![];
                for (t, o) in idx {
                    let (v, uu) = self.opd_int(cx, t, o)?;
                    u |= if uu != 0 { mask(l.ptr_bits) } else { 0 };
                    ix.push(sext(v, l.size_bits(t) as u32));
                }
                let o = gep_off(l, ty, &ix).map_err(Fault::Engine)?;
                self.set(*dst, V::I((b as i128).wrapping_add(o) as u128 & mask(l.ptr_bits), u));
            }
            Inst::Bin { dst, op, ty, a, b, nuw, nsw, exact } => {
                let x = self.opd(cx, ty, a)?;
                let y = self.opd(cx, ty, b)?;
                let w = lane_bits(l, ty);
                let v = lanes2(&x, &y, &mut |x, y| bin(*op, w, x, y, *nuw, *nsw, *exact))?;
                self.set(*dst, v);
            }
            Inst::Icmp { dst, p, ty, a, b } => {
                let x = self.opd(cx, ty, a)?;
                let y = self.opd(cx, ty, b)?;
                let w = lane_bits(l, ty);
                let v = lanes2(&x, &y, &mut |x, y| Ok(icmp(*p, w, x, y)))?;
                self.set(*dst, v);
            }
            Inst::Cast { dst, op, from, v, to } => {
                let x = self.opd(cx, from, v)?;
                let r = match op {
                    CastOp::Bitcast => {
                        if l.size_bits(from) == l.size_bits(to) && !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
                            x
                        } else {
                            let mut b = vec![];
                            let mut u = vec![];
                            bytes_of(l, from, &x, &mut b, &mut u)?;
                            val_of(l, to, &b, &u)?
                        }
                    }
                    _ => {
                        let fw = lane_bits(l, from);
                        let tw = lane_bits(l, to);
                        lanes1(&x, &mut |(v, u)| {
                            Ok(match op {
                                CastOp::SExt => {
                                    let v2 = sext(v, fw) as u128 & mask(tw);
                                    let mut u2 = u;
                                    if u >> (fw - 1) & 1 == 1 {
                                        u2 |= mask(tw) & !mask(fw);
                                    }
                                    (v2, u2)
                                }
                                _ => (v & mask(tw), u & mask(tw)),
                            })
                        })?
                    }
                };
                self.set(*dst, r);
            }
            Inst::Select { dst, c, cty, ty, a, b } => {
                let x = self.opd(cx, ty, a)?;
                let y = self.opd(cx, ty, b)?;
                match self.opd(cx, cty, c)? {
                    V::I(cv, cu) => {
                        if cu & 1 != 0 {
                            let r = undef_of(l, ty);
                            self.set(*dst, r);
                        } else {
                            self.set(*dst, if cv & 1 == 1 { x } else { y });
                        }
                    }
                    V::A(cs) => {
                        let (V::A(x), V::A(y)) = (x, y) else { return eng("vector select") };
                        let mut r = vec![];
                        for i in 0..cs.len() {
                            match cs[i] {
                                V::I(1, 0) => r.push(x[i].clone()),
                                V::I(0, 0) => r.push(y[i].clone()),
                                _ => r.push(undef_of(l, ty)),
                            }
                        }
                        self.set(*dst, V::A(Rc::new(r)));
                    }
                    _ => return eng("select"),
                }
            }
            Inst::ExtractVal { dst, ty, v, idx } => {
                let mut x = self.opd(cx, ty, v)?;
                for &i in idx {
                    x = match &x {
                        V::A(f) => f[i as usize].clone(),
                        _ => return eng("extractvalue"),
                    };
                }
                self.set(*dst, x);
            }
            Inst::InsertVal { dst, ty, v, ety, e, idx } => {
                let x = self.opd(cx, ty, v)?;
                let e = self.opd(cx, ety, e)?;
                fn ins(x: &V, ix: &[u32], e: V) -> FR<V> {
                    if ix.is_empty() {
                        return Ok(e);
                    }
                    match x {
                        V::A(f) => {
                            let mut g = (**f).clone();
                            g[ix[0] as usize] = ins(&g[ix[0] as usize], &ix[1..], e)?;
                            Ok(V::A(Rc::new(g)))
                        }
                        _ => eng("insertvalue"),
                    }
                }
                let r = ins(&x, idx, e)?;
                self.set(*dst, r);
            }
            Inst::ExtractEl { dst, ty, v, ity, i } => {
                let x = self.opd(cx, ty, v)?;
                let (i, _) = self.opd_int(cx, ity, i)?;
                let V::A(f) = x else { return eng("extractelement") };
                self.set(*dst, f[i as usize].clone());
            }
            Inst::InsertEl { dst, ty, v, e, ity, i } => {
                let x = self.opd(cx, ty, v)?;
                let Ty::Vec(_, et) = ty else { return eng("insertelement") };
                let e = self.opd(cx, et, e)?;
                let (i, _) = self.opd_int(cx, ity, i)?;
                let V::A(f) = x else { return eng("insertelement") };
                let mut g = (*f).clone();
                g[i as usize] = e;
                self.set(*dst, V::A(Rc::new(g)));
            }
            Inst::Freeze { dst, ty, v } => {
                let x = self.opd(cx, ty, v)?;
                let seed = cx.seed.get();
                let r = lanes1(&x, &mut |(v, u)| Ok(((v & !u) | (junk(901, 128, seed) & u), 0)))?;
                self.set(*dst, r);
            }
            Inst::Fence(_) => {
                // compiler fences are single-thread; real fences would be a shared event
                if let Inst::Fence(s) = inst {
                    if s.contains("singlethread") {
                        if cx.taints.get() {
                            self.chunks.push(u32::MAX);
                        }
                    } else {
                        if resp.is_none() {
                            redo!();
                            return Ok(Flow::Ev(Ev::Mem(MemReq { op: Mo::Fence(F_FULL | F_ALL), addr: TV::k(0), size: 0, flags: IRATOMIC })));
                        }
                    }
                }
            }
            Inst::Rmw { dst, op, ptr, ty, v, .. } => {
                let p = self.ptr(cx, ptr)?;
                let (x, xu) = self.opd_int(cx, ty, v)?;
                if xu != 0 {
                    return Err(Fault::Ub("atomicrmw of uninitialized data".into()));
                }
                let n = l.store_size(ty) as u32;
                let k = match op.as_str() {
                    "xchg" => Rk::Swap,
                    "add" => Rk::Add,
                    "sub" => Rk::Sub,
                    "and" => Rk::And,
                    "or" => Rk::Or,
                    "xor" => Rk::Xor,
                    "max" => Rk::Max,
                    "min" => Rk::Min,
                    "umax" => Rk::Umax,
                    "umin" => Rk::Umin,
                    _ => return eng(format!("atomicrmw {op}")),
                };
                let req = MemReq { op: Mo::Rmw { k, val: TV::k(x), cmp: TV::k(0), wb_on_fail: false }, addr: TV::k(p as u128), size: n, flags: IRATOMIC };
                let old = if self.shared_access(cx, p, n as u64)? {
                    match resp {
                        None => {
                            redo!();
                            return Ok(Flow::Ev(Ev::Mem(req)));
                        }
                        Some(r) => r.v,
                    }
                } else {
                    self.private_mem(cx, &req, false)?.v
                };
                self.set(*dst, V::I(old & mask(n * 8), 0));
            }
            Inst::Cmpxchg { dst, ptr, ty, cmp, new, .. } => {
                let p = self.ptr(cx, ptr)?;
                let (c, cu) = self.opd_int(cx, ty, cmp)?;
                let (x, xu) = self.opd_int(cx, ty, new)?;
                if cu | xu != 0 {
                    return Err(Fault::Ub("cmpxchg of uninitialized data".into()));
                }
                let n = l.store_size(ty) as u32;
                let req = MemReq { op: Mo::Rmw { k: Rk::Cas, val: TV::k(x), cmp: TV::k(c), wb_on_fail: false }, addr: TV::k(p as u128), size: n, flags: IRATOMIC };
                let old = if self.shared_access(cx, p, n as u64)? {
                    match resp {
                        None => {
                            redo!();
                            return Ok(Flow::Ev(Ev::Mem(req)));
                        }
                        Some(r) => r.v,
                    }
                } else {
                    self.private_mem(cx, &req, false)?.v
                };
                let m = mask(n * 8);
                self.set(*dst, V::A(Rc::new(vec![V::I(old & m, 0), V::I((old & m == c & m) as u128, 0)])));
            }
            Inst::Br(b) => self.jump(cx, *b)?,
            Inst::CondBr(c, a, b) => {
                let (v, u) = self.opd_int(cx, &Ty::Int(1), c)?;
                if u & 1 != 0 {
                    return Err(Fault::Ub(format!("branch on an uninitialized value in {}", fu.name)));
                }
                self.jump(cx, if v & 1 == 1 { *a } else { *b })?;
            }
            Inst::Switch { ty, v, default, cases } => {
                let (v, u) = self.opd_int(cx, ty, v)?;
                if u != 0 {
                    return Err(Fault::Ub(format!("switch on an uninitialized value in {}", fu.name)));
                }
                let m = mask(l.size_bits(ty) as u32);
                let t = cases.iter().find(|c| c.0 & m == v).map(|c| c.1).unwrap_or(*default);
                self.jump(cx, t)?;
            }
            Inst::Ret(r) => {
                let v = match r {
                    Some((t, o)) => {
                        let v = self.opd(cx, t, o)?;
                        self.check_attr(cx, &fu.rattr, &v, &format!("return value of {}", fu.name))?;
                        Some(v)
                    }
                    None => None,
                };
                let fr = self.frames.pop().unwrap();
                let b = fr.base as usize;
                self.pm.truncate(b);
                self.pu.truncate(b);
                self.pa.truncate(b);
                if self.frames.is_empty() {
                    self.ret = v;
                } else if let Some(d) = fr.dst {
                    self.set(d, v.unwrap_or(V::N));
                }
            }
            Inst::Unreachable => return Err(Fault::Ub(format!("unreachable code reached in {}", fu.name))),
            Inst::Unsupported(s) => return eng(format!("IR: {s}")),
            Inst::CallPtr { dst, callee, args, .. } => {
                let p = self.ptr(cx, callee)?;
                let Some(&f) = cx.l.faddr.get(&p) else { return eng("indirect call target") };
                let av = args.iter().map(|(t, _, o)| self.opd(cx, t, o)).collect::<FR<Vec<_>>>()?;
                self.push(cx, f, av, *dst)?;
            }
            Inst::Call { dst, ret, callee, args, .. } => {
                if callee.starts_with("llvm.") {
                    return self.intrinsic(cx, *dst, ret, callee, args, resp);
                }
                let f = cx.l.fidx_mod[mi].get(callee).or_else(|| cx.l.fidx.get(callee)).copied();
                let mut av = Vec::with_capacity(args.len());
                for (t, a, o) in args {
                    let v = self.opd(cx, t, o)?;
                    self.check_attr(cx, a, &v, &format!("argument of {callee}"))?;
                    av.push(v);
                }
                // entry points of core::panicking, whether or not their bodies are available
                if f.is_none() || callee.contains("9panicking") || callee.contains("rust_begin_unwind") {
                    if callee.contains("panic_nounwind") || callee.contains("panic_misaligned") || callee.contains("panic_null_pointer") || callee.contains("panic_invalid_enum") {
                        return Err(Fault::Ub(format!("undefined behaviour detected by a library check: {callee} called from {}", fu.name)));
                    }
                    if callee.contains("panic") || callee.contains("unwrap_failed") || callee.contains("expect_failed") || callee.contains("begin_unwind") {
                        return Ok(Flow::Ev(Ev::Panic(callee.clone())));
                    }
                }
                match f {
                    Some(f) => self.push(cx, f, av, *dst)?,
                    None => {
                        return eng(format!("call of external function {callee}"));
                    }
                }
            }
            Inst::Asm { asm, args, .. } => {
                let aid = (cx.l.asm_off[mi] + asm) as u32;
                let av = args.iter().map(|(t, _, o)| self.opd(cx, t, o)).collect::<FR<Vec<_>>>()?;
                self.asm_enter(cx, aid, av)?;
            }
        }
        Ok(Flow::Cont)
    }

    fn push(&mut self, cx: &Ctx, f: u32, av: Vec<V>, dst: Option<u32>) -> FR<()> {
        if self.frames.len() > 200 {
            return Err(Fault::Hang("unbounded recursion".into()));
        }
        let fu = &cx.l.funcs[f as usize].1;
        let mut locals = vec![V::N; fu.nlocals as usize];
        for (i, v) in av.into_iter().enumerate() {
            if let Some((_, a)) = fu.params.get(i) {
                self.check_attr(cx, a, &v, &format!("parameter of {}", fu.name))?;
            }
            locals[i] = v;
        }
        let base = self.pm.len() as u32;
        self.frames.push(Frame { f, block: 0, ip: 0, locals, base, dst, asm: None, phase: 0, tmp: 0 });
        Ok(())
    }

    fn intrinsic(&mut self, cx: &Ctx, dst: Option<u32>, ret: &Ty, callee: &str, args: &[(Ty, PAttr, Opd)], resp: Option<TV>) -> FR<Flow> {
        let l = &cx.l.layout;
        let n = &callee[5..];
        let arg = |s: &Self, k: usize| -> FR<(u128, u128)> { s.opd_int(cx, &args[k].0, &args[k].2) };
        if n.starts_with("lifetime") || n.starts_with("dbg") || n.starts_with("experimental.noalias") || n.starts_with("donothing") || n.starts_with("invariant") {
            return Ok(Flow::Cont);
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Ok(Flow::Ev(Ev::Panic("trap".into())));
        }
        if n.starts_with("assume") {
            let (v, u) = arg(self, 0)?;
            if u != 0 || v & 1 == 0 {
                return Err(Fault::Ub("false assumption".into()));
            }
            return Ok(Flow::Cont);
        }
        if n.starts_with("expect") {
            let v = self.opd(cx, &args[0].0, &args[0].2)?;
            self.set(dst.unwrap(), v);
            return Ok(Flow::Cont);
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.ptr(cx, &args[0].2)?;
            let s = self.ptr(cx, &args[1].2)?;
            let (len, lu) = arg(self, 2)?;
            if lu != 0 {
                return Err(Fault::Ub("uninitialized length".into()));
            }
            let len = len as u64;
            if len == 0 {
                return Ok(Flow::Cont);
            }
            let ss = self.shared_access(cx, s, len)?;
            let ds = self.shared_access(cx, d, len)?;
            if (ss || ds) && len > 16 {
                return eng("wide copy of shared memory");
            }
            let ph = self.frames.last().unwrap().phase;
            if ph == 0 && ss && resp.is_none() {
                self.frames.last_mut().unwrap().ip -= 1;
                return Ok(Flow::Ev(Ev::Mem(MemReq { op: Mo::Load, addr: TV::k(s as u128), size: len as u32, flags: PLAIN })));
            }
            if ph == 1 {
                self.frames.last_mut().unwrap().phase = 0;
                return Ok(Flow::Cont);
            }
            let (b, u) = if ss {
                let mut b = vec![0; len as usize];
                put_int(l.big, resp.unwrap().v, len as usize, &mut b);
                (b, vec![0; len as usize])
            } else {
                self.read_bytes(cx, s, len)?
            };
            if ds {
                let mut b = b;
                for i in 0..b.len() {
                    b[i] = (b[i] & !u[i]) | (junk(900 + i as u16, 8, cx.seed.get()) as u8 & u[i]);
                }
                let f = self.frames.last_mut().unwrap();
                f.phase = 1;
                f.ip -= 1;
                return Ok(Flow::Ev(Ev::Mem(MemReq { op: Mo::Store(TV::k(get_int(l.big, &b))), addr: TV::k(d as u128), size: len as u32, flags: PLAIN })));
            }
            self.write_bytes(cx, d, &b, &u)?;
            return Ok(Flow::Cont);
        }
        if n.starts_with("memset") {
            let d = self.ptr(cx, &args[0].2)?;
            let (v, u) = arg(self, 1)?;
            let (len, _) = arg(self, 2)?;
            let b = vec![v as u8; len as usize];
            let u = vec![u as u8; len as usize];
            if len > 0 {
                self.write_bytes(cx, d, &b, &u)?;
            }
            return Ok(Flow::Cont);
        }
        let d = dst.unwrap_or(0);
        let w = if args.is_empty() { 0 } else { l.size_bits(&args[0].0) as u32 };
        let head = n.split('.').next().unwrap_or("");
        let full = |u: u128| if u == 0 { 0 } else { mask(w) };
        match head {
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (a, au) = arg(self, 0)?;
                let (b, bu) = arg(self, 1)?;
                let u = full(au | bu);
                let sat = n.contains(".sat.");
                let signed = head.starts_with('s');
                let (r, o) = if signed {
                    let (x, y) = (sext(a, w), sext(b, w));
                    let z = match &head[1..] {
                        "add" => x.checked_add(y),
                        "sub" => x.checked_sub(y),
                        _ => x.checked_mul(y),
                    };
                    let z2 = match &head[1..] {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        _ => x.wrapping_mul(y),
                    };
                    let o = z.is_none() || sext(z2 as u128, w) != z2;
                    (z2 as u128 & mask(w), o)
                } else {
                    let z = match &head[1..] {
                        "add" => a.checked_add(b),
                        "sub" => a.checked_sub(b),
                        _ => a.checked_mul(b),
                    };
                    let z2 = match &head[1..] {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        _ => a.wrapping_mul(b),
                    };
                    (z2 & mask(w), z.map_or(true, |z| z & !mask(w) != 0))
                };
                if sat {
                    if signed {
                        return eng(format!("intrinsic {n}"));
                    }
                    let r = if o { if head == "uadd" { mask(w) } else { 0 } } else { r };
                    self.set(d, V::I(r, u));
                } else {
                    self.set(d, V::A(Rc::new(vec![V::I(r, u), V::I(o as u128, if u != 0 { 1 } else { 0 })])));
                }
            }
            "umax" | "umin" | "smax" | "smin" => {
                let (a, au) = arg(self, 0)?;
                let (b, bu) = arg(self, 1)?;
                let ge = if head.starts_with('s') { sext(a, w) >= sext(b, w) } else { a >= b };
                let r = if ge == head.ends_with("ax") { a } else { b };
                self.set(d, V::I(r, full(au | bu)));
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "abs" => {
                let (a, au) = arg(self, 0)?;
                let r = match head {
                    "ctpop" => a.count_ones() as u128,
                    "ctlz" => (a.leading_zeros() - (128 - w)) as u128,
                    "cttz" => if a == 0 { w as u128 } else { a.trailing_zeros() as u128 },
                    "bswap" => a.swap_bytes() >> (128 - w),
                    "bitreverse" => a.reverse_bits() >> (128 - w),
                    _ => sext(a, w).wrapping_abs() as u128 & mask(w),
                };
                let u = match head {
                    "bswap" => au.swap_bytes() >> (128 - w),
                    "bitreverse" => au.reverse_bits() >> (128 - w),
                    _ => full(au),
                };
                self.set(d, V::I(r, u));
            }
            "fshl" | "fshr" => {
                let (a, au) = arg(self, 0)?;
                let (b, bu) = arg(self, 1)?;
                let (s, su) = arg(self, 2)?;
                let s = (s % w as u128) as u32;
                let f = |a: u128, b: u128| -> u128 {
                    let r = if head == "fshl" { (a << s) | if s == 0 { 0 } else { b >> (w - s) } } else { (b >> s) | if s == 0 { 0 } else { a << (w - s) } };
                    r & mask(w)
                };
                self.set(d, V::I(f(a, b), if su != 0 { mask(w) } else { f(au, bu) }));
            }
            "ptrmask" => {
                let (a, au) = arg(self, 0)?;
                let (b, bu) = arg(self, 1)?;
                self.set(d, V::I(a & b, au | bu));
            }
            "is" => self.set(d, V::I(0, 0)), // is.constant
            "threadlocal" | "returnaddress" | "frameaddress" => return eng(format!("intrinsic {n}")),
            _ => {
                let _ = ret;
                return eng(format!("intrinsic {n}"));
            }
        }
        Ok(Flow::Cont)
    }

    // ------------------------------------------------------------------------------------------ inline asm
    fn asm_enter(&mut self, cx: &Ctx, aid: u32, av: Vec<V>) -> FR<()> {
        let info = &cx.infos[aid as usize];
        cx.cov.borrow_mut().insert(aid);
        if cx.taints.get() {
            self.chunks.push(aid);
        }
        let alix = cx.choice.borrow().get(&aid).copied().unwrap_or(0);
        if cx.share_equal.get() {
            // allocation list may depend on which inputs are equal
            if !cx.allocs.borrow().contains_key(&aid) {
                let r = cx.allocs_of(aid, Some(&av), 200_000).map_err(|e| Fault::Engine(format!("{e} in asm of {}", info.def.func)))?;
                cx.allocs.borrow_mut().insert(aid, r);
            }
        }
        let _ = cx.prog(aid, alix)?;
        let al = cx.allocs_of(aid, None, 200_000).map_err(Fault::Engine)?[alix as usize].clone();
        let seed = cx.seed.get();
        let base = cx.regbase();
        let mut st = AsmState {
            asm: aid,
            alloc: alix,
            pc: 0,
            phase: 0,
            waiting: false,
            regs: vec![],
            tmp: Default::default(),
            ctrl: 0,
            steps: 0,
            npc: u32::MAX,
            stk: vec![],
            base,
            entry: EntryRegs::default(),
        };
        let isa = &cx.isa;
        if let Some(sp) = isa.sp() {
            st.set_raw(sp, TV::k((cx.b.stack + 0x100) as u128 & mask(isa.reg_bits(sp))));
        }
        isa.asm_entry(&mut st, self.iflag);
        for (i, v) in av.iter().enumerate() {
            let k = info.nout + i;
            let r = al[k];
            if r == RegId::MAX {
                continue;
            }
            let ty = &info.def.args[i];
            let bits = cx.l.layout.size_bits(ty) as u32;
            let (v, u) = match v {
                V::I(v, u) => (*v, *u),
                V::A(_) => {
                    let mut b = vec![];
                    let mut u = vec![];
                    bytes_of(&cx.l.layout, ty, v, &mut b, &mut u)?;
                    (get_int(false, &b), get_int(false, &u))
                }
                V::N => return eng("void asm operand"),
            };
            // uninitialized bits: arbitrary
            let v = (v & !u) | (junk(700 + i as u16, 128, seed) & u);
            place(&**isa, &mut st, r, bits, v & mask(bits), seed);
        }
        if cx.contract.get() {
            let mut e = vec![];
            for r in isa.all_regs() {
                e.push((r, st.get(r)));
            }
            st.entry = EntryRegs(Some(Rc::new(e)));
        }
        if cx.trace.get() {
            eprintln!("  asm[{aid}] alloc {alix} in {}:\n    {}", info.def.func, cx.asm_text(aid, alix).replace('\n', "\n    "));
        }
        self.frames.last_mut().unwrap().asm = Some(Box::new(st));
        Ok(())
    }

    fn asm_exit(&mut self, cx: &Ctx) -> FR<()> {
        let fr = self.frames.last_mut().unwrap();
        let st = fr.asm.take().unwrap();
        let info = &cx.infos[st.asm as usize];
        let al = cx.allocs_of(st.asm, None, 200_000).map_err(Fault::Engine)?[st.alloc as usize].clone();
        let isa = &cx.isa;
        if cx.contract.get() {
            self.check_contract(cx, &st, info, &al)?;
        }
        // outputs
        let mut outs = vec![];
        for k in 0..info.nout {
            let r = al[k];
            let bits = match op_bits(info, k) {
                0 => cx.l.layout.ptr_bits,
                b => b,
            };
            let v = if r == RegId::MAX { V::I(junk(800 + k as u16, bits, cx.seed.get()), 0) } else { V::I(fetch(&**isa, &st, r, bits), 0) };
            let ty = match &info.def.ret {
                Ty::Struct(f, _) if info.nout > 1 => f[k].clone(),
                t => t.clone(),
            };
            let v = if matches!(ty, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)) {
                let V::I(x, _) = v else { unreachable!() };
                let n = cx.l.layout.store_size(&ty) as usize;
                let mut b = vec![0; n];
                put_int(false, x, n, &mut b);
                val_of(&cx.l.layout, &ty, &b, &vec![0; n])?
            } else {
                v
            };
            outs.push(v);
        }
        let fr = self.frames.last().unwrap();
        let fu = cx.l.funcs[fr.f as usize].1.clone();
        if let Inst::Asm { dst: Some(d), .. } = &fu.blocks[fr.block as usize][fr.ip as usize - 1] {
            let v = if info.nout == 1 { outs.pop().unwrap() } else { V::A(Rc::new(outs)) };
            self.set(*d, v);
        }
        Ok(())
    }

    fn check_contract(&self, cx: &Ctx, st: &AsmState, info: &AsmInfo, al: &Alloc) -> FR<()> {
        let isa = &cx.isa;
        let Some(entry) = &st.entry.0 else { return Ok(()) };
        let mut may: HashSet<RegId> = isa.scratch_regs().into_iter().collect();
        let mut part: HashMap<RegId, u128> = HashMap::new();
        let mut cover = |r: RegId, bits: u32| {
            let m = isa.uncovered(r, bits);
            part.entry(r).and_modify(|x| *x &= m).or_insert(m);
        };
        for k in 0..info.nout {
            let r = al[k];
            if r == RegId::MAX {
                continue;
            }
            let bits = match op_bits(info, k) {
                0 => cx.l.layout.ptr_bits,
                b => b,
            };
            cover(r, bits);
            may.extend(isa.pair(r, bits).unwrap_or_else(|| vec![r]));
        }
        for c in &info.clobbers {
            for r in isa.by_name(c).unwrap_or_default() {
                cover(r, isa.name_bits(c));
            }
            may.extend(isa.by_name(c).unwrap_or_default());
        }
        for (r, v) in entry.iter() {
            let now = st.get(*r);
            if let Some(x) = isa.exit_value(*r) {
                if now.v != x {
                    return Err(Fault::Contract(format!("{} is {:#x} at exit, must be {:#x}", isa.reg_name(*r), now.v, x)));
                }
            } else if now.v != v.v && !may.contains(r) {
                return Err(Fault::Contract(format!("{} changed from {:#x} to {:#x} but is not declared as output or clobber", isa.reg_name(*r), v.v, now.v)));
            } else if let Some(m) = part.get(r).filter(|m| (now.v ^ v.v) & **m != 0) {
                return Err(Fault::Contract(format!("{} changed from {:#x} to {:#x}, but only the bits outside {m:#x} are declared as output or clobber", isa.reg_name(*r), v.v, now.v)));
            }
        }
        if let Err(e) = isa.extra_exit_check(st) {
            return Err(Fault::Contract(e));
        }
        Ok(())
    }

    fn asm_step(&mut self, cx: &Ctx, resp: Option<TV>) -> FR<Flow> {
        let isa = cx.isa.clone();
        let fr = self.frames.last_mut().unwrap();
        let st = fr.asm.as_mut().unwrap();
        let prog = cx.prog(st.asm, st.alloc)?;
        if st.waiting && resp.is_some() {
            st.waiting = false;
        }
        if st.pc as usize >= prog.insns.len() && st.npc == u32::MAX {
            self.asm_exit(cx)?;
            return Ok(Flow::Cont);
        }
        st.steps += 1;
        if st.steps > STEP_LIMIT {
            return Err(Fault::Hang(format!("asm in {} does not terminate", cx.infos[st.asm as usize].def.func)));
        }
        if st.pc as usize >= prog.insns.len() {
            return eng("delay slot at the end of asm");
        }
        let ins = &prog.insns[st.pc as usize];
        let actx = AsmCtx { prog: &prog, phase: st.phase, resp, pc: st.pc as usize, seed: cx.seed.get(), weak: cx.taints.get() };
        let r = isa.exec(st, ins, &actx)?;
        let mut goto: Option<usize> = None;
        match r {
            Step::Mem(mut req) => {
                st.phase += 1;
                let pm = mask(cx.l.layout.ptr_bits.max(isa.addr_bits()));
                req.addr.v &= pm;
                if matches!(req.op, Mo::Fence(_) | Mo::ClrEx | Mo::Tick) {
                    st.waiting = true;
                    st.steps = 0;
                    return Ok(Flow::Ev(Ev::Mem(req)));
                }
                let a = req.addr.v as u64;
                let n = req.size as u64;
                let sb = cx.b.stack;
                if !cx.taints.get() && !(a >= sb && a < sb + 0x200) && req.addr.v >> 64 == 0 && isa.const_mem(a, n).is_none() {
                    // what the block tells the compiler about memory (weak.rs judges the consequences itself)
                    let info = &cx.infos[st.asm as usize];
                    let write = !matches!(req.op, Mo::Load | Mo::Ll);
                    if !info.memory || info.readnone {
                        return Err(Fault::Ub("asm block that declares no memory access (nomem) accesses memory".into()));
                    }
                    if write && (info.readonly || !info.def.sideeffect) {
                        return Err(Fault::Ub("asm block declared readonly or pure writes memory".into()));
                    }
                }
                if req.addr.v >> 64 == 0 && cx.is_shared(a) {
                    if !cx.is_shared(a + n - 1) {
                        return Err(Fault::Mem("access crosses the end of the shared region".into()));
                    }
                    st.waiting = true;
                    st.steps = 0;
                    if !cx.taints.get() {
                        strip(&mut req);
                    }
                    return Ok(Flow::Ev(Ev::Mem(req)));
                }
                if cx.taints.get() && req.flags & LOCK != 0 && matches!(req.op, Mo::Rmw { .. }) {
                    self.pendf = 1;
                }
                // stack area
                if a >= sb && a < sb + 0x200 {
                    let v = self.stack_mem(cx, &req)?;
                    return self.asm_step(cx, Some(v));
                }
                let v = self.private_mem(cx, &req, true)?;
                return self.asm_step(cx, Some(v));
            }
            Step::Next => {}
            Step::Jump(l) => {
                let from = st.pc as usize;
                // a label at the current position counts as backward for 'b'
                goto = Some(prog.target(from, &l).ok_or_else(|| Fault::Engine(format!("label {l}")))?);
            }
            Step::Goto(p) => goto = Some(p),
        }
        st.phase = 0;
        let tick = isa.tick_each();
        if st.npc != u32::MAX {
            // we just executed a delay slot
            st.pc = st.npc;
            st.npc = u32::MAX;
            if goto.is_some() {
                return eng("branch in a delay slot");
            }
        } else if let Some(g) = goto {
            if isa.delay_slot(st, ins, true) {
                st.npc = g as u32;
                st.pc += 1;
            } else {
                st.pc = g as u32;
            }
        } else {
            st.pc += 1;
            if isa.skip_slot(ins) {
                st.pc += 1;
            }
        }
        if tick {
            self.iflag = isa.asm_iflag(self.frames.last().unwrap().asm.as_ref().unwrap(), self.iflag);
            self.open |= self.iflag != 0;
        }
        Ok(Flow::Cont)
    }

    fn stack_mem(&mut self, cx: &Ctx, req: &MemReq) -> FR<TV> {
        let seed = cx.seed.get();
        let big = cx.l.layout.big;
        let fr = self.frames.last_mut().unwrap();
        let st = fr.asm.as_mut().unwrap();
        let info = &cx.infos[st.asm as usize];
        let sp0 = cx.b.stack + 0x100;
        let a = req.addr.v as u64;
        let n = req.size as usize;
        let rd = |st: &AsmState, x: u64| -> u8 { st.stk.iter().find(|e| e.0 == x).map(|e| e.1).unwrap_or(junk(1000 + (x - cx.b.stack) as u16, 8, seed) as u8) };
        let b: Vec<u8> = (0..n).map(|i| rd(st, a + i as u64)).collect();
        let old = get_int(big, &b);
        let w = match &req.op {
            Mo::Load | Mo::Ll => None,
            Mo::Store(v) => Some(v.v),
            Mo::Rmw { k, val, cmp, .. } => rmw(*k, old, val.v, cmp.v, req.size * 8),
            Mo::Sc(v) => Some(v.v),
            _ => None,
        };
        if let Some(v) = w {
            if a + n as u64 > sp0 {
                // an atomic read-modify-write that stores the old value back (stack-based fences) changes nothing
                if matches!(req.op, Mo::Rmw { .. }) && a >= sp0 && v & mask(req.size * 8) == old {
                    return Ok(TV::k(old));
                }
                return Err(Fault::Contract("asm writes the caller's stack frame".into()));
            }
            if info.nostack && cx.isa.red_zone() {
                return Err(Fault::Contract("asm declared nostack writes below the stack pointer (red zone)".into()));
            }
            let mut b = vec![0; n];
            put_int(big, v, n, &mut b);
            for i in 0..n {
                match st.stk.iter_mut().find(|e| e.0 == a + i as u64) {
                    Some(e) => e.1 = b[i],
                    None => st.stk.push((a + i as u64, b[i])),
                }
            }
        }
        Ok(TV::k(if matches!(req.op, Mo::Sc(_)) { 1 } else { old }))
    }

    /// Sub-word assembly works on the aligned word around the object: the bytes of that word outside
    /// the object read as arbitrary (seed-dependent) values and must be written back unchanged.
    fn word_around(&self, cx: &Ctx, a: u64, n: u64) -> Option<Vec<Option<usize>>> {
        if n > 8 || a % n != 0 {
            return None;
        }
        let v: Vec<Option<usize>> = (0..n).map(|i| self.prange(cx, a + i, 1)).collect();
        if v.iter().any(|x| x.is_some()) && v.iter().any(|x| x.is_none()) {
            Some(v)
        } else {
            None
        }
    }
    fn private_mem(&mut self, cx: &Ctx, req: &MemReq, asm: bool) -> FR<TV> {
        if req.addr.v >> 64 != 0 {
            return Err(Fault::Mem(format!("address {:#x}", req.addr.v)));
        }
        let a = req.addr.v as u64;
        let n = req.size as u64;
        let big = cx.l.layout.big;
        let seed = cx.seed.get();
        let around = if asm { self.word_around(cx, a, n) } else { None };
        let outside = |i: usize| junk(700 + ((a + i as u64) & 63) as u16, 8, seed) as u8;
        let (b, u) = match &req.op {
            Mo::Store(_) => (vec![0; n as usize], vec![0; n as usize]),
            _ => match around.as_ref() {
                Some(w) => w
                    .iter()
                    .enumerate()
                    .map(|(i, o)| match o {
                        Some(o) => (self.pm[*o], self.pu[*o]),
                        None => (outside(i), 0),
                    })
                    .unzip(),
                None => self.read_bytes(cx, a, n)?,
            },
        };
        // uninitialized memory holds arbitrary but stable bits: they depend on the byte's address only
        let b: Vec<u8> = (0..b.len()).map(|i| (b[i] & !u[i]) | (junk((600 + ((a + i as u64) & 63)) as u16, 8, seed) as u8 & u[i])).collect();
        let old = get_int(big, &b);
        let w = match &req.op {
            Mo::Load => None,
            Mo::Ll => {
                None
            }
            Mo::Store(v) => Some(v.v),
            Mo::Sc(v) => Some(v.v),
            Mo::Rmw { k, val, cmp, .. } => rmw(*k, old, val.v, cmp.v, req.size * 8),
            _ => None,
        };
        if let Some(v) = w {
            let mut b = vec![0; n as usize];
            put_int(big, v & mask(req.size * 8), n as usize, &mut b);
            match around {
                Some(w) => {
                    for (i, o) in w.iter().enumerate() {
                        match o {
                            Some(o) => {
                                self.pm[*o] = b[i];
                                self.pu[*o] = 0;
                            }
                            None if b[i] == outside(i) => {}
                            None => {
                                return Err(Fault::Mem(format!("write of {n} bytes at {a:#x} changes bytes outside the object")))
                            }
                        }
                    }
                }
                None => self.write_bytes(cx, a, &b, &vec![0; n as usize])?,
            }
        }
        Ok(TV::k(if matches!(req.op, Mo::Sc(_)) { 1 } else { old & mask(req.size * 8) }))
    }
}

fn strip(r: &mut MemReq) {
    r.addr.t = 0;
    match &mut r.op {
        Mo::Store(v) | Mo::Sc(v) => v.t = 0,
        Mo::Rmw { val, cmp, .. } => {
            val.t = 0;
            cmp.t = 0;
        }
        _ => {}
    }
}

/// New memory contents of an atomic RMW (None: nothing is written).
pub fn rmw(k: Rk, old: u128, val: u128, cmp: u128, bits: u32) -> Option<u128> {
    let m = mask(bits);
    let (o, v) = (old & m, val & m);
    Some(
        match k {
            Rk::Swap => v,
            Rk::Cas => {
                if o == cmp & m {
                    v
                } else {
                    return None;
                }
            }
            Rk::Add => o.wrapping_add(v),
            Rk::Sub => o.wrapping_sub(v),
            Rk::And => o & v,
            Rk::Or => o | v,
            Rk::Xor => o ^ v,
            Rk::Clr => o & !v,
            Rk::Max => if sext(o, bits) >= sext(v, bits) { o } else { v },
            Rk::Min => if sext(o, bits) <= sext(v, bits) { o } else { v },
            Rk::Umax => o.max(v),
            Rk::Umin => o.min(v),
            Rk::Tas => 0xff,
        } & m,
    )
}

fn place(isa: &dyn Isa, st: &mut AsmState, r: RegId, bits: u32, v: u128, _seed: u64) {
    if let Some(p) = isa.pair(r, bits) {
        let mut v = v;
        for x in p {
            let w = isa.reg_bits(x);
            st.set_raw(x, TV::k(v & mask(w)));
            v = if w >= 128 { 0 } else { v >> w };
        }
        return;
    }
    let w = isa.reg_bits(r);
    let (lo, v) = isa.place_in(r, bits, v);
    let m = mask(bits.min(w)) << lo;
    let old = st.get(r).v;
    let mut x = (old & !m) | ((v << lo) & m);
    if bits <= 32 && isa.sext_in() {
        x = sext(x, 32) as u128 & mask(w);
    }
    st.set_raw(r, TV::k(x));
}
fn fetch(isa: &dyn Isa, st: &AsmState, r: RegId, bits: u32) -> u128 {
    if let Some(p) = isa.pair(r, bits) {
        let mut v = 0;
        let mut sh = 0;
        for x in p {
            let w = isa.reg_bits(x);
            v |= (st.get(x).v & mask(w)) << sh;
            sh += w;
        }
        return v & mask(bits);
    }
    let (lo, _) = isa.place_in(r, bits, 0);
    (st.get(r).v >> lo) & mask(bits)
}

fn lanes1(x: &V, f: &mut dyn FnMut((u128, u128)) -> FR<(u128, u128)>) -> FR<V> {
    Ok(match x {
        V::I(v, u) => {
            let (v, u) = f((*v, *u))?;
            V::I(v & !u, u)
        }
        V::A(l) => V::A(Rc::new(l.iter().map(|x| lanes1(x, f)).collect::<FR<Vec<_>>>()?)),
        V::N => return eng("void operand"),
    })
}
fn lanes2(x: &V, y: &V, f: &mut dyn FnMut((u128, u128), (u128, u128)) -> FR<(u128, u128)>) -> FR<V> {
    Ok(match (x, y) {
        (V::I(a, b), V::I(c, d)) => {
            let (v, u) = f((*a, *b), (*c, *d))?;
            V::I(v & !u, u)
        }
        (V::A(l), V::A(m)) => V::A(Rc::new(l.iter().zip(m.iter()).map(|(x, y)| lanes2(x, y, f)).collect::<FR<Vec<_>>>()?)),
        _ => return eng("operand shapes"),
    })
}

fn bin(op: Bin, w: u32, (x, xu): (u128, u128), (y, yu): (u128, u128), nuw: bool, nsw: bool, _exact: bool) -> FR<(u128, u128)> {
    let m = mask(w);
    let u = xu | yu;
    Ok(match op {
        Bin::And => {
            let v = x & y;
            // a known zero decides
            let known0 = (!x & !xu) | (!y & !yu);
            (v, u & !known0 & m)
        }
        Bin::Or => {
            let known1 = (x & !xu) | (y & !yu);
            (x | y, u & !known1 & m)
        }
        Bin::Xor => (x ^ y, u),
        Bin::Add | Bin::Sub | Bin::Mul => {
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                _ => x.wrapping_mul(y),
            } & m;
            if u == 0 && (nuw || nsw) {
                let uo = match op {
                    Bin::Add => x.checked_add(y).map_or(true, |z| z & !m != 0),
                    Bin::Sub => x < y,
                    _ => x.checked_mul(y).map_or(true, |z| z & !m != 0),
                };
                let (sx, sy) = (sext(x, w), sext(y, w));
                let so = match op {
                    Bin::Add => sx.checked_add(sy),
                    Bin::Sub => sx.checked_sub(sy),
                    _ => sx.checked_mul(sy),
                }
                .map_or(true, |z| sext(z as u128 & m, w) != z);
                if (nuw && uo) || (nsw && so) {
                    return Ok((0, m)); // poison
                }
            }
            (r, above(u) & m)
        }
        Bin::Shl | Bin::LShr | Bin::AShr => {
            if yu != 0 || y >= w as u128 {
                return Ok((0, m));
            }
            let s = y as u32;
            match op {
                Bin::Shl => ((x << s) & m, (xu << s) & m),
                Bin::LShr => (x >> s, xu >> s),
                _ => ((sext(x, w) >> s) as u128 & m, (sext(xu, w) >> s) as u128 & m),
            }
        }
        Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
            if u != 0 || y == 0 {
                return Err(Fault::Ub("division by zero or of uninitialized data".into()));
            }
            let r = match op {
                Bin::UDiv => x / y,
                Bin::URem => x % y,
                Bin::SDiv => (sext(x, w) / sext(y, w)) as u128 & m,
                _ => (sext(x, w) % sext(y, w)) as u128 & m,
            };
            (r, 0)
        }
    })
}

fn icmp(p: Pred, w: u32, (x, xu): (u128, u128), (y, yu): (u128, u128)) -> (u128, u128) {
    if xu | yu != 0 {
        // equality is decided when a defined bit differs
        let d = (x ^ y) & !(xu | yu);
        if d != 0 && matches!(p, Pred::Eq | Pred::Ne) {
            return ((p == Pred::Ne) as u128, 0);
        }
        return (0, 1);
    }
    let (sx, sy) = (sext(x, w), sext(y, w));
    let r = match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sx < sy,
        Pred::Sle => sx <= sy,
        Pred::Sgt => sx > sy,
        Pred::Sge => sx >= sy,
    };
    (r as u128, 0)
}
