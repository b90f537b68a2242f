//! Calls of the harness entry points (= operations of the real API) and the sequential memory.
use crate::asm::*;
use crate::config::{TypeInfo, TYPES};
use crate::interp::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    Load,
    Store,
    Swap,
    Cas,
    Casw,
    Fu,
    Fus,
    /// ordinary atomic-width machine store / load of other code next to the object
    RawStore,
    RawLoad,
    /// SeqCst access by core::sync::atomic, as the compiler translates it
    StdStore,
    StdLoad,
    /// core::sync::atomic::fence
    StdFence,
}

pub const ORD: [&str; 5] = ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Op {
    pub k: K,
    pub ty: u8, // index into TYPES
    pub addr: u64,
    pub o1: u8,
    pub o2: u8,
    pub a: u128,  // stored / new value / delta
    pub au: u128, // uninitialized bits of a
    pub c: u128,  // current / stop value
    pub cu: u128,
    pub none_at: u8,
    pub size: u8,
    pub off: bool, // called with interrupts disabled (interrupt handler)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Res {
    pub ok: bool,
    pub val: u128,
    pub undef: u128,
    pub calls: u8,
    pub lastarg: u128,
    pub lastret: u128,
}

impl Op {
    pub fn new(k: K, t: &TypeInfo, addr: u64) -> Op {
        let ty = TYPES.iter().position(|x| *x == t.name).unwrap() as u8;
        Op { k, ty, addr, o1: 0, o2: 0, a: 0, au: 0, c: 0, cu: 0, none_at: 255, size: t.size, off: false }
    }
    pub fn ord(mut self, o1: u8, o2: u8) -> Op {
        self.o1 = o1;
        self.o2 = o2;
        self
    }
    pub fn val(mut self, a: u128) -> Op {
        self.a = a & mask(self.size as u32 * 8);
        self
    }
    pub fn cur(mut self, c: u128) -> Op {
        self.c = c & mask(self.size as u32 * 8);
        self
    }
    pub fn at(mut self, a: u64) -> Op {
        self.addr = a;
        self
    }
    pub fn bits(&self) -> u32 {
        self.size as u32 * 8
    }
    pub fn fname(&self) -> String {
        let t = TYPES[self.ty as usize];
        match self.k {
            K::Load => format!("load_{t}"),
            K::Store => format!("store_{t}"),
            K::Swap => format!("swap_{t}"),
            K::Cas => format!("cas_{t}"),
            K::Casw => format!("casw_{t}"),
            K::Fu => format!("fu_{t}"),
            K::Fus => format!("fus_{t}"),
            K::RawStore => "raw_store".into(),
            K::RawLoad => "raw_load".into(),
            K::StdStore => "std_store".into(),
            K::StdLoad => "std_load".into(),
            K::StdFence => "fence".into(),
        }
    }
    pub fn show(&self, cx: &Ctx) -> String {
        let t = TYPES[self.ty as usize];
        let off = self.addr.wrapping_sub(cx.b.shared);
        let u = |u: u128| if u == 0 { String::new() } else { format!(" uninit-mask {u:#x}") };
        match self.k {
            K::Load => format!("AtomicMaybeUninit<{t}>@+{off}.load({})", ORD[self.o1 as usize]),
            K::Store => format!("AtomicMaybeUninit<{t}>@+{off}.store({:#x}{}, {})", self.a, u(self.au), ORD[self.o1 as usize]),
            K::Swap => format!("AtomicMaybeUninit<{t}>@+{off}.swap({:#x}{}, {})", self.a, u(self.au), ORD[self.o1 as usize]),
            K::Cas | K::Casw => format!(
                "AtomicMaybeUninit<{t}>@+{off}.compare_exchange{}({:#x}{}, {:#x}{}, {}, {})",
                if self.k == K::Casw { "_weak" } else { "" },
                self.c,
                u(self.cu),
                self.a,
                u(self.au),
                ORD[self.o1 as usize],
                ORD[self.o2 as usize]
            ),
            K::Fu => format!("AtomicMaybeUninit<{t}>@+{off}.fetch_update({}, {}, |x| None on call {} else Some(x + {:#x}))", ORD[self.o1 as usize], ORD[self.o2 as usize], self.none_at, self.a),
            K::Fus => format!("AtomicMaybeUninit<{t}>@+{off}.fetch_update({}, {}, |x| if x == {:#x} {{ None }} else {{ Some(x + {:#x}) }})", ORD[self.o1 as usize], ORD[self.o2 as usize], self.c, self.a),
            K::RawStore => format!("{}-byte store of {:#x} at +{off}", self.size, self.a),
            K::RawLoad => format!("{}-byte load at +{off}", self.size),
            K::StdStore => format!("core atomic@+{off}.store({:#x}, {})", self.a, ORD[self.o1 as usize]),
            K::StdLoad => format!("core atomic@+{off}.load({})", ORD[self.o1 as usize]),
            K::StdFence => format!("fence({})", ORD[self.o1 as usize]),
        }
    }
    pub fn has_result(&self) -> bool {
        !matches!(self.k, K::Store | K::RawStore | K::StdStore | K::StdFence)
    }
}

pub fn ords(k: K) -> Vec<(u8, u8)> {
    match k {
        K::Load => vec![(0, 0), (1, 0), (4, 0)],
        K::Store => vec![(0, 0), (2, 0), (4, 0)],
        K::Swap => (0..5).map(|o| (o, 0)).collect(),
        K::Cas | K::Casw | K::Fu | K::Fus => {
            let mut v = vec![];
            for s in 0..5 {
                for f in [0, 1, 4] {
                    v.push((s, f));
                }
            }
            v
        }
        _ => vec![(0, 0)],
    }
}

pub fn kinds(t: &TypeInfo) -> Vec<K> {
    let mut v = vec![];
    if t.load {
        v.push(K::Load);
    }
    if t.store {
        v.push(K::Store);
    }
    if t.swap {
        v.push(K::Swap);
    }
    if t.cas {
        v.extend([K::Cas, K::Casw, K::Fus]);
    }
    v
}

pub fn to_bytes(big: bool, v: u128, n: usize) -> Vec<u8> {
    let mut b = v.to_le_bytes()[..n].to_vec();
    if big {
        b.reverse();
    }
    b
}
pub fn from_bytes(big: bool, b: &[u8]) -> u128 {
    let mut v = 0u128;
    for i in 0..b.len() {
        let x = if big { b[b.len() - 1 - i] } else { b[i] };
        v |= (x as u128) << (8 * i);
    }
    v
}

/// Addresses of the argument buffers of a prepared call.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Bufs {
    pub a: u64,
    pub c: u64,
    pub out: u64,
    pub calls: u64,
    pub larg: u64,
    pub lret: u64,
}

pub fn alloc_bufs(cx: &Ctx, th: &mut Thread, n: u64) -> Bufs {
    Bufs { a: th.alloc(n, n, cx), c: th.alloc(n, n, cx), out: th.alloc(n, n, cx), calls: th.alloc(1, 1, cx), larg: th.alloc(n, n, cx), lret: th.alloc(n, n, cx) }
}

pub fn prepare(cx: &Ctx, op: &Op, ix: u8) -> FR<Thread> {
    let f = cx.func(&op.fname()).ok_or_else(|| Fault::Engine(format!("harness function {} missing", op.fname())))?;
    let mut th = Thread::new(ix);
    let n = op.size as u64;
    let big = cx.l.layout.big;
    let b = alloc_bufs(cx, &mut th, n);
    let (nb, _) = (n as usize, 0);
    th.poke(cx, b.a, &to_bytes(big, op.a, nb), &to_bytes(big, op.au, nb));
    th.poke(cx, b.c, &to_bytes(big, op.c, nb), &to_bytes(big, op.cu, nb));
    th.poke(cx, b.calls, &[0], &[0]);
    let p = |x: u64| V::I(x as u128, 0);
    let o = |x: u8| V::I(x as u128, 0);
    let args = match op.k {
        K::Load => vec![p(op.addr), o(op.o1), p(b.out)],
        K::Store => vec![p(op.addr), o(op.o1), p(b.a)],
        K::Swap => vec![p(op.addr), o(op.o1), p(b.a), p(b.out)],
        K::Cas | K::Casw => vec![p(op.addr), p(b.c), p(b.a), o(op.o1), o(op.o2), p(b.out)],
        K::Fu => vec![p(op.addr), o(op.o1), o(op.o2), p(b.a), o(op.none_at), p(b.calls), p(b.larg), p(b.lret), p(b.out)],
        K::Fus => vec![p(op.addr), o(op.o1), o(op.o2), p(b.a), p(b.c), p(b.calls), p(b.larg), p(b.lret), p(b.out)],
        K::RawStore | K::RawLoad | K::StdStore | K::StdLoad | K::StdFence => return eng("raw"),
    };
    th.start(cx, f, args);
    if op.off {
        th.iflag = 0;
    }
    Ok(th)
}

pub fn finish(cx: &Ctx, op: &Op, th: &Thread) -> Res {
    let n = op.size as u64;
    let big = cx.l.layout.big;
    let mut t = Thread::new(th.ix);
    let b = alloc_bufs(cx, &mut t, n);
    let rd = |a: u64| {
        let (x, u) = th.peek(cx, a, n as usize);
        (from_bytes(big, &x), from_bytes(big, &u))
    };
    let mut r = Res { ok: true, ..Default::default() };
    if op.has_result() {
        (r.val, r.undef) = rd(b.out);
    }
    if let Some(V::I(v, _)) = &th.ret {
        r.ok = *v != 0;
    }
    if matches!(op.k, K::Fu | K::Fus) {
        r.calls = th.peek(cx, b.calls, 1).0[0];
        r.lastarg = rd(b.larg).0;
        r.lastret = rd(b.lret).0;
    }
    r
}

#[derive(Clone, Debug)]
pub struct Access {
    pub what: &'static str,
    pub addr: u64,
    pub size: u32,
    pub flags: u32,
    pub write: bool,
    pub old: u128,
    pub new: u128,
}

/// Memory of a single-threaded run.
pub struct SeqMem {
    pub base: u64,
    pub big: bool,
    pub b: Vec<u8>,
    pub resv: Option<(u64, u32)>,
    pub sc_fail: u32, // bit i set: the i-th store-conditional fails spuriously
    pub sc_n: u32,
    pub log: Vec<Access>,
    pub misalign_ok: bool,
    pub record: bool,
}

impl SeqMem {
    pub fn new(cx: &Ctx, fill: u64) -> SeqMem {
        let b = (0..SHARED_LEN).map(|i| junk(2000 + i as u16, 8, fill << 2) as u8 | 1).collect();
        SeqMem { base: cx.b.shared, big: cx.l.layout.big, b, resv: None, sc_fail: 0, sc_n: 0, log: vec![], misalign_ok: cx.isa.misalign_ok(), record: true }
    }
    pub fn get(&self, a: u64, n: u32) -> u128 {
        let o = (a - self.base) as usize;
        from_bytes(self.big, &self.b[o..o + n as usize])
    }
    pub fn put(&mut self, a: u64, n: u32, v: u128) {
        let o = (a - self.base) as usize;
        let b = to_bytes(self.big, v, n as usize);
        self.b[o..o + n as usize].copy_from_slice(&b);
    }
    pub fn access(&mut self, r: &MemReq) -> FR<TV> {
        let a = r.addr.v as u64;
        let n = r.size;
        match &r.op {
            Mo::Fence(_) | Mo::Tick => return Ok(TV::k(0)),
            Mo::ClrEx => {
                self.resv = None;
                return Ok(TV::k(0));
            }
            _ => {}
        }
        if !self.misalign_ok && r.flags & PLAIN == 0 && a % n.next_power_of_two().min(16) as u64 != 0 {
            return Err(Fault::Mem(format!("misaligned {n}-byte atomic access at {a:#x}")));
        }
        let old = self.get(a, n);
        let (new, what, resp) = match &r.op {
            Mo::Load => (None, "load", old),
            Mo::Store(v) => (Some(v.v), "store", 0),
            Mo::Rmw { k, val, cmp, wb_on_fail } => {
                let w = rmw(*k, old, val.v, cmp.v, n * 8);
                (if w.is_none() && *wb_on_fail { Some(old) } else { w }, "rmw", old)
            }
            Mo::Ll => {
                self.resv = Some((a, n));
                (None, "ll", old)
            }
            Mo::Sc(v) => {
                let rs = self.resv.take();
                if let Some((ra, rn)) = rs {
                    if (ra, rn) != (a, n) {
                        return Err(Fault::Mem(format!("store-conditional of {n} bytes at {a:#x} paired with load-linked of {rn} bytes at {ra:#x}")));
                    }
                }
                let fail = self.sc_n < 32 && self.sc_fail >> self.sc_n & 1 == 1;
                self.sc_n += 1;
                if rs.is_some() && !fail {
                    (Some(v.v), "sc", 1)
                } else {
                    (None, "sc-failed", 0)
                }
            }
            _ => unreachable!(),
        };
        if let Some(v) = new {
            self.put(a, n, v & mask(n * 8));
        }
        if self.record {
            self.log.push(Access { what, addr: a, size: n, flags: r.flags, write: new.is_some(), old, new: new.unwrap_or(old) & mask(n * 8) });
        }
        Ok(TV::k(resp))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Panic(String),
}

pub fn run_solo(cx: &Ctx, th: &mut Thread, m: &mut SeqMem, max: u32) -> FR<End> {
    let mut resp = None;
    let mut n = 0;
    loop {
        match th.run(cx, resp.take())? {
            Ev::Done => return Ok(End::Done),
            Ev::Panic(s) => return Ok(End::Panic(s)),
            Ev::Tick => {}
            Ev::Mem(r) => {
                n += 1;
                if n > max {
                    return Err(Fault::Hang(format!("more than {max} memory accesses without interference")));
                }
                resp = Some(m.access(&r)?);
            }
        }
    }
}

pub fn call(cx: &Ctx, op: &Op, m: &mut SeqMem) -> FR<(End, Res)> {
    let mut th = prepare(cx, op, 0)?;
    let e = run_solo(cx, &mut th, m, 200)?;
    Ok((e.clone(), if e == End::Done { finish(cx, op, &th) } else { Res::default() }))
}

/// Sequential specification: new object value and result (`spurious`: weak compare-exchange failing spuriously).
pub fn spec(op: &Op, v: u128, spurious: bool) -> (u128, Res) {
    let m = mask(op.bits());
    let r = |ok, val| Res { ok, val, ..Default::default() };
    match op.k {
        K::Load | K::RawLoad | K::StdLoad => (v, r(true, v)),
        K::StdFence => (v, r(true, 0)),
        K::Store | K::RawStore | K::StdStore => (op.a, r(true, 0)),
        K::Swap => (op.a, r(true, v)),
        K::Cas | K::Casw => {
            if v == op.c && !spurious {
                (op.a, r(true, v))
            } else {
                (v, r(false, v))
            }
        }
        K::Fus => {
            if v == op.c {
                (v, r(false, v))
            } else {
                (v.wrapping_add(op.a) & m, r(true, v))
            }
        }
        K::Fu => {
            if op.none_at == 0 {
                (v, r(false, v))
            } else {
                (v.wrapping_add(op.a) & m, r(true, v))
            }
        }
    }
}

pub type RcOps = Rc<Vec<Op>>;
