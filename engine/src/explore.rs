//! Exhaustive exploration of all interleavings of a few threads running real operations on shared memory
//! (sequentially consistent memory; weak memory is the business of `weak`).
use crate::asm::*;
use crate::interp::*;
use crate::ops::*;
use std::collections::HashMap;
use std::time::Instant;

pub const WIN: usize = 48;
pub const WOFF: u64 = 64; // window start inside the shared region

#[derive(Clone, Debug)]
pub struct Scenario {
    pub objs: Vec<(u64, u8, u128)>, // address, size, initial value
    pub threads: Vec<Vec<Op>>,
    pub spurious: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat {
    Lin,
    Outside,
    Update,
    Progress,
    LoadWrite,
    Fault,
    Engine,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub cat: Cat,
    pub msg: String,
    pub trace: Vec<String>,
    pub sched: Vec<(u8, bool)>,
}

struct LNode {
    op: Op,
    th: Option<Thread>, // None: raw operation
    req: MemReq,
}
#[derive(Clone, Debug)]
enum Next {
    Node(u32),
    Ret(Res),
    Bad(Fault),
    Panic(String),
}

/// Memoised local behaviour of the operations (shared by all scenarios of one configuration).
pub struct Locals<'a> {
    cx: &'a Ctx,
    nodes: Vec<LNode>,
    index: HashMap<(Op, Option<Thread>), u32>,
    init: HashMap<Op, Next>,
    memo: HashMap<(u32, u128), Next>,
}

impl<'a> Locals<'a> {
    pub fn new(cx: &'a Ctx) -> Self {
        Locals { cx, nodes: vec![], index: Default::default(), init: Default::default(), memo: Default::default() }
    }
    /// Can another thread run before the pending access of this node?
    fn open(&self, node: u32) -> bool {
        !self.cx.isa.tick_each() || self.nodes[node as usize].th.as_ref().is_none_or(|t| t.open_at)
    }
    /// An ordinary access with interrupts enabled can be cut into bytes.
    fn torn(&self, node: u32) -> bool {
        let n = &self.nodes[node as usize];
        self.cx.isa.tick_each() && n.req.flags & PLAIN != 0 && n.req.size > 1 && n.th.as_ref().is_some_and(|t| self.cx.isa.iflag_fade(t.iflag) != 0)
    }
    pub fn size(&self) -> usize {
        self.nodes.len()
    }
    fn settle(&mut self, op: Op, mut th: Thread, mut resp: Option<TV>) -> Next {
        loop {
            match th.run(self.cx, resp.take()) {
                Err(f) => return Next::Bad(f),
                Ok(Ev::Panic(p)) => return Next::Panic(p),
                Ok(Ev::Tick) => {}
                Ok(Ev::Done) => return Next::Ret(finish(self.cx, &op, &th)),
                Ok(Ev::Mem(r)) => {
                    if let Mo::Fence(_) = r.op {
                        resp = Some(TV::k(0));
                        continue;
                    }
                    let k = (op, Some(th));
                    if let Some(&i) = self.index.get(&k) {
                        return Next::Node(i);
                    }
                    let i = self.nodes.len() as u32;
                    self.nodes.push(LNode { op, th: k.1.clone(), req: r });
                    self.index.insert(k, i);
                    return Next::Node(i);
                }
            }
        }
    }
    fn start(&mut self, op: Op) -> Next {
        if let Some(n) = self.init.get(&op) {
            return n.clone();
        }
        let n = if matches!(op.k, K::RawStore | K::RawLoad) {
            let i = self.nodes.len() as u32;
            let o = if op.k == K::RawStore { Mo::Store(TV::k(op.a)) } else { Mo::Load };
            self.nodes.push(LNode { op, th: None, req: MemReq { op: o, addr: TV::k(op.addr as u128), size: op.size as u32, flags: 0 } });
            Next::Node(i)
        } else {
            match prepare(self.cx, &op, 0) {
                Ok(th) => self.settle(op, th, None),
                Err(f) => Next::Bad(f),
            }
        };
        self.init.insert(op, n.clone());
        n
    }
    fn step(&mut self, node: u32, resp: u128) -> Next {
        if let Some(n) = self.memo.get(&(node, resp)) {
            return n.clone();
        }
        let LNode { op, th, .. } = &self.nodes[node as usize];
        let op = *op;
        let n = match th.clone() {
            None => Next::Ret(Res { ok: true, val: if op.k == K::RawLoad { resp } else { 0 }, ..Default::default() }),
            Some(t) => self.settle(op, t, Some(TV::k(resp))),
        };
        self.memo.insert((node, resp), n.clone());
        n
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct ThS {
    op: u8,
    called: bool,
    node: u32, // u32::MAX: finished
    part: u8,  // bytes of an interruptible ordinary access already performed
    acc: u32,
    resv: (u8, u8), // window offset, size (0 = none)
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    mem: [u8; WIN],
    th: [ThS; 3],
    budget: u8,
    cur: u8, // thread that runs with interrupts disabled (255: any may run)
    lin: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Cfg {
    vals: Vec<u128>,
    st: [u8; 3], // 0 idle 1 called 2 linearized
    res: [(bool, u128); 3],
}

pub struct Explorer<'a, 'b> {
    pub loc: &'b mut Locals<'a>,
    pub states: u64,
    pub transitions: u64,
    pub terminals: u64,
    pub schedules: u128,
    pub max_depth: usize,
    pub max_states: usize,
    pub deadline: Instant,
    pub capped: bool,
    pub stuck: bool,
    pub want_sched: usize,
    pub scheds: Vec<(Vec<(u8, bool)>, Vec<Vec<Res>>, Vec<u8>)>,
    lins: Vec<Vec<Cfg>>,
    linix: HashMap<Vec<Cfg>, u32>,
}

impl<'a, 'b> Explorer<'a, 'b> {
    pub fn new(loc: &'b mut Locals<'a>, deadline: Instant) -> Self {
        Explorer { loc, states: 0, transitions: 0, terminals: 0, schedules: 0, max_depth: 0, max_states: 3_000_000, deadline, capped: false, stuck: false, want_sched: 0, scheds: vec![], lins: vec![], linix: Default::default() }
    }
    fn lin(&mut self, v: Vec<Cfg>) -> u32 {
        if let Some(&i) = self.linix.get(&v) {
            return i;
        }
        let i = self.lins.len() as u32;
        self.lins.push(v.clone());
        self.linix.insert(v, i);
        i
    }
    fn closure(&self, set: &[Cfg], ops: &[Option<(Op, usize)>; 3]) -> Vec<Cfg> {
        let mut out: Vec<Cfg> = set.to_vec();
        let mut i = 0;
        while i < out.len() {
            let c = out[i].clone();
            i += 1;
            for t in 0..3 {
                if c.st[t] != 1 {
                    continue;
                }
                let Some((op, obj)) = &ops[t] else { continue };
                let v = c.vals[*obj];
                let mut alts = vec![spec(op, v, false)];
                if op.k == K::Casw && v == op.c {
                    alts.push(spec(op, v, true));
                }
                for (nv, r) in alts {
                    let mut d = c.clone();
                    d.vals[*obj] = nv;
                    d.st[t] = 2;
                    d.res[t] = (r.ok, r.val);
                    if !out.contains(&d) {
                        out.push(d);
                    }
                }
            }
        }
        out
    }

    /// Explores everything; returns the violations found (at most one per category).
    pub fn run(&mut self, sc: &Scenario) -> Vec<Found> {
        let cx = self.loc.cx;
        let mut found: Vec<Found> = vec![];
        let big = cx.l.layout.big;
        let irq = cx.isa.tick_each();
        let wbase = cx.b.shared + WOFF;
        let mut mem = [0u8; WIN];
        for (i, b) in mem.iter_mut().enumerate() {
            *b = filler(i);
        }
        let init_mem0 = mem;
        let mut owned = [false; WIN];
        for (a, n, v) in &sc.objs {
            let o = (a - wbase) as usize;
            mem[o..o + *n as usize].copy_from_slice(&to_bytes(big, *v, *n as usize));
            for k in 0..*n as usize {
                owned[o + k] = true;
            }
        }
        let objof = |op: &Op| sc.objs.iter().position(|o| o.0 == op.addr && o.1 == op.size).unwrap_or(0);
        self.lins.clear();
        self.linix.clear();
        let l0 = self.lin(vec![Cfg { vals: sc.objs.iter().map(|o| o.2).collect(), st: [0; 3], res: Default::default() }]);
        let mut s0 = St { mem, th: [ThS { op: 0, called: false, node: u32::MAX, part: 0, acc: 0, resv: (0, 0) }; 3], budget: sc.spurious, cur: 255, lin: l0 };
        for (t, ops) in sc.threads.iter().enumerate() {
            match self.loc.start(ops[0]) {
                Next::Node(n) => s0.th[t].node = n,
                Next::Bad(f) => {
                    found.push(bad(f, vec![], vec![]));
                    return found;
                }
                Next::Panic(p) => {
                    found.push(Found { cat: Cat::Lin, msg: format!("panic: {p}"), trace: vec![], sched: vec![] });
                    return found;
                }
                Next::Ret(_) => {
                    found.push(Found { cat: Cat::Lin, msg: format!("{} returned without accessing the object", ops[0].show(cx)), trace: vec![], sched: vec![] });
                    return found;
                }
            }
        }
        // 0 = on stack, 1 = done; value: number of schedules below (saturating)
        let mut seen: HashMap<St, (bool, u128)> = HashMap::new();
        struct Fr {
            s: St,
            next: Vec<(u8, bool, St, Option<Res>)>, // successors left
            paths: u128,
        }
        let mut stack: Vec<Fr> = vec![];
        let mut sched: Vec<(u8, bool)> = vec![];
        let mut results: Vec<(u8, Option<Res>)> = vec![];
        let succs = |me: &mut Self, s: &St, found: &mut Vec<Found>, sched: &Vec<(u8, bool)>| -> Vec<(u8, bool, St, Option<Res>)> {
            let mut out = vec![];
            for t in 0..sc.threads.len() {
                let ts = s.th[t];
                if ts.node == u32::MAX || s.cur != 255 && s.cur as usize != t {
                    continue;
                }
                let (op, req) = {
                    let n = &me.loc.nodes[ts.node as usize];
                    (n.op, n.req.clone())
                };
                let a = (req.addr.v as u64).wrapping_sub(wbase) as usize;
                let n = req.size as usize;
                let mut report = |cat: Cat, msg: String| {
                    if !found.iter().any(|f| f.cat == cat) {
                        let mut sd = sched.clone();
                        sd.push((t as u8, false));
                        found.push(Found { cat, msg, trace: vec![], sched: sd });
                    }
                };
                if !matches!(req.op, Mo::ClrEx) && (a >= WIN || a + n > WIN) {
                    report(Cat::Fault, format!("{} accesses {} bytes at {:#x}, outside the object and its surroundings", op.show(cx), n, req.addr.v));
                    continue;
                }
                let israw = me.loc.nodes[ts.node as usize].th.is_none();
                if !israw && req.flags & PLAIN != 0 && !irq {
                    report(Cat::Lin, format!("{} accesses the object with a non-atomic memory access ({} bytes at +{})", op.show(cx), n, a));
                    continue;
                }
                if !matches!(req.op, Mo::ClrEx) && n > 1 && a / 8 != (a + n - 1) / 8 && a % n.next_power_of_two() != 0 {
                    report(Cat::Fault, format!("{} performs a misaligned {}-byte access at +{}", op.show(cx), n, a));
                    continue;
                }
                let variants: &[bool] = if matches!(req.op, Mo::Sc(_)) && s.budget > 0 { &[false, true] } else { &[false] };
                for &fail in variants {
                    let mut d = s.clone();
                    let mut old = if n > 0 { from_bytes(big, &s.mem[a..a + n]) } else { 0 };
                    let torn = me.loc.torn(ts.node);
                    if torn {
                        let p = ts.part as usize;
                        match &req.op {
                            Mo::Load => d.th[t].acc |= (s.mem[a + p] as u32) << (8 * p),
                            Mo::Store(v) => d.mem[a + p] = (v.v >> (8 * p)) as u8,
                            _ => {}
                        }
                        d.cur = 255;
                        if p + 1 < n {
                            d.th[t].part += 1;
                            if !ts.called {
                                d.th[t].called = true;
                                let mut v = me.lins[d.lin as usize].clone();
                                for c in v.iter_mut() {
                                    c.st[t] = 1;
                                }
                                v.sort();
                                v.dedup();
                                d.lin = me.lin(v);
                            }
                            out.push((t as u8, fail, d, None));
                            continue;
                        }
                        old = d.th[t].acc as u128;
                        d.th[t].part = 0;
                        d.th[t].acc = 0;
                    }
                    let bits = req.size * 8;
                    let (w, resp) = match &req.op {
                        Mo::Store(_) if torn => (None, 0),
                        Mo::Load => (None, old),
                        Mo::Store(v) => (Some(v.v), 0),
                        Mo::Rmw { k, val, cmp, wb_on_fail } => {
                            let w = rmw(*k, old, val.v, cmp.v, bits);
                            (if w.is_none() && *wb_on_fail { Some(old) } else { w }, old)
                        }
                        Mo::Ll => {
                            d.th[t].resv = (a as u8, n as u8);
                            (None, old)
                        }
                        Mo::Sc(v) => {
                            let rs = s.th[t].resv;
                            d.th[t].resv = (0, 0);
                            if rs.1 != 0 && rs != (a as u8, n as u8) {
                                report(Cat::Fault, format!("{}: store-conditional does not match the load-linked", op.show(cx)));
                                continue;
                            }
                            if rs.1 == 0 {
                                if fail {
                                    continue;
                                }
                                (None, 0)
                            } else if fail {
                                d.budget -= 1;
                                (None, 0)
                            } else {
                                (Some(v.v), 1)
                            }
                        }
                        Mo::ClrEx => {
                            d.th[t].resv = (0, 0);
                            (None, 0)
                        }
                        _ => (None, 0),
                    };
                    if let Some(v) = w {
                        let nb = to_bytes(big, v, n);
                        if op.k == K::Load {
                            let same = nb[..] == s.mem[a..a + n];
                            if !same || matches!(req.op, Mo::Store(_)) || op.size as u32 * 8 <= cx.l.layout.ptr_bits {
                                report(Cat::LoadWrite, format!("{} performs a write access ({} -> {:#x})", op.show(cx), if same { "same value" } else { "different value" }, v & mask(bits)));
                            }
                        }
                        d.mem[a..a + n].copy_from_slice(&nb);
                        for u in 0..3 {
                            let r = d.th[u].resv;
                            if u != t && r.1 != 0 && (r.0 as usize) < a + n && a < r.0 as usize + r.1 as usize {
                                d.th[u].resv = (0, 0);
                            }
                        }
                    }
                    // linearizability bookkeeping
                    if !ts.called {
                        d.th[t].called = true;
                        let mut v = me.lins[d.lin as usize].clone();
                        for c in v.iter_mut() {
                            c.st[t] = 1;
                        }
                        v.sort();
                        v.dedup();
                        d.lin = me.lin(v);
                    }
                    let node = ts.node;
                    let mut ret = None;
                    match me.loc.step(node, resp) {
                        Next::Node(x) => d.th[t].node = x,
                        Next::Panic(p) => {
                            report(Cat::Lin, format!("{}: panic: {p}", op.show(cx)));
                            continue;
                        }
                        Next::Bad(f) => {
                            let b = bad(f, vec![], vec![]);
                            report(b.cat, format!("{}: {}", op.show(cx), b.msg));
                            continue;
                        }
                        Next::Ret(res) => {
                            ret = Some(res);
                            if matches!(op.k, K::Fus) {
                                let m = mask(op.bits());
                                let ok = if res.ok { res.lastarg == res.val && res.lastret == res.val.wrapping_add(op.a) & m && res.val != op.c } else { res.lastarg == res.val && res.val == op.c };
                                if !ok {
                                    report(Cat::Update, format!("{} returned {res:x?}", op.show(cx)));
                                }
                            }
                            let mut ops: [Option<(Op, usize)>; 3] = [None; 3];
                            for u in 0..sc.threads.len() {
                                if d.th[u].called {
                                    let o = sc.threads[u][d.th[u].op as usize];
                                    ops[u] = Some((o, objof(&o)));
                                }
                            }
                            let cl = me.closure(&me.lins[d.lin as usize], &ops);
                            let mut v: Vec<Cfg> = cl
                                .into_iter()
                                .filter(|c| c.st[t] == 2 && (!op.has_result() || c.res[t] == (res.ok, res.val)))
                                .map(|mut c| {
                                    c.st[t] = 0;
                                    c.res[t] = (false, 0);
                                    c
                                })
                                .collect();
                            v.sort();
                            v.dedup();
                            if v.is_empty() {
                                report(
                                    if op.k == K::Fus { Cat::Update } else { Cat::Lin },
                                    format!("{} returned {} {:#x}; no order of the calls explains the results", op.show(cx), if !op.has_result() { "" } else if res.ok { "Ok" } else { "Err" }, res.val),
                                );
                                if op.k == K::Fus {
                                    report(Cat::Lin, format!("{} returned {} {:#x}; no order of the calls explains the results", op.show(cx), if res.ok { "Ok" } else { "Err" }, res.val));
                                }
                                continue;
                            }
                            d.lin = me.lin(v);
                            let k = d.th[t].op as usize + 1;
                            d.th[t].called = false;
                            d.th[t].op = k as u8;
                            d.th[t].resv = d.th[t].resv;
                            d.th[t].node = u32::MAX;
                            if let Some(o) = sc.threads[t].get(k) {
                                match me.loc.start(*o) {
                                    Next::Node(x) => d.th[t].node = x,
                                    Next::Bad(f) => {
                                        let b = bad(f, vec![], vec![]);
                                        report(b.cat, format!("{}: {}", o.show(cx), b.msg));
                                        continue;
                                    }
                                    _ => {
                                        report(Cat::Lin, format!("{} panicked or returned without accessing the object", o.show(cx)));
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    let nn = d.th[t].node;
                    d.cur = if nn != u32::MAX && !me.loc.open(nn) { t as u8 } else { 255 };
                    out.push((t as u8, fail, d, ret));
                }
            }
            out
        };
        let nx = succs(self, &s0, &mut found, &sched);
        seen.insert(s0.clone(), (false, 0));
        stack.push(Fr { s: s0, next: nx, paths: 0 });
        let mut cnt = 0u32;
        let limit = 100 + 30 * sc.threads.iter().map(|t| t.len()).sum::<usize>();
        while let Some(f) = stack.last_mut() {
            self.max_depth = self.max_depth.max(sched.len());
            if let Some((t, fail, d, ret)) = f.next.pop() {
                self.transitions += 1;
                cnt += 1;
                if cnt & 0xfff == 0 && crate::par::past(self.deadline) || seen.len() > self.max_states {
                    self.capped = true;
                    break;
                }
                match seen.get(&d) {
                    Some((true, p)) => {
                        f.paths = f.paths.saturating_add(*p);
                        continue;
                    }
                    Some((false, _)) => {
                        if !found.iter().any(|f| f.cat == Cat::Progress) {
                            let mut sd = sched.clone();
                            sd.push((t, fail));
                            self.stuck = true;
                            self.max_states = seen.len() + 20_000;
                            found.push(Found { cat: Cat::Progress, msg: "the threads can run forever without any call completing (cycle in the state graph)".into(), trace: vec![], sched: sd });
                        }
                        continue;
                    }
                    None => {}
                }
                sched.push((t, fail));
                results.push((t, ret));
                if sched.len() > limit {
                    // executions of these short scenarios take far fewer accesses unless a loop repeats without cause
                    if !found.iter().any(|f| f.cat == Cat::Progress) {
                        found.push(Found { cat: Cat::Progress, msg: format!("the calls do not complete within {limit} memory accesses"), trace: vec![], sched: sched.clone() });
                        self.stuck = true;
                            self.max_states = seen.len() + 20_000;
                    }
                    self.capped = true;
                    sched.pop();
                    results.pop();
                    seen.insert(d, (true, 0));
                    continue;
                }
                let nx = succs(self, &d, &mut found, &sched);
                let done = d.th.iter().all(|x| x.node == u32::MAX);
                seen.insert(d.clone(), (false, 0));
                let mut paths = 0;
                if done {
                    self.terminals += 1;
                    paths = 1;
                    // final memory
                    let set = &self.lins[d.lin as usize];
                    let okv = set.iter().any(|c| {
                        sc.objs.iter().enumerate().all(|(i, (a, n, _))| {
                            let o = (a - wbase) as usize;
                            from_bytes(big, &d.mem[o..o + *n as usize]) == c.vals[i]
                        })
                    });
                    if !okv {
                        let cat = if sc.objs.len() > 1 { Cat::Outside } else { Cat::Lin };
                        for cat in [cat, Cat::Lin] {
                            if !found.iter().any(|f| f.cat == cat) {
                                let m: Vec<String> = sc.objs.iter().map(|(a, n, _)| format!("{:#x}", from_bytes(big, &d.mem[(a - wbase) as usize..(a - wbase) as usize + *n as usize]))).collect();
                                found.push(Found { cat, msg: format!("final contents {} cannot result from any order of the calls (a write was lost or applied twice)", m.join(", ")), trace: vec![], sched: sched.clone() });
                            }
                        }
                    }
                    if let Some(i) = (0..WIN).find(|&i| !owned[i] && d.mem[i] != init_mem0[i]) {
                        if !found.iter().any(|f| f.cat == Cat::Outside) {
                            found.push(Found { cat: Cat::Outside, msg: format!("byte +{} outside every object changed from {:#x} to {:#x}", i as u64 + WOFF, init_mem0[i], d.mem[i]), trace: vec![], sched: sched.clone() });
                        }
                    }
                    if self.scheds.len() < self.want_sched {
                        let mut rs: Vec<Vec<Res>> = vec![vec![]; sc.threads.len()];
                        for (t, r) in &results {
                            if let Some(r) = r {
                                rs[*t as usize].push(*r);
                            }
                        }
                        self.scheds.push((sched.clone(), rs, d.mem.to_vec()));
                    }
                }
                stack.push(Fr { s: d, next: nx, paths });
            } else {
                let f = stack.pop().unwrap();
                seen.insert(f.s, (true, f.paths));
                sched.pop();
                results.pop();
                if let Some(p) = stack.last_mut() {
                    p.paths = p.paths.saturating_add(f.paths);
                } else {
                    self.schedules = self.schedules.saturating_add(f.paths);
                }
            }
        }
        self.states += seen.len() as u64;
        for f in found.iter_mut() {
            f.trace = self.replay(sc, &f.sched, &mem);
        }
        found
    }

    /// Results and final window of one schedule of thread numbers (no store-conditional failures, no tearing).
    pub fn follow(&mut self, sc: &Scenario, sched: &[u8]) -> Result<(Vec<Vec<Res>>, Vec<u8>), String> {
        let cx = self.loc.cx;
        let big = cx.l.layout.big;
        let wbase = cx.b.shared + WOFF;
        let mut mem = initial(sc, wbase);
        let mut cur: Vec<Next> = sc.threads.iter().map(|ops| self.loc.start(ops[0])).collect();
        let mut out: Vec<Vec<Res>> = vec![vec![]; sc.threads.len()];
        for &t in sched {
            let t = t as usize;
            let n = match &cur[t] {
                Next::Node(n) => *n,
                Next::Bad(f) => return Err(crate::report::fault_text(f)),
                _ => return Err("the thread has finished".into()),
            };
            let req = self.loc.nodes[n as usize].req.clone();
            let a = (req.addr.v as u64).wrapping_sub(wbase) as usize;
            let sz = req.size as usize;
            if a >= WIN || a + sz > WIN {
                return Err("access outside the window".into());
            }
            let old = from_bytes(big, &mem[a..a + sz]);
            let w = match &req.op {
                Mo::Load => None,
                Mo::Store(v) => Some(v.v),
                Mo::Rmw { k, val, cmp, .. } => rmw(*k, old, val.v, cmp.v, sz as u32 * 8),
                _ => return Err("access kind".into()),
            };
            if let Some(v) = w {
                mem[a..a + sz].copy_from_slice(&to_bytes(big, v, sz));
            }
            let resp = if matches!(req.op, Mo::Store(_)) { 0 } else { old };
            cur[t] = match self.loc.step(n, resp) {
                Next::Ret(r) => {
                    out[t].push(r);
                    match sc.threads[t].get(out[t].len()) {
                        Some(o) => self.loc.start(*o),
                        None => Next::Panic("end".into()),
                    }
                }
                Next::Panic(p) => return Err(format!("panic: {p}")),
                x => x,
            };
        }
        if out.iter().zip(&sc.threads).any(|(a, b)| a.len() != b.len()) {
            return Err("calls left".into());
        }
        Ok((out, mem))
    }

    /// Human-readable rendering of a schedule.
    fn replay(&mut self, sc: &Scenario, sched: &[(u8, bool)], mem: &[u8; WIN]) -> Vec<String> {
        let cx = self.loc.cx;
        let big = cx.l.layout.big;
        let wbase = cx.b.shared + WOFF;
        let mut mem = *mem;
        let mut out = vec![];
        for (i, (a, n, v)) in sc.objs.iter().enumerate() {
            out.push(format!("object {i}: {n} bytes at +{} initially {v:#x}", a - cx.b.shared));
        }
        for (t, ops) in sc.threads.iter().enumerate() {
            out.push(format!("thread {t}: {}", ops.iter().map(|o| o.show(cx)).collect::<Vec<_>>().join("; ")));
        }
        let mut cur: Vec<(usize, Next)> = sc.threads.iter().map(|ops| (0, self.loc.start(ops[0]))).collect();
        let mut resv = [(0usize, 0usize); 3];
        let mut part = [(0usize, 0u128); 3];
        for (t, fail) in sched {
            let t = *t as usize;
            let Next::Node(n) = cur[t].1.clone() else { continue };
            let req = self.loc.nodes[n as usize].req.clone();
            let a = (req.addr.v as u64).wrapping_sub(wbase) as usize;
            let sz = req.size as usize;
            if a + sz > WIN && !matches!(req.op, Mo::ClrEx) {
                out.push(format!("  T{t} access outside"));
                break;
            }
            let mut old = if sz > 0 { from_bytes(big, &mem[a..a + sz]) } else { 0 };
            let torn = self.loc.torn(n);
            if torn {
                let p = part[t].0;
                match &req.op {
                    Mo::Load => part[t].1 |= (mem[a + p] as u128) << (8 * p),
                    Mo::Store(v) => mem[a + p] = (v.v >> (8 * p)) as u8,
                    _ => {}
                }
                out.push(format!("  T{t}: ordinary access, byte {p} of {sz} at +{a}: {:#x}", mem[a + p]));
                part[t].0 += 1;
                if p + 1 < sz {
                    continue;
                }
                old = part[t].1;
                part[t] = (0, 0);
            }
            let (w, resp, what) = match &req.op {
                Mo::Store(_) if torn => (None, 0, "store done".into()),
                Mo::Load => (None, old, format!("load {sz} bytes at +{a} -> {old:#x}")),
                Mo::Store(v) => (Some(v.v), 0, format!("store {:#x} ({sz} bytes at +{a})", v.v & mask(sz as u32 * 8))),
                Mo::Rmw { k, val, cmp, .. } => {
                    let w = rmw(*k, old, val.v, cmp.v, sz as u32 * 8);
                    (w, old, format!("atomic {k:?} {sz} bytes at +{a}: {old:#x} -> {}", w.map_or("unchanged".into(), |x| format!("{x:#x}"))))
                }
                Mo::Ll => {
                    resv[t] = (a, sz);
                    (None, old, format!("load-linked {sz} bytes at +{a} -> {old:#x}"))
                }
                Mo::Sc(v) => {
                    let ok = resv[t].1 != 0 && !*fail;
                    resv[t] = (0, 0);
                    (if ok { Some(v.v) } else { None }, ok as u128, format!("store-conditional {:#x} ({sz} bytes at +{a}): {}", v.v & mask(sz as u32 * 8), if ok { "success" } else { "failure" }))
                }
                _ => (None, 0, "clear reservation".into()),
            };
            if let Some(v) = w {
                mem[a..a + sz].copy_from_slice(&to_bytes(big, v, sz));
                for u in 0..3 {
                    if u != t && resv[u].1 != 0 && resv[u].0 < a + sz && a < resv[u].0 + resv[u].1 {
                        resv[u] = (0, 0);
                    }
                }
            }
            let nx = self.loc.step(n, resp);
            let mut line = format!("  T{t}: {what}");
            match nx {
                Next::Ret(r) => {
                    let op = sc.threads[t][cur[t].0];
                    line.push_str(&format!("   => {} returns {}", op.fname(), if op.has_result() { format!("{} {:#x}", if matches!(op.k, K::Cas | K::Casw | K::Fus) { if r.ok { "Ok" } else { "Err" } } else { "" }, r.val) } else { String::new() }));
                    let k = cur[t].0 + 1;
                    cur[t] = (k, if k < sc.threads[t].len() { self.loc.start(sc.threads[t][k]) } else { Next::Panic("end".into()) });
                }
                x => cur[t].1 = x,
            }
            out.push(line);
        }
        out
    }
}

fn filler(i: usize) -> u8 {
    junk(3000 + i as u16, 8, 0) as u8 | 1
}
/// Initial window of a scenario (little-endian objects).
pub fn initial(sc: &Scenario, wbase: u64) -> Vec<u8> {
    let mut mem: Vec<u8> = (0..WIN).map(filler).collect();
    for (a, n, v) in &sc.objs {
        let o = (a - wbase) as usize;
        mem[o..o + *n as usize].copy_from_slice(&to_bytes(false, *v, *n as usize));
    }
    mem
}

fn bad(f: Fault, trace: Vec<String>, sched: Vec<(u8, bool)>) -> Found {
    let cat = match &f {
        Fault::Engine(_) => Cat::Engine,
        Fault::Hang(_) => Cat::Progress,
        _ => Cat::Fault,
    };
    Found { cat, msg: crate::report::fault_text(&f), trace, sched }
}
