//! C06 C07 C08: the real instruction sequences under the axiomatic memory model of the architecture, with the
//! compiler's freedom around the asm blocks, compared with the outcomes C++20 allows.
use crate::asm::*;
use crate::config::TypeInfo;
use crate::interp::*;
use crate::memmodel::*;
use crate::ops::*;
use crate::report::*;
use crate::seq::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

/// Abstract operation of a litmus program. Values are small numbers; the real value has every byte equal to it.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct LOp {
    pub k: K,
    pub loc: u8,
    pub o1: u8,
    pub o2: u8,
    pub a: u8,
    pub c: u8,
}
pub type Prog = Vec<Vec<LOp>>;
pub const NOSTOP: u8 = 0x77;
pub const INIT: u8 = 1;
const MAXV: u8 = 5;

fn res(ok: bool, v: u8) -> u16 {
    (ok as u16) << 8 | v as u16
}

// ---------------------------------------------------------------------------------------------- specification

#[derive(Clone, Debug)]
struct Alt {
    ev: Vec<(Option<u8>, Option<u8>, u8)>, // value read, value written, ordering of the event
    res: u16,
}

fn lang_alts(op: &LOp, dom: &[u8]) -> Vec<Alt> {
    let mut v = vec![];
    match op.k {
        K::Load | K::RawLoad | K::StdLoad => {
            for &d in dom {
                v.push(Alt { ev: vec![(Some(d), None, op.o1)], res: res(true, d) });
            }
        }
        K::StdFence => v.push(Alt { ev: vec![(None, None, op.o1)], res: 0 }),
        K::Store | K::RawStore | K::StdStore => v.push(Alt { ev: vec![(None, Some(op.a), op.o1)], res: 0 }),
        K::Swap => {
            for &d in dom {
                v.push(Alt { ev: vec![(Some(d), Some(op.a), op.o1)], res: res(true, d) });
            }
        }
        K::Cas | K::Casw => {
            for &d in dom {
                if d == op.c {
                    v.push(Alt { ev: vec![(Some(d), Some(op.a), op.o1)], res: res(true, d) });
                    if op.k == K::Casw {
                        v.push(Alt { ev: vec![(Some(d), None, op.o2)], res: res(false, d) });
                    }
                } else {
                    v.push(Alt { ev: vec![(Some(d), None, op.o2)], res: res(false, d) });
                }
            }
        }
        K::Fu | K::Fus => {
            // load, then weak compare-exchange attempts
            fn go(op: &LOp, dom: &[u8], seen: Vec<u8>, left: u8, v: &mut Vec<Alt>) {
                let cur = *seen.last().unwrap();
                let mut ev: Vec<(Option<u8>, Option<u8>, u8)> = seen.iter().map(|&x| (Some(x), None, op.o2)).collect();
                if cur == op.c {
                    v.push(Alt { ev, res: res(false, cur) });
                    return;
                }
                ev.push((Some(cur), Some(cur.wrapping_add(op.a)), op.o1));
                v.push(Alt { ev, res: res(true, cur) });
                if left > 0 {
                    for &d in dom {
                        let mut s = seen.clone();
                        s.push(d);
                        go(op, dom, s, left - 1, v);
                    }
                }
            }
            for &d in dom {
                go(op, dom, vec![d], 1, &mut v);
            }
        }
    }
    v
}

/// Values every location may hold.
fn domains(p: &Prog) -> Vec<Vec<u8>> {
    let nl = p.iter().flatten().map(|o| o.loc).max().unwrap() as usize + 1;
    let mut d = vec![vec![INIT]; nl];
    for _ in 0..3 {
        for op in p.iter().flatten() {
            let l = op.loc as usize;
            let mut new = vec![];
            match op.k {
                K::Store | K::RawStore | K::StdStore | K::Swap => new.push(op.a),
                K::Cas | K::Casw => {
                    if d[l].contains(&op.c) {
                        new.push(op.a);
                    }
                }
                K::Fu | K::Fus => {
                    for &x in &d[l] {
                        if x != op.c && x.wrapping_add(op.a) <= MAXV {
                            new.push(x.wrapping_add(op.a));
                        }
                    }
                }
                _ => {}
            }
            for x in new {
                if !d[l].contains(&x) {
                    d[l].push(x);
                }
            }
        }
    }
    d
}

pub type Outcomes = HashSet<Vec<u16>>;

/// All total orders of the writes of one location that respect `before` (bit k of before[i]: k comes earlier).
fn orders(ws: &[usize], before: &[u64], n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(left: u64, ws: &[usize], before: &[u64], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for (i, &w) in ws.iter().enumerate() {
            if left >> w & 1 == 1 && before[i] & left == 0 {
                cur.push(w);
                go(left & !(1 << w), ws, before, cur, out);
                cur.pop();
            }
        }
    }
    let _ = n;
    let all = ws.iter().fold(0u64, |m, &w| m | 1 << w);
    go(all, ws, before, &mut vec![], &mut out);
    out
}

/// All outcomes (results in program order, then final values) the C++20 model allows.
pub fn lang_set(p: &Prog) -> Arc<Outcomes> {
    static C: OnceLock<Mutex<HashMap<Prog, Arc<Outcomes>>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(x) = c.lock().unwrap().get(p) {
        return x.clone();
    }
    let dom = domains(p);
    let nl = dom.len();
    let ops: Vec<(u8, LOp)> = p.iter().enumerate().flat_map(|(t, o)| o.iter().map(move |x| (t as u8, *x))).collect();
    let alts: Vec<Vec<Alt>> = ops.iter().map(|(_, o)| lang_alts(o, &dom[o.loc as usize])).collect();
    let mut out: Outcomes = HashSet::new();
    let mut pick = vec![0usize; ops.len()];
    'outer: loop {
        // build events
        let mut ev: Vec<LEv> = (0..nl).map(|l| LEv { th: 255, loc: l as u8, rd: None, wr: Some(INIT), acq: false, rel: false, sc: false }).collect();
        for (i, (t, o)) in ops.iter().enumerate() {
            for &(rd, wr, ord) in &alts[i][pick[i]].ev {
                let fence = rd.is_none() && wr.is_none();
                ev.push(LEv { th: *t, loc: o.loc, rd, wr, acq: (rd.is_some() || fence) && matches!(ord, 1 | 3 | 4), rel: (wr.is_some() || fence) && matches!(ord, 2 | 3 | 4), sc: ord == 4 });
            }
        }
        let n = ev.len();
        let results: Vec<u16> = (0..ops.len()).map(|i| alts[i][pick[i]].res).collect();
        lang_candidates(&ev, n, nl, &results, &mut out);
        // next
        let mut i = 0;
        loop {
            if i == ops.len() {
                break 'outer;
            }
            pick[i] += 1;
            if pick[i] < alts[i].len() {
                break;
            }
            pick[i] = 0;
            i += 1;
        }
    }
    let out = Arc::new(out);
    c.lock().unwrap().insert(p.clone(), out.clone());
    out
}

fn lang_candidates(ev: &[LEv], n: usize, nl: usize, results: &[u16], out: &mut Outcomes) {
    // sources of every read
    let mut src: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        match ev[i].rd {
            None => src.push(vec![255]),
            Some(v) => {
                let s: Vec<u8> = (0..n).filter(|&w| w != i && ev[w].loc == ev[i].loc && ev[w].wr == Some(v)).map(|w| w as u8).collect();
                if s.is_empty() {
                    return;
                }
                src.push(s);
            }
        }
    }
    let mut per: Vec<Vec<Vec<usize>>> = vec![];
    for l in 0..nl {
        let ws: Vec<usize> = (0..n).filter(|&i| ev[i].loc as usize == l && ev[i].wr.is_some()).collect();
        let before: Vec<u64> = ws.iter().map(|&w| ws.iter().filter(|&&x| x != w && (ev[x].th == 255 || (ev[x].th == ev[w].th && x < w))).fold(0, |m, &x| m | 1 << x)).collect();
        per.push(orders(&ws, &before, n));
    }
    let mut ci = vec![0usize; nl];
    loop {
        let finals: Vec<u16> = (0..nl).map(|l| ev[*per[l][ci[l]].last().unwrap()].wr.unwrap() as u16).collect();
        let mut key = results.to_vec();
        key.extend(&finals);
        if !out.contains(&key) {
            let mut co = vec![0u64; n];
            for l in 0..nl {
                let o = &per[l][ci[l]];
                for i in 0..o.len() {
                    for j in i + 1..o.len() {
                        co[o[i]] |= 1 << o[j];
                    }
                }
            }
            let mut ri = vec![0usize; n];
            'rf: loop {
                let rf: Vec<u8> = (0..n).map(|i| src[i][ri[i]]).collect();
                if cxx20(ev, &rf, &co) {
                    out.insert(key.clone());
                    break;
                }
                let mut i = 0;
                loop {
                    if i == n {
                        break 'rf;
                    }
                    ri[i] += 1;
                    if ri[i] < src[i].len() {
                        break;
                    }
                    ri[i] = 0;
                    i += 1;
                }
            }
        }
        let mut l = 0;
        loop {
            if l == nl {
                return;
            }
            ci[l] += 1;
            if ci[l] < per[l].len() {
                break;
            }
            ci[l] = 0;
            l += 1;
        }
    }
}

// ---------------------------------------------------------------------------------------------- implementation

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Hev {
    pub kind: u8,
    pub lo: u8, // object-relative byte range
    pub hi: u8,
    pub b: [u8; 16],
    pub flags: u32,
    pub fence: u32,
    pub addr: u64,
    pub data: u64,
    pub ctrl: u64,
    pub pair: u8,
    pub llsc: bool,
    pub chunk: u16, // 0x8000 and above: ordinary access (after that many asm blocks)
}
/// One way an operation can execute.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tr {
    pub ev: Vec<Hev>,
    pub chunks: Vec<u8>, // 0..2: reads and writes memory / only reads / none; +4 when not volatile; 8: compiler fence
    pub res: u16,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Lim {
    pub rmw_fail: u8,
    pub sc_fail: u8,
}

pub struct Tracer<'a, 'b> {
    pub cc: &'b Cc<'a>,
    memo: HashMap<(Op, Vec<u8>, Lim), Result<Rc<Vec<Tr>>, Fault>>,
    pub steps: u64,
    /// types of the locations of the program, when they differ
    pub over: Vec<TypeInfo>,
}

fn rep(v: u8, n: u32) -> u128 {
    (v as u128 * 0x0101_0101_0101_0101_0101_0101_0101_0101) & mask(n * 8)
}
fn uncode(v: u128, n: u32) -> u8 {
    let b = v as u8;
    if rep(b, n) == v & mask(n * 8) {
        b
    } else {
        255
    }
}

impl<'a, 'b> Tracer<'a, 'b> {
    pub fn new(cc: &'b Cc<'a>) -> Self {
        Tracer { cc, memo: Default::default(), steps: 0, over: vec![] }
    }
    pub fn traces(&mut self, op: &Op, dom: &[u8], lim: Lim) -> Result<Rc<Vec<Tr>>, Fault> {
        let key = (*op, dom.to_vec(), lim);
        if let Some(x) = self.memo.get(&key) {
            return x.clone();
        }
        let r = self.gen(op, dom, lim).map(Rc::new);
        self.memo.insert(key, r.clone());
        r
    }
    fn gen(&mut self, op: &Op, dom: &[u8], lim: Lim) -> Result<Vec<Tr>, Fault> {
        let cx = self.cc.cx;
        let big = cx.l.layout.big;
        let n = op.size as usize;
        let block = op.addr & !15;
        let oo = (op.addr - block) as usize;
        if matches!(op.k, K::RawLoad | K::RawStore) {
            let mk = |kind: u8, v: u8| {
                let mut b = [0u8; 16];
                b.fill(v);
                Hev { kind, lo: 0, hi: 16, b, flags: 0, fence: 0, addr: 0, data: 0, ctrl: 0, pair: 255, llsc: false, chunk: u16::MAX }
            };
            return Ok(if op.k == K::RawStore { vec![Tr { ev: vec![mk(1, op.a as u8)], chunks: vec![], res: 0 }] } else { dom.iter().map(|&d| Tr { ev: vec![mk(0, d)], chunks: vec![], res: res(true, d) }).collect() });
        }
        if matches!(op.k, K::StdLoad | K::StdStore | K::StdFence) {
            return self.std_traces(op, dom);
        }
        let mut base = [0u8; 16];
        for (i, b) in base.iter_mut().enumerate() {
            *b = junk(3500 + i as u16, 8, 0) as u8 | 0x80;
        }
        cx.taints.set(true);
        let mut out: HashSet<Tr> = HashSet::new();
        struct S {
            th: Thread,
            resp: Option<TV>,
            ev: Vec<Hev>,
            resv: Option<(u8, u64, u32)>,
            rf: u8,
            sf: u8,
            open: bool,
            crit: u8, // read made with interrupts disabled (255: none)
        }
        let mut stack = vec![S { th: prepare(cx, op, 0)?, resp: None, ev: vec![], resv: None, rf: lim.rmw_fail, sf: lim.sc_fail, open: false, crit: 255 }];
        let irq = cx.isa.tick_each();
        let sc_taint = cx.isa.mm();
        let mut result = Ok(());
        'dfs: while let Some(mut s) = stack.pop() {
            self.steps += 1;
            let e = match s.th.run(cx, s.resp.take()) {
                Ok(e) => e,
                Err(f) => {
                    result = Err(f);
                    break;
                }
            };
            let req = match e {
                Ev::Tick => {
                    stack.push(s);
                    continue;
                }
                Ev::Panic(p) => {
                    result = Err(Fault::Mem(format!("panic {p}")));
                    break;
                }
                Ev::Done => {
                    let r = finish(cx, op, &s.th);
                    let code = if op.has_result() { res(r.ok, uncode(r.val, n as u32)) } else { 0 };
                    let chunks = s
                        .th
                        .chunks
                        .iter()
                        .map(|&c| {
                            if c == u32::MAX {
                                return 8;
                            }
                            let i = &cx.infos[c as usize];
                            let m = if i.readnone {
                                2
                            } else if i.readonly {
                                1
                            } else if i.memory {
                                0
                            } else {
                                2
                            };
                            m + if i.def.sideeffect { 0 } else { 4 }
                        })
                        .collect();
                    out.insert(Tr { ev: s.ev, chunks, res: code });
                    continue;
                }
                Ev::Mem(r) => r,
            };
            if irq && s.th.open_at {
                s.crit = 255;
            }
            if s.ev.len() > 14 {
                continue; // bound on the number of accesses of one call
            }
            let (chunk, ctrl) = match s.th.frames.last().and_then(|f| f.asm_ctrl()) {
                Some(c) if req.flags & (PLAIN | IRATOMIC) == 0 => (s.th.chunks.len() as u16 - 1, c),
                _ => (0x8000 | s.th.chunks.len() as u16, 0),
            };
            if req.flags & IRATOMIC != 0 && !matches!(req.op, Mo::Fence(_)) {
                result = eng("compiler-generated atomic access");
                break;
            }
            let idx = s.ev.len() as u8;
            if let Mo::Fence(b) = req.op {
                // a fence that is not in an asm block is a compiler barrier of its own
                let chunk = if chunk >= 0x8000 {
                    if req.flags & IRATOMIC != 0 {
                        s.th.chunks.push(u32::MAX);
                    }
                    (s.th.chunks.len().max(1) - 1) as u16
                } else {
                    chunk
                };
                s.ev.push(Hev { kind: 2, lo: 0, hi: 0, b: [0; 16], flags: req.flags, fence: b, addr: 0, data: 0, ctrl, pair: 255, llsc: false, chunk });
                s.resp = Some(TV::k(0));
                stack.push(s);
                continue;
            }
            if matches!(req.op, Mo::ClrEx) {
                s.resv = None;
                s.resp = Some(TV::k(0));
                stack.push(s);
                continue;
            }
            let a = req.addr.v as u64;
            let sz = req.size as usize;
            if a < block || a + sz as u64 > block + 16 {
                result = Err(Fault::Mem("access outside the block".into()));
                break;
            }
            let off = (a - block) as usize;
            let (lo, hi) = (off.max(oo), (off + sz).min(oo + n));
            let inside = lo < hi;
            let bytes_at = |v: u8| -> u128 {
                let mut b = base;
                b[oo..oo + n].fill(v);
                from_bytes(big, &b[off..off + sz])
            };
            let (olo, ohi) = if inside { ((lo - oo) as u8, (hi - oo) as u8) } else { (0, 0) };
            let rd_ev = |v: u8, ll: bool| {
                let mut b = [0u8; 16];
                b[olo as usize..ohi as usize].fill(v);
                Hev { kind: 0, lo: olo, hi: ohi, b, flags: req.flags & 0xff, fence: 0, addr: req.addr.t, data: 0, ctrl, pair: 255, llsc: ll, chunk }
            };
            let wr_ev = |val: u128, data: u64, pair: u8, ll: bool| -> Hev {
                let w = to_bytes(big, val & mask(req.size * 8), sz);
                let mut b = [0u8; 16];
                for i in lo..hi {
                    b[i - oo] = w[i - off];
                }
                Hev { kind: 1, lo: olo, hi: ohi, b, flags: req.flags & 0xff, fence: 0, addr: req.addr.t, data, ctrl, pair, llsc: ll, chunk }
            };
            match &req.op {
                Mo::Load | Mo::Ll => {
                    if !inside {
                        s.resp = Some(TV::k(bytes_at(0)));
                        stack.push(s);
                        continue;
                    }
                    let ll = matches!(req.op, Mo::Ll);
                    if !ll {
                        // loads in front of a compare-and-swap count as attempts
                        let mut blocks: Vec<u16> = s.ev.iter().filter(|e| e.kind == 0 && !e.llsc && e.pair == 255 && (irq || e.chunk < 0x8000)).map(|e| e.chunk).collect();
                        blocks.dedup();
                        if blocks.last() != Some(&chunk) && blocks.len() >= 2 + lim.rmw_fail as usize {
                            continue;
                        }
                    }
                    if ll && s.open {
                        // the previous attempt ended because the value differed
                        if s.rf == 0 {
                            continue;
                        }
                        s.rf -= 1;
                    }
                    for &v in dom {
                        let mut ev = s.ev.clone();
                        ev.push(rd_ev(v, ll));
                        stack.push(S { th: s.th.clone(), resp: Some(TV { v: bytes_at(v), t: 1 << idx }), ev, resv: if ll { Some((idx, a, req.size)) } else { s.resv }, rf: s.rf, sf: s.sf, open: ll || s.open, crit: if irq { idx } else { 255 } });
                    }
                }
                Mo::Store(v) => {
                    if inside {
                        if olo != 0 || ohi as usize != n {
                            result = eng("value stored in pieces");
                            break 'dfs;
                        }
                        if s.crit != 255 && s.ev[s.crit as usize].pair == 255 {
                            // nothing runs between the two accesses
                            let li = s.crit;
                            s.ev[li as usize].pair = idx;
                            s.ev.push(wr_ev(v.v, v.t, li, false));
                        } else {
                            s.ev.push(wr_ev(v.v, v.t, 255, false));
                        }
                    }
                    s.resp = Some(TV::k(0));
                    stack.push(s);
                }
                Mo::Rmw { k, val, cmp, wb_on_fail } => {
                    if !inside {
                        result = eng("read-modify-write next to the object");
                        break 'dfs;
                    }
                    for &v in dom {
                        let old = bytes_at(v);
                        let nv = rmw(*k, old, val.v, cmp.v, req.size * 8);
                        let mut ev = s.ev.clone();
                        let mut r = rd_ev(v, false);
                        let mut rfb = s.rf;
                        let dm = val.t | cmp.t | 1 << idx;
                        match nv {
                            Some(x) => {
                                if olo != 0 || ohi as usize != n {
                                    result = eng("value stored in pieces");
                                    break 'dfs;
                                }
                                r.pair = idx + 1;
                                ev.push(r);
                                ev.push(wr_ev(x, dm, idx, false));
                            }
                            None => {
                                if rfb == 0 {
                                    continue;
                                }
                                rfb -= 1;
                                let _ = wb_on_fail;
                                ev.push(r);
                            }
                        }
                        stack.push(S { th: s.th.clone(), resp: Some(TV { v: old, t: 1 << idx }), ev, resv: s.resv, rf: rfb, sf: s.sf, open: s.open, crit: 255 });
                    }
                }
                Mo::Sc(v) => {
                    s.open = false;
                    let Some((li, la, ls)) = s.resv.take() else {
                        s.resp = Some(TV::k(0));
                        stack.push(s);
                        continue;
                    };
                    if (la, ls) != (a, req.size) {
                        result = Err(Fault::Mem("store-conditional does not match the load-linked".into()));
                        break 'dfs;
                    }
                    if s.sf > 0 {
                        stack.push(S { th: s.th.clone(), resp: Some(TV::k(0)), ev: s.ev.clone(), resv: None, rf: s.rf, sf: s.sf - 1, open: false, crit: 255 });
                    }
                    let most = lim.rmw_fail as usize + if matches!(op.k, K::Fu | K::Fus) { 2 } else { 1 };
                    if s.ev.iter().filter(|e| e.kind == 1).count() >= most {
                        continue; // an attempt too many that writes the old value back
                    }
                    if olo != 0 || ohi as usize != n {
                        result = eng("value stored in pieces");
                        break 'dfs;
                    }
                    s.ev[li as usize].pair = idx;
                    s.ev.push(wr_ev(v.v, v.t, li, true));
                    let t = match sc_taint {
                        Mm::AArch64 => 0,
                        Mm::RiscV => 1 << idx,
                        _ => 1 << li,
                    };
                    s.resp = Some(TV { v: 1, t });
                    stack.push(s);
                }
                _ => {}
            }
        }
        cx.taints.set(false);
        result?;
        let mut v: Vec<Tr> = out.into_iter().collect();
        if std::env::var("AMUCK_SLOW").is_ok() {
            eprintln!("gen {} {lim:?} dom {dom:?}: {} traces, max {:?}", op.show(cx), v.len(), v.iter().map(|t| t.ev.len()).max());
        }
        for t in &mut v {
            for e in &mut t.ev {
                if e.kind < 2 && e.lo == 0 && e.hi as usize == n && e.b[..n].iter().all(|x| *x == e.b[0]) {
                    e.b = [e.b[0]; 16];
                    e.hi = 16;
                }
            }
        }
        v.sort_by(|a, b| (a.ev.len(), a.res, &a.ev, &a.chunks).cmp(&(b.ev.len(), b.res, &b.ev, &b.chunks)));
        // a trace that only adds reads and fences to another one allows nothing more
        let mut keep: Vec<Tr> = vec![];
        for t in v {
            if !keep.iter().any(|k| subsumes(k, &t)) {
                keep.push(t);
            }
        }
        Ok(keep)
    }

    /// The compiler's translation of (SeqCst or Release) stores and (SeqCst or Acquire) loads of core::sync::atomic
    /// (None: a library call, or not known).
    pub fn std_map(&self, sc: bool) -> Option<(Vec<Std>, Vec<Std>)> {
        use Std::*;
        let c = &self.cc.cfg;
        let all = Fence(F_ALL);
        let (acq, rel) = (Fence(F_PR | F_SR | F_SW), Fence(F_PR | F_PW | F_SW));
        let full = Fence(F_ALL | F_FULL);
        Some(match (self.cc.cx.isa.mm(), c.arch.as_str()) {
            (Mm::Tso, "x86" | "x86_64") => (if sc { vec![Xchg(LOCK)] } else { vec![Write(0)] }, vec![Read(0)]),
            (Mm::Tso, "s390x") => (if sc { vec![Write(0), all] } else { vec![Write(0)] }, vec![Read(0)]),
            (Mm::AArch64, _) => (vec![Write(REL)], vec![Read(if sc { ACQ } else { ACQPC })]),
            (Mm::Arm7, _) => (if sc { vec![all, Write(0), all] } else { vec![all, Write(0)] }, vec![Read(0), all]),
            (Mm::Power, _) if sc => (vec![full, Write(0)], vec![full, Read(0), Isync]),
            (Mm::Power, _) => (vec![Fence(F_LW), Write(0)], vec![Read(0), Isync]),
            (Mm::RiscV, _) if sc => (vec![rel, Write(0), all], vec![all, Read(0), acq]),
            (Mm::RiscV, _) => (vec![rel, Write(0)], vec![Read(0), acq]),
            (Mm::WeakRr, "loongarch") => (vec![Xchg(LOCK)], vec![Read(0), if sc { all } else { acq }]),
            (Mm::Weak, "mips") => (if sc { vec![all, Write(0), all] } else { vec![all, Write(0)] }, vec![Read(0), all]),
            (Mm::Weak, "sparc") => (if sc { vec![rel, Write(0), all] } else { vec![rel, Write(0)] }, vec![Read(0), acq]),
            _ => return None,
        })
    }
    /// The compiler's translation of core::sync::atomic::fence.
    pub fn std_fence(&self, ord: u8) -> Option<Vec<u32>> {
        let c = &self.cc.cfg;
        let acq = F_PR | F_SR | F_SW;
        let rel = F_PR | F_PW | F_SW;
        let by = |a: u32, r: u32, s: u32| match ord {
            1 => vec![a],
            2 => vec![r],
            _ => vec![s],
        };
        Some(match (self.cc.cx.isa.mm(), c.arch.as_str()) {
            (Mm::Tso, "x86" | "x86_64" | "s390x") => if ord == 4 { vec![F_ALL] } else { vec![] },
            (Mm::AArch64, "aarch64") => by(acq, F_ALL, F_ALL),
            (Mm::AArch64 | Mm::Arm7, _) => vec![F_ALL],
            (Mm::Power, _) => by(F_LW, F_LW, F_ALL | F_FULL),
            (Mm::RiscV, _) | (Mm::WeakRr, "loongarch") => by(acq, rel, F_ALL),
            (Mm::Weak, "mips") => vec![F_ALL],
            (Mm::Weak, "sparc") => by(acq, rel, F_ALL),
            _ => return None,
        })
    }
    fn std_traces(&self, op: &Op, dom: &[u8]) -> Result<Vec<Tr>, Fault> {
        if op.k == K::StdFence {
            let Some(f) = self.std_fence(op.o1) else { return eng("core fences") };
            let ev = f.iter().map(|&k| Hev { kind: 2, lo: 0, hi: 0, b: [0; 16], flags: 0, fence: k, addr: 0, data: 0, ctrl: 0, pair: 255, llsc: false, chunk: 0 }).collect();
            return Ok(vec![Tr { ev, chunks: vec![8], res: 0 }]);
        }
        let Some((st, ld)) = self.std_map(op.o1 == 4) else { return eng("core atomics") };
        let seq = if op.k == K::StdStore { st } else { ld };
        let reads = seq.iter().any(|x| matches!(x, Std::Read(_) | Std::Xchg(_)));
        let one = |d: u8| -> Tr {
            let mut ev: Vec<Hev> = vec![];
            let mut rd = None;
            for s in &seq {
                let mk = |kind: u8, v: u8, flags: u32| Hev { kind, lo: 0, hi: 16, b: [v; 16], flags, fence: 0, addr: 0, data: 0, ctrl: 0, pair: 255, llsc: false, chunk: 0 };
                let i = ev.len() as u8;
                match *s {
                    Std::Fence(k) => ev.push(Hev { hi: 0, b: [0; 16], fence: k, ..mk(2, 0, 0) }),
                    Std::Isync => ev.push(Hev { hi: 0, b: [0; 16], fence: F_ISYNC, ctrl: 1u64 << rd.unwrap(), ..mk(2, 0, 0) }),
                    Std::Read(f) => {
                        rd = Some(i);
                        ev.push(mk(0, d, f));
                    }
                    Std::Write(f) => ev.push(mk(1, op.a as u8, f)),
                    Std::Xchg(f) => {
                        ev.push(Hev { pair: i + 1, ..mk(0, d, f) });
                        ev.push(Hev { pair: i, ..mk(1, op.a as u8, f) });
                    }
                }
            }
            Tr { ev, chunks: vec![0], res: if op.k == K::StdLoad { res(true, d) } else { 0 } }
        };
        Ok(if reads { dom.iter().map(|&d| one(d)).collect() } else { vec![one(0)] })
    }

    pub fn real(&self, t: &TypeInfo, l: &LOp, nloc_data: bool) -> Op {
        let cx = self.cc.cx;
        let t = self.over.get(l.loc as usize).unwrap_or(t);
        let n = t.size as u32;
        let block = cx.b.shared + 16 * (l.loc as u64 + 1);
        let raw = matches!(l.k, K::RawLoad | K::RawStore);
        let _ = nloc_data;
        if raw {
            return Op { k: l.k, ty: 0, addr: block, o1: 0, o2: 0, a: l.a as u128, au: 0, c: 0, cu: 0, none_at: 0, size: 1, off: false };
        }
        let off = if n < 4 { n as u64 } else { 0 };
        Op::new(l.k, t, block + off).ord(l.o1, l.o2).val(rep(l.a, n)).cur(rep(l.c, n))
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Std {
    Read(u32),
    Write(u32),
    Xchg(u32),
    Fence(u32),
    Isync,
}

/// Whether `big` is `small` plus reads without a write and fences, at most adding order to the rest. Every hardware
/// model is monotone in these, so executions of `big` are executions of `small`.
fn subsumes(small: &Tr, big: &Tr) -> bool {
    if small.res != big.res || small.ev.len() >= big.ev.len() || small.chunks.len() > big.chunks.len() {
        return false;
    }
    // map: index in small -> index in big; cmap: chunk mapping
    fn go(s: &Tr, b: &Tr, i: usize, j: usize, map: &mut Vec<usize>, cmap: &mut Vec<(u16, u16)>) -> bool {
        if i == s.ev.len() {
            return b.ev[j..].iter().all(|e| e.kind == 2 || e.kind == 0 && e.pair == 255) && finish(s, b, map, cmap);
        }
        if j == b.ev.len() {
            return false;
        }
        let (x, y) = (&s.ev[i], &b.ev[j]);
        let plain = (x.chunk >= 0x8000) == (y.chunk >= 0x8000);
        let cok = plain && (x.chunk >= 0x8000 || cmap.last().map_or(true, |c| (c.0 == x.chunk && c.1 == y.chunk) || (c.0 < x.chunk && c.1 < y.chunk)));
        if cok && x.kind == y.kind && x.lo == y.lo && x.hi == y.hi && x.b == y.b && x.flags == y.flags && x.fence == y.fence && x.llsc == y.llsc && (x.pair == 255) == (y.pair == 255) {
            map.push(j);
            let l = cmap.len();
            if x.chunk < 0x8000 && cmap.last() != Some(&(x.chunk, y.chunk)) {
                cmap.push((x.chunk, y.chunk));
            }
            if go(s, b, i + 1, j + 1, map, cmap) {
                return true;
            }
            cmap.truncate(l);
            map.pop();
        }
        let skip = y.kind == 2 || y.kind == 0 && y.pair == 255;
        skip && go(s, b, i, j + 1, map, cmap)
    }
    fn finish(s: &Tr, b: &Tr, map: &[usize], cmap: &[(u16, u16)]) -> bool {
        let mp = |m: u64| bits(m).fold(0u64, |r, k| r | 1 << map[k]);
        for (i, &j) in map.iter().enumerate() {
            let (x, y) = (&s.ev[i], &b.ev[j]);
            if x.pair != 255 && map[x.pair as usize] != y.pair as usize {
                return false;
            }
            if mp(x.addr) & !y.addr != 0 || mp(x.data) & !y.data != 0 || mp(x.ctrl) & !y.ctrl != 0 {
                return false;
            }
        }
        // chunks without events must map as well
        let mut k = 0usize;
        for (c, a) in s.chunks.iter().enumerate() {
            match cmap.iter().find(|m| m.0 as usize == c) {
                Some(m) => {
                    if b.chunks[m.1 as usize] != *a || (m.1 as usize) < k {
                        return false;
                    }
                    k = m.1 as usize + 1;
                }
                None => match b.chunks[k..].iter().position(|x| x == a) {
                    Some(p) => k += p + 1,
                    None => return false,
                },
            }
        }
        true
    }
    go(small, big, 0, 0, &mut vec![], &mut vec![])
}

/// Orders of the parts of a thread the compiler may produce.
fn reorderings(items: &[(u8, u8, Vec<usize>)]) -> Vec<Vec<usize>> {
    // item: (attr: chunk attribute, or 16 = plain load, 17 = plain store; location; events)
    let swap_ok = |a: &(u8, u8, Vec<usize>), b: &(u8, u8, Vec<usize>)| -> bool {
        let mem = |x: u8| match x {
            16 => 1,
            17 => 0,
            8 => 0,
            c => c & 3,
        };
        if a.0 >= 16 && b.0 >= 16 {
            return a.1 != b.1;
        }
        let vol = |x: u8| x < 4 || x == 8;
        if vol(a.0) && vol(b.0) {
            return false;
        }
        // a reading and a writing part must stay in order
        !(mem(a.0) == 0 && mem(b.0) < 2 || mem(b.0) == 0 && mem(a.0) < 2)
    };
    let id: Vec<usize> = (0..items.len()).collect();
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    seen.insert(id.clone());
    let mut todo = vec![id];
    while let Some(p) = todo.pop() {
        if seen.len() > 300 {
            break;
        }
        for i in 1..p.len() {
            if swap_ok(&items[p[i - 1]], &items[p[i]]) {
                let mut q = p.clone();
                q.swap(i - 1, i);
                if seen.insert(q.clone()) {
                    todo.push(q);
                }
            }
        }
    }
    let mut v: Vec<Vec<usize>> = seen.into_iter().collect();
    v.sort();
    v
}

pub struct Out {
    pub candidates: u64,
    pub products: u64,
    pub placed: u64,
    pub bad: Option<String>,
    pub capped: bool,
}

/// Checks one litmus program; `full`: index of the operation explored with retries.
pub fn litmus(tr: &mut Tracer, t: &TypeInfo, p: &Prog, full: Option<usize>) -> Result<Out, Fault> {
    let mm = tr.cc.cx.isa.mm();
    let lang = lang_set(p);
    let dom = domains(p);
    let nl = dom.len();
    let ops: Vec<(u8, LOp)> = p.iter().enumerate().flat_map(|(t, o)| o.iter().map(move |x| (t as u8, *x))).collect();
    let mut trs: Vec<Rc<Vec<Tr>>> = vec![];
    let size: Vec<u8> = vec![16; nl];
    for (i, (_, o)) in ops.iter().enumerate() {
        let real = tr.real(t, o, false);
        let cas = matches!(o.k, K::Cas | K::Casw | K::Fus | K::Fu | K::Load);
        let lim = if full == Some(i) { Lim { rmw_fail: 1, sc_fail: 1 } } else { Lim { rmw_fail: cas as u8, sc_fail: 0 } };
        trs.push(tr.traces(&real, &dom[o.loc as usize], lim)?);
    }
    let mut out = Out { candidates: 0, products: 0, placed: 0, bad: None, capped: false };
    if std::env::var("AMUCK_SLOW").is_ok() {
        eprintln!("  traces {:?} lens {:?}", trs.iter().map(|x| x.len()).collect::<Vec<_>>(), trs.iter().map(|x| x.iter().map(|t| t.ev.len()).max()).collect::<Vec<_>>());
    }
    let total: f64 = trs.iter().map(|x| x.len() as f64).product();
    if total > 3e6 {
        out.capped = true;
        return Ok(out);
    }
    if trs.iter().any(|x| x.is_empty()) {
        return eng("no execution within the bounds");
    }
    // group the traces by result; combinations of results that C++20 allows with every final state need no further work
    let groups: Vec<Vec<(u16, Vec<usize>)>> = trs
        .iter()
        .map(|x| {
            let mut g: Vec<(u16, Vec<usize>)> = vec![];
            for (i, t) in x.iter().enumerate() {
                match g.iter_mut().find(|e| e.0 == t.res) {
                    Some(e) => e.1.push(i),
                    None => g.push((t.res, vec![i])),
                }
            }
            g
        })
        .collect();
    let mut fin: Vec<Vec<u16>> = vec![vec![]];
    for l in 0..nl {
        let mut f: Vec<u16> = dom[l].iter().map(|&x| x as u16).collect();
        f.push(255);
        if trs.iter().zip(&ops).all(|(x, o)| o.1.loc as usize != l || x.iter().all(|t| t.ev.iter().all(|e| e.kind != 1 || (e.b[..size[l] as usize].iter().all(|b| *b == e.b[0]) && dom[l].contains(&e.b[0]))))) {
            f.pop();
        }
        if !ops.iter().any(|o| o.1.loc as usize == l && !matches!(o.1.k, K::Load | K::RawLoad | K::StdLoad | K::StdFence)) {
            f = vec![INIT as u16];
        }
        fin = fin.iter().flat_map(|p| f.iter().map(|&x| [p.clone(), vec![x]].concat())).collect();
    }
    // values read and written by each trace (bit 63: anything else)
    let masks: Vec<Vec<(u64, u64)>> = trs
        .iter()
        .map(|x| {
            x.iter()
                .map(|t| {
                    let m = |e: &Hev| {
                        let b = &e.b[e.lo as usize..e.hi as usize];
                        if b.iter().all(|x| *x == b[0] && *x < 63) {
                            1u64 << b[0]
                        } else {
                            1 << 63
                        }
                    };
                    (t.ev.iter().filter(|e| e.kind == 0).fold(0, |a, e| a | m(e)), t.ev.iter().filter(|e| e.kind == 1).fold(0, |a, e| a | m(e)))
                })
                .collect()
        })
        .collect();
    let mut gi = vec![0usize; ops.len()];
    loop {
        let key0: Vec<u16> = (0..ops.len()).map(|i| groups[i][gi[i]].0).collect();
        out.products += 1;
        let all_ok = fin.iter().all(|f| lang.contains(&[key0.clone(), f.clone()].concat()));
        if !all_ok {
            // combinations in which every value read is one some operation writes
            let can: Vec<Vec<u64>> = {
                let mut v = vec![vec![0u64; nl]; ops.len() + 1];
                for i in (0..ops.len()).rev() {
                    v[i] = v[i + 1].clone();
                    let l = ops[i].1.loc as usize;
                    for &x in &groups[i][gi[i]].1 {
                        v[i][l] |= masks[i][x].1;
                    }
                }
                v
            };
            struct D<'x> {
                groups: Vec<&'x [usize]>,
                masks: &'x [Vec<(u64, u64)>],
                can: &'x [Vec<u64>],
                locs: Vec<usize>,
                found: Vec<Vec<usize>>,
                seen: u64,
            }
            fn down(d: &mut D, pick: &mut Vec<usize>, rd: &mut Vec<u64>, wr: &mut Vec<u64>) {
                let i = pick.len();
                if (0..rd.len()).any(|l| rd[l] & !(wr[l] | d.can[i][l]) != 0) {
                    return;
                }
                if i == d.groups.len() {
                    d.found.push(pick.clone());
                    return;
                }
                let l = d.locs[i];
                let g = d.groups[i];
                for &x in g {
                    d.seen += 1;
                    let (r0, w0) = (rd[l], wr[l]);
                    rd[l] |= d.masks[i][x].0;
                    wr[l] |= d.masks[i][x].1;
                    pick.push(x);
                    down(d, pick, rd, wr);
                    pick.pop();
                    rd[l] = r0;
                    wr[l] = w0;
                }
            }
            let mut d = D { groups: (0..ops.len()).map(|i| groups[i][gi[i]].1.as_slice()).collect(), masks: &masks, can: &can, locs: ops.iter().map(|o| o.1.loc as usize).collect(), found: vec![], seen: 0 };
            down(&mut d, &mut vec![], &mut vec![0; nl], &mut vec![1 << INIT; nl]);
            out.products += d.seen;
            let found = d.found;
            for pick in &found {
                one_product(mm, p, &ops, &trs, pick, nl, &size, &lang, &mut out);
                if out.bad.is_some() {
                    return Ok(out);
                }
            }
        }
        let mut i = 0;
        loop {
            if i == ops.len() {
                return Ok(out);
            }
            gi[i] += 1;
            if gi[i] < groups[i].len() {
                break;
            }
            gi[i] = 0;
            i += 1;
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn one_product(mm: Mm, p: &Prog, ops: &[(u8, LOp)], trs: &[Rc<Vec<Tr>>], pick: &[usize], nl: usize, size: &[u8], lang: &Outcomes, out: &mut Out) {
    let results: Vec<u16> = (0..ops.len()).map(|i| trs[i][pick[i]].res).collect();
    let n = nl + (0..ops.len()).map(|i| trs[i][pick[i]].ev.len()).sum::<usize>();
    if n > 64 {
        out.capped = true;
        return;
    }
    // gather events
    let mut ev: Vec<(u8, u8, Hev)> = Vec::with_capacity(n); // thread, location
    for l in 0..nl {
        ev.push((255, l as u8, Hev { kind: 1, lo: 0, hi: size[l], b: [INIT; 16], flags: 0, fence: 0, addr: 0, data: 0, ctrl: 0, pair: 255, llsc: false, chunk: 0 }));
    }
    let mut start = vec![];
    for (i, (t, o)) in ops.iter().enumerate() {
        let base = ev.len();
        start.push(base);
        for e in &trs[i][pick[i]].ev {
            let mut e = e.clone();
            e.addr <<= base;
            e.data <<= base;
            e.ctrl <<= base;
            if e.pair != 255 {
                e.pair += base as u8;
            }
            ev.push((*t, o.loc, e));
        }
    }
    // possible sources of reads
    let mut src: Vec<Vec<u8>> = vec![vec![255]; n];
    for i in 0..n {
        if ev[i].2.kind != 0 {
            continue;
        }
        let (lo, hi) = (ev[i].2.lo as usize, ev[i].2.hi as usize);
        let s: Vec<u8> = (0..n).filter(|&w| ev[w].2.kind == 1 && ev[w].1 == ev[i].1 && w != i && ev[i].2.pair != w as u8 && ev[w].2.b[lo..hi] == ev[i].2.b[lo..hi]).map(|w| w as u8).collect();
        if s.is_empty() {
            return;
        }
        src[i] = s;
    }
    // program orders after the compiler's freedom
    let mut thread_orders: Vec<Vec<Vec<usize>>> = vec![]; // per thread: alternatives, each a sequence of event ids
    for t in 0..p.len() {
        let mut items: Vec<(u8, u8, Vec<usize>)> = vec![];
        for (i, (th, o)) in ops.iter().enumerate() {
            if *th as usize != t {
                continue;
            }
            let x = &trs[i][pick[i]];
            let mut k = 0;
            let mut emit_chunks = 0usize;
            while k < x.ev.len() {
                let c = x.ev[k].chunk;
                if c >= 0x8000 {
                    while emit_chunks < x.chunks.len().min(c as usize & 0x7fff) {
                        items.push((x.chunks[emit_chunks], o.loc, vec![]));
                        emit_chunks += 1;
                    }
                    items.push((if x.ev[k].kind == 1 { 17 } else { 16 }, o.loc, vec![start[i] + k]));
                    k += 1;
                    continue;
                }
                while emit_chunks < c as usize {
                    items.push((x.chunks[emit_chunks], o.loc, vec![]));
                    emit_chunks += 1;
                }
                let mut g = vec![];
                while k < x.ev.len() && x.ev[k].chunk == c {
                    g.push(start[i] + k);
                    k += 1;
                }
                items.push((x.chunks[c as usize], o.loc, g));
                emit_chunks = c as usize + 1;
            }
            while emit_chunks < x.chunks.len() {
                items.push((x.chunks[emit_chunks], o.loc, vec![]));
                emit_chunks += 1;
            }
        }
        thread_orders.push(reorderings(&items).into_iter().map(|o| o.into_iter().flat_map(|i| items[i].2.clone()).collect::<Vec<usize>>()).collect());
        let l = thread_orders.last_mut().unwrap();
        l.dedup();
    }
    let mut ti = vec![0usize; p.len()];
    loop {
        let mut ex = Exec { n, ..Default::default() };
        for (t, _, e) in &ev {
            ex.th.push(*t);
            ex.kind.push(e.kind);
            ex.flags.push(e.flags);
            ex.fence.push(e.fence);
            ex.addr.push(e.addr);
            ex.data.push(e.data);
            ex.ctrl.push(e.ctrl);
            ex.pair.push(e.pair);
        }
        ex.loc = ev.iter().map(|e| e.1).collect();
        ex.po = vec![0; n];
        for t in 0..p.len() {
            let o = &thread_orders[t][ti[t]];
            for i in 0..o.len() {
                for j in i + 1..o.len() {
                    ex.po[o[i]] |= 1 << o[j];
                }
            }
        }
        for i in 0..n {
            match ev[i].2.kind {
                0 => ex.r |= 1 << i,
                1 => ex.w |= 1 << i,
                _ => ex.f |= 1 << i,
            }
            if ev[i].2.llsc {
                ex.llsc |= 1 << i;
            }
        }
        // per location: coherence orders with the sources of the reads, coherent on their own
        let mut per: Vec<Vec<Assign>> = vec![];
        for l in 0..nl {
            let a = assigns(&ex, mm, &ev, &src, l, size[l] as usize, out);
            if a.is_empty() {
                per.clear();
                break;
            }
            per.push(a);
        }
        if !per.is_empty() {
            let mut ci = vec![0usize; nl];
            let mut rf = vec![255u8; n];
            let mut co = vec![0u64; n];
            'co: loop {
                let mut key = results.clone();
                key.extend((0..nl).map(|l| per[l][ci[l]].fin));
                if !lang.contains(&key) {
                    co.iter_mut().for_each(|x| *x = 0);
                    for l in 0..nl {
                        let a = &per[l][ci[l]];
                        let mut later = 0u64;
                        for &w in a.order.iter().rev() {
                            co[w as usize] = later;
                            later |= 1 << w;
                        }
                        for &(r, w) in &a.rf {
                            rf[r as usize] = w;
                        }
                    }
                    out.candidates += 1;
                    if ex.consistent(mm, &rf, &co) {
                        let mut s = String::new();
                        for t in 0..p.len() {
                            s.push_str(&format!("thread {t}:\n"));
                            for &i in &thread_orders[t][ti[t]] {
                                let e = &ev[i].2;
                                s.push_str(&match e.kind {
                                    0 => format!("  e{i}: read  loc{} bytes {}..{} = {:02x?} from e{}{}\n", ev[i].1, e.lo, e.hi, &e.b[e.lo as usize..e.hi as usize], rf[i], fl(e)),
                                    1 => format!("  e{i}: write loc{} = {:02x?}{}\n", ev[i].1, &e.b[..e.hi as usize], fl(e)),
                                    _ => format!("  e{i}: fence {:#x}\n", e.fence),
                                });
                            }
                        }
                        for l in 0..nl {
                            s.push_str(&format!("modification order of loc{l}: {:?}\n", per[l][ci[l]].order));
                        }
                        s.push_str(&format!("results (ok<<8|value) {:x?}, final values {:?}; not allowed by the C++20 memory model but by the {mm:?} hardware model", results, (0..nl).map(|l| per[l][ci[l]].fin).collect::<Vec<_>>()));
                        out.bad = Some(s);
                        return;
                    }
                }
                let mut l = 0;
                loop {
                    if l == nl {
                        break 'co;
                    }
                    ci[l] += 1;
                    if ci[l] < per[l].len() {
                        break;
                    }
                    ci[l] = 0;
                    l += 1;
                }
            }
        }
        let mut t = 0;
        loop {
            if t == p.len() {
                return;
            }
            ti[t] += 1;
            if ti[t] < thread_orders[t].len() {
                break;
            }
            ti[t] = 0;
            t += 1;
        }
    }
}

struct Assign {
    order: Vec<u8>,
    rf: Vec<(u8, u8)>,
    fin: u16,
}

/// Coherence orders of one location together with the sources of its reads: atomic read-modify-writes immediately
/// follow their source, and the location on its own is sequentially consistent.
fn assigns(ex: &Exec, mm: Mm, ev: &[(u8, u8, Hev)], src: &[Vec<u8>], l: usize, size: usize, out: &mut Out) -> Vec<Assign> {
    let n = ev.len();
    let ws: u64 = (0..n).filter(|&i| ev[i].1 as usize == l && ev[i].2.kind == 1).fold(0, |m, i| m | 1 << i);
    let reads: Vec<usize> = (0..n).filter(|&i| ev[i].1 as usize == l && ev[i].2.kind == 0).collect();
    let free: Vec<usize> = reads.iter().copied().filter(|&i| ev[i].2.pair == 255).collect();
    // writes that must come before each write: the initial one and earlier ones of its thread
    let mut before = vec![0u64; n];
    for w in bits(ws) {
        for x in bits(ws) {
            if x != w && (ev[x].0 == 255 || ex.po[x] >> w & 1 == 1) {
                before[w] |= 1 << x;
            }
        }
    }
    let mut res = vec![];
    struct C<'a> {
        ex: &'a Exec,
        mm: Mm,
        ev: &'a [(u8, u8, Hev)],
        src: &'a [Vec<u8>],
        free: Vec<usize>,
        before: Vec<u64>,
        size: usize,
        l: u8,
        out: &'a mut Out,
    }
    fn over(c: &C, a: usize, b: usize) -> bool {
        let (x, y) = (&c.ev[a].2, &c.ev[b].2);
        x.lo < y.hi && y.lo < x.hi
    }
    /// may read `r` take its value from `s`, as far as the writes of its own thread placed so far go?
    fn fits(c: &C, order: &[u8], r: usize, s: u8) -> bool {
        let Some(ps) = order.iter().position(|&x| x == s) else { return false };
        order[ps + 1..].iter().all(|&w| !(c.ex.po[w as usize] >> r & 1 == 1 && over(c, w as usize, r)))
    }
    /// Chooses sources for the reads `todo`, then goes on with `k`.
    fn choose(c: &mut C, order: &mut Vec<u8>, rf: &mut Vec<(u8, u8)>, todo: &[usize], res: &mut Vec<Assign>, k: &mut dyn FnMut(&mut C, &mut Vec<u8>, &mut Vec<(u8, u8)>, &mut Vec<Assign>)) {
        let Some((&r, rest)) = todo.split_first() else { return k(c, order, rf, res) };
        for i in 0..c.src[r].len() {
            let s = c.src[r][i];
            if fits(c, order, r, s) {
                rf.push((r as u8, s));
                choose(c, order, rf, rest, res, k);
                rf.pop();
            }
        }
    }
    fn go(c: &mut C, left: u64, order: &mut Vec<u8>, rf: &mut Vec<(u8, u8)>, res: &mut Vec<Assign>) {
        let open = |c: &C, rf: &[(u8, u8)]| -> Vec<usize> { c.free.iter().copied().filter(|&r| !rf.iter().any(|x| x.0 as usize == r)).collect() };
        if left == 0 {
            let todo = open(c, rf);
            choose(c, order, rf, &todo, res, &mut |c, order, rf, res| {
                c.out.placed += 1;
                if c.ex.coherent(c.mm, c.l, order, rf) {
                    let e = &c.ev[*order.last().unwrap() as usize].2;
                    let fin = if e.b[..c.size].iter().all(|x| *x == e.b[0]) { e.b[0] as u16 } else { 255 };
                    res.push(Assign { order: order.clone(), rf: rf.clone(), fin });
                }
            });
            return;
        }
        for w in bits(left) {
            if c.before[w] & left != 0 {
                continue;
            }
            let p = c.ev[w].2.pair;
            let base = rf.len();
            if p != 255 {
                let Some(&last) = order.last() else { continue };
                if !c.src[p as usize].contains(&last) {
                    continue;
                }
                rf.push((p, last));
            }
            // reads of the same bytes earlier in the thread take their value from a write placed already
            let todo: Vec<usize> = open(c, rf).into_iter().filter(|&r| c.ex.po[r] >> w & 1 == 1 && over(c, r, w)).collect();
            choose(c, order, rf, &todo, res, &mut |c, order, rf, res| {
                order.push(w as u8);
                go(c, left & !(1 << w), order, rf, res);
                order.pop();
            });
            rf.truncate(base);
        }
    }
    let mut c = C { ex, mm, ev, src, free, before, size, l: l as u8, out };
    go(&mut c, ws, &mut vec![], &mut vec![], &mut res);
    res
}

fn fl(e: &Hev) -> String {
    let mut s = String::new();
    for (b, n) in [(ACQ, " acquire"), (REL, " release"), (ACQPC, " acquire-pc"), (LOCK, " locked")] {
        if e.flags & b != 0 {
            s.push_str(n);
        }
    }
    if e.addr | e.data | e.ctrl != 0 {
        s.push_str(&format!(" (deps addr {:?} data {:?} ctrl {:?})", bits(e.addr).collect::<Vec<_>>(), bits(e.data).collect::<Vec<_>>(), bits(e.ctrl).collect::<Vec<_>>()));
    }
    if e.pair != 255 {
        s.push_str(&format!(" [rmw with e{}]", e.pair));
    }
    s
}

// ---------------------------------------------------------------------------------------------- program families

fn leq(a: u8, b: u8) -> bool {
    // ordering strength: relaxed < acquire, release < acqrel < seqcst
    a == b || a == 0 || b == 4 || (b == 3 && (a == 1 || a == 2))
}

/// Writer kinds: op that turns INIT into `v` (cas expects `cur`).
fn wop(k: K, loc: u8, o: (u8, u8), cur: u8, v: u8) -> LOp {
    let (a, c) = match k {
        K::Cas | K::Casw => (v, cur),
        K::Fus => (v - cur, NOSTOP),
        _ => (v, 0),
    };
    LOp { k, loc, o1: o.0, o2: o.1, a, c }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rk2 {
    Load,
    Swap,
    CasOk,
    CasFail,
    CaswOk,
    CaswFail,
    FusOk,
    FusStop,
}
/// Reader kinds: op expected to observe `v`; when it writes, it writes `w`.
fn rop(r: Rk2, loc: u8, o: (u8, u8), v: u8, w: u8) -> LOp {
    let (k, a, c) = match r {
        Rk2::Load => (K::Load, 0, 0),
        Rk2::Swap => (K::Swap, w, 0),
        Rk2::CasOk => (K::Cas, w, v),
        Rk2::CasFail => (K::Cas, w, NOSTOP),
        Rk2::CaswOk => (K::Casw, w, v),
        Rk2::CaswFail => (K::Casw, w, NOSTOP),
        Rk2::FusOk => (K::Fus, w.wrapping_sub(v), NOSTOP),
        Rk2::FusStop => (K::Fus, 1, v),
    };
    LOp { k, loc, o1: o.0, o2: o.1, a, c }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Fam {
    AcqRel,
    SeqCst,
    Coherence,
}

struct Suite<'x, 'a, 'b> {
    tr: Tracer<'a, 'b>,
    t: &'x TypeInfo,
    r: &'x mut Report,
    done: HashSet<Prog>,
    stop: bool,
}

impl<'x, 'a, 'b> Suite<'x, 'a, 'b> {
    fn go(&mut self, name: &str, p: Prog, full: Option<usize>) {
        if self.stop || !self.done.insert(p.clone()) {
            return;
        }
        let cc = self.tr.cc;
        if cc.late(self.r) {
            self.stop = true;
            return;
        }
        let show = |s: &Self| -> String { p.iter().map(|o| o.iter().map(|x| s.tr.real(s.t, x, false).show(cc.cx)).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join("  ||  ") };
        if std::env::var("AMUCK_SLOW").is_ok() {
            eprintln!("{name} {}", show(self));
        }
        match litmus(&mut self.tr, self.t, &p, full) {
            Err(f @ Fault::Engine(_)) => {
                self.r.fault(&cc.key(self.t.name), &f, String::new);
                self.stop = true;
            }
            Err(_) => self.stop = true, // reported by the sequential checks
            Ok(o) => {
                if std::env::var("AMUCK_SLOW").is_ok() {
                    eprintln!("cand {} {} {} {} {}", name.replace(' ', "_"), self.t.name, cc.cfg.id, o.placed, o.products);
                }
                self.r.evals += 1;
                self.r.states += o.candidates + o.products + o.placed;
                self.r.transitions += o.candidates.max(1) * p.iter().map(|x| x.len() as u64).sum::<u64>();
                self.r.add("trace_combinations", o.products);
                self.r.add("candidate_executions", o.candidates);
                if o.capped {
                    self.r.add("programs_skipped_too_large", 1);
                    if std::env::var_os("AMUCK_SKIPPED").is_some() {
                        eprintln!("skipped {} {name} {}", cc.cfg.id, show(self));
                    }
                }
                if let Some(b) = o.bad {
                    let names: Vec<String> = p.iter().map(|o| o.iter().map(|x| format!("{}({},{})", self.tr.real(self.t, x, false).fname(), ORD[x.o1 as usize], ORD[x.o2 as usize])).collect::<Vec<_>>().join(";")).collect();
                    let s = show(self);
                    let name = if self.tr.over.is_empty() { name.to_string() } else { format!("{name} ({} and {})", self.tr.over[0].name, self.tr.over[1].name) };
                    self.r.viol(cc.key(&format!("{name}|{}", names.join("||"))), format!("configuration {} (target {}), litmus {name}\n{s}\n{b}", cc.cfg.id, cc.cfg.target));
                    if self.r.viols.len() > 12 {
                        self.stop = true;
                    }
                }
                let s = show(self);
                self.r.sample(|| format!("{name}: {s}: {} instruction-level combinations, {} candidate executions checked", o.products, o.candidates));
            }
        }
    }
}

fn raw(w: bool, loc: u8, v: u8) -> LOp {
    LOp { k: if w { K::RawStore } else { K::RawLoad }, loc, o1: 0, o2: 0, a: v, c: 0 }
}

/// Distinct (kind, ordering) choices up to identical instruction sequences, keeping the strongest promises of each.
fn classes(tr: &mut Tracer, t: &TypeInfo, mk: &dyn Fn((u8, u8)) -> LOp, k: K) -> Result<Vec<(u8, u8)>, Fault> {
    let dom = vec![INIT, 2, 3];
    let mut groups: Vec<(Rc<Vec<Tr>>, Vec<(u8, u8)>)> = vec![];
    for o in ords(k) {
        let op = tr.real(t, &mk(o), false);
        let x = tr.traces(&op, &dom, Lim { rmw_fail: 1, sc_fail: 1 })?;
        match groups.iter_mut().find(|g| g.0 == x) {
            Some(g) => g.1.push(o),
            None => groups.push((x, vec![o])),
        }
    }
    let mut v = vec![];
    for (_, g) in groups {
        for o in &g {
            if !g.iter().any(|p| p != o && leq(o.0, p.0) && leq(o.1, p.1)) {
                v.push(*o);
            }
        }
    }
    Ok(v)
}

pub fn check(cc: &Cc, r: &mut Report, types: &[TypeInfo], fam: Fam) {
    cc.cx.seed.set(3);
    for t in types {
        if !t.load || !t.store || t.size as u32 * 8 > 128 {
            continue;
        }
        let ks = kinds(t);
        if !cc.fresh_all(&format!("weak{}", fam as u8), &ks.iter().map(|k| Op::new(*k, t, 0).fname()).collect::<Vec<_>>()) {
            continue;
        }
        let mut tr = Tracer::new(cc);
        match signature(&mut tr, t, &ks) {
            Ok(h) => {
                static SEEN: OnceLock<Mutex<HashSet<(u8, u64)>>> = OnceLock::new();
                if !SEEN.get_or_init(Default::default).lock().unwrap().insert((fam as u8, h)) {
                    r.add("types_with_known_traces", 1);
                    continue;
                }
            }
            Err(f @ Fault::Engine(_)) => {
                r.fault(&cc.key(t.name), &f, String::new);
                continue;
            }
            Err(_) => continue, // reported by the sequential checks
        }
        r.nontrivial += 1;
        let mut s = Suite { tr, t, r, done: Default::default(), stop: false };
        if let Err(f) = suite(&mut s, &ks, fam, cc.thorough) {
            if matches!(f, Fault::Engine(_)) {
                s.r.fault(&cc.key(t.name), &f, String::new);
            }
        }
        s.r.add("instruction_traces", s.tr.memo.values().map(|x| x.as_ref().map_or(0, |x| x.len() as u64)).sum());
        if cc.late(r) {
            break;
        }
    }
    if fam != Fam::Coherence {
        mixed(cc, r, types, fam);
    }
}

/// Programs over objects of different widths: the implementations of two widths need not be the same, and have to
/// follow compatible conventions.
fn mixed(cc: &Cc, r: &mut Report, types: &[TypeInfo], fam: Fam) {
    let mut tr = Tracer::new(cc);
    let mut reps: Vec<(&TypeInfo, Vec<u64>, u64)> = vec![];
    for t in types {
        if !t.load || !t.store || t.size as u32 * 8 > 128 {
            continue;
        }
        let ks = kinds(t);
        let hs: Vec<u64> = ks.iter().filter_map(|k| cc.cx.func(&Op::new(*k, t, 0).fname())).map(|f| cc.hs.func(f)).collect();
        if reps.iter().any(|x| x.1 == hs) {
            continue;
        }
        if let Ok(h) = signature(&mut tr, t, &ks) {
            if !reps.iter().any(|x| x.2 == h) {
                reps.push((t, hs, h));
            }
        }
    }
    for a in &reps {
        for b in &reps {
            if a.2 == b.2 || cc.late(r) {
                continue;
            }
            static SEEN: OnceLock<Mutex<HashSet<(u8, u64, u64)>>> = OnceLock::new();
            if !SEEN.get_or_init(Default::default).lock().unwrap().insert((fam as u8, a.2, b.2)) {
                continue;
            }
            let tr = Tracer::new(cc);
            r.add("pairs_of_widths", 1);
            let mut s = Suite { tr, t: a.0, r, done: Default::default(), stop: false };
            if let Err(f) = pair(&mut s, a.0, b.0, fam, cc.thorough) {
                if matches!(f, Fault::Engine(_)) {
                    s.r.fault(&cc.key(a.0.name), &f, String::new);
                }
            }
        }
    }
}

/// Locations 0 and 2 hold type `a`, location 1 type `b`.
fn pair(s: &mut Suite, a: &TypeInfo, b: &TypeInfo, fam: Fam, thorough: bool) -> Result<(), Fault> {
    let mut writers = |t: &TypeInfo| -> Result<Vec<(K, (u8, u8))>, Fault> {
        let mut v = vec![];
        for k in kinds(t).into_iter().filter(|k| *k != K::Load) {
            for o in classes(&mut s.tr, t, &|o| wop(k, 1, o, INIT, 2), k)? {
                v.push((k, o));
            }
        }
        Ok(v)
    };
    let (wa, wb) = (writers(a)?, writers(b)?);
    let mut readers = |t: &TypeInfo| -> Result<Vec<(Rk2, (u8, u8))>, Fault> {
        let ks = kinds(t);
        let mut rk = vec![Rk2::Load];
        if ks.contains(&K::Swap) {
            rk.push(Rk2::Swap);
        }
        if ks.contains(&K::Cas) {
            rk.extend([Rk2::CasOk, Rk2::CasFail, Rk2::CaswOk, Rk2::CaswFail, Rk2::FusOk, Rk2::FusStop]);
        }
        let mut v = vec![];
        for k in rk {
            let op = rop(k, 1, (0, 0), 2, 3);
            for o in classes(&mut s.tr, t, &|o| rop(k, 1, o, 2, 3), op.k)? {
                v.push((k, o));
            }
        }
        Ok(v)
    };
    let (ra, rb) = (readers(a)?, readers(b)?);
    s.tr.over = vec![a.clone(), b.clone(), a.clone()];
    let w = |x: &(K, (u8, u8)), l: u8, v: u8| wop(x.0, l, x.1, INIT, v);
    let rv = |x: &(Rk2, (u8, u8)), l: u8, v: u8| rop(x.0, l, x.1, v, 3);
    match fam {
        Fam::SeqCst => {
            let scw = |v: &Vec<(K, (u8, u8))>| -> Vec<(K, (u8, u8))> { v.iter().copied().filter(|w| w.1 .0 == 4).collect() };
            let scr = |v: &Vec<(Rk2, (u8, u8))>| -> Vec<(Rk2, (u8, u8))> {
                v.iter()
                    .copied()
                    .filter(|x| match x.0 {
                        Rk2::CasFail | Rk2::CaswFail | Rk2::FusStop => x.1 .1 == 4,
                        Rk2::FusOk => x.1 .0 == 4 || x.1 .1 == 4,
                        _ => x.1 .0 == 4,
                    })
                    .collect()
            };
            let (wa, wb, ra, rb) = (scw(&wa), scw(&wb), scr(&ra), scr(&rb));
            let st = |v: &Vec<(K, (u8, u8))>| *v.iter().find(|x| x.0 == K::Store).unwrap_or(&v[0]);
            let ld = |v: &Vec<(Rk2, (u8, u8))>| *v.iter().find(|x| x.0 == Rk2::Load).unwrap_or(&v[0]);
            let (wa0, wb0, ra0, rb0) = (st(&wa), st(&wb), ld(&ra), ld(&rb));
            for x in &wa {
                for y in &rb {
                    if !thorough && *x != wa0 && *y != rb0 && !matches!((x.0, y.0), (K::Swap | K::Cas, Rk2::CasFail | Rk2::Swap)) {
                        continue;
                    }
                    for f in [Some(0), Some(1)] {
                        s.go("store buffering", vec![vec![w(x, 0, 2), rv(y, 1, INIT)], vec![w(&wb0, 1, 2), rv(&ra0, 0, INIT)]], f);
                    }
                    // the two sides follow the conventions of one width each
                    s.go("store buffering", vec![vec![w(x, 0, 2), rv(y, 1, INIT)], vec![w(&wb0, 1, 2), rv(&rb0, 1, 2), rv(&ra0, 0, INIT)]], None);
                    s.go("Z6", vec![vec![w(&wb0, 1, 3), wop(K::Store, 2, (2, 0), INIT, 2)], vec![wop(K::Store, 2, (4, 0), INIT, 3), rv(y, 1, INIT)], vec![w(x, 0, 2), rv(&rb0, 1, INIT)]], None);
                }
                s.go("R", vec![vec![w(x, 0, 2), w(&wb0, 1, 2)], vec![w(&wb0, 1, 3), rv(&ra0, 0, INIT)]], None);
                s.go("RWC", vec![vec![w(&wb0, 1, 2)], vec![rv(&rb0, 1, 2), rv(&ra0, 0, INIT)], vec![w(x, 0, 2), rv(&rb0, 1, INIT)]], None);
                s.go("IRIW", vec![vec![w(x, 0, 2)], vec![w(&wb0, 1, 2)], vec![rv(&ra0, 0, INIT), rv(&rb0, 1, INIT)], vec![rv(&rb0, 1, INIT), rv(&ra0, 0, INIT)]], None);
                for y in &wb {
                    if thorough || *x == wa0 || *y == wb0 {
                        s.go("2+2W", vec![vec![w(x, 0, 2), w(y, 1, 3)], vec![w(&wb0, 1, 2), w(&wa0, 0, 3)]], None);
                        s.go("MP sc", vec![vec![w(x, 0, 2), w(y, 1, 2)], vec![rv(&rb0, 1, 2), rv(&ra0, 0, INIT)]], None);
                    }
                }
            }
            for y in &ra {
                s.go("RWC", vec![vec![w(&wb0, 1, 2)], vec![rv(&rb0, 1, 2), rv(y, 0, INIT)], vec![w(&wa0, 0, 2), rv(&rb0, 1, INIT)]], None);
                s.go("IRIW", vec![vec![w(&wa0, 0, 2)], vec![w(&wb0, 1, 2)], vec![rv(y, 0, 2), rv(&rb0, 1, INIT)], vec![rv(&rb0, 1, INIT), rv(&ra0, 0, INIT)]], None);
                s.go("MP sc", vec![vec![w(&wa0, 0, 2), w(&wb0, 1, 2)], vec![rv(&rb0, 1, 2), rv(y, 0, INIT)]], None);
            }
        }
        Fam::AcqRel => {
            let rel = |o: (u8, u8)| matches!(o.0, 2..=4);
            let acq = |r: Rk2, o: (u8, u8)| match r {
                Rk2::CasFail | Rk2::CaswFail | Rk2::FusStop => matches!(o.1, 1 | 4),
                Rk2::FusOk => matches!(o.0, 1 | 3 | 4) || matches!(o.1, 1 | 4),
                _ => matches!(o.0, 1 | 3 | 4),
            };
            // the flag is of type `b`, the data accesses (relaxed) of type `a`
            let wsr: Vec<_> = wb.iter().copied().filter(|w| rel(w.1)).collect();
            let rsa: Vec<_> = rb.iter().copied().filter(|x| acq(x.0, x.1)).collect();
            let cw = wsr[0];
            let cr = rsa[0];
            let dr: Vec<_> = ra.iter().copied().filter(|x| matches!(x.0, Rk2::Load | Rk2::Swap | Rk2::CasFail) && x.1 .0 == 0).collect();
            let dw: Vec<_> = wa.iter().copied().filter(|x| x.1 .0 == 0).collect();
            for wx in &wsr {
                for rx in &rsa {
                    if !thorough && *wx != cw && *rx != cr {
                        continue;
                    }
                    let all = *wx == cw && *rx == cr;
                    for (i, d) in dr.iter().enumerate() {
                        for (j, e) in dw.iter().enumerate() {
                            if i + j > 0 && !all {
                                continue;
                            }
                            s.go("message passing (atomic data)", vec![vec![w(e, 0, 2), w(wx, 1, 2)], vec![rv(rx, 1, 2), rv(d, 0, INIT)]], None);
                            s.go("load buffering (atomic data)", vec![vec![rv(d, 0, INIT), w(wx, 1, 2)], vec![rv(rx, 1, 2), w(e, 0, 2)]], None);
                            s.go("S (atomic data)", vec![vec![w(e, 0, 2), w(wx, 1, 2)], vec![rv(rx, 1, 2), w(e, 0, 3)]], None);
                        }
                    }
                }
            }
            let wra: Vec<_> = wa.iter().copied().filter(|w| rel(w.1)).collect();
            let raa: Vec<_> = ra.iter().copied().filter(|x| acq(x.0, x.1)).collect();
            for rx in &rsa {
                for w2 in &wra {
                    if thorough || *rx == cr || *w2 == wra[0] {
                        s.go("ISA2", vec![vec![wop(K::Store, 0, (0, 0), INIT, 2), w(&cw, 1, 2)], vec![rv(rx, 1, 2), w(w2, 2, 2)], vec![rv(&raa[0], 2, 2), rop(Rk2::Load, 0, (0, 0), INIT, 0)]], None);
                        s.go("WRC", vec![vec![wop(K::Store, 1, (0, 0), INIT, 2)], vec![rv(rx, 1, 2), w(w2, 2, 2)], vec![rv(&raa[0], 2, 2), rop(Rk2::Load, 1, (0, 0), INIT, 0)]], None);
                    }
                }
            }
        }
        Fam::Coherence => {}
    }
    Ok(())
}

/// Hash of the behaviours of all operations and orderings of a type: equal ones need to be checked once.
fn signature(tr: &mut Tracer, t: &TypeInfo, ks: &[K]) -> Result<u64, Fault> {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    tr.cc.cx.isa.mm().hash(&mut h);
    let dom = vec![INIT, 2, 3];
    for &k in ks {
        for o in ords(k) {
            for (c, a) in [(INIT, 2), (2, 3), (NOSTOP, 3)] {
                let l = LOp { k, loc: 1, o1: o.0, o2: o.1, a: if k == K::Fus { 1 } else { a }, c };
                let op = tr.real(t, &l, false);
                (k, o, c).hash(&mut h);
                tr.traces(&op, &dom, Lim { rmw_fail: 1, sc_fail: 1 })?.hash(&mut h);
                if !matches!(k, K::Cas | K::Casw | K::Fus) {
                    break;
                }
            }
        }
    }
    Ok(h.finish())
}

/// Programs mixing SeqCst operations of the crate with SeqCst accesses of core::sync::atomic to other objects, as the
/// compiler translates them: one order covers both, so the crate has to follow the platform's convention.
fn std_mix(s: &mut Suite, wsc: &[(K, (u8, u8))], rsc: &[(Rk2, (u8, u8))]) {
    if s.tr.std_map(true).is_none() {
        return;
    }
    let before = s.r.evals;
    let st = |l: u8, v: u8| LOp { k: K::StdStore, loc: l, o1: 4, o2: 0, a: v, c: 0 };
    let ld = |l: u8| LOp { k: K::StdLoad, loc: l, o1: 4, o2: 0, a: 0, c: 0 };
    let w = |x: (K, (u8, u8)), l: u8, v: u8| wop(x.0, l, x.1, INIT, v);
    let rv = |x: (Rk2, (u8, u8)), l: u8, v: u8| rop(x.0, l, x.1, v, 3);
    let rd = |x: (Rk2, (u8, u8)), l: u8| rop(x.0, l, x.1, INIT, 3);
    for &a in wsc {
        for f in [Some(0), Some(1)] {
            s.go("store buffering with core loads", vec![vec![w(a, 0, 2), ld(1)], vec![w(wsc[0], 1, 2), ld(0)]], f);
            s.go("store buffering with a core thread", vec![vec![w(a, 0, 2), ld(1)], vec![st(1, 2), ld(0)]], f);
            for &b in rsc {
                s.go("store buffering with a core thread", vec![vec![w(a, 0, 2), rd(b, 1)], vec![st(1, 2), ld(0)]], f);
                if a == wsc[0] {
                    s.go("store buffering with core stores", vec![vec![st(0, 2), rd(b, 1)], vec![st(1, 2), rd(rsc[0], 0)]], f);
                    s.go("store buffering with a core thread", vec![vec![st(0, 2), rd(b, 1)], vec![st(1, 2), ld(0)]], f);
                }
            }
        }
        s.go("R with core", vec![vec![st(0, 2), w(a, 1, 2)], vec![st(1, 3), ld(0)]], None);
        s.go("R with core", vec![vec![w(a, 0, 2), st(1, 2)], vec![wop(K::Store, 1, (4, 0), INIT, 3), ld(0)]], None);
        s.go("2+2W with core", vec![vec![w(a, 0, 2), st(1, 3)], vec![st(1, 2), wop(K::Store, 0, (4, 0), INIT, 3)]], None);
        s.go("IRIW with core", vec![vec![w(a, 0, 2)], vec![st(1, 2)], vec![ld(0), rd(rsc[0], 1)], vec![rd(rsc[0], 1), ld(0)]], None);
        s.go("RWC with core", vec![vec![st(0, 2)], vec![rd(rsc[0], 0), ld(1)], vec![w(a, 1, 2), ld(0)]], None);
    }
    for &b in rsc {
        s.go("IRIW with core", vec![vec![st(0, 2)], vec![st(1, 2)], vec![rv(b, 0, 2), ld(1)], vec![ld(1), rd(rsc[0], 0)]], None);
        s.go("IRIW with core", vec![vec![st(0, 2)], vec![st(1, 2)], vec![ld(0), rd(b, 1)], vec![ld(1), rd(b, 0)]], None);
        s.go("RWC with core", vec![vec![st(0, 2)], vec![rv(b, 0, 2), ld(1)], vec![st(1, 2), rd(rsc[0], 0)]], None);
        s.go("RWC with core", vec![vec![w(wsc[0], 0, 2)], vec![ld(0), rd(b, 1)], vec![st(1, 2), ld(0)]], None);
    }
    let n = s.r.evals - before;
    s.r.add("programs_with_core_atomics", n);
}

/// Programs in which fences of core::sync::atomic order the crate's relaxed operations.
fn std_fences(s: &mut Suite, ws: &[(K, (u8, u8))], rs: &[(Rk2, (u8, u8))], sc: bool) {
    if s.tr.std_map(true).is_none() {
        return;
    }
    let before = s.r.evals;
    let fence = |o: u8| LOp { k: K::StdFence, loc: 0, o1: o, o2: 0, a: 0, c: 0 };
    let rlx = |l: u8| LOp { k: K::Load, loc: l, o1: 0, o2: 0, a: 0, c: 0 };
    let wr = |l: u8, v: u8| LOp { k: K::Store, loc: l, o1: 0, o2: 0, a: v, c: 0 };
    let w = |x: (K, (u8, u8)), l: u8, v: u8| wop(x.0, l, x.1, INIT, v);
    let rv = |x: (Rk2, (u8, u8)), l: u8, v: u8| rop(x.0, l, x.1, v, 3);
    // every implementation of a writer, and every implementation of a reader; orderings only add to the fences
    for &a in ws {
        if sc {
            for f in [Some(0), Some(2)] {
                s.go("store buffering with fences", vec![vec![w(a, 0, 2), fence(4), rlx(1)], vec![wr(1, 2), fence(4), rlx(0)]], f);
            }
            s.go("R with fences", vec![vec![wr(0, 2), fence(4), w(a, 1, 2)], vec![wr(1, 3), fence(4), rlx(0)]], None);
            s.go("R with fences", vec![vec![wr(0, 2), fence(4), wr(1, 2)], vec![w(a, 1, 3), fence(4), rlx(0)]], None);
            s.go("2+2W with fences", vec![vec![w(a, 0, 2), fence(4), wr(1, 3)], vec![wr(1, 2), fence(4), wr(0, 3)]], None);
            if a.1 .0 == 4 {
                s.go("store buffering with one fence", vec![vec![w(a, 0, 2), LOp { o1: 4, ..rlx(1) }], vec![wr(1, 2), fence(4), rlx(0)]], Some(0));
            }
        } else {
            s.go("MP with fences", vec![vec![raw(true, 0, 2), fence(2), w(a, 1, 2)], vec![rlx(1), fence(1), raw(false, 0, 0)]], Some(2));
            s.go("MP with fences", vec![vec![w(a, 0, 2), fence(2), wr(1, 2)], vec![rlx(1), fence(1), rlx(0)]], Some(0));
            s.go("S with fences", vec![vec![raw(true, 0, 2), fence(2), w(a, 1, 2)], vec![rlx(1), fence(1), raw(true, 0, 3)]], Some(2));
            s.go("MP with a release fence", vec![vec![raw(true, 0, 2), fence(2), w(a, 1, 2)], vec![LOp { o1: 1, ..rlx(1) }, raw(false, 0, 0)]], Some(2));
            s.go("ISA2 with fences", vec![vec![wr(0, 2), fence(2), wr(1, 2)], vec![rlx(1), fence(2), w(a, 2, 2)], vec![rlx(2), fence(1), rlx(0)]], None);
            s.go("LB with fences", vec![vec![rlx(1), fence(2), w(a, 0, 2)], vec![rlx(0), fence(1), wr(1, 2)]], None);
        }
    }
    for &b in rs {
        let (b0, b1) = (rv(b, 0, INIT), rv(b, 1, 2));
        if sc {
            for f in [Some(2), Some(5)] {
                s.go("store buffering with fences", vec![vec![wr(0, 2), fence(4), rv(b, 1, INIT)], vec![wr(1, 2), fence(4), rlx(0)]], f);
            }
            s.go("R with fences", vec![vec![wr(0, 2), fence(4), wr(1, 2)], vec![wr(1, 3), fence(4), b0]], None);
            s.go("IRIW with fences", vec![vec![wr(0, 2)], vec![wr(1, 2)], vec![rlx(0), fence(4), rv(b, 1, INIT)], vec![rlx(1), fence(4), rlx(0)]], None);
            s.go("IRIW with fences", vec![vec![wr(0, 2)], vec![wr(1, 2)], vec![rv(b, 0, 2), fence(4), rlx(1)], vec![rlx(1), fence(4), rlx(0)]], None);
        } else {
            s.go("MP with fences", vec![vec![raw(true, 0, 2), fence(2), wr(1, 2)], vec![b1, fence(1), raw(false, 0, 0)]], Some(3));
            s.go("MP with fences", vec![vec![wr(0, 2), fence(2), wr(1, 2)], vec![rlx(1), fence(1), b0]], None);
            s.go("MP with an acquire fence", vec![vec![raw(true, 0, 2), LOp { o1: 2, ..wr(1, 2) }], vec![b1, fence(1), raw(false, 0, 0)]], Some(2));
            s.go("S with fences", vec![vec![raw(true, 0, 2), fence(2), wr(1, 2)], vec![b1, fence(1), raw(true, 0, 3)]], Some(3));
            s.go("WRC with fences", vec![vec![wr(0, 2)], vec![rv(b, 0, 2), fence(2), wr(1, 2)], vec![rlx(1), fence(1), rlx(0)]], None);
        }
    }
    let n = s.r.evals - before;
    s.r.add("programs_with_core_fences", n);
}

/// Programs in which Release stores and Acquire loads of core::sync::atomic order the crate's operations, and in which
/// the two sides of a synchronization are the crate's and core's.
#[allow(clippy::type_complexity)]
fn std_acqrel(s: &mut Suite, ws: &[(K, (u8, u8))], rs: &[(Rk2, (u8, u8))], wsr: &[(K, (u8, u8))], rsa: &[(Rk2, (u8, u8))]) {
    if s.tr.std_map(false).is_none() {
        return;
    }
    let before = s.r.evals;
    let st = |l: u8, v: u8| LOp { k: K::StdStore, loc: l, o1: 2, o2: 0, a: v, c: 0 };
    let ld = |l: u8| LOp { k: K::StdLoad, loc: l, o1: 1, o2: 0, a: 0, c: 0 };
    let rlx = |l: u8| LOp { k: K::Load, loc: l, o1: 0, o2: 0, a: 0, c: 0 };
    let wr = |l: u8, v: u8| LOp { k: K::Store, loc: l, o1: 0, o2: 0, a: v, c: 0 };
    let w = |x: (K, (u8, u8)), l: u8, v: u8| wop(x.0, l, x.1, INIT, v);
    let rv = |x: (Rk2, (u8, u8)), l: u8, v: u8| rop(x.0, l, x.1, v, 3);
    for &a in ws {
        for f in [Some(0), None] {
            s.go("MP with a core flag", vec![vec![w(a, 0, 2), st(1, 2)], vec![ld(1), rlx(0)]], f);
        }
        s.go("LB with a core flag", vec![vec![rlx(0), st(1, 2)], vec![ld(1), w(a, 0, 2)]], None);
        s.go("S with a core flag", vec![vec![wr(0, 2), st(1, 2)], vec![ld(1), wop(a.0, 0, a.1, 2, 3)]], None);
        s.go("S with a core flag", vec![vec![w(a, 0, 2), st(1, 2)], vec![ld(1), wr(0, 3)]], None);
    }
    for &b in rs {
        s.go("MP with a core flag", vec![vec![wr(0, 2), st(1, 2)], vec![ld(1), rv(b, 0, INIT)]], None);
        s.go("LB with a core flag", vec![vec![rv(b, 0, 2), st(1, 2)], vec![ld(1), wr(0, 2)]], None);
        s.go("WRC with a core flag", vec![vec![wr(0, 2)], vec![rv(b, 0, 2), st(1, 2)], vec![ld(1), rlx(0)]], None);
    }
    if s.t.size <= 4 {
        // the same object accessed through both
        for &a in wsr {
            s.go("MP read by core", vec![vec![raw(true, 0, 2), w(a, 1, 2)], vec![ld(1), raw(false, 0, 0)]], Some(1));
        }
        for &b in rsa {
            s.go("MP written by core", vec![vec![raw(true, 0, 2), st(1, 2)], vec![rv(b, 1, 2), raw(false, 0, 0)]], Some(2));
        }
    }
    let n = s.r.evals - before;
    s.r.add("programs_with_core_atomics", n);
}

fn suite(s: &mut Suite, ks: &[K], fam: Fam, thorough: bool) -> Result<(), Fault> {
    let t = s.t;
    let wk: Vec<K> = ks.iter().copied().filter(|k| *k != K::Load).collect();
    let mut rk = vec![Rk2::Load];
    if ks.contains(&K::Swap) {
        rk.push(Rk2::Swap);
    }
    if ks.contains(&K::Cas) {
        rk.extend([Rk2::CasOk, Rk2::CasFail, Rk2::CaswOk, Rk2::CaswFail, Rk2::FusOk, Rk2::FusStop]);
    }
    let mut ws: Vec<(K, (u8, u8))> = vec![];
    for &k in &wk {
        for o in classes(&mut s.tr, t, &|o| wop(k, 1, o, INIT, 2), k)? {
            ws.push((k, o));
        }
    }
    let mut rs: Vec<(Rk2, (u8, u8))> = vec![];
    for &k in &rk {
        let op = rop(k, 1, (0, 0), 2, 3);
        for o in classes(&mut s.tr, t, &|o| rop(k, 1, o, 2, 3), op.k)? {
            rs.push((k, o));
        }
    }
    let has_rmw = ks.contains(&K::Cas);
    match fam {
        Fam::AcqRel => {
            let rel = |o: (u8, u8)| matches!(o.0, 2..=4);
            let acq = |r: Rk2, o: (u8, u8)| match r {
                Rk2::CasFail | Rk2::CaswFail | Rk2::FusStop => matches!(o.1, 1 | 4),
                Rk2::FusOk => matches!(o.0, 1 | 3 | 4) || matches!(o.1, 1 | 4),
                _ => matches!(o.0, 1 | 3 | 4),
            };
            let wsr: Vec<_> = ws.iter().copied().filter(|w| rel(w.1)).collect();
            let rsa: Vec<_> = rs.iter().copied().filter(|x| acq(x.0, x.1)).collect();
            let mut pairs: Vec<((K, (u8, u8)), (Rk2, (u8, u8)))> = vec![];
            let canon_r: Vec<_> = rsa.iter().copied().filter(|x| x.0 == Rk2::Load).collect();
            let canon_w: Vec<_> = wsr.iter().copied().filter(|x| x.0 == K::Store).collect();
            for &w in &wsr {
                for &x in &rsa {
                    if thorough || canon_r.contains(&x) || canon_w.contains(&w) {
                        pairs.push((w, x));
                    }
                }
            }
            for &(w, x) in &pairs {
                let wx = wop(w.0, 1, w.1, INIT, 2);
                let rx = rop(x.0, 1, x.1, 2, 3);
                let lo = |l: u8| LOp { k: K::Load, loc: l, o1: 0, o2: 0, a: 0, c: 0 };
                let st = |l: u8, v: u8| LOp { k: K::Store, loc: l, o1: 0, o2: 0, a: v, c: 0 };
                for f in [Some(1), Some(2)] {
                    s.go("message passing", vec![vec![raw(true, 0, 2), wx], vec![rx, raw(false, 0, 0)]], f);
                    s.go("message passing (atomic data)", vec![vec![st(0, 2), wx], vec![rx, lo(0)]], f);
                    s.go("load buffering", vec![vec![raw(false, 0, 0), wx], vec![rx, raw(true, 0, 2)]], f);
                    s.go("load buffering (atomic data)", vec![vec![lo(0), wx], vec![rx, st(0, 2)]], f);
                    s.go("S", vec![vec![raw(true, 0, 2), wx], vec![rx, raw(true, 0, 3)]], f);
                    s.go("S (atomic data)", vec![vec![st(0, 2), wx], vec![rx, st(0, 3)]], f);
                }
                if has_rmw {
                    // through a release sequence continued by a relaxed read-modify-write of another thread
                    let mids: Vec<LOp> = if canon_w.contains(&w) && canon_r.contains(&x) {
                        ws.iter().filter(|m| m.0 != K::Store).map(|m| wop(m.0, 1, m.1, 2, 3)).collect()
                    } else {
                        vec![wop(K::Swap, 1, (0, 0), 2, 3), wop(K::Cas, 1, (0, 0), 2, 3)]
                    };
                    for m in mids {
                        if !ks.contains(&m.k) {
                            continue;
                        }
                        let rx = rop(x.0, 1, x.1, 3, 4);
                        s.go("release sequence", vec![vec![raw(true, 0, 2), wx], vec![m], vec![rx, raw(false, 0, 0)]], None);
                    }
                }
            }
            // transitivity: the middle thread synchronizes with both
            let cw = *canon_w.first().unwrap_or(&wsr[0]);
            let cr = *canon_r.first().unwrap_or(&rsa[0]);
            for &(w, x) in &pairs {
                let (wy, rx) = (wop(w.0, 2, w.1, INIT, 2), rop(x.0, 1, x.1, 2, 3));
                let (wx0, ry0) = (wop(cw.0, 1, cw.1, INIT, 2), rop(cr.0, 2, cr.1, 2, 3));
                // message passing over two flags
                s.go("ISA2", vec![vec![raw(true, 0, 2), wx0], vec![rx, wy], vec![ry0, raw(false, 0, 0)]], None);
                // write-to-read causality: relaxed write seen by the middle thread
                let rlx = wop(K::Store, 1, (0, 0), INIT, 2);
                let rl = LOp { k: K::Load, loc: 1, o1: 0, o2: 0, a: 0, c: 0 };
                s.go("WRC", vec![vec![rlx], vec![rx, wy], vec![ry0, rl]], None);
                s.go("WRC", vec![vec![rlx], vec![rop(cr.0, 1, cr.1, 2, 3), wy], vec![rop(x.0, 2, x.1, 2, 3), rl]], None);
            }
            std_fences(s, &ws, &rs, false);
            std_acqrel(s, &ws, &rs, &wsr, &rsa);
        }
        Fam::SeqCst => {
            let wsc: Vec<_> = ws.iter().copied().filter(|w| w.1 .0 == 4).collect();
            let rsc: Vec<_> = rs
                .iter()
                .copied()
                .filter(|x| match x.0 {
                    Rk2::CasFail | Rk2::CaswFail | Rk2::FusStop => x.1 .1 == 4,
                    Rk2::FusOk => x.1 .0 == 4 || x.1 .1 == 4,
                    _ => x.1 .0 == 4,
                })
                .collect();
            let cw: Vec<_> = wsc.iter().copied().filter(|w| matches!(w.0, K::Store | K::Swap) || thorough).collect();
            let cr: Vec<_> = rsc.iter().copied().filter(|x| matches!(x.0, Rk2::Load | Rk2::CasFail) || thorough).collect();
            let (w0, r0) = (wsc[0], rsc[0]);
            let w = |x: (K, (u8, u8)), l: u8, v: u8| wop(x.0, l, x.1, INIT, v);
            let rd = |x: (Rk2, (u8, u8)), l: u8| rop(x.0, l, x.1, INIT, 3);
            // store buffering: every writer and reader kind against the canonical ones
            for &a in &wsc {
                for &b in &rsc {
                    for &c in &cw {
                        for &d in &cr {
                            if !thorough && c != cw[0] && d != cr[0] {
                                continue;
                            }
                            for f in [Some(0), Some(1)] {
                                s.go("store buffering", vec![vec![w(a, 0, 2), rd(b, 1)], vec![w(c, 1, 2), rd(d, 0)]], f);
                            }
                        }
                    }
                    // same thing with writes on both sides
                    s.go("R", vec![vec![w(w0, 0, 2), w(a, 1, 2)], vec![wop(K::Store, 1, (4, 0), INIT, 3), rd(b, 0)]], None);
                }
            }
            for &a in &wsc {
                for &b in &wsc {
                    let w2 = |x: (K, (u8, u8)), l: u8, v: u8| wop(x.0, l, x.1, INIT, v);
                    let w3 = |l: u8, v: u8| wop(K::Store, l, (4, 0), INIT, v);
                    s.go("2+2W", vec![vec![w2(a, 0, 2), w2(b, 1, 3)], vec![w3(1, 2), w3(0, 3)]], None);
                    s.go("R", vec![vec![w2(a, 0, 2), w2(b, 1, 2)], vec![w3(1, 3), rd(r0, 0)]], None);
                }
            }
            // independent reads of independent writes
            for &a in &rsc {
                for &b in &cr {
                    let rv = |x: (Rk2, (u8, u8)), l: u8, v: u8| rop(x.0, l, x.1, v, 3);
                    for (p, q) in [(a, b), (b, a)] {
                        s.go("IRIW", vec![vec![w(w0, 0, 2)], vec![w(w0, 1, 2)], vec![rv(p, 0, 2), rv(q, 1, INIT)], vec![rv(r0, 1, 2), rv(r0, 0, INIT)]], None);
                    }
                }
            }
            for &a in &wsc {
                s.go("IRIW", vec![vec![w(a, 0, 2)], vec![w(w0, 1, 2)], vec![rd(r0, 0), rd(r0, 1)], vec![rd(r0, 1), rd(r0, 0)]], None);
                for &b in &rsc {
                    // read-to-write causality
                    let rv = |x: (Rk2, (u8, u8)), l: u8, v: u8| rop(x.0, l, x.1, v, 3);
                    s.go("RWC", vec![vec![w(w0, 0, 2)], vec![rv(b, 0, 2), rd(r0, 1)], vec![w(a, 1, 2), rd(r0, 0)]], None);
                    s.go("RWC", vec![vec![w(w0, 0, 2)], vec![rv(r0, 0, 2), rd(b, 1)], vec![w(a, 1, 2), rd(r0, 0)]], None);
                }
            }
            // sequentially consistent accesses mixed with acquire/release communication
            for &a in &wsc {
                for &b in &rsc {
                    let rel = wop(K::Store, 1, (2, 0), INIT, 2);
                    let acq = |l: u8| LOp { k: K::Load, loc: l, o1: 1, o2: 0, a: 0, c: 0 };
                    s.go("Z6", vec![vec![w(w0, 0, 2), rel], vec![wop(K::Store, 1, (4, 0), INIT, 3), rd(b, 2)], vec![w(a, 2, 2), rd(r0, 0)]], None);
                    s.go("W+RWC", vec![vec![w(w0, 0, 2), rel], vec![acq(1), rd(b, 2)], vec![w(a, 2, 2), rd(r0, 0)]], None);
                    s.go("MP sc", vec![vec![w(w0, 0, 2), w(a, 1, 2)], vec![rop(b.0, 1, b.1, 2, 3), rd(r0, 0)]], None);
                }
            }
            std_mix(s, &wsc, &rsc);
            std_fences(s, &ws, &rs, true);
        }
        Fam::Coherence => {
            let rlx = |v: &Vec<(K, (u8, u8))>| -> Vec<(K, (u8, u8))> {
                // weakest class of each kind
                let mut seen: HashMap<K, (u8, u8)> = HashMap::new();
                for (k, o) in v {
                    seen.entry(*k).or_insert(*o);
                }
                wk.iter().filter_map(|k| seen.get(k).map(|o| (*k, *o))).collect()
            };
            let wr = if thorough { ws.clone() } else { rlx(&ws) };
            let mut rr: Vec<(Rk2, (u8, u8))> = vec![];
            for x in &rs {
                if thorough || !rr.iter().any(|y| y.0 == x.0) {
                    rr.push(*x);
                }
            }
            let w = |x: (K, (u8, u8)), cur: u8, v: u8| wop(x.0, 0, x.1, cur, v);
            let rd = |x: (Rk2, (u8, u8)), v: u8, wv: u8| rop(x.0, 0, x.1, v, wv);
            for &a in &wr {
                for &b in &wr {
                    // a thread's own writes keep their order
                    s.go("CoWW", vec![vec![w(a, INIT, 2), w(b, 2, 3)]], Some(1));
                    s.go("CoWW+R", vec![vec![w(a, INIT, 2), w(b, 2, 3)], vec![rop(Rk2::Load, 0, (0, 0), 0, 0), rop(Rk2::Load, 0, (0, 0), 0, 0)]], None);
                    // two writers: all final values are explained by one order
                    s.go("2W+RR", vec![vec![w(a, INIT, 2)], vec![w(b, INIT, 3)], vec![rop(Rk2::Load, 0, (0, 0), 0, 0), rop(Rk2::Load, 0, (0, 0), 0, 0)]], None);
                    s.go("RMW pair", vec![vec![w(a, INIT, 2)], vec![w(b, INIT, 3)]], Some(0));
                    s.go("RMW pair", vec![vec![w(a, INIT, 2)], vec![w(b, 2, 3)]], Some(1));
                }
                for &b in &rr {
                    for &c in &rr {
                        s.go("CoRR", vec![vec![w(a, INIT, 2)], vec![rd(b, 2, 3), rd(c, 2, 4)]], Some(2));
                        s.go("CoRR", vec![vec![w(a, INIT, 2)], vec![rd(b, 2, 3), rd(c, INIT, 4)]], Some(1));
                    }
                    // own write then read, with another writer
                    s.go("CoWR", vec![vec![w(a, INIT, 2), rd(b, 2, 4)], vec![wop(K::Store, 0, (0, 0), INIT, 3)]], Some(1));
                    // read then own write
                    s.go("CoRW1", vec![vec![rd(b, INIT, 4), w(a, INIT, 2)]], Some(0));
                    s.go("CoRW2", vec![vec![rd(b, 3, 4), w(a, 3, 5)], vec![wop(K::Store, 0, (0, 0), INIT, 3)]], Some(1));
                }
            }
            // two observers agree on the order of two writes
            let l = rop(Rk2::Load, 0, (0, 0), 0, 0);
            for &b in &rr {
                let st = |v: u8| wop(K::Store, 0, (0, 0), INIT, v);
                s.go("CoRR2", vec![vec![st(2)], vec![st(3)], vec![rd(b, 2, 4), l], vec![l, l]], None);
                s.go("CoRR2", vec![vec![st(2)], vec![st(3)], vec![l, rd(b, 2, 4)], vec![l, l]], None);
            }
            if has_rmw {
                for &a in &wr {
                    for &b in &wr {
                        if a.0 == K::Store || b.0 == K::Store {
                            continue;
                        }
                        s.go("RMW chain", vec![vec![w(a, INIT, 2)], vec![w(b, 2, 3)], vec![w(a, 3, 4)]], None);
                    }
                }
            }
        }
    }
    Ok(())
}

/// The C++20 model's verdicts on well-known programs.
pub fn selftest() -> Result<u64, String> {
    let (rlx, acq, rel, sc) = (0u8, 1u8, 2u8, 4u8);
    let st = |l: u8, v: u8, o: u8| LOp { k: K::Store, loc: l, o1: o, o2: 0, a: v, c: 0 };
    let ld = |l: u8, o: u8| LOp { k: K::Load, loc: l, o1: o, o2: 0, a: 0, c: 0 };
    let sw = |l: u8, v: u8, o: u8| LOp { k: K::Swap, loc: l, o1: o, o2: 0, a: v, c: 0 };
    let fe = |o: u8| LOp { k: K::StdFence, loc: 0, o1: o, o2: 0, a: 0, c: 0 };
    let ok = |v: u8| res(true, v);
    let i = INIT;
    // name, program, results (stores: 0), final values (None: any), allowed
    let cases: Vec<(&str, Prog, Vec<u16>, Option<Vec<u16>>, bool)> = vec![
        ("SB sc", vec![vec![st(0, 2, sc), ld(1, sc)], vec![st(1, 2, sc), ld(0, sc)]], vec![0, ok(i), 0, ok(i)], None, false),
        ("SB acq rel", vec![vec![st(0, 2, rel), ld(1, acq)], vec![st(1, 2, rel), ld(0, acq)]], vec![0, ok(i), 0, ok(i)], None, true),
        ("MP rel acq", vec![vec![st(0, 2, rlx), st(1, 2, rel)], vec![ld(1, acq), ld(0, rlx)]], vec![0, 0, ok(2), ok(i)], None, false),
        ("MP rlx acq", vec![vec![st(0, 2, rlx), st(1, 2, rlx)], vec![ld(1, acq), ld(0, rlx)]], vec![0, 0, ok(2), ok(i)], None, true),
        ("MP rel rlx", vec![vec![st(0, 2, rlx), st(1, 2, rel)], vec![ld(1, rlx), ld(0, rlx)]], vec![0, 0, ok(2), ok(i)], None, true),
        ("MP release sequence", vec![vec![st(0, 2, rlx), st(1, 2, rel)], vec![sw(1, 3, rlx)], vec![ld(1, acq), ld(0, rlx)]], vec![0, 0, ok(2), ok(3), ok(i)], None, false),
        ("MP overwritten", vec![vec![st(0, 2, rlx), st(1, 2, rel)], vec![st(1, 3, rlx)], vec![ld(1, acq), ld(0, rlx)]], vec![0, 0, 0, ok(3), ok(i)], None, true),
        ("LB", vec![vec![ld(0, rlx), st(1, 2, rlx)], vec![ld(1, rlx), st(0, 2, rlx)]], vec![ok(2), 0, ok(2), 0], None, true),
        ("LB acq rel", vec![vec![ld(0, acq), st(1, 2, rel)], vec![ld(1, acq), st(0, 2, rel)]], vec![ok(2), 0, ok(2), 0], None, false),
        ("IRIW acq", vec![vec![st(0, 2, rel)], vec![st(1, 2, rel)], vec![ld(0, acq), ld(1, acq)], vec![ld(1, acq), ld(0, acq)]], vec![0, 0, ok(2), ok(i), ok(2), ok(i)], None, true),
        ("IRIW sc", vec![vec![st(0, 2, sc)], vec![st(1, 2, sc)], vec![ld(0, sc), ld(1, sc)], vec![ld(1, sc), ld(0, sc)]], vec![0, 0, ok(2), ok(i), ok(2), ok(i)], None, false),
        ("WRC", vec![vec![st(0, 2, rlx)], vec![ld(0, acq), st(1, 2, rel)], vec![ld(1, acq), ld(0, rlx)]], vec![0, ok(2), 0, ok(2), ok(i)], None, false),
        ("2+2W sc", vec![vec![st(0, 2, sc), st(1, 3, sc)], vec![st(1, 2, sc), st(0, 3, sc)]], vec![0; 4], Some(vec![2, 2]), false),
        ("2+2W rel", vec![vec![st(0, 2, rel), st(1, 3, rel)], vec![st(1, 2, rel), st(0, 3, rel)]], vec![0; 4], Some(vec![2, 2]), true),
        ("CoRR", vec![vec![st(0, 2, rlx)], vec![ld(0, rlx), ld(0, rlx)]], vec![0, ok(2), ok(i)], None, false),
        ("swap atomicity", vec![vec![sw(0, 2, rlx)], vec![sw(0, 3, rlx)]], vec![ok(i), ok(i)], None, false),
        // sequentially consistent accesses chained through release/acquire only (allowed since P0668)
        ("Z6.U", vec![vec![st(0, 2, sc), st(1, 2, rel)], vec![sw(1, 3, sc), ld(2, rlx)], vec![st(2, 2, sc), ld(0, sc)]], vec![0, 0, ok(2), ok(i), 0, ok(i)], None, true),
        ("Z6.U sc", vec![vec![st(0, 2, sc), st(1, 2, sc)], vec![sw(1, 3, sc), ld(2, sc)], vec![st(2, 2, sc), ld(0, sc)]], vec![0, 0, ok(2), ok(i), 0, ok(i)], None, false),
        // fences
        ("SB sc fences", vec![vec![st(0, 2, rlx), fe(sc), ld(1, rlx)], vec![st(1, 2, rlx), fe(sc), ld(0, rlx)]], vec![0, 0, ok(i), 0, 0, ok(i)], None, false),
        ("SB acq_rel fences", vec![vec![st(0, 2, rlx), fe(3), ld(1, rlx)], vec![st(1, 2, rlx), fe(3), ld(0, rlx)]], vec![0, 0, ok(i), 0, 0, ok(i)], None, true),
        ("SB sc and fence", vec![vec![st(0, 2, sc), ld(1, sc)], vec![st(1, 2, rlx), fe(sc), ld(0, rlx)]], vec![0, ok(i), 0, 0, ok(i)], None, false),
        ("SB acq_rel and fence", vec![vec![st(0, 2, rel), ld(1, acq)], vec![st(1, 2, rlx), fe(sc), ld(0, rlx)]], vec![0, ok(i), 0, 0, ok(i)], None, true),
        ("MP fences", vec![vec![st(0, 2, rlx), fe(rel), st(1, 2, rlx)], vec![ld(1, rlx), fe(acq), ld(0, rlx)]], vec![0, 0, 0, ok(2), 0, ok(i)], None, false),
        ("MP release fence, acquire", vec![vec![st(0, 2, rlx), fe(rel), st(1, 2, rlx)], vec![ld(1, acq), ld(0, rlx)]], vec![0, 0, 0, ok(2), ok(i)], None, false),
        ("MP release, acquire fence", vec![vec![st(0, 2, rlx), st(1, 2, rel)], vec![ld(1, rlx), fe(acq), ld(0, rlx)]], vec![0, 0, ok(2), 0, ok(i)], None, false),
        ("MP release fence only", vec![vec![st(0, 2, rlx), fe(rel), st(1, 2, rlx)], vec![ld(1, rlx), ld(0, rlx)]], vec![0, 0, 0, ok(2), ok(i)], None, true),
        ("MP fence first", vec![vec![st(0, 2, rlx), fe(rel), st(1, 2, rlx)], vec![fe(acq), ld(1, rlx), ld(0, rlx)]], vec![0, 0, 0, 0, ok(2), ok(i)], None, true),
        ("MP fence last", vec![vec![st(0, 2, rlx), st(1, 2, rlx), fe(rel)], vec![ld(1, rlx), fe(acq), ld(0, rlx)]], vec![0, 0, 0, ok(2), 0, ok(i)], None, true),
        ("MP fences, release sequence", vec![vec![st(0, 2, rlx), fe(rel), st(1, 2, rlx)], vec![sw(1, 3, rlx)], vec![ld(1, rlx), fe(acq), ld(0, rlx)]], vec![0, 0, 0, ok(2), ok(3), 0, ok(i)], None, false),
        ("LB fences", vec![vec![ld(1, rlx), fe(rel), st(0, 2, rlx)], vec![ld(0, rlx), fe(acq), st(1, 2, rlx)]], vec![ok(2), 0, 0, ok(2), 0, 0], None, false),
        ("WRC fences", vec![vec![st(0, 2, rlx)], vec![ld(0, rlx), fe(rel), st(1, 2, rlx)], vec![ld(1, rlx), fe(acq), ld(0, rlx)]], vec![0, ok(2), 0, 0, ok(2), 0, ok(i)], None, false),
        ("RWC sc fences", vec![vec![st(0, 2, rlx)], vec![ld(0, rlx), fe(sc), ld(1, rlx)], vec![st(1, 2, rlx), fe(sc), ld(0, rlx)]], vec![0, ok(2), 0, ok(i), 0, 0, ok(i)], None, false),
        ("IRIW sc fences", vec![vec![st(0, 2, rlx)], vec![st(1, 2, rlx)], vec![ld(0, rlx), fe(sc), ld(1, rlx)], vec![ld(1, rlx), fe(sc), ld(0, rlx)]], vec![0, 0, ok(2), 0, ok(i), ok(2), 0, ok(i)], None, false),
        ("IRIW acq_rel fences", vec![vec![st(0, 2, rlx)], vec![st(1, 2, rlx)], vec![ld(0, rlx), fe(3), ld(1, rlx)], vec![ld(1, rlx), fe(3), ld(0, rlx)]], vec![0, 0, ok(2), 0, ok(i), ok(2), 0, ok(i)], None, true),
        ("2+2W sc fences", vec![vec![st(0, 2, rlx), fe(sc), st(1, 3, rlx)], vec![st(1, 2, rlx), fe(sc), st(0, 3, rlx)]], vec![0; 6], Some(vec![2, 2]), false),
        ("R sc fences", vec![vec![st(0, 2, rlx), fe(sc), st(1, 2, rlx)], vec![st(1, 3, rlx), fe(sc), ld(0, rlx)]], vec![0, 0, 0, 0, 0, ok(i)], Some(vec![2, 3]), false),
        ("R acq_rel fences", vec![vec![st(0, 2, rlx), fe(3), st(1, 2, rlx)], vec![st(1, 3, rlx), fe(3), ld(0, rlx)]], vec![0, 0, 0, 0, 0, ok(i)], Some(vec![2, 3]), true),
    ];
    let mut n = 0;
    for (name, p, rs, fin, want) in cases {
        n += 1;
        let set = lang_set(&p);
        let got = set.iter().any(|o| o.starts_with(&rs) && fin.as_ref().map_or(true, |f| o[rs.len()..] == f[..]));
        if got != want {
            return Err(format!("self-test: C++20 {name} must be {}", if want { "allowed" } else { "forbidden" }));
        }
    }
    Ok(n)
}
