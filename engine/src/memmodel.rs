//! Axiomatic hardware memory models over candidate executions, and the C++20 model used as the specification.
use crate::asm::*;

#[derive(Clone, Debug, Default)]
pub struct Exec {
    pub n: usize,
    pub th: Vec<u8>, // 255: initial write
    pub kind: Vec<u8>, // 0 read, 1 write, 2 fence
    pub loc: Vec<u8>,
    pub flags: Vec<u32>,
    pub fence: Vec<u32>,
    pub po: Vec<u64>,   // later events of the same thread
    pub addr: Vec<u64>, // sources
    pub data: Vec<u64>,
    pub ctrl: Vec<u64>,
    pub pair: Vec<u8>,  // read -> its write and vice versa (255: none)
    pub llsc: u64,      // members of load-linked/store-conditional pairs
    pub r: u64,
    pub w: u64,
    pub f: u64,
}

pub type Rel = Vec<u64>;

pub fn bits(mut m: u64) -> impl Iterator<Item = usize> {
    std::iter::from_fn(move || {
        if m == 0 {
            None
        } else {
            let i = m.trailing_zeros() as usize;
            m &= m - 1;
            Some(i)
        }
    })
}
pub fn closure(r: &mut Rel) {
    let n = r.len();
    for k in 0..n {
        let rk = r[k];
        for i in 0..n {
            if r[i] >> k & 1 == 1 {
                r[i] |= rk;
            }
        }
    }
}
pub fn acyclic(r: &Rel) -> bool {
    // Kahn-style: repeatedly drop events without successors inside the remaining set
    let n = r.len();
    let mut left: u64 = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    loop {
        let mut drop = 0u64;
        for i in bits(left) {
            if r[i] & left == 0 {
                drop |= 1 << i;
            }
        }
        if drop == 0 {
            return left == 0;
        }
        left &= !drop;
    }
}
fn seq(a: &Rel, b: &Rel) -> Rel {
    a.iter().map(|&m| bits(m).fold(0, |x, k| x | b[k])).collect()
}
fn or(a: &Rel, b: &Rel) -> Rel {
    a.iter().zip(b).map(|(x, y)| x | y).collect()
}
fn add(a: &mut Rel, b: &Rel) {
    for (x, y) in a.iter_mut().zip(b) {
        *x |= y;
    }
}
fn star(a: &Rel) -> Rel {
    let mut r = a.clone();
    closure(&mut r);
    for (i, x) in r.iter_mut().enumerate() {
        *x |= 1 << i;
    }
    r
}

impl Exec {
    fn zero(&self) -> Rel {
        vec![0; self.n]
    }
    fn same_thread(&self, i: usize) -> u64 {
        (0..self.n).filter(|&j| self.th[j] == self.th[i] && self.th[i] != 255).fold(0, |m, j| m | 1 << j)
    }
    /// successors ordered after `i` through a fence whose strength satisfies `pick`
    fn fence_rel(&self, pick: impl Fn(u32) -> (u64, u64)) -> Rel {
        let mut r = self.zero();
        for f in bits(self.f) {
            let (p, s) = pick(self.fence[f]);
            let after = self.po[f] & s;
            if p == 0 || after == 0 {
                continue;
            }
            for i in bits(p) {
                if self.po[i] >> f & 1 == 1 {
                    r[i] |= after;
                }
            }
        }
        r
    }
    fn std_fences(&self) -> Rel {
        let (r, w) = (self.r, self.w);
        self.fence_rel(|b| {
            let b = if b & F_FULL != 0 { F_ALL } else { b };
            (if b & F_PR != 0 { r } else { 0 } | if b & F_PW != 0 { w } else { 0 }, if b & F_SR != 0 { r } else { 0 } | if b & F_SW != 0 { w } else { 0 })
        })
    }
    /// read -> everything after an instruction barrier that is control dependent on it
    fn ctrl_isync(&self) -> Rel {
        let mut r = self.zero();
        for f in bits(self.f) {
            if self.fence[f] & F_ISYNC != 0 {
                for i in bits(self.ctrl[f]) {
                    r[i] |= self.po[f] & (self.r | self.w);
                }
            }
        }
        r
    }
    fn flagged(&self, f: u32) -> u64 {
        (0..self.n).filter(|&i| self.flags[i] & f != 0).fold(0, |m, i| m | 1 << i)
    }
    fn from_src(&self, s: &[u64]) -> Rel {
        let mut r = self.zero();
        for (i, &m) in s.iter().enumerate() {
            for k in bits(m) {
                r[k] |= 1 << i;
            }
        }
        r
    }

    /// Whether one location on its own behaves sequentially consistently. The order already puts every atomic
    /// read-modify-write directly after the write it reads.
    pub fn coherent(&self, mm: Mm, l: u8, order: &[u8], rf: &[(u8, u8)]) -> bool {
        let mut g = [0u64; 64];
        let mut mine = 0u64;
        let mut later = 0u64;
        let mut co = [0u64; 64];
        for &w in order.iter().rev() {
            co[w as usize] = later;
            g[w as usize] = later;
            later |= 1 << w;
        }
        mine |= later;
        for &(r, w) in rf {
            mine |= 1 << r;
            g[w as usize] |= 1 << r;
            g[r as usize] |= co[w as usize] & !(1 << r);
        }
        let _ = l;
        for i in bits(mine) {
            let mut p = self.po[i] & mine;
            if mm == Mm::WeakRr && (self.r & self.llsc) >> i & 1 == 1 {
                // a read of LL that is not followed by SC may be reordered with later reads of the location
                // unless a barrier is between them (plain loads: as LLVM and Linux assume, in order)
                let between = bits(self.po[i] & self.f).filter(|&f| self.fence[f] & (F_SAMEADDR | F_FULL | F_ALL) != 0).fold(0, |m, f| m | self.po[f]);
                p &= !self.r | between;
            }
            g[i] |= p;
        }
        let mut left = mine;
        loop {
            let mut drop = 0u64;
            for i in bits(left) {
                if g[i] & left == 0 {
                    drop |= 1 << i;
                }
            }
            if drop == 0 {
                return left == 0;
            }
            left &= !drop;
        }
    }

    /// The rest of the model, for candidates in which every location is `coherent`.
    /// `rf[i]`: write read by event i (255 otherwise); `co`: writes ordered after each write.
    pub fn consistent(&self, mm: Mm, rf: &[u8], co: &Rel) -> bool {
        let n = self.n;
        let (rs, ws) = (self.r, self.w);
        let m = rs | ws;
        let mut rfr = self.zero();
        let mut fr = self.zero();
        for i in bits(rs) {
            let w = rf[i] as usize;
            rfr[w] |= 1 << i;
            fr[i] |= co[w] & !(1 << i);
        }
        let mut loc = self.zero();
        for i in bits(m) {
            for j in bits(m) {
                if self.loc[i] == self.loc[j] {
                    loc[i] |= 1 << j;
                }
            }
        }
        if mm == Mm::Sc {
            let mut g = self.zero();
            for i in bits(m) {
                g[i] = (self.po[i] & m) | rfr[i] | co[i] | fr[i];
            }
            return acyclic(&g);
        }
        let ext = |a: &Rel| -> Rel { (0..n).map(|i| a[i] & !self.same_thread(i)).collect() };
        let int = |a: &Rel| -> Rel { (0..n).map(|i| a[i] & self.same_thread(i)).collect() };
        let rfe = ext(&rfr);
        let rfi = int(&rfr);
        let fre = ext(&fr);
        let coe = ext(co);
        let addr = self.from_src(&self.addr);
        let data = self.from_src(&self.data);
        let ctrl = self.from_src(&self.ctrl);
        let restrict = |r: &Rel, d: u64, g: u64| -> Rel { (0..n).map(|i| if d >> i & 1 == 1 { r[i] & g } else { 0 }).collect() };
        let po = &self.po;
        let mut rmw = self.zero();
        for i in bits(rs) {
            if self.pair[i] != 255 {
                rmw[i] |= 1 << self.pair[i];
            }
        }
        match mm {
            Mm::Sc => unreachable!(),
            Mm::Tso => {
                let lock = self.flagged(LOCK);
                let nt = self.flagged(NT) & ws;
                let mut g = self.std_fences();
                for i in bits(m) {
                    let mut p = po[i] & m;
                    if ws >> i & 1 == 1 && lock >> i & 1 == 0 {
                        // stores stay in order, except non-temporal ones
                        p &= lock | if nt >> i & 1 == 1 { 0 } else { ws & !nt };
                        // anything after a locked access that follows
                        for k in bits(po[i] & lock) {
                            p |= po[k] & m;
                        }
                    }
                    g[i] |= p | rfe[i] | co[i] | fr[i];
                }
                acyclic(&g)
            }
            Mm::AArch64 => {
                let a = self.flagged(ACQ) & rs;
                let q = self.flagged(ACQPC) & rs;
                let l = self.flagged(REL) & ws;
                let addrpo = seq(&addr, po);
                let mut ob = or(&addr, &data);
                add(&mut ob, &restrict(&ctrl, rs, ws));
                add(&mut ob, &restrict(&addrpo, rs, ws));
                // ctrl;[ISB];po;[R]
                add(&mut ob, &restrict(&self.ctrl_isync(), rs, rs));
                add(&mut ob, &seq(&or(&addr, &data), &rfi));
                add(&mut ob, &rmw);
                for i in bits(rs) {
                    if self.pair[i] != 255 {
                        let w = self.pair[i] as usize;
                        ob[w] |= rfi[w] & (a | q);
                    }
                }
                add(&mut ob, &self.std_fences());
                for i in bits(m) {
                    if (a | q) >> i & 1 == 1 {
                        ob[i] |= po[i] & m;
                    }
                    ob[i] |= po[i] & l;
                    if l >> i & 1 == 1 {
                        ob[i] |= po[i] & a;
                    }
                }
                // po;[A];amo;[L];po : an acquire-release single-instruction RMW is a full barrier
                for i in bits(a & !self.llsc) {
                    let p = self.pair[i];
                    if p != 255 && l >> p & 1 == 1 {
                        ob[p as usize] |= po[p as usize] & m;
                        for k in bits(m) {
                            if po[k] >> i & 1 == 1 {
                                ob[k] |= po[p as usize] & m;
                            }
                        }
                    }
                }
                for i in 0..n {
                    ob[i] |= rfe[i] | fre[i] | coe[i];
                }
                acyclic(&ob)
            }
            Mm::Weak | Mm::WeakRr => {
                let addrpo = seq(&addr, po);
                let lock = self.flagged(LOCK);
                let mut ob = or(&addr, &data);
                add(&mut ob, &restrict(&ctrl, rs, ws));
                add(&mut ob, &restrict(&addrpo, rs, ws));
                add(&mut ob, &seq(&or(&addr, &data), &rfi));
                add(&mut ob, &rmw);
                add(&mut ob, &self.std_fences());
                let a = self.flagged(ACQ | ACQPC) & m;
                let l = self.flagged(REL) & m;
                for i in bits(m) {
                    if (lock | a) >> i & 1 == 1 {
                        ob[i] |= po[i] & m;
                    }
                    ob[i] |= po[i] & (lock | l);
                }
                // an atomic operation with barrier semantics orders what is before it with what is after it
                let mut lk = self.zero();
                for i in bits(m) {
                    for k in bits(po[i] & lock) {
                        lk[i] |= po[k] & m;
                    }
                }
                add(&mut ob, &lk);
                for i in 0..n {
                    ob[i] |= rfe[i] | fre[i] | coe[i];
                }
                acyclic(&ob)
            }
            Mm::RiscV => {
                let a = self.flagged(ACQ) & m;
                let l = self.flagged(REL) & m;
                let ann = a | l;
                let addrpo = seq(&addr, po);
                let mut ppo = self.std_fences();
                for i in bits(m) {
                    ppo[i] |= po[i] & loc[i] & ws; // 1
                    if rs >> i & 1 == 1 {
                        // 2: same-address loads, different writes, no write in between
                        for j in bits(po[i] & loc[i] & rs) {
                            let no_w = !bits(po[i] & ws & loc[i]).any(|k| po[k] >> j & 1 == 1);
                            if no_w && rf[i] != rf[j] {
                                ppo[i] |= 1 << j;
                            }
                        }
                    }
                    if ws >> i & 1 == 1 && self.pair[i] != 255 {
                        ppo[i] |= rfi[i]; // 3
                    }
                    if a >> i & 1 == 1 {
                        ppo[i] |= po[i] & m; // 5
                    }
                    ppo[i] |= po[i] & l; // 6
                    if ann >> i & 1 == 1 {
                        ppo[i] |= po[i] & ann; // 7
                    }
                }
                add(&mut ppo, &rmw); // 8
                add(&mut ppo, &addr); // 9
                add(&mut ppo, &data); // 10
                add(&mut ppo, &restrict(&ctrl, m, ws)); // 11
                add(&mut ppo, &seq(&or(&addr, &data), &rfi)); // 12
                add(&mut ppo, &restrict(&addrpo, rs, ws)); // 13
                let mut g: Rel = (0..n).map(|i| ppo[i] | rfe[i] | co[i] | fr[i]).collect();
                // an AMO is one memory operation: merge its two events
                for i in bits(rs & !self.llsc) {
                    let p = self.pair[i];
                    if p == 255 {
                        continue;
                    }
                    let p = p as usize;
                    let out = (g[i] | g[p]) & !(1 << i) & !(1 << p);
                    g[i] = out;
                    g[p] = 0;
                    for k in 0..n {
                        if g[k] >> p & 1 == 1 {
                            g[k] = (g[k] & !(1 << p)) | 1 << i;
                        }
                    }
                    g[i] &= !(1 << i);
                }
                acyclic(&g)
            }
            Mm::Arm7 | Mm::Power => {
                let power = mm == Mm::Power;
                let dp = or(&addr, &data);
                let poloc: Rel = (0..n).map(|i| po[i] & loc[i]).collect();
                let and = |a: &Rel, b: &Rel| -> Rel { a.iter().zip(b).map(|(x, y)| x & y).collect() };
                let rdw = and(&poloc, &seq(&fre, &rfe));
                let detour = and(&poloc, &seq(&coe, &rfe));
                let ctrl_isync = self.ctrl_isync();
                let mut ii = or(&or(&dp, &rdw), &rfi);
                let mut ic = self.zero();
                let mut ci = or(&ctrl_isync, &detour);
                let mut cc = or(&or(&dp, &ctrl), &seq(&addr, po));
                if power {
                    add(&mut cc, &poloc);
                }
                let (ii0, ci0, cc0) = (ii.clone(), ci.clone(), cc.clone());
                loop {
                    let ii2 = or(&or(&ii0, &ci), &or(&seq(&ic, &ci), &seq(&ii, &ii)));
                    let ic2 = or(&or(&ii, &cc), &or(&seq(&ic, &cc), &seq(&ii, &ic)));
                    let ci2 = or(&ci0, &or(&seq(&ci, &ii), &seq(&cc, &ci)));
                    let cc2 = or(&or(&cc0, &ci), &or(&seq(&ci, &ic), &seq(&cc, &cc)));
                    let (a, b, c, d) = (or(&ii, &ii2), or(&ic, &ic2), or(&ci, &ci2), or(&cc, &cc2));
                    let same = a == ii && b == ic && c == ci && d == cc;
                    ii = a;
                    ic = b;
                    ci = c;
                    cc = d;
                    if same {
                        break;
                    }
                }
                let mut ppo = restrict(&ii, rs, rs);
                add(&mut ppo, &restrict(&ic, rs, ws));
                let ffence = {
                    let full = self.fence_rel(|b| if b & F_FULL != 0 || b & F_ALL == F_ALL { (m, m) } else { (0, 0) });
                    let st = self.fence_rel(|b| if b & (F_FULL | F_LW) == 0 && b & F_ALL != 0 && b & F_ALL != F_ALL { (if b & F_PR != 0 { rs } else { 0 } | if b & F_PW != 0 { ws } else { 0 }, if b & F_SR != 0 { rs } else { 0 } | if b & F_SW != 0 { ws } else { 0 }) } else { (0, 0) });
                    or(&full, &st)
                };
                let lw = {
                    let x = self.fence_rel(|b| if b & F_LW == 0 { (0, 0) } else if b & F_ALL != 0 { (ws, ws) } else { (m, m) });
                    (0..n).map(|i| if ws >> i & 1 == 1 { x[i] & !rs } else { x[i] }).collect::<Rel>()
                };
                let fence = or(&ffence, &lw);
                let hb = or(&or(&ppo, &fence), &rfe);
                if !acyclic(&hb) {
                    return false;
                }
                let hbs = star(&hb);
                let prop_base = seq(&or(&fence, &seq(&rfe, &fence)), &hbs);
                let com = or(&or(&rfr, co), &fr);
                let mut prop = restrict(&prop_base, ws, ws);
                let x = seq(&seq(&seq(&star(&com), &star(&prop_base)), &ffence), &hbs);
                add(&mut prop, &x);
                // observation
                let obs = seq(&seq(&fre, &prop), &hbs);
                if (0..n).any(|i| obs[i] >> i & 1 == 1) {
                    return false;
                }
                acyclic(&or(co, &prop))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C++20

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct LEv {
    pub th: u8, // 255 initial
    pub loc: u8,
    pub rd: Option<u8>, // value read
    pub wr: Option<u8>, // value written
    pub acq: bool,
    pub rel: bool,
    pub sc: bool,
}

/// Consistency of a candidate execution in the C++20 memory model. Events of a thread are in sequence order.
pub fn cxx20(ev: &[LEv], rf: &[u8], co: &Rel) -> bool {
    let n = ev.len();
    let mut rfr = vec![0u64; n];
    let mut fr = vec![0u64; n];
    for i in 0..n {
        if ev[i].rd.is_some() {
            let w = rf[i] as usize;
            if w == i {
                return false;
            }
            rfr[w] |= 1 << i;
            fr[i] |= co[w] & !(1 << i);
            if ev[i].wr.is_some() {
                // atomicity: immediately after the write it reads
                if co[w] >> i & 1 == 0 {
                    return false;
                }
                if (0..n).any(|k| k != i && co[w] >> k & 1 == 1 && co[k] >> i & 1 == 1) {
                    return false;
                }
            }
        }
    }
    let mut sb = vec![0u64; n];
    for i in 0..n {
        for j in 0..n {
            if i != j && ((ev[i].th == 255 && ev[j].th != 255) || (ev[i].th == ev[j].th && ev[i].th != 255 && i < j)) {
                sb[i] |= 1 << j;
            }
        }
    }
    // synchronizes-with through release sequences; a fence acts for the later writes and earlier reads of its thread
    let fence = |i: usize| ev[i].rd.is_none() && ev[i].wr.is_none();
    let mut sw = vec![0u64; n];
    for a in 0..n {
        if ev[a].th == 255 || ev[a].wr.is_none() {
            continue;
        }
        let from: Vec<usize> = (0..n).filter(|&x| ev[x].rel && (x == a || fence(x) && sb[x] >> a & 1 == 1)).collect();
        if from.is_empty() {
            continue;
        }
        let mut seqs = 1u64 << a;
        loop {
            let mut nx = seqs;
            for k in bits(seqs) {
                for r in bits(rfr[k]) {
                    if ev[r].wr.is_some() {
                        nx |= 1 << r;
                    }
                }
            }
            if nx == seqs {
                break;
            }
            seqs = nx;
        }
        for k in bits(seqs) {
            for r in bits(rfr[k]) {
                for y in 0..n {
                    if ev[y].acq && (y == r || fence(y) && sb[r] >> y & 1 == 1) {
                        for &x in &from {
                            if x != y {
                                sw[x] |= 1 << y;
                            }
                        }
                    }
                }
            }
        }
    }
    let mut hb = or(&sb, &sw);
    closure(&mut hb);
    let mut eco: Rel = (0..n).map(|i| rfr[i] | co[i] | fr[i]).collect();
    closure(&mut eco);
    for i in 0..n {
        if hb[i] >> i & 1 == 1 || eco[i] >> i & 1 == 1 {
            return false;
        }
        for j in bits(hb[i]) {
            if eco[j] >> i & 1 == 1 {
                return false;
            }
        }
    }
    let scs: u64 = (0..n).filter(|&i| ev[i].sc).fold(0, |m, i| m | 1 << i);
    if scs.count_ones() < 2 {
        return true;
    }
    let mut shb = sb.clone();
    for i in bits(scs) {
        shb[i] |= sw[i] & scs;
    }
    add(&mut shb, &seq(&seq(&sb, &hb), &sb));
    closure(&mut shb);
    // coherence between events at, after or before seq_cst events: fences reach over happens-before
    let mut s: Rel = (0..n).map(|i| if scs >> i & 1 == 1 { (shb[i] | eco[i]) & scs } else { 0 }).collect();
    let scf: u64 = bits(scs).filter(|&i| fence(i)).fold(0, |m, i| m | 1 << i);
    if scf != 0 {
        for a in 0..n {
            let pre = (1u64 << a & scs) | bits(scf).filter(|&x| hb[x] >> a & 1 == 1).fold(0, |m, x| m | 1 << x);
            if pre == 0 {
                continue;
            }
            for b in bits(eco[a]) {
                let post = (1u64 << b & scs) | (hb[b] & scf);
                for x in bits(pre) {
                    s[x] |= post;
                }
            }
        }
    }
    acyclic(&s)
}

// ------------------------------------------------------------------------------------------------ self-test

/// A hand-written candidate execution.
#[derive(Clone)]
struct T {
    e: Exec,
    rf: Vec<u8>,
    co: Rel,
    last: Vec<(u8, usize)>,
}
impl T {
    fn new(nl: u8) -> T {
        let mut t = T { e: Exec::default(), rf: vec![], co: vec![], last: vec![] };
        for l in 0..nl {
            t.ev(255, 1, l, 0, 0);
        }
        t
    }
    fn ev(&mut self, th: u8, kind: u8, loc: u8, flags: u32, fence: u32) -> usize {
        let e = &mut self.e;
        let i = e.n;
        e.n += 1;
        e.th.push(th);
        e.kind.push(kind);
        e.loc.push(loc);
        e.flags.push(flags);
        e.fence.push(fence);
        for v in [&mut e.po, &mut e.addr, &mut e.data, &mut e.ctrl] {
            v.push(0);
        }
        e.pair.push(255);
        match kind {
            0 => e.r |= 1 << i,
            1 => e.w |= 1 << i,
            _ => e.f |= 1 << i,
        }
        if th != 255 {
            for &(t, j) in &self.last {
                if t == th {
                    e.po[j] |= 1 << i;
                }
            }
            self.last.push((th, i));
        }
        self.rf.push(255);
        self.co.push(0);
        if kind == 1 && th != 255 {
            self.co[loc as usize] |= 1 << i;
        }
        i
    }
    fn w(&mut self, th: u8, loc: u8, flags: u32) -> usize {
        self.ev(th, 1, loc, flags, 0)
    }
    fn r(&mut self, th: u8, loc: u8, flags: u32, from: usize) -> usize {
        let i = self.ev(th, 0, loc, flags, 0);
        self.rf[i] = from as u8;
        i
    }
    /// Something between two accesses: n nothing, or a fence.
    fn f(&mut self, th: u8, b: u32) {
        if b != 0 {
            self.ev(th, 2, 0, 0, b);
        }
    }
    fn rmw(&mut self, th: u8, loc: u8, rf: usize, fl: (u32, u32), llsc: bool) -> (usize, usize) {
        let r = self.r(th, loc, fl.0, rf);
        let w = self.w(th, loc, fl.1);
        self.e.pair[r] = w as u8;
        self.e.pair[w] = r as u8;
        if llsc {
            self.e.llsc |= 1 << r | 1 << w;
        }
        (r, w)
    }
    fn before(&mut self, a: usize, b: usize) {
        self.co[a] |= 1 << b;
    }
    fn ok(&self, mm: Mm) -> bool {
        self.e.consistent(mm, &self.rf, &self.co)
    }
}

const DATA: u32 = 1 << 20;
const ADDR: u32 = 1 << 21;
const CTRL: u32 = 1 << 22;
const CISYNC: u32 = 1 << 23;

/// link between two accesses of a thread: a fence or a dependency on `a`
fn link(t: &mut T, th: u8, a: usize, how: u32, next: impl FnOnce(&mut T) -> usize) -> usize {
    if how == CISYNC {
        let f = t.ev(th, 2, 0, 0, F_ISYNC);
        t.e.ctrl[f] |= 1 << a;
    } else if how < DATA {
        t.f(th, how);
    }
    let i = next(t);
    match how {
        DATA => t.e.data[i] |= 1 << a,
        ADDR => t.e.addr[i] |= 1 << a,
        CTRL | CISYNC => t.e.ctrl[i] |= 1 << a,
        _ => {}
    }
    i
}

/// The published verdicts on the classic litmus tests. Returns how many were compared.
pub fn selftest() -> Result<u64, String> {
    use Mm::*;
    const SYNC: u32 = F_ALL | F_FULL;
    const RR: u32 = F_PR | F_SR;
    const RM: u32 = F_PR | F_SR | F_SW;
    const WW: u32 = F_PW | F_SW;
    let sb = |a: u32, fw: u32, fr: u32| {
        let mut t = T::new(2);
        for th in 0..2u8 {
            t.w(th, th, fw);
            t.f(th, a);
            t.r(th, 1 - th, fr, 1 - th as usize);
        }
        t
    };
    let mp = |a: u32, b: u32, fw: u32, fr: u32| {
        let mut t = T::new(2);
        t.w(0, 0, 0);
        t.f(0, a);
        let w = t.w(0, 1, fw);
        let r = t.r(1, 1, fr, w);
        link(&mut t, 1, r, b, |t| t.r(1, 0, 0, 0));
        t
    };
    let lb = |a: u32| {
        let mut t = T::new(2);
        let r0 = t.r(0, 0, 0, 0);
        let w0 = link(&mut t, 0, r0, a, |t| t.w(0, 1, 0));
        let r1 = t.r(1, 1, 0, w0);
        let w1 = link(&mut t, 1, r1, a, |t| t.w(1, 0, 0));
        t.rf[r0] = w1 as u8;
        t
    };
    let iriw = |a: u32| {
        let mut t = T::new(2);
        let w0 = t.w(0, 0, 0);
        let w1 = t.w(1, 1, 0);
        let r = t.r(2, 0, 0, w0);
        link(&mut t, 2, r, a, |t| t.r(2, 1, 0, 1));
        let r = t.r(3, 1, 0, w1);
        link(&mut t, 3, r, a, |t| t.r(3, 0, 0, 0));
        t
    };
    let wrc = |a: u32, b: u32| {
        let mut t = T::new(2);
        let w0 = t.w(0, 0, 0);
        let r = t.r(1, 0, 0, w0);
        let w1 = link(&mut t, 1, r, a, |t| t.w(1, 1, 0));
        let r = t.r(2, 1, 0, w1);
        link(&mut t, 2, r, b, |t| t.r(2, 0, 0, 0));
        t
    };
    let isa2 = |a: u32, b: u32, c: u32| {
        let mut t = T::new(3);
        t.w(0, 0, 0);
        t.f(0, a);
        let w = t.w(0, 1, 0);
        let r = t.r(1, 1, 0, w);
        let w2 = link(&mut t, 1, r, b, |t| t.w(1, 2, 0));
        let r = t.r(2, 2, 0, w2);
        link(&mut t, 2, r, c, |t| t.r(2, 0, 0, 0));
        t
    };
    let w22 = |a: u32| {
        let mut t = T::new(2);
        let x1 = t.w(0, 0, 0);
        t.f(0, a);
        let y1 = t.w(0, 1, 0);
        let y2 = t.w(1, 1, 0);
        t.f(1, a);
        let x2 = t.w(1, 0, 0);
        t.before(y1, y2);
        t.before(x2, x1);
        t
    };
    // R: W x; W y || W y (later); R x = 0
    let rr = |a: u32, b: u32| {
        let mut t = T::new(2);
        t.w(0, 0, 0);
        t.f(0, a);
        let y1 = t.w(0, 1, 0);
        let y2 = t.w(1, 1, 0);
        t.f(1, b);
        t.r(1, 0, 0, 0);
        t.before(y1, y2);
        t
    };
    // S: W x=2; W y || R y; W x=1, x=1 before x=2
    let s = |a: u32, b: u32| {
        let mut t = T::new(2);
        let x2 = t.w(0, 0, 0);
        t.f(0, a);
        let y = t.w(0, 1, 0);
        let r = t.r(1, 1, 0, y);
        let x1 = link(&mut t, 1, r, b, |t| t.w(1, 0, 0));
        t.before(x1, x2);
        t
    };
    // SB where the store is the write of a read-modify-write
    let sbrmw = |fl: (u32, u32), llsc: bool| {
        let mut t = T::new(2);
        for th in 0..2u8 {
            t.rmw(th, th, th as usize, fl, llsc);
            t.r(th, 1 - th, 0, 1 - th as usize);
        }
        t
    };
    let cases: Vec<(&str, T, Vec<Mm>, Vec<Mm>)> = vec![
        // name, candidate, allowed by, forbidden by
        ("SB", sb(0, 0, 0), vec![Tso, AArch64, Arm7, Power, RiscV, Weak, WeakRr], vec![Sc]),
        ("SB+syncs", sb(SYNC, 0, 0), vec![], vec![Sc, Tso, AArch64, Arm7, Power, RiscV, Weak, WeakRr]),
        ("SB+lwsyncs", sb(F_LW, 0, 0), vec![Power], vec![]),
        ("SB+locked", sb(0, LOCK, 0), vec![], vec![Tso, Weak]),
        ("SB+rel+acq", sb(0, REL, ACQ), vec![], vec![AArch64, RiscV]),
        ("SB+rel+acqpc", sb(0, REL, ACQPC), vec![AArch64], vec![]),
        ("SB+w.w", sb(WW, 0, 0), vec![AArch64, RiscV, Arm7, Tso], vec![]),
        ("SB+amo.al", sbrmw((ACQ, REL), false), vec![], vec![AArch64]),
        ("SB+amo.l", sbrmw((0, REL), false), vec![AArch64], vec![]),
        ("SB+llsc.al", sbrmw((ACQ, REL), true), vec![AArch64], vec![]),
        ("MP", mp(0, 0, 0, 0), vec![AArch64, Arm7, Power, RiscV, Weak, WeakRr], vec![Sc, Tso]),
        ("MP+nt", mp(0, 0, NT, 0), vec![Tso], vec![]),
        ("MP+nt+sfence", mp(WW, 0, NT, 0), vec![], vec![Tso]),
        ("MP+syncs", mp(SYNC, SYNC, 0, 0), vec![], vec![AArch64, Arm7, Power, RiscV, Weak]),
        ("MP+sync+po", mp(SYNC, 0, 0, 0), vec![AArch64, Arm7, Power, RiscV, Weak], vec![]),
        ("MP+po+addr", mp(0, ADDR, 0, 0), vec![AArch64, Arm7, Power, RiscV, Weak], vec![]),
        ("MP+sync+addr", mp(SYNC, ADDR, 0, 0), vec![], vec![AArch64, Arm7, Power, RiscV, Weak]),
        ("MP+sync+ctrl", mp(SYNC, CTRL, 0, 0), vec![AArch64, Arm7, Power, RiscV], vec![]),
        ("MP+sync+ctrlisync", mp(SYNC, CISYNC, 0, 0), vec![RiscV], vec![AArch64, Arm7, Power]),
        ("MP+lwsync+addr", mp(F_LW, ADDR, 0, 0), vec![], vec![Power]),
        ("MP+eieio+addr", mp(F_LW | WW, ADDR, 0, 0), vec![], vec![Power]),
        ("S+eieio+data", s(F_LW | WW, DATA), vec![], vec![Power]),
        ("LB+eieios", lb(F_LW | WW), vec![Power], vec![]),
        ("MP+lwsyncs", mp(F_LW, F_LW, 0, 0), vec![], vec![Power]),
        ("MP+w.w+r.r", mp(WW, RR, 0, 0), vec![], vec![RiscV, AArch64]),
        ("MP+w.w+dmb.ld", mp(WW, RM, 0, 0), vec![], vec![AArch64]),
        ("MP+dmb.ld+sync", mp(RM, SYNC, 0, 0), vec![AArch64, RiscV], vec![]),
        ("MP+rel+acq", mp(0, 0, REL, ACQ), vec![], vec![AArch64, RiscV]),
        ("MP+rel+acqpc", mp(0, 0, REL, ACQPC), vec![], vec![AArch64]),
        ("MP+rel+po", mp(0, 0, REL, 0), vec![AArch64, RiscV], vec![]),
        ("LB", lb(0), vec![AArch64, Arm7, Power, RiscV, Weak], vec![Sc, Tso]),
        ("LB+datas", lb(DATA), vec![], vec![AArch64, Arm7, Power, RiscV, Weak]),
        ("LB+ctrls", lb(CTRL), vec![], vec![AArch64, Arm7, Power, RiscV, Weak]),
        ("LB+lwsyncs", lb(F_LW), vec![], vec![Power]),
        ("IRIW", iriw(0), vec![AArch64, Arm7, Power, RiscV, Weak], vec![Sc, Tso]),
        ("IRIW+addrs", iriw(ADDR), vec![Arm7, Power], vec![AArch64, RiscV, Weak]),
        ("IRIW+lwsyncs", iriw(F_LW), vec![Power], vec![]),
        ("IRIW+syncs", iriw(SYNC), vec![], vec![AArch64, Arm7, Power, RiscV, Weak]),
        ("WRC+addrs", wrc(ADDR, ADDR), vec![Arm7, Power], vec![AArch64, RiscV, Weak]),
        ("WRC+sync+addr", wrc(SYNC, ADDR), vec![], vec![AArch64, Arm7, Power, RiscV]),
        ("WRC+lwsync+addr", wrc(F_LW, ADDR), vec![], vec![Power]),
        ("WRC+lwsync+po", wrc(F_LW, 0), vec![Power], vec![]),
        ("ISA2+sync+data+addr", isa2(SYNC, DATA, ADDR), vec![], vec![AArch64, Arm7, Power, RiscV, Weak]),
        ("ISA2+lwsync+addr+addr", isa2(F_LW, ADDR, ADDR), vec![], vec![Power]),
        ("ISA2+po+sync+sync", isa2(0, SYNC, SYNC), vec![AArch64, Power, RiscV], vec![]),
        ("2+2W", w22(0), vec![AArch64, Arm7, Power, RiscV, Weak], vec![Sc, Tso]),
        ("2+2W+lwsyncs", w22(F_LW), vec![], vec![Power]),
        ("2+2W+syncs", w22(SYNC), vec![], vec![AArch64, Arm7, Power, RiscV, Weak]),
        ("R", rr(0, 0), vec![Tso, AArch64, Arm7, Power, RiscV], vec![Sc]),
        ("R+po+sync", rr(0, SYNC), vec![AArch64, Power], vec![Tso]),
        ("R+lwsync+sync", rr(F_LW, SYNC), vec![Power], vec![]),
        ("R+syncs", rr(SYNC, SYNC), vec![], vec![Tso, AArch64, Arm7, Power, RiscV]),
        ("S", s(0, 0), vec![AArch64, Arm7, Power, RiscV], vec![Sc, Tso]),
        ("S+sync+data", s(SYNC, DATA), vec![], vec![AArch64, Arm7, Power, RiscV]),
        ("S+lwsync+ctrl", s(F_LW, CTRL), vec![], vec![Power]),
        ("S+sync+po", s(SYNC, 0), vec![AArch64, Arm7, Power, RiscV], vec![]),
    ];
    let mut n = 0;
    for (name, t, yes, no) in cases {
        for (set, want) in [(yes, true), (no, false)] {
            for mm in set {
                n += 1;
                if t.ok(mm) != want {
                    return Err(format!("self-test: {name} under {mm:?} must be {}", if want { "allowed" } else { "forbidden" }));
                }
            }
        }
    }
    Ok(n)
}
