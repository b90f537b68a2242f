//! Canonical hash of everything reachable from a function: equal hashes mean identical code up to symbol names.
use crate::config::{fnv, FNV0};
use crate::interp::Linked;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Hasher<'a> {
    l: &'a Linked,
    memo: RefCell<HashMap<u32, u64>>,
    gmemo: RefCell<HashMap<(usize, String), u64>>,
}

impl<'a> Hasher<'a> {
    pub fn new(l: &'a Linked) -> Self {
        Hasher { l, memo: Default::default(), gmemo: Default::default() }
    }
    pub fn func(&self, f: u32) -> u64 {
        if let Some(h) = self.memo.borrow().get(&f) {
            return *h;
        }
        self.memo.borrow_mut().insert(f, 7); // recursion
        let (mi, fu) = &self.l.funcs[f as usize];
        let mut h = FNV0;
        h = fnv(h, format!("{:?}{:?}{:?}{}", fu.params, fu.ret, fu.rattr, fu.nlocals).as_bytes());
        for b in &fu.blocks {
            h = fnv(h, b"block");
            for i in b {
                let s = format!("{i:?}");
                h = self.text(h, *mi, &s);
                if let crate::ir::Inst::Asm { asm, .. } = i {
                    let d = &self.l.mods[*mi].asms[*asm];
                    h = fnv(h, format!("{}|{}|{}|{}|{}|{}|{:?}|{:?}", d.template, d.constraints, d.intel, d.sideeffect, d.alignstack, d.attrs, d.ret, d.args).as_bytes());
                }
                if let crate::ir::Inst::Load { range: Some(r), .. } = i {
                    h = fnv(h, format!("{:?}", self.l.mods[*mi].ranges.get(r)).as_bytes());
                }
            }
        }
        self.memo.borrow_mut().insert(f, h);
        h
    }
    fn sym(&self, mi: usize, n: &str) -> u64 {
        if let Some(f) = self.l.fidx_mod[mi].get(n).or_else(|| self.l.fidx.get(n)) {
            return self.func(*f);
        }
        if let Some(h) = self.gmemo.borrow().get(&(mi, n.to_string())) {
            return *h;
        }
        self.gmemo.borrow_mut().insert((mi, n.to_string()), 11);
        let h = match self.l.mods[mi].globals.iter().find(|g| g.name == n) {
            Some(g) => self.text(FNV0, mi, &format!("{:?}{:?}", g.ty, g.init)),
            None => fnv(FNV0, if n.starts_with("_ZN") || n.starts_with("_R") { b"ext" } else { n.as_bytes() }),
        };
        self.gmemo.borrow_mut().insert((mi, n.to_string()), h);
        h
    }
    /// Hashes a debug rendering with symbol names replaced by the hash of what they name.
    fn text(&self, h: u64, mi: usize, s: &str) -> u64 {
        let mut h = h;
        let mut rest = s;
        loop {
            let a = rest.find("Global(\"");
            let b = rest.find("callee: \"");
            let c = rest.find("asm: ");
            let r = rest.find("range: Some(");
            let mut best: Option<(usize, usize, u8)> = None;
            for (p, l, k) in [(a, 8, 0u8), (b, 9, 0), (c, 5, 1), (r, 12, 1)] {
                if let Some(p) = p {
                    if best.map_or(true, |x| p < x.0) {
                        best = Some((p, l, k));
                    }
                }
            }
            let Some((p, l, k)) = best else {
                return fnv(h, rest.as_bytes());
            };
            h = fnv(h, &rest.as_bytes()[..p + l]);
            rest = &rest[p + l..];
            if k == 0 {
                let e = rest.find('"').unwrap_or(rest.len());
                let n = &rest[..e];
                h = if n.starts_with("llvm.") { fnv(h, n.as_bytes()) } else { fnv(h, &self.sym(mi, n).to_le_bytes()) };
                rest = &rest[e..];
            } else {
                let e = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
                rest = &rest[e..];
            }
        }
    }
}
