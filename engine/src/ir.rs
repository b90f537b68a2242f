//! Parser for the LLVM IR that rustc emits (the subset that occurs without optimization passes).
use std::collections::HashMap;
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32), // width in bits; contents are opaque
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Opaque,
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Gep(Box<(Ty, Const)>, Ty, Vec<(Ty, Const)>),
    Cast(Box<(Ty, Const)>),
    Sub(Box<(Ty, Const)>, Box<(Ty, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Local(u32),
    Const(Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Debug, Default)]
pub struct PAttr {
    pub noundef: bool,
    pub range: Option<(u128, u128)>,
    pub nonnull: bool,
}

#[derive(Clone, Debug)]
pub struct AsmDef {
    pub template: String,
    pub constraints: String,
    pub intel: bool,
    pub sideeffect: bool,
    pub alignstack: bool,
    pub attrs: String,
    pub ret: Ty,
    pub args: Vec<Ty>,
    pub func: String,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Opd, noundef: bool, range: Option<u32>, atomic: Option<String>, volatile: bool },
    Store { ty: Ty, val: Opd, ptr: Opd, atomic: Option<String>, volatile: bool },
    Gep { dst: u32, base: Opd, ty: Ty, idx: Vec<(Ty, Opd)> },
    Bin { dst: u32, op: Bin, ty: Ty, a: Opd, b: Opd, nuw: bool, nsw: bool, exact: bool },
    Icmp { dst: u32, p: Pred, ty: Ty, a: Opd, b: Opd },
    Cast { dst: u32, op: CastOp, from: Ty, v: Opd, to: Ty },
    Select { dst: u32, c: Opd, cty: Ty, ty: Ty, a: Opd, b: Opd },
    ExtractVal { dst: u32, ty: Ty, v: Opd, idx: Vec<u32> },
    InsertVal { dst: u32, ty: Ty, v: Opd, ety: Ty, e: Opd, idx: Vec<u32> },
    ExtractEl { dst: u32, ty: Ty, v: Opd, ity: Ty, i: Opd },
    InsertEl { dst: u32, ty: Ty, v: Opd, e: Opd, ity: Ty, i: Opd },
    Freeze { dst: u32, ty: Ty, v: Opd },
    Phi { dst: u32, ty: Ty, inc: Vec<(Opd, u32)> },
    Call { dst: Option<u32>, ret: Ty, rattr: PAttr, callee: String, args: Vec<(Ty, PAttr, Opd)> },
    CallPtr { dst: Option<u32>, ret: Ty, callee: Opd, args: Vec<(Ty, PAttr, Opd)> },
    Asm { dst: Option<u32>, asm: usize, args: Vec<(Ty, PAttr, Opd)> },
    Fence(String),
    Rmw { dst: u32, op: String, ptr: Opd, ty: Ty, v: Opd, ord: String },
    Cmpxchg { dst: u32, ptr: Opd, ty: Ty, cmp: Opd, new: Opd, weak: bool, ord: String },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { ty: Ty, v: Opd, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, PAttr)>,
    pub ret: Ty,
    pub rattr: PAttr,
    pub nlocals: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub text_start: usize,
    pub text_end: usize,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub big: bool,
    pub ptr_bits: u32,
    pub ptr_align: u64,
    pub int_align: HashMap<u32, u64>, // bits -> bytes
    pub vec_align: HashMap<u32, u64>,
}

impl Layout {
    fn parse(s: &str) -> Layout {
        let mut l = Layout {
            big: false,
            ptr_bits: 64,
            ptr_align: 8,
            int_align: [(1, 1), (8, 1), (16, 2), (32, 4), (64, 4)].into_iter().collect(),
            vec_align: HashMap::new(),
        };
        for p in s.split('-') {
            if p == "E" {
                l.big = true;
            } else if p == "e" {
                l.big = false;
            } else if let Some(r) = p.strip_prefix("p:").or_else(|| p.strip_prefix("p0:")) {
                let v: Vec<u64> = r.split(':').filter_map(|x| x.parse().ok()).collect();
                l.ptr_bits = v[0] as u32;
                l.ptr_align = v.get(1).copied().unwrap_or(v[0]) / 8;
            } else if p.starts_with('i') && p.as_bytes().get(1).is_some_and(|c| c.is_ascii_digit()) {
                let v: Vec<u64> = p[1..].split(':').filter_map(|x| x.parse().ok()).collect();
                if v.len() >= 2 {
                    l.int_align.insert(v[0] as u32, v[1] / 8);
                }
            } else if p.starts_with('v') && p.as_bytes().get(1).is_some_and(|c| c.is_ascii_digit()) {
                let v: Vec<u64> = p[1..].split(':').filter_map(|x| x.parse().ok()).collect();
                if v.len() >= 2 {
                    l.vec_align.insert(v[0] as u32, v[1] / 8);
                }
            }
        }
        l
    }
    pub fn size_bits(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(n) => *n as u64,
            Ty::Ptr => self.ptr_bits as u64,
            Ty::Float(n) => *n as u64,
            Ty::Vec(n, e) => *n as u64 * self.size_bits(e),
            _ => self.size(t) * 8,
        }
    }
    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(n) => {
                let mut best: Option<(u32, u64)> = None;
                let mut largest = (0, 1);
                for (&k, &a) in &self.int_align {
                    if k >= *n && best.map_or(true, |b| k < b.0) {
                        best = Some((k, a));
                    }
                    if k > largest.0 {
                        largest = (k, a);
                    }
                }
                best.unwrap_or(largest).1.max(1)
            }
            Ty::Ptr => self.ptr_align,
            Ty::Float(32) => 4,
            Ty::Float(64) => *self.int_align.get(&64).unwrap_or(&8),
            Ty::Float(_) => 16,
            Ty::Vec(n, e) => {
                let b = *n as u64 * self.size_bits(e);
                *self.vec_align.get(&(b as u32)).unwrap_or(&(b / 8).next_power_of_two())
            }
            Ty::Arr(_, e) => self.align(e),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| self.align(t)).max().unwrap_or(1)
                }
            }
            Ty::Void | Ty::Opaque => 1,
        }
    }
    /// Store size in bytes for scalars, alloc size for aggregates.
    pub fn store_size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Vec(..) => self.size_bits(t).div_ceil(8),
            _ => self.size(t),
        }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Vec(..) => {
                let s = self.size_bits(t).div_ceil(8);
                let a = self.align(t);
                s.div_ceil(a) * a
            }
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = self.align(t);
                        o = o.div_ceil(a) * a;
                    }
                    o += self.size(t);
                }
                let a = self.align(t);
                o.div_ceil(a) * a
            }
            Ty::Void | Ty::Opaque => 0,
        }
    }
    pub fn field_off(&self, f: &[Ty], packed: bool, i: usize) -> u64 {
        let mut o = 0u64;
        for (k, t) in f.iter().enumerate() {
            if !packed {
                let a = self.align(t);
                o = o.div_ceil(a) * a;
            }
            if k == i {
                return o;
            }
            o += self.size(t);
        }
        o
    }
}

pub struct Module {
    pub layout: Layout,
    pub triple: String,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: HashMap<String, Rc<Func>>,
    pub asms: Vec<AsmDef>,
    pub ranges: HashMap<u32, Vec<(u128, u128)>>,
    pub attr_groups: HashMap<u32, String>,
    pub module_asm: bool,
}

// ------------------------------------------------------------------------------------------------ tokenizer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),    // bare word or number
    Loc(String),   // %x
    Glob(String),  // @x
    Str(String),   // "..." (unescaped bytes as latin1)
    CStr(Vec<u8>), // c"..."
    Meta(String),  // !x
    Attr(u32),     // #1
    P(char),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            if i + 2 < s.len() {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap_or("");
                if let Ok(v) = u8::from_str_radix(h, 16) {
                    o.push(v);
                    i += 3;
                    continue;
                }
            }
        }
        o.push(s[i]);
        i += 1;
    }
    o
}

pub fn tokenize(s: &str) -> R<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: usize| -> R<(Vec<u8>, usize)> {
        // b[i] == '"'
        let mut j = i + 1;
        while j < b.len() && b[j] != b'"' {
            j += 1;
        }
        if j >= b.len() {
            return Err(format!("unterminated string in {s}"));
        }
        Ok((unescape(&b[i + 1..j]), j + 1))
    };
    let lat = |v: Vec<u8>| -> String { String::from_utf8(v.clone()).unwrap_or_else(|_| v.iter().map(|&c| c as char).collect()) };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (v, j) = quoted(i + 1)?;
                    name = lat(v);
                    i = j;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tok::Attr(s[i + 1..j].parse().map_err(|_| format!("bad attr in {s}"))?));
                i = j;
            }
            b'"' => {
                let (v, j) = quoted(i)?;
                out.push(Tok::Str(lat(v)));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, j) = quoted(i + 1)?;
                out.push(Tok::CStr(v));
                i = j;
            }
            _ if isid(c) => {
                let mut j = i;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    Ok(out)
}

struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
    locals: Option<&'a mut LocalMap>,
    line: &'a str,
}

#[derive(Default)]
struct LocalMap {
    m: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl LocalMap {
    fn get(&mut self, n: &str) -> u32 {
        let k = self.m.len() as u32;
        *self.m.entry(n.to_string()).or_insert(k)
    }
}

const SIMPLE_ATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext", "inreg", "returned",
    "immarg", "nofree", "nest", "dead_on_unwind", "writable", "swiftself", "noext", "dead_on_return",
];
const PAREN_ATTRS: &[&str] = &[
    "dereferenceable", "dereferenceable_or_null", "captures", "range", "sret", "byval", "initializes", "elementtype", "nofpclass", "align",
    "dead_on_return",
];

impl<'a> Cur<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{m} at token {} {:?} of: {}", self.i, self.t.get(self.i), self.line))
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        match self.t.get(self.i) {
            Some(t) => {
                self.i += 1;
                Ok(t.clone())
            }
            None => self.err("unexpected end"),
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{c}'"))
        }
    }
    fn skip_parens(&mut self) -> R<Vec<Tok>> {
        self.expect_p('(')?;
        let mut d = 1;
        let mut v = vec![];
        while d > 0 {
            let t = self.next()?;
            match &t {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
            if d > 0 {
                v.push(t);
            }
        }
        Ok(v)
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "half" | "bfloat" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "fp128" | "ppc_fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "metadata" | "label" | "token" => Ty::Opaque,
                s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
                _ => {
                    self.i -= 1;
                    return self.err("unknown type");
                }
            },
            Tok::Loc(n) => match self.types.get(&n) {
                Some(t) => t.clone(),
                None => return self.err("unknown named type"),
            },
            Tok::P('{') => Ty::Struct(Rc::new(self.ty_list('}')?), false),
            Tok::P('[') => {
                let n = self.num()? as u64;
                if !self.eat_id("x") {
                    return self.err("expected x");
                }
                let e = self.ty()?;
                self.expect_p(']')?;
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let l = self.ty_list('}')?;
                    self.expect_p('>')?;
                    Ty::Struct(Rc::new(l), true)
                } else {
                    let n = self.num()? as u32;
                    if !self.eat_id("x") {
                        return self.err("expected x");
                    }
                    let e = self.ty()?;
                    self.expect_p('>')?;
                    Ty::Vec(n, Rc::new(e))
                }
            }
            _ => {
                self.i -= 1;
                return self.err("type expected");
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.expect_p(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Id(s) => parse_int(&s).ok_or(()).or_else(|_| {
                self.i -= 1;
                self.err("number expected")
            }),
            _ => {
                self.i -= 1;
                self.err("number expected")
            }
        }
    }
    fn constant(&mut self, ty: &Ty) -> R<Const> {
        Ok(match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" => Const::Int(0),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    self.expect_p('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    self.expect_p(')')?;
                    match ty {
                        Ty::Vec(n, _) => Const::Agg((0..*n).map(|_| (t.clone(), c.clone())).collect()),
                        _ => return self.err("splat"),
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(x)) if ["inbounds","nuw","nusw"].contains(&x.as_str())) {
                        self.i += 1;
                    }
                    self.expect_p('(')?;
                    let t = self.ty()?;
                    self.expect_p(',')?;
                    let bt = self.ty()?;
                    let b = self.constant(&bt)?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        idx.push((it.clone(), self.constant(&it)?));
                    }
                    self.expect_p(')')?;
                    Const::Gep(Box::new((bt, b)), t, idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.expect_p('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    if !self.eat_id("to") {
                        return self.err("expected to");
                    }
                    self.ty()?;
                    self.expect_p(')')?;
                    Const::Cast(Box::new((t, c)))
                }
                "sub" => {
                    while matches!(self.peek(), Some(Tok::Id(x)) if ["nuw","nsw"].contains(&x.as_str())) {
                        self.i += 1;
                    }
                    self.expect_p('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    self.expect_p(',')?;
                    let t2 = self.ty()?;
                    let c2 = self.constant(&t2)?;
                    self.expect_p(')')?;
                    Const::Sub(Box::new((t, c)), Box::new((t2, c2)))
                }
                _ => {
                    if let Ty::Float(n) = ty {
                        // decimal floats or hex forms
                        if let Some(h) = s.strip_prefix("0x") {
                            let h = h.trim_start_matches(|c: char| "KLMHR".contains(c));
                            let v = u128::from_str_radix(h, 16).map_err(|_| format!("float {s}"))?;
                            if *n == 32 {
                                Const::Int((f64::from_bits(v as u64) as f32).to_bits() as u128)
                            } else {
                                Const::Int(v)
                            }
                        } else {
                            let v: f64 = s.parse().map_err(|_| format!("float {s}"))?;
                            Const::Int(if *n == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
                        }
                    } else if let Some(v) = parse_int(&s) {
                        let m = match ty {
                            Ty::Int(n) if *n < 128 => (1u128 << n) - 1,
                            _ => u128::MAX,
                        };
                        Const::Int(v as u128 & m)
                    } else if let Some(v) = s.parse::<u128>().ok() {
                        Const::Int(v)
                    } else {
                        self.i -= 1;
                        return self.err("constant expected");
                    }
                }
            },
            Tok::Glob(g) => Const::Global(g),
            Tok::CStr(b) => Const::Bytes(b),
            Tok::P('{') => Const::Agg(self.const_list('}')?),
            Tok::P('[') => Const::Agg(self.const_list(']')?),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let l = self.const_list('}')?;
                    self.expect_p('>')?;
                    Const::Agg(l)
                } else {
                    Const::Agg(self.const_list('>')?)
                }
            }
            _ => {
                self.i -= 1;
                return self.err("constant expected");
            }
        })
    }
    fn const_list(&mut self, end: char) -> R<Vec<(Ty, Const)>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.constant(&t)?;
            v.push((t, c));
            if self.eat_p(end) {
                return Ok(v);
            }
            self.expect_p(',')?;
        }
    }
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Some(Tok::Loc(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::Local(self.locals.as_mut().unwrap().get(&n)));
        }
        Ok(Opd::Const(self.constant(ty)?))
    }
    fn label(&mut self) -> R<u32> {
        match self.next()? {
            Tok::Loc(n) => self.locals.as_ref().unwrap().labels.get(&n).copied().ok_or_else(|| format!("label {n} in {}", self.line)),
            _ => self.err("label expected"),
        }
    }
    fn pattrs(&mut self) -> R<PAttr> {
        let mut a = PAttr::default();
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if SIMPLE_ATTRS.contains(&s.as_str()) && !matches!(self.t.get(self.i + 1), Some(Tok::P('('))) {
                        self.i += 1;
                        if s == "noundef" {
                            a.noundef = true;
                        }
                        if s == "nonnull" {
                            a.nonnull = true;
                        }
                    } else if PAREN_ATTRS.contains(&s.as_str()) {
                        self.i += 1;
                        if self.is_p('(') {
                            let v = self.skip_parens()?;
                            if s == "range" {
                                // iN lo , hi
                                let w = match &v[0] {
                                    Tok::Id(w) => w[1..].parse::<u32>().unwrap_or(64),
                                    _ => 64,
                                };
                                let g = |t: &Tok| match t {
                                    Tok::Id(x) => parse_int(x).unwrap_or(0) as u128,
                                    _ => 0,
                                };
                                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                                a.range = Some((g(&v[1]) & m, g(&v[3]) & m));
                            }
                        } else {
                            self.i += 1; // align N
                        }
                    } else {
                        return Ok(a);
                    }
                }
                Some(Tok::Str(_)) => {
                    // string attribute "k"="v"
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(a),
            }
        }
    }
}

fn parse_int(s: &str) -> Option<i128> {
    if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).ok().map(|x| x as i128);
    }
    s.parse::<i128>().ok().or_else(|| s.parse::<u128>().ok().map(|x| x as i128))
}

// ------------------------------------------------------------------------------------------------ module
pub fn parse_module(text: &str) -> R<Module> {
    let mut m = Module {
        layout: Layout::parse(""),
        triple: String::new(),
        types: HashMap::new(),
        globals: vec![],
        funcs: HashMap::new(),
        asms: vec![],
        ranges: HashMap::new(),
        attr_groups: HashMap::new(),
        module_asm: false,
    };
    let lines: Vec<&str> = text.lines().collect();
    // named types may refer to later ones: iterate
    let tdefs: Vec<(String, Vec<Tok>, &str)> = lines
        .iter()
        .filter(|l| l.starts_with('%') && l.contains(" = type "))
        .map(|l| {
            let t = tokenize(l)?;
            match &t[0] {
                Tok::Loc(n) => Ok((n.clone(), t[3..].to_vec(), *l)),
                _ => Err(format!("type line {l}")),
            }
        })
        .collect::<R<_>>()?;
    let mut left: Vec<usize> = (0..tdefs.len()).collect();
    while !left.is_empty() {
        let n0 = left.len();
        let mut rest = vec![];
        for i in left {
            let (n, t, l) = &tdefs[i];
            if matches!(&t[0], Tok::Id(x) if x == "opaque") {
                m.types.insert(n.clone(), Ty::Opaque);
                continue;
            }
            let r = Cur { t, i: 0, types: &m.types, locals: None, line: l }.ty();
            match r {
                Ok(ty) => {
                    m.types.insert(n.clone(), ty);
                }
                Err(_) => rest.push(i),
            }
        }
        if rest.len() == n0 {
            return Err(format!("cannot resolve type {}", tdefs[rest[0]].2));
        }
        left = rest;
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("target datalayout") {
            m.layout = Layout::parse(l.split('"').nth(1).unwrap_or(""));
        } else if l.starts_with("target triple") {
            m.triple = l.split('"').nth(1).unwrap_or("").to_string();
        } else if l.starts_with("module asm") {
            m.module_asm = true;
        } else if l.starts_with('@') {
            parse_global(&mut m, l)?;
        } else if l.starts_with("attributes #") {
            let t = &l["attributes #".len()..];
            let n: u32 = t.split(' ').next().unwrap().parse().map_err(|_| format!("attr {l}"))?;
            m.attr_groups.insert(n, t.to_string());
        } else if l.starts_with('!') {
            parse_meta(&mut m, l);
        } else if l.starts_with("define") {
            let mut j = i + 1;
            while lines[j] != "}" {
                j += 1;
            }
            let f = parse_func(&mut m, &lines[i..j], i, j)?;
            m.funcs.insert(f.name.clone(), Rc::new(f));
            i = j;
        }
        i += 1;
    }
    // attach attribute group text to asm calls
    for a in &mut m.asms {
        let mut s = String::new();
        for w in a.attrs.split_whitespace() {
            if let Some(n) = w.strip_prefix('#').and_then(|x| x.parse::<u32>().ok()) {
                s.push_str(m.attr_groups.get(&n).map(|x| x.as_str()).unwrap_or(""));
            } else {
                s.push_str(w);
            }
            s.push(' ');
        }
        a.attrs = s;
    }
    Ok(m)
}

fn parse_meta(m: &mut Module, l: &str) {
    // !N = !{i64 0, i64 2}
    let Ok(t) = tokenize(l) else { return };
    if let (Some(Tok::Meta(n)), Some(Tok::P('=')), Some(Tok::Meta(_)), Some(Tok::P('{'))) = (t.first(), t.get(1), t.get(2), t.get(3)) {
        let Ok(n) = n.parse::<u32>() else { return };
        let mut v = vec![];
        let mut k = 4;
        while k + 1 < t.len() {
            if let (Tok::Id(w), Tok::Id(x)) = (&t[k], &t[k + 1]) {
                if let (Some(w), Some(x)) = (w.strip_prefix('i').and_then(|w| w.parse::<u32>().ok()), parse_int(x)) {
                    let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    v.push(x as u128 & mask);
                    k += 3;
                    continue;
                }
            }
            return;
        }
        if v.len() >= 2 && v.len() % 2 == 0 {
            m.ranges.insert(n, v.chunks(2).map(|c| (c[0], c[1])).collect());
        }
    }
}

fn parse_global(m: &mut Module, l: &str) -> R<()> {
    let t = tokenize(l)?;
    let name = match &t[0] {
        Tok::Glob(n) => n.clone(),
        _ => return Err(format!("global {l}")),
    };
    let mut k = 2;
    let mut external = false;
    let constant;
    loop {
        match t.get(k) {
            Some(Tok::Id(s)) if s == "global" || s == "constant" => {
                constant = s == "constant";
                k += 1;
                break;
            }
            Some(Tok::Id(s)) if s == "alias" || s == "ifunc" => return Ok(()),
            Some(Tok::Id(s)) => {
                if s == "external" || s == "extern_weak" {
                    external = true;
                }
                k += 1;
            }
            Some(_) => k += 1,
            None => return Err(format!("global {l}")),
        }
    }
    let mut c = Cur { t: &t, i: k, types: &m.types, locals: None, line: l };
    let ty = c.ty()?;
    let init = if external { None } else { Some(c.constant(&ty)?) };
    let mut align = 1;
    while c.i < t.len() {
        if c.is_id("align") {
            c.i += 1;
            align = c.num()? as u64;
        } else {
            c.i += 1;
        }
    }
    m.globals.push(Global { name, ty, init, align, constant });
    Ok(())
}

fn parse_func(m: &mut Module, lines: &[&str], ls: usize, le: usize) -> R<Func> {
    let hdr = tokenize(lines[0].trim_end_matches('{'))?;
    let types = m.types.clone();
    let mut lm = LocalMap::default();
    let mut c = Cur { t: &hdr, i: 1, types: &types, locals: None, line: lines[0] };
    // skip linkage etc. until a type parses
    let skip = [
        "internal", "private", "dso_local", "hidden", "protected", "default", "weak", "weak_odr", "linkonce_odr", "linkonce",
        "external", "fastcc", "ccc", "coldcc", "available_externally", "dllexport", "avr_signalcc", "avr_intrcc", "msp430_intrcc",
        "arm_aapcscc", "arm_apcscc", "arm_aapcs_vfpcc", "tailcc", "noundef",
    ];
    let mut rattr = PAttr::default();
    loop {
        match c.peek() {
            Some(Tok::Id(s)) if s == "noundef" => {
                rattr.noundef = true;
                c.i += 1;
            }
            Some(Tok::Id(s)) if s == "cc" => c.i += 2,
            Some(Tok::Id(s)) if skip.contains(&s.as_str()) => c.i += 1,
            Some(Tok::Id(s)) if SIMPLE_ATTRS.contains(&s.as_str()) || PAREN_ATTRS.contains(&s.as_str()) => {
                let a = c.pattrs()?;
                rattr.noundef |= a.noundef;
                rattr.range = rattr.range.or(a.range);
            }
            _ => break,
        }
    }
    let ret = c.ty()?;
    let name = match c.next()? {
        Tok::Glob(n) => n,
        _ => return c.err("function name"),
    };
    c.expect_p('(')?;
    let mut params = vec![];
    if !c.eat_p(')') {
        loop {
            let t = c.ty()?;
            let a = c.pattrs()?;
            if let Some(Tok::Loc(n)) = c.peek() {
                let k = lm.get(&n.clone());
                debug_assert_eq!(k as usize, params.len());
                c.i += 1;
            }
            params.push((t, a));
            if c.eat_p(')') {
                break;
            }
            c.expect_p(',')?;
            if c.is_p('.') || c.is_id("...") {
                break;
            }
        }
    }
    // pass 1: labels
    let mut joined: Vec<String> = vec![];
    let mut k = 1;
    while k < lines.len() {
        let l = lines[k];
        let tr = l.trim_start();
        if tr.is_empty() || tr.starts_with(';') {
            k += 1;
            continue;
        }
        if tr.starts_with("switch ") && !tr.contains(']') {
            let mut s = l.to_string();
            loop {
                k += 1;
                s.push(' ');
                s.push_str(lines[k].trim());
                if lines[k].trim_start().starts_with(']') {
                    break;
                }
            }
            joined.push(s);
        } else {
            joined.push(l.to_string());
        }
        k += 1;
    }
    let mut nblk = 0u32;
    let mut is_label = vec![false; joined.len()];
    for (k, l) in joined.iter().enumerate() {
        if !l.starts_with(' ') {
            // label: `name:` or "quoted":
            let lab = l.split(';').next().unwrap().trim();
            if let Some(x) = lab.strip_suffix(':') {
                lm.labels.insert(x.trim_matches('"').to_string(), nblk);
                nblk += 1;
                is_label[k] = true;
                continue;
            }
            return Err(format!("unexpected line in function: {l}"));
        } else if k == 0 {
            lm.labels.insert("".into(), 0);
            nblk += 1;
        }
    }
    let mut blocks: Vec<Vec<Inst>> = vec![];
    if !is_label.first().copied().unwrap_or(false) {
        blocks.push(vec![]);
    }
    for (k, l) in joined.iter().enumerate() {
        if is_label[k] {
            blocks.push(vec![]);
            continue;
        }
        let toks = tokenize(l)?;
        if toks.is_empty() {
            continue;
        }
        let inst = parse_inst(m, &types, &toks, &mut lm, l, &name)?;
        if let Some(inst) = inst {
            blocks.last_mut().unwrap().push(inst);
        }
    }
    Ok(Func { name, params, ret, rattr, nlocals: lm.m.len() as u32, blocks, text_start: ls, text_end: le })
}

fn parse_inst(m: &mut Module, types: &HashMap<String, Ty>, toks: &[Tok], lm: &mut LocalMap, line: &str, fname: &str) -> R<Option<Inst>> {
    let mut c = Cur { t: toks, i: 0, types, locals: Some(lm), line };
    let mut dst = None;
    if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (c.t.first(), c.t.get(1)) {
        let n = n.clone();
        dst = Some(c.locals.as_mut().unwrap().get(&n));
        c.i = 2;
    }
    let op = match c.next()? {
        Tok::Id(s) => s,
        _ => return c.err("opcode"),
    };
    let d = || dst.ok_or_else(|| format!("no dst: {line}"));
    let flags = |c: &mut Cur, fs: &[&str]| -> Vec<String> {
        let mut v = vec![];
        while let Some(Tok::Id(x)) = c.peek() {
            if fs.contains(&x.as_str()) {
                v.push(x.clone());
                c.i += 1;
            } else {
                break;
            }
        }
        v
    };
    let bin = |s: &str| -> Option<Bin> {
        Some(match s {
            "add" => Bin::Add,
            "sub" => Bin::Sub,
            "mul" => Bin::Mul,
            "udiv" => Bin::UDiv,
            "sdiv" => Bin::SDiv,
            "urem" => Bin::URem,
            "srem" => Bin::SRem,
            "shl" => Bin::Shl,
            "lshr" => Bin::LShr,
            "ashr" => Bin::AShr,
            "and" => Bin::And,
            "or" => Bin::Or,
            "xor" => Bin::Xor,
            _ => return None,
        })
    };
    if let Some(b) = bin(&op) {
        let f = flags(&mut c, &["nuw", "nsw", "exact", "disjoint"]);
        let ty = c.ty()?;
        let a = c.opd(&ty)?;
        c.expect_p(',')?;
        let bb = c.opd(&ty)?;
        return Ok(Some(Inst::Bin {
            dst: d()?,
            op: b,
            ty,
            a,
            b: bb,
            nuw: f.iter().any(|x| x == "nuw"),
            nsw: f.iter().any(|x| x == "nsw"),
            exact: f.iter().any(|x| x == "exact"),
        }));
    }
    let ord_of = |c: &Cur| -> String {
        let mut s = String::new();
        for t in &c.t[c.i..] {
            if let Tok::Id(x) = t {
                if ["unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"].contains(&x.as_str()) {
                    if !s.is_empty() {
                        s.push(' ');
                    }
                    s.push_str(x);
                }
            }
        }
        s
    };
    Ok(Some(match op.as_str() {
        "alloca" => {
            let ty = c.ty()?;
            let mut align = 1;
            let mut n = 1u64;
            while c.eat_p(',') {
                if c.eat_id("align") {
                    align = c.num()? as u64;
                } else if c.is_id("addrspace") {
                    c.i += 1;
                    c.skip_parens()?;
                } else {
                    c.ty()?;
                    n = c.num()? as u64;
                }
            }
            Inst::Alloca { dst: d()?, size: m.layout.size(&ty) * n, align }
        }
        "load" => {
            let f = flags(&mut c, &["atomic", "volatile"]);
            let ty = c.ty()?;
            c.expect_p(',')?;
            let pt = c.ty()?;
            let ptr = c.opd(&pt)?;
            let ord = ord_of(&c);
            let mut noundef = false;
            let mut range = None;
            let mut k = c.i;
            while k < c.t.len() {
                if let Tok::Meta(x) = &c.t[k] {
                    if x == "noundef" {
                        noundef = true;
                    }
                    if x == "range" {
                        if let Some(Tok::Meta(n)) = c.t.get(k + 1) {
                            range = n.parse().ok();
                        }
                    }
                }
                k += 1;
            }
            Inst::Load { dst: d()?, ty, ptr, noundef, range, atomic: if f.iter().any(|x| x == "atomic") { Some(ord) } else { None }, volatile: f.iter().any(|x| x == "volatile") }
        }
        "store" => {
            let f = flags(&mut c, &["atomic", "volatile"]);
            let ty = c.ty()?;
            let val = c.opd(&ty)?;
            c.expect_p(',')?;
            let pt = c.ty()?;
            let ptr = c.opd(&pt)?;
            let ord = ord_of(&c);
            Inst::Store { ty, val, ptr, atomic: if f.iter().any(|x| x == "atomic") { Some(ord) } else { None }, volatile: f.iter().any(|x| x == "volatile") }
        }
        "getelementptr" => {
            flags(&mut c, &["inbounds", "nuw", "nusw"]);
            let ty = c.ty()?;
            c.expect_p(',')?;
            let bt = c.ty()?;
            let base = c.opd(&bt)?;
            let mut idx = vec![];
            while c.eat_p(',') {
                if matches!(c.peek(), Some(Tok::Meta(_))) {
                    break;
                }
                let it = c.ty()?;
                let o = c.opd(&it)?;
                idx.push((it, o));
            }
            Inst::Gep { dst: d()?, base, ty, idx }
        }
        "icmp" => {
            flags(&mut c, &["samesign"]);
            let p = match c.next()? {
                Tok::Id(s) => match s.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return c.err("pred"),
                },
                _ => return c.err("pred"),
            };
            let ty = c.ty()?;
            let a = c.opd(&ty)?;
            c.expect_p(',')?;
            let b = c.opd(&ty)?;
            Inst::Icmp { dst: d()?, p, ty, a, b }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
            flags(&mut c, &["nuw", "nsw", "nneg"]);
            let from = c.ty()?;
            let v = c.opd(&from)?;
            if !c.eat_id("to") {
                return c.err("to");
            }
            let to = c.ty()?;
            let op = match op.as_str() {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                "inttoptr" => CastOp::IntToPtr,
                _ => CastOp::Bitcast,
            };
            Inst::Cast { dst: d()?, op, from, v, to }
        }
        "select" => {
            let ct = c.ty()?;
            let cc = c.opd(&ct)?;
            c.expect_p(',')?;
            let t = c.ty()?;
            let a = c.opd(&t)?;
            c.expect_p(',')?;
            let t2 = c.ty()?;
            let b = c.opd(&t2)?;
            Inst::Select { dst: d()?, c: cc, cty: ct, ty: t, a, b }
        }
        "extractvalue" => {
            let t = c.ty()?;
            let v = c.opd(&t)?;
            let mut idx = vec![];
            while c.eat_p(',') {
                if matches!(c.peek(), Some(Tok::Meta(_))) {
                    break;
                }
                idx.push(c.num()? as u32);
            }
            Inst::ExtractVal { dst: d()?, ty: t, v, idx }
        }
        "insertvalue" => {
            let t = c.ty()?;
            let v = c.opd(&t)?;
            c.expect_p(',')?;
            let et = c.ty()?;
            let e = c.opd(&et)?;
            let mut idx = vec![];
            while c.eat_p(',') {
                if matches!(c.peek(), Some(Tok::Meta(_))) {
                    break;
                }
                idx.push(c.num()? as u32);
            }
            Inst::InsertVal { dst: d()?, ty: t, v, ety: et, e, idx }
        }
        "extractelement" => {
            let t = c.ty()?;
            let v = c.opd(&t)?;
            c.expect_p(',')?;
            let it = c.ty()?;
            let i = c.opd(&it)?;
            Inst::ExtractEl { dst: d()?, ty: t, v, ity: it, i }
        }
        "insertelement" => {
            let t = c.ty()?;
            let v = c.opd(&t)?;
            c.expect_p(',')?;
            let et = c.ty()?;
            let e = c.opd(&et)?;
            c.expect_p(',')?;
            let it = c.ty()?;
            let i = c.opd(&it)?;
            Inst::InsertEl { dst: d()?, ty: t, v, e, ity: it, i }
        }
        "freeze" => {
            let t = c.ty()?;
            let v = c.opd(&t)?;
            Inst::Freeze { dst: d()?, ty: t, v }
        }
        "phi" => {
            let t = c.ty()?;
            let mut inc = vec![];
            loop {
                c.expect_p('[')?;
                let v = c.opd(&t)?;
                c.expect_p(',')?;
                let l = c.label()?;
                c.expect_p(']')?;
                inc.push((v, l));
                if !c.eat_p(',') || matches!(c.peek(), Some(Tok::Meta(_))) {
                    break;
                }
            }
            Inst::Phi { dst: d()?, ty: t, inc }
        }
        "br" => {
            if c.eat_id("label") {
                Inst::Br(c.label()?)
            } else {
                let t = c.ty()?;
                let v = c.opd(&t)?;
                c.expect_p(',')?;
                c.eat_id("label");
                let a = c.label()?;
                c.expect_p(',')?;
                c.eat_id("label");
                let b = c.label()?;
                Inst::CondBr(v, a, b)
            }
        }
        "switch" => {
            let t = c.ty()?;
            let v = c.opd(&t)?;
            c.expect_p(',')?;
            c.eat_id("label");
            let d = c.label()?;
            c.expect_p('[')?;
            let mut cases = vec![];
            while !c.eat_p(']') {
                let ct = c.ty()?;
                let k = match c.constant(&ct)? {
                    Const::Int(v) => v,
                    _ => return c.err("case"),
                };
                c.expect_p(',')?;
                c.eat_id("label");
                let l = c.label()?;
                cases.push((k, l));
            }
            Inst::Switch { ty: t, v, default: d, cases }
        }
        "ret" => {
            let t = c.ty()?;
            if t == Ty::Void {
                Inst::Ret(None)
            } else {
                let v = c.opd(&t)?;
                Inst::Ret(Some((t, v)))
            }
        }
        "unreachable" => Inst::Unreachable,
        "fence" => Inst::Fence(ord_of(&c)),
        "atomicrmw" => {
            flags(&mut c, &["volatile"]);
            let o = match c.next()? {
                Tok::Id(s) => s,
                _ => return c.err("rmw"),
            };
            let pt = c.ty()?;
            let ptr = c.opd(&pt)?;
            c.expect_p(',')?;
            let t = c.ty()?;
            let v = c.opd(&t)?;
            Inst::Rmw { dst: d()?, op: o, ptr, ty: t, v, ord: ord_of(&c) }
        }
        "cmpxchg" => {
            let f = flags(&mut c, &["weak", "volatile"]);
            let pt = c.ty()?;
            let ptr = c.opd(&pt)?;
            c.expect_p(',')?;
            let t = c.ty()?;
            let cmp = c.opd(&t)?;
            c.expect_p(',')?;
            c.ty()?;
            let new = c.opd(&t)?;
            Inst::Cmpxchg { dst: d()?, ptr, ty: t, cmp, new, weak: f.iter().any(|x| x == "weak"), ord: ord_of(&c) }
        }
        "call" | "tail" | "musttail" | "notail" | "invoke" | "callbr" => {
            if op == "invoke" || op == "callbr" {
                return Ok(Some(Inst::Unsupported(line.to_string())));
            }
            if op != "call" {
                c.eat_id("call");
            }
            let mut rattr = PAttr::default();
            loop {
                match c.peek() {
                    Some(Tok::Id(s)) if ["fastcc", "ccc", "coldcc", "arm_aapcscc", "arm_apcscc", "arm_aapcs_vfpcc"].contains(&s.as_str()) => c.i += 1,
                    Some(Tok::Id(s)) if s == "cc" => c.i += 2,
                    Some(Tok::Id(s)) if s == "addrspace" => {
                        c.i += 1;
                        c.skip_parens()?;
                    }
                    Some(Tok::Id(s)) if SIMPLE_ATTRS.contains(&s.as_str()) || PAREN_ATTRS.contains(&s.as_str()) => {
                        let a = c.pattrs()?;
                        rattr.noundef |= a.noundef;
                        rattr.range = rattr.range.or(a.range);
                    }
                    _ => break,
                }
            }
            let ret = c.ty()?;
            // possible function type
            if c.is_p('(') {
                c.skip_parens()?;
            }
            enum Cal {
                G(String),
                P(Opd),
                A(String, String, bool, bool, bool),
            }
            let callee = if c.eat_id("asm") {
                let f = flags(&mut c, &["sideeffect", "alignstack", "inteldialect", "unwind"]);
                let s1 = match c.next()? {
                    Tok::Str(s) => s,
                    _ => return c.err("asm string"),
                };
                c.expect_p(',')?;
                let s2 = match c.next()? {
                    Tok::Str(s) => s,
                    _ => return c.err("asm string"),
                };
                let has = |x: &str| f.iter().any(|y| y == x);
                Cal::A(s1, s2, has("inteldialect"), has("sideeffect"), has("alignstack"))
            } else {
                match c.peek() {
                    Some(Tok::Glob(g)) => {
                        let g = g.clone();
                        c.i += 1;
                        Cal::G(g)
                    }
                    _ => Cal::P(c.opd(&Ty::Ptr)?),
                }
            };
            c.expect_p('(')?;
            let mut args = vec![];
            if !c.eat_p(')') {
                loop {
                    let t = c.ty()?;
                    let a = c.pattrs()?;
                    if t == Ty::Opaque {
                        // metadata operand: skip to , or )
                        let mut dep = 0;
                        while let Some(tk) = c.peek() {
                            match tk {
                                Tok::P('(') => dep += 1,
                                Tok::P(')') if dep == 0 => break,
                                Tok::P(')') => dep -= 1,
                                Tok::P(',') if dep == 0 => break,
                                _ => {}
                            }
                            c.i += 1;
                        }
                    } else {
                        let v = c.opd(&t)?;
                        args.push((t, a, v));
                    }
                    if c.eat_p(')') {
                        break;
                    }
                    c.expect_p(',')?;
                }
            }
            let mut attrs = String::new();
            while let Some(t) = c.peek() {
                match t {
                    Tok::Attr(n) => attrs.push_str(&format!(" #{n}")),
                    Tok::Id(s) => attrs.push_str(&format!(" {s}")),
                    Tok::P(x) if *x == '(' || *x == ')' => attrs.push(*x),
                    Tok::P(',') => break,
                    _ => {}
                }
                c.i += 1;
            }
            match callee {
                Cal::A(t, cs, intel, se, al) => {
                    let id = m.asms.len();
                    m.asms.push(AsmDef {
                        template: t,
                        constraints: cs,
                        intel,
                        sideeffect: se,
                        alignstack: al,
                        attrs,
                        ret: ret.clone(),
                        args: args.iter().map(|a| a.0.clone()).collect(),
                        func: fname.to_string(),
                    });
                    Inst::Asm { dst, asm: id, args }
                }
                Cal::G(g) => Inst::Call { dst, ret, rattr, callee: g, args },
                Cal::P(o) => Inst::CallPtr { dst, ret, callee: o, args },
            }
        }
        _ => Inst::Unsupported(line.to_string()),
    }))
}
