//! Lazy parser for textual LLVM IR (as printed by the LLVM that ships with rustc).
use crate::expr::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    F16,
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    St(Vec<Ty>, bool),
    Vec(u64, Rc<Ty>),
    Meta,
}
impl Ty {
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(n) => *n, Ty::F16 => 16, Ty::F32 => 32, Ty::F64 => 64, Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn scalar(&self) -> bool { matches!(self, Ty::I(_) | Ty::F16 | Ty::F32 | Ty::F64 | Ty::Ptr) }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::I(n) => { let b = ((*n as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::F16 => 2, Ty::F32 => 4, Ty::F64 => 8, Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::St(v, p) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.store_size().next_power_of_two(),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::I(n) => (*n as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::I(_) | Ty::Vec(..) => { let a = self.align(); (self.store_size() + a - 1) / a * a }
            Ty::F16 => 2, Ty::F32 => 4, Ty::F64 => 8, Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(v, p) => {
                let mut o = 0;
                for t in v { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::St(v, p) => {
                let mut o = 0;
                for (j, t) in v.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o; }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self { Ty::St(v, _) => &v[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("elem of {:?}", self) }
    }
    pub fn nelem(&self) -> usize {
        match self { Ty::St(v, _) => v.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => panic!("nelem") }
    }
    pub fn zero(&self) -> Val {
        if self.scalar() { return Val::C(0); }
        match self {
            Ty::St(..) | Ty::Arr(..) | Ty::Vec(..) => Val::A(Rc::new((0..self.nelem()).map(|i| self.elem(i).zero()).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), V(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, Bitcast, Fptosi, Fptoui, Sitofp, Uitofp, Fpext, Fptrunc, Same }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Debug)]
pub enum Callee { Fn(u32), Reg(Opd), Asm }

#[derive(Debug)]
pub enum I {
    Bin(B, Ty, Opd, Opd),
    FBin(F, Ty, Opd, Opd),
    FRem(Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(String, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64, Opd, u32),
    Call { callee: Callee, args: Vec<Opd>, tys: Vec<Ty>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractV(Opd, Vec<u32>),
    InsertV(Opd, Opd, Vec<u32>),
    ExtractE(Opd, Opd),
    InsertE(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i32>, usize),
    Rmw(Rmw, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Move(Opd),
    Nop,
    Unwind,
}

pub struct Inst { pub i: I, pub dst: u32 }
pub const NODST: u32 = u32::MAX;

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub insts: Vec<Inst> }
pub struct Func { pub id: u32, pub name: &'static str, pub params: Vec<u32>, pub nregs: usize, pub blocks: Vec<Block> }

pub struct FuncInfo { pub name: &'static str, pub def: Option<(usize, usize)>, pub parsed: RefCell<Option<&'static Func>>, pub weak: bool }
pub struct GlobalInfo { pub name: &'static str, pub ty: Ty, pub init: Option<usize>, pub constant: bool, pub addr: u64, pub size: u64 }

pub const FUNC_BASE: u64 = 0x2000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x4000_0000_0000;
pub const SLOT: u64 = 20;

pub struct Module {
    pub src: &'static str,
    pub funcs: Vec<FuncInfo>,
    pub fmap: HashMap<&'static str, u32>,
    pub globals: Vec<GlobalInfo>,
    pub gmap: HashMap<&'static str, u32>,
    pub gslot: Vec<u32>,
    pub types: HashMap<&'static str, Ty>,
}

pub struct Cur<'a> { pub s: &'a [u8], pub p: usize, pub m: &'a Module }

type PR<T> = Result<T, String>;

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Cur<'a> {
    pub fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') { self.p += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    pub fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.p..(self.p + 120).min(self.s.len())]).to_string() }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    pub fn need(&mut self, c: u8) -> PR<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at: {}", c as char, self.rest())) } }
    pub fn ident(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
        std::str::from_utf8(&self.s[b..self.p]).unwrap()
    }
    pub fn peek_ident(&mut self) -> &'a str { let p = self.p; let r = self.ident(); self.p = p; r }
    pub fn kw(&mut self, k: &str) -> bool { let p = self.p; if self.ident() == k { true } else { self.p = p; false } }
    /// name after % or @
    pub fn name(&mut self) -> &'a str {
        if self.s[self.p] == b'"' {
            let b = self.p + 1;
            let mut e = b;
            while self.s[e] != b'"' { e += 1; }
            self.p = e + 1;
            std::str::from_utf8(&self.s[b..e]).unwrap()
        } else { self.ident() }
    }
    pub fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.p += 1; return; } }
                b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn is_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            b'%' => true,
            b'i' => { let s = self.peek_ident(); s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) }
            _ => matches!(self.peek_ident(), "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token"),
        }
    }
    pub fn ty(&mut self) -> PR<Ty> {
        match self.peek() {
            b'[' => {
                self.p += 1;
                let n: u64 = self.ident().parse().map_err(|_| "arr len".to_string())?;
                if !self.kw("x") { return Err("arr x".into()); }
                let t = self.ty()?;
                self.need(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'{' => { self.p += 1; let v = self.tylist(b'}')?; Ok(Ty::St(v, false)) }
            b'<' => {
                self.p += 1;
                if self.eat(b'{') { let v = self.tylist(b'}')?; self.need(b'>')?; return Ok(Ty::St(v, true)); }
                let n: u64 = self.ident().parse().map_err(|_| format!("vec len {}", self.rest()))?;
                if !self.kw("x") { return Err("vec x".into()); }
                let t = self.ty()?;
                self.need(b'>')?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                self.m.types.get(n).cloned().ok_or(format!("type %{}", n))
            }
            _ => {
                let s = self.ident();
                let t = match s {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "half" => Ty::F16,
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ if s.starts_with('i') => Ty::I(s[1..].parse().map_err(|_| format!("type {}", s))?),
                    _ => return Err(format!("type '{}' at {}", s, self.rest())),
                };
                if t == Ty::Ptr && self.peek_ident() == "addrspace" { self.ident(); self.ws(); self.skip_paren(); }
                Ok(t)
            }
        }
    }
    fn tylist(&mut self, end: u8) -> PR<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat(end) { return Ok(v); } self.need(b',')?; }
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_alphabetic() || c == b'"') { return; }
            if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } self.p += 1; if self.peek() == b'=' { self.p += 1; self.peek(); self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } self.p += 1; } continue; }
            let p = self.p;
            let id = self.ident();
            match id {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast"
                | "trunc" | "add" | "sub" | "xor" | "mul" | "shl" | "none" | "c" | "addrspacecast" | "asm" | "inf" | "nan" | "qnan" | "snan" => { self.p = p; return; }
                _ => {}
            }
            if id.starts_with("f0x") { self.p = p; return; }
            if self.p < self.s.len() && self.s[self.p] == b'(' { self.skip_paren(); }
            else if id == "align" { self.ident(); }
        }
    }
    fn fconst(&self, t: &Ty, s: &str) -> PR<u128> {
        if let Some(h) = s.strip_prefix("f0x") { return u128::from_str_radix(h, 16).map_err(|e| e.to_string()); }
        let d: f64 = if let Some(h) = s.strip_prefix("0x") {
            if h.starts_with(|c: char| c == 'H' || c == 'R') { return u128::from_str_radix(&h[1..], 16).map_err(|e| e.to_string()); }
            let b = u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", e, s))?;
            f64::from_bits(b)
        } else if s == "+inf" || s == "inf" { f64::INFINITY } else if s == "-inf" { f64::NEG_INFINITY }
        else if s == "+qnan" || s == "nan" || s == "qnan" { f64::NAN }
        else { s.parse::<f64>().map_err(|e| format!("{} {}", e, s))? };
        Ok(match t { Ty::F32 => (d as f32).to_bits() as u128, Ty::F64 => d.to_bits() as u128, _ => return Err("fconst".into()) })
    }
    pub fn sym_addr(&self, n: &str) -> PR<u64> {
        if let Some(&i) = self.m.gmap.get(n) { return Ok(self.m.globals[i as usize].addr); }
        if let Some(&i) = self.m.fmap.get(n) { return Ok(FUNC_BASE + 16 * i as u64); }
        Err(format!("unknown symbol @{}", n))
    }
    /// constant value of type t (no locals)
    pub fn konst(&mut self, t: &Ty) -> PR<Val> {
        match self.opd(t, &mut |_| Err("local in constant".into()))? { Opd::V(v) => Ok(v), _ => Err("konst".into()) }
    }
    fn agg(&mut self, t: &Ty, end: u8) -> PR<Val> {
        let mut v = vec![];
        if self.eat(end) { return Ok(Val::A(Rc::new(v))); }
        loop {
            let et = self.ty()?;
            v.push(self.konst(&et)?);
            if self.eat(end) { break; }
            self.need(b',')?;
        }
        let _ = t;
        Ok(Val::A(Rc::new(v)))
    }
    pub fn opd(&mut self, t: &Ty, reg: &mut dyn FnMut(&'a str) -> PR<u32>) -> PR<Opd> {
        let c = self.peek();
        match c {
            b'%' => { self.p += 1; let n = self.name(); Ok(Opd::R(reg(n)?)) }
            b'@' => { self.p += 1; let n = self.name(); Ok(Opd::V(Val::C(self.sym_addr(n)? as u128))) }
            b'[' => { self.p += 1; Ok(Opd::V(self.agg(t, b']')?)) }
            b'{' => { self.p += 1; Ok(Opd::V(self.agg(t, b'}')?)) }
            b'<' => {
                self.p += 1;
                if self.eat(b'{') { let v = self.agg(t, b'}')?; self.need(b'>')?; return Ok(Opd::V(v)); }
                Ok(Opd::V(self.agg(t, b'>')?))
            }
            b'!' => { // metadata operand
                while self.p < self.s.len() && self.s[self.p] != b',' && self.s[self.p] != b')' { self.p += 1; }
                Ok(Opd::V(Val::C(0)))
            }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 2;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128));
                        self.p += 3;
                    } else { v.push(Val::C(self.s[self.p] as u128)); self.p += 1; }
                }
                self.p += 1;
                Ok(Opd::V(Val::A(Rc::new(v))))
            }
            _ => {
                let p0 = self.p;
                if c == b'+' { self.p += 1; }
                let s = self.ident();
                let mut full = std::str::from_utf8(&self.s[p0..self.p]).unwrap();
                if full.ends_with('e') && self.p < self.s.len() && self.s[self.p] == b'+' { self.p += 1; self.ident(); full = std::str::from_utf8(&self.s[p0..self.p]).unwrap(); }
                match s {
                    "true" => return Ok(Opd::V(Val::C(1))),
                    "false" | "null" => return Ok(Opd::V(Val::C(0))),
                    "undef" | "poison" | "zeroinitializer" | "none" => return Ok(Opd::V(t.zero())),
                    "splat" => {
                        self.need(b'(')?;
                        let et = self.ty()?;
                        let v = self.konst(&et)?;
                        self.need(b')')?;
                        return Ok(Opd::V(Val::A(Rc::new(vec![v; t.nelem()]))));
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' { let i = self.ident(); if i.is_empty() { return Err("cgep".into()); } if i == "inrange" { self.ws(); self.skip_paren(); if self.peek() == b'(' { break; } } }
                        self.need(b'(')?;
                        let et = self.ty()?;
                        self.need(b',')?;
                        let pt = self.ty()?;
                        let b = match self.konst(&pt)? { Val::C(v) => v, _ => return Err("cgep base".into()) };
                        let mut off: i64 = 0;
                        let mut cur: Option<Ty> = None;
                        while self.eat(b',') {
                            self.kw("inrange");
                            let it = self.ty()?;
                            let v = match self.konst(&it)? { Val::C(v) => sx(v, it.bits()) as i64, _ => return Err("cgep idx".into()) };
                            match cur.take() {
                                None => { off += v * et.size() as i64; cur = Some(et.clone()); }
                                Some(ct) => { off += ct.field_off(v as usize) as i64; cur = Some(ct.elem(v as usize).clone()); }
                            }
                        }
                        self.need(b')')?;
                        return Ok(Opd::V(Val::C((b as u64).wrapping_add(off as u64) as u128)));
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                        self.need(b'(')?;
                        let ft = self.ty()?;
                        let v = self.konst(&ft)?;
                        if !self.kw("to") { return Err("cexpr to".into()); }
                        let tt = self.ty()?;
                        self.need(b')')?;
                        return match v { Val::C(x) => Ok(Opd::V(Val::C(x & mask(tt.bits())))), _ => Err("cexpr".into()) };
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" => {
                        while self.peek() != b'(' { self.ident(); }
                        self.need(b'(')?;
                        let ft = self.ty()?;
                        let a = self.konst(&ft)?;
                        self.need(b',')?;
                        let ft2 = self.ty()?;
                        let b = self.konst(&ft2)?;
                        self.need(b')')?;
                        let op = match s { "add" => B::Add, "sub" => B::Sub, "xor" => B::Xor, "mul" => B::Mul, _ => B::Shl };
                        return match (a, b) { (Val::C(x), Val::C(y)) => Ok(Opd::V(Val::C(c_bin(op, x, y, ft.bits())))), _ => Err("cexpr bin".into()) };
                    }
                    _ => {}
                }
                match t {
                    Ty::I(w) => {
                        if s.is_empty() { return Err(format!("int const at: {}", self.rest())); }
                        if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) { return Ok(Opd::V(Val::C(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?))); }
                        let v = if let Some(n) = s.strip_prefix('-') { n.parse::<u128>().map(|x| 0u128.wrapping_sub(x)) } else { s.parse::<u128>() };
                        Ok(Opd::V(Val::C(v.map_err(|e| format!("{} '{}' {}", e, s, self.rest()))? & mask(*w))))
                    }
                    Ty::F32 | Ty::F64 | Ty::F16 => { let v = self.fconst(t, full)?; Ok(Opd::V(Val::C(v))) }
                    _ => Err(format!("const '{}' of type {:?} at {}", full, t, self.rest())),
                }
            }
        }
    }
}

fn parse_module(src: &'static str) -> Module {
    let mut m = Module { src, funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), gslot: vec![], types: HashMap::new() };
    let b = src.as_bytes();
    let mut pos = 0;
    let mut glines: Vec<(usize, usize)> = vec![];
    let fname = |line: &'static str| -> &'static str {
        let at = line.find(" @").unwrap() + 2;
        let r = &line[at..];
        if r.starts_with('"') { let e = r[1..].find('"').unwrap(); &r[1..1 + e] }
        else { let e = r.bytes().position(|c| !is_id(c)).unwrap(); &r[..e] }
    };
    while pos < b.len() {
        let end = src[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
        let line = &src[pos..end];
        if line.starts_with("define ") {
            let n = fname(line);
            let e = src[end..].find("\n}").map(|x| end + x).unwrap();
            let id = m.funcs.len() as u32;
            m.funcs.push(FuncInfo { name: n, def: Some((pos, e)), parsed: RefCell::new(None), weak: false });
            m.fmap.insert(n, id);
            pos = e + 3;
            continue;
        } else if line.starts_with("declare ") {
            let n = fname(line);
            let id = m.funcs.len() as u32;
            m.funcs.push(FuncInfo { name: n, def: None, parsed: RefCell::new(None), weak: line.contains("extern_weak") });
            m.fmap.insert(n, id);
        } else if line.starts_with('@') {
            glines.push((pos, end));
        } else if line.starts_with('%') && line.contains(" = type ") {
            let (n, t) = line.split_once(" = type ").unwrap();
            let n = n[1..].trim_matches('"');
            let tt = { let mut c = Cur { s: t.as_bytes(), p: 0, m: &m }; c.ty() };
            if let Ok(t) = tt { m.types.insert(n, t); }
        }
        pos = end + 1;
    }
    let mut addr = GLOBAL_BASE;
    for (s, e) in glines {
        let line = &src[s..e];
        let (name, mut p) = if line.starts_with("@\"") { let q = line[2..].find('"').unwrap(); (&line[2..2 + q], 3 + q) } else { let q = line.bytes().skip(1).position(|c| !is_id(c)).unwrap(); (&line[1..1 + q], 1 + q) };
        let rest = &line[p..];
        let eqp = rest.find('=').unwrap();
        p += eqp + 1;
        let (constant, ty, init, ext, alias) = {
            let mut c = Cur { s: b, p: s + p, m: &m };
            let mut ext = false;
            let mut alias = false;
            let constant;
            loop {
                let pk = c.peek();
                if !pk.is_ascii_alphabetic() { constant = false; alias = true; break; }
                let id = c.ident();
                match id {
                    "global" => { constant = false; break; }
                    "constant" => { constant = true; break; }
                    "alias" | "ifunc" => { alias = true; constant = false; break; }
                    "external" | "extern_weak" => ext = true,
                    _ => { if c.s[c.p] == b'(' { c.skip_paren(); } }
                }
            }
            if alias { (constant, Ty::Void, None, ext, true) } else {
                let ty = c.ty().expect("global type");
                (constant, ty, if ext { None } else { Some(c.p) }, ext, false)
            }
        };
        let _ = ext;
        if alias {
            // alias to a function or global: resolve to the final @symbol on the line
            let at = line.rfind('@').unwrap();
            let t: String = line[at + 1..].trim_matches('"').chars().take_while(|c| is_id(*c as u8)).collect();
            if let Some(&f) = m.fmap.get(t.as_str()) { m.fmap.insert(name, f); }
            continue;
        }
        let size = ty.size();
        let slots = (size >> SLOT) + 1;
        let id = m.globals.len() as u32;
        m.globals.push(GlobalInfo { name, ty, init, constant, addr, size });
        m.gmap.insert(name, id);
        for _ in 0..slots { m.gslot.push(id); }
        addr += slots << SLOT;
    }
    m
}

impl Module {
    pub fn load(path: &str) -> Module {
        let s = std::fs::read_to_string(path).expect("read ll");
        parse_module(Box::leak(s.into_boxed_str()))
    }
    pub fn init_val(&self, g: &GlobalInfo) -> PR<Val> {
        match g.init {
            None => Ok(g.ty.zero()),
            Some(p) => { let mut c = Cur { s: self.src.as_bytes(), p, m: self }; c.konst(&g.ty) }
        }
    }
    pub fn func(&self, id: u32) -> PR<Option<&'static Func>> {
        let fi = &self.funcs[id as usize];
        if let Some(f) = *fi.parsed.borrow() { return Ok(Some(f)); }
        let (s, e) = match fi.def { None => return Ok(None), Some(x) => x };
        let f = self.parse_func(id, fi.name, &self.src[s..e]).map_err(|x| format!("parse @{}: {}", fi.name, x))?;
        let f: &'static Func = Box::leak(Box::new(f));
        *fi.parsed.borrow_mut() = Some(f);
        Ok(Some(f))
    }
    fn parse_func(&self, id: u32, name: &'static str, text: &'static str) -> PR<Func> {
        let hdr_end = text.find('\n').unwrap_or(text.len());
        let hdr = &text[..hdr_end];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let at = hdr.find(" @").unwrap() + 2;
            let mut c = Cur { s: hdr.as_bytes(), p: at, m: self };
            c.name();
            c.need(b'(')?;
            if !c.eat(b')') {
                loop {
                    if c.peek() == b'.' { c.p += 3; c.need(b')')?; break; }
                    let _t = c.ty()?;
                    c.skip_attrs();
                    let n = if c.peek() == b'%' { c.p += 1; c.name().to_string() } else { format!("{}", unnamed) };
                    if n.bytes().all(|x| x.is_ascii_digit()) { unnamed += 1; }
                    let r = regs.len() as u32;
                    regs.insert(n, r);
                    params.push(r);
                    if c.eat(b')') { break; }
                    c.need(b',')?;
                }
            }
        }
        // collect logical lines grouped by block
        let body = if hdr_end < text.len() { &text[hdr_end + 1..] } else { "" };
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut lines = body.lines().peekable();
        while let Some(l) = lines.next() {
            if l.trim().is_empty() { continue; }
            let first = l.as_bytes()[0];
            if first != b' ' {
                if first == b';' { continue; }
                let lab = if first == b'"' { let e = l[1..].find('"').unwrap(); l[1..1 + e].to_string() } else { l[..l.find(':').ok_or("label")?].to_string() };
                blocks.push((lab, vec![]));
                continue;
            }
            if blocks.is_empty() { blocks.push((format!("{}", unnamed), vec![])); }
            let t = l.trim();
            if t.starts_with('#') || t.starts_with(';') { continue; }
            let mut s = t.to_string();
            while let Some(p) = s.find("/* ") { match s[p..].find("*/") { Some(q) => s.replace_range(p..p + q + 2, ""), None => break } }
            if s.starts_with("switch ") && s.ends_with('[') {
                for l2 in lines.by_ref() { s.push(' '); s.push_str(l2.trim()); if l2.trim().starts_with(']') { break; } }
            }
            if s.contains("invoke ") {
                while let Some(l2) = lines.peek() { if l2.trim().starts_with("to label") { s.push(' '); s.push_str(l2.trim()); lines.next(); } break; }
            }
            if s.contains("landingpad ") {
                while let Some(l2) = lines.peek() {
                    let t2 = l2.trim();
                    if t2.starts_with("cleanup") || t2.starts_with("catch ") || t2.starts_with("filter ") { lines.next(); } else { break; }
                }
            }
            blocks.last_mut().unwrap().1.push(s);
        }
        let bmap: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut b = Block { phis: vec![], insts: vec![] };
            for l in ls {
                self.parse_inst(l, &mut regs, &bmap, &mut b).map_err(|e| format!("{} in `{}`", e, &l[..l.len().min(300)]))?;
            }
            out.push(b);
        }
        Ok(Func { id, name, params, nregs: regs.len(), blocks: out })
    }
    fn parse_inst(&self, l: &str, regs: &mut HashMap<String, u32>, bmap: &HashMap<String, u32>, b: &mut Block) -> PR<()> {
        let mut c = Cur { s: l.as_bytes(), p: 0, m: self };
        let mut getreg = |n: &str| -> PR<u32> {
            if let Some(&r) = regs.get(n) { return Ok(r); }
            let r = regs.len() as u32;
            regs.insert(n.to_string(), r);
            Ok(r)
        };
        let mut dst = NODST;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            dst = getreg(n)?;
            c.need(b'=')?;
        }
        let label = |c: &mut Cur| -> PR<u32> {
            if !c.kw("label") { return Err("label".into()); }
            c.peek();
            c.need(b'%')?;
            let n = c.name();
            bmap.get(n).cloned().ok_or(format!("label {}", n))
        };
        let op = c.ident();
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while !c.is_type() { c.ident(); }
                let t = c.ty()?;
                let x = c.opd(&t, &mut getreg)?;
                c.need(b',')?;
                let y = c.opd(&t, &mut getreg)?;
                let o = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or, _ => B::Xor };
                I::Bin(o, t, x, y)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !c.is_type() { c.ident(); }
                let t = c.ty()?;
                let x = c.opd(&t, &mut getreg)?;
                c.need(b',')?;
                let y = c.opd(&t, &mut getreg)?;
                match op { "fadd" => I::FBin(F::Add, t, x, y), "fsub" => I::FBin(F::Sub, t, x, y), "fmul" => I::FBin(F::Mul, t, x, y), "fdiv" => I::FBin(F::Div, t, x, y), _ => I::FRem(t, x, y) }
            }
            "fneg" => { while !c.is_type() { c.ident(); } let t = c.ty()?; let x = c.opd(&t, &mut getreg)?; I::FNeg(t, x) }
            "icmp" | "fcmp" => {
                let mut pred = c.ident().to_string();
                while !c.is_type() { pred = c.ident().to_string(); }
                let t = c.ty()?;
                let x = c.opd(&t, &mut getreg)?;
                c.need(b',')?;
                let y = c.opd(&t, &mut getreg)?;
                if op == "icmp" { I::ICmp(pred, t, x, y) } else { I::FCmp(pred, t, x, y) }
            }
            "select" => {
                while !c.is_type() { c.ident(); }
                let ct = c.ty()?;
                let x = c.opd(&ct, &mut getreg)?;
                c.need(b',')?;
                let t = c.ty()?;
                let y = c.opd(&t, &mut getreg)?;
                c.need(b',')?;
                let t2 = c.ty()?;
                let z = c.opd(&t2, &mut getreg)?;
                I::Select(ct, t, x, y, z)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => {
                while !c.is_type() { c.ident(); }
                let t = c.ty()?;
                let x = c.opd(&t, &mut getreg)?;
                if !c.kw("to") { return Err("to".into()); }
                let t2 = c.ty()?;
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "bitcast" => Cast::Bitcast, "fptosi" => Cast::Fptosi, "fptoui" => Cast::Fptoui, "sitofp" => Cast::Sitofp, "uitofp" => Cast::Uitofp, "fpext" => Cast::Fpext, "fptrunc" => Cast::Fptrunc,
                    _ => { if t.scalar() && t2.scalar() && t.bits() != t2.bits() { if t.bits() > t2.bits() { Cast::Trunc } else { Cast::Zext } } else { Cast::Same } } };
                I::Cast(k, t, t2, x)
            }
            "getelementptr" => {
                while !c.is_type() { let id = c.ident(); if id == "inrange" { c.ws(); c.skip_paren(); } }
                let et = c.ty()?;
                c.need(b',')?;
                let pt = c.ty()?;
                if pt != Ty::Ptr { return Err("vector gep".into()); }
                let base = c.opd(&pt, &mut getreg)?;
                let mut off = 0i64;
                let mut vars = vec![];
                let mut cur: Option<Ty> = None;
                while c.eat(b',') {
                    if c.peek() == b'!' { break; }
                    let it = c.ty()?;
                    let o = c.opd(&it, &mut getreg)?;
                    let (scale, next) = match &cur {
                        None => (et.size() as i64, et.clone()),
                        Some(ct) => match ct {
                            Ty::St(..) => {
                                if let Opd::V(Val::C(v)) = &o { off += ct.field_off(*v as usize) as i64; cur = Some(ct.elem(*v as usize).clone()); continue; }
                                return Err("struct gep".into());
                            }
                            _ => (ct.elem(0).size() as i64, ct.elem(0).clone()),
                        },
                    };
                    match &o { Opd::V(Val::C(v)) => off += (sx(*v, it.bits()) as i64).wrapping_mul(scale), _ => vars.push((o, it.bits(), scale)) }
                    cur = Some(next);
                }
                I::Gep(base, off, vars)
            }
            "load" => {
                while !c.is_type() { c.ident(); }
                let t = c.ty()?;
                c.need(b',')?;
                let pt = c.ty()?;
                let p = c.opd(&pt, &mut getreg)?;
                I::Load(t, p)
            }
            "store" => {
                while !c.is_type() { c.ident(); }
                let t = c.ty()?;
                let v = c.opd(&t, &mut getreg)?;
                c.need(b',')?;
                let pt = c.ty()?;
                let p = c.opd(&pt, &mut getreg)?;
                I::Store(t, v, p)
            }
            "alloca" => {
                while !c.is_type() { c.ident(); }
                let t = c.ty()?;
                let mut n = Opd::V(Val::C(1));
                let mut nw = 64;
                if c.eat(b',') && c.is_type() { let it = c.ty()?; nw = it.bits(); n = c.opd(&it, &mut getreg)?; }
                I::Alloca(t.size(), n, nw)
            }
            "phi" => {
                while !c.is_type() { c.ident(); }
                let t = c.ty()?;
                let mut v = vec![];
                loop {
                    c.need(b'[')?;
                    let o = c.opd(&t, &mut getreg)?;
                    c.need(b',')?;
                    c.peek();
                    c.need(b'%')?;
                    let n = c.name();
                    v.push((*bmap.get(n).ok_or(format!("phi label {}", n))?, o));
                    c.need(b']')?;
                    if !c.eat(b',') { break; }
                    if c.peek() == b'!' { break; }
                }
                b.phis.push((dst, v));
                return Ok(());
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op == "tail" || op == "musttail" || op == "notail" { c.ident(); }
                let inv = op == "invoke";
                // attributes before type
                while !c.is_type() {
                    let id = c.ident();
                    if id.is_empty() { return Err(format!("call attrs at {}", c.rest())); }
                    if c.p < c.s.len() && c.s[c.p] == b'(' { c.skip_paren(); } else if id == "align" || id == "cc" { c.ident(); }
                }
                let ret = c.ty()?;
                if c.peek() == b'(' { c.skip_paren(); }
                let callee = if c.kw("asm") {
                    b.insts.push(Inst { i: I::Call { callee: Callee::Asm, args: vec![], tys: vec![], ret, normal: None }, dst });
                    return Ok(());
                } else if c.peek() == b'@' {
                    c.p += 1;
                    let n = c.name();
                    match self.fmap.get(n) { Some(&f) => Callee::Fn(f), None => return Err(format!("unknown callee {}", n)) }
                } else { Callee::Reg(c.opd(&Ty::Ptr, &mut getreg)?) };
                c.need(b'(')?;
                let mut args = vec![];
                let mut tys = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = c.ty()?;
                        if t == Ty::Meta {
                            let mut d = 0;
                            while c.p < c.s.len() { match c.s[c.p] { b'(' => d += 1, b')' if d == 0 => break, b')' => d -= 1, b',' if d == 0 => break, _ => {} } c.p += 1; }
                            args.push(Opd::V(Val::C(0)));
                        } else {
                            c.skip_attrs();
                            args.push(c.opd(&t, &mut getreg)?);
                        }
                        tys.push(t);
                        if c.eat(b')') { break; }
                        c.need(b',')?;
                    }
                }
                let normal = if inv {
                    let r = std::str::from_utf8(&c.s[c.p..]).unwrap();
                    let k = r.rfind(" to label %").ok_or("invoke to")?;
                    c.p += k + 4;
                    Some(label(&mut c)?)
                } else { None };
                I::Call { callee, args, tys, ret, normal }
            }
            "br" => {
                if c.peek_ident() == "label" { I::Br(label(&mut c)?) } else {
                    let t = c.ty()?;
                    let o = c.opd(&t, &mut getreg)?;
                    c.need(b',')?;
                    let x = label(&mut c)?;
                    c.need(b',')?;
                    let y = label(&mut c)?;
                    I::CondBr(o, x, y)
                }
            }
            "switch" => {
                let t = c.ty()?;
                let o = c.opd(&t, &mut getreg)?;
                c.need(b',')?;
                let d = label(&mut c)?;
                c.need(b'[')?;
                let mut v = vec![];
                while !c.eat(b']') {
                    let ct = c.ty()?;
                    let k = match c.konst(&ct)? { Val::C(x) => x, _ => return Err("case".into()) };
                    c.need(b',')?;
                    v.push((k, label(&mut c)?));
                }
                I::Switch(t.bits(), o, d, v)
            }
            "ret" => { let t = c.ty()?; if t == Ty::Void { I::Ret(None) } else { I::Ret(Some(c.opd(&t, &mut getreg)?)) } }
            "unreachable" => I::Unreachable,
            "resume" | "landingpad" | "cleanupret" | "catchswitch" => I::Unwind,
            "extractvalue" => {
                let t = c.ty()?;
                let o = c.opd(&t, &mut getreg)?;
                let mut ix = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } ix.push(c.ident().parse().map_err(|_| "idx")?); }
                I::ExtractV(o, ix)
            }
            "insertvalue" => {
                let t = c.ty()?;
                let o = c.opd(&t, &mut getreg)?;
                c.need(b',')?;
                let t2 = c.ty()?;
                let v = c.opd(&t2, &mut getreg)?;
                let mut ix = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } ix.push(c.ident().parse().map_err(|_| "idx")?); }
                I::InsertV(o, v, ix)
            }
            "extractelement" => {
                let t = c.ty()?; let o = c.opd(&t, &mut getreg)?; c.need(b',')?;
                let t2 = c.ty()?; let ix = c.opd(&t2, &mut getreg)?;
                I::ExtractE(o, ix)
            }
            "insertelement" => {
                let t = c.ty()?; let o = c.opd(&t, &mut getreg)?; c.need(b',')?;
                let t2 = c.ty()?; let v = c.opd(&t2, &mut getreg)?; c.need(b',')?;
                let t3 = c.ty()?; let ix = c.opd(&t3, &mut getreg)?;
                I::InsertE(o, v, ix)
            }
            "shufflevector" => {
                let t = c.ty()?; let x = c.opd(&t, &mut getreg)?; c.need(b',')?;
                let t2 = c.ty()?; let y = c.opd(&t2, &mut getreg)?; c.need(b',')?;
                let t3 = c.ty()?;
                let mk = match c.konst(&t3)? { Val::A(v) => v.iter().map(|x| if let Val::C(k) = x { *k as i32 } else { 0 }).collect(), _ => return Err("mask".into()) };
                I::Shuffle(x, y, mk, t.nelem())
            }
            "atomicrmw" => {
                if c.peek_ident() == "volatile" { c.ident(); }
                let o = match c.ident() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "nand" => Rmw::Nand, x => return Err(format!("rmw {}", x)) };
                let pt = c.ty()?; let p = c.opd(&pt, &mut getreg)?; c.need(b',')?;
                let t = c.ty()?; let v = c.opd(&t, &mut getreg)?;
                I::Rmw(o, t, p, v)
            }
            "cmpxchg" => {
                while !c.is_type() { c.ident(); }
                let pt = c.ty()?; let p = c.opd(&pt, &mut getreg)?; c.need(b',')?;
                let t = c.ty()?; let x = c.opd(&t, &mut getreg)?; c.need(b',')?;
                let t2 = c.ty()?; let y = c.opd(&t2, &mut getreg)?;
                I::CmpXchg(t, p, x, y)
            }
            "fence" => I::Nop,
            "freeze" => { let t = c.ty()?; I::Move(c.opd(&t, &mut getreg)?) }
            _ => return Err(format!("unknown op {}", op)),
        };
        b.insts.push(Inst { i, dst });
        Ok(())
    }
}
