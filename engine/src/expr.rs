//! Hash-consed bit-vector / IEEE-754 expression DAG with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq, Ult, Ule, Slt, Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F {
    Add, Sub, Mul, Div,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FC {
    Eq, Lt, Le, Uno,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU {
    Sqrt, Floor, Ceil, Trunc, RoundAway, RoundEven,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FV {
    SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    C(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(C, E, E),
    Ite(E, E, E),
    Ext(E, u16),
    Cat(E, E),
    Zext(E),
    Sext(E),
    F(F, E, E),
    FCmp(FC, E, E),
    FUn(FU, E),
    FCv(FV, E),
    Uf(u32, Vec<E>),
}

pub struct Node {
    pub k: K,
    pub w: u16,
    pub vars: Rc<Vec<u32>>,
    pub fp: bool,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u16), E>,
    pub nvars: u32,
    pub var_w: Vec<u16>,
    empty: Rc<Vec<u32>>,
    pub uf_names: Vec<(String, Vec<u16>, u16)>,
    pub var_range: HashMap<u32, (f64, f64)>,
    ranges: HashMap<E, Option<FR>>,
}

/// What is known of a floating-point term from the declared ranges of its variables.
#[derive(Clone, Copy, Debug)]
pub struct FR { pub lo: f64, pub hi: f64, pub nz: bool }

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn f32b(v: u128) -> f32 { f32::from_bits(v as u32) }
fn f64b(v: u128) -> f64 { f64::from_bits(v as u64) }

pub fn c_bin(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        B::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    }) & m
}
pub fn c_cmp(op: C, a: u128, b: u128, w: u32) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sx(a, w) < sx(b, w),
        C::Sle => sx(a, w) <= sx(b, w),
    }
}
pub fn c_f(op: F, a: u128, b: u128, w: u32) -> u128 {
    match w {
        32 => {
            let (x, y) = (f32b(a), f32b(b));
            let r = match op { F::Add => x + y, F::Sub => x - y, F::Mul => x * y, F::Div => x / y };
            if r.is_nan() { 0x7fc00000 } else { r.to_bits() as u128 }
        }
        64 => {
            let (x, y) = (f64b(a), f64b(b));
            let r = match op { F::Add => x + y, F::Sub => x - y, F::Mul => x * y, F::Div => x / y };
            if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() as u128 }
        }
        _ => panic!("fp width {}", w),
    }
}
pub fn c_fcmp(op: FC, a: u128, b: u128, w: u32) -> bool {
    let (x, y) = match w {
        32 => (f32b(a) as f64, f32b(b) as f64),
        64 => (f64b(a), f64b(b)),
        _ => panic!("fp width"),
    };
    match op {
        FC::Eq => x == y,
        FC::Lt => x < y,
        FC::Le => x <= y,
        FC::Uno => x.is_nan() || y.is_nan(),
    }
}
pub fn c_fun(op: FU, a: u128, w: u32) -> u128 {
    match w {
        32 => {
            let x = f32b(a);
            let r = match op {
                FU::Sqrt => x.sqrt(), FU::Floor => x.floor(), FU::Ceil => x.ceil(), FU::Trunc => x.trunc(),
                FU::RoundAway => x.round(), FU::RoundEven => x.round_ties_even(),
            };
            if r.is_nan() { 0x7fc00000 } else { r.to_bits() as u128 }
        }
        64 => {
            let x = f64b(a);
            let r = match op {
                FU::Sqrt => x.sqrt(), FU::Floor => x.floor(), FU::Ceil => x.ceil(), FU::Trunc => x.trunc(),
                FU::RoundAway => x.round(), FU::RoundEven => x.round_ties_even(),
            };
            if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() as u128 }
        }
        _ => panic!("fp width"),
    }
}
pub fn c_fcv(op: FV, a: u128, wf: u32, wt: u32) -> u128 {
    match op {
        FV::SiToFp => {
            let x = sx(a, wf);
            if wt == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 }
        }
        FV::UiToFp => {
            if wt == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 }
        }
        FV::FpToSi => {
            let x = if wf == 32 { f32b(a) as f64 } else { f64b(a) };
            if x.is_nan() { return 0; }
            let lo = -(2f64.powi(wt as i32 - 1));
            let hi = 2f64.powi(wt as i32 - 1);
            let r: i128 = if x < lo { -(1i128 << (wt - 1)) } else if x >= hi { ((1u128 << (wt - 1)) - 1) as i128 } else { x as i128 };
            (r as u128) & mask(wt)
        }
        FV::FpToUi => {
            let x = if wf == 32 { f32b(a) as f64 } else { f64b(a) };
            if x.is_nan() || x <= 0.0 { return 0; }
            let hi = 2f64.powi(wt as i32);
            if x >= hi { mask(wt) } else { (x as u128) & mask(wt) }
        }
        FV::FpExt => {
            assert!(wf == 32 && wt == 64);
            let r = f32b(a) as f64;
            if r.is_nan() { 0x7ff8000000000000 } else { r.to_bits() as u128 }
        }
        FV::FpTrunc => {
            assert!(wf == 64 && wt == 32);
            let r = f64b(a) as f32;
            if r.is_nan() { 0x7fc00000 } else { r.to_bits() as u128 }
        }
    }
}

fn tof(v: u128, w: u32) -> f64 { if w == 32 { f32b(v) as f64 } else { f64b(v) } }
fn fromf(v: f64, w: u32) -> u128 { if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } }

impl Arena {
    /// Bounds of a finite floating-point term; None when it may be NaN or infinite or nothing is known.
    pub fn frange(&mut self, e: E) -> Option<FR> {
        let w = self.w(e);
        if w != 32 && w != 64 { return None; }
        if let K::C(v) = self.nodes[e as usize].k { let x = tof(v, w); return if x.is_finite() { Some(FR { lo: x, hi: x, nz: x == 0.0 && x.is_sign_negative() }) } else { None }; }
        if self.var_range.is_empty() && !self.nodes[e as usize].fp { return None; }
        if let Some(r) = self.ranges.get(&e) { return *r; }
        let k = self.nodes[e as usize].k.clone();
        let r = match k {
            K::Var(v) => self.var_range.get(&v).map(|&(lo, hi)| FR { lo, hi, nz: false }),
            K::Ite(_, a, b) => match (self.frange(a), self.frange(b)) { (Some(x), Some(y)) => Some(FR { lo: x.lo.min(y.lo), hi: x.hi.max(y.hi), nz: x.nz || y.nz }), _ => None },
            K::F(op, a, b) => match (self.frange(a), self.frange(b)) {
                (Some(x), Some(y)) => {
                    if matches!(op, F::Div) && y.lo <= 0.0 && y.hi >= 0.0 { None } else {
                        let mut lo = f64::INFINITY;
                        let mut hi = f64::NEG_INFINITY;
                        let mut ok = true;
                        for p in [x.lo, x.hi] { for q in [y.lo, y.hi] {
                            let v = tof(c_f(op, fromf(p, w), fromf(q, w), w), w);
                            if !v.is_finite() { ok = false; }
                            lo = lo.min(v); hi = hi.max(v);
                        } }
                        let nz = match op {
                            F::Add => x.nz && y.nz,
                            F::Sub => x.nz && y.lo <= 0.0 && y.hi >= 0.0,
                            // a zero (or underflow to zero) with factors of opposite sign
                            F::Mul | F::Div => !((x.lo >= 0.0 && !x.nz && y.lo >= 0.0 && !y.nz) || (x.hi < 0.0 && y.hi < 0.0)),
                        };
                        if ok { Some(FR { lo, hi, nz }) } else { None }
                    }
                }
                _ => None,
            },
            K::FCv(FV::UiToFp, a) => { let n = self.w(a); let n = if let K::Zext(x) = self.nodes[a as usize].k { self.w(x) } else { n }; if n <= 64 { Some(FR { lo: 0.0, hi: 2f64.powi(n as i32), nz: false }) } else { None } }
            K::FCv(FV::SiToFp, a) => {
                if let K::Zext(x) = self.nodes[a as usize].k { let n = self.w(x); Some(FR { lo: 0.0, hi: 2f64.powi(n as i32), nz: false }) }
                else { let n = self.w(a); if n <= 64 { Some(FR { lo: -(2f64.powi(n as i32 - 1)), hi: 2f64.powi(n as i32 - 1), nz: false }) } else { None } }
            }
            K::FCv(FV::FpExt, a) => self.frange(a),
            K::FCv(FV::FpTrunc, a) => self.frange(a).and_then(|r| { let (l, h) = (r.lo as f32, r.hi as f32); if l.is_finite() && h.is_finite() { Some(FR { lo: l as f64, hi: h as f64, nz: r.nz || r.lo < 0.0 }) } else { None } }),
            K::FUn(op, a) if op != FU::Sqrt => self.frange(a).map(|r| { let g = |v: f64| tof(c_fun(op, fromf(v, w), w), w); FR { lo: g(r.lo), hi: g(r.hi), nz: r.nz || r.lo < 0.0 } }),
            K::FUn(FU::Sqrt, a) => self.frange(a).and_then(|r| if r.lo < 0.0 || r.nz { None } else { let g = |v: f64| tof(c_fun(FU::Sqrt, fromf(v, w), w), w); Some(FR { lo: g(r.lo), hi: g(r.hi), nz: false }) }),
            // sign flip
            K::Bin(B::Xor, a, b) => {
                let sign = 1u128 << (w - 1);
                let x = if self.cval(b) == Some(sign) { Some(a) } else if self.cval(a) == Some(sign) { Some(b) } else { None };
                match x { Some(x) => self.frange(x).map(|r| FR { lo: -r.hi, hi: -r.lo, nz: r.lo <= 0.0 && r.hi >= 0.0 }), None => None }
            }
            _ => None,
        };
        self.ranges.insert(e, r);
        r
    }
    pub fn new() -> Arena {
        Arena { nodes: vec![], map: HashMap::new(), nvars: 0, var_w: vec![], empty: Rc::new(vec![]), uf_names: vec![], var_range: HashMap::new(), ranges: HashMap::new() }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline]
    pub fn k(&self, e: E) -> &K { &self.nodes[e as usize].k }
    pub fn cval(&self, e: E) -> Option<u128> {
        if let K::C(v) = self.nodes[e as usize].k { Some(v) } else { None }
    }
    fn merge(&self, a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
        if Rc::ptr_eq(a, b) || b.is_empty() { return a.clone(); }
        if a.is_empty() { return b.clone(); }
        if a == b { return a.clone(); }
        let mut v: Vec<u32> = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i] < b[j]) { v.push(a[i]); i += 1; }
            else if i >= a.len() || b[j] < a[i] { v.push(b[j]); j += 1; }
            else { v.push(a[i]); i += 1; j += 1; }
        }
        if v.len() == a.len() { return a.clone(); }
        if v.len() == b.len() { return b.clone(); }
        Rc::new(v)
    }
    fn mk(&mut self, k: K, w: u32) -> E {
        let key = (k, w as u16);
        if let Some(&e) = self.map.get(&key) { return e; }
        let n = |s: &Self, e: E| (s.nodes[e as usize].vars.clone(), s.nodes[e as usize].fp);
        let (vars, fp) = match &key.0 {
            K::C(_) => (self.empty.clone(), false),
            K::Var(v) => (Rc::new(vec![*v]), false),
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Cat(a, b) => {
                let (x, y) = (n(self, *a), n(self, *b));
                (self.merge(&x.0, &y.0), x.1 || y.1)
            }
            K::F(_, a, b) | K::FCmp(_, a, b) => {
                let (x, y) = (n(self, *a), n(self, *b));
                (self.merge(&x.0, &y.0), true)
            }
            K::Ite(a, b, c) => {
                let (x, y, z) = (n(self, *a), n(self, *b), n(self, *c));
                let m = self.merge(&x.0, &y.0);
                (self.merge(&m, &z.0), x.1 || y.1 || z.1)
            }
            K::Ext(a, _) | K::Zext(a) | K::Sext(a) => n(self, *a),
            K::FUn(_, a) | K::FCv(_, a) => (n(self, *a).0, true),
            K::Uf(_, v) => {
                let mut m = self.empty.clone();
                let mut f = false;
                for &a in v { let x = n(self, a); m = self.merge(&m, &x.0); f |= x.1; }
                (m, f)
            }
        };
        let id = self.nodes.len() as E;
        self.nodes.push(Node { k: key.0.clone(), w: w as u16, vars, fp });
        self.map.insert(key, id);
        id
    }
    pub fn c(&mut self, v: u128, w: u32) -> E { self.mk(K::C(v & mask(w)), w) }
    pub fn var(&mut self, w: u32) -> E {
        let id = self.nvars;
        self.nvars += 1;
        self.var_w.push(w as u16);
        self.mk(K::Var(id), w)
    }
    pub fn uf(&mut self, name: &str, args: Vec<E>, w: u32) -> E {
        let aw: Vec<u16> = args.iter().map(|&a| self.w(a) as u16).collect();
        let id = match self.uf_names.iter().position(|x| x.0 == name && x.1 == aw && x.2 == w as u16) {
            Some(i) => i,
            None => { self.uf_names.push((name.to_string(), aw, w as u16)); self.uf_names.len() - 1 }
        };
        self.mk(K::Uf(id as u32, args), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.bin(B::Xor, a, m)
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(B::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(B::Or, a, b) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.cmp(C::Eq, a, b) }
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.c(c_bin(op, x, y, w), w); }
        let (mut a, mut b, mut cb) = (a, b, cb);
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm {
            if ca.is_some() { std::mem::swap(&mut a, &mut b); cb = ca; }
            else if cb.is_none() && a > b { std::mem::swap(&mut a, &mut b); }
        }
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if y == 0 => return a,
                B::Mul | B::And if y == 0 => return b,
                B::Mul | B::UDiv | B::SDiv if y == 1 => return a,
                B::URem if y == 1 => return self.c(0, w),
                B::And if y == m => return a,
                B::Or if y == m => return b,
                B::Shl | B::LShr if y >= w as u128 => return self.c(0, w),
                _ => {}
            }
            match op {
                B::Sub => { let n = self.c(0u128.wrapping_sub(y), w); return self.bin(B::Add, a, n); }
                B::Add => {
                    if let K::Bin(B::Add, x, k) = *self.k(a) {
                        if let Some(kv) = self.cval(k) { let n = self.c(kv.wrapping_add(y), w); return self.bin(B::Add, x, n); }
                    }
                    if let K::Ite(c, x, z) = *self.k(a) {
                        if self.cval(x).is_some() && self.cval(z).is_some() {
                            let p = self.bin(op, x, b); let q = self.bin(op, z, b); return self.ite(c, p, q);
                        }
                    }
                }
                B::Xor => {
                    if let K::Bin(B::Xor, x, k) = *self.k(a) {
                        if let Some(kv) = self.cval(k) { let n = self.c(kv ^ y, w); return self.bin(B::Xor, x, n); }
                    }
                    if w == 1 && y == 1 {
                        if let K::Ite(c, x, z) = *self.k(a) {
                            if self.cval(x).is_some() || self.cval(z).is_some() { let p = self.not(x); let q = self.not(z); return self.ite(c, p, q); }
                        }
                        // !(a < b) -> b <= a  for integer comparisons
                        match *self.k(a) {
                            K::Cmp(C::Ult, x, z) => return self.cmp(C::Ule, z, x),
                            K::Cmp(C::Ule, x, z) => return self.cmp(C::Ult, z, x),
                            K::Cmp(C::Slt, x, z) => return self.cmp(C::Sle, z, x),
                            K::Cmp(C::Sle, x, z) => return self.cmp(C::Slt, z, x),
                            _ => {}
                        }
                    }
                }
                B::And => {
                    if let K::Bin(B::And, x, k) = *self.k(a) {
                        if let Some(kv) = self.cval(k) { let n = self.c(kv & y, w); return self.bin(B::And, x, n); }
                    }
                    // low mask -> zext(extract)
                    if y != 0 && (y & (y + 1)) == 0 {
                        let n = 128 - y.leading_zeros();
                        let x = self.ext(a, 0, n);
                        return self.zext(x, w);
                    }
                    if let K::Zext(x) = *self.k(a) {
                        let xw = self.w(x);
                        let n = self.c(y, xw);
                        let r = self.bin(B::And, x, n);
                        return self.zext(r, w);
                    }
                }
                B::Shl => {
                    let s = y as u32;
                    let x = self.ext(a, 0, w - s);
                    let z = self.c(0, s);
                    return self.cat(x, z);
                }
                B::LShr => {
                    let s = y as u32;
                    let x = self.ext(a, s, w - s);
                    return self.zext(x, w);
                }
                B::UDiv if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u128, w); return self.bin(B::LShr, a, s); }
                B::URem if y.is_power_of_two() => { let s = self.c(y - 1, w); return self.bin(B::And, a, s); }
                B::Mul if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u128, w); return self.bin(B::Shl, a, s); }
                _ => {}
            }
        }
        if ca == Some(0) && matches!(op, B::Shl | B::LShr | B::AShr | B::UDiv | B::URem) && !comm { return self.c(0, w); }
        if a == b {
            match op {
                B::And | B::Or => return a,
                B::Xor | B::Sub => return self.c(0, w),
                _ => {}
            }
        }
        if op == B::Or {
            // or of disjoint cats: cat(x,0) | zext(y)  => cat(x, y)
            if let Some(r) = self.or_cat(a, b) { return r; }
            if let Some(r) = self.or_cat(b, a) { return r; }
        }
        if w == 1 && (op == B::And || op == B::Or) {
            let na = self.not(a);
            if na == b { return self.c(if op == B::And { 0 } else { 1 }, 1); }
        }
        self.mk(K::Bin(op, a, b), w)
    }
    fn or_cat(&mut self, a: E, b: E) -> Option<E> {
        if let K::Cat(h, l) = *self.k(a) {
            if self.cval(l) == Some(0) {
                let lw = self.w(l);
                if let K::Zext(y) = *self.k(b) {
                    let yw = self.w(y);
                    if yw <= lw { let z = self.zext(y, lw); return Some(self.cat(h, z)); }
                }
                if let Some(v) = self.cval(b) {
                    if v < (1u128 << lw) { let z = self.c(v, lw); return Some(self.cat(h, z)); }
                }
            }
        }
        None
    }
    pub fn cmp(&mut self, op: C, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "cmp widths {} {}", w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.c(c_cmp(op, x, y, w) as u128, 1); }
        if a == b { return self.c(matches!(op, C::Eq | C::Ule | C::Sle) as u128, 1); }
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        if op == C::Eq {
            if ca.is_some() || (cb.is_none() && a > b) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
            if w == 1 {
                if let Some(y) = cb { return if y == 1 { a } else { self.not(a) }; }
            }
            if let Some(y) = cb {
                match *self.k(a) {
                    K::Zext(x) => {
                        let xw = self.w(x);
                        if y > mask(xw) { return self.c(0, 1); }
                        let n = self.c(y, xw);
                        return self.cmp(C::Eq, x, n);
                    }
                    K::Sext(x) => {
                        let xw = self.w(x);
                        let t = y & mask(xw);
                        if (sx(t, xw) as u128) & mask(w) != y { return self.c(0, 1); }
                        let n = self.c(t, xw);
                        return self.cmp(C::Eq, x, n);
                    }
                    K::Ite(c, x, z) => {
                        let (cx, cz) = (self.cval(x), self.cval(z));
                        if cx.is_some() || cz.is_some() {
                            let p = self.cmp(C::Eq, x, b);
                            let q = self.cmp(C::Eq, z, b);
                            return self.ite(c, p, q);
                        }
                    }
                    K::Bin(B::Xor, x, k) | K::Bin(B::Add, x, k) => {
                        if let Some(kv) = self.cval(k) {
                            let isx = matches!(self.k(a), K::Bin(B::Xor, ..));
                            let n = if isx { kv ^ y } else { y.wrapping_sub(kv) };
                            let n = self.c(n, w);
                            return self.cmp(C::Eq, x, n);
                        }
                    }
                    K::Cat(h, l) => {
                        let lw = self.w(l);
                        let hw = self.w(h);
                        let yl = self.c(y, lw);
                        let yh = self.c(y >> lw, hw);
                        let p = self.cmp(C::Eq, l, yl);
                        if self.cval(p) == Some(0) { return p; }
                        let q = self.cmp(C::Eq, h, yh);
                        return self.and(p, q);
                    }
                    _ => {}
                }
            } else if let (K::Zext(x), K::Zext(y)) = (self.k(a).clone(), self.k(b).clone()) {
                if self.w(x) == self.w(y) { return self.cmp(C::Eq, x, y); }
            } else {
                let (ka, kb) = (self.k(a).clone(), self.k(b).clone());
                if let (K::Ite(c, x, y), K::Ite(d, u, v)) = (&ka, &kb) {
                    if c == d { let (p, q) = (self.cmp(C::Eq, *x, *u), self.cmp(C::Eq, *y, *v)); return self.ite(*c, p, q); }
                }
                for (i, o) in [(&ka, b), (&kb, a)] {
                    if let K::Ite(c, x, y) = i {
                        if *x == o { let (p, q) = (self.c(1, 1), self.cmp(C::Eq, *y, o)); return self.ite(*c, p, q); }
                        if *y == o { let (p, q) = (self.cmp(C::Eq, *x, o), self.c(1, 1)); return self.ite(*c, p, q); }
                    }
                }
            }
        } else {
            if op == C::Ult || op == C::Ule {
                let m = mask(w);
                if op == C::Ult {
                    if cb == Some(0) || ca == Some(m) { return self.c(0, 1); }
                    if cb == Some(1) { let z = self.c(0, w); return self.cmp(C::Eq, a, z); }
                    if ca == Some(0) { let z = self.c(0, w); let e = self.cmp(C::Eq, b, z); return self.not(e); }
                } else {
                    if cb == Some(m) || ca == Some(0) { return self.c(1, 1); }
                    if cb == Some(0) { let z = self.c(0, w); return self.cmp(C::Eq, a, z); }
                }
                if let (K::Zext(x), Some(y)) = (self.k(a).clone(), cb) {
                    let xw = self.w(x);
                    if y > mask(xw) { return self.c(1, 1); }
                    let n = self.c(y, xw);
                    return self.cmp(op, x, n);
                }
                if let (Some(y), K::Zext(x)) = (ca, self.k(b).clone()) {
                    let xw = self.w(x);
                    if y > mask(xw) { return self.c(0, 1); }
                    let n = self.c(y, xw);
                    return self.cmp(op, n, x);
                }
                if let (K::Zext(x), K::Zext(y)) = (self.k(a).clone(), self.k(b).clone()) {
                    if self.w(x) == self.w(y) { return self.cmp(op, x, y); }
                }
            } else {
                // signed comparison of zero-extended operands is unsigned
                let nn = |s: &Self, e: E| match s.k(e) { K::Zext(_) => true, K::C(v) => (v >> (w - 1)) == 0, _ => false };
                if nn(self, a) && nn(self, b) {
                    return self.cmp(if op == C::Slt { C::Ult } else { C::Ule }, a, b);
                }
            }
            if let (K::Ite(c, x, z), Some(_)) = (self.k(a).clone(), cb) {
                if self.cval(x).is_some() || self.cval(z).is_some() {
                    let p = self.cmp(op, x, b); let q = self.cmp(op, z, b); return self.ite(c, p, q);
                }
            }
            if let (Some(_), K::Ite(c, x, z)) = (ca, self.k(b).clone()) {
                if self.cval(x).is_some() || self.cval(z).is_some() {
                    let p = self.cmp(op, a, x); let q = self.cmp(op, a, z); return self.ite(c, p, q);
                }
            }
        }
        self.mk(K::Cmp(op, a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b); }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if let K::Bin(B::Xor, x, k) = *self.k(c) {
            if self.cval(k) == Some(1) { return self.ite(x, b, a); }
        }
        if let K::Ite(c2, x, _) = *self.k(a) { if c2 == c { return self.ite(c, x, b); } }
        if let K::Ite(c2, _, y) = *self.k(b) { if c2 == c { return self.ite(c, a, y); } }
        self.mk(K::Ite(c, a, b), w)
    }
    /// bits lo .. lo+w
    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        match *self.k(a) {
            K::C(v) => self.c(v >> lo, w),
            K::Ext(x, l2) => self.ext(x, lo + l2 as u32, w),
            K::Cat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { self.ext(h, lo - lw, w) }
                else if lo + w <= lw { self.ext(l, lo, w) }
                else {
                    let x = self.ext(l, lo, lw - lo);
                    let y = self.ext(h, 0, lo + w - lw);
                    self.cat(y, x)
                }
            }
            K::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw { self.c(0, w) }
                else if lo + w <= xw { self.ext(x, lo, w) }
                else { let y = self.ext(x, lo, xw - lo); self.zext(y, w) }
            }
            K::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw { self.ext(x, lo, w) }
                else if lo < xw { let y = self.ext(x, lo, xw - lo); self.sext(y, w) }
                else { let y = self.ext(x, xw - 1, 1); self.sext(y, w) }
            }
            K::Ite(c, x, y) if self.cval(x).is_some() || self.cval(y).is_some() => {
                let p = self.ext(x, lo, w);
                let q = self.ext(y, lo, w);
                self.ite(c, p, q)
            }
            K::Bin(op @ (B::And | B::Or | B::Xor), x, y) if self.cval(y).is_some() => {
                let p = self.ext(x, lo, w);
                let q = self.ext(y, lo, w);
                self.bin(op, p, q)
            }
            K::Bin(op @ (B::Add | B::Mul), x, y) if lo == 0 && self.cval(y).is_some() => {
                let p = self.ext(x, 0, w);
                let q = self.ext(y, 0, w);
                self.bin(op, p, q)
            }
            _ => self.mk(K::Ext(a, lo as u16), w),
        }
    }
    pub fn cat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) { return self.c((x << lw) | y, w); }
        if self.cval(h) == Some(0) { return self.zext(l, w); }
        if let (K::Ext(x, xl), K::Ext(y, yl)) = (self.k(h).clone(), self.k(l).clone()) {
            if x == y && xl as u32 == yl as u32 + lw { return self.ext(x, yl as u32, w); }
        }
        // cat(ext(x, n..), x') where x' is the low part kept whole after simplification
        if let (K::Cat(hh, hl), K::Ext(y, yl)) = (self.k(h).clone(), self.k(l).clone()) {
            if let K::Ext(x, xl) = *self.k(hl) {
                if x == y && xl as u32 == yl as u32 + lw { let m = self.ext(x, yl as u32, self.w(hl) + lw); return self.cat(hh, m); }
            }
        }
        if let (K::Ext(x, xl), K::Cat(lh, ll)) = (self.k(h).clone(), self.k(l).clone()) {
            if let K::Ext(y, yl) = *self.k(lh) {
                if x == y && xl as u32 == yl as u32 + self.w(lh) { let m = self.ext(x, yl as u32, hw + self.w(lh)); return self.cat(m, ll); }
            }
        }
        if let (K::Zext(x), _) = (self.k(h).clone(), 0) {
            let t = self.cat(x, l);
            return self.zext(t, w);
        }
        // sign bits: cat(sext-bits, x)
        if let (K::Sext(s), _) = (self.k(h).clone(), 0) {
            if let K::Ext(x, p) = *self.k(s) {
                if self.w(s) == 1 && x == l && p as u32 == lw - 1 { return self.sext(l, w); }
            }
        }
        // cat(ite(c,k1,k2), ite(c,k3,k4)) -> ite(c,..) with constants
        if let (K::Ite(c1, a1, b1), K::Ite(c2, a2, b2)) = (self.k(h).clone(), self.k(l).clone()) {
            if c1 == c2 { let p = self.cat(a1, a2); let q = self.cat(b1, b2); return self.ite(c1, p, q); }
        }
        if let (K::Ite(c1, a1, b1), Some(_)) = (self.k(h).clone(), self.cval(l)) {
            if self.cval(a1).is_some() && self.cval(b1).is_some() { let p = self.cat(a1, l); let q = self.cat(b1, l); return self.ite(c1, p, q); }
        }
        if let (Some(_), K::Ite(c1, a1, b1)) = (self.cval(h), self.k(l).clone()) {
            if self.cval(a1).is_some() && self.cval(b1).is_some() { let p = self.cat(h, a1); let q = self.cat(h, b1); return self.ite(c1, p, q); }
        }
        self.mk(K::Cat(h, l), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match *self.k(a) {
            K::C(v) => self.c(v, w),
            K::Zext(x) => self.zext(x, w),
            K::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let p = self.zext(x, w); let q = self.zext(y, w); self.ite(c, p, q)
            }
            _ => self.mk(K::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match *self.k(a) {
            K::C(v) => self.c(sx(v, aw) as u128, w),
            K::Sext(x) => self.sext(x, w),
            K::Zext(x) => self.zext(x, w),
            K::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let p = self.sext(x, w); let q = self.sext(y, w); self.ite(c, p, q)
            }
            _ => self.mk(K::Sext(a), w),
        }
    }
    pub fn f(&mut self, op: F, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let v = c_f(op, x, y, w); return self.c(v, w); }
        let (mut a, mut b) = (a, b);
        if matches!(op, F::Add | F::Mul) && a > b { std::mem::swap(&mut a, &mut b); }
        // identities that hold for numbers in the known range (never NaN, infinite or -0 where it matters)
        for (x, y, first) in [(a, b, true), (b, a, false)] {
            let c = match self.cval(y) { Some(c) => tof(c, w), None => continue };
            match op {
                F::Mul if c == 1.0 => if self.frange(x).is_some() { return x; },
                F::Mul if c == 0.0 && c.is_sign_positive() => if let Some(r) = self.frange(x) { if r.lo >= 0.0 && !r.nz { return y; } },
                F::Add if c == 0.0 => if let Some(r) = self.frange(x) { if !r.nz || c.is_sign_negative() { return x; } },
                F::Sub if c == 0.0 && first && c.is_sign_positive() => if self.frange(x).is_some() { return x; },
                F::Div if c == 1.0 && first => if self.frange(x).is_some() { return x; },
                _ => (),
            }
        }
        let e = self.mk(K::F(op, a, b), w);
        if let Some(r) = self.frange(e) { if r.lo == r.hi && (r.lo != 0.0 || !r.nz) { return self.c(fromf(r.lo, w), w); } }
        e
    }
    pub fn fcmp(&mut self, op: FC, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let v = c_fcmp(op, x, y, w); return self.c(v as u128, 1); }
        let (mut a, mut b) = (a, b);
        if matches!(op, FC::Eq | FC::Uno) && a > b { std::mem::swap(&mut a, &mut b); }
        if op == FC::Eq {
            for (x, y) in [(a, b), (b, a)] {
                if let (K::FCv(FV::SiToFp, i), Some(0)) | (K::FCv(FV::UiToFp, i), Some(0)) = (self.k(x).clone(), self.cval(y)) {
                    let iw = self.w(i);
                    let z = self.c(0, iw);
                    return self.cmp(C::Eq, i, z);
                }
            }
        }
        if let (Some(x), Some(y)) = (self.frange(a), self.frange(b)) {
            let v = match op {
                FC::Uno => Some(false),
                FC::Lt => if x.hi < y.lo { Some(true) } else if x.lo >= y.hi { Some(false) } else { None },
                FC::Le => if x.hi <= y.lo { Some(true) } else if x.lo > y.hi { Some(false) } else { None },
                FC::Eq => if x.hi < y.lo || x.lo > y.hi { Some(false) } else if a == b { Some(true) } else { None },
            };
            if let Some(v) = v { return self.c(v as u128, 1); }
        }
        self.mk(K::FCmp(op, a, b), 1)
    }
    pub fn fun(&mut self, op: FU, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cval(a) { let v = c_fun(op, x, w); return self.c(v, w); }
        self.mk(K::FUn(op, a), w)
    }
    pub fn fcv(&mut self, op: FV, a: E, w: u32) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cval(a) { let v = c_fcv(op, x, aw, w); return self.c(v, w); }
        self.mk(K::FCv(op, a), w)
    }
    pub fn eval(&self, e: E, vals: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>, uf: &HashMap<E, u128>) -> u128 {
        if let K::C(v) = self.nodes[e as usize].k { return v; }
        if let Some(&v) = memo.get(&e) { return v; }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) { continue; }
            let nd = &self.nodes[x as usize];
            if !done {
                stack.push((x, true));
                match &nd.k {
                    K::C(_) | K::Var(_) => {}
                    K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Cat(a, b) | K::F(_, a, b) | K::FCmp(_, a, b) => { stack.push((*a, false)); stack.push((*b, false)); }
                    K::Ite(a, b, c) => { stack.push((*a, false)); stack.push((*b, false)); stack.push((*c, false)); }
                    K::Ext(a, _) | K::Zext(a) | K::Sext(a) | K::FUn(_, a) | K::FCv(_, a) => stack.push((*a, false)),
                    K::Uf(_, v) => for &a in v { stack.push((a, false)); },
                }
                continue;
            }
            let g = |a: E| -> u128 { if let K::C(v) = self.nodes[a as usize].k { v } else { memo[&a] } };
            let w = nd.w as u32;
            let v = match &nd.k {
                K::C(v) => *v,
                K::Var(i) => *vals.get(i).unwrap_or(&0) & mask(w),
                K::Bin(op, a, b) => c_bin(*op, g(*a), g(*b), w),
                K::Cmp(op, a, b) => c_cmp(*op, g(*a), g(*b), self.w(*a)) as u128,
                K::Ite(c, a, b) => if g(*c) == 1 { g(*a) } else { g(*b) },
                K::Ext(a, lo) => (g(*a) >> lo) & mask(w),
                K::Cat(h, l) => (g(*h) << self.w(*l)) | g(*l),
                K::Zext(a) => g(*a),
                K::Sext(a) => (sx(g(*a), self.w(*a)) as u128) & mask(w),
                K::F(op, a, b) => c_f(*op, g(*a), g(*b), w),
                K::FCmp(op, a, b) => c_fcmp(*op, g(*a), g(*b), self.w(*a)) as u128,
                K::FUn(op, a) => c_fun(*op, g(*a), w),
                K::FCv(op, a) => c_fcv(*op, g(*a), self.w(*a), w),
                K::Uf(i, a) => match uf.get(&x) { Some(v) => *v, None => c_libm(&self.uf_names[*i as usize].0, w, &a.iter().map(|y| g(*y)).collect::<Vec<_>>()) },
            };
            memo.insert(x, v);
        }
        memo[&e]
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        if depth == 0 { return format!("e{}", e); }
        let s = |x: E| self.show(x, depth - 1);
        match &n.k {
            K::C(v) => format!("{:#x}:{}", v, n.w),
            K::Var(v) => format!("v{}:{}", v, n.w),
            K::Bin(o, a, b) => format!("({:?} {} {})", o, s(*a), s(*b)),
            K::Cmp(o, a, b) => format!("({:?} {} {})", o, s(*a), s(*b)),
            K::Ite(a, b, c) => format!("(ite {} {} {})", s(*a), s(*b), s(*c)),
            K::Ext(a, l) => format!("{}[{}+{}]", s(*a), l, n.w),
            K::Cat(a, b) => format!("({}::{})", s(*a), s(*b)),
            K::Zext(a) => format!("zext{}({})", n.w, s(*a)),
            K::Sext(a) => format!("sext{}({})", n.w, s(*a)),
            K::F(o, a, b) => format!("(f{:?} {} {})", o, s(*a), s(*b)),
            K::FCmp(o, a, b) => format!("(f{:?} {} {})", o, s(*a), s(*b)),
            K::FUn(o, a) => format!("(f{:?} {})", o, s(*a)),
            K::FCv(o, a) => format!("({:?}{} {})", o, n.w, s(*a)),
            K::Uf(i, a) => format!("{}({})", self.uf_names[*i as usize].0, a.iter().map(|x| s(*x)).collect::<Vec<_>>().join(",")),
        }
    }
}

/// The mathematical functions on concrete values (symbolically they are uninterpreted).
pub fn c_libm(name: &str, w: u32, av: &[u128]) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(av[0] as u32), if av.len() > 1 { f32::from_bits(av[1] as u32) } else { 0.0 });
        let r = match name { "pow" => x.powf(y), "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "atan2" => x.atan2(y), "atan" => x.atan(), "hypot" => x.hypot(y), "cbrt" => x.cbrt(), "frem" => x % y, _ => f32::NAN };
        return r.to_bits() as u128;
    }
    let (x, y) = (f64::from_bits(av[0] as u64), if av.len() > 1 { f64::from_bits(av[1] as u64) } else { 0.0 });
    let r = match name { "pow" => x.powf(y), "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "atan2" => x.atan2(y), "atan" => x.atan(), "hypot" => x.hypot(y), "cbrt" => x.cbrt(), "frem" => x % y, _ => f64::NAN };
    r.to_bits() as u128
}
