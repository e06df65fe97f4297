//! Minimal FFI to libz3 and translation of expressions to Z3 terms.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, rng: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::exit(4);
}

pub enum R {
    Sat(HashMap<u32, u128>, HashMap<E, u128>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    fp: HashMap<E, P>,
    ufs: HashMap<u32, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    rne: P,
    logic_bv: P,
    logic_fp: P,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let _ = Z3_get_error_code(c);
            let lb = CString::new("QF_BV").unwrap();
            let lf = CString::new("QF_FPBV").unwrap();
            Z3 {
                c, bv: HashMap::new(), bo: HashMap::new(), fp: HashMap::new(), ufs: HashMap::new(),
                queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, timeout_ms, dump: None,
                rne: Z3_mk_fpa_rne(c),
                logic_bv: Z3_mk_string_symbol(c, lb.as_ptr()),
                logic_fp: Z3_mk_string_symbol(c, lf.as_ptr()),
            }
        }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) }
            else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
        }
    }
    fn children(a: &Arena, e: E) -> Vec<E> {
        match a.k(e) {
            K::C(_) | K::Var(_) => vec![],
            K::Bin(_, x, y) | K::Cmp(_, x, y) | K::Cat(x, y) | K::F(_, x, y) | K::FCmp(_, x, y) => vec![*x, *y],
            K::Ite(x, y, z) => vec![*x, *y, *z],
            K::Ext(x, _) | K::Zext(x) | K::Sext(x) | K::FUn(_, x) | K::FCv(_, x) => vec![*x],
            K::Uf(_, v) => v.clone(),
        }
    }
    fn warm(&mut self, a: &Arena, e: E) {
        // translate bottom-up so recursion stays shallow
        let mut st = vec![(e, false)];
        while let Some((x, d)) = st.pop() {
            if self.bv.contains_key(&x) { continue; }
            if d { self.to_bv(a, x); } else {
                st.push((x, true));
                for c in Self::children(a, x) { st.push((c, false)); }
            }
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe { match w { 32 => Z3_mk_fpa_sort_32(self.c), 64 => Z3_mk_fpa_sort_64(self.c), _ => panic!("fp sort {}", w) } }
    }
    pub fn to_bv(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let w = a.w(e);
        let c = self.c;
        let p = unsafe {
            match a.k(e).clone() {
                K::C(v) => self.num(v, w),
                K::Var(i) => {
                    let s = CString::new(format!("v{}", i)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                K::Bin(op, x, y) if !(w == 1 && matches!(op, B::And | B::Or | B::Xor)) => {
                    let (p, q) = (self.to_bv(a, x), self.to_bv(a, y));
                    match op {
                        B::Add => Z3_mk_bvadd(c, p, q), B::Sub => Z3_mk_bvsub(c, p, q), B::Mul => Z3_mk_bvmul(c, p, q),
                        B::UDiv => Z3_mk_bvudiv(c, p, q), B::SDiv => Z3_mk_bvsdiv(c, p, q),
                        B::URem => Z3_mk_bvurem(c, p, q), B::SRem => Z3_mk_bvsrem(c, p, q),
                        B::Shl => Z3_mk_bvshl(c, p, q), B::LShr => Z3_mk_bvlshr(c, p, q), B::AShr => Z3_mk_bvashr(c, p, q),
                        B::And => Z3_mk_bvand(c, p, q), B::Or => Z3_mk_bvor(c, p, q), B::Xor => Z3_mk_bvxor(c, p, q),
                    }
                }
                K::Ite(x, y, z) if w > 1 => {
                    let (p, q, r) = (self.to_bool(a, x), self.to_bv(a, y), self.to_bv(a, z));
                    Z3_mk_ite(c, p, q, r)
                }
                K::Ext(x, lo) => { let p = self.to_bv(a, x); Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, p) }
                K::Cat(x, y) => { let (p, q) = (self.to_bv(a, x), self.to_bv(a, y)); Z3_mk_concat(c, p, q) }
                K::Zext(x) => { let p = self.to_bv(a, x); Z3_mk_zero_ext(c, w - a.w(x), p) }
                K::Sext(x) => { let p = self.to_bv(a, x); Z3_mk_sign_ext(c, w - a.w(x), p) }
                K::F(..) | K::FUn(..) | K::FCv(FV::SiToFp, _) | K::FCv(FV::UiToFp, _) | K::FCv(FV::FpExt, _) | K::FCv(FV::FpTrunc, _) => {
                    let f = self.to_fp(a, e);
                    let nan = self.num(if w == 32 { 0x7fc00000 } else { 0x7ff8000000000000 }, w);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, Z3_mk_fpa_to_ieee_bv(c, f))
                }
                K::FCv(op, x) => {
                    // saturating float -> int (round toward zero)
                    let wf = a.w(x);
                    let f = self.to_fp(a, x);
                    let s = self.fsort(wf);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let signed = op == FV::FpToSi;
                    let bits = |v: f64| -> u128 { if wf == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } };
                    let (lo, hi, vlo, vhi) = if signed {
                        (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w - 1))
                    } else { (0.0, 2f64.powi(w as i32), 0, mask(w)) };
                    let flo = Z3_mk_fpa_to_fp_bv(c, self.num(bits(lo), wf), s);
                    let fhi = Z3_mk_fpa_to_fp_bv(c, self.num(bits(hi), wf), s);
                    let conv = if signed { Z3_mk_fpa_to_sbv(c, rtz, f, w) } else { Z3_mk_fpa_to_ubv(c, rtz, f, w) };
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fhi, f), self.num(vhi, w), conv);
                    let lcond = if signed { Z3_mk_fpa_lt(c, f, flo) } else { Z3_mk_fpa_leq(c, f, flo) };
                    let r = Z3_mk_ite(c, lcond, self.num(vlo, w), r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), self.num(0, w), r)
                }
                K::Uf(i, args) => {
                    let d = match self.ufs.get(&i) {
                        Some(&d) => d,
                        None => {
                            let (n, aw, rw) = a.uf_names[i as usize].clone();
                            let s = CString::new(format!("uf_{}_{}", n, i)).unwrap();
                            let dom: Vec<P> = aw.iter().map(|&x| Z3_mk_bv_sort(c, x as u32)).collect();
                            let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, s.as_ptr()), dom.len() as u32, dom.as_ptr(), Z3_mk_bv_sort(c, rw as u32));
                            self.ufs.insert(i, d);
                            d
                        }
                    };
                    let av: Vec<P> = args.iter().map(|&x| self.to_bv(a, x)).collect();
                    Z3_mk_app(c, d, av.len() as u32, av.as_ptr())
                }
                _ => {
                    let b = self.to_bool(a, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
            }
        };
        self.bv.insert(e, p);
        p
    }
    pub fn to_bool(&mut self, a: &Arena, e: E) -> P {
        debug_assert!(a.w(e) == 1);
        if let Some(&p) = self.bo.get(&e) { return p; }
        let c = self.c;
        let p = unsafe {
            match a.k(e).clone() {
                K::C(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                K::Bin(B::Xor, x, y) => {
                    let p = self.to_bool(a, x);
                    if a.cval(y) == Some(1) { Z3_mk_not(c, p) } else { let q = self.to_bool(a, y); Z3_mk_xor(c, p, q) }
                }
                K::Bin(op @ (B::And | B::Or), x, y) => {
                    let v = [self.to_bool(a, x), self.to_bool(a, y)];
                    if op == B::And { Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_or(c, 2, v.as_ptr()) }
                }
                K::Ite(x, y, z) => { let (p, q, r) = (self.to_bool(a, x), self.to_bool(a, y), self.to_bool(a, z)); Z3_mk_ite(c, p, q, r) }
                K::Cmp(op, x, y) => {
                    let (p, q) = (self.to_bv(a, x), self.to_bv(a, y));
                    match op {
                        C::Eq => Z3_mk_eq(c, p, q), C::Ult => Z3_mk_bvult(c, p, q), C::Ule => Z3_mk_bvule(c, p, q),
                        C::Slt => Z3_mk_bvslt(c, p, q), C::Sle => Z3_mk_bvsle(c, p, q),
                    }
                }
                K::FCmp(op, x, y) => {
                    let (p, q) = (self.to_fp(a, x), self.to_fp(a, y));
                    match op {
                        FC::Eq => Z3_mk_fpa_eq(c, p, q), FC::Lt => Z3_mk_fpa_lt(c, p, q), FC::Le => Z3_mk_fpa_leq(c, p, q),
                        FC::Uno => { let v = [Z3_mk_fpa_is_nan(c, p), Z3_mk_fpa_is_nan(c, q)]; Z3_mk_or(c, 2, v.as_ptr()) }
                    }
                }
                _ => { let p = self.to_bv(a, e); let one = self.num(1, 1); Z3_mk_eq(c, p, one) }
            }
        };
        self.bo.insert(e, p);
        p
    }
    pub fn to_fp(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.fp.get(&e) { return p; }
        let c = self.c;
        let w = a.w(e);
        let s = self.fsort(w);
        let rne = self.rne;
        let p = unsafe {
            match a.k(e).clone() {
                K::F(op, x, y) => {
                    let (p, q) = (self.to_fp(a, x), self.to_fp(a, y));
                    match op {
                        F::Add => Z3_mk_fpa_add(c, rne, p, q), F::Sub => Z3_mk_fpa_sub(c, rne, p, q),
                        F::Mul => Z3_mk_fpa_mul(c, rne, p, q), F::Div => Z3_mk_fpa_div(c, rne, p, q),
                    }
                }
                K::FUn(op, x) => {
                    let p = self.to_fp(a, x);
                    match op {
                        FU::Sqrt => Z3_mk_fpa_sqrt(c, rne, p),
                        FU::Floor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), p),
                        FU::Ceil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), p),
                        FU::Trunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), p),
                        FU::RoundAway => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), p),
                        FU::RoundEven => Z3_mk_fpa_round_to_integral(c, rne, p),
                    }
                }
                K::FCv(FV::SiToFp, x) => { let p = self.to_bv(a, x); Z3_mk_fpa_to_fp_signed(c, rne, p, s) }
                K::FCv(FV::UiToFp, x) => { let p = self.to_bv(a, x); Z3_mk_fpa_to_fp_unsigned(c, rne, p, s) }
                K::FCv(FV::FpExt, x) | K::FCv(FV::FpTrunc, x) => { let p = self.to_fp(a, x); Z3_mk_fpa_to_fp_float(c, rne, p, s) }
                K::Ite(x, y, z) => { let (p, q, r) = (self.to_bool(a, x), self.to_fp(a, y), self.to_fp(a, z)); Z3_mk_ite(c, p, q, r) }
                _ => { let p = self.to_bv(a, e); Z3_mk_fpa_to_fp_bv(c, p, s) }
            }
        };
        self.fp.insert(e, p);
        p
    }
    pub fn check(&mut self, a: &Arena, cons: &[E]) -> R {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let c = self.c;
        let mut fp = false;
        let mut uf = vec![];
        let mut vars: Vec<u32> = vec![];
        for &e in cons {
            fp |= a.nodes[e as usize].fp;
            vars.extend(a.nodes[e as usize].vars.iter());
            self.warm(a, e);
        }
        vars.sort();
        vars.dedup();
        if !a.uf_names.is_empty() {
            let mut seen = std::collections::HashSet::new();
            let mut st: Vec<E> = cons.to_vec();
            while let Some(x) = st.pop() {
                if !seen.insert(x) { continue; }
                if let K::Uf(..) = a.k(x) { uf.push(x); }
                st.extend(Self::children(a, x));
            }
        }
        let r = unsafe {
            let s = if !uf.is_empty() { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, if fp { self.logic_fp } else { self.logic_bv }) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(c, s, p);
            for &e in cons { let b = self.to_bool(a, e); Z3_solver_assert(c, s, b); }
            if let Some(d) = &self.dump {
                let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), t + "(check-sat)\n");
            }
            let r = match Z3_solver_check(c, s) {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = HashMap::new();
                    let get = |p: P, w: u32| -> u128 {
                        let rd = |q: P| -> u64 {
                            let mut o: P = std::ptr::null_mut();
                            let mut v = 0u64;
                            if !Z3_model_eval(c, m, q, true, &mut o) || !Z3_get_numeral_uint64(c, o, &mut v) { eprintln!("z3 model eval failed"); std::process::exit(4); }
                            v
                        };
                        if w <= 64 { rd(p) as u128 } else {
                            let lo = rd(Z3_mk_extract(c, 63, 0, p));
                            let hi = rd(Z3_mk_extract(c, w - 1, 64, p));
                            ((hi as u128) << 64) | lo as u128
                        }
                    };
                    for v in vars {
                        let w = a.var_w[v as usize] as u32;
                        let nm = CString::new(format!("v{}", v)).unwrap();
                        let p = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w));
                        out.insert(v, get(p, w));
                    }
                    let mut um = HashMap::new();
                    for x in uf { let p = self.to_bv(a, x); um.insert(x, get(p, a.w(x))); }
                    Z3_model_dec_ref(c, m);
                    R::Sat(out, um)
                }
                -1 => { self.unsat += 1; R::Unsat }
                _ => { self.unknown += 1; R::Unknown }
            };
            Z3_solver_dec_ref(c, s);
            r
        };
        let t = t0.elapsed().as_secs_f64();
        self.time += t;
        if t > self.max_time { self.max_time = t; }
        r
    }
}
