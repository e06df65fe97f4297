//! Forking symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Z3, R};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP_BASE: u64 = 0x1000_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: BTreeMap<u32, E>, pub ro: bool }

#[derive(Clone)]
pub enum Slot { Empty, Freed, Obj(Rc<Obj>), Cont(u32) }

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub bb: u32, pub ip: u32, pub regs: Vec<Val>, pub sbase: usize, pub dst: u32, pub cont: Option<u32> }

pub struct Model { pub vals: HashMap<u32, u128>, pub uf: HashMap<E, u128>, pub memo: RefCell<HashMap<E, u128>> }

#[derive(Clone)]
pub struct AnyRec { pub tag: u32, pub w: u32, pub val: Val, pub float: bool }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Rc<Vec<Slot>>>,
    pub nheap: u32,
    pub stack: Vec<Rc<Obj>>,
    pub globals: HashMap<u32, Rc<Obj>>,
    pub path: Vec<E>,
    pub model: Rc<Model>,
    pub fixed: Rc<HashSet<u32>>,
    pub known: Rc<HashMap<E, u128>>,
    pub anys: Vec<AnyRec>,
    pub streams: Vec<Rc<Vec<Val>>>,
    pub symhash: Vec<(u32, u128)>,
    pub conchash: Rc<HashMap<Vec<u8>, u128>>,
    pub covers: Vec<u32>,
    pub errno: u64,
    pub steps: u64,
    pub time: u64,
    pub id: u64,
}

pub enum Stop { Viol(String, String), Incon(String), End, Killed }
type X<T> = Result<T, Stop>;

pub struct Violation { pub kind: String, pub key: String, pub values: Vec<(u32, u32, u128, bool)>, pub trace: Vec<String> }

pub struct Cfg { pub max_steps: u64, pub max_time: f64, pub max_paths: u64, pub max_viol: usize, pub verbose: bool, pub conc_limit: u32, pub stop_keys: HashSet<String> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub forks: u64, pub steps: u64, pub asserts: u64, pub asserts_solver: u64, pub assumes: u64, pub infeasible: u64,
    pub branch_queries: u64, pub cache_hits: u64, pub concretised: u64, pub killed_assume: u64, pub guessed: u64,
}

pub struct Eng {
    pub m: Module,
    pub a: Arena,
    pub z: Z3,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub st: Stats,
    gcache: HashMap<u32, Rc<Obj>>,
    qcache: HashMap<Vec<E>, Option<(Rc<HashMap<u32, u128>>, Rc<HashMap<E, u128>>)>>,
    pub viols: Vec<Violation>,
    pub witnesses: Vec<(Vec<(u32, u32, u128, bool)>, Vec<u32>)>,
    pub incon: Vec<String>,
    pub covers: BTreeMap<u32, u64>,
    pub assert_ids: BTreeMap<u32, (u64, u64)>,
    pub executed: HashSet<u32>,
    pub t0: Instant,
    next_id: u64,
    pub fork_sites: HashMap<(u32, u32), u64>,
}

#[inline]
fn mix(mut h: u64, b: u64) -> u64 { h ^= b; h = h.wrapping_mul(0x9E3779B97F4A7C15); h ^= h >> 29; h = h.wrapping_mul(0xBF58476D1CE4E5B9); h ^ (h >> 32) }

impl State {
    #[inline]
    fn top(&mut self) -> &mut Frame { Rc::make_mut(self.frames.last_mut().unwrap()) }
    #[inline]
    fn fr(&self) -> &Frame { self.frames.last().unwrap() }
    fn slot(&self, i: u32) -> &Slot {
        match self.heap.get((i >> 6) as usize) { Some(c) => &c[(i & 63) as usize], None => &Slot::Empty }
    }
    fn slot_mut(&mut self, i: u32) -> &mut Slot {
        while self.heap.len() <= (i >> 6) as usize { self.heap.push(Rc::new(vec![Slot::Empty; 64])); }
        &mut Rc::make_mut(&mut self.heap[(i >> 6) as usize])[(i & 63) as usize]
    }
    fn alloc(&mut self, size: u64, zero: bool) -> u64 {
        let _ = zero;
        let i = self.nheap;
        let n = (size >> SLOT) as u32 + 1;
        self.nheap += n;
        *self.slot_mut(i) = Slot::Obj(Rc::new(Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), ro: false }));
        for k in 1..n { *self.slot_mut(i + k) = Slot::Cont(i); }
        HEAP_BASE + ((i as u64) << SLOT)
    }
    fn alloca(&mut self, size: u64) -> u64 {
        let i = self.stack.len() as u64;
        self.stack.push(Rc::new(Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), ro: false }));
        STACK_BASE + (i << SLOT)
    }
}

impl Eng {
    pub fn new(m: Module, cfg: Cfg, solver_ms: u32) -> Eng {
        Eng { m, a: Arena::new(), z: Z3::new(solver_ms), work: vec![], cfg, st: Stats::default(), gcache: HashMap::new(), qcache: HashMap::new(), viols: vec![], witnesses: vec![], incon: vec![], covers: BTreeMap::new(), assert_ids: BTreeMap::new(), executed: HashSet::new(), t0: Instant::now(), next_id: 1, fork_sites: HashMap::new() }
    }
    // ---------------------------------------------------------------- memory
    fn global_obj(&mut self, gi: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&gi) { return Ok(o.clone()); }
        let g = &self.m.globals[gi as usize];
        let v = self.m.init_val(g).map_err(|e| Stop::Incon(format!("global init {}: {}", g.name, e)))?;
        let mut data = vec![0u8; g.size as usize];
        fn put(t: &Ty, v: &Val, d: &mut [u8]) {
            match v {
                Val::C(x) => { let n = t.store_size() as usize; for i in 0..n { d[i] = (x >> (8 * i)) as u8; } }
                Val::A(vs) => {
                    let bitvec = matches!(t, Ty::Vec(_, e) if e.bits() % 8 != 0);
                    assert!(!bitvec);
                    for (i, x) in vs.iter().enumerate() { let o = t.field_off(i) as usize; put(t.elem(i), x, &mut d[o..]); }
                }
                Val::S(_) => unreachable!(),
            }
        }
        put(&g.ty, &v, &mut data);
        let o = Rc::new(Obj { size: g.size, data, sym: BTreeMap::new(), ro: g.constant });
        self.gcache.insert(gi, o.clone());
        Ok(o)
    }
    fn merr<T>(&self, what: &str, addr: u64, n: u64) -> X<T> { Err(Stop::Viol("memory".into(), format!("{} of {} bytes at invalid address {:#x}", what, n, addr))) }
    fn robj(&mut self, st: &State, addr: u64, n: u64, what: &str) -> X<(Rc<Obj>, u64)> {
        if addr >= STACK_BASE {
            let i = (addr - STACK_BASE) >> SLOT;
            let off = addr & ((1 << SLOT) - 1);
            if let Some(o) = st.stack.get(i as usize) { if off + n <= o.size { return Ok((o.clone(), off)); } }
        } else if addr >= GLOBAL_BASE {
            let s = (addr - GLOBAL_BASE) >> SLOT;
            if let Some(&gi) = self.m.gslot.get(s as usize) {
                let o = match st.globals.get(&gi) { Some(o) => o.clone(), None => self.global_obj(gi)? };
                let off = addr - self.m.globals[gi as usize].addr;
                if off + n <= o.size { return Ok((o, off)); }
            }
        } else if addr >= HEAP_BASE && addr < FUNC_BASE {
            let mut s = ((addr - HEAP_BASE) >> SLOT) as u32;
            if let Slot::Cont(b) = st.slot(s) { s = *b; }
            let off = addr - (HEAP_BASE + ((s as u64) << SLOT));
            match st.slot(s) {
                Slot::Obj(o) => if off + n <= o.size { return Ok((o.clone(), off)); },
                Slot::Freed => return self.merr(&format!("use after free: {}", what), addr, n),
                _ => {}
            }
        }
        self.merr(what, addr, n)
    }
    fn wobj<'s>(&mut self, st: &'s mut State, addr: u64, n: u64) -> X<(&'s mut Obj, u64)> {
        if addr >= STACK_BASE {
            let i = (addr - STACK_BASE) >> SLOT;
            let off = addr & ((1 << SLOT) - 1);
            if let Some(o) = st.stack.get_mut(i as usize) { if off + n <= o.size { return Ok((Rc::make_mut(o), off)); } }
            return self.merr("write", addr, n);
        } else if addr >= GLOBAL_BASE {
            let s = (addr - GLOBAL_BASE) >> SLOT;
            if let Some(&gi) = self.m.gslot.get(s as usize) {
                if !st.globals.contains_key(&gi) { let o = self.global_obj(gi)?; st.globals.insert(gi, o); }
                let base = self.m.globals[gi as usize].addr;
                let o = st.globals.get_mut(&gi).unwrap();
                let off = addr - base;
                if off + n <= o.size && !o.ro { return Ok((Rc::make_mut(o), off)); }
            }
            return self.merr("write", addr, n);
        } else if addr >= HEAP_BASE && addr < FUNC_BASE {
            let mut s = ((addr - HEAP_BASE) >> SLOT) as u32;
            if let Slot::Cont(b) = st.slot(s) { s = *b; }
            let off = addr - (HEAP_BASE + ((s as u64) << SLOT));
            if matches!(st.slot(s), Slot::Freed) { return self.merr("use after free: write", addr, n); }
            if matches!(st.slot(s), Slot::Empty | Slot::Cont(_)) { return self.merr("write", addr, n); }
            match st.slot_mut(s) {
                Slot::Obj(o) => if off + n <= o.size { return Ok((Rc::make_mut(o), off)); },
                _ => {}
            }
        }
        self.merr("write", addr, n)
    }
    fn read_bytes_obj(&mut self, o: &Obj, off: u64, n: u64) -> Val {
        // little endian integer of n bytes (n<=16)
        let any_sym = !o.sym.is_empty() && o.sym.range(off as u32..(off + n) as u32).next().is_some();
        if !any_sym {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | o.data[(off + i) as usize] as u128; }
            return Val::C(v);
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let k = (off + i) as u32;
            let b = match o.sym.get(&k) { Some(&e) => e, None => self.a.c(o.data[k as usize] as u128, 8) };
            acc = Some(match acc { None => b, Some(l) => self.a.cat(b, l) });
        }
        let e = acc.unwrap();
        match self.a.cval(e) { Some(v) => Val::C(v), None => Val::S(e) }
    }
    fn write_val(&mut self, o: &mut Obj, off: u64, n: u64, v: &Val, w: u32) {
        match v {
            Val::C(x) => {
                for i in 0..n { o.data[(off + i) as usize] = (x >> (8 * i)) as u8; }
                if !o.sym.is_empty() { for i in 0..n { o.sym.remove(&((off + i) as u32)); } }
            }
            Val::S(e) => {
                let e = if w as u64 != n * 8 { self.a.zext(*e, (n * 8) as u32) } else { *e };
                for i in 0..n {
                    let b = self.a.ext(e, 8 * i as u32, 8);
                    match self.a.cval(b) {
                        Some(x) => { o.data[(off + i) as usize] = x as u8; o.sym.remove(&((off + i) as u32)); }
                        None => { o.sym.insert((off + i) as u32, b); }
                    }
                }
            }
            Val::A(_) => unreachable!(),
        }
    }
    pub fn load(&mut self, st: &State, t: &Ty, addr: u64) -> X<Val> {
        if t.scalar() {
            let n = t.store_size();
            let (o, off) = self.robj(st, addr, n, "read")?;
            let v = self.read_bytes_obj(&o, off, n);
            let w = t.bits();
            if w as u64 != n * 8 { return Ok(match v { Val::C(x) => Val::C(x & mask(w)), Val::S(e) => { let r = self.a.ext(e, 0, w); self.mk(r) } x => x }); }
            return Ok(v);
        }
        match t {
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let iv = self.load(st, &Ty::I((*n as u32) * e.bits()), addr)?;
                self.bitcast(&Ty::I((*n as u32) * e.bits()), t, iv)
            }
            _ => {
                let mut v = Vec::with_capacity(t.nelem());
                for i in 0..t.nelem() { v.push(self.load(st, t.elem(i), addr + t.field_off(i))?); }
                Ok(Val::A(Rc::new(v)))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, t: &Ty, v: &Val, addr: u64) -> X<()> {
        if t.scalar() {
            let n = t.store_size();
            let w = t.bits();
            // borrow dance: arena is in self, object in st
            let me = self as *mut Eng;
            let (o, off) = self.wobj(st, addr, n)?;
            unsafe { (*me).write_val(o, off, n, v, w); }
            return Ok(());
        }
        match t {
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let it = Ty::I((*n as u32) * e.bits());
                let iv = self.bitcast(t, &it, v.clone())?;
                self.store(st, &it, &iv, addr)
            }
            _ => {
                if let Val::A(vs) = v { for i in 0..t.nelem() { self.store(st, t.elem(i), &vs[i], addr + t.field_off(i))?; } }
                Ok(())
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.robj(st, s, n, "read")?;
        let bytes: Vec<u8> = so.data[soff as usize..(soff + n) as usize].to_vec();
        let syms: Vec<(u32, E)> = if so.sym.is_empty() { vec![] } else { so.sym.range(soff as u32..(soff + n) as u32).map(|(k, v)| (k - soff as u32, *v)).collect() };
        drop(so);
        let (o, off) = self.wobj(st, d, n)?;
        o.data[off as usize..(off + n) as usize].copy_from_slice(&bytes);
        if !o.sym.is_empty() {
            let ks: Vec<u32> = o.sym.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
            for k in ks { o.sym.remove(&k); }
        }
        for (k, e) in syms { o.sym.insert(off as u32 + k, e); }
        Ok(())
    }
    fn rbyte(&mut self, st: &State, a: u64) -> X<Val> { self.load(st, &Ty::I(8), a) }
    // ---------------------------------------------------------------- values
    #[inline]
    fn mk(&self, e: E) -> Val { match self.a.cval(e) { Some(v) => Val::C(v), None => Val::S(e) } }
    fn norm(&self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            if !st.fixed.is_empty() {
                let vs = &self.a.nodes[e as usize].vars;
                if vs.iter().all(|x| st.fixed.contains(x)) && !self.has_uf(e) { return Val::C(self.eval(st, e)); }
            }
            if !st.known.is_empty() { if let Some(k) = st.known.get(&e) { return Val::C(*k); } }
        }
        v
    }
    fn has_uf(&self, _e: E) -> bool { !self.a.uf_names.is_empty() }
    fn ex(&mut self, v: &Val, w: u32) -> E { match v { Val::C(x) => self.a.c(*x, w), Val::S(e) => *e, Val::A(_) => panic!("agg as scalar") } }
    fn eval(&self, st: &State, e: E) -> u128 { let m = &st.model; self.a.eval(e, &m.vals, &mut m.memo.borrow_mut(), &m.uf) }
    fn bin(&mut self, op: B, w: u32, x: &Val, y: &Val) -> Val {
        if let (Val::C(a), Val::C(b)) = (x, y) { return Val::C(c_bin(op, *a, *b, w)); }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = self.a.bin(op, a, b);
        self.mk(r)
    }
    fn cmp(&mut self, op: C, w: u32, x: &Val, y: &Val) -> Val {
        if let (Val::C(a), Val::C(b)) = (x, y) { return Val::C(c_cmp(op, *a, *b, w) as u128); }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = self.a.cmp(op, a, b);
        self.mk(r)
    }
    fn notv(&mut self, x: Val) -> Val { match x { Val::C(a) => Val::C(a ^ 1), Val::S(e) => { let r = self.a.not(e); self.mk(r) } x => x } }
    fn icmp(&mut self, p: &str, w: u32, x: &Val, y: &Val) -> Val {
        match p {
            "eq" => self.cmp(C::Eq, w, x, y),
            "ne" => { let r = self.cmp(C::Eq, w, x, y); self.notv(r) }
            "ult" => self.cmp(C::Ult, w, x, y), "ule" => self.cmp(C::Ule, w, x, y),
            "ugt" => self.cmp(C::Ult, w, y, x), "uge" => self.cmp(C::Ule, w, y, x),
            "slt" => self.cmp(C::Slt, w, x, y), "sle" => self.cmp(C::Sle, w, x, y),
            "sgt" => self.cmp(C::Slt, w, y, x), "sge" => self.cmp(C::Sle, w, y, x),
            _ => panic!("icmp {}", p),
        }
    }
    fn fc(&mut self, op: FC, w: u32, x: &Val, y: &Val) -> Val {
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = self.a.fcmp(op, a, b);
        self.mk(r)
    }
    fn fcmp(&mut self, p: &str, w: u32, x: &Val, y: &Val) -> Val {
        match p {
            "false" => Val::C(0), "true" => Val::C(1),
            "oeq" => self.fc(FC::Eq, w, x, y), "olt" => self.fc(FC::Lt, w, x, y), "ole" => self.fc(FC::Le, w, x, y),
            "ogt" => self.fc(FC::Lt, w, y, x), "oge" => self.fc(FC::Le, w, y, x),
            "uno" => self.fc(FC::Uno, w, x, y),
            "ord" => { let r = self.fc(FC::Uno, w, x, y); self.notv(r) }
            "une" => { let r = self.fc(FC::Eq, w, x, y); self.notv(r) }
            "ult" => { let r = self.fc(FC::Le, w, y, x); self.notv(r) }
            "ule" => { let r = self.fc(FC::Lt, w, y, x); self.notv(r) }
            "ugt" => { let r = self.fc(FC::Le, w, x, y); self.notv(r) }
            "uge" => { let r = self.fc(FC::Lt, w, x, y); self.notv(r) }
            "one" => { let p = self.fc(FC::Lt, w, x, y); let q = self.fc(FC::Lt, w, y, x); self.bin(B::Or, 1, &p, &q) }
            "ueq" => { let p = self.fc(FC::Eq, w, x, y); let q = self.fc(FC::Uno, w, x, y); self.bin(B::Or, 1, &p, &q) }
            _ => panic!("fcmp {}", p),
        }
    }
    fn fbin(&mut self, op: F, w: u32, x: &Val, y: &Val) -> Val {
        if let (Val::C(a), Val::C(b)) = (x, y) { return Val::C(c_f(op, *a, *b, w)); }
        // x * 1, x / 1, x - 0, x + -0 are x (a NaN stays a NaN; its payload is not specified), as LLVM's own folding has it
        let one: u128 = match w { 32 => 0x3f800000, 64 => 0x3ff0000000000000, _ => u128::MAX };
        let neg: u128 = if w == 32 { 1 << 31 } else { 1 << 63 };
        match (op, x, y) {
            (F::Mul, _, Val::C(c)) | (F::Div, _, Val::C(c)) if *c == one => return x.clone(),
            (F::Mul, Val::C(c), _) if *c == one => return y.clone(),
            (F::Sub, _, Val::C(0)) if w == 32 || w == 64 => return x.clone(),
            (F::Add, _, Val::C(c)) if *c == neg && (w == 32 || w == 64) => return x.clone(),
            (F::Add, Val::C(c), _) if *c == neg && (w == 32 || w == 64) => return y.clone(),
            _ => (),
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = self.a.f(op, a, b);
        self.mk(r)
    }
    fn ite(&mut self, c: &Val, w: u32, x: &Val, y: &Val) -> Val {
        match c {
            Val::C(1) => x.clone(), Val::C(_) => y.clone(),
            Val::S(ce) => { let (a, b) = (self.ex(x, w), self.ex(y, w)); let r = self.a.ite(*ce, a, b); self.mk(r) }
            _ => panic!(),
        }
    }
    fn bitcast(&mut self, ft: &Ty, tt: &Ty, v: Val) -> X<Val> {
        if ft.scalar() && tt.scalar() { return Ok(v); }
        fn flat(t: &Ty, v: &Val, out: &mut Vec<(Val, u32)>) {
            if t.scalar() { out.push((v.clone(), t.bits())); } else if let Val::A(vs) = v { for i in 0..vs.len() { flat(t.elem(i), &vs[i], out); } }
        }
        let mut parts = vec![];
        flat(ft, &v, &mut parts);
        let total: u32 = parts.iter().map(|p| p.1).sum();
        if total > 128 { return Err(Stop::Incon("wide bitcast".into())); }
        let whole = if parts.iter().all(|p| matches!(p.0, Val::C(_))) {
            let mut acc = 0u128; let mut sh = 0;
            for (p, w) in &parts { if let Val::C(x) = p { acc |= x << sh; } sh += w; }
            Val::C(acc)
        } else {
            let mut acc: Option<E> = None;
            for (p, w) in &parts { let e = self.ex(p, *w); acc = Some(match acc { None => e, Some(l) => self.a.cat(e, l) }); }
            self.mk(acc.unwrap())
        };
        if tt.scalar() { return Ok(whole); }
        let w = tt.elem(0).bits();
        let mut out = vec![];
        for i in 0..tt.nelem() as u32 {
            out.push(match &whole { Val::C(x) => Val::C((x >> (i * w)) & mask(w)), Val::S(e) => { let r = self.a.ext(*e, i * w, w); self.mk(r) } _ => panic!() });
        }
        Ok(Val::A(Rc::new(out)))
    }
    fn cast(&mut self, k: Cast, ft: &Ty, tt: &Ty, v: &Val) -> X<Val> {
        if k == Cast::Same { return Ok(v.clone()); }
        if k == Cast::Bitcast { return self.bitcast(ft, tt, v.clone()); }
        if let Val::A(vs) = v {
            let mut out = vec![];
            for (i, x) in vs.iter().enumerate() { out.push(self.cast(k, ft.elem(i), tt.elem(i), x)?); }
            return Ok(Val::A(Rc::new(out)));
        }
        let (wf, wt) = (ft.bits(), tt.bits());
        if matches!(k, Cast::Fpext | Cast::Fptrunc) && (*ft == Ty::F16 || *tt == Ty::F16) { return Err(Stop::Incon("half float conversion".into())); }
        Ok(match v {
            Val::C(x) => Val::C(match k {
                Cast::Trunc => x & mask(wt), Cast::Zext => *x, Cast::Sext => (sx(*x, wf) as u128) & mask(wt),
                Cast::Fptosi => c_fcv(FV::FpToSi, *x, wf, wt), Cast::Fptoui => c_fcv(FV::FpToUi, *x, wf, wt),
                Cast::Sitofp => c_fcv(FV::SiToFp, *x, wf, wt), Cast::Uitofp => c_fcv(FV::UiToFp, *x, wf, wt),
                Cast::Fpext => c_fcv(FV::FpExt, *x, wf, wt), Cast::Fptrunc => c_fcv(FV::FpTrunc, *x, wf, wt), _ => panic!(),
            }),
            Val::S(e) => {
                let r = match k {
                    Cast::Trunc => self.a.ext(*e, 0, wt), Cast::Zext => self.a.zext(*e, wt), Cast::Sext => self.a.sext(*e, wt),
                    Cast::Fptosi => self.a.fcv(FV::FpToSi, *e, wt), Cast::Fptoui => self.a.fcv(FV::FpToUi, *e, wt),
                    Cast::Sitofp => self.a.fcv(FV::SiToFp, *e, wt), Cast::Uitofp => self.a.fcv(FV::UiToFp, *e, wt),
                    Cast::Fpext => self.a.fcv(FV::FpExt, *e, wt), Cast::Fptrunc => self.a.fcv(FV::FpTrunc, *e, wt), _ => panic!(),
                };
                self.mk(r)
            }
            _ => panic!(),
        })
    }
    // ---------------------------------------------------------------- solver
    fn query(&mut self, st: &State, extra: E) -> X<Option<Rc<Model>>> {
        // slice
        let mut vars: BTreeSet<u32> = self.a.nodes[extra as usize].vars.iter().cloned().collect();
        let mut used = vec![false; st.path.len()];
        let mut slice = vec![extra];
        let uf = !self.a.uf_names.is_empty();
        loop {
            let mut ch = false;
            for (i, &c) in st.path.iter().enumerate() {
                if used[i] { continue; }
                let cv = &self.a.nodes[c as usize].vars;
                if uf || cv.iter().any(|v| vars.contains(v)) {
                    used[i] = true; ch = true; slice.push(c);
                    for v in cv.iter() { vars.insert(*v); }
                }
            }
            if !ch { break; }
        }
        let mut key = slice.clone();
        key.sort();
        key.dedup();
        let hit = self.qcache.get(&key).cloned();
        let r = match hit {
            Some(r) => { self.st.cache_hits += 1; r }
            None => {
                // a path constraint equal to !extra makes it trivially unsat
                let n = self.a.not(extra);
                let r = if st.path.contains(&n) { None } else if let Some(v) = self.guess(st, &key) { Some((Rc::new(v), Rc::new(HashMap::new()))) } else {
                    let t0 = std::time::Instant::now();
                    let rr = self.z.check(&self.a, &key);
                    if t0.elapsed().as_secs() >= 3 && std::env::var("OCG_SLOW").is_ok() { eprintln!("SLOW {}s extra {}", t0.elapsed().as_secs(), self.a.show(extra, 12)); for k in key.iter() { eprintln!("   {}", self.a.show(*k, 6)); } }
                    match rr {
                        R::Sat(v, u) => {
                            // the real functions, where they satisfy the query too
                            let (mut memo, none) = (HashMap::new(), HashMap::new());
                            let real = u.is_empty() || key.iter().all(|e| self.a.eval(*e, &v, &mut memo, &none) == 1);
                            Some((Rc::new(v), Rc::new(if real { HashMap::new() } else { u })))
                        }
                        R::Unsat => None,
                        R::Unknown => return Err(Stop::Incon(format!("solver returned unknown ({} constraints)", key.len()))),
                    }
                };
                self.qcache.insert(key, r.clone());
                r
            }
        };
        Ok(r.map(|(v, u)| {
            let mut vals = st.model.vals.clone();
            for (k, x) in v.iter() { vals.insert(*k, *x); }
            let mut um = st.model.uf.clone();
            for (k, x) in u.iter() { um.insert(*k, *x); }
            Rc::new(Model { vals, uf: um, memo: RefCell::new(HashMap::new()) })
        }))
    }
    /// A satisfying assignment of a floating-point query is often found by evaluating a few assignments;
    /// only the solver answers "none".
    fn guess(&mut self, st: &State, key: &[E]) -> Option<HashMap<u32, u128>> {
        if !key.iter().any(|e| self.a.nodes[*e as usize].fp) { return None; }
        let mut vars: Vec<u32> = key.iter().flat_map(|e| self.a.nodes[*e as usize].vars.iter().cloned()).collect();
        vars.sort();
        vars.dedup();
        let none = HashMap::new();
        let mut x: u64 = 0x9e3779b97f4a7c15;
        for round in 0..48u64 {
            let mut vals = HashMap::new();
            for v in &vars {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                let cur = *st.model.vals.get(v).unwrap_or(&0);
                let keep = st.fixed.contains(v) || (round % 3 == 1 && x & 1 == 0);
                let val = if keep { cur } else if let Some((lo, hi)) = self.a.var_range.get(v) {
                    let t = [0.25, 0.5, 0.75, 0.125, 0.0, 1.0, 0.3, 0.9][(x >> 8) as usize % 8];
                    ((lo + (hi - lo) * t) as f32).to_bits() as u128
                } else if round % 2 == 0 { ((x >> 20) as f32 / (1u64 << 40) as f32).to_bits() as u128 } else { (x >> 3) as u128 & 0xffff_ffff };
                vals.insert(*v, val);
            }
            let mut memo = HashMap::new();
            if key.iter().all(|e| self.a.eval(*e, &vals, &mut memo, &none) == 1) { self.st.guessed += 1; return Some(vals); }
        }
        None
    }
    fn add_con(&mut self, st: &mut State, c: E) {
        if self.a.cval(c).is_some() { return; }
        if let K::Bin(B::And, x, y) = *self.a.k(c) { self.add_con(st, x); self.add_con(st, y); return; }
        if let K::Cmp(C::Eq, x, k) = *self.a.k(c) {
            if let Some(kv) = self.a.cval(k) {
                if let K::Var(v) = *self.a.k(x) { Rc::make_mut(&mut st.fixed).insert(v); }
                Rc::make_mut(&mut st.known).insert(x, kv);
            }
        } else if self.a.nodes[c as usize].w == 1 {
            Rc::make_mut(&mut st.known).insert(c, 1);
            let n = self.a.not(c);
            Rc::make_mut(&mut st.known).insert(n, 0);
            if let K::Var(v) = *self.a.k(c) { Rc::make_mut(&mut st.fixed).insert(v); }
            if let K::Var(v) = *self.a.k(n) { Rc::make_mut(&mut st.fixed).insert(v); }
        }
        if !st.path.contains(&c) { st.path.push(c); }
    }
    fn fork(&mut self, st: &State) -> State {
        self.st.forks += 1;
        let mut n = st.clone();
        n.id = self.next_id;
        self.next_id += 1;
        let f = st.fr();
        *self.fork_sites.entry((f.f.id, f.bb)).or_insert(0) += 1;
        n
    }
    /// Decide a boolean; forks the state when both outcomes are feasible. The forked state re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: &Val) -> X<bool> {
        let c = self.norm(st, c.clone());
        let e = match c { Val::C(x) => return Ok(x & 1 == 1), Val::S(e) => e, _ => panic!() };
        let v = self.eval(st, e) == 1;
        let ne = self.a.not(e);
        let other = if v { ne } else { e };
        self.st.branch_queries += 1;
        match self.query(st, other)? {
            None => { Rc::make_mut(&mut st.known).insert(e, v as u128); Ok(v) }
            Some(m) => {
                let mut o = self.fork(st);
                o.model = m;
                self.add_con(&mut o, other);
                self.work.push(o);
                self.add_con(st, if v { e } else { ne });
                Ok(v)
            }
        }
    }
    /// Concretise a scalar by forking over all feasible values.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> X<u128> {
        let v = self.norm(st, v.clone());
        let e = match v { Val::C(x) => return Ok(x), Val::S(e) => e, _ => panic!("conc agg") };
        self.st.concretised += 1;
        let x = self.eval(st, e);
        let k = self.a.c(x, w);
        let eq = self.a.eq(e, k);
        let ne = self.a.not(eq);
        match self.query(st, ne)? {
            None => { Rc::make_mut(&mut st.known).insert(e, x); Ok(x) }
            Some(m) => {
                let mut o = self.fork(st);
                o.model = m;
                self.add_con(&mut o, ne);
                self.work.push(o);
                self.add_con(st, eq);
                Rc::make_mut(&mut st.known).insert(e, x);
                Ok(x)
            }
        }
    }
    /// A load of a small integer at a symbolic place of a small constant table: a tree of comparisons instead of one path per place.
    fn table(&mut self, st: &mut State, t: &Ty, p: &Val) -> X<Option<Val>> {
        let w = match t { Ty::I(w) if *w <= 32 && *w % 8 == 0 => *w, _ => return Ok(None) };
        let e = match self.norm(st, p.clone()) { Val::S(e) => e, _ => return Ok(None) };
        let x = self.eval(st, e) as u64;
        if x < GLOBAL_BASE || x >= STACK_BASE { return Ok(None); }
        let gi = match self.m.gslot.get(((x - GLOBAL_BASE) >> SLOT) as usize) { Some(&g) => g, None => return Ok(None) };
        let g = &self.m.globals[gi as usize];
        let (base, size, n) = (g.addr, g.size, (w / 8) as u64);
        if !g.constant || size > 512 || size < n || st.globals.contains_key(&gi) { return Ok(None); }
        let kb = self.a.c(base as u128, 64);
        let off = self.a.bin(B::Sub, e, kb);
        let kl = self.a.c((size - n) as u128, 64);
        let bad = self.a.cmp(C::Ult, kl, off);
        if self.a.cval(bad) != Some(0) && self.query(st, bad)?.is_some() { return Ok(None); }
        let o = self.global_obj(gi)?;
        let mut step = 1u64;
        while step < n { let b = self.a.ext(off, 0, step.trailing_zeros() + 1); if self.a.cval(b) != Some(0) { break; } step *= 2; }
        let mut runs: Vec<(u64, u128)> = vec![]; // first offset, value
        let mut k = 0;
        while k + n <= size {
            let v = match self.read_bytes_obj(&o, k, n) { Val::C(v) => v, _ => return Ok(None) };
            if runs.last().map(|r| r.1) != Some(v) { runs.push((k, v)); }
            k += step;
        }
        let off = self.a.ext(off, 0, 16);
        let r = self.tree(off, &runs, w);
        Ok(Some(self.mk(r)))
    }
    fn tree(&mut self, off: E, r: &[(u64, u128)], w: u32) -> E {
        if r.len() == 1 { return self.a.c(r[0].1, w); }
        let h = r.len() / 2;
        let k = self.a.c(r[h].0 as u128, 16);
        let c = self.a.cmp(C::Ult, off, k);
        let (a, b) = (self.tree(off, &r[..h], w), self.tree(off, &r[h..], w));
        self.a.ite(c, a, b)
    }
    fn addr(&mut self, st: &mut State, v: &Val) -> X<u64> { match v { Val::C(x) => Ok(*x as u64), _ => Ok(self.conc(st, v, 64)? as u64) } }

    fn values(&self, st: &State, model: &Model) -> Vec<(u32, u32, u128, bool)> {
        st.anys.iter().map(|a| {
            let x = match &a.val { Val::C(x) => *x, Val::S(e) => self.a.eval(*e, &model.vals, &mut model.memo.borrow_mut(), &model.uf), _ => 0 };
            (a.tag, a.w, x, a.float)
        }).collect()
    }
    fn record(&mut self, st: &State, kind: &str, key: &str, model: &Model) {
        let full = format!("{}:{}", kind, key);
        if self.viols.iter().any(|v| format!("{}:{}", v.kind, v.key) == full) { return; }
        let values = self.values(st, model);
        let trace = st.frames.iter().rev().take(14).map(|f| f.f.name.to_string()).collect();
        if self.cfg.verbose { eprintln!("VIOL {} {}", kind, key); }
        if self.viols.is_empty() {
            // the property is decided: look only a little further for other violations
            self.cfg.max_time = self.cfg.max_time.min(self.t0.elapsed().as_secs_f64() + 20.0);
            self.z.timeout_ms = self.z.timeout_ms.min(5000);
        }
        self.viols.push(Violation { kind: kind.into(), key: key.into(), values, trace });
    }
    // ---------------------------------------------------------------- driver
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fid = *self.m.fmap.get(entry).ok_or(format!("no function {}", entry))?;
        let f = self.m.func(fid)?.ok_or("entry is a declaration")?;
        if !f.params.is_empty() { return Err("entry has parameters".into()); }
        let st = State {
            frames: vec![Rc::new(Frame { f, bb: 0, ip: 0, regs: vec![Val::C(0); f.nregs], sbase: 0, dst: NODST, cont: None })],
            heap: vec![], nheap: 1, stack: vec![], globals: HashMap::new(), path: vec![],
            model: Rc::new(Model { vals: HashMap::new(), uf: HashMap::new(), memo: RefCell::new(HashMap::new()) }),
            fixed: Rc::new(HashSet::new()), known: Rc::new(HashMap::new()), anys: vec![], streams: vec![], symhash: vec![], conchash: Rc::new(HashMap::new()), covers: vec![], errno: 0, steps: 0, time: 1_000, id: 0,
        };
        self.work.push(st);
        let mut last = Instant::now();
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time { self.incon.push(format!("time limit: {} states left", self.work.len() + 1)); return Ok(()); }
            if self.st.paths >= self.cfg.max_paths { self.incon.push("path limit".into()); return Ok(()); }
            if self.cfg.verbose && last.elapsed().as_secs() >= 5 {
                last = Instant::now();
                eprintln!("[{:.0}s] paths={} work={} forks={} steps={} queries={} ztime={:.1}", self.t0.elapsed().as_secs_f64(), self.st.paths, self.work.len(), self.st.forks, self.st.steps, self.z.queries, self.z.time);
            }
            let r = self.run_state(&mut st);
            match r {
                Stop::End => {
                    self.st.paths += 1;
                    if (self.st.paths & (self.st.paths - 1) == 0 || self.st.paths % 4099 == 0) && self.witnesses.len() < 24 {
                        let m = st.model.clone();
                        let v = self.values(&st, &m);
                        self.witnesses.push((v, st.covers.clone()));
                    }
                }
                Stop::Killed => { self.st.killed_assume += 1; }
                Stop::Viol(k, msg) => {
                    self.st.paths += 1;
                    let m = st.model.clone();
                    self.record(&st, &k, &msg, &m);
                }
                Stop::Incon(m) => {
                    let tr: Vec<String> = st.frames.iter().rev().take(8).map(|f| f.f.name.to_string()).collect();
                    self.incon.push(format!("{} @ {}", m, tr.join(" < ")));
                    if self.incon.len() > 5 { return Ok(()); }
                }
            }
            if self.viols.len() >= self.cfg.max_viol { return Ok(()); }
        }
        Ok(())
    }
    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            st.steps += 1;
            self.st.steps += 1;
            if st.steps > self.cfg.max_steps { return Stop::Viol("hang".into(), format!("path exceeded {} steps", self.cfg.max_steps)); }
            if st.steps & 0xfffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.max_time { return Stop::Incon("time limit inside a path".into()); }
            if let Err(s) = self.step(st) { return s; }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let fr = st.fr();
        let f = fr.f;
        let from = fr.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|x| x.0 == from).ok_or_else(|| Stop::Incon("phi without incoming edge".into()))?;
                vals.push((*d, match &o.1 { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::V(v) => v.clone() }));
            }
            let t = st.top();
            for (d, v) in vals { t.regs[d as usize] = v; }
        }
        let t = st.top();
        t.bb = to;
        t.ip = 0;
        Ok(())
    }
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val { match o { Opd::R(r) => st.fr().regs[*r as usize].clone(), Opd::V(v) => v.clone() } }
    fn set(&mut self, st: &mut State, dst: u32, v: Val) {
        let v = if let Val::S(_) = v { self.norm(st, v) } else { v };
        let t = st.top();
        if dst != NODST { t.regs[dst as usize] = v; }
        t.ip += 1;
    }
    fn map2(&mut self, t: &Ty, x: &Val, y: &Val, f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> Val) -> Val {
        if let (Val::A(_), Val::C(c)) | (Val::C(c), Val::A(_)) = (x, y) {
            // a poison or undefined aggregate operand
            if t.scalar() { panic!("aggregate where {:?} is expected", t); }
            let n = t.nelem();
            let z = Val::A(Rc::new(vec![Val::C(*c); n]));
            let (x, y) = if let Val::A(_) = x { (x.clone(), z) } else { (z, y.clone()) };
            return self.map2(t, &x, &y, f);
        }
        if let (Val::A(a), Val::A(b)) = (x, y) {
            let w = t.elem(0).bits();
            return Val::A(Rc::new((0..a.len()).map(|i| f(self, w, &a[i], &b[i])).collect()));
        }
        f(self, t.bits(), x, y)
    }
    fn step(&mut self, st: &mut State) -> X<()> {
        let (f, bb, ip) = { let r = st.fr(); (r.f, r.bb, r.ip) };
        let ins = match f.blocks[bb as usize].insts.get(ip as usize) { Some(i) => i, None => return Err(Stop::Incon("fell off block".into())) };
        let dst = ins.dst;
        match &ins.i {
            I::Bin(op, t, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                    if let Val::C(0) = y { return Err(Stop::Viol("ub".into(), "division by zero".into())); }
                }
                let op = *op;
                let r = self.map2(t, &x, &y, &mut |s, w, a, b| s.bin(op, w, a, b));
                self.set(st, dst, r);
            }
            I::FBin(op, t, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let op = *op;
                if *t == Ty::F16 { return Err(Stop::Incon("half arithmetic".into())); }
                let r = self.map2(t, &x, &y, &mut |s, w, a, b| s.fbin(op, w, a, b));
                self.set(st, dst, r);
            }
            I::FRem(t, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let w = t.bits();
                let r = match (&x, &y) {
                    (Val::C(a), Val::C(b)) => Val::C(if w == 32 { (f32::from_bits(*a as u32) % f32::from_bits(*b as u32)).to_bits() as u128 } else { (f64::from_bits(*a as u64) % f64::from_bits(*b as u64)).to_bits() as u128 }),
                    _ => { let (a, b) = (self.ex(&x, w), self.ex(&y, w)); let r = self.a.uf("frem", vec![a, b], w); Val::S(r) }
                };
                self.set(st, dst, r);
            }
            I::FNeg(t, x) => {
                let x = self.get(st, x);
                let sgn = |w: u32| Val::C(1u128 << (w - 1));
                let r = match &x { Val::A(v) => { let w = t.elem(0).bits(); Val::A(Rc::new(v.iter().map(|e| self.bin(B::Xor, w, e, &sgn(w))).collect())) } _ => self.bin(B::Xor, t.bits(), &x, &sgn(t.bits())) };
                self.set(st, dst, r);
            }
            I::ICmp(p, t, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                if t.scalar() { if let (Val::A(_), _) | (_, Val::A(_)) = (&x, &y) { return Err(Stop::Incon("comparison of an aggregate".into())); } }
                let r = self.map2(t, &x, &y, &mut |s, w, a, b| s.icmp(p, w, a, b));
                self.set(st, dst, r);
            }
            I::FCmp(p, t, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let r = self.map2(t, &x, &y, &mut |s, w, a, b| s.fcmp(p, w, a, b));
                self.set(st, dst, r);
            }
            I::Select(_, t, c, x, y) => {
                let c = self.get(st, c);
                let r = match &c {
                    Val::A(cv) => {
                        let (x, y) = (self.get(st, x), self.get(st, y));
                        let w = t.elem(0).bits();
                        if let (Val::A(a), Val::A(b)) = (&x, &y) { Val::A(Rc::new((0..cv.len()).map(|i| self.ite(&cv[i], w, &a[i], &b[i])).collect())) } else { panic!() }
                    }
                    Val::C(k) => if *k & 1 == 1 { self.get(st, x) } else { self.get(st, y) },
                    Val::S(_) => {
                        if t.scalar() && *t != Ty::Ptr {
                            let (x, y) = (self.get(st, x), self.get(st, y));
                            let c = self.norm(st, c);
                            self.ite(&c, t.bits(), &x, &y)
                        } else if self.decide(st, &c)? { self.get(st, x) } else { self.get(st, y) }
                    }
                };
                self.set(st, dst, r);
            }
            I::Cast(k, ft, tt, x) => { let x = self.get(st, x); let r = self.cast(*k, ft, tt, &x)?; self.set(st, dst, r); }
            I::Gep(b, off, vars) => {
                let mut r = self.get(st, b);
                for (o, w, scale) in vars {
                    let v = self.get(st, o);
                    let v64 = if *w < 64 { self.cast(Cast::Sext, &Ty::I(*w), &Ty::I(64), &v)? } else { v };
                    let sc = self.bin(B::Mul, 64, &v64, &Val::C((*scale as u64) as u128));
                    r = self.bin(B::Add, 64, &r, &sc);
                }
                if *off != 0 { r = self.bin(B::Add, 64, &r, &Val::C(*off as u64 as u128)); }
                self.set(st, dst, r);
            }
            I::Load(t, p) => {
                let p = self.get(st, p);
                if let Some(v) = self.table(st, t, &p)? { self.set(st, dst, v); return Ok(()); }
                let a = self.addr(st, &p)?;
                let v = self.load(st, t, a)?;
                self.set(st, dst, v);
            }
            I::Store(t, v, p) => {
                let p = self.get(st, p);
                let a = self.addr(st, &p)?;
                let v = self.get(st, v);
                self.store(st, t, &v, a)?;
                st.top().ip += 1;
            }
            I::Alloca(sz, n, nw) => {
                let n = self.get(st, n);
                let n = self.conc(st, &n, *nw)? as u64;
                let a = st.alloca(sz * n);
                self.set(st, dst, Val::C(a as u128));
            }
            I::Br(b) => self.jump(st, *b)?,
            I::CondBr(c, x, y) => { let c = self.get(st, c); let r = self.decide(st, &c)?; self.jump(st, if r { *x } else { *y })?; }
            I::Switch(w, o, d, cases) => {
                let v = self.get(st, o);
                let v = self.norm(st, v);
                let t = match &v {
                    Val::C(x) => cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*d),
                    Val::S(e) => {
                        // group by target; decide sequentially (forked states re-execute the switch)
                        let x = self.eval(st, *e);
                        let tgt = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        let mut cond = self.a.c(0, 1);
                        if tgt != *d {
                            for c in cases.iter().filter(|c| c.1 == tgt) { let k = self.a.c(c.0, *w); let q = self.a.eq(*e, k); cond = self.a.or(cond, q); }
                        } else {
                            for c in cases.iter().filter(|c| c.1 != tgt) { let k = self.a.c(c.0, *w); let q = self.a.eq(*e, k); cond = self.a.or(cond, q); }
                            cond = self.a.not(cond);
                        }
                        let cv = self.mk(cond);
                        if !self.decide(st, &cv)? { return Err(Stop::Incon("switch model mismatch".into())); }
                        tgt
                    }
                    _ => panic!(),
                };
                self.jump(st, t)?;
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.sbase);
                if st.frames.is_empty() { return Err(Stop::End); }
                let (d, cont) = (fr.dst, fr.cont);
                self.ret_to(st, d, cont, v)?;
            }
            I::Unreachable => return Err(Stop::Viol("ub".into(), format!("reached unreachable in {}", f.name))),
            I::ExtractV(o, ix) => {
                let mut v = self.get(st, o);
                for i in ix { v = match v { Val::A(a) => a[*i as usize].clone(), _ => panic!() }; }
                self.set(st, dst, v);
            }
            I::InsertV(o, x, ix) => {
                fn ins(a: &Val, x: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() { return x; }
                    match a { Val::A(v) => { let mut n = (**v).clone(); n[ix[0] as usize] = ins(&v[ix[0] as usize], x, &ix[1..]); Val::A(Rc::new(n)) } _ => panic!("insertvalue") }
                }
                let (o, x) = (self.get(st, o), self.get(st, x));
                let r = ins(&o, x, ix);
                self.set(st, dst, r);
            }
            I::ExtractE(o, ix) => {
                let (o, ix) = (self.get(st, o), self.get(st, ix));
                let i = self.conc(st, &ix, 64)?;
                let r = match o { Val::A(a) => a[i as usize].clone(), _ => panic!() };
                self.set(st, dst, r);
            }
            I::InsertE(o, x, ix) => {
                let (o, x, ix) = (self.get(st, o), self.get(st, x), self.get(st, ix));
                let i = self.conc(st, &ix, 64)?;
                let r = match o { Val::A(a) => { let mut n = (*a).clone(); n[i as usize] = x; Val::A(Rc::new(n)) } _ => panic!() };
                self.set(st, dst, r);
            }
            I::Shuffle(x, y, mk, n) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let (a, b) = match (x, y) { (Val::A(a), Val::A(b)) => (a, b), _ => panic!() };
                let r = mk.iter().map(|&i| if i < 0 { Val::C(0) } else if (i as usize) < *n { a[i as usize].clone() } else { b[i as usize - n].clone() }).collect();
                self.set(st, dst, Val::A(Rc::new(r)));
            }
            I::Rmw(op, t, p, v) => {
                let p = self.get(st, p);
                let a = self.addr(st, &p)?;
                let v = self.get(st, v);
                let old = self.load(st, t, a)?;
                let w = t.bits();
                let new = match op {
                    Rmw::Xchg => v, Rmw::Add => self.bin(B::Add, w, &old, &v), Rmw::Sub => self.bin(B::Sub, w, &old, &v),
                    Rmw::And => self.bin(B::And, w, &old, &v), Rmw::Or => self.bin(B::Or, w, &old, &v), Rmw::Xor => self.bin(B::Xor, w, &old, &v),
                    Rmw::Nand => { let x = self.bin(B::And, w, &old, &v); self.bin(B::Xor, w, &x, &Val::C(mask(w))) }
                    Rmw::UMax => { let c = self.cmp(C::Ult, w, &old, &v); self.ite(&c, w, &v, &old) }
                    Rmw::UMin => { let c = self.cmp(C::Ult, w, &old, &v); self.ite(&c, w, &old, &v) }
                    Rmw::Max => { let c = self.cmp(C::Slt, w, &old, &v); self.ite(&c, w, &v, &old) }
                    Rmw::Min => { let c = self.cmp(C::Slt, w, &old, &v); self.ite(&c, w, &old, &v) }
                };
                self.store(st, t, &new, a)?;
                self.set(st, dst, old);
            }
            I::CmpXchg(t, p, x, y) => {
                let p = self.get(st, p);
                let a = self.addr(st, &p)?;
                let (x, y) = (self.get(st, x), self.get(st, y));
                let old = self.load(st, t, a)?;
                let c = self.cmp(C::Eq, t.bits(), &old, &x);
                let ok = self.decide(st, &c)?;
                if ok { self.store(st, t, &y, a)?; }
                self.set(st, dst, Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            I::Move(o) => { let v = self.get(st, o); self.set(st, dst, v); }
            I::Nop => { st.top().ip += 1; }
            I::Unwind => return Err(Stop::Viol("panic".into(), "unwinding".into())),
            I::Call { callee, args, tys, ret, normal } => {
                let fid = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Reg(o) => {
                        let p = self.get(st, o);
                        let a = self.addr(st, &p)?;
                        if a < FUNC_BASE || a >= FUNC_BASE + 16 * self.m.funcs.len() as u64 || a % 16 != 0 { return Err(Stop::Viol("memory".into(), format!("call to invalid address {:#x}", a))); }
                        ((a - FUNC_BASE) / 16) as u32
                    }
                    Callee::Asm => {
                        // compiler barriers (black_box) have no operands we track
                        return Err(Stop::Incon("inline asm".into()));
                    }
                };
                let name = self.m.funcs[fid as usize].name;
                let av: Vec<Val> = args.iter().map(|a| self.get(st, a)).collect();
                if self.m.funcs[fid as usize].def.is_none() || name.contains("9panicking") || name.contains("4hash3sip") || name.starts_with("ocg_") || name.contains("rust_begin_unwind") || name.contains("18handle_alloc_error") {
                    if let Some(r) = self.external(st, name, &av, tys, ret)? {
                        if let Some(nb) = normal { let d = dst; if d != NODST { st.top().regs[d as usize] = r; } self.jump(st, *nb)?; }
                        else { self.set(st, dst, r); }
                        return Ok(());
                    }
                }
                let g = match self.m.func(fid).map_err(Stop::Incon)? { Some(g) => g, None => return Err(Stop::Incon(format!("call to external function {}", name))) };
                if st.frames.len() > 400 { return Err(Stop::Viol("hang".into(), format!("call depth exceeded in {}", name))); }
                self.executed.insert(fid);
                let mut regs = vec![Val::C(0); g.nregs];
                for (i, p) in g.params.iter().enumerate() { if i < av.len() { regs[*p as usize] = av[i].clone(); } }
                let sbase = st.stack.len();
                st.frames.push(Rc::new(Frame { f: g, bb: 0, ip: 0, regs, sbase, dst, cont: *normal }));
            }
        }
        Ok(())
    }
    fn ret_to(&mut self, st: &mut State, d: u32, cont: Option<u32>, v: Option<Val>) -> X<()> {
        match cont {
            None => { self.set(st, d, v.unwrap_or(Val::C(0))); Ok(()) }
            Some(b) => { if d != NODST { let v = v.unwrap_or(Val::C(0)); let v = self.norm(st, v); st.top().regs[d as usize] = v; } self.jump(st, b) }
        }
    }
    fn location(&mut self, st: &State, av: &[Val]) -> String {
        for v in av.iter().rev() {
            if let Val::C(p) = v {
                let p = *p as u64;
                if p < GLOBAL_BASE || p >= STACK_BASE { continue; }
                let f = self.load(st, &Ty::I(64), p);
                let n = self.load(st, &Ty::I(64), p + 8);
                let ln = self.load(st, &Ty::I(32), p + 16);
                let cl = self.load(st, &Ty::I(32), p + 20);
                if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(ln)), Ok(Val::C(cl))) = (f, n, ln, cl) {
                    if n > 0 && n < 400 && ln < 200_000 {
                        let mut s = String::new();
                        let mut ok = true;
                        for i in 0..n as u64 { match self.rbyte(st, f as u64 + i) { Ok(Val::C(b)) if b >= 32 && b < 127 => s.push(b as u8 as char), _ => { ok = false; break; } } }
                        if ok && s.contains(".rs") { return format!("{}:{}:{}", s, ln, cl); }
                    }
                }
            }
        }
        "?".into()
    }
    fn any(&mut self, st: &mut State, w: u32, av: &[Val], float: bool) -> Val {
        let tag = match av.get(0) { Some(Val::C(x)) => *x as u32, _ => 0 };
        let e = self.a.var(w);
        let v = Val::S(e);
        st.anys.push(AnyRec { tag, w, val: v.clone(), float });
        v
    }
    fn hstream(&mut self, st: &mut State, p: u64) -> X<u32> {
        // hasher state: first word tagged with a stream id once anything was written
        let w0 = self.load(st, &Ty::I(64), p)?;
        if let Val::C(x) = w0 { if (x >> 32) == 0x5eed_5a17 { return Ok(x as u32); } }
        let mut key = vec![];
        for i in 0..9 {
            match self.load(st, &Ty::I(64), p + 8 * i) { Ok(v) => key.push(v), Err(_) => break }
        }
        // only the key words matter; they are concrete
        let k = match (&key[0], &key[1]) { (Val::C(a), Val::C(b)) => vec![Val::C(*a), Val::C(*b)], _ => return Err(Stop::Incon("symbolic hash key".into())) };
        st.streams.push(Rc::new(k));
        Ok(st.streams.len() as u32 - 1)
    }
    fn sip(&mut self, st: &mut State, name: &str, av: &[Val]) -> X<Option<Val>> {
        let wr = name.contains("5write") && !name.contains("9write_str");
        let ws = name.contains("9write_str");
        let fi = name.contains("6finish");
        if wr || ws {
            if av.len() != 3 { return Err(Stop::Incon("sip write signature".into())); }
            let (p, d, n) = (self.addr(st, &av[0])?, self.addr(st, &av[1])?, self.conc(st, &av[2], 64)? as u64);
            let s = self.hstream(st, p)?;
            let mut v: Vec<Val> = (*st.streams[s as usize]).clone();
            for i in 0..n { let b = self.rbyte(st, d + i)?; let b = self.norm(st, b); v.push(b); }
            if ws { v.push(Val::C(0xff)); }
            st.streams.push(Rc::new(v));
            let id = st.streams.len() as u128 - 1;
            self.store(st, &Ty::I(64), &Val::C((0x5eed_5a17u128 << 32) | id), p)?;
            return Ok(Some(Val::C(0)));
        }
        if fi {
            if av.len() != 1 { return Err(Stop::Incon("sip finish signature".into())); }
            let p = self.addr(st, &av[0])?;
            let s = self.hstream(st, p)?;
            let v = st.streams[s as usize].clone();
            let nv: Vec<Val> = v.iter().map(|b| self.norm(st, b.clone())).collect();
            let conc = nv.iter().all(|b| matches!(b, Val::C(_)));
            // compare with earlier symbolic streams
            let prev: Vec<(u32, u128)> = st.symhash.clone();
            for (ps, h) in prev {
                let pv = st.streams[ps as usize].clone();
                if pv.len() != nv.len() { continue; }
                let mut c = self.a.c(1, 1);
                for (x, y) in pv.iter().zip(nv.iter()) {
                    let q = self.cmpb(x, y);
                    c = self.a.and(c, q);
                    if self.a.cval(c) == Some(0) { break; }
                }
                let cv = self.mk(c);
                if self.decide(st, &cv)? { return Ok(Some(Val::C(h))); }
            }
            let to_key = |v: &Vec<Val>| -> Vec<u8> { v.iter().enumerate().flat_map(|(i, b)| if let Val::C(x) = b { if i < 2 { (*x as u64).to_le_bytes().to_vec() } else { vec![*x as u8] } } else { vec![] }).collect() };
            if conc {
                let key = to_key(&nv);
                if let Some(h) = st.conchash.get(&key) { return Ok(Some(Val::C(*h))); }
                let mut h = 0x1234_5678_9abc_def0u64;
                for b in &key { h = mix(h, *b as u64); }
                Rc::make_mut(&mut st.conchash).insert(key, h as u128);
                return Ok(Some(Val::C(h as u128)));
            }
            let mut cands: Vec<(Vec<u8>, u128)> = st.conchash.iter().filter(|(k, _)| k.len() == nv.len() + 14).map(|(k, v)| (k.clone(), *v)).collect();
            cands.sort();
            for (k, h) in cands {
                let mut c = self.a.c(1, 1);
                for (i, y) in nv.iter().enumerate() {
                    let x = if i < 2 { Val::C(u64::from_le_bytes(k[i * 8..i * 8 + 8].try_into().unwrap()) as u128) } else { Val::C(k[14 + i] as u128) };
                    let q = if i < 2 { let (a, b) = (self.ex(&x, 64), self.ex(y, 64)); self.a.eq(a, b) } else { self.cmpb(&x, y) };
                    c = self.a.and(c, q);
                    if self.a.cval(c) == Some(0) { break; }
                }
                let cv = self.mk(c);
                if self.decide(st, &cv)? { return Ok(Some(Val::C(h))); }
            }
            let h = mix(mix(0xfeed_beef, st.symhash.len() as u64 + 1), nv.len() as u64) as u128;
            st.symhash.push((s, h));
            return Ok(Some(Val::C(h)));
        }
        Ok(None)
    }
    fn cmpb(&mut self, x: &Val, y: &Val) -> E {
        if let (Val::C(a), Val::C(b)) = (x, y) { return self.a.c((a == b) as u128, 1); }
        let w = match (x, y) { (Val::S(e), _) | (_, Val::S(e)) => self.a.w(*e), _ => 8 };
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        self.a.eq(a, b)
    }
    fn un_f(&mut self, t: &Ty, v: &Val, op: FU) -> Val {
        match v {
            Val::A(vs) => { let et = t.elem(0).clone(); Val::A(Rc::new(vs.iter().map(|x| self.un_f(&et, x, op)).collect())) }
            _ => { let w = t.bits(); let e = self.ex(v, w); let r = self.a.fun(op, e); self.mk(r) }
        }
    }
    fn libm(&mut self, name: &str, w: u32, av: &[Val]) -> Val {
        if av.iter().all(|v| matches!(v, Val::C(_))) {
            let c: Vec<u128> = av.iter().map(|v| if let Val::C(x) = v { *x } else { 0 }).collect();
            return Val::C(c_libm(name, w, &c));
        }
        let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
        if name == "pow" && matches!(av[1], Val::C(y) if y == one) { return av[0].clone(); } // exact, for every x
        let es: Vec<E> = av.iter().map(|v| self.ex(v, w)).collect();
        let r = self.a.uf(name, es, w);
        Val::S(r)
    }
    fn external(&mut self, st: &mut State, name: &str, av: &[Val], tys: &[Ty], ret: &Ty) -> X<Option<Val>> {
        let z = Ok(Some(Val::C(0)));
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, av, tys, ret).map(Some); }
        if name.contains("9panicking") || name.contains("rust_begin_unwind") {
            if name.contains("11panic_count") || name.contains("9panicking3try") || name.contains("9panicking9panicking") { return Ok(None); }
            let l = self.location(st, av);
            return Err(Stop::Viol("panic".into(), l));
        }
        if name.contains("18handle_alloc_error") { return Err(Stop::Viol("panic".into(), "allocation error".into())); }
        if name.contains("4hash3sip") { return self.sip(st, name, av); }
        match name {
            "ocg_any_u8" => Ok(Some(self.any(st, 8, av, false))),
            "ocg_any_u16" => Ok(Some(self.any(st, 16, av, false))),
            "ocg_any_u32" | "ocg_any_i32" => Ok(Some(self.any(st, 32, av, false))),
            "ocg_any_u64" => Ok(Some(self.any(st, 64, av, false))),
            "ocg_any_f32" => Ok(Some(self.any(st, 32, av, true))),
            // a float in lo..=hi, 0 <= lo, constant bounds
            "ocg_pos_f32" => {
                let (lo, hi) = match (&av[1], &av[2]) { (Val::C(l), Val::C(h)) => (*l, *h), _ => return Err(Stop::Incon("ocg_pos_f32 bounds".into())) };
                let v = self.any(st, 32, av, true);
                let e = match v { Val::S(e) => e, _ => unreachable!() };
                if let K::Var(i) = *self.a.k(e) { self.a.var_range.insert(i, (f32::from_bits(lo as u32) as f64, f32::from_bits(hi as u32) as f64)); }
                let (l, h) = (self.a.c(lo, 32), self.a.c(hi, 32));
                for c in [self.a.cmp(C::Ule, l, e), self.a.cmp(C::Ule, e, h)] {
                    if self.a.cval(c).is_some() { continue; }
                    if self.eval(st, c) != 1 { match self.query(st, c)? { None => return Err(Stop::Killed), Some(m) => st.model = m } }
                    self.add_con(st, c);
                }
                Ok(Some(Val::S(e)))
            }
            "ocg_any_f64" => Ok(Some(self.any(st, 64, av, true))),
            "ocg_conc_u64" => { let x = self.conc(st, &av[0], 64)?; Ok(Some(Val::C(x))) }
            "ocg_in_engine" => Ok(Some(Val::C(1))),
            "ocg_assume" => {
                self.st.assumes += 1;
                let c = self.norm(st, av[0].clone());
                match c {
                    Val::C(x) => if x & 1 == 1 { z } else { Err(Stop::Killed) },
                    Val::S(e) => {
                        if self.eval(st, e) != 1 {
                            match self.query(st, e)? { None => return Err(Stop::Killed), Some(m) => st.model = m }
                        }
                        self.add_con(st, e);
                        z
                    }
                    _ => panic!(),
                }
            }
            "ocg_assert" => {
                self.st.asserts += 1;
                let id = match av.get(1).unwrap_or(&Val::C(0)) { Val::C(x) => *x as u32, _ => 0 };
                self.assert_ids.entry(id).or_insert((0, 0)).0 += 1;
                let c = self.norm(st, av[0].clone());
                match c {
                    Val::C(x) => if x & 1 == 1 { z } else { Err(Stop::Viol("assert".into(), id.to_string())) },
                    Val::S(e) => {
                        self.assert_ids.get_mut(&id).unwrap().1 += 1;
                        self.st.asserts_solver += 1;
                        let ne = self.a.not(e);
                        if self.eval(st, e) != 1 {
                            let m = st.model.clone();
                            self.record(st, "assert", &id.to_string(), &m);
                            return Err(Stop::Killed);
                        }
                        match self.query(st, ne)? {
                            None => { Rc::make_mut(&mut st.known).insert(e, 1); }
                            Some(m) => { self.record(st, "assert", &id.to_string(), &m); return Err(Stop::Killed); }
                        }
                        z
                    }
                    _ => panic!(),
                }
            }
            "ocg_cover" => { let id = self.conc(st, &av[0], 32)? as u32; *self.covers.entry(id).or_insert(0) += 1; st.covers.push(id); z }
            "ocg_debug" => { let v = self.norm(st, av[0].clone()); eprintln!("DEBUG path {}: {}", st.id, match v { Val::C(x) => format!("{:#x}", x), Val::S(e) => self.a.show(e, 6), _ => "agg".into() }); z }
            "malloc" => { let n = self.conc(st, &av[0], 64)? as u64; if n > (64 << 20) { return Err(Stop::Incon(format!("allocation of {} bytes", n))); } Ok(Some(Val::C(st.alloc(n, false) as u128))) }
            "calloc" => { let a = self.conc(st, &av[0], 64)? as u64; let b = self.conc(st, &av[1], 64)? as u64; let n = a.saturating_mul(b); if n > (64 << 20) { return Err(Stop::Incon(format!("allocation of {} bytes", n))); } Ok(Some(Val::C(st.alloc(n, true) as u128))) }
            "posix_memalign" => { let n = self.conc(st, &av[2], 64)? as u64; let p = self.addr(st, &av[0])?; if n > (64 << 20) { return Err(Stop::Incon(format!("allocation of {} bytes", n))); } let a = st.alloc(n, false); self.store(st, &Ty::I(64), &Val::C(a as u128), p)?; z }
            "aligned_alloc" | "memalign" => { let n = self.conc(st, &av[1], 64)? as u64; Ok(Some(Val::C(st.alloc(n, false) as u128))) }
            "free" => {
                let p = self.addr(st, &av[0])?;
                if p == 0 { return z; }
                if p < HEAP_BASE || p >= FUNC_BASE || p & ((1 << SLOT) - 1) != 0 { return self.merr("free", p, 0); }
                let s = ((p - HEAP_BASE) >> SLOT) as u32;
                if !matches!(st.slot(s), Slot::Obj(_)) { return self.merr("double free", p, 0); }
                *st.slot_mut(s) = Slot::Freed;
                z
            }
            "realloc" => {
                let p = self.addr(st, &av[0])?;
                let n = self.conc(st, &av[1], 64)? as u64;
                if n > (64 << 20) { return Err(Stop::Incon(format!("allocation of {} bytes", n))); }
                let q = st.alloc(n, false);
                if p != 0 {
                    let s = ((p - HEAP_BASE) >> SLOT) as u32;
                    let sz = match st.slot(s) { Slot::Obj(o) => o.size, _ => return self.merr("realloc", p, n) };
                    self.memcpy(st, q, p, sz.min(n))?;
                    *st.slot_mut(s) = Slot::Freed;
                }
                Ok(Some(Val::C(q as u128)))
            }
            "memcpy" | "memmove" => { let d = self.addr(st, &av[0])?; let s = self.addr(st, &av[1])?; let n = self.conc(st, &av[2], 64)? as u64; self.memcpy(st, d, s, n)?; Ok(Some(av[0].clone())) }
            "memset" => { let d = self.addr(st, &av[0])?; let n = self.conc(st, &av[2], 64)? as u64; let b = self.cast(Cast::Trunc, &Ty::I(32), &Ty::I(8), &av[1])?; for i in 0..n { self.store(st, &Ty::I(8), &b, d + i)?; } Ok(Some(av[0].clone())) }
            "bcmp" | "memcmp" => {
                let d = self.addr(st, &av[0])?; let s = self.addr(st, &av[1])?; let n = self.conc(st, &av[2], 64)? as u64;
                let mut r = Val::C(0);
                for i in (0..n).rev() {
                    let x = self.rbyte(st, d + i)?; let y = self.rbyte(st, s + i)?;
                    let eq = self.cmp(C::Eq, 8, &x, &y);
                    let diff = if name == "bcmp" { Val::C(1) } else { let lt = self.cmp(C::Ult, 8, &x, &y); self.ite(&lt, 32, &Val::C(0xffff_ffff), &Val::C(1)) };
                    r = self.ite(&eq, 32, &r, &diff);
                }
                Ok(Some(r))
            }
            "strlen" => { let p = self.addr(st, &av[0])?; let mut n = 0; loop { let b = self.rbyte(st, p + n)?; let z = self.cmp(C::Eq, 8, &b, &Val::C(0)); if self.decide(st, &z)? { break; } n += 1; } Ok(Some(Val::C(n as u128))) }
            "clock_gettime" => { let p = self.addr(st, &av[1])?; st.time += 1; let t = st.time; self.store(st, &Ty::I(64), &Val::C(t as u128), p)?; self.store(st, &Ty::I(64), &Val::C(0), p + 8)?; z }
            "getrandom" => { let p = self.addr(st, &av[0])?; let n = self.conc(st, &av[1], 64)? as u64; for i in 0..n { self.store(st, &Ty::I(8), &Val::C((17 * i as u128 + 41) & 0xff), p + i)?; } Ok(Some(Val::C(n as u128))) }
            "__errno_location" => { // one static int
                if st.errno == 0 { st.errno = st.alloc(4, true); }
                Ok(Some(Val::C(st.errno as u128)))
            }
            "getenv" => z,
            "write" => Ok(Some(av[2].clone())),
            "abort" | "_exit" | "exit" => Err(Stop::Viol("panic".into(), format!("{} called", name))),
            "powf" | "pow" => Ok(Some(self.libm("pow", ret.bits(), av))),
            "sinf" | "sin" => Ok(Some(self.libm("sin", ret.bits(), av))),
            "cosf" | "cos" => Ok(Some(self.libm("cos", ret.bits(), av))),
            "tanf" | "tan" => Ok(Some(self.libm("tan", ret.bits(), av))),
            "expf" | "exp" => Ok(Some(self.libm("exp", ret.bits(), av))),
            "logf" | "log" => Ok(Some(self.libm("log", ret.bits(), av))),
            "atan2f" | "atan2" => Ok(Some(self.libm("atan2", ret.bits(), av))),
            "atanf" | "atan" => Ok(Some(self.libm("atan", ret.bits(), av))),
            "hypotf" | "hypot" => Ok(Some(self.libm("hypot", ret.bits(), av))),
            "cbrtf" | "cbrt" => Ok(Some(self.libm("cbrt", ret.bits(), av))),
            _ => {
                if self.m.funcs[*self.m.fmap.get(name).unwrap() as usize].def.is_some() { return Ok(None); }
                Err(Stop::Incon(format!("unmodelled external function {}", name)))
            }
        }
    }
    fn ov(&mut self, op: &str, w: u32, x: &Val, y: &Val) -> (Val, Val) {
        let r = match &op[1..4] { "add" => self.bin(B::Add, w, x, y), "sub" => self.bin(B::Sub, w, x, y), _ => self.bin(B::Mul, w, x, y) };
        let o = match op {
            "uadd" => self.cmp(C::Ult, w, &r, x),
            "usub" => self.cmp(C::Ult, w, x, y),
            "umul" | "smul" => {
                if let (Val::C(a), Val::C(b)) = (x, y) {
                    if op == "umul" { Val::C((a.checked_mul(*b).map(|v| v > mask(w)).unwrap_or(true)) as u128) }
                    else { let v = sx(*a, w).checked_mul(sx(*b, w)); Val::C((match v { Some(v) => sx((v as u128) & mask(w), w) != v, None => true }) as u128) }
                } else {
                    let (a, b) = (self.ex(x, w), self.ex(y, w));
                    let w2 = (2 * w).min(128);
                    if w2 < 2 * w { return (r, Val::C(0)); }
                    let (a2, b2) = if op == "umul" { (self.a.zext(a, w2), self.a.zext(b, w2)) } else { (self.a.sext(a, w2), self.a.sext(b, w2)) };
                    let m = self.a.bin(B::Mul, a2, b2);
                    let re = self.ex(&r, w);
                    let back = if op == "umul" { self.a.zext(re, w2) } else { self.a.sext(re, w2) };
                    let q = self.a.eq(m, back);
                    let q = self.a.not(q);
                    self.mk(q)
                }
            }
            "sadd" | "ssub" => {
                // sadd: (x^r)&(y^r) < 0 ; ssub: (x^y)&(x^r) < 0
                let (p, q) = if op == "sadd" { (self.bin(B::Xor, w, x, &r), self.bin(B::Xor, w, y, &r)) } else { (self.bin(B::Xor, w, x, y), self.bin(B::Xor, w, x, &r)) };
                let t = self.bin(B::And, w, &p, &q);
                self.cmp(C::Slt, w, &t, &Val::C(0))
            }
            _ => panic!("ov {}", op),
        };
        (r, o)
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, av: &[Val], tys: &[Ty], ret: &Ty) -> X<Val> {
        let base: Vec<&str> = n.split('.').collect();
        let w0 = || -> u32 { if ret.scalar() { ret.bits() } else if let Ty::Vec(_, e) = ret { e.bits() } else { 0 } };
        match base[0] {
            "lifetime" | "experimental" | "invariant" | "dbg" | "var" | "donothing" | "sideeffect" | "x86" | "prefetch" => {
                if base[0] == "experimental" && base[1] != "noalias" { return Err(Stop::Incon(format!("intrinsic {}", n))); }
                if base[0] == "x86" && !n.contains("pause") { return Err(Stop::Incon(format!("intrinsic {}", n))); }
                if base[0] == "invariant" && base[1] == "start" { return Ok(Val::C(0)); }
                return Ok(Val::C(0));
            }
            "assume" => return Ok(Val::C(0)),
            "expect" => return Ok(av[0].clone()),
            "memcpy" | "memmove" => {
                let d = self.addr(st, &av[0])?; let s = self.addr(st, &av[1])?; let k = self.conc(st, &av[2], tys[2].bits())? as u64;
                self.memcpy(st, d, s, k)?;
                return Ok(Val::C(0));
            }
            "memset" => {
                let d = self.addr(st, &av[0])?; let k = self.conc(st, &av[2], tys[2].bits())? as u64;
                if k == 0 { return Ok(Val::C(0)); }
                if let Val::C(b) = av[1] {
                    let (o, off) = self.wobj(st, d, k)?;
                    for i in 0..k { o.data[(off + i) as usize] = b as u8; }
                    if !o.sym.is_empty() { for i in 0..k { o.sym.remove(&((off + i) as u32)); } }
                } else { for i in 0..k { self.store(st, &Ty::I(8), &av[1], d + i)?; } }
                return Ok(Val::C(0));
            }
            "threadlocal" | "ptrmask" | "launder" | "strip" => {
                if base[0] == "ptrmask" { return Ok(self.bin(B::And, 64, &av[0], &av[1])); }
                return Ok(av[0].clone());
            }
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Viol("panic".into(), "trap".into())),
            "is" => { // is.constant / is.fpclass
                if base[1] == "constant" { return Ok(Val::C(0)); }
                let w = tys[0].bits();
                let m = if let Val::C(m) = av[1] { m } else { return Err(Stop::Incon("fpclass".into())); };
                let (mb, eb) = if w == 32 { (23, 8) } else { (52, 11) };
                let e = self.ex(&av[0], w);
                let sign = self.a.ext(e, w - 1, 1);
                let expo = self.a.ext(e, mb, eb);
                let man = self.a.ext(e, 0, mb);
                let k1 = self.a.c(mask(eb), eb); let k0 = self.a.c(0, eb); let m0 = self.a.c(0, mb);
                let eall = self.a.eq(expo, k1); let ez = self.a.eq(expo, k0); let mz = self.a.eq(man, m0);
                let nmz = self.a.not(mz);
                let nan = self.a.and(eall, nmz);
                let inf = self.a.and(eall, mz);
                let zero = self.a.and(ez, mz);
                let sub = self.a.and(ez, nmz);
                let ne1 = self.a.not(eall); let ne0 = self.a.not(ez);
                let norm = self.a.and(ne1, ne0);
                let quiet = self.a.ext(e, mb - 1, 1);
                let nquiet = self.a.not(quiet);
                let pos = self.a.not(sign);
                let mut r = self.a.c(0, 1);
                let cl = [(1u128, nan, nquiet), (2, nan, quiet), (4, inf, sign), (8, norm, sign), (16, sub, sign), (32, zero, sign), (64, zero, pos), (128, sub, pos), (256, norm, pos), (512, inf, pos)];
                for (bit, c, s) in cl { if m & bit != 0 { let t = self.a.and(c, s); r = self.a.or(r, t); } }
                return Ok(self.mk(r));
            }
            "vector" if base[1] == "reduce" => {
                let op = match base[2] { "add" => B::Add, "or" => B::Or, "and" => B::And, "xor" => B::Xor, "mul" => B::Mul, _ => return Err(Stop::Incon(format!("intrinsic {}", n))) };
                let vs = match &av[0] { Val::A(v) => v.clone(), _ => panic!() };
                let w = ret.bits();
                let mut r = vs[0].clone();
                for x in vs[1..].iter() { r = self.bin(op, w, &r, x); }
                return Ok(r);
            }
            _ => {}
        }
        if n.contains(".with.overflow.") {
            let w = tys[0].bits();
            if base[0].ends_with("mul") && w > 64 && !(matches!(av[0], Val::C(_)) && matches!(av[1], Val::C(_))) { return Err(Stop::Incon("128-bit mul overflow".into())); }
            let (r, o) = self.ov(base[0], w, &av[0], &av[1]);
            return Ok(Val::A(Rc::new(vec![r, o])));
        }
        // element-wise over vectors
        if let Ty::Vec(cnt, et) = ret {
            let mut out = vec![];
            for i in 0..*cnt as usize {
                let mut a2 = vec![]; let mut t2 = vec![];
                for (v, t) in av.iter().zip(tys) { if let (Val::A(x), Ty::Vec(_, te)) = (v, t) { a2.push(x[i].clone()); t2.push((**te).clone()); } else { a2.push(v.clone()); t2.push(t.clone()); } }
                out.push(self.intrinsic(st, n, &a2, &t2, et)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let w = w0();
        let r = match base[0] {
            "umin" => { let c = self.cmp(C::Ult, w, &av[0], &av[1]); self.ite(&c, w, &av[0], &av[1]) }
            "umax" => { let c = self.cmp(C::Ult, w, &av[0], &av[1]); self.ite(&c, w, &av[1], &av[0]) }
            "smin" => { let c = self.cmp(C::Slt, w, &av[0], &av[1]); self.ite(&c, w, &av[0], &av[1]) }
            "smax" => { let c = self.cmp(C::Slt, w, &av[0], &av[1]); self.ite(&c, w, &av[1], &av[0]) }
            "abs" => { let c = self.cmp(C::Slt, w, &av[0], &Val::C(0)); let ng = self.bin(B::Sub, w, &Val::C(0), &av[0]); self.ite(&c, w, &ng, &av[0]) }
            "uadd" if base[1] == "sat" => { let (r, o) = self.ov("uadd", w, &av[0], &av[1]); self.ite(&o, w, &Val::C(mask(w)), &r) }
            "usub" if base[1] == "sat" => { let (r, o) = self.ov("usub", w, &av[0], &av[1]); self.ite(&o, w, &Val::C(0), &r) }
            "sadd" | "ssub" if base[1] == "sat" => {
                let (r, o) = self.ov(base[0], w, &av[0], &av[1]);
                let neg = self.cmp(C::Slt, w, &av[0], &Val::C(0));
                let lim = self.ite(&neg, w, &Val::C(1u128 << (w - 1)), &Val::C(mask(w - 1)));
                self.ite(&o, w, &lim, &r)
            }
            "ucmp" | "scmp" => {
                let wa = tys[0].bits();
                let op = if base[0] == "ucmp" { C::Ult } else { C::Slt };
                let lt = self.cmp(op, wa, &av[0], &av[1]); let gt = self.cmp(op, wa, &av[1], &av[0]);
                let g = self.ite(&gt, w, &Val::C(1), &Val::C(0));
                self.ite(&lt, w, &Val::C(mask(w)), &g)
            }
            "fshl" | "fshr" => {
                let s = self.bin(B::URem, w, &av[2], &Val::C(w as u128));
                let inv = self.bin(B::Sub, w, &Val::C(w as u128), &s);
                // shifts by w yield 0 in our semantics, as required
                let (a, b) = if base[0] == "fshl" { (self.bin(B::Shl, w, &av[0], &s), self.bin(B::LShr, w, &av[1], &inv)) } else { (self.bin(B::Shl, w, &av[0], &inv), self.bin(B::LShr, w, &av[1], &s)) };
                self.bin(B::Or, w, &a, &b)
            }
            "ctpop" | "cttz" | "ctlz" | "bswap" | "bitreverse" => match &av[0] {
                Val::C(x) => Val::C(match base[0] {
                    "ctpop" => x.count_ones() as u128,
                    "cttz" => if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                    "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                    "bswap" => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                }),
                Val::S(e) => {
                    let e = *e;
                    let r = match base[0] {
                        "cttz" => { let mut r = self.a.c(w as u128, w); for i in (0..w).rev() { let b = self.a.ext(e, i, 1); let k = self.a.c(i as u128, w); r = self.a.ite(b, k, r); } r }
                        "ctlz" => { let mut r = self.a.c(w as u128, w); for i in 0..w { let b = self.a.ext(e, i, 1); let k = self.a.c((w - 1 - i) as u128, w); r = self.a.ite(b, k, r); } r }
                        "ctpop" => { let mut r = self.a.c(0, w); for i in 0..w { let b = self.a.ext(e, i, 1); let k = self.a.zext(b, w); r = self.a.bin(B::Add, r, k); } r }
                        "bswap" => { let mut r = self.a.ext(e, 0, 8); for i in 1..w / 8 { let b = self.a.ext(e, 8 * i, 8); r = self.a.cat(r, b); } r }
                        _ => { let mut r = self.a.ext(e, 0, 1); for i in 1..w { let b = self.a.ext(e, i, 1); r = self.a.cat(r, b); } r }
                    };
                    self.mk(r)
                }
                _ => panic!(),
            },
            "fabs" => self.bin(B::And, w, &av[0], &Val::C(mask(w - 1))),
            "copysign" => { let a = self.bin(B::And, w, &av[0], &Val::C(mask(w - 1))); let s = self.bin(B::And, w, &av[1], &Val::C(1u128 << (w - 1))); self.bin(B::Or, w, &a, &s) }
            "floor" => self.un_f(ret, &av[0], FU::Floor),
            "ceil" => self.un_f(ret, &av[0], FU::Ceil),
            "trunc" => self.un_f(ret, &av[0], FU::Trunc),
            "round" => self.un_f(ret, &av[0], FU::RoundAway),
            "rint" | "nearbyint" | "roundeven" => self.un_f(ret, &av[0], FU::RoundEven),
            "sqrt" => self.un_f(ret, &av[0], FU::Sqrt),
            "fmuladd" => { let m = self.fbin(F::Mul, w, &av[0], &av[1]); self.fbin(F::Add, w, &m, &av[2]) }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let an = self.fc(FC::Uno, w, &av[0], &av[0]); let bn = self.fc(FC::Uno, w, &av[1], &av[1]);
                let lt = if base[0].starts_with("min") { self.fc(FC::Lt, w, &av[0], &av[1]) } else { self.fc(FC::Lt, w, &av[1], &av[0]) };
                let m = self.ite(&lt, w, &av[0], &av[1]);
                let r = self.ite(&bn, w, &av[0], &m);
                self.ite(&an, w, &av[1], &r)
            }
            "fptosi" | "fptoui" => self.cast(if base[0] == "fptosi" { Cast::Fptosi } else { Cast::Fptoui }, &tys[0], ret, &av[0])?,
            "pow" | "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log2" | "log10" | "atan2" | "atan" => self.libm(base[0], w, av),
            "powi" => {
                if let (Val::C(x), Val::C(k)) = (&av[0], &av[1]) { let k = *k as u32 as i32; if w == 32 { Val::C(f32::from_bits(*x as u32).powi(k).to_bits() as u128) } else { Val::C(f64::from_bits(*x as u64).powi(k).to_bits() as u128) } }
                else { return Err(Stop::Incon("powi".into())); }
            }
            _ => return Err(Stop::Incon(format!("intrinsic llvm.{}", n))),
        };
        Ok(r)
    }
}
