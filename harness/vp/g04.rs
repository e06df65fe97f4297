//@ entry vp_g04_a covers=1 time=400
//@ entry vp_g04_b covers=1 time=400
//@ entry vp_g04_c covers=1 time=400
//@ entry vp_g04_d covers=1 time=400
//@ entry vp_g04_e covers=1 time=400
//@ entry vp_g04_frames covers=1,2 time=300
//@ entry vp_g04_state covers=1,2 time=300
//@ entry vp_g04_small covers=1,2 time=300
//@ bound every sequence of 3 (thorough: 4) steps out of 14 (set float, integer and text attributes, connect, re-connect, disconnect, remove, add again, execute this or another node at this or another frame, fail to execute) on a graph of five to six nodes, then one execution compared with a fresh graph of the final configuration
//@ bound pixels symbolic; attribute values from two or three choices; one shared cache (large or of zero capacity)
//@ assume equal 64-bit node hashes only for equal hashed bytes (idealised SipHash)
use super::dsup::*;
use super::gsup::*;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;

struct H { g: Box<GraphImpl>, cache: Box<CacheImpl>, s: Scene, n: u32 }
impl H {
    fn set(&mut self, id: u64, name: &'static str, v: Val) {
        put(&mut self.g, id, name, v);
        if self.has(id) { self.s.set(id, name, v); }
    }
    fn has(&self, id: u64) -> bool { let mut r = false; for (n, _) in self.s.nodes.iter() { r |= *n == id; } r }
    fn drop_edges(&mut self, f: &dyn Fn(&(u64, u64, u8)) -> bool) { let mut i = 0; while i < self.s.edges.len() { if f(&self.s.edges[i]) { self.s.edges.remove(i); } else { i += 1; } } }
    fn connect(&mut self, a: u64, b: u64, n: u8) {
        self.g.connect(a, b, n);
        if self.has(a) && self.has(b) { self.drop_edges(&|e| e.1 == b && e.2 == n); self.s.edges.push((a, b, n)); }
    }
    fn disconnect(&mut self, b: u64, n: u8) { self.g.disconnect_input(b, n); self.drop_edges(&|e| e.1 == b && e.2 == n); }
    fn remove(&mut self, id: u64) {
        check(self.g.remove_node(id) == self.has(id), 20);
        self.drop_edges(&|e| e.0 == id || e.1 == id);
        let mut i = 0;
        while i < self.s.nodes.len() { if self.s.nodes[i].0 == id { self.s.nodes.remove(i); } else { i += 1; } }
        let mut i = 0;
        while i < self.s.attrs.len() { if self.s.attrs[i].0 == id { self.s.attrs.remove(i); } else { i += 1; } }
        check(!self.g.node_exists(id) && self.g.node_status(id) == NodeStatus::NonExistent, 21);
    }
    fn add(&mut self, id: u64, t: NodeType) {
        if self.has(id) { return; }
        self.g.add_node(create_node_box_with_id(t, id));
        self.s.nodes.push((id, t));
        check(self.g.node_exists(id) && self.g.node_status(id) == NodeStatus::Uninitialized, 22);
    }
    fn step(&mut self, op: usize) {
        self.n += 1;
        let t = self.n;
        match op {
            0 => self.set(3, "window_max_x", I(1 + pick(10 + t, 2) as i32)),
            1 => self.set(4, "mix", F([0.5, 0.25][pick(30 + t, 2)])),
            2 => self.set(1, "file_path", S(["/1", "/b", "/x"][pick(20 + t, 3)])),
            3 => self.disconnect(4, 1),
            4 => self.connect(1, 4, 1),
            5 => self.remove(3),
            6 => { self.add(3, NodeType::CropImage); self.connect(1, 3, 0); self.connect(3, 4, 0); }
            7 => { self.g.execute(5, &[2.0], &mut self.cache); }
            8 => { self.g.execute(3, &[1.0], &mut self.cache); }
            9 => { self.set(1, "enable", I(0)); self.g.execute(5, &[1.0], &mut self.cache); self.set(1, "enable", I(1)); }
            10 => { self.remove(1); self.add(1, NodeType::ReadImage); self.set(1, "file_path", S("/b")); self.connect(1, 3, 0); }
            11 => { // an execution that fails: a cycle, then undone
                self.connect(4, 3, 0);
                self.g.execute(5, &[1.0], &mut self.cache);
                self.connect(2, 3, 0);
            }
            12 => { self.add(6, NodeType::Grade); self.set(6, "offset_r", F(0.25)); self.connect(2, 6, 0); self.connect(6, 4, 1); }
            _ => self.connect(2, 4, 0),
        }
    }
}
fn start() -> H {
    dsetup();
    add_file(b'1', Img::any(101, [0, 0, 2, 1], [0, 0, 2, 2], 4));
    add_file(b'2', Img::any(104, [0, 0, 1, 1], [0, 0, 2, 2], 4));
    add_file(b'b', Img::any(103, [1, 0, 2, 1], [0, 0, 3, 2], 4));
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::ReadImage), (3, NodeType::CropImage), (4, NodeType::MergeImage), (5, NodeType::Null)],
        &[(1, 3, 0), (3, 4, 0), (2, 4, 1), (4, 5, 0)]);
    s.set(1, "file_path", S("/1"));
    s.set(2, "file_path", S("/#"));
    s.set(3, "window_max_x", I(2));
    s.set(3, "window_max_y", I(1));
    s.set(4, "mode", I(0));
    let g = fresh(&s);
    let cache = create_cache_box_with_capacity([0, 100000][pick(1, 2)]);
    H { g, cache, s, n: 0 }
}
fn history(lo: usize, hi: usize) {
    let mut h = start();
    h.g.execute(5, &[1.0], &mut h.cache);
    let op = lo + pick(2, (hi - lo) as u64);
    h.step(op);
    let mut i = 1;
    while i < if THOROUGH { 4 } else { 3 } { let op = pick(2 + i, 14); h.step(op); i += 1; }
    let s = h.s.clone();
    against_fresh(&mut h.g, &mut h.cache, &s, 5, 1.0, 100);
    cover(1);
}
#[no_mangle]
pub extern "C" fn vp_g04_a() { history(0, 2) }
#[no_mangle]
pub extern "C" fn vp_g04_b() { history(4, 7) }
#[no_mangle]
pub extern "C" fn vp_g04_c() { history(7, 10) }
#[no_mangle]
pub extern "C" fn vp_g04_d() { history(10, 14) }

#[no_mangle]
pub extern "C" fn vp_g04_e() { history(2, 4) }

/// Executing several frames gives the result of the last one; sub-frames round.
#[no_mangle]
pub extern "C" fn vp_g04_frames() {
    let mut h = start();
    let n = 1 + pick(2, 3);
    let mut fr = Vec::new();
    let mut i = 0;
    while i < n { let k = pick(3, 4); fr.push([1.0f64, 2.0, 1.625, 7.0][k]); i += 1; }
    check(h.g.execute(5, &fr, &mut h.cache) == ExecuteStatus::Success, 10);
    let mut f = fresh(&h.s);
    let mut c0 = create_cache_box_with_capacity(0);
    let last = match fr[n - 1] { x if x == 1.625 => 2.0, x => x };
    check(f.execute(5, &[last], &mut c0) == ExecuteStatus::Success, 11);
    same_stream(&out(&h.g), &out(&f), 20);
    check(out(&h.g).hash() == out(&f).hash(), 12);
    check(h.g.state() == GraphState::Clean, 13);
    if n == 1 { cover(1); } else { cover(2); }
}

/// The graph reports Dirty after every change and Clean only after a successful execution.
#[no_mangle]
pub extern "C" fn vp_g04_state() {
    let mut h = start();
    check(h.g.state() == GraphState::Dirty, 10);
    let ok = pick(2, 2) == 1;
    if !ok { h.connect(4, 3, 0); }
    let st = h.g.execute(5, &[1.0], &mut h.cache);
    check((st == ExecuteStatus::Success) == ok, 11);
    check(h.g.state() == if ok { GraphState::Clean } else { GraphState::Dirty }, 12);
    if !ok { cover(2); return; }
    let k = pick(3, 9);
    match k {
        0 => h.set(4, "mix", F(any_f32(4))),
        1 => h.set(4, "mode", I(any_i32(5))),
        2 => h.set(1, "file_path", S("/b")),
        3 => h.connect(1, 4, any_u8(6)),
        4 => h.disconnect(4, 1),
        5 => h.remove(2),
        6 => h.add(9, NodeType::Null),
        7 => { h.g.execute(77, &[1.0], &mut h.cache); check(h.g.execute_status() == ExecuteStatus::Error, 16); check(h.g.state() == GraphState::Clean, 17); return; }
        _ => { check(h.g.execute(5, &[], &mut h.cache) == ExecuteStatus::Success && h.g.state() == GraphState::Clean, 18); return; }
    }
    check(h.g.state() == GraphState::Dirty, 13);
    // asking changes nothing
    h.g.node_exists(4); h.g.node_status(4); h.g.get_node_attr_f32(4, "mix"); h.g.node_attr_exists(4, "mix");
    check(h.g.state() == GraphState::Dirty && h.g.execute_status() == ExecuteStatus::Success, 14);
    cover(1);
}

/// ... also in the smallest graphs
#[no_mangle]
pub extern "C" fn vp_g04_small() {
    setup();
    let mut cache = create_cache_box_with_capacity(0);
    let mut g = create_graph_box();
    g.add_node(create_node_box_with_id(NodeType::Grade, 1));
    g.add_node(create_node_box_with_id(NodeType::Null, 2));
    let wired = pick(1, 2) == 1;
    if wired { g.connect(1, 2, any_u8(2)); }
    let start = 1 + pick(3, 2) as u64;
    check(g.execute(start, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(g.state() == GraphState::Clean, 2);
    match pick(4, 7) {
        0 => { check(g.remove_node(1), 3); }
        1 => { check(g.remove_node(2), 3); }
        2 => g.connect(1, 2, any_u8(5)),
        3 => { if !wired { return; } let mut i = 0u8; loop { g.disconnect_input(2, i); if i == 255 { break; } i += 1; } }
        4 => g.set_node_attr_i32(1, "enable", any_i32(6)),
        5 => g.set_node_attr_f32(1, "mix", any_f32(7)),
        _ => { g.add_node(create_node_box_with_id(NodeType::Null, any_u64(8))); }
    }
    check(g.state() == GraphState::Dirty, 4);
    check(g.execute_status() == ExecuteStatus::Success, 5);
    if wired { cover(1); } else { cover(2); }
}
