//@ entry vp_g02_any0 covers=1,2,3 time=500
//@ entry vp_g02_any1 covers=1,3 time=500
//@ entry vp_g02_any2 covers=1,2,3 time=500
//@ entry vp_g02_any3 covers=1,2,3 time=500
//@ entry vp_g02_any4 covers=1,2,3 time=500
//@ entry vp_g02_once covers=1,2 time=300
//@ entry vp_g02_fail covers=1,2,3 time=200
//@ entry vp_g02_frames covers=1,2,3 time=200
//@ entry vp_g02_start covers=1,2,3 time=200
//@ entry vp_g02_long covers=1,2 time=300
//@ bound a chain of 30 nodes, with or without its end connected back to any node of it
//@ bound every wiring (cycles and self-loops included) of three two-input nodes over themselves and a leaf
//@ bound ladders of 10 two-input nodes (2^10 paths to the leaf); a node of every type with 0 to 2 connections on symbolic inputs; a failing node in a chain of 4, failing in any of up to 3 frames; any start id
//@ assume the graph is acyclic or not by its connections alone; node types are the ten public ones
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cxxbridge::ffi::*;
use crate::node::*;

fn any_wiring(first: usize) {
    setup();
    let mut s = Sys::new(0);
    add_file(b'a', Img::any(101, [0, 0, 1, 1], [0, 0, 1, 1], 4));
    s.add(1, Kind::Merge(0, 1.0));
    s.add(2, Kind::Merge(0, 1.0));
    s.add(3, Kind::Null);
    s.add(4, Kind::Read(b'a'));
    let mut n = 1;
    while n <= 3 {
        let mut i = 0;
        while i < 2 {
            let src = if n == 1 && i == 0 { first } else { pick(10, 5) };
            // 0: not connected
            if src > 0 { s.connect(src as u64, n, i); }
            i += 1;
        }
        n += 1;
    }
    cover(1);
    if s.run(1, 1.0, 10) { cover(2); } else { cover(3); }
    // and it can be asked again
    s.run(3, 2.0, 20);
}
#[no_mangle]
pub extern "C" fn vp_g02_any0() { any_wiring(0) }
#[no_mangle]
pub extern "C" fn vp_g02_any1() { any_wiring(1) }
#[no_mangle]
pub extern "C" fn vp_g02_any2() { any_wiring(2) }
#[no_mangle]
pub extern "C" fn vp_g02_any3() { any_wiring(3) }
#[no_mangle]
pub extern "C" fn vp_g02_any4() { any_wiring(4) }

/// Shared upstream nodes are computed once per frame.
#[no_mangle]
pub extern "C" fn vp_g02_once() {
    setup();
    let mut s = Sys::new(0);
    add_file(b'a', Img::any(101, [0, 0, 1, 1], [0, 0, 1, 1], 4));
    s.add(100, Kind::Read(b'a'));
    let depth = if THOROUGH { 24 } else { 12 };
    let mut prev = 100;
    let mut i = 0;
    let skip = pick(2, 3);
    while i < depth {
        s.add(i, Kind::Merge(0, 0.0));
        s.connect(prev, i, 0);
        // the second input comes from the same node, the leaf or the node before
        let second = if skip == 0 { prev } else if skip == 1 { 100 } else if i >= 2 { i - 2 } else { 100 };
        s.connect(second, i, 1);
        prev = i;
        i += 1;
    }
    let frames = 1 + pick(1, 3);
    unsafe { stubs::READS = 0; }
    let f = [1.0, 2.0, 3.0];
    let st = s.g.execute(prev, &f[..frames], &mut s.cache);
    cover(1);
    check(st == ExecuteStatus::Success, 1);
    check(unsafe { stubs::READS } == frames as u32, 2);
    cover(2);
}

/// A node that fails makes the execution an error wherever it is; nothing else does.
#[no_mangle]
pub extern "C" fn vp_g02_fail() {
    setup();
    static mut OK: bool = false;
    fn resample(src: &mut ImageShared, dst: &mut ImageShared, _n: i32, _i: bool) -> bool {
        *dst.pixel_block = (*src.pixel_block).clone();
        dst.data_window = src.data_window;
        dst.display_window = src.display_window;
        unsafe { OK }
    }
    unsafe { stubs::RESAMPLE = Some(resample); }
    let mut s = Sys::new(if pick(5, 2) == 0 { 0 } else { 4096 });
    add_file(b'a', Img::any(101, [0, 0, 1, 1], [0, 0, 1, 1], 4));
    s.add(1, Kind::Read(b'a'));
    s.g.add_node(create_node_box_with_id(NodeType::Null, 2));
    s.g.add_node(create_node_box_with_id(NodeType::ResampleImage, 3));
    s.g.add_node(create_node_box_with_id(NodeType::Null, 4));
    let factor = any_i32(1);
    s.g.set_node_attr_i32(3, "factor", factor);
    s.g.connect(1, 2, 0);
    s.g.connect(2, 3, 0);
    s.g.connect(3, 4, 0);
    let ok1 = any_u8(2) & 1 == 1;
    let ok2 = any_u8(2) & 1 == 1;
    unsafe { OK = ok1; }
    let st = s.g.execute(4, &[1.0], &mut s.cache);
    let good = ok1 || factor == 0;
    check((st == ExecuteStatus::Success) == good, 1);
    check(good || st == ExecuteStatus::Error, 2);
    check(s.g.execute_status() == st, 3);
    if good { cover(1); } else { cover(2); check(s.g.node_status(3) == NodeStatus::Error, 4); }
    // the next execution has its own outcome
    unsafe { OK = ok2; }
    let st = s.g.execute(2, &[1.0], &mut s.cache);
    check(st == ExecuteStatus::Success, 5);
    let st = s.g.execute(4, &[2.0], &mut s.cache);
    // a success may come from the cache, a failure never
    let again = ok2 || factor == 0 || (ok1 && s.cache.len() > 0);
    check((st == ExecuteStatus::Success) == again, 6);
    if again { check(s.g.node_status(3) == NodeStatus::Valid && s.g.state() == GraphState::Clean, 7); }
    cover(3);
}

/// Any start id; nodes of every type with any number of inputs.
#[no_mangle]
pub extern "C" fn vp_g02_start() {
    setup();
    let mut s = Sys::new(0);
    add_file(b'a', Img::any(101, [0, 0, 2, 1], [0, 0, 2, 1], 4));
    s.add(1, Kind::Read(b'a'));
    let types = [NodeType::ReadImage, NodeType::WriteImage, NodeType::LensDistort, NodeType::Null, NodeType::Grade, NodeType::MergeImage, NodeType::CropImage, NodeType::ResampleImage, NodeType::Transform, NodeType::Viewer];
    let t = types[pick(2, 10)];
    s.g.add_node(create_node_box_with_id(t, 2));
    if t == NodeType::CropImage { s.g.set_node_attr_i32(2, "window_max_x", 1); s.g.set_node_attr_i32(2, "window_max_y", 1); }
    let n = pick(3, 3);
    let a = any_u8(4);
    let b = any_u8(4);
    if n > 0 { s.g.connect(1, 2, a); }
    if n > 1 { assume(t != NodeType::ResampleImage); s.g.connect(1, 2, b); }
    let start = any_u64(5);
    let st = s.g.execute(start, &[1.0], &mut s.cache);
    check(s.g.execute_status() == st, 3);
    if start == 1 || start == 2 { cover(1); check(st == ExecuteStatus::Success && s.g.state() == GraphState::Clean, 1); } else { cover(2); check(st == ExecuteStatus::Error, 2); }
    // no frames: nothing to do, but a known node
    let st = s.g.execute(start, &[], &mut s.cache);
    check((st == ExecuteStatus::Success) == (start == 1 || start == 2), 4);
    cover(3);
}

/// A failure in any frame is the outcome, whatever the other frames do.
#[no_mangle]
pub extern "C" fn vp_g02_frames() {
    setup();
    static mut CALLS: usize = 0;
    static mut BAD: [bool; 3] = [false; 3];
    fn resample(src: &mut ImageShared, dst: &mut ImageShared, _n: i32, _i: bool) -> bool {
        *dst.pixel_block = (*src.pixel_block).clone();
        dst.data_window = src.data_window;
        dst.display_window = src.display_window;
        unsafe { CALLS += 1; !BAD[CALLS - 1] }
    }
    let n = 1 + pick(1, 3);
    let mut any = false;
    let mut fr = Vec::new();
    let mut i = 0;
    while i < n {
        let b = any_u8(2) & 1 == 1;
        unsafe { BAD[i] = b; }
        any |= b;
        fr.push((i + 1) as f64);
        i += 1;
    }
    unsafe { CALLS = 0; stubs::RESAMPLE = Some(resample); }
    let mut s = Sys::new(0);
    add_file(b'a', Img::any(101, [0, 0, 1, 1], [0, 0, 1, 1], 4));
    s.add(1, Kind::Read(b'a'));
    s.g.add_node(create_node_box_with_id(NodeType::ResampleImage, 3));
    s.g.add_node(create_node_box_with_id(NodeType::Null, 4));
    s.g.set_node_attr_i32(3, "factor", 1);
    s.g.connect(1, 3, 0);
    s.g.connect(3, 4, 0);
    let st = s.g.execute(4, &fr, &mut s.cache);
    check(st == if any { ExecuteStatus::Error } else { ExecuteStatus::Success }, 1);
    check(s.g.execute_status() == st, 2);
    check((s.g.state() == GraphState::Clean) == !any, 3);
    if any { cover(1); } else { cover(2); }
    if n == 3 { cover(3); }
}
/// long chains and long cycles
#[no_mangle]
pub extern "C" fn vp_g02_long() {
    setup();
    let mut s = Sys::new(0);
    add_file(b'a', Img::any(101, [0, 0, 1, 1], [0, 0, 1, 1], 4));
    s.add(1, Kind::Read(b'a'));
    let mut id = 2;
    while id <= 30 { s.add(id, Kind::Null); s.connect(id - 1, id, 0); id += 1; }
    let back = pick(1, 4);
    if back > 0 { s.connect([30, 30, 25][back - 1], [2, 30, 7][back - 1], 1); }
    if s.run(30, 1.0, 10) { cover(1); } else { cover(2); }
    s.run(20, 1.0, 30);
    s.run(3, 1.0, 50);
}
