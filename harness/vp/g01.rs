//@ entry vp_g01_ops covers=1,2,3 time=400
//@ entry vp_g01_chain covers=1,2,3,4,5 time=400
//@ entry vp_g01_self covers=1,2,3,4 time=400
//@ entry vp_g01_unknown covers=1,2,3 time=200
//@ entry vp_g01_removed covers=1,2,3 time=300
//@ bound a node with up to 4 (thorough: 5) connect/disconnect operations of three sources, every input number a symbolic byte, every source id symbolic
//@ bound two chained nodes, 2 (thorough: 3) operations with symbolic source (the nodes themselves included), destination and input number; a node connected to itself and others, 3 operations; symbolic unknown ids; removal of a symbolic node between operations
//@ assume node ids added to one graph are distinct
use super::gsup::*;
use super::sup::*;

fn leaves(s: &mut Sys) {
    setup();
    add_file(b'a', Img::any(101, [0, 0, 1, 1], [0, 0, 11, 1], 4));
    add_file(b'b', Img::any(102, [1, 0, 2, 1], [0, 0, 12, 1], 4));
    add_file(b'c', Img::any(103, [2, 0, 3, 1], [0, 0, 13, 1], 4));
    s.add(1, Kind::Read(b'a'));
    s.add(2, Kind::Read(b'b'));
    s.add(3, Kind::Read(b'c'));
}

fn id(t: u32, lo: u64, hi: u64) -> u64 { range_u64(t, lo, hi) }

/// One destination, every input number.
#[no_mangle]
pub extern "C" fn vp_g01_ops() {
    let mut s = Sys::new(0);
    leaves(&mut s);
    s.add(4, Kind::Merge(1, 1.0));
    let n = if THOROUGH { 5 } else { 4 };
    let mut i = 0;
    while i < n {
        let input = any_u8(2);
        if i > 0 && pick(3, 2) == 1 { cover(1); s.disconnect(4, input); } else { let src = id(1, 1, 3); cover(2); s.connect(src, 4, input); }
        i += 1;
    }
    if s.run(4, 1.0, 10) { cover(3); }
}

/// Operations on one node leave the others' inputs alone.
#[no_mangle]
pub extern "C" fn vp_g01_chain() {
    let mut s = Sys::new(0);
    leaves(&mut s);
    s.add(4, Kind::Merge(0, 1.0));
    s.add(5, Kind::Merge(1, 1.0));
    s.connect(1, 4, 3);
    s.connect(2, 4, 7);
    s.connect(4, 5, 7);
    cover(5);
    let n = if THOROUGH { 3 } else { 2 };
    let mut i = 0;
    while i < n {
        let dst = id(2, 4, 5);
        let input = any_u8(3);
        if pick(4, 2) == 1 { cover(1); s.disconnect(dst, input); } else { let src = id(1, 2, 5); cover(2); s.connect(src, dst, input); }
        i += 1;
    }
    if s.run(5, 1.0, 10) { cover(3); }
    if s.run(4, 1.0, 20) { cover(4); }
}

/// Unknown ids are ignored.
#[no_mangle]
pub extern "C" fn vp_g01_unknown() {
    let mut s = Sys::new(0);
    leaves(&mut s);
    s.add(4, Kind::Merge(1, 1.0));
    s.connect(1, 4, 0);
    s.connect(2, 4, 1);
    let src = any_u64(1);
    let dst = any_u64(2);
    let input = any_u8(3);
    assume(src != 4 && (dst == 4 || dst > 4 || dst == 0));
    if pick(4, 2) == 0 { cover(1); s.connect(src, dst, input); } else { cover(2); s.disconnect(dst, input); }
    if s.run(4, 1.0, 10) { cover(3); }
}

/// Removing a node removes its connections and nothing else.
#[no_mangle]
pub extern "C" fn vp_g01_removed() {
    let mut s = Sys::new(0);
    leaves(&mut s);
    s.add(4, Kind::Merge(0, 1.0));
    s.add(5, Kind::Merge(1, 1.0));
    let i1 = any_u8(5);
    s.connect(1, 4, i1);
    s.connect(2, 4, 7);
    s.connect(4, 5, 0);
    s.connect(3, 5, 1);
    let n = id(1, 1, 4);
    cover(1);
    s.remove(n, 1);
    if pick(2, 2) == 1 { cover(2); let src = id(3, 1, 4); let dst = id(4, 4, 5); assume(src != dst); s.connect(src, dst, 9); }
    if s.run(5, 1.0, 10) { cover(3); }
}

/// A node may be connected to itself, and the connection can be replaced or removed like any other.
#[no_mangle]
pub extern "C" fn vp_g01_self() {
    let mut s = Sys::new(0);
    leaves(&mut s);
    s.add(4, Kind::Merge(1, 1.0));
    s.connect(1, 4, 0);
    let mut i = 0;
    while i < 3 {
        let input = range_i32(2, 0, 2) as u8;
        if pick(3, 2) == 1 { cover(1); s.disconnect(4, input); } else { let src = if pick(4, 2) == 0 { 4 } else { 2 }; cover(2); s.connect(src, 4, input); }
        i += 1;
    }
    if s.run(4, 1.0, 10) { cover(3); } else { cover(4); }
}
