//@ entry vp_g03_dag5 covers=1 time=600
//@ entry vp_g03_reversed covers=1 time=600
//@ entry vp_g03_values covers=1,2,3 time=400
//@ entry vp_g03_wide covers=1 time=400
//@ entry vp_g03_far covers=1,2 time=300
//@ entry vp_g03_long covers=1,2 time=300
//@ bound strips of 300 pixels merged at far places; a chain of 40 nodes with a merge at every fourth
//@ bound every acyclic wiring of 4 (thorough: 5) two-input merge nodes over two leaves, nodes created in dependency order and in reverse
//@ bound leaf pixels symbolic floats in 0..=1, merge mode and mix symbolic; image sizes 1x1 to 3x2, 3 or 4 channels
use super::gsup::*;
use super::sup::*;

fn mk(s: &mut Sys) {
    add_file(b'a', Img::any(101, [0, 0, 1, 1], [0, 0, 11, 1], 4));
    add_file(b'b', Img::any(102, [1, 0, 2, 1], [0, 0, 12, 1], 4));
}

fn dag(n: u64, rev: bool) {
    setup();
    let mut s = Sys::new(0);
    mk(&mut s);
    // node ids: 1, 2 leaves; 3.. merges; a merge takes its inputs from smaller ids
    let modes = [0, 2, 0, 2, 0, 2, 0];
    let mut i = 0;
    while i < n + 2 {
        let id = if rev { n + 2 - i } else { i + 1 };
        if id == 1 { s.add(1, Kind::Read(b'a')); }
        else if id == 2 { s.add(2, Kind::Read(b'b')); }
        else { s.add(id, Kind::Merge(modes[id as usize - 3], 0.5)); }
        i += 1;
    }
    let mut id = 3;
    while id < n + 3 {
        // the last nodes always use the one before them, so that all are needed
        let a = if id > 3 && id % 2 == 0 { id - 1 } else { 1 + pick(1, id - 1) as u64 };
        let b = if id > 3 && id % 2 == 1 { id - 1 } else { 1 + pick(2, id - 1) as u64 };
        if rev { s.connect(b, id, 1); s.connect(a, id, 0); } else { s.connect(a, id, 0); s.connect(b, id, 1); }
        id += 1;
    }
    s.run(n + 2, 1.0, 10);
    cover(1);
}
#[no_mangle]
pub extern "C" fn vp_g03_dag5() { dag(if THOROUGH { 6 } else { 5 }, false) }
#[no_mangle]
pub extern "C" fn vp_g03_reversed() { dag(if THOROUGH { 6 } else { 5 }, true) }

/// Values through a chain of merges with symbolic mode and mix.
#[no_mangle]
pub extern "C" fn vp_g03_values() {
    setup();
    let mut s = Sys::new(0);
    let ch = 3 + pick(1, 2);
    add_file(b'a', Img::any(101, [0, 0, 2, 2], [0, 0, 11, 1], ch));
    add_file(b'b', Img::any(102, [1, -1, 3, 1], [0, 0, 12, 1], 4));
    s.add(1, Kind::Read(b'a'));
    s.add(2, Kind::Read(b'b'));
    let m1 = range_i32(2, 0, 2);
    let m2 = range_i32(3, 0, 2);
    let m1 = conc(m1 as u64) as i32;
    let m2 = conc(m2 as u64) as i32;
    s.add(3, Kind::Merge(m1, pos_f32(4, 0.0, 1.0)));
    s.add(4, Kind::Merge(m2, pos_f32(5, 0.0, 1.0)));
    s.add(5, Kind::Null);
    s.connect(1, 3, 0);
    s.connect(2, 3, 1);
    s.connect(3, 5, 0);
    let k = pick(6, 3);
    match k {
        0 => { s.connect(5, 4, 0); s.connect(1, 4, 1); }
        1 => { s.connect(2, 4, 0); s.connect(5, 4, 1); }
        _ => { s.connect(5, 4, 0); s.connect(3, 4, 1); }
    }
    s.run(4, 1.0, 10);
    cover(k as u32 + 1);
}

/// One leaf feeding many nodes, in any input order.
#[no_mangle]
pub extern "C" fn vp_g03_wide() {
    setup();
    let mut s = Sys::new(0);
    mk(&mut s);
    add_file(b'c', Img::any(103, [2, 0, 3, 1], [0, 0, 13, 1], 4));
    s.add(1, Kind::Read(b'a'));
    s.add(2, Kind::Read(b'b'));
    s.add(3, Kind::Read(b'c'));
    s.add(4, Kind::Merge(1, 1.0));
    s.add(5, Kind::Merge(1, 0.5));
    s.add(6, Kind::Merge(0, 1.0));
    let (i, j, k) = (any_u8(1), any_u8(1), any_u8(1));
    let x = range_u64(2, 1, 3);
    let y = range_u64(3, 1, 4);
    s.connect(x, 4, i);
    s.connect(2, 4, j);
    s.connect(y, 5, k);
    s.connect(3, 5, 100);
    s.connect(4, 6, k);
    s.connect(5, 6, j);
    s.run(6, 1.0, 10);
    cover(1);
}
/// long strips, far from the origin
#[no_mangle]
pub extern "C" fn vp_g03_far() {
    setup();
    let mut s = Sys::new(0);
    let (ox, oy) = [(0, 0), (100000, -40000), (-33000, 70000)][pick(1, 3)];
    let tall = pick(2, 2) == 1;
    let at = |a: i32, b: i32| if tall { [ox, oy + a, ox + 1, oy + b] } else { [ox + a, oy, ox + b, oy + 1] };
    add_file(b'a', Img::fixed(0.25, at(0, 300), [0, 0, 11, 1], 4));
    add_file(b'b', Img::any(102, at(298, 302), [0, 0, 12, 1], 4));
    s.add(1, Kind::Read(b'a'));
    s.add(2, Kind::Read(b'b'));
    let mode = pick(3, 3) as i32;
    s.add(3, Kind::Merge(mode, 0.5));
    let swap = pick(4, 2);
    s.connect(1, 3, swap as u8);
    s.connect(2, 3, 1 - swap as u8);
    s.run(3, 1.0, 10);
    if tall { cover(1); } else { cover(2); }
}
/// a long chain, built from either end
#[no_mangle]
pub extern "C" fn vp_g03_long() {
    setup();
    let mut s = Sys::new([0, 1 << 20][pick(2, 2)]);
    mk(&mut s);
    let n = 40;
    s.add(1, Kind::Read(b'a'));
    s.add(2, Kind::Read(b'b'));
    let kind = |id: u64| if id % 4 == 0 { Kind::Merge(0, 0.5) } else { Kind::Null };
    let rev = pick(1, 2) == 1;
    let mut k = 0;
    while k < n { let id = if rev { 2 + n - k } else { 3 + k }; s.add(id, kind(id)); k += 1; }
    k = 0;
    while k < n {
        let id = if rev { 2 + n - k } else { 3 + k };
        if id % 4 == 0 { s.connect(2, id, 1); }
        s.connect(if id == 3 { 1 } else { id - 1 }, id, 0);
        k += 1;
    }
    s.run(2 + n, 1.0, 10);
    s.run(30, 1.0, 30);
    if rev { cover(1); } else { cover(2); }
}
