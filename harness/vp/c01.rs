//@ entry vp_c01_history time=200 covers=1,2,3,4,5,6
//@ entry vp_c01_step time=300 covers=1,2,3,4,5,6,7
//@ entry vp_c01_deep time=400 covers=1,2,3,4,5,6,7
//@ entry vp_c01_big covers=1,2,3,4,5,6 time=200
//@ entry vp_c01_many covers=1,2 time=300
//@ bound 12 keys of 3 bytes each, a symbolic lookup, a symbolic repeated insert, then a symbolic capacity or amount to evict
//@ bound histories: 3 arbitrary operations (thorough: 4) from an empty cache with a symbolic capacity 0..=24; 1 (thorough: 2) arbitrary operations after 3 inserts of symbolic sizes, a lookup and a symbolic capacity; 2 (thorough: 3) after 3 inserts of fixed sizes, a symbolic lookup and a symbolic capacity
//@ bound 3 keys; image sizes 0, 1, 3, 4 or 8 bytes over all four pixel types; capacities and eviction amounts symbolic 0..=24, and (big) any 64-bit value
//@ assume hash collisions of the standard library's hash map are outside the claim (equal hashes only for equal keys)
use super::cachesup::*;
use super::sup::*;

#[no_mangle]
pub extern "C" fn vp_c01_history() {
    let cap = range_u64(1, 0, 24) as usize;
    let mut s = Sys::new(cap, vec![7, 8], true, false);
    s.observe();
    ops(&mut s, if THOROUGH { 4 } else { 3 });
    s.finish();
}

#[no_mangle]
pub extern "C" fn vp_c01_step() {
    let mut s = Sys::new(100, vec![7, 8, 9], true, false);
    for i in 0..3 { let n = [1usize, 4, 8][pick(2, 3)]; s.insert(7 + i, n, i as usize + 1); }
    if pick(3, 2) == 1 { s.get(7); }
    let cap = range_u64(1, 0, 40) as usize;
    s.r.set_cap(cap);
    s.c.set_capacity_bytes(cap);
    s.observe();
    cover(7);
    ops(&mut s, if THOROUGH { 2 } else { 1 });
    s.finish();
}

/// Capacities and amounts of any magnitude.
#[no_mangle]
pub extern "C" fn vp_c01_big() {
    let cap = any_u64(1) as usize;
    let mut s = Sys::new(cap, vec![7, 8], true, false);
    s.insert(7, 8, 2);
    s.insert(8, 4, 1);
    s.observe();
    let n = any_u64(2) as usize;
    match pick(3, 2) { 0 => { cover(1); s.r.evict_bytes(n); s.c.evict_bytes(n); } _ => { cover(2); s.r.set_cap(n); s.c.set_capacity_bytes(n); } }
    s.observe();
    if s.r.items.len() == 2 { cover(3); }
    if s.r.items.len() == 1 { cover(4); }
    if s.r.items.len() == 0 { cover(5); }
    s.insert(7, 4, 0);
    s.observe();
    s.finish();
    cover(6);
}

#[no_mangle]
pub extern "C" fn vp_c01_deep() {
    let cap = range_u64(1, 8, 24) as usize;
    let mut s = Sys::new(cap, vec![7, 8, 9], true, false);
    for i in 0..3 { s.insert(7 + i, [3usize, 8, 3][i as usize], 0); }
    s.get(7 + pick(3, 3) as u64);
    cover(7);
    ops(&mut s, if THOROUGH { 3 } else { 2 });
    s.finish();
}
/// many entries
#[no_mangle]
pub extern "C" fn vp_c01_many() {
    let mut s = Sys::new(100, (0..12).map(|k| 1000 + 7 * k as u64).collect(), true, false);
    let keys = s.keys.clone();
    for k in keys.iter() { s.insert(*k, 3, 0); }
    s.get(keys[pick(1, 12)]);
    s.insert(keys[pick(2, 12)], 8, 0);
    s.observe();
    let n = range_u64(3, 0, 45) as usize;
    if pick(4, 2) == 0 { s.r.set_cap(n); s.c.set_capacity_bytes(n); cover(1); } else { s.r.evict_bytes(n); s.c.evict_bytes(n); cover(2); }
    s.observe();
    s.insert(5, 3, 0);
    s.observe();
    s.keys.push(5);
    s.finish();
}
