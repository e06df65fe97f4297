//@ entry vp_c02_history time=300 covers=1,2,3,4,5,6
//@ entry vp_c02_step time=300 covers=1,2,3,4,5,6,7
//@ entry vp_c02_deep time=400 covers=1,2,3,4,5,6,7
//@ entry vp_c02_keys time=100 covers=1,2,3
//@ entry vp_c02_many covers=1,2 time=300
//@ bound 12 keys of 3 bytes each, a symbolic lookup, a symbolic repeated insert, then a symbolic capacity or amount to evict
//@ bound histories: 3 arbitrary operations (thorough: 4) from an empty cache with a symbolic capacity 0..=24; 1 (thorough: 2) arbitrary operations after 3 inserts of symbolic sizes, two symbolic lookups and a symbolic capacity; 2 (thorough: 3) after 3 inserts of fixed sizes, a symbolic lookup and a symbolic capacity; then every key is looked up
//@ bound 2 to 3 keys, concrete in the histories and any two 64-bit values in vp_c02_keys; image sizes 0, 3, 4 or 8 bytes; capacities and eviction amounts symbolic 0..=24
//@ assume hash collisions of the standard library's hash map are outside the claim (equal hashes only for equal keys)
use super::cachesup::*;
use super::sup::*;

#[no_mangle]
pub extern "C" fn vp_c02_history() {
    let cap = range_u64(1, 0, 24) as usize;
    let mut s = Sys::new(cap, vec![7, 8], false, true);
    ops(&mut s, if THOROUGH { 4 } else { 3 });
    s.finish();
}

#[no_mangle]
pub extern "C" fn vp_c02_step() {
    let mut s = Sys::new(100, vec![7, 8, 9], false, true);
    for i in 0..3 { let n = [3usize, 8][pick(2, 2)]; s.insert(7 + i, n, 0); }
    s.get(7 + pick(3, 3) as u64);
    s.get(7 + pick(3, 3) as u64);
    let cap = range_u64(1, 0, 40) as usize;
    s.r.set_cap(cap);
    s.c.set_capacity_bytes(cap);
    cover(7);
    ops(&mut s, if THOROUGH { 2 } else { 1 });
    s.finish();
}

/// Keys are any 64-bit values: a lookup answers with the value last stored under exactly that key.
#[no_mangle]
pub extern "C" fn vp_c02_keys() {
    let (a, b, q) = (any_u64(1), any_u64(2), any_u64(3));
    let mut s = Sys::new(100, vec![a, b], false, true);
    s.insert(a, 4, 2);
    s.insert(b, 8, 1);
    if a == b { cover(1); } else { cover(2); }
    if q == a { cover(3); }
    s.get(q);
    s.get(a);
    s.c.evict();
    s.r.evict();
    s.get(b);
    s.get(q);
}

#[no_mangle]
pub extern "C" fn vp_c02_deep() {
    let cap = range_u64(1, 8, 24) as usize;
    let mut s = Sys::new(cap, vec![7, 8, 9], false, true);
    for i in 0..3 { s.insert(7 + i, [3usize, 8, 3][i as usize], 0); }
    s.get(7 + pick(3, 3) as u64);
    cover(7);
    ops(&mut s, if THOROUGH { 3 } else { 2 });
    s.finish();
}
/// many entries
#[no_mangle]
pub extern "C" fn vp_c02_many() {
    let mut s = Sys::new(100, (0..12).map(|k| 1000 + 7 * k as u64).collect(), false, true);
    let keys = s.keys.clone();
    for k in keys.iter() { s.insert(*k, 3, 0); }
    s.get(keys[pick(1, 12)]);
    s.insert(keys[pick(2, 12)], 8, 0);
    s.observe();
    let n = range_u64(3, 0, 45) as usize;
    if pick(4, 2) == 0 { s.r.set_cap(n); s.c.set_capacity_bytes(n); cover(1); } else { s.r.evict_bytes(n); s.c.evict_bytes(n); cover(2); }
    s.observe();
    s.insert(5, 3, 0);
    s.observe();
    s.keys.push(5);
    s.finish();
}
