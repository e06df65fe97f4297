//@ entry vp_l01_transform covers=1,2,3 time=300
//@ entry vp_l01_names covers=1,2 time=300
//@ entry vp_l01_ops covers=1,2 time=300
//@ entry vp_l01_which covers=1,2,3 time=300
//@ entry vp_l01_mixed covers=1 time=300
//@ entry vp_l01_large covers=1,2 time=300
//@ bound one table of 9 and one of 17 entries per axis
//@ bound tables of 2 to 4 (thorough: 5) entries per axis; up to three requests over one cache of any capacity up to 4000 bytes; grades with one arbitrary parameter each
//@ assume colour conversion (C++) is a stand-in scaling each colour space differently; equal hashes only for equal hashed bytes
use super::csup::*;
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::colorlutimage::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;

const NAMES: [&str; 4] = ["Linear", "sRGB", "b", "x"];
fn prep() { install(&Img::fixed(0.25, [0, 0, 1, 1], [0, 0, 1, 1], 3), &any_spec(90, "Linear"), DataType::Float32); }
fn px(i: &ImageShared) -> Vec<f32> { i.pixel_block.as_slice_f32().to_vec() }
/// the table before any conversion
fn identity(n: i32, ch: i32) -> Vec<f32> {
    let c = opaque(1.0) / (opaque(n as f32) - opaque(1.0));
    let mut v = Vec::new();
    let mut b = 0;
    while b < if ch == 1 { 1 } else { n } {
        let mut g = 0;
        while g < if ch == 1 { 1 } else { n } {
            let mut r = 0;
            while r < n { v.push(r as f32 * c); if ch == 3 { v.push(g as f32 * c); v.push(b as f32 * c); } r += 1; }
            g += 1;
        }
        b += 1;
    }
    v
}
fn shape(i: &ImageShared, n: i32, ch: i32, id: u32) {
    let (w, h) = if ch == 1 { (n, 1) } else { (n * n, n) };
    check(i.pixel_block.width() == w && i.pixel_block.height() == h && i.pixel_block.num_channels() == ch && i.pixel_block.data_type() == DataType::Float32, id);
    check(arr(i.data_window) == [0, 0, w, h] && arr(i.display_window) == [0, 0, w, h], id + 1);
}
fn is_transform(i: &ImageShared, n: i32, from: &str, to: &str, id: u32) {
    shape(i, n, 3, id);
    check(i.spec.color_space() == to, id + 2);
    let want: Vec<f32> = identity(n, 3).iter().map(|v| conv(*v, from, to)).collect();
    same_px(&px(i), &want, id + 3);
}
const SIZES: u64 = if THOROUGH { 4 } else { 3 };
/// every entry is the conversion of its own colour, cached or not
#[no_mangle]
pub extern "C" fn vp_l01_transform() {
    prep();
    let n = 2 + pick(1, SIZES) as i32;
    let (from, to) = (NAMES[pick(2, 4)], NAMES[pick(3, 4)]);
    let mut cache = create_cache_box_with_capacity(range_u64(4, 0, 4000) as usize);
    let a = get_color_transform_3dlut(from, to, n, &mut cache);
    is_transform(&a, n, from, to, 10);
    let done = calls().len();
    check(done == (from != to) as usize, 20);
    if done == 1 { let c = &calls()[0]; check(c.0 == from && c.1 == to && c.2 == [n * n, n, 3, -1], 21); }
    let held = cache.len();
    check(held == (cache.capacity_bytes() >= (n * n * n * 12) as usize) as usize, 22);
    let b = get_color_transform_3dlut(from, to, n, &mut cache);
    is_transform(&b, n, from, to, 30);
    check(calls().len() == if held == 1 { done } else { 2 * done }, 40);
    if from == to { cover(1); } else if held == 1 { cover(2); } else { cover(3); }
}
/// tables for other colour spaces or sizes are never mixed up
#[no_mangle]
pub extern "C" fn vp_l01_names() {
    prep();
    let names: [(&str, &str); 8] = [("b", "Linear"), ("Linear", "b"), ("Linear", "Linear"), ("", "LinearTo:b"), ("LinearTo:", "b"), ("Linear", "bTo:x"), ("LinearTo:b", "x"), ("b", "sRGB")];
    let (p, q) = (pick(1, 8), pick(2, 8));
    let (n, m) = (2 + pick(3, 2) as i32, 2 + pick(4, 2) as i32);
    let mut cache = create_cache_box_with_capacity(100000);
    let a = get_color_transform_3dlut(names[p].0, names[p].1, n, &mut cache);
    is_transform(&a, n, names[p].0, names[p].1, 50);
    let b = get_color_transform_3dlut(names[q].0, names[q].1, m, &mut cache);
    is_transform(&b, m, names[q].0, names[q].1, 60);
    let c = get_color_transform_3dlut(names[p].0, names[p].1, n, &mut cache);
    is_transform(&c, n, names[p].0, names[p].1, 70);
    if p == q { cover(1); } else { cover(2); }
}
const CH: [&str; 4] = ["r", "g", "b", "a"];
const PAR: [&str; 7] = ["black_point", "white_point", "lift", "gain", "multiply", "offset", "gamma"];
/// the stream of a graph of one or two grades
fn stream(second: bool, set: &[(u64, &str, Val)]) -> Box<StreamDataImplRc> {
    let mut g = graph(NodeType::Grade, 0.25);
    if !second { g.set_node_attr_i32(3, "enable", 0); }
    for (id, n, v) in set.iter() { put(&mut g, *id, n, *v); }
    let mut c = create_cache_box_with_capacity(0);
    check(g.execute(3, &[1.0], &mut c) == ExecuteStatus::Success, 1);
    out(&g)
}
/// what the stream's corrections make of the identity table
fn is_ops(i: &ImageShared, s: &StreamDataImplRc, n: i32, ch: i32, id: u32) {
    shape(i, n, ch, id);
    check(i.spec.color_space() == "Linear", id + 2);
    let mut want = identity(n, ch);
    s.apply_color_ops(&mut want, ch);
    same_px(&px(i), &want, id + 3);
}
/// every entry is the stream's corrections applied to its own colour, cached or not
#[no_mangle]
pub extern "C" fn vp_l01_ops() {
    prep();
    let n = 2 + pick(1, 2) as i32;
    let ch = [1, 3][pick(2, 2)];
    let second = pick(5, 2) == 1;
    let s = stream(second, &[(2, "offset_a", F(any_f32(6))), (2, "process_a", I(1)), (3, "multiply_b", F(any_f32(7))), (2, "gamma_b", F(2.0))]);
    let mut cache = create_cache_box_with_capacity([0, 10000][pick(4, 2)]);
    let a = get_color_ops_lut(&s, n, ch, &mut cache);
    is_ops(&a, &s, n, ch, 100);
    let b = get_color_ops_lut(&s, n, ch, &mut cache);
    is_ops(&b, &s, n, ch, 110);
    if second { cover(1); } else { cover(2); }
}
/// tables of other corrections are never mixed up, whatever parameter differs
#[no_mangle]
pub extern "C" fn vp_l01_which() {
    prep();
    let mut cache = create_cache_box_with_capacity(100000);
    let k = pick(1, 34);
    let (x, y) = (any_f32(2), any_f32(3));
    let (p, q) = (any_i32(4), any_i32(5));
    let name: String;
    let (u, v) = if k < 28 { name = [PAR[k / 4], "_", CH[k % 4]].concat(); (F(x), F(y)) }
        else if k < 32 { name = ["process_", CH[k % 4]].concat(); (I(p & 1), I(q & 1)) }
        else if k == 32 { name = "mix".to_string(); (F(x), F(y)) }
        else { name = "enable".to_string(); (I(p), I(q)) };
    if match (u, v) { (I(a), I(b)) => a == b, (F(a), F(b)) => a.to_bits() == b.to_bits(), _ => false } { cover(3); return; }
    let ch = if k < 32 && k % 4 == 3 { 1 } else { 3 };
    let pa = (2, "process_a", I(1));
    let (s, t) = (stream(false, &[pa, (2, &name, u)]), stream(false, &[pa, (2, &name, v)]));
    let a = get_color_ops_lut(&s, 2, ch, &mut cache);
    is_ops(&a, &s, 2, ch, 120);
    let b = get_color_ops_lut(&t, 2, ch, &mut cache);
    is_ops(&b, &t, 2, ch, 130);
    let c = get_color_ops_lut(&s, 2, ch, &mut cache);
    is_ops(&c, &s, 2, ch, 140);
    if k < 28 { cover(1); } else { cover(2); }
}
/// both kinds of tables, of any shape, and images in one cache
#[no_mangle]
pub extern "C" fn vp_l01_mixed() {
    prep();
    let mut cache = create_cache_box_with_capacity(100000);
    let (off, second) = (pos_f32(1, 0.0, 1.0), pick(2, 2) == 1);
    let s = stream(second, &[(2, "offset_g", F(off)), (3, "multiply_r", F(2.0))]);
    let t = stream(true, &[(2, "multiply_r", F(2.0)), (3, "offset_g", F(off))]);
    let mut g = graph(NodeType::Viewer, 0.25);
    g.set_node_attr_i32(3, "bake_option", 3);
    g.set_node_attr_i32(3, "bake_pixel_data_type", 0);
    let mut i = 0;
    while i < 3 {
        match pick(10 + i, 6) {
            0 => { let a = get_color_ops_lut(&s, 2, 3, &mut cache); is_ops(&a, &s, 2, 3, 150); }
            1 => { let a = get_color_ops_lut(&s, 3, 3, &mut cache); is_ops(&a, &s, 3, 3, 160); }
            2 => { let a = get_color_ops_lut(&s, 2, 1, &mut cache); is_ops(&a, &s, 2, 1, 170); }
            3 => { let a = get_color_ops_lut(&t, 2, 3, &mut cache); is_ops(&a, &t, 2, 3, 180); }
            4 => { let a = get_color_transform_3dlut("Linear", "b", 2, &mut cache); is_transform(&a, 2, "Linear", "b", 190); }
            _ => {
                check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
                check(out(&g).pixel_width() == 1 && out(&g).pixel_height() == 1, 3);
            }
        }
        i += 1;
    }
    cover(1);
}
/// bigger tables
#[no_mangle]
pub extern "C" fn vp_l01_large() {
    prep();
    let n = [9, 17][pick(1, 2)];
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(2, 2)]);
    let mut k = 0;
    while k < 2 { let a = get_color_transform_3dlut("sRGB", "b", n, &mut cache); is_transform(&a, n, "sRGB", "b", 10); k += 1; }
    if n == 9 { cover(1); } else { cover(2); }
}
