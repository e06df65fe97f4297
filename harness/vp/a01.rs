//@ entry vp_a01_crop covers=1,2,3 time=300
//@ entry vp_a01_grade1 covers=1,2,3 time=300
//@ entry vp_a01_grade2 covers=1,2,3 time=300
//@ entry vp_a01_lens covers=1,2,3 time=300
//@ entry vp_a01_transform covers=1,2,3 time=300
//@ entry vp_a01_small covers=1,2,3 time=300
//@ entry vp_a01_viewer covers=1,2,3 time=300
//@ entry vp_a01_write covers=1,2,3 time=300
//@ entry vp_a01_ids covers=1,2 time=300
//@ entry vp_a01_text covers=1,2 time=300
//@ bound text of 300 characters with a symbolic one in it, and text with characters outside ASCII
//@ bound every attribute of every node type; each attribute of the node set to a symbolic value (text: 0 to 2 arbitrary ASCII characters), then any one of them set again (also through the setters of the two other types), all of them read back
//@ bound names that differ from an existing name in any one character (its new value symbolic) or by one character appended or removed, and the empty name
use super::dsup::*;
use super::gsup::*;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;

const I_: u8 = 0; const F_: u8 = 1; const S_: u8 = 2;
type Tab = &'static [(&'static str, u8)];
const CROP: Tab = &[("enable", I_), ("use_cache", I_), ("window_min_x", I_), ("window_min_y", I_), ("window_max_x", I_), ("window_max_y", I_), ("reformat", I_), ("black_outside", I_), ("intersect", I_)];
const GRADE: Tab = &[("enable", I_), ("process_r", I_), ("process_g", I_), ("process_b", I_), ("process_a", I_),
    ("black_point_r", F_), ("black_point_g", F_), ("black_point_b", F_), ("black_point_a", F_), ("white_point_r", F_), ("white_point_g", F_), ("white_point_b", F_), ("white_point_a", F_),
    ("lift_r", F_), ("lift_g", F_), ("lift_b", F_), ("lift_a", F_), ("gain_r", F_), ("gain_g", F_), ("gain_b", F_), ("gain_a", F_),
    ("multiply_r", F_), ("multiply_g", F_), ("multiply_b", F_), ("multiply_a", F_), ("offset_r", F_), ("offset_g", F_), ("offset_b", F_), ("offset_a", F_),
    ("gamma_r", F_), ("gamma_g", F_), ("gamma_b", F_), ("gamma_a", F_), ("mix", F_), ("premult", I_), ("reverse", I_), ("clamp_black", I_), ("clamp_white", I_)];
const LENS: Tab = &[("enable", I_), ("direction", I_), ("distortion", F_), ("anamorphic_squeeze", F_), ("curvature_x", F_), ("curvature_y", F_), ("lens_center_offset_x", F_), ("lens_center_offset_y", F_), ("quartic_distortion", F_)];
const MERGE: Tab = &[("enable", I_), ("use_cache", I_), ("mode", I_), ("mix", F_)];
const READ: Tab = &[("enable", I_), ("use_cache", I_), ("file_path", S_)];
const RESAMPLE: Tab = &[("enable", I_), ("use_cache", I_), ("factor", I_), ("interpolate", I_)];
const TRANSFORM: Tab = &[("enable", I_), ("invert", I_), ("translate_x", F_), ("translate_y", F_), ("rotate", F_), ("rotate_center_x", F_), ("rotate_center_y", F_), ("scale_x", F_), ("scale_y", F_), ("pivot_x", F_), ("pivot_y", F_)];
const VIEWER: Tab = &[("enable", I_), ("use_cache", I_), ("bake_option", I_), ("bake_pixel_data_type", I_), ("bake_color_space", S_), ("crop_to_format", I_)];
const WRITE: Tab = &[("enable", I_), ("execute", I_), ("file_path", S_), ("crop_on_write", I_), ("pixel_data_type", I_), ("exr_compression", I_), ("exr_dwa_compression_level", I_), ("jpeg_compression_level", I_), ("jpeg_subsampling", I_), ("jpeg_progressive", I_), ("png_compression_level", I_)];

#[derive(Clone)]
enum V { I(i32), F(f32), S(String) }
fn text(t: u32) -> String {
    let n = pick(t, 3);
    let mut b = Vec::new();
    let mut i = 0;
    while i < n { let c = any_u8(t + 1); assume(c < 128); b.push(c); i += 1; }
    unsafe { String::from_utf8_unchecked(b) }
}
fn any(k: u8, t: u32) -> V { if k == I_ { V::I(any_i32(t)) } else if k == F_ { V::F(any_f32(t)) } else { V::S(text(500 + t)) } }
fn set(g: &mut GraphImpl, id: u64, n: &str, v: &V) {
    match v { V::I(x) => g.set_node_attr_i32(id, n, *x), V::F(x) => g.set_node_attr_f32(id, n, *x), V::S(x) => g.set_node_attr_str(id, n, x) }
}
/// reading attribute `n` gives `v`, and nothing as another type
fn holds(g: &GraphImpl, id: u64, n: &str, v: &V, c: u32) {
    let (i, f, s) = (g.get_node_attr_i32(id, n), g.get_node_attr_f32(id, n), g.get_node_attr_str(id, n));
    match v {
        V::I(x) => check(i == *x && f.to_bits() == 0 && s.len() == 0, c),
        V::F(x) => check(f.to_bits() == x.to_bits() && i == 0 && s.len() == 0, c),
        V::S(x) => check(s.as_bytes() == x.as_bytes() && i == 0 && f.to_bits() == 0, c),
    }
}
fn absent(g: &GraphImpl, id: u64, n: &str, c: u32) {
    check(g.node_attr_exists(id, n) == AttrState::Missing, c);
    check(g.get_node_attr_i32(id, n) == 0 && g.get_node_attr_f32(id, n).to_bits() == 0 && g.get_node_attr_str(id, n).len() == 0, c + 1);
}
fn node(t: NodeType, tab: Tab, lo: usize, hi: usize) {
    let mut g = create_graph_box();
    g.add_node(create_node_box_with_id(t, 1));
    g.add_node(create_node_box_with_id(t, 2));
    let mut other = Vec::new();
    let mut vals = Vec::new();
    for (k, (n, ty)) in tab.iter().enumerate() {
        check(g.node_attr_exists(1, n) == AttrState::Exists, 1);
        other.push((g.get_node_attr_i32(2, n), g.get_node_attr_f32(2, n).to_bits(), g.get_node_attr_str(2, n).to_string()));
        let v = any(*ty, 1 + k as u32);
        set(&mut g, 1, n, &v);
        vals.push(v);
    }
    for (k, (n, _)) in tab.iter().enumerate() { holds(&g, 1, n, &vals[k], 2); }
    let k = lo + pick(200, (hi - lo) as u64);
    let (n, ty) = tab[k];
    match pick(201, 3) {
        0 => {
            // set again, in its own type or another one
            let ty2 = pick(202, 3) as u8;
            let v = any(ty2, 203);
            set(&mut g, 1, n, &v);
            if ty2 == ty { vals[k] = v; }
            cover(1);
        }
        1 => {
            // a name with one character changed
            let p = pick(204, n.len() as u64);
            let c = any_u8(205);
            assume(c < 128);
            let mut b = n.as_bytes().to_vec();
            b[p] = c;
            let mut m = c == n.as_bytes()[p];
            for (o, _) in tab.iter() { if o.len() == n.len() { let mut same = true; let mut i = 0; while i < b.len() { same &= o.as_bytes()[i] == b[i]; i += 1; } m |= same; } }
            assume(!m);
            let s = unsafe { std::str::from_utf8_unchecked(&b) };
            absent(&g, 1, s, 10);
            set(&mut g, 1, s, &any(ty, 206));
            absent(&g, 1, s, 12);
            cover(2);
        }
        _ => {
            let b: String = match pick(207, 3) { 0 => n[..n.len() - 1].to_string(), 1 => [n, "_"].concat(), _ => String::new() };
            absent(&g, 1, &b, 14);
            set(&mut g, 1, &b, &any(ty, 206));
            cover(3);
        }
    }
    for (k, (n, _)) in tab.iter().enumerate() {
        holds(&g, 1, n, &vals[k], 20);
        // the other node of this type keeps its own values
        check(g.get_node_attr_i32(2, n) == other[k].0 && g.get_node_attr_f32(2, n).to_bits() == other[k].1 && g.get_node_attr_str(2, n) == other[k].2, 21);
    }
}
#[no_mangle] pub extern "C" fn vp_a01_crop() { node(NodeType::CropImage, CROP, 0, 9) }
#[no_mangle] pub extern "C" fn vp_a01_grade1() { node(NodeType::Grade, GRADE, 0, 20) }
#[no_mangle] pub extern "C" fn vp_a01_grade2() { node(NodeType::Grade, GRADE, 20, 38) }
#[no_mangle] pub extern "C" fn vp_a01_lens() { node(NodeType::LensDistort, LENS, 0, 9) }
#[no_mangle] pub extern "C" fn vp_a01_transform() { node(NodeType::Transform, TRANSFORM, 0, 11) }
#[no_mangle] pub extern "C" fn vp_a01_viewer() { node(NodeType::Viewer, VIEWER, 0, 6) }
#[no_mangle] pub extern "C" fn vp_a01_write() { node(NodeType::WriteImage, WRITE, 0, 11) }
#[no_mangle] pub extern "C" fn vp_a01_small() {
    match pick(300, 3) { 0 => node(NodeType::MergeImage, MERGE, 0, 4), 1 => node(NodeType::ReadImage, READ, 0, 3), _ => node(NodeType::ResampleImage, RESAMPLE, 0, 4) }
}
/// unknown and removed nodes: nothing there, nothing changes
#[no_mangle]
pub extern "C" fn vp_a01_ids() {
    let mut g = create_graph_box();
    g.add_node(create_node_box_with_id(NodeType::MergeImage, 1));
    g.add_node(create_node_box_with_id(NodeType::CropImage, 2));
    let (a, b) = (any_i32(1), any_f32(2));
    g.set_node_attr_i32(1, "mode", a);
    g.set_node_attr_f32(1, "mix", b);
    let id = any_u64(3);
    let dead = pick(4, 2) == 1;
    if dead { assume(id == 2); check(g.remove_node(2), 1); cover(1); } else { assume(id != 1 && id != 2); cover(2); }
    let n = ["enable", "mode", "mix", "window_min_x", ""][pick(5, 5)];
    absent(&g, id, n, 10);
    check(g.node_status(id) == NodeStatus::NonExistent && !g.node_exists(id), 12);
    set(&mut g, id, n, &any(pick(6, 3) as u8, 7));
    absent(&g, id, n, 14);
    check(g.get_node_attr_i32(1, "mode") == a && g.get_node_attr_f32(1, "mix").to_bits() == b.to_bits() && g.get_node_attr_i32(1, "enable") == 1, 16);
    // a node without attributes
    g.add_node(create_node_box_with_id(NodeType::Null, 9));
    absent(&g, 9, n, 17);
    set(&mut g, 9, n, &any(pick(6, 3) as u8, 7));
    absent(&g, 9, n, 19);
}
/// long text, and text outside ASCII
#[no_mangle]
pub extern "C" fn vp_a01_text() {
    let mut g = create_graph_box();
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.add_node(create_node_box_with_id(NodeType::WriteImage, 2));
    g.add_node(create_node_box_with_id(NodeType::Viewer, 3));
    let id = 1 + pick(1, 3);
    let n = if id == 3 { "bake_color_space" } else { "file_path" };
    let s = if pick(2, 2) == 0 {
        let mut b = vec![b'a'; 300];
        let c = any_u8(3);
        assume(c < 128);
        b[[0, 63, 127, 254, 299][pick(4, 5)]] = c;
        cover(1);
        unsafe { String::from_utf8_unchecked(b) }
    } else { cover(2); ["/\u{e9}t\u{e9}/#.exr", "\u{65e5}\u{672c}", "a b\t\u{1f600}"][pick(5, 3)].to_string() };
    g.set_node_attr_str(id as u64, n, &s);
    check(g.get_node_attr_str(id as u64, n).as_bytes() == s.as_bytes(), 40);
}
