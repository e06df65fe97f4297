//! Differential support: one configuration of attributes, frames and connections, applied to an
//! edited graph with a cache and to a fresh graph without one.
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;

#[derive(Clone, Copy)]
pub enum Val { I(i32), F(f32), S(&'static str) }
pub use Val::*;
/// node types by id, connections, attribute values
#[derive(Clone)]
pub struct Scene { pub nodes: Vec<(u64, NodeType)>, pub edges: Vec<(u64, u64, u8)>, pub attrs: Vec<(u64, &'static str, Val)> }
impl Scene {
    pub fn new(nodes: &[(u64, NodeType)], edges: &[(u64, u64, u8)]) -> Scene { Scene { nodes: nodes.to_vec(), edges: edges.to_vec(), attrs: Vec::new() } }
    pub fn set(&mut self, id: u64, name: &'static str, v: Val) {
        let mut i = 0;
        while i < self.attrs.len() { if self.attrs[i].0 == id && self.attrs[i].1 == name { self.attrs[i].2 = v; return; } i += 1; }
        self.attrs.push((id, name, v));
    }
}
pub fn put(g: &mut GraphImpl, id: u64, name: &str, v: Val) {
    match v { I(x) => g.set_node_attr_i32(id, name, x), F(x) => g.set_node_attr_f32(id, name, x), S(x) => g.set_node_attr_str(id, name, x) }
}
pub fn fresh(s: &Scene) -> Box<GraphImpl> {
    let mut g = create_graph_box();
    for (id, t) in s.nodes.iter() { g.add_node(create_node_box_with_id(*t, *id)); }
    for (a, b, n) in s.edges.iter() { g.connect(*a, *b, *n); }
    for (id, n, v) in s.attrs.iter() { put(&mut g, *id, n, *v); }
    g
}
/// the two streams show the same result; hashes are compared separately
pub fn same_stream(a: &StreamDataImplRc, b: &StreamDataImplRc, id: u32) {
    check(a.pixel_data_type() == b.pixel_data_type(), id);
    check(a.pixel_width() == b.pixel_width() && a.pixel_height() == b.pixel_height() && a.pixel_num_channels() == b.pixel_num_channels(), id + 1);
    check(arr(a.data_window()) == arr(b.data_window()), id + 2);
    check(arr(a.display_window()) == arr(b.display_window()), id + 3);
    let (x, y) = (a.pixel_buffer(), b.pixel_buffer());
    check(x.len() == y.len(), id + 4);
    let mut ok = true;
    if a.pixel_data_type() == DataType::Float32 {
        let mut i = 0;
        while i < x.len() / 4 { ok &= same(f32_at(x, i), f32_at(y, i)); i += 1; }
    } else {
        let mut i = 0;
        while i < x.len() { ok &= x[i] == y[i]; i += 1; }
    }
    check(ok, id + 5);
    check(a.color_ops_len() == b.color_ops_len() && a.deformers_len() == b.deformers_len(), id + 6);
    check(same_matrix(&a.color_matrix(), &b.color_matrix()), id + 7);
    let (s, t) = (a.clone_image_spec(), b.clone_image_spec());
    check(s.color_space() == t.color_space(), id + 8);
    check(same(s.gamma, t.gamma) && same(s.pixel_aspect, t.pixel_aspect) && s.orientation.repr == t.orientation.repr && s.unassociated_alpha == t.unassociated_alpha && s.dither == t.dither, id + 15);
    // the corrections and deformations still to be applied act alike on a probe
    let mut p = [0.25f32, 0.5, 0.75, 0.5];
    let mut q = p;
    a.apply_color_ops(&mut p, 4);
    b.apply_color_ops(&mut q, 4);
    check(same(p[0], q[0]) && same(p[1], q[1]) && same(p[2], q[2]) && same(p[3], q[3]), id + 9);
    let mut p = [0.25f32, 0.5, 0.0];
    let mut q = p;
    let w = BBox2Df { min_x: 0.0, min_y: 0.0, max_x: 2.0, max_y: 2.0 };
    a.apply_deformers(&mut p, w, w);
    b.apply_deformers(&mut q, w, w);
    check(same(p[0], q[0]) && same(p[1], q[1]) && same(p[2], q[2]), id + 10);
}
pub fn same_matrix(a: &Matrix4, b: &Matrix4) -> bool {
    let (x, y) = (mat(a), mat(b));
    let mut ok = true;
    let mut i = 0;
    while i < 16 { ok &= same(x[i], y[i]); i += 1; }
    ok
}
pub fn mat(m: &Matrix4) -> [f32; 16] {
    [m.m00, m.m01, m.m02, m.m03, m.m10, m.m11, m.m12, m.m13, m.m20, m.m21, m.m22, m.m23, m.m30, m.m31, m.m32, m.m33]
}
/// The stand-in colour conversion: exact scaling by a power of two per space.
fn space(s: &str) -> f32 { match s { "Linear" => 1.0, "sRGB" => 2.0, "b" => 4.0, _ => 8.0 } }
pub fn color(px: &mut [f32], _w: i32, _h: i32, _c: i32, _a: i32, _u: bool, s: &str, d: &str) -> bool {
    let k = space(d) / space(s);
    for v in px.iter_mut() { *v = *v * k; }
    true
}
/// The stand-in resampling: the image's top-left pixel (interpolate) or its last one, in a window of the given size.
pub fn resample(src: &mut ImageShared, dst: &mut ImageShared, n: i32, interp: bool) -> bool {
    let i = if interp { 0 } else { src.pixel_block.width() * src.pixel_block.height() - 1 };
    let ch = src.pixel_block.num_channels();
    dst.pixel_block.data_resize(BlockSize::new(1, 1, ch), DataType::Float32);
    let mut c = 0;
    while c < ch { dst.pixel_block.as_mut_slice_f32()[c as usize] = src.pixel_block.as_slice_f32()[(i * ch + c) as usize]; c += 1; }
    dst.data_window = BBox2Di::new(n, 0, n + 1, 1);
    dst.display_window = BBox2Di::new(0, 0, n, 1);
    true
}
pub fn dsetup() { setup(); unsafe { stubs::COLOR = Some(color); stubs::RESAMPLE = Some(resample); } }
/// Executes `s` in a fresh graph without a cache and compares.
pub fn against_fresh(g: &mut GraphImpl, cache: &mut Box<CacheImpl>, s: &Scene, node: u64, frame: f64, id: u32) {
    let st = g.execute(node, &[frame], cache);
    let mut f = fresh(s);
    let mut c0 = create_cache_box_with_capacity(0);
    let e = f.execute(node, &[frame], &mut c0);
    check(st == e, id + 11);
    check(g.execute_status() == e, id + 12);
    if e == ExecuteStatus::Success {
        same_stream(&out(g), &out(&f), id);
        check(out(g).hash() == out(&f).hash(), id + 13);
        check(g.node_status(node) == f.node_status(node), id + 14);
    }
}
