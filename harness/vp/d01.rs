//@ entry vp_d01_transform covers=1,2 time=300
//@ entry vp_d01_invert covers=1,2,3 time=300
//@ entry vp_d01_lens covers=1,2 time=300
//@ entry vp_d01_chain covers=1,2,3 time=300
//@ entry vp_d01_identity covers=1,2,3 time=300
//@ entry vp_d01_bake1 covers=1,2 time=300
//@ entry vp_d01_bake2 covers=1,2 time=300
//@ entry vp_d01_scale covers=1,2 time=300
//@ bound positions: two vertices, arbitrary 32-bit coordinates, windows and transform parameters (any rotation); inverted transforms by choice of scale, rotation and translation
//@ bound up to three deformations in a row, each enabled or not
//@ bound baking: 3 and 4 channel images of up to 2x2 pixels with symbolic values, data windows inside, outside and across the display window, empty images, shifts of up to 2 pixels and scaling by 2 in either direction
//@ assume the lens plug-in (C++) is the stand-in given by the harness; sin and cos are functions of their argument (uninterpreted)
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;
use nalgebra as na;

#[derive(Clone, Copy)]
struct T { tx: f32, ty: f32, rot: f32, cx: f32, cy: f32, sx: f32, sy: f32, px: f32, py: f32, invert: i32 }
const ID: T = T { tx: 0.0, ty: 0.0, rot: 0.0, cx: 0.0, cy: 0.0, sx: 1.0, sy: 1.0, px: 0.5, py: 0.5, invert: 0 };
impl T {
    fn set(&self, g: &mut GraphImpl, id: u64) {
        for (n, v) in [("translate_x", self.tx), ("translate_y", self.ty), ("rotate", self.rot), ("rotate_center_x", self.cx), ("rotate_center_y", self.cy), ("scale_x", self.sx), ("scale_y", self.sy), ("pivot_x", self.px), ("pivot_y", self.py)].iter() {
            g.set_node_attr_f32(id, n, *v);
        }
        g.set_node_attr_i32(id, "invert", self.invert);
    }
    /// scale, then rotate about the centre, then move; all relative to the pivot
    fn apply(&self, w: &BBox2Df, x: f32, y: f32) -> (f32, f32) {
        let a = self.rot * std::f32::consts::PI / 180.0;
        let (c, s) = (a.cos(), a.sin());
        let (tx, ty) = (self.tx / (w.max_x - w.min_x), self.ty / (w.max_y - w.min_y));
        let scale = na::Matrix4::new(self.sx, 0.0, 0.0, 0.0, 0.0, self.sy, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0);
        let rotate = na::Matrix4::new(c, -s, 0.0, self.cx * (1.0 - c) + self.cy * s, s, c, 0.0, self.cy * (1.0 - c) - self.cx * s, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0);
        let translate = na::Matrix4::new(1.0, 0.0, 0.0, tx, 0.0, 1.0, 0.0, ty, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0);
        let mut m = translate * rotate * scale;
        if self.invert != 0 { m = m.try_inverse().unwrap_or(m); }
        let r = m * na::Point4::new(x - self.px, y - self.py, 0.0, 1.0);
        (r.x + self.px, r.y + self.py)
    }
}
fn window(t: u32) -> BBox2Df { BBox2Df { min_x: any_f32(t), min_y: any_f32(t), max_x: any_f32(t), max_y: any_f32(t) } }
const UNIT: BBox2Df = BBox2Df { min_x: 0.0, min_y: 0.0, max_x: 1.0, max_y: 1.0 };
/// a chain of nodes on a 1x1 image
fn run(kinds: &[NodeType], set: &dyn Fn(&mut GraphImpl)) -> Box<GraphImpl> {
    dsetup();
    add_file(b'1', Img::fixed(0.5, [0, 0, 1, 1], [0, 0, 1, 1], 3));
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.set_node_attr_str(1, "file_path", "/1");
    let mut last = 1;
    for k in kinds.iter() { g.add_node(create_node_box_with_id(*k, last + 1)); g.connect(last, last + 1, 0); last += 1; }
    set(&mut g);
    check(g.execute(last, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(g.node_status(last) == NodeStatus::Valid, 2);
    g
}
fn moved(g: &GraphImpl, w: BBox2Df, pts: &[f32], want: &[(f32, f32)], id: u32) {
    let mut b = pts.to_vec();
    out(g).apply_deformers(&mut b, w, w);
    let mut ok = true;
    let mut i = 0;
    while i < want.len() { ok &= same(b[3 * i], want[i].0) && same(b[3 * i + 1], want[i].1) && b[3 * i + 2].to_bits() == pts[3 * i + 2].to_bits(); i += 1; }
    check(ok, id);
}
fn points(t: u32) -> Vec<f32> { let mut v = Vec::new(); let mut i = 0; while i < 6 { v.push(any_f32(t)); i += 1; } v }

#[no_mangle]
pub extern "C" fn vp_d01_transform() {
    let t = T { tx: any_f32(1), ty: any_f32(2), rot: any_f32(3), cx: any_f32(4), cy: any_f32(5), sx: any_f32(6), sy: any_f32(7), px: any_f32(8), py: any_f32(9), invert: 0 };
    let e = any_i32(10);
    let g = run(&[NodeType::Transform], &|g| { t.set(g, 2); g.set_node_attr_i32(2, "enable", e); });
    let (w, p) = (window(11), points(12));
    if e == 1 {
        moved(&g, w, &p, &[t.apply(&w, p[0], p[1]), t.apply(&w, p[3], p[4])], 10);
        cover(1);
    } else {
        moved(&g, w, &p, &[(p[0], p[1]), (p[3], p[4])], 11);
        check(out(&g).deformers_len() == 0, 12);
        cover(2);
    }
}
#[no_mangle]
pub extern "C" fn vp_d01_invert() {
    let k = pick(1, 4);
    let mut t = [
        T { sx: 2.0, sy: 0.5, ..ID },
        T { tx: 4.0, ty: -1.0, sx: 2.0, ..ID },
        T { rot: 30.0, cx: 0.25, cy: 0.5, tx: 1.0, ..ID },
        T { sx: 0.0, ..ID },
    ][k];
    t.px = any_f32(2);
    t.py = any_f32(3);
    t.invert = 1 + pick(4, 2) as i32;
    let g = run(&[NodeType::Transform], &|g| t.set(g, 2));
    let w = BBox2Df { min_x: -1.0, min_y: -2.0, max_x: 3.0, max_y: 2.0 };
    let p = points(5);
    moved(&g, w, &p, &[t.apply(&w, p[0], p[1]), t.apply(&w, p[3], p[4])], 10);
    // a transform and its inverse cancel
    if k < 2 {
        t.px = 0.5;
        t.py = 0.25;
        let f = T { invert: 0, ..t };
        let g = run(&[NodeType::Transform, NodeType::Transform], &|g| { f.set(g, 2 + (t.invert as u64 - 1)); t.set(g, 3 - (t.invert as u64 - 1)); });
        let p = [0.75, 3.0, 9.0, -2.5, 0.0, 1.0];
        moved(&g, w, &p, &[(0.75, 3.0), (-2.5, 0.0)], 11);
        cover(1);
    }
    if k == 2 { cover(2); }
    if k == 3 { cover(3); }
}
static mut WANT: [f32; 7] = [0.0; 7];
const LENS: [(&str, &str); 7] = [("distortion", "Distortion"), ("anamorphic_squeeze", "Anamorphic Squeeze"), ("curvature_x", "Curvature X"), ("curvature_y", "Curvature Y"), ("quartic_distortion", "Quartic Distortion"), ("lens_center_offset_x", "tde4_lens_center_offset_x_cm"), ("lens_center_offset_y", "tde4_lens_center_offset_y_cm")];
fn params(p: &stubs::Plugin, distort: bool, x: f64, y: f64) -> (f64, f64) {
    check(p.inited, 20);
    let mut k = 0;
    while k < 7 { check(p.get(LENS[k].1).to_bits() == (unsafe { WANT[k] } as f64).to_bits(), 21); k += 1; }
    check(p.get("tde4_focal_length_cm") == 3.0f32 as f64 && p.get("tde4_pixel_aspect") == 1.0, 22);
    if distort { (y, x) } else { (x * 0.5, y * 0.25) }
}
/// the lens plug-in gets the node's parameters; both directions
#[no_mangle]
pub extern "C" fn vp_d01_lens() {
    let mut v = [0.0f32; 7];
    let mut k = 0;
    while k < 7 { v[k] = pos_f32(1, 0.0, 4.0); k += 1; }
    unsafe { WANT = v; stubs::DISTORT = Some(params); }
    let dir = pick(2, 2) as i32;
    let g = run(&[NodeType::LensDistort], &|g| { let mut k = 0; while k < 7 { g.set_node_attr_f32(2, LENS[k].0, v[k]); k += 1; } g.set_node_attr_i32(2, "direction", dir); });
    let (x, y, a, b) = (pos_f32(3, 0.0, 1.0), pos_f32(3, 0.0, 1.0), pos_f32(3, 0.0, 1.0), pos_f32(3, 0.0, 1.0));
    let p = [x, y, any_f32(4), a, b, 7.0];
    if dir == 1 { moved(&g, UNIT, &p, &[(y, x), (b, a)], 10); cover(1); }
    else { moved(&g, UNIT, &p, &[(x * 0.5, y * 0.25), (a * 0.5, b * 0.25)], 11); cover(2); }
    // another window: relative to it
    let w = BBox2Df { min_x: -2.0, min_y: 4.0, max_x: 2.0, max_y: 6.0 };
    let p = [1.0, 5.0, 3.0, -2.0, 6.0, 7.0];
    if dir == 1 { moved(&g, w, &p, &[(0.0, 5.5), (2.0, 4.0)], 12); }
    else { moved(&g, w, &p, &[(-0.5, 4.25), (-2.0, 4.5)], 13); }
}
/// Distortion 1: move by (+1/4, -1/8) (distort) or back; Distortion 2: twice as large about (1/2, 1/2) or back
fn act(p: &stubs::Plugin, distort: bool, x: f64, y: f64) -> (f64, f64) {
    let k = p.get("Distortion");
    if k == 1.0 { if distort { (x + 0.25, y - 0.125) } else { (x - 0.25, y + 0.125) } }
    else if k == 2.0 { if distort { (x * 2.0 - 0.5, y * 2.0 - 0.5) } else { (x * 0.5 + 0.25, y * 0.5 + 0.25) } }
    else { (x, y) }
}
/// several deformations: upstream first, disabled ones left out
#[no_mangle]
pub extern "C" fn vp_d01_chain() {
    unsafe { stubs::DISTORT = Some(act); }
    let (e1, e2, e3) = (any_i32(1), any_i32(2), any_i32(3));
    let dir = [pick(4, 2) as i32, pick(5, 2) as i32];
    let t = T { sx: 4.0, sy: 0.5, ..ID };
    let g = run(&[NodeType::LensDistort, NodeType::Transform, NodeType::LensDistort], &|g| {
        g.set_node_attr_f32(2, "distortion", 1.0);
        g.set_node_attr_f32(4, "distortion", 2.0);
        t.set(g, 3);
        g.set_node_attr_i32(2, "direction", dir[0]);
        g.set_node_attr_i32(4, "direction", dir[1]);
        g.set_node_attr_i32(2, "enable", e1);
        g.set_node_attr_i32(3, "enable", e2);
        g.set_node_attr_i32(4, "enable", e3);
    });
    let s = |k: f64, d: i32, p: (f32, f32)| -> (f32, f32) {
        let mut q = stubs::Plugin { params: vec![("Distortion".to_string(), k)], inited: true };
        let r = act(&q, d == 1, p.0 as f64, p.1 as f64);
        (r.0 as f32, r.1 as f32)
    };
    let go = |p: (f32, f32)| -> (f32, f32) {
        let p = if e1 == 1 { s(1.0, dir[0], p) } else { p };
        let p = if e2 == 1 { t.apply(&UNIT, p.0, p.1) } else { p };
        if e3 == 1 { s(2.0, dir[1], p) } else { p }
    };
    let p = [0.5, 0.25, 1.0, 0.0, 0.75, 2.0];
    moved(&g, UNIT, &p, &[go((0.5, 0.25)), go((0.0, 0.75))], 10);
    check(out(&g).deformers_len() == (e1 == 1) as usize + (e2 == 1) as usize + (e3 == 1) as usize, 11);
    if e1 == 1 && e2 == 1 && e3 == 1 { cover(1); }
    if e1 != 1 && e2 != 1 && e3 != 1 { cover(2); }
    if e1 == 1 && e2 != 1 && e3 == 1 { cover(3); }
}
/// bake the chain into the pixels
fn baked(i: &Img, kinds: &[NodeType], set: &dyn Fn(&mut GraphImpl)) -> Img {
    dsetup();
    add_file(b'1', i.clone());
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.set_node_attr_str(1, "file_path", "/1");
    let mut last = 1;
    for k in kinds.iter() { g.add_node(create_node_box_with_id(*k, last + 1)); g.connect(last, last + 1, 0); last += 1; }
    set(&mut g);
    g.add_node(create_node_box_with_id(NodeType::Viewer, 9));
    g.connect(last, 9, 0);
    g.set_node_attr_i32(9, "bake_option", 3);
    g.set_node_attr_i32(9, "bake_pixel_data_type", 0);
    g.set_node_attr_str(9, "bake_color_space", "Linear");
    check(g.execute(9, &[1.0], &mut cache) == ExecuteStatus::Success, 3);
    let s = out(&g);
    check(s.deformers_len() == 0, 4);
    check(arr(s.display_window()) == i.disp, 5);
    let r = stream_img(&s);
    check(s.pixel_width() == r.w() && s.pixel_height() == r.h() && r.ch == i.ch, 6);
    r
}
/// the pixel of `i` that holds the point, the nearest one outside
fn near(i: &Img, x: f32, y: f32, c: usize) -> f32 {
    if i.px.len() == 0 { return 0.0; }
    let (x, y) = ((x.floor() as i32).max(i.dw[0]).min(i.dw[2] - 1), (y.floor() as i32).max(i.dw[1]).min(i.dw[3] - 1));
    i.at(x, y, c)
}
/// each pixel of the result shows the source at `back` of its centre
fn shows(r: &Img, i: &Img, back: &dyn Fn(f32, f32) -> (f32, f32), id: u32) {
    let mut ok = true;
    let mut n = 0;
    let mut y = r.dw[1];
    while y < r.dw[3] {
        let mut x = r.dw[0];
        while x < r.dw[2] {
            let (bx, by) = back(x as f32 + 0.5, y as f32 + 0.5);
            let mut c = 0;
            while c < r.ch { ok &= same(r.px[n], near(i, bx, by, c)); n += 1; c += 1; }
            x += 1;
        }
        y += 1;
    }
    check(ok, id);
}
const WINS: [(W, W); 7] = [([0, 0, 2, 2], [0, 0, 2, 2]), ([0, 0, 2, 1], [0, 0, 4, 4]), ([-1, 1, 1, 2], [0, 0, 2, 2]), ([0, 0, 2, 2], [-2, -4, 2, 4]), ([3, 3, 4, 5], [0, 0, 2, 2]), ([1, 1, 1, 1], [0, 0, 2, 2]), ([-2, -1, -1, 1], [-4, -4, 4, 4])];
fn scene(n: u64) -> Img {
    let (dw, disp) = WINS[pick(1, n)];
    Img::any(2, dw, disp, if pick(3, 2) == 0 { 3 } else { 4 })
}
/// deformations that do nothing leave every pixel where it is
#[no_mangle]
pub extern "C" fn vp_d01_identity() {
    unsafe { stubs::DISTORT = None; }
    let i = scene(7);
    let k = pick(4, 3);
    let kind = if k == 2 { NodeType::LensDistort } else { NodeType::Transform };
    let e = if k == 1 { let e = any_i32(5); assume(e != 1); e } else { 1 };
    let inv = range_i32(6, 0, 1);
    let r = baked(&i, &[kind], &|g| { g.set_node_attr_i32(2, "enable", e); if k < 2 { g.set_node_attr_i32(2, "invert", inv); } });
    if k < 2 { check(r.dw == i.dw, 10); } else { check(r.dw[0] <= i.dw[0] && r.dw[1] <= i.dw[1] && r.dw[2] >= i.dw[2] && r.dw[3] >= i.dw[3], 11); }
    shows(&r, &i, &|x, y| (x, y), 12);
    match k { 0 => cover(1), 1 => cover(2), _ => cover(3) }
}
/// one lens node: pixels move with it
#[no_mangle]
pub extern "C" fn vp_d01_bake1() {
    unsafe { stubs::DISTORT = Some(act); }
    let i = scene(7);
    let (dir, k) = (pick(4, 2) as i32, 1 + pick(5, 2));
    let r = baked(&i, &[NodeType::LensDistort], &|g| { g.set_node_attr_i32(2, "direction", dir); g.set_node_attr_f32(2, "distortion", k as f32); });
    shows(&r, &i, &|x, y| undo(&i, dir, k, (x, y)), 10);
    if dir == 0 { cover(1); } else { cover(2); }
}
/// where the centre of a result pixel was before the lens node
fn undo(i: &Img, dir: i32, k: usize, p: (f32, f32)) -> (f32, f32) {
    let d = i.disp;
    let (w, h) = ((d[2] - d[0]) as f32, (d[3] - d[1]) as f32);
    let q = stubs::Plugin { params: vec![("Distortion".to_string(), k as f64)], inited: true };
    let r = act(&q, dir == 0, ((p.0 - d[0] as f32) / w) as f64, ((p.1 - d[1] as f32) / h) as f64);
    (r.0 as f32 * w + d[0] as f32, r.1 as f32 * h + d[1] as f32)
}
/// two lens nodes that do not commute
#[no_mangle]
pub extern "C" fn vp_d01_bake2() {
    unsafe { stubs::DISTORT = Some(act); }
    let i = scene(4);
    let (d1, d2, k) = (pick(4, 2) as i32, pick(5, 2) as i32, 1 + pick(6, 2));
    let r = baked(&i, &[NodeType::LensDistort, NodeType::LensDistort], &|g| {
        g.set_node_attr_i32(2, "direction", d1);
        g.set_node_attr_f32(2, "distortion", k as f32);
        g.set_node_attr_i32(3, "direction", d2);
        g.set_node_attr_f32(3, "distortion", 3.0 - k as f32);
    });
    shows(&r, &i, &|x, y| undo(&i, d1, k, undo(&i, d2, 3 - k, (x, y))), 10);
    if k == 1 { cover(1); } else { cover(2); }
}
/// a scaling transform and its inverse
#[no_mangle]
pub extern "C" fn vp_d01_scale() {
    let i = scene(7);
    let inv = pick(4, 2) as i32;
    let (px, py) = ([0.0, 1.0][pick(5, 2)], [0.0, -1.0][pick(6, 2)]);
    let t = T { sx: 2.0, sy: 0.25, px, py, invert: inv, ..ID };
    let r = baked(&i, &[NodeType::Transform], &|g| t.set(g, 2));
    check(r.dw == i.dw, 10);
    shows(&r, &i, &|x, y| { let (kx, ky) = if inv == 0 { (0.5, 4.0) } else { (2.0, 0.25) }; ((x - px) * kx + px, (y - py) * ky + py) }, 11);
    if inv == 0 { cover(1); } else { cover(2); }
}
