//@ entry vp_o01_forward covers=1,2,3 time=300
//@ entry vp_o01_reverse covers=1,2,3,4,5,6 time=300
//@ entry vp_o01_process covers=1,2,3 time=300
//@ entry vp_o01_chain covers=1,2 time=300
//@ entry vp_o01_bake covers=1,2 time=300
//@ entry vp_o01_undo covers=1,2,3 time=300
//@ entry vp_o01_many covers=1,2 time=300
//@ bound a strip of 300 pixels of which one is symbolic
//@ bound two pixels of 1, 3 and 4 channels with arbitrary 32-bit values; every grade parameter of every channel an arbitrary 32-bit float; process any integers with full mix, any mix with process 0 and 1; up to two grade nodes in a row, each with any enable value
//@ bound reversed grades: one channel's parameters and pixel arbitrary at a time, the others fixed
//@ assume powf is a function of its two arguments (uninterpreted); clamp_black, clamp_white and premult are off
use super::dsup::*;
use super::gsup::*;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;

pub const CH: [&str; 4] = ["r", "g", "b", "a"];
const PAR: [&str; 7] = ["black_point", "white_point", "lift", "gain", "multiply", "offset", "gamma"];
const DEF: [f32; 7] = [0.0, 1.0, 0.0, 1.0, 1.0, 0.0, 1.0];
#[derive(Clone, Copy)]
struct Grade { p: [[f32; 7]; 4], process: [i32; 4], mix: f32, reverse: i32, enable: i32 }
impl Grade {
    fn new() -> Grade { Grade { p: [DEF; 4], process: [1, 1, 1, 0], mix: 1.0, reverse: 0, enable: 1 } }
    fn set(&self, g: &mut GraphImpl, id: u64) {
        let mut c = 0;
        while c < 4 {
            let mut k = 0;
            while k < 7 { g.set_node_attr_f32(id, &[PAR[k], "_", CH[c]].concat(), self.p[c][k]); k += 1; }
            g.set_node_attr_i32(id, &["process_", CH[c]].concat(), self.process[c]);
            c += 1;
        }
        g.set_node_attr_f32(id, "mix", self.mix);
        g.set_node_attr_i32(id, "reverse", self.reverse);
        g.set_node_attr_i32(id, "enable", self.enable);
        g.set_node_attr_i32(id, "clamp_black", 0);
        g.set_node_attr_i32(id, "clamp_white", 0);
        g.set_node_attr_i32(id, "premult", 0);
    }
    fn works(&self) -> bool { self.enable == 1 && (self.process[0] != 0 || self.process[1] != 0 || self.process[2] != 0 || self.process[3] != 0) }
    fn value(&self, c: usize, x: f32) -> f32 {
        let [black, white, lift, gain, mul, off, gamma] = self.p[c];
        let a = mul * (gain - lift) / (white - black);
        let b = off + lift - a * black;
        if self.reverse == 0 { return (x * a + b).powf(1.0 / gamma); }
        let v = if gamma <= 0.0 { if x > 0.0 { 1.0 } else { 0.0 } }
            else if gamma == 1.0 || x <= 0.0 { x }
            else if gamma != gamma { if x < 1.0 { x.powf(gamma) } else { 1.0 + (x - 1.0) * gamma } }
            else if x < 1.0 { x.powf(gamma) } else { 1.0 + (x - 1.0) * gamma };
        if a == 1.0 && b == 0.0 { return v; }
        let ia = if a != 0.0 { 1.0 / a } else { 1.0 };
        v * ia + -b * ia
    }
    fn apply(&self, px: &[f32], ch: usize) -> Vec<f32> {
        let mut o = Vec::new();
        let mut i = 0;
        while i < px.len() {
            let c = if ch == 1 { 3 } else { i % ch };
            let m = self.process[c] as f32 * self.mix;
            o.push(if !self.works() || m == 0.0 { px[i] } else { self.value(c, px[i]) * m + px[i] * (1.0 - m) });
            i += 1;
        }
        o
    }
}
fn run(gs: &[Grade]) -> Box<GraphImpl> {
    setup();
    add_file(b'1', Img::fixed(0.5, [0, 0, 1, 1], [0, 0, 1, 1], 4));
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.set_node_attr_str(1, "file_path", "/1");
    let mut last = 1;
    for d in gs.iter() {
        g.add_node(create_node_box_with_id(NodeType::Grade, last + 1));
        d.set(&mut g, last + 1);
        g.connect(last, last + 1, 0);
        last += 1;
    }
    check(g.execute(last, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(g.node_status(last) == NodeStatus::Valid, 2);
    g
}
fn compare(got: &[f32], want: &[f32], id: u32) {
    check(got.len() == want.len(), id);
    let mut ok = true;
    let mut i = 0;
    while i < got.len() { ok &= same(got[i], want[i]); i += 1; }
    check(ok, id + 1);
}
fn pixels(t: u32, n: usize) -> Vec<f32> { let mut v = Vec::new(); let mut i = 0; while i < n { v.push(any_f32(t)); i += 1; } v }
fn any_params(g: &mut Grade, t: u32) { let mut c = 0; while c < 4 { let mut k = 0; while k < 7 { g.p[c][k] = any_f32(t + (c * 7 + k) as u32); k += 1; } c += 1; } }
fn chans() -> usize { [1, 3, 4][pick(1, 3)] }
fn applied(g: &GraphImpl, px: &[f32], ch: usize) -> Vec<f32> { let mut q = px.to_vec(); out(g).apply_color_ops(&mut q, ch as i32); q }

/// every parameter of every channel at once
#[no_mangle]
pub extern "C" fn vp_o01_forward() {
    let ch = chans();
    let mut d = Grade::new();
    any_params(&mut d, 10);
    d.mix = any_f32(2);
    d.process[3] = 1;
    let px = pixels(3, 2 * ch);
    let g = run(&[d]);
    compare(&applied(&g, &px, ch), &d.apply(&px, ch), 10);
    match ch { 1 => cover(1), 3 => cover(2), _ => cover(3) }
}
/// the reversed grade, one channel at a time
#[no_mangle]
pub extern "C" fn vp_o01_reverse() {
    let c = pick(1, 4);
    let mut d = Grade::new();
    d.reverse = [1, 2, -1][pick(2, 3)];
    d.p[c][6] = any_f32(3);
    // the linear part: none, scaled, moved, both, degenerate
    match pick(4, 5) {
        0 => (),
        1 => d.p[c][4] = pos_f32(6, 2.0, 3.0),
        2 => d.p[c][5] = pos_f32(6, 0.25, 1.0),
        3 => d.p[c] = [0.125, 0.75, 0.0625, 1.5, pos_f32(6, 2.0, 3.0), pos_f32(7, 0.25, 0.5), d.p[c][6]],
        _ => { d.p[c][4] = 0.0; d.p[c][2] = pos_f32(6, 0.25, 1.0); }
    }
    d.process = [1, 1, 1, 1];
    let mut px = vec![0.25, 0.5, 0.75, 1.0];
    px[c] = any_f32(5);
    let x = px[c];
    let g = run(&[d]);
    compare(&applied(&g, &px, 4), &d.apply(&px, 4), 10);
    let gamma = d.p[c][6];
    if gamma <= 0.0 { cover(1); } else if gamma == 1.0 { cover(2); } else if x <= 0.0 { cover(3); } else if x < 1.0 { cover(4); } else { cover(5); }
    cover(6);
}
/// which channels are processed, and how much
#[no_mangle]
pub extern "C" fn vp_o01_process() {
    let ch = chans();
    let mut d = Grade::new();
    let mut c = 0;
    // any values of process with full mix, or any mix with a few of process
    let k = pick(6, 5);
    let few = [[1, 0, 1, 0], [0, 1, 0, 1], [0, 0, 1, 0], [0, 0, 0, 1]];
    while c < 4 { d.process[c] = if k < 1 { any_i32(2) } else { few[k - 1][c] }; d.p[c] = [0.125, 0.75, 0.0625, 1.5, 2.0, 0.25, 2.0]; c += 1; }
    d.mix = if k < 1 { 1.0 } else { any_f32(3) };
    d.enable = any_i32(4);
    let px = pixels(5, ch);
    let g = run(&[d]);
    compare(&applied(&g, &px, ch), &d.apply(&px, ch), 10);
    check((out(&g).color_ops_len() == 0) == !d.works(), 12);
    if d.works() { cover(1); } else if d.enable == 1 { cover(2); } else { cover(3); }
}
/// two grades: upstream first
#[no_mangle]
pub extern "C" fn vp_o01_chain() {
    let (mut a, mut b) = (Grade::new(), Grade::new());
    any_params(&mut a, 10);
    any_params(&mut b, 50);
    a.enable = any_i32(2);
    b.enable = any_i32(3);
    let px = pixels(4, 3);
    let g = run(&[a, b]);
    compare(&applied(&g, &px, 3), &b.apply(&a.apply(&px, 3), 3), 10);
    if a.works() && b.works() { cover(1); }
    if !a.works() && b.works() { cover(2); }
}
/// baked into the pixels by a viewer
#[no_mangle]
pub extern "C" fn vp_o01_bake() {
    dsetup();
    let ch = if pick(1, 2) == 0 { 3 } else { 4 };
    let i = Img::any(2, [0, 0, 2, 1], [0, 0, 2, 1], ch);
    add_file(b'1', i.clone());
    let (mut a, mut b) = (Grade::new(), Grade::new());
    any_params(&mut a, 10);
    any_params(&mut b, 50);
    b.enable = any_i32(3);
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.add_node(create_node_box_with_id(NodeType::Grade, 2));
    g.add_node(create_node_box_with_id(NodeType::Grade, 3));
    g.add_node(create_node_box_with_id(NodeType::Viewer, 4));
    g.set_node_attr_str(1, "file_path", "/1");
    a.set(&mut g, 2);
    b.set(&mut g, 3);
    g.set_node_attr_i32(4, "bake_option", 2 + pick(4, 2) as i32);
    g.set_node_attr_i32(4, "bake_pixel_data_type", 0);
    g.set_node_attr_str(4, "bake_color_space", "Linear");
    g.connect(1, 2, 0);
    g.connect(2, 3, 0);
    g.connect(3, 4, 0);
    check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let s = out(&g);
    check(s.color_ops_len() == 0, 2);
    compare(&stream_img(&s).px, &b.apply(&a.apply(&i.px, ch), ch), 10);
    if b.works() { cover(1); } else { cover(2); }
}
/// a grade followed by its reverse gives the pixel back: scaling by powers of two, offsets and halves are exact
#[no_mangle]
pub extern "C" fn vp_o01_undo() {
    let mut d = Grade::new();
    let c = pick(1, 4);
    d.process = [1, 1, 1, 1];
    let n = [0.0, 0.25, 0.5, 1.0, 0.125][pick(2, 5)];
    match pick(3, 3) {
        0 => { d.p[c][4] = [2.0, 0.5, 4.0][pick(4, 3)]; cover(1); }
        1 => { d.p[c][5] = [0.25, -0.125, 1.0][pick(4, 3)]; d.p[c][3] = 2.0; cover(2); }
        _ => { d.p[c][6] = [0.5, 2.0][pick(4, 2)]; d.p[c][4] = 4.0; cover(3); }
    }
    let mut r = d;
    r.reverse = 1;
    let mut px = vec![0.5; 4];
    px[c] = n;
    let g = run(&[d, r]);
    let got = applied(&g, &px, 4);
    // with gamma the value above one comes back along the straight extension of the curve
    if d.p[c][6] == 1.0 || d.value(c, n) <= 1.0 { let e = got[c] - n; check(e < 1e-5 && e > -1e-5, 10); }
    let mut k = 0;
    while k < 4 { if k != c { check(same(got[k], px[k]), 11); } k += 1; }
}
/// many pixels
#[no_mangle]
pub extern "C" fn vp_o01_many() {
    let ch = [3, 4][pick(1, 2)];
    let mut d = Grade::new();
    d.p[0] = [0.125, 2.0, 0.5, 1.5, 3.0, 0.25, 1.0];
    d.p[2] = [0.0, 0.5, 0.0, 1.0, 1.0, -0.25, 2.0];
    let mut px = Vec::new();
    let mut i = 0;
    while i < 300 * ch { px.push((i % 97) as f32 * 0.25); i += 1; }
    let at = [0, 63, 255, 299][pick(2, 4)] * ch + pick(3, 2);
    px[at] = any_f32(4);
    let g = run(&[d]);
    compare(&applied(&g, &px, ch), &d.apply(&px, ch), 10);
    if ch == 3 { cover(1); } else { cover(2); }
}
