//! One image with its specification, and a colour conversion that leaves traces.
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;
use crate::pixelblock::pixelblock::PixelBlock;

#[derive(Clone)]
pub struct Spec { pub space: &'static str, pub gamma: f32, pub aspect: f32, pub orient: u8, pub unassoc: bool, pub dither: i32 }
pub fn spec_of(s: &ImageSpec) -> (String, u32, u32, u8, bool, i32) { (s.color_space.clone(), s.gamma.to_bits(), s.pixel_aspect.to_bits(), s.orientation.repr, s.unassociated_alpha, s.dither) }
pub fn any_spec(t: u32, space: &'static str) -> Spec { Spec { space, gamma: any_f32(t), aspect: any_f32(t + 1), orient: range_i32(t + 2, 1, 8) as u8, unassoc: any_u8(t + 3) & 1 == 1, dither: any_i32(t + 4) } }
pub static mut SPEC: Option<Spec> = None;
pub static mut TYPE: DataType = DataType::Float32;
pub static mut IMG: Option<Img> = None;
fn read(_p: &String, image: &mut ImageShared) -> bool {
    unsafe {
        let (i, s) = ((*std::ptr::addr_of!(IMG)).as_ref().unwrap(), (*std::ptr::addr_of!(SPEC)).as_ref().unwrap());
        let mut b = to_block(i);
        b.convert_into_data_type(TYPE);
        *image.pixel_block = b;
        image.data_window = win(i.dw);
        image.display_window = win(i.disp);
        image.spec.color_space = s.space.to_string();
        image.spec.gamma = s.gamma;
        image.spec.pixel_aspect = s.aspect;
        image.spec.orientation = ImageOrientation { repr: s.orient };
        image.spec.unassociated_alpha = s.unassoc;
        image.spec.dither = s.dither;
    }
    true
}
fn kind(_p: &[u8]) -> u8 { 1 }
pub fn install(i: &Img, s: &Spec, t: DataType) {
    dsetup();
    unsafe { IMG = Some(i.clone()); SPEC = Some(s.clone()); TYPE = t; stubs::READ = Some(read); stubs::FILE_KIND = Some(kind); stubs::COLOR = Some(color); CALLS = Vec::new(); }
}
/// The conversions done: from, to, width, height, channels, alpha channel, unassociated alpha.
pub static mut CALLS: Vec<(String, String, [i32; 4], bool)> = Vec::new();
pub fn calls() -> &'static Vec<(String, String, [i32; 4], bool)> { unsafe { &*std::ptr::addr_of!(CALLS) } }
pub fn space(s: &str) -> f32 { match s { "Linear" => 1.0, "sRGB" => 2.0, "b" => 4.0, _ => 0.5 } }
fn color(px: &mut [f32], w: i32, h: i32, c: i32, a: i32, u: bool, s: &str, d: &str) -> bool {
    unsafe { (*std::ptr::addr_of_mut!(CALLS)).push((s.to_string(), d.to_string(), [w, h, c, a], u)); }
    let k = space(d) / space(s);
    for v in px.iter_mut() { *v = *v * k; }
    true
}
/// pixel `v` converted from `s` to `d`
pub fn conv(v: f32, s: &str, d: &str) -> f32 { if s == d { v } else { v * (space(d) / space(s)) } }
pub const SPACES: [&str; 4] = ["Linear", "sRGB", "b", "c"];
pub const TYPES: [DataType; 4] = [DataType::Float32, DataType::Half16, DataType::UInt8, DataType::UInt16];
pub fn size(t: DataType) -> usize { match t { DataType::Float32 => 4, DataType::UInt8 => 1, _ => 2 } }
/// read -> grade -> a node of type t
pub fn graph(t: NodeType, off: f32) -> Box<GraphImpl> {
    let mut g = create_graph_box();
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.add_node(create_node_box_with_id(NodeType::Grade, 2));
    g.add_node(create_node_box_with_id(t, 3));
    g.set_node_attr_str(1, "file_path", "/1");
    g.set_node_attr_f32(2, "offset_r", off);
    g.set_node_attr_f32(2, "multiply_g", 3.0);
    g.set_node_attr_i32(2, "clamp_black", 0);
    g.connect(1, 2, 0);
    g.connect(2, 3, 0);
    g
}
/// what the grade of `graph` does to channel c
pub fn graded(x: f32, c: usize, off: f32) -> f32 {
    let (a, b) = (if c == 1 { opaque(3.0) } else { opaque(1.0) }, if c == 0 { off } else { opaque(0.0) });
    let (gamma, m) = (opaque(1.0), if c == 3 { opaque(0.0) } else { opaque(1.0) });
    if m == 0.0 { return x; }
    (x * a + b).powf(opaque(1.0) / gamma) * m + x * (opaque(1.0) - m)
}
/// a value the compiler does not fold away
pub fn opaque(x: f32) -> f32 { let v = x; unsafe { std::ptr::read_volatile(&v) } }
pub fn baked(px: &[f32], ch: usize, opt: i32, s: &str, d: &str, off: f32) -> Vec<f32> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < px.len() {
        v.push(match opt {
            0 => px[i],
            1 => conv(px[i], s, d),
            _ => conv(graded(conv(px[i], s, "Linear"), i % ch, off), "Linear", d),
        });
        i += 1;
    }
    v
}
pub fn same_px(a: &[f32], b: &[f32], id: u32) { let mut ok = a.len() == b.len(); let mut i = 0; while i < a.len() && ok { ok &= same(a[i], b[i]); i += 1; } check(ok, id); }
pub fn check_spec(s: &StreamDataImplRc, want: &Spec, space: &str, id: u32) {
    let t = s.clone_image_spec();
    check(t.color_space() == space, id);
    check(t.gamma().to_bits() == want.gamma.to_bits() && t.pixel_aspect().to_bits() == want.aspect.to_bits(), id + 1);
    check(t.orientation().repr == want.orient && t.unassociated_alpha() == want.unassoc && t.dither() == want.dither, id + 2);
}
