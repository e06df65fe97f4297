//@ entry vp_t01_resample covers=1,2,3 time=300
//@ entry vp_t01_fail covers=1,2 time=300
//@ entry vp_t01_pass covers=1,2 time=300
//@ entry vp_t01_history covers=1,2 time=300
//@ bound images of up to 2x2 pixels of 1 to 4 channels in every pixel data type, symbolic bytes for floats, symbolic windows and specification; any factor, interpolate and use_cache value; pending grade and transform; outcomes of the library: success or failure, an image of any size up to 2x2; two executions, two settings in a row
//@ assume the resampling itself (C++) is a stand-in given by the harness
use super::csup::*;
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;

struct Call { factor: i32, interp: bool, bytes: Vec<u8>, ty: DataType, size: [i32; 3], dw: W, disp: W, spec: (String, u32, u32, u8, bool, i32) }
static mut LOG: Vec<Call> = Vec::new();
fn log() -> &'static mut Vec<Call> { unsafe { &mut *std::ptr::addr_of_mut!(LOG) } }
/// what the library answers: ok, image
static mut ANSWER: Option<(bool, Img)> = None;
fn bytes_of(b: &crate::pixelblock::pixelblock::PixelBlock) -> Vec<u8> {
    let mut s = StreamDataImpl::new();
    s.set_pixel_block(std::rc::Rc::new(b.clone()));
    StreamDataImplRc::from_data(s).pixel_buffer().to_vec()
}
fn resample(src: &mut ImageShared, dst: &mut ImageShared, n: i32, i: bool) -> bool {
    let b = &src.pixel_block;
    log().push(Call { factor: n, interp: i, bytes: bytes_of(b), ty: b.data_type(), size: [b.width(), b.height(), b.num_channels()], dw: arr(src.data_window), disp: arr(src.display_window), spec: spec_of(&src.spec) });
    let (ok, img) = unsafe { (*std::ptr::addr_of!(ANSWER)).as_ref().unwrap() };
    if *ok {
        *dst.pixel_block = to_block(img);
        dst.data_window = win(img.dw);
        dst.display_window = win(img.disp);
    }
    *ok
}
fn answer(ok: bool, i: &Img) { unsafe { ANSWER = Some((ok, i.clone())); stubs::RESAMPLE = Some(resample); } }
fn arm(i: &Img, s: &Spec, t: DataType) { install(i, s, t); unsafe { LOG = Vec::new(); } }
/// the call got exactly the stream's image
fn saw(c: &Call, o: &StreamDataImplRc, factor: i32, interp: bool, id: u32) {
    check(c.factor == factor && c.interp == interp, id);
    check(c.ty == o.pixel_data_type() && c.size == [o.pixel_width(), o.pixel_height(), o.pixel_num_channels()], id + 1);
    check(c.dw == arr(o.data_window()) && c.disp == arr(o.display_window()), id + 2);
    let p = o.pixel_buffer();
    let mut ok = p.len() == c.bytes.len();
    let mut k = 0;
    while ok && k < p.len() { ok &= p[k] == c.bytes[k]; k += 1; }
    check(ok, id + 3);
    let s = o.clone_image_spec();
    check(c.spec == spec_of(&s), id + 4);
}
/// read -> grade -> transform -> resample: 1, 2, 4, 3
fn chain(off: f32) -> Box<GraphImpl> {
    let mut g = graph(NodeType::ResampleImage, off);
    g.add_node(create_node_box_with_id(NodeType::Transform, 4));
    g.set_node_attr_f32(4, "translate_x", 3.0);
    g.connect(2, 4, 0);
    g.connect(4, 3, 0);
    g
}
/// pixels and windows of the library, everything else of the input
fn kept(o: &StreamDataImplRc, before: &StreamDataImplRc, s: &Spec, id: u32) {
    check_spec(o, s, s.space, id);
    check(o.color_ops_len() == before.color_ops_len() && o.deformers_len() == before.deformers_len(), id + 4);
    let (mut p, mut q) = ([0.25f32, 0.5, 0.75, 0.5], [0.25f32, 0.5, 0.75, 0.5]);
    o.apply_color_ops(&mut p, 4);
    before.apply_color_ops(&mut q, 4);
    check(same(p[0], q[0]) && same(p[1], q[1]) && same(p[2], q[2]) && same(p[3], q[3]), id + 5);
    let w = BBox2Df { min_x: 0.0, min_y: 0.0, max_x: 2.0, max_y: 2.0 };
    let (mut p, mut q) = ([0.25f32, 0.5, 0.0], [0.25f32, 0.5, 0.0]);
    o.apply_deformers(&mut p, w, w);
    before.apply_deformers(&mut q, w, w);
    check(same(p[0], q[0]) && same(p[1], q[1]), id + 6);
}
#[no_mangle]
pub extern "C" fn vp_t01_resample() {
    let k = pick(1, 5);
    let x = range_i32(2, -1000, 1000);
    let disp = [range_i32(3, -1000, 1000), 0, range_i32(4, -1000, 1000), 2];
    // symbolic floats; fixed values for the other pixel data types
    let i = if k < 2 { Img::any(5, [x, 0, x + 2, 1 + k as i32], disp, [1, 4][k]) } else { Img::fixed(0.125, [x, 1, x + 2, 2], disp, 3) };
    let t = TYPES[if k < 2 { 0 } else { k - 1 }];
    let s = any_spec(10, SPACES[pick(6, 2)]);
    let off = pos_f32(7, 0.0, 1.0);
    arm(&i, &s, t);
    let mut g = chain(off);
    let cap = pick(8, 2);
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][cap]);
    let (f, n, u) = (any_i32(20), any_i32(21), any_i32(22));
    assume(f != 0);
    g.set_node_attr_i32(3, "factor", f);
    g.set_node_attr_i32(3, "interpolate", n);
    g.set_node_attr_i32(3, "use_cache", u);
    let r = Img::any(23, [[0, 0, 1, 1], [3, -1, 4, 1]][pick(24, 2)], [range_i32(25, -9, 9), 0, 7, 1], 3);
    answer(true, &r);
    check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let before = out(&g);
    let mut e = 0;
    while e < 2 {
        check(g.execute(3, &[1.0 + e as f64], &mut cache) == ExecuteStatus::Success, 2);
        check(g.node_status(3) == NodeStatus::Valid, 3);
        let o = out(&g);
        expect(&o, &r, 10);
        kept(&o, &before, &s, 20);
        e += 1;
    }
    check(log().len() == if u != 0 && cap == 1 { 1 } else { 2 }, 30);
    for c in log().iter() { saw(c, &before, f, n != 0, 40); }
    if k < 2 { cover(1); } else { cover(2); }
    if log().len() == 1 { cover(3); }
}
/// a failure is reported, and the next execution tries again
#[no_mangle]
pub extern "C" fn vp_t01_fail() {
    let i = Img::any(5, [0, 0, 2, 1], [0, 0, 2, 2], 3);
    let s = any_spec(10, "sRGB");
    arm(&i, &s, DataType::Float32);
    let mut g = chain(0.5);
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(8, 2)]);
    let (f, u) = (any_i32(20), any_i32(22));
    assume(f != 0);
    g.set_node_attr_i32(3, "factor", f);
    g.set_node_attr_i32(3, "use_cache", u);
    let r = Img::any(23, [0, 0, 1, 1], [0, 0, 1, 1], 3);
    answer(false, &r);
    let mut e = 0;
    let n = 1 + pick(1, 2);
    while e < n {
        check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Error, 1);
        check(g.execute_status() == ExecuteStatus::Error, 2);
        check(g.node_status(3) == NodeStatus::Error, 3);
        e += 1;
    }
    check(log().len() == n, 4);
    answer(true, &r);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 5);
    check(g.node_status(3) == NodeStatus::Valid, 6);
    expect(&out(&g), &r, 10);
    check(log().len() == n + 1, 15);
    if n == 1 { cover(1); } else { cover(2); }
}
/// factor 0 or not enabled: the input, without asking the library
#[no_mangle]
pub extern "C" fn vp_t01_pass() {
    let i = Img::any(5, [1, 0, 2, 2], [0, 0, 2, 2], 4);
    let s = any_spec(10, "sRGB");
    arm(&i, &s, DataType::Float32);
    answer(true, &i);
    let mut g = chain(pos_f32(7, 0.0, 1.0));
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(8, 2)]);
    let (e, f) = (any_i32(19), any_i32(20));
    assume(e != 1 || f == 0);
    g.set_node_attr_i32(3, "enable", e);
    g.set_node_attr_i32(3, "factor", f);
    g.set_node_attr_i32(3, "interpolate", any_i32(21));
    g.set_node_attr_i32(3, "use_cache", any_i32(22));
    check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let before = out(&g);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    check(g.node_status(3) == NodeStatus::Valid, 3);
    same_stream(&out(&g), &before, 10);
    check_spec(&out(&g), &s, "sRGB", 30);
    check(log().len() == 0, 40);
    if e == 1 { cover(1); } else { cover(2); }
}
/// every setting gets its own result
#[no_mangle]
pub extern "C" fn vp_t01_history() {
    fn by_setting(src: &mut ImageShared, dst: &mut ImageShared, n: i32, i: bool) -> bool {
        *dst.pixel_block = to_block(&result(n, i, src.pixel_block.as_slice_f32()[0]));
        dst.data_window = win([0, 0, 1, 1]);
        dst.display_window = win([n, 0, 1, if i { 1 } else { 2 }]);
        true
    }
    fn result(n: i32, i: bool, v: f32) -> Img { Img { dw: [0, 0, 1, 1], disp: [n, 0, 1, if i { 1 } else { 2 }], ch: 3, px: vec![v; 3] } }
    let i = Img::any(5, [0, 0, 1, 1], [0, 0, 2, 2], 3);
    let s = any_spec(10, "Linear");
    arm(&i, &s, DataType::Float32);
    unsafe { stubs::RESAMPLE = Some(by_setting); }
    let mut g = graph(NodeType::ResampleImage, 0.0);
    let mut cache = create_cache_box_with_capacity([0, 12, 1 << 20][pick(8, 3)]);
    let mut k = 0;
    let mut last = (0, 0);
    while k < if THOROUGH { 3 } else { 2 } {
        let (f, n) = (range_i32(20, -3, 3), any_i32(21));
        g.set_node_attr_i32(3, "factor", f);
        g.set_node_attr_i32(3, "interpolate", n);
        g.set_node_attr_i32(3, "use_cache", any_i32(22));
        check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
        if f == 0 { expect(&out(&g), &i, 10); cover(1); } else { expect(&out(&g), &result(f, n != 0, i.px[0]), 20); cover(2); }
        last = (f, n);
        k += 1;
    }
}
