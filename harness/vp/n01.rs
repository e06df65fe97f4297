//@ entry vp_n01_chain covers=1,2 time=300
//@ entry vp_n01_pass covers=1,2 time=300
//@ entry vp_n01_neutral covers=1 time=300
//@ entry vp_n01_alone covers=1,2 time=300
//@ entry vp_n01_merge covers=1,2 time=300
//@ bound chains read -> two nodes -> viewer, both nodes of any type with one input (null, grade, transform, lens distort, crop, resample, viewer, write), attribute values away from their defaults; images of up to 2x2 pixels in every pixel data type; any enable value
//@ assume colour conversion, resampling, lens distortion and the image library (C++) are stand-ins
use super::csup::*;
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;
use crate::pixelblock::pixelblock::PixelBlock;

const KINDS: [NodeType; 8] = [NodeType::Null, NodeType::Grade, NodeType::Transform, NodeType::LensDistort, NodeType::CropImage, NodeType::ResampleImage, NodeType::Viewer, NodeType::WriteImage];
/// attribute values that have an effect
fn dress(s: &mut Scene, id: u64, k: usize) {
    match k {
        1 => { s.set(id, "offset_r", F(0.5)); s.set(id, "multiply_g", F(2.0)); }
        2 => { s.set(id, "translate_x", F(0.5)); s.set(id, "scale_y", F(2.0)); }
        3 => { s.set(id, "k1", F(0.25)); s.set(id, "distortion", F(0.25)); }
        4 => { s.set(id, "window_min_x", I(1)); s.set(id, "window_min_y", I(0)); s.set(id, "window_max_x", I(3)); s.set(id, "window_max_y", I(1)); }
        5 => { s.set(id, "factor", I(2)); s.set(id, "interpolate", I(0)); }
        6 => { s.set(id, "bake_option", I(2)); s.set(id, "bake_pixel_data_type", I(0)); s.set(id, "bake_color_space", S("b")); }
        7 => { s.set(id, "file_path", S("/o.exr")); }
        _ => (),
    }
}
static mut RAW: Option<PixelBlock> = None;
fn read(p: &String, image: &mut ImageShared) -> bool {
    unsafe { (stubs_read())(p, image); *image.pixel_block = (*std::ptr::addr_of!(RAW)).as_ref().unwrap().clone(); }
    true
}
static mut INNER: Option<fn(&String, &mut ImageShared) -> bool> = None;
fn stubs_read() -> fn(&String, &mut ImageShared) -> bool { unsafe { INNER.unwrap() } }
/// a file of arbitrary pixel bytes
fn raw(t: u32, w: W, d: W, ch: usize, sp: &Spec, ty: DataType) {
    install(&Img::fixed(0.25, w, d, ch), sp, DataType::Float32);
    let mut b = PixelBlock::new(BlockSize::new(w[2] - w[0], w[3] - w[1], ch as i32), ty);
    let n = b.size();
    let mut k = 0;
    while k < n {
        match ty {
            DataType::Float32 => b.as_mut_slice_f32()[k] = f32::from_bits(any_u32(t)),
            DataType::UInt8 => b.as_mut_slice_u8()[k] = any_u8(t),
            DataType::UInt16 => b.as_mut_slice_u16()[k] = any_u16(t),
            _ => b.as_mut_slice_f16()[k] = half::f16::from_bits(any_u16(t)),
        }
        k += 1;
    }
    unsafe { RAW = Some(b); INNER = stubs::READ; stubs::READ = Some(read); }
}
fn wrote(_p: &String, _i: &ImageShared, _c: &ImageCompression) -> bool { true }
/// a disabled node, and a null node, are as if they were not there
#[no_mangle]
pub extern "C" fn vp_n01_chain() {
    let i = Img::any(2, [0, 0, 2, 1], [0, 0, 2, 2], 3);
    install(&i, &any_spec(10, "sRGB"), DataType::Float32);
    unsafe { stubs::WRITE = Some(wrote); stubs::WRITES = 0; }
    let (a, b) = (pick(3, 7), pick(4, 7));
    let first = pick(5, 2) == 0;
    let off = if first { a } else { b };
    let e = any_i32(6);
    assume(e != 1);
    let t = if off == 0 { 2 } else { pick(7, 2) };
    let cap = [0, 10000][t & 1];
    let ids: &[u64] = if first { &[3] } else { &[2] };
    // the chain without the node
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (ids[0], KINDS[if first { b } else { a }]), (4, NodeType::Viewer)], &[(1, ids[0], 0), (ids[0], 4, 0)]);
    s.set(1, "file_path", S("/1"));
    s.set(4, "bake_option", I(3));
    s.set(4, "bake_pixel_data_type", I(0));
    s.set(4, "bake_color_space", S("Linear"));
    dress(&mut s, ids[0], if first { b } else { a });
    let mut f = fresh(&s);
    let mut c0 = create_cache_box_with_capacity(0);
    check(f.execute(4, &[1.0], &mut c0) == ExecuteStatus::Success, 1);
    // the chain with it
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, KINDS[a]), (3, KINDS[b]), (4, NodeType::Viewer)], &[(1, 2, 0), (2, 3, 0), (3, 4, 0)]);
    s.set(1, "file_path", S("/1"));
    s.set(4, "bake_option", I(3));
    s.set(4, "bake_pixel_data_type", I(0));
    s.set(4, "bake_color_space", S("Linear"));
    dress(&mut s, 2, a);
    dress(&mut s, 3, b);
    let mut g = fresh(&s);
    let mut cache = create_cache_box_with_capacity(cap);
    if t == 1 { check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 2); }
    if off != 0 { g.set_node_attr_i32(if first { 2 } else { 3 }, "enable", e); }
    check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 3);
    same_stream(&out(&g), &out(&f), 10);
    check(g.node_status(if first { 2 } else { 3 }) == NodeStatus::Valid, 30);
    check(g.node_status(4) == NodeStatus::Valid, 31);
    if off == 0 { cover(1); } else { cover(2); }
}
/// the output of a disabled node is its input with all its properties
#[no_mangle]
pub extern "C" fn vp_n01_pass() {
    let t = TYPES[pick(1, 4)];
    let (w, d) = [([0, 0, 2, 1], [0, 0, 2, 2]), ([-1, 2, 0, 4], [1, 1, 4, 2])][pick(2, 2)];
    let ch = [1, 3, 4][pick(3, 3)];
    let sp = any_spec(10, SPACES[pick(5, 2)]);
    raw(4, w, d, ch, &sp, t);
    unsafe { stubs::WRITE = Some(wrote); stubs::WRITES = 0; }
    let k = pick(6, 7);
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, KINDS[k])], &[(1, 2, 0)]);
    s.set(1, "file_path", S("/1"));
    dress(&mut s, 2, k);
    let mut g = fresh(&s);
    let mut cache = create_cache_box_with_capacity(0);
    let e = any_i32(7);
    assume(e != 1);
    if k > 0 { g.set_node_attr_i32(2, "enable", e); }
    check(g.execute(1, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let a = out(&g);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    let b = out(&g);
    same_stream(&a, &b, 10);
    check_spec(&b, &sp, sp.space, 25);
    check(b.color_ops_len() == 0 && b.deformers_len() == 0, 30);
    check(g.node_status(2) == NodeStatus::Valid, 31);
    if k == 0 { cover(1); } else { cover(2); }
}
/// with their default settings, nodes leave the pixels alone
#[no_mangle]
pub extern "C" fn vp_n01_neutral() {
    let t = TYPES[pick(1, 4)];
    let ch = [1, 4][pick(3, 2)];
    let sp = any_spec(10, "sRGB");
    raw(2, [1, 0, 3, 1], [0, 0, 4, 2], ch, &sp, t);
    unsafe { stubs::WRITE = Some(wrote); stubs::WRITES = 0; }
    let k = [0, 1, 2, 3, 7][pick(4, 5)];
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, KINDS[k])], &[(1, 2, 0)]);
    s.set(1, "file_path", S("/1"));
    if k == 7 { s.set(2, "file_path", S("/o.exr")); s.set(2, "execute", I(0)); }
    let mut g = fresh(&s);
    let mut cache = create_cache_box_with_capacity(0);
    check(g.execute(1, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let a = out(&g);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    let b = out(&g);
    check(b.pixel_data_type() == a.pixel_data_type() && b.pixel_num_channels() == a.pixel_num_channels(), 10);
    check(arr(a.data_window()) == arr(b.data_window()) && arr(a.display_window()) == arr(b.display_window()), 11);
    let (x, y) = (a.pixel_buffer(), b.pixel_buffer());
    let mut ok = x.len() == y.len();
    let mut j = 0;
    while j < x.len() && ok { ok &= x[j] == y[j]; j += 1; }
    check(ok, 12);
    check_spec(&b, &sp, "sRGB", 13);
    check(same_matrix(&b.color_matrix(), &Matrix4::identity()), 16);
    check(b.color_ops_len() == if k == 1 { 1 } else { 0 }, 17);
    check(b.deformers_len() == if k == 2 || k == 3 { 1 } else { 0 }, 18);
    check(g.node_status(2) == NodeStatus::Valid, 19);
    cover(1);
}
/// without an input a node shows the placeholder
#[no_mangle]
pub extern "C" fn vp_n01_alone() {
    dsetup();
    let k = pick(1, 8);
    let mut off = false;
    let mut s = Scene::new(&[(2, KINDS[k])], &[]);
    if k == 6 { s.set(2, "bake_option", I(0)); } else if k > 3 { dress(&mut s, 2, k); }
    if k > 0 && pick(3, 2) == 1 { s.set(2, "enable", I(0)); off = true; }
    let mut g = fresh(&s);
    let mut cache = create_cache_box_with_capacity(10000);
    let mut again = pick(2, 2);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    if again == 1 { check(g.execute(2, &[2.0], &mut cache) == ExecuteStatus::Success, 2); }
    expect(&out(&g), &Img::bars(), 10);
    check(!off || out(&g).color_ops_len() == 0 && out(&g).deformers_len() == 0, 20);
    check(g.node_status(2) == if k == 6 || k == 7 && off { NodeStatus::Valid } else { NodeStatus::Warning }, 21);
    if k == 6 { cover(1); } else { cover(2); }
}
/// a merge that is disabled shows the placeholder and warns
#[no_mangle]
pub extern "C" fn vp_n01_merge() {
    let i = Img::any(2, [0, 0, 2, 1], [0, 0, 2, 2], 4);
    install(&i, &any_spec(10, "sRGB"), DataType::Float32);
    let n = pick(3, 3);
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::MergeImage)], &[(1, 2, 0), (1, 2, 1)][..n]);
    s.set(1, "file_path", S("/1"));
    let e = any_i32(6);
    assume(n == 0 || e != 1);
    s.set(2, "enable", I(e));
    let mut g = fresh(&s);
    let mut cache = create_cache_box_with_capacity(10000);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    expect(&out(&g), &Img::bars(), 10);
    check(g.node_status(2) == NodeStatus::Warning, 20);
    if n == 0 { cover(1); } else { cover(2); }
}
