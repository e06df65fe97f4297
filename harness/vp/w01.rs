//@ entry vp_w01_write covers=1,2,3,4 time=300
//@ entry vp_w01_types covers=1,2 time=300
//@ entry vp_w01_compress covers=1,2,3 time=300
//@ entry vp_w01_off covers=1,2,3,4 time=300
//@ entry vp_w01_frames covers=1,2 time=300
//@ entry vp_w01_deform covers=1,2 time=300
//@ entry vp_w01_chain covers=1,2 time=300
//@ entry vp_w01_name covers=1,2,3,4,5 time=300
//@ bound images of up to 2x2 pixels of 3 and 4 channels with symbolic pixels and specification in four colour spaces; eleven file name extensions, and names ending in any 8 (thorough: 10) characters (ASCII, no capitals, '#', '$' or '~'); every crop_on_write mode, pixel data type and compression setting; up to three frames; two write nodes in a row
//@ assume the image library (C++) is a recording stand-in which may fail; colour conversion scales each colour space differently; powf is uninterpreted
use super::csup::*;
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;

struct Written { path: String, stream: StreamDataImplRc, spec: ImageSpec, c: ImageCompression, threads: i32 }
static mut LOG: Vec<Written> = Vec::new();
static mut FAIL: bool = false;
fn log() -> &'static Vec<Written> { unsafe { &*std::ptr::addr_of!(LOG) } }
fn write(p: &String, i: &ImageShared, c: &ImageCompression) -> bool {
    let mut s = StreamDataImpl::new();
    s.set_pixel_block(std::rc::Rc::new((*i.pixel_block).clone()));
    s.set_data_window(i.data_window);
    s.set_display_window(i.display_window);
    s.set_image_spec(i.spec.clone());
    unsafe {
        (*std::ptr::addr_of_mut!(LOG)).push(Written { path: p.clone(), stream: StreamDataImplRc::from_data(s), spec: i.spec.clone(), c: c.clone(), threads: stubs::THREADS });
        !FAIL
    }
}
fn arm() { unsafe { LOG = Vec::new(); FAIL = false; stubs::WRITE = Some(write); stubs::THREADS = 3; } }
/// (path, written in sRGB, cropped in automatic mode)
const PATHS: [(&str, bool, bool); 11] = [
    ("/o.exr", false, false), ("/o.png", true, true), ("/o.jpg", true, true), ("/o.jpeg", true, true), ("/o.jpe", true, true), ("/o.jif", true, true),
    ("/o.jfif", true, true), ("/o.jfi", true, true), ("/o.tif", false, true), ("/o.png.exr", false, false), ("/exr", false, true)];
/// crop to the display window
fn crop(i: &Img) -> Img {
    let mut px = Vec::new();
    let mut y = i.disp[1];
    while y < i.disp[3] {
        let mut x = i.disp[0];
        while x < i.disp[2] { let mut c = 0; while c < i.ch { px.push(i.at(x, y, c)); c += 1; } x += 1; }
        y += 1;
    }
    Img { dw: i.disp, disp: i.disp, ch: i.ch, px }
}
/// what is written where
#[no_mangle]
pub extern "C" fn vp_w01_write() {
    let ch = 3 + pick(1, 2);
    let i = Img::any(2, [0, 1, 2, 2], [0, 0, 1, 2], ch);
    let s = SPACES[pick(3, 4)];
    let (path, srgb, auto) = PATHS[pick(4, 11)];
    let mode = pick(5, 3) as i32;
    let sp = any_spec(10, s);
    let off = pos_f32(6, 0.0, 1.0);
    install(&i, &sp, DataType::Float32);
    arm();
    let fail = any_u8(7) & 1 == 1;
    unsafe { FAIL = fail; stubs::THREADS = 5; }
    let mut g = graph(NodeType::WriteImage, off);
    let mut cache = create_cache_box_with_capacity(0);
    g.set_node_attr_str(3, "file_path", path);
    if mode != 2 { g.set_node_attr_i32(3, "crop_on_write", mode); }
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let before = out(&g);
    check(log().len() == 0, 2);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 3);
    check(log().len() == 1, 4);
    let w = &log()[0];
    check(w.path == path, 5);
    let d = if srgb { "sRGB" } else { "Linear" };
    let mut e = Img { px: baked(&i.px, ch, 3, s, d, off), ..i.clone() };
    let cropped = mode == 1 || (mode == 2 && auto);
    if cropped { e = crop(&e); }
    expect(&w.stream, &e, 10);
    check_spec(&w.stream, &sp, d, 15);
    // what follows the write node is untouched
    same_stream(&before, &out(&g), 20);
    check_spec(&out(&g), &sp, s, 31);
    check(before.hash() == out(&g).hash(), 34);
    check(unsafe { stubs::THREADS } == 5, 35);
    if cropped { cover(1); } else { cover(2); }
    if srgb { cover(3); } else { cover(4); }
}
/// the pixel data type of the file
#[no_mangle]
pub extern "C" fn vp_w01_types() {
    let i = Img { dw: [0, 0, 2, 1], disp: [0, 0, 2, 1], ch: 3, px: vec![0.0, 0.25, 0.5, 1.0, 0.125, 0.3] };
    let (a, b) = (TYPES[pick(1, 4)], pick(2, 5));
    let s = SPACES[pick(3, 3)];
    let (path, srgb, _) = PATHS[pick(4, 2)];
    let sp = any_spec(10, s);
    install(&i, &sp, a);
    arm();
    let mut g = graph(NodeType::WriteImage, 0.25);
    let mut cache = create_cache_box_with_capacity(0);
    g.set_node_attr_str(3, "file_path", path);
    if b < 4 { g.set_node_attr_i32(3, "pixel_data_type", TYPES[b].repr as i32); }
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(log().len() == 1, 2);
    let t = if b == 4 { a } else { TYPES[b] };
    let mut e = to_block(&i);
    e.convert_into_data_type(a);
    e.convert_into_data_type(DataType::Float32);
    let v = baked(e.as_slice_f32(), 3, 3, s, if srgb { "sRGB" } else { "Linear" }, 0.25);
    e.as_mut_slice_f32().copy_from_slice(&v);
    e.convert_into_data_type(t);
    let mut x = StreamDataImpl::new();
    x.set_pixel_block(std::rc::Rc::new(e));
    let x = StreamDataImplRc::from_data(x);
    let y = &log()[0].stream;
    check(y.pixel_data_type() == t, 3);
    let (p, q) = (x.pixel_buffer(), y.pixel_buffer());
    check(p.len() == q.len() && q.len() == 6 * size(t), 10);
    let mut ok = true;
    let mut k = 0;
    while k < p.len() { ok &= p[k] == q[k]; k += 1; }
    check(ok, 11);
    check(out(&g).pixel_data_type() == a, 12);
    if b == 4 { cover(1); } else { cover(2); }
}
/// compression settings reach the image library
#[no_mangle]
pub extern "C" fn vp_w01_compress() {
    install(&Img::fixed(0.25, [0, 0, 1, 1], [0, 0, 1, 1], 3), &any_spec(10, "Linear"), DataType::Float32);
    arm();
    let mut g = graph(NodeType::WriteImage, 0.25);
    let mut cache = create_cache_box_with_capacity(0);
    g.set_node_attr_str(3, "file_path", PATHS[pick(1, 3)].0);
    let set = pick(2, 2) == 1;
    let (x, l, p, j, q, m) = if set { (range_i32(3, 0, 10), any_i32(4), any_i32(5), any_i32(6), range_i32(7, 0, 4), any_i32(8)) } else { (0, 45, 6, 90, 0, 0) };
    if set {
        g.set_node_attr_i32(3, "exr_compression", x);
        g.set_node_attr_i32(3, "exr_dwa_compression_level", l);
        g.set_node_attr_i32(3, "png_compression_level", p);
        g.set_node_attr_i32(3, "jpeg_compression_level", j);
        g.set_node_attr_i32(3, "jpeg_subsampling", q);
        g.set_node_attr_i32(3, "jpeg_progressive", m);
    }
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(log().len() == 1, 2);
    let c = &log()[0].c;
    check(c.exr_compression.repr as i32 == x, 10);
    check(c.exr_dwa_compression_level == l, 11);
    check(c.png_compression_level == p, 12);
    check(c.jpeg_compression_level == j, 13);
    check(c.jpeg_subsampling.repr as i32 == q, 14);
    check(c.jpeg_progressive == (m != 0), 15);
    if !set { cover(1); } else if m != 0 { cover(2); } else { cover(3); }
}
/// nothing is written
#[no_mangle]
pub extern "C" fn vp_w01_off() {
    let i = Img::any(2, [0, 0, 2, 1], [0, 0, 2, 2], 4);
    let sp = any_spec(10, "sRGB");
    install(&i, &sp, DataType::Float32);
    arm();
    let off = pos_f32(6, 0.0, 1.0);
    let mut g = graph(NodeType::WriteImage, off);
    let mut cache = create_cache_box_with_capacity(0);
    let (e, x, connected) = (any_i32(3), any_i32(4), any_u8(5) & 1 == 1);
    g.set_node_attr_str(3, "file_path", "/o.exr");
    g.set_node_attr_i32(3, "enable", e);
    g.set_node_attr_i32(3, "execute", x);
    if !connected { g.disconnect_input(3, 0); }
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let a = out(&g);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    let b = out(&g);
    check(log().len() == if e != 0 && x != 0 && connected { 1 } else { 0 }, 3);
    if e != 0 && connected { same_stream(&a, &b, 10); check_spec(&b, &sp, "sRGB", 21); }
    check(g.node_status(3) == if e != 0 && !connected { NodeStatus::Warning } else { NodeStatus::Valid }, 30);
    if e == 0 { cover(1); } else if !connected { cover(2); } else if x == 0 { cover(3); } else { cover(4); }
}
static mut BASE: f32 = 0.0;
/// frame n shows n + BASE
fn read_frame(p: &String, i: &mut ImageShared) -> bool {
    let b = p.as_bytes();
    let mut n = 0.0;
    for c in b.iter() { if *c >= b'0' && *c <= b'9' { n = n * 10.0 + (*c - b'0') as f32; } }
    i.pixel_block.data_resize(BlockSize::new(1, 1, 3), DataType::Float32);
    for v in i.pixel_block.as_mut_slice_f32().iter_mut() { *v = n + unsafe { BASE }; }
    i.data_window = win([0, 0, 1, 1]);
    i.display_window = win([0, 0, 1, 1]);
    true
}
/// every frame is written once, in order, with its own image
#[no_mangle]
pub extern "C" fn vp_w01_frames() {
    install(&Img::fixed(0.25, [0, 0, 1, 1], [0, 0, 1, 1], 3), &any_spec(10, "Linear"), DataType::Float32);
    arm();
    unsafe { BASE = pos_f32(1, 0.0, 1.0); stubs::READ = Some(read_frame); }
    let n = pick(2, 4);
    let mut f = Vec::new();
    let mut k = 0;
    while k < n { f.push([1.0, 2.0, 12.0][pick(3, 3)]); k += 1; }
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(if pick(4, 2) == 0 { 0 } else { 1 << 20 });
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.add_node(create_node_box_with_id(NodeType::WriteImage, 2));
    g.set_node_attr_str(1, "file_path", "/in.#");
    g.set_node_attr_str(2, "file_path", "/out.##.exr");
    g.connect(1, 2, 0);
    let st = g.execute(2, &f, &mut cache);
    check(log().len() == n, 1);
    if n == 0 { cover(1); return; }
    check(st == ExecuteStatus::Success, 2);
    k = 0;
    while k < n {
        let w = &log()[k];
        check(w.path == if f[k] == 1.0 { "/out.01.exr" } else if f[k] == 2.0 { "/out.02.exr" } else { "/out.12.exr" }, 3);
        let v = f[k] as f32 + unsafe { BASE };
        expect(&w.stream, &Img { dw: [0, 0, 1, 1], disp: [0, 0, 1, 1], ch: 3, px: vec![v; 3] }, 10);
        k += 1;
    }
    cover(2);
}
/// deformations and corrections are written as a viewer shows them
#[no_mangle]
pub extern "C" fn vp_w01_deform() {
    let i = Img::any(2, [0, 0, 2, 2], [0, 0, 2, 2], 3);
    let s = SPACES[pick(3, 3)];
    let sp = any_spec(10, s);
    install(&i, &sp, DataType::Float32);
    arm();
    let off = pos_f32(6, 0.0, 1.0);
    let mut cache = create_cache_box_with_capacity(0);
    let mut g = graph(NodeType::Transform, off);
    g.set_node_attr_f32(3, "translate_x", [0.0, 1.0, -1.0][pick(4, 3)]);
    g.set_node_attr_f32(3, "translate_y", [0.0, 1.0][pick(5, 2)]);
    g.add_node(create_node_box_with_id(NodeType::WriteImage, 4));
    g.add_node(create_node_box_with_id(NodeType::Viewer, 5));
    g.connect(3, 4, 0);
    g.connect(3, 5, 0);
    let (path, srgb, _) = PATHS[pick(7, 2)];
    g.set_node_attr_str(4, "file_path", path);
    g.set_node_attr_i32(5, "bake_option", 3);
    g.set_node_attr_i32(5, "bake_pixel_data_type", 255);
    g.set_node_attr_str(5, "bake_color_space", if srgb { "sRGB" } else { "Linear" });
    check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(log().len() == 1, 2);
    check(out(&g).deformers_len() == 1 && out(&g).color_ops_len() == 1, 3);
    check(g.execute(5, &[1.0], &mut cache) == ExecuteStatus::Success, 4);
    same_stream(&log()[0].stream, &out(&g), 10);
    if srgb { cover(1); } else { cover(2); }
}
/// two write nodes: both write, the second what the first did
#[no_mangle]
pub extern "C" fn vp_w01_chain() {
    let i = Img::any(2, [0, 0, 2, 1], [0, 0, 1, 1], 3);
    let s = SPACES[pick(3, 3)];
    let sp = any_spec(10, s);
    install(&i, &sp, DataType::Float32);
    arm();
    let off = pos_f32(6, 0.0, 1.0);
    let mut cache = create_cache_box_with_capacity(0);
    let mut g = graph(NodeType::WriteImage, off);
    g.add_node(create_node_box_with_id(NodeType::WriteImage, 4));
    g.connect(3, 4, 0);
    let (p, q) = (PATHS[pick(4, 3)], PATHS[pick(5, 3)]);
    g.set_node_attr_str(3, "file_path", p.0);
    g.set_node_attr_str(4, "file_path", q.0);
    check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(log().len() == 2, 2);
    let mut k = 0;
    for (path, srgb, auto) in [p, q].iter() {
        let w = &log()[k];
        check(w.path == *path, 3);
        let d = if *srgb { "sRGB" } else { "Linear" };
        let mut e = Img { px: baked(&i.px, 3, 3, s, d, off), ..i.clone() };
        if *auto { e = crop(&e); }
        expect(&w.stream, &e, 10);
        k += 1;
    }
    if p.0 == q.0 { cover(1); } else { cover(2); }
}

/// the end of the file name decides, whatever comes before
#[no_mangle]
pub extern "C" fn vp_w01_name() {
    let i = Img::fixed(0.25, [0, 0, 2, 1], [0, 0, 1, 1], 3);
    let sp = any_spec(10, "b");
    install(&i, &sp, DataType::Float32);
    arm();
    let mut n: Vec<u8> = b"/o".to_vec();
    let mut k = 0;
    while k < if THOROUGH { 10 } else { 8 } {
        let c = any_u8(1);
        assume(c != 0 && c < 128 && c != b'#' && c != b'$' && c != b'~' && !(c >= b'A' && c <= b'Z'));
        n.push(c);
        k += 1;
    }
    let l = n.len();
    let tail = |t: &[u8]| { let mut ok = true; let mut j = 0; while j < t.len() { ok &= n[l - t.len() + j] == t[j]; j += 1; } ok };
    let srgb = tail(b".png") | tail(b".jpg") | tail(b".jpeg") | tail(b".jpe") | tail(b".jif") | tail(b".jfif") | tail(b".jfi");
    let exr = tail(b".exr");
    let path = unsafe { String::from_utf8_unchecked(n.clone()) };
    let mut g = graph(NodeType::WriteImage, 0.25);
    let mut cache = create_cache_box_with_capacity(0);
    g.set_node_attr_str(3, "file_path", &path);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(log().len() == 1, 2);
    let w = &log()[0];
    let to = w.spec.color_space();
    check((to == "sRGB") == srgb && (to == "Linear") == !srgb, 3);
    check(w.stream.data_window() == win([0, 0, if exr { 2 } else { 1 }, 1]), 4);
    if srgb { cover(1); } else { cover(2); }
    if exr { cover(3); } else { cover(4); }
    if exr && n[2] == b'.' && n[3] == b'j' && n[4] == b'f' && n[5] == b'i' { cover(5); }
}
