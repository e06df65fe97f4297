//@ entry vp_r01_image covers=1,2,3,4 time=300
//@ entry vp_r01_missing covers=1,2,3,4 time=300
//@ entry vp_r01_cache covers=1,2,3 time=300
//@ entry vp_r01_two covers=1,2 time=300
//@ entry vp_r01_seq covers=1,2 time=300
//@ entry vp_r01_strip covers=1,2 time=300
//@ bound strips of 300 pixels in every pixel data type
//@ bound images of up to 3x2 pixels of 1 to 4 channels in every pixel data type, symbolic bytes, any data and display window position (symbolic, 16-bit), symbolic specification; two read nodes; two executions; any enable and use_cache value; files that are absent, directories or images
//@ assume the image library (C++) and the file system are stand-ins given by the harness
use super::csup::*;
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::pixelblock::pixelblock::PixelBlock;
use crate::stream::*;

static mut SRC: Option<(PixelBlock, W, W, Spec)> = None;
static mut LOG: Vec<(String, i32)> = Vec::new();
static mut KIND: u8 = 1;
fn log() -> &'static mut Vec<(String, i32)> { unsafe { &mut *std::ptr::addr_of_mut!(LOG) } }
fn read(p: &String, image: &mut ImageShared) -> bool {
    unsafe {
        log().push((p.clone(), stubs::THREADS));
        let (b, dw, disp, s) = (*std::ptr::addr_of!(SRC)).as_ref().unwrap();
        *image.pixel_block = b.clone();
        image.data_window = win(*dw);
        image.display_window = win(*disp);
        image.spec.color_space = s.space.to_string();
        image.spec.gamma = s.gamma;
        image.spec.pixel_aspect = s.aspect;
        image.spec.orientation = ImageOrientation { repr: s.orient };
        image.spec.unassociated_alpha = s.unassoc;
        image.spec.dither = s.dither;
    }
    true
}
fn kind(_p: &[u8]) -> u8 { unsafe { KIND } }
fn arm(b: PixelBlock, dw: W, disp: W, s: Spec) { unsafe { SRC = Some((b, dw, disp, s)); LOG = Vec::new(); KIND = 1; stubs::READ = Some(read); stubs::FILE_KIND = Some(kind); stubs::THREADS = 7; } }
/// arbitrary pixel bytes
fn any_block(t: u32, w: i32, h: i32, c: i32, ty: DataType) -> (PixelBlock, Vec<u8>) {
    let mut b = PixelBlock::new(BlockSize::new(w, h, c), ty);
    let mut v = Vec::new();
    let mut k = 0;
    while k < (w * h * c) as usize {
        match ty {
            DataType::Float32 => { let x = any_u32(t); b.as_mut_slice_f32()[k] = f32::from_bits(x); for y in x.to_le_bytes().iter() { v.push(*y); } }
            DataType::UInt8 => { let x = any_u8(t); b.as_mut_slice_u8()[k] = x; v.push(x); }
            DataType::UInt16 => { let x = any_u16(t); b.as_mut_slice_u16()[k] = x; for y in x.to_le_bytes().iter() { v.push(*y); } }
            _ => { let x = any_u16(t); b.as_mut_slice_f16()[k] = half::f16::from_bits(x); for y in x.to_le_bytes().iter() { v.push(*y); } }
        }
        k += 1;
    }
    (b, v)
}
fn shows(o: &StreamDataImplRc, w: i32, h: i32, c: i32, ty: DataType, bytes: &[u8], id: u32) {
    check(o.pixel_width() == w && o.pixel_height() == h && o.pixel_num_channels() == c && o.pixel_data_type() == ty, id);
    let p = o.pixel_buffer();
    check(p.len() == bytes.len(), id + 1);
    let mut ok = true;
    let mut k = 0;
    while k < p.len() { ok &= p[k] == bytes[k]; k += 1; }
    check(ok, id + 2);
    check(o.color_ops_len() == 0 && o.deformers_len() == 0 && same_matrix(&o.color_matrix(), &Matrix4::identity()), id + 3);
}
fn node(g: &mut GraphImpl, id: u64, path: &str) { g.add_node(create_node_box_with_id(NodeType::ReadImage, id)); g.set_node_attr_str(id, "file_path", path); }
fn any_win(t: u32) -> W { let (x, y) = (range_i32(t, -32768, 32767), range_i32(t + 1, -32768, 32767)); [x, y, x + 3, y + 2] }
/// the output is the file's image
#[no_mangle]
pub extern "C" fn vp_r01_image() {
    let ty = TYPES[pick(1, 4)];
    let (w, h, c) = ([1, 3][pick(2, 2)], [1, 2][pick(3, 2)], 1 + pick(4, 4) as i32);
    let (b, bytes) = any_block(5, w, h, c, ty);
    let (mut dw, disp) = (any_win(20), any_win(22));
    dw[2] = dw[0] + w;
    dw[3] = dw[1] + h;
    let s = any_spec(10, SPACES[pick(6, 2)]);
    arm(b, dw, disp, s.clone());
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(7, 2)]);
    node(&mut g, 1, "/a.exr");
    let (e, u) = (any_i32(8), any_i32(9));
    assume(e != 0);
    g.set_node_attr_i32(1, "enable", e);
    g.set_node_attr_i32(1, "use_cache", u);
    check(g.execute(1, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(g.node_status(1) == NodeStatus::Valid, 2);
    let o = out(&g);
    shows(&o, w, h, c, ty, &bytes, 10);
    check(arr(o.data_window()) == dw && arr(o.display_window()) == disp, 20);
    check_spec(&o, &s, s.space, 21);
    check(log().len() == 1 && log()[0].0 == "/a.exr", 30);
    check(unsafe { stubs::THREADS } == 7, 31);
    match ty { DataType::Float32 => cover(1), DataType::Half16 => cover(2), DataType::UInt8 => cover(3), _ => cover(4) }
}
/// no image file: the default image and a warning, whatever was shown before
#[no_mangle]
pub extern "C" fn vp_r01_missing() {
    let (b, bytes) = any_block(5, 2, 1, 3, DataType::Float32);
    let s = any_spec(10, "sRGB");
    arm(b, [0, 0, 2, 1], [0, 0, 2, 2], s.clone());
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(7, 2)]);
    node(&mut g, 1, "/a.exr");
    g.set_node_attr_i32(1, "use_cache", any_i32(9));
    let before = pick(1, 2) == 1;
    if before { check(g.execute(1, &[1.0], &mut cache) == ExecuteStatus::Success, 1); }
    let n = log().len();
    let why = pick(2, 3);
    match why { 0 => g.set_node_attr_i32(1, "enable", 0), 1 => unsafe { KIND = 0; }, _ => unsafe { KIND = 2; } }
    if pick(3, 2) == 1 { g.set_node_attr_str(1, "file_path", "/b.exr"); }
    check(g.execute(1, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    check(g.node_status(1) == NodeStatus::Warning, 3);
    expect(&out(&g), &Img::bars(), 10);
    check(out(&g).color_ops_len() == 0 && out(&g).deformers_len() == 0, 15);
    check(log().len() == n, 16);
    // and back
    unsafe { KIND = 1; }
    g.set_node_attr_i32(1, "enable", 1);
    g.set_node_attr_str(1, "file_path", "/a.exr");
    check(g.execute(1, &[1.0], &mut cache) == ExecuteStatus::Success, 20);
    check(g.node_status(1) == NodeStatus::Valid, 21);
    shows(&out(&g), 2, 1, 3, DataType::Float32, &bytes, 30);
    if before { cover(4); }
    match why { 0 => cover(1), 1 => cover(2), _ => cover(3) }
}
/// a cached file is read once; without the cache it is read every time
#[no_mangle]
pub extern "C" fn vp_r01_cache() {
    let (b, bytes) = any_block(5, 2, 1, 3, DataType::Float32);
    let s = any_spec(10, "sRGB");
    arm(b, [0, 0, 2, 1], [0, 0, 2, 2], s.clone());
    let mut g = create_graph_box();
    let cap = pick(7, 2);
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][cap]);
    node(&mut g, 1, "/a.exr");
    let u = any_i32(9);
    g.set_node_attr_i32(1, "use_cache", u);
    let mut k = 0;
    while k < 2 { check(g.execute(1, &[1.0 + k as f64], &mut cache) == ExecuteStatus::Success, 1); shows(&out(&g), 2, 1, 3, DataType::Float32, &bytes, 10); check_spec(&out(&g), &s, "sRGB", 21); k += 1; }
    let hit = u != 0 && cap == 1;
    check(log().len() == if hit { 1 } else { 2 }, 30);
    // another node with the same file
    node(&mut g, 2, "/a.exr");
    g.set_node_attr_i32(2, "use_cache", u);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 31);
    shows(&out(&g), 2, 1, 3, DataType::Float32, &bytes, 40);
    if hit { cover(1); } else if cap == 0 { cover(2); } else { cover(3); }
}
/// two files
static mut TWO: [f32; 2] = [0.0; 2];
fn read_two(p: &String, i: &mut ImageShared) -> bool {
    i.pixel_block.data_resize(BlockSize::new(1, 1, 3), DataType::Float32);
    let k = if p.as_bytes()[1] == b'a' { 0 } else { 1 };
    for v in i.pixel_block.as_mut_slice_f32().iter_mut() { *v = unsafe { TWO[k] }; }
    i.data_window = win([k as i32, 0, 1 + k as i32, 1]);
    i.display_window = win([0, k as i32, 1, 1]);
    true
}
fn image_two(k: usize) -> Img { let i = k as i32; Img { dw: [i, 0, 1 + i, 1], disp: [0, i, 1, 1], ch: 3, px: vec![unsafe { TWO[k] }; 3] } }
#[no_mangle]
pub extern "C" fn vp_r01_two() {
    let (b, _) = any_block(5, 1, 1, 3, DataType::UInt8);
    arm(b, [0, 0, 1, 1], [0, 0, 1, 1], any_spec(10, "Linear"));
    unsafe { TWO = [pos_f32(1, 0.0, 1.0), pos_f32(2, 0.0, 1.0)]; stubs::READ = Some(read_two); }
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity([0, 12, 1 << 20][pick(7, 3)]);
    let p = ["/a", "/b"];
    let (x, y) = (pick(3, 2), pick(4, 2));
    node(&mut g, 1, p[x]);
    node(&mut g, 2, p[y]);
    let mut now = [x, y];
    let mut k = 0;
    while k < 3 {
        let n = pick(5, 2);
        if pick(6, 2) == 1 { now[n] = 1 - now[n]; g.set_node_attr_str(1 + n as u64, "file_path", p[now[n]]); }
        check(g.execute(1 + n as u64, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
        expect(&out(&g), &image_two(now[n]), 10);
        k += 1;
    }
    if now[0] == now[1] { cover(1); } else { cover(2); }
}
/// one file per frame
fn read_seq(p: &String, i: &mut ImageShared) -> bool {
    let b = p.as_bytes();
    i.pixel_block.data_resize(BlockSize::new(1, 1, 3), DataType::Float32);
    for v in i.pixel_block.as_mut_slice_f32().iter_mut() { *v = unsafe { TWO[(b[b.len() - 1] & 1) as usize] }; }
    i.data_window = win([0, 0, 1, 1]);
    i.display_window = win([0, 0, 1, 1]);
    true
}
fn kind_seq(p: &[u8]) -> u8 { if p[p.len() - 1] > b'2' { 0 } else { 1 } }
#[no_mangle]
pub extern "C" fn vp_r01_seq() {
    let (b, _) = any_block(5, 1, 1, 3, DataType::UInt8);
    arm(b, [0, 0, 1, 1], [0, 0, 1, 1], any_spec(10, "Linear"));
    unsafe { TWO = [pos_f32(1, 0.0, 1.0), pos_f32(2, 0.0, 1.0)]; stubs::READ = Some(read_seq); stubs::FILE_KIND = Some(kind_seq); }
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity([0, 12, 1 << 20][pick(7, 3)]);
    node(&mut g, 1, "/a.#");
    g.set_node_attr_i32(1, "use_cache", any_i32(9));
    let mut k = 0;
    while k < if THOROUGH { 3 } else { 2 } {
        let f = pick(3, 4);
        let n = 1 + pick(4, 2);
        let frames = [9.0, f as f64];
        check(g.execute(1, &frames[2 - n..], &mut cache) == ExecuteStatus::Success, 1);
        if f == 3 { expect(&out(&g), &Img::bars(), 20); check(g.node_status(1) == NodeStatus::Warning, 30); cover(1); }
        else {
            expect(&out(&g), &Img { dw: [0, 0, 1, 1], disp: [0, 0, 1, 1], ch: 3, px: vec![unsafe { TWO[f & 1] }; 3] }, 10);
            check(g.node_status(1) == NodeStatus::Valid, 31);
            cover(2);
        }
        k += 1;
    }
}
/// long strips
#[no_mangle]
pub extern "C" fn vp_r01_strip() {
    let ty = TYPES[pick(1, 4)];
    let tall = pick(2, 2) == 1;
    let (w, h) = if tall { (1, 300) } else { (300, 1) };
    let (b, bytes) = any_block(5, w, h, 3, ty);
    let s = any_spec(10, "sRGB");
    arm(b, [70000, -70000, 70000 + w, h - 70000], [0, 0, 4096, 2160], s.clone());
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(1 << 20);
    node(&mut g, 1, "/a.exr");
    let mut k = 0;
    while k < 2 {
        check(g.execute(1, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
        let o = out(&g);
        shows(&o, w, h, 3, ty, &bytes, 10);
        check(arr(o.data_window()) == [70000, -70000, 70000 + w, h - 70000] && arr(o.display_window()) == [0, 0, 4096, 2160], 20);
        k += 1;
    }
    if tall { cover(1); } else { cover(2); }
}
