//@ entry vp_i01_a covers=1,2,3 time=300
//@ entry vp_i01_b covers=1,2,3 time=300
//@ entry vp_i01_c covers=1,2,3 time=300
//@ entry vp_i01_d covers=1,2,3 time=300
//@ entry vp_i01_chain covers=1 time=300
//@ entry vp_i01_format covers=1 time=300
//@ entry vp_i01_write covers=1 time=300
//@ entry vp_i01_far covers=1,2,3 time=300
//@ bound a strip of 300 pixels at far places (up to 100000 from the origin), cropped inside, across its ends and far away
//@ bound crop windows with corner -2..=2 and size -1..=3 (thorough: -3..=3, -1..=4) in both directions against 2x2 and 3x1 images at three places; reformat and black_outside any integer; 1, 3 and 4 channels; pixel values symbolic
//@ bound cropping to the display window by a viewer and by a write node: every pixel data type, display windows inside, beside, around and across the data window
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;

/// what the crop node must output
fn crop(i: &Img, w: W, reformat: bool, black: bool) -> Img {
    let w = [w[0], w[1], w[2].max(w[0]), w[3].max(w[1])];
    let dw = if black { [w[0] - 1, w[1] - 1, w[2] + 1, w[3] + 1] } else { w };
    let mut px = Vec::new();
    let mut y = dw[1];
    while y < dw[3] {
        let mut x = dw[0];
        while x < dw[2] {
            let inside = x >= w[0] && x < w[2] && y >= w[1] && y < w[3];
            let mut c = 0;
            while c < i.ch { px.push(if inside { i.at(x, y, c) } else { 0.0 }); c += 1; }
            x += 1;
        }
        y += 1;
    }
    Img { dw, disp: if reformat { w } else { i.disp }, ch: i.ch, px }
}
fn set_crop(g: &mut GraphImpl, n: u64, w: W, reformat: i32, black: i32) {
    g.set_node_attr_i32(n, "window_min_x", w[0]);
    g.set_node_attr_i32(n, "window_min_y", w[1]);
    g.set_node_attr_i32(n, "window_max_x", w[2]);
    g.set_node_attr_i32(n, "window_max_y", w[3]);
    g.set_node_attr_i32(n, "reformat", reformat);
    g.set_node_attr_i32(n, "black_outside", black);
}
fn one(i: Img) {
    setup();
    let (lo, n, m) = if THOROUGH { (-3, 7, 6) } else { (-2, 5, 5) };
    let (x, y) = (lo + pick(1, n) as i32, lo + pick(2, n) as i32);
    let (w, h) = (pick(3, m) as i32 - 1, pick(4, m) as i32 - 1);
    let win = [x, y, x + w, y + h];
    let (re, bo) = (any_i32(5), any_i32(6));
    let e = crop(&i, win, re == 1, bo == 1);
    add_file(b'1', i);
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.add_node(create_node_box_with_id(NodeType::CropImage, 2));
    g.set_node_attr_str(1, "file_path", "/1");
    g.set_node_attr_i32(2, "intersect", any_i32(7));
    set_crop(&mut g, 2, win, re, bo);
    g.connect(1, 2, 0);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(g.node_status(2) == NodeStatus::Valid, 2);
    expect(&out(&g), &e, 10);
    cover(1);
    if w > 0 && h > 0 { cover(2); }
    if w < 0 { cover(3); }
}
#[no_mangle] pub extern "C" fn vp_i01_a() { one(Img::any(101, [0, 0, 2, 2], [0, 0, 2, 2], 3)) }
#[no_mangle] pub extern "C" fn vp_i01_b() { one(Img::any(102, [-1, 1, 2, 2], [0, 0, 4, 3], 4)) }
#[no_mangle] pub extern "C" fn vp_i01_c() { one(Img::any(103, [0, -1, 2, 1], [-1, -1, 1, 1], 4)) }
#[no_mangle] pub extern "C" fn vp_i01_d() { one(Img::any(104, [1, -2, 2, 1], [0, 0, 1, 1], 3)) }

/// a crop of a crop
#[no_mangle]
pub extern "C" fn vp_i01_chain() {
    setup();
    let i = Img::any(105, [0, 0, 2, 2], [0, 0, 3, 3], 3);
    add_file(b'1', i.clone());
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.add_node(create_node_box_with_id(NodeType::CropImage, 2));
    g.add_node(create_node_box_with_id(NodeType::CropImage, 3));
    g.set_node_attr_str(1, "file_path", "/1");
    let x = pick(1, 3) as i32 - 1;
    let a = [x, 0, x + pick(2, 3) as i32, 2];
    let (ra, ba) = (range_i32(3, 0, 1), range_i32(4, 0, 1));
    let y = pick(5, 3) as i32 - 1;
    let b = [-1, y, 2, y + pick(6, 3) as i32];
    let (rb, bb) = (range_i32(7, 0, 1), range_i32(8, 0, 1));
    set_crop(&mut g, 2, a, ra, ba);
    set_crop(&mut g, 3, b, rb, bb);
    g.connect(1, 2, 0);
    g.connect(2, 3, 0);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let e = crop(&crop(&i, a, ra == 1, ba == 1), b, rb == 1, bb == 1);
    expect(&out(&g), &e, 10);
    cover(1);
}

/// pixels of any data type, as bit patterns
struct Any { dw: W, disp: W, ch: i32, ty: DataType, px: Vec<u32> }
fn bits(b: &crate::pixelblock::pixelblock::PixelBlock) -> Vec<u32> {
    let mut v = Vec::new();
    match b.data_type() {
        DataType::Float32 => for x in b.as_slice_f32() { v.push(x.to_bits()); },
        DataType::Half16 => for x in b.as_slice_f16_fake() { v.push(*x as u32); },
        DataType::UInt16 => for x in b.as_slice_u16() { v.push(*x as u32); },
        _ => for x in b.as_slice_u8() { v.push(*x as u32); },
    }
    v
}
fn snap(s: &StreamDataImplRc) -> Any {
    Any { dw: arr(s.data_window()), disp: arr(s.display_window()), ch: s.pixel_num_channels(), ty: s.pixel_data_type(), px: bits(&s.inner().pixel_block()) }
}
/// `b` is `a` cropped to a's display window
fn cropped(a: &Any, b: &Any, id: u32) {
    check(b.dw == a.disp && b.disp == a.disp, id);
    check(b.ty == a.ty && b.ch == a.ch, id + 1);
    let (aw, bw, bh) = (a.dw[2] - a.dw[0], b.dw[2] - b.dw[0], b.dw[3] - b.dw[1]);
    check(b.px.len() == (bw * bh * b.ch) as usize, id + 2);
    let mut ok = true;
    let mut y = b.dw[1];
    let mut i = 0;
    while y < b.dw[3] {
        let mut x = b.dw[0];
        while x < b.dw[2] {
            let inside = x >= a.dw[0] && x < a.dw[2] && y >= a.dw[1] && y < a.dw[3];
            let mut c = 0;
            while c < b.ch {
                ok &= b.px[i] == if inside { a.px[(((y - a.dw[1]) * aw + x - a.dw[0]) * a.ch + c) as usize] } else { 0 };
                i += 1;
                c += 1;
            }
            x += 1;
        }
        y += 1;
    }
    check(ok, id + 3);
}
const DISPS: [W; 6] = [[0, 0, 2, 2], [1, 0, 2, 1], [-1, -1, 3, 3], [1, 1, 3, 4], [4, 4, 6, 5], [-1, 0, 1, 2]];
fn scene() -> (Box<GraphImpl>, i32) {
    let ch = if pick(1, 2) == 0 { 3 } else { 4 };
    add_file(b'1', Img::fixed(0.125, [0, 0, 2, 2], DISPS[pick(2, 6)], ch));
    let mut g = create_graph_box();
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.set_node_attr_str(1, "file_path", "/1");
    (g, pick(3, 4) as i32)
}
/// a viewer with crop_to_format outputs the display window
#[no_mangle]
pub extern "C" fn vp_i01_format() {
    dsetup();
    let (mut g, ty) = scene();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::Viewer, 2));
    g.connect(1, 2, 0);
    g.set_node_attr_i32(2, "bake_option", 3);
    g.set_node_attr_i32(2, "bake_pixel_data_type", ty);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let a = snap(&out(&g));
    let c = any_i32(4);
    g.set_node_attr_i32(2, "crop_to_format", c);
    g.set_node_attr_i32(2, "bake_option", 1 + pick(5, 3) as i32);
    assume(c != 0);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    let b = snap(&out(&g));
    cropped(&a, &b, 10);
    cover(1);
}
static mut WROTE: Option<Any> = None;
fn write(_p: &String, i: &ImageShared, _c: &ImageCompression) -> bool {
    unsafe { WROTE = Some(Any { dw: arr(i.data_window), disp: arr(i.display_window), ch: i.pixel_block.num_channels(), ty: i.pixel_block.data_type(), px: bits(&i.pixel_block) }); }
    true
}
fn written() -> Any { unsafe { (*std::ptr::addr_of_mut!(WROTE)).take().unwrap() } }
/// a write node crops what it writes to the display window when it has to
#[no_mangle]
pub extern "C" fn vp_i01_write() {
    dsetup();
    unsafe { stubs::WRITE = Some(write); }
    let (mut g, ty) = scene();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::WriteImage, 2));
    g.connect(1, 2, 0);
    g.set_node_attr_str(2, "file_path", "/o.tif");
    g.set_node_attr_i32(2, "pixel_data_type", ty);
    g.set_node_attr_i32(2, "crop_on_write", 0);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let a = written();
    g.set_node_attr_i32(2, "crop_on_write", 1 + pick(4, 2) as i32);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    let b = written();
    cropped(&a, &b, 10);
    cover(1);
}
/// long strips, far away
#[no_mangle]
pub extern "C" fn vp_i01_far() {
    setup();
    let (ox, oy) = [(0, 0), (100000, -40000), (-33000, 70000)][pick(1, 3)];
    let tall = pick(2, 2) == 1;
    let (w, h) = if tall { (1, 300) } else { (300, 1) };
    let i = Img::fixed(0.5, [ox, oy, ox + w, oy + h], [0, 0, 5, 5], 3);
    let k = pick(3, 4);
    let (a, b) = [(250, 270), (-3, 2), (298, 302), (-90000, -89998)][k];
    let c = if tall { [ox, oy + a, ox + 2, oy + b] } else { [ox + a, oy, ox + b, oy + 2] };
    let (re, bo) = (range_i32(5, 0, 1), range_i32(6, 0, 1));
    let e = crop(&i, c, re == 1, bo == 1);
    add_file(b'1', i);
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.add_node(create_node_box_with_id(NodeType::CropImage, 2));
    g.set_node_attr_str(1, "file_path", "/1");
    set_crop(&mut g, 2, c, re, bo);
    g.connect(1, 2, 0);
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    expect(&out(&g), &e, 10);
    match k { 0 => cover(1), 3 => cover(2), _ => cover(3) }
}
