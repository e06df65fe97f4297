//@ entry vp_f01_bake covers=1,2,3,4 time=300
//@ entry vp_f01_types covers=1,2,3 time=300
//@ entry vp_f01_pass covers=1,2 time=300
//@ entry vp_f01_attrs covers=1,2,3 time=300
//@ entry vp_f01_buffer covers=1,2 time=300
//@ entry vp_f01_format covers=1 time=300
//@ entry vp_f01_refused covers=1,2 time=300
//@ entry vp_f01_strip covers=1,2 time=300
//@ bound strips of 300 pixels with fixed values
//@ bound images of up to 2x2 pixels, 3 and 4 channels, symbolic pixels, symbolic gamma, aspect, dither, orientation and alpha flags; four colour spaces for the image and the bake; every bake option and pixel data type; a pending grade with symbolic offsets
//@ assume colour conversion (C++) is the stand-in given by the harness: scaling per colour space; powf is a function of its arguments (uninterpreted)
use super::csup::*;
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::pixelblock::pixelblock::PixelBlock;
use crate::stream::*;

/// every option, every pair of colour spaces
#[no_mangle]
pub extern "C" fn vp_f01_bake() {
    let ch = 3 + pick(1, 2);
    let i = Img::any(2, [0, 1, 2, 2], [0, 0, 3, 2], ch);
    let (s, d) = (SPACES[pick(3, 4)], SPACES[pick(4, 4)]);
    let sp = any_spec(10, s);
    let opt = pick(5, 4) as i32;
    let off = pos_f32(6, 0.0, 1.0);
    install(&i, &sp, DataType::Float32);
    let mut g = graph(NodeType::Viewer, off);
    let mut cache = create_cache_box_with_capacity(0);
    g.set_node_attr_i32(3, "bake_option", opt);
    g.set_node_attr_i32(3, "bake_pixel_data_type", if pick(7, 2) == 0 { 0 } else { 255 });
    g.set_node_attr_str(3, "bake_color_space", d);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    check(g.node_status(3) == NodeStatus::Valid, 2);
    let o = out(&g);
    let r = stream_img(&o);
    check(r.dw == i.dw && r.disp == i.disp && r.ch == ch, 3);
    same_px(&r.px, &baked(&i.px, ch, opt, s, d, off), 10);
    check(o.color_ops_len() == if opt < 2 { 1 } else { 0 }, 11);
    check_spec(&o, &sp, if opt == 0 { s } else { d }, 12);
    // the pending corrections still act
    let mut p = [0.25f32, 0.5, 0.75, 0.5];
    let q = p;
    o.apply_color_ops(&mut p, 4);
    let mut c = 0;
    while c < 4 { check(same(p[c], if opt < 2 { graded(q[c], c, off) } else { q[c] }), 16); c += 1; }
    // the colour conversions saw the whole image
    for (from, to, n, u) in calls().iter() {
        check(n[0] == 2 && n[1] == 1 && n[2] == ch as i32 && n[3] == if ch == 4 { 3 } else { -1 } && *u == sp.unassoc, 17);
    }
    match opt { 0 => cover(1), 1 => cover(2), 2 => cover(3), _ => cover(4) }
}
/// pixel data types in and out
#[no_mangle]
pub extern "C" fn vp_f01_types() {
    let i = Img { dw: [0, 0, 2, 1], disp: [0, 0, 2, 1], ch: 3, px: vec![0.0, 0.25, 0.5, 1.0, 0.125, 0.3] };
    let (a, b) = (TYPES[pick(1, 4)], pick(2, 5));
    let (s, d) = (SPACES[pick(3, 2)], SPACES[pick(4, 2)]);
    let opt = pick(5, 4) as i32;
    let sp = any_spec(10, s);
    install(&i, &sp, a);
    let mut g = graph(NodeType::Viewer, 0.25);
    let mut cache = create_cache_box_with_capacity(0);
    g.set_node_attr_i32(3, "bake_option", opt);
    g.set_node_attr_i32(3, "bake_pixel_data_type", if b == 4 { 255 } else { TYPES[b].repr as i32 });
    g.set_node_attr_str(3, "bake_color_space", d);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let o = out(&g);
    let t = if opt == 0 || b == 4 { a } else { TYPES[b] };
    check(o.pixel_data_type() == t, 2);
    // the same through the pixel block itself
    let mut e = to_block(&i);
    e.convert_into_data_type(a);
    if opt > 0 {
        e.convert_into_data_type(DataType::Float32);
        let v = baked(e.as_slice_f32(), 3, opt, s, d, 0.25);
        e.as_mut_slice_f32().copy_from_slice(&v);
        e.convert_into_data_type(t);
    }
    let mut x = StreamDataImpl::new();
    x.set_pixel_block(std::rc::Rc::new(e));
    let (x, y) = (StreamDataImplRc::from_data(x), o);
    let (p, q) = (x.pixel_buffer(), y.pixel_buffer());
    check(p.len() == q.len() && q.len() == 6 * size(t), 10);
    let mut ok = true;
    let mut k = 0;
    while k < p.len() { ok &= p[k] == q[k]; k += 1; }
    check(ok, 11);
    if opt == 0 { cover(1); } else if b == 4 { cover(2); } else { cover(3); }
}
/// a disabled viewer passes its input on
#[no_mangle]
pub extern "C" fn vp_f01_pass() {
    let i = Img::any(2, [0, 0, 2, 1], [0, 0, 2, 2], 4);
    let sp = any_spec(10, "sRGB");
    install(&i, &sp, DataType::Float32);
    let off = pos_f32(6, 0.0, 1.0);
    let mut g = graph(NodeType::Viewer, off);
    let mut cache = create_cache_box_with_capacity(0);
    let (e, opt, crop) = (any_i32(3), range_i32(4, 0, 3), any_i32(5));
    assume(e != 1 || opt == 0);
    g.set_node_attr_i32(3, "enable", e);
    g.set_node_attr_i32(3, "bake_option", opt);
    g.set_node_attr_i32(3, "crop_to_format", crop);
    g.set_node_attr_str(3, "bake_color_space", "b");
    check(g.execute(2, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let a = out(&g);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
    let b = out(&g);
    same_stream(&a, &b, 10);
    check_spec(&b, &sp, "sRGB", 30);
    check(calls().len() == 0, 40);
    if e == 1 { cover(1); } else { cover(2); }
}
/// the defaults, and changing back
#[no_mangle]
pub extern "C" fn vp_f01_attrs() {
    let i = Img::any(2, [0, 0, 1, 2], [0, 0, 2, 2], 3);
    let s = SPACES[pick(1, 3)];
    let sp = any_spec(10, s);
    install(&i, &sp, DataType::Float32);
    let off = pos_f32(6, 0.0, 1.0);
    let mut g = graph(NodeType::Viewer, off);
    let mut cache = create_cache_box_with_capacity(1 << 20);
    g.set_node_attr_i32(3, "bake_pixel_data_type", 0);
    let mut k = 0;
    while k < 2 {
        let (opt, d) = (pick(3, 4) as i32, SPACES[pick(4, 3)]);
        g.set_node_attr_i32(3, "bake_option", opt);
        g.set_node_attr_str(3, "bake_color_space", d);
        check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
        let o = out(&g);
        same_px(&stream_img(&o).px, &baked(&i.px, 3, opt, s, d, off), 10);
        check_spec(&o, &sp, if opt == 0 { s } else { d }, 12);
        check(o.color_ops_len() == if opt < 2 { 1 } else { 0 }, 15);
        if opt == 0 { cover(1); } else if opt == 1 { cover(2); } else { cover(3); }
        k += 1;
    }
}
/// the pixel buffer is exactly the pixels, in the pixel data type
#[no_mangle]
pub extern "C" fn vp_f01_buffer() {
    let t = TYPES[pick(1, 4)];
    let (w, h, c) = (pick(2, 3) as i32, pick(3, 3) as i32, 1 + pick(4, 4) as i32);
    let mut b = PixelBlock::new(BlockSize::new(w, h, c), t);
    let n = (w * h * c) as usize;
    let mut want: Vec<u8> = Vec::new();
    let mut k = 0;
    while k < n {
        match t {
            DataType::Float32 => { let v = any_u32(5); b.as_mut_slice_f32()[k] = f32::from_bits(v); for x in v.to_le_bytes().iter() { want.push(*x); } }
            DataType::UInt8 => { let v = any_u8(5); b.as_mut_slice_u8()[k] = v; want.push(v); }
            DataType::UInt16 => { let v = any_u16(5); b.as_mut_slice_u16()[k] = v; for x in v.to_le_bytes().iter() { want.push(*x); } }
            _ => { let v = any_u16(5); b.as_mut_slice_f16()[k] = half::f16::from_bits(v); for x in v.to_le_bytes().iter() { want.push(*x); } }
        }
        k += 1;
    }
    let mut s = StreamDataImpl::new();
    s.set_pixel_block(std::rc::Rc::new(b));
    let r = StreamDataImplRc::from_data(s);
    let p = r.pixel_buffer();
    check(p.len() == want.len(), 1);
    check(r.size_bytes() == want.len(), 2);
    check(r.pixel_width() == w && r.pixel_height() == h && r.pixel_num_channels() == c && r.pixel_data_type() == t, 3);
    let mut ok = true;
    let mut k = 0;
    while k < p.len() { ok &= p[k] == want[k]; k += 1; }
    check(ok, 4);
    if n == 0 { cover(1); } else { cover(2); }
}
/// cropping to the format bakes everything
#[no_mangle]
pub extern "C" fn vp_f01_format() {
    let i = Img::any(2, [0, 0, 2, 2], [1, 1, 2, 3], 3);
    let (s, d) = (SPACES[pick(1, 3)], SPACES[pick(2, 3)]);
    let sp = any_spec(10, s);
    install(&i, &sp, DataType::Float32);
    let off = pos_f32(6, 0.0, 1.0);
    let mut g = graph(NodeType::Viewer, off);
    let mut cache = create_cache_box_with_capacity(0);
    let c = any_i32(3);
    assume(c != 0);
    g.set_node_attr_i32(3, "crop_to_format", c);
    g.set_node_attr_i32(3, "bake_option", 1 + pick(4, 3) as i32);
    g.set_node_attr_i32(3, "bake_pixel_data_type", 0);
    g.set_node_attr_str(3, "bake_color_space", d);
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let o = out(&g);
    let e = Img { px: baked(&i.px, 3, 3, s, d, off), ..i.clone() };
    let mut px = Vec::new();
    for (x, y) in [(1, 1), (1, 2)].iter() { let mut c = 0; while c < 3 { px.push(e.at(*x, *y, c)); c += 1; } }
    expect(&o, &Img { dw: [1, 1, 2, 3], disp: [1, 1, 2, 3], ch: 3, px }, 10);
    check(o.color_ops_len() == 0, 20);
    check_spec(&o, &sp, d, 21);
    cover(1);
}
/// the library cannot convert: the pixels stay
#[no_mangle]
pub extern "C" fn vp_f01_refused() {
    fn refuse(_p: &mut [f32], _w: i32, _h: i32, _c: i32, _a: i32, _u: bool, _s: &str, _d: &str) -> bool { false }
    let ch = 3 + pick(1, 2);
    let i = Img::any(2, [0, 1, 2, 2], [0, 0, 3, 2], ch);
    let (s, d) = (SPACES[pick(3, 4)], SPACES[pick(4, 4)]);
    let sp = any_spec(10, s);
    let off = pos_f32(6, 0.0, 1.0);
    install(&i, &sp, DataType::Float32);
    unsafe { stubs::COLOR = Some(refuse); }
    let mut g = graph(NodeType::Viewer, off);
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(7, 2)]);
    let opt = 1 + pick(5, 3) as i32;
    g.set_node_attr_i32(3, "bake_option", opt);
    g.set_node_attr_i32(3, "bake_pixel_data_type", 0);
    g.set_node_attr_str(3, "bake_color_space", d);
    let mut k = 0;
    while k < 2 {
        check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
        let o = out(&g);
        let r = stream_img(&o);
        check(r.dw == i.dw && r.disp == i.disp && r.ch == ch, 2);
        same_px(&r.px, &baked(&i.px, ch, if opt == 1 { 0 } else { 2 }, "Linear", "Linear", off), 10);
        if opt == 1 { check_spec(&o, &sp, s, 12); cover(1); } else { cover(2); }
        k += 1;
    }
}
/// long strips
#[no_mangle]
pub extern "C" fn vp_f01_strip() {
    let tall = pick(1, 2) == 1;
    let i = Img::fixed(0.0, if tall { [5, 0, 6, 300] } else { [0, 5, 300, 6] }, [0, 0, 4096, 2160], 4);
    let s = SPACES[pick(3, 2)];
    let sp = any_spec(10, s);
    let opt = pick(5, 4) as i32;
    install(&i, &sp, DataType::Float32);
    let mut g = graph(NodeType::Viewer, 0.5);
    let mut cache = create_cache_box_with_capacity(0);
    g.set_node_attr_i32(3, "bake_option", opt);
    g.set_node_attr_i32(3, "bake_pixel_data_type", 0);
    g.set_node_attr_str(3, "bake_color_space", "b");
    check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    let r = stream_img(&out(&g));
    check(r.dw == i.dw && r.disp == i.disp && r.ch == 4, 3);
    same_px(&r.px, &baked(&i.px, 4, opt, s, "b", 0.5), 10);
    if tall { cover(1); } else { cover(2); }
}
