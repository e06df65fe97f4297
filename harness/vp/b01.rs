//@ entry vp_b01_merge covers=1,2,3 time=300
//@ entry vp_b01_crop covers=1,2 time=300
//@ entry vp_b01_deform covers=1,2,3,4 time=300
//@ entry vp_b01_types covers=1,2 time=300
//@ entry vp_b01_nested covers=1,2 time=300
//@ bound two images of up to 2x2 pixels at different places, 3 and 4 channels, symbolic pixels, each in one of four colour spaces, each with a pending grade (symbolic offset) or none; every merge mode, symbolic mix; crops inside and across; one or two pending transforms of whole pixels; every pixel data type (fixed values); a merge and a crop of a merge (grades and transforms there with fixed pixels, symbolic pixels without the grade); with and without cache, executed twice
//@ assume colour conversion (C++) is the stand-in given by the harness: scaling per colour space; powf is a function of its arguments (uninterpreted)
use super::csup::*;
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::stream::*;

static mut SRC: Vec<(Img, Spec, DataType)> = Vec::new();
fn read(p: &String, image: &mut ImageShared) -> bool {
    let b = p.as_bytes();
    let (i, s, t) = unsafe { &(&*std::ptr::addr_of!(SRC))[(b[b.len() - 1] - b'1') as usize] };
    let mut b = to_block(i);
    b.convert_into_data_type(*t);
    *image.pixel_block = b;
    image.data_window = win(i.dw);
    image.display_window = win(i.disp);
    image.spec.color_space = s.space.to_string();
    image.spec.gamma = s.gamma;
    image.spec.pixel_aspect = s.aspect;
    image.spec.orientation = ImageOrientation { repr: s.orient };
    image.spec.unassociated_alpha = s.unassoc;
    image.spec.dither = s.dither;
    true
}
/// the files /1, /2, ...
fn files(v: Vec<(Img, Spec, DataType)>) {
    install(&v[0].0, &v[0].1, v[0].2);
    unsafe { SRC = v; stubs::READ = Some(read); }
}
fn plain(space: &'static str) -> Spec { Spec { space, gamma: 1.0, aspect: 1.0, orient: 1, unassoc: false, dither: 0 } }
/// read file n -> grade, ids 10n and 10n + 1; without a grade the second is a null node
fn source(g: &mut GraphImpl, n: u64, off: Option<f32>) -> u64 {
    let id = 10 * n;
    g.add_node(create_node_box_with_id(NodeType::ReadImage, id));
    g.set_node_attr_str(id, "file_path", ["/0", "/1", "/2"][n as usize]);
    match off {
        Some(o) => {
            g.add_node(create_node_box_with_id(NodeType::Grade, id + 1));
            g.set_node_attr_f32(id + 1, "offset_r", o);
            g.set_node_attr_f32(id + 1, "multiply_g", 3.0);
            g.set_node_attr_i32(id + 1, "clamp_black", 0);
        }
        None => { g.add_node(create_node_box_with_id(NodeType::Null, id + 1)); }
    }
    g.connect(id, id + 1, 0);
    id + 1
}
/// image `i` as it must enter the merge or the crop
fn finished(i: &Img, s: &str, off: Option<f32>) -> Img {
    let mut px = Vec::new();
    let mut k = 0;
    while k < i.px.len() {
        let v = conv(i.px[k], s, "Linear");
        px.push(match off { Some(o) => graded(v, k % i.ch, o), None => v });
        k += 1;
    }
    Img { px, ..i.clone() }
}
fn nothing_pending(o: &StreamDataImplRc, id: u32) {
    check(o.color_ops_len() == 0 && o.deformers_len() == 0, id);
    check(same_matrix(&o.color_matrix(), &Matrix4::identity()), id + 1);
    check(o.clone_image_spec().color_space() == "Linear", id + 2);
    let mut p = [0.25f32, 0.5, 0.75, 0.5];
    o.apply_color_ops(&mut p, 4);
    check(p == [0.25, 0.5, 0.75, 0.5], id + 3);
}
#[no_mangle]
pub extern "C" fn vp_b01_merge() {
    let (ca, cb) = [(4, 4), (4, 3), (3, 4)][pick(1, 3)];
    let a = Img::any(2, [0, 0, 2, 1], [0, 0, 2, 2], ca);
    let b = Img::any(3, [1, 0, 2, 2], [0, 0, 3, 2], cb);
    let (s, t) = (SPACES[pick(4, 4)], SPACES[pick(5, 4)]);
    let (oa, ob) = (pos_f32(6, 0.0, 1.0), pos_f32(7, 0.0, 1.0));
    let (oa, ob) = match pick(8, 3) { 0 => (None, Some(ob)), 1 => (Some(oa), None), _ => (Some(oa), Some(ob)) };
    files(vec![(a.clone(), any_spec(20, s), DataType::Float32), (b.clone(), any_spec(30, t), DataType::Float32)]);
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(9, 2)]);
    let (x, y) = (source(&mut g, 1, oa), source(&mut g, 2, ob));
    g.add_node(create_node_box_with_id(NodeType::MergeImage, 3));
    g.connect(x, 3, 0);
    g.connect(y, 3, 1);
    let (mode, mix) = (pick(10, 3) as i32, pos_f32(11, 0.0, 1.0));
    g.set_node_attr_i32(3, "mode", mode);
    g.set_node_attr_f32(3, "mix", mix);
    let e = merge(mode, mix, &finished(&a, s, oa), &finished(&b, t, ob));
    let mut k = 0;
    while k < 2 {
        check(g.execute(3, &[1.0 + k as f64], &mut cache) == ExecuteStatus::Success, 1);
        let o = out(&g);
        expect(&o, &e, 10);
        nothing_pending(&o, 20);
        k += 1;
    }
    if s == t { cover(1); } else if s == "Linear" { cover(2); } else { cover(3); }
}
fn set_crop(g: &mut GraphImpl, n: u64, w: W) {
    for (a, v) in [("window_min_x", w[0]), ("window_min_y", w[1]), ("window_max_x", w[2]), ("window_max_y", w[3])].iter() { g.set_node_attr_i32(n, a, *v); }
    g.set_node_attr_i32(n, "reformat", 0);
    g.set_node_attr_i32(n, "black_outside", 0);
}
fn cropped(i: &Img, w: W) -> Img {
    let mut px = Vec::new();
    let mut y = w[1];
    while y < w[3] {
        let mut x = w[0];
        while x < w[2] { let mut c = 0; while c < i.ch { px.push(i.at(x, y, c)); c += 1; } x += 1; }
        y += 1;
    }
    Img { dw: w, disp: i.disp, ch: i.ch, px }
}
#[no_mangle]
pub extern "C" fn vp_b01_crop() {
    let ch = 3 + pick(1, 2);
    let i = Img::any(2, [0, 0, 2, 2], [0, 0, 3, 2], ch);
    let s = SPACES[pick(3, 4)];
    let off = if pick(4, 2) == 1 { Some(pos_f32(5, 0.0, 1.0)) } else { None };
    let sp = any_spec(20, s);
    files(vec![(i.clone(), sp.clone(), DataType::Float32)]);
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(6, 2)]);
    let x = source(&mut g, 1, off);
    g.add_node(create_node_box_with_id(NodeType::CropImage, 3));
    g.connect(x, 3, 0);
    let w = [[0, 0, 2, 2], [1, 1, 3, 2], [0, 1, 1, 2]][pick(7, 3)];
    set_crop(&mut g, 3, w);
    let e = cropped(&finished(&i, s, off), w);
    let mut k = 0;
    while k < 2 {
        check(g.execute(3, &[1.0 + k as f64], &mut cache) == ExecuteStatus::Success, 1);
        let o = out(&g);
        expect(&o, &e, 10);
        nothing_pending(&o, 20);
        check_spec(&o, &sp, "Linear", 30);
        k += 1;
    }
    if s == "Linear" { cover(1); } else { cover(2); }
}
/// pending deformations: the same as merging or cropping images finished before by a viewer
#[no_mangle]
pub extern "C" fn vp_b01_deform() {
    // different display windows: a shift of 4 is one pixel of A across and one of B up
    let a = Img::any(2, [0, 0, 3, 1], [0, 0, 4, 2], 4);
    let b = Img::any(3, [0, 0, 1, 3], [0, 0, 2, 4], 4);
    let (s, t) = (SPACES[pick(4, 2)], SPACES[pick(5, 2)]);
    let fix = pick(10, 2) == 1;
    let (a, b) = if fix { (Img::fixed(0.25, a.dw, a.disp, 4), Img::fixed(0.5, b.dw, b.disp, 4)) } else { (a, b) };
    let off = if fix { Some(0.5) } else { None };
    files(vec![(a, plain(s), DataType::Float32), (b, plain(t), DataType::Float32)]);
    let kind = pick(7, 2);
    let (tx, ty) = ([0.0, 4.0][pick(8, 2)], [0.0, -4.0][pick(9, 2)]);
    let mut r: Vec<Box<StreamDataImplRc>> = Vec::new();
    let again = pick(11, 2) == 1;
    let mut first = 0;
    while first < 2 {
        let mut g = create_graph_box();
        // the second execution is answered by the cache
        let mut cache = create_cache_box_with_capacity([0, 1 << 20][again as usize]);
        let (mut x, mut y) = (source(&mut g, 1, off), source(&mut g, 2, None));
        for (id, v) in [(40u64, tx), (41, ty)].iter() {
            g.add_node(create_node_box_with_id(NodeType::Transform, *id));
            g.set_node_attr_f32(*id, "translate_x", *v);
            g.set_node_attr_f32(*id, "translate_y", *v);
        }
        g.connect(x, 40, 0);
        g.connect(y, 41, 0);
        x = 40;
        y = 41;
        if first == 1 {
            for (id, from) in [(50u64, 40u64), (51, 41)].iter() {
                g.add_node(create_node_box_with_id(NodeType::Viewer, *id));
                g.set_node_attr_i32(*id, "bake_option", 3);
                g.set_node_attr_i32(*id, "bake_pixel_data_type", 0);
                g.set_node_attr_str(*id, "bake_color_space", "Linear");
                g.set_node_attr_i32(*id, "crop_to_format", 0);
                g.connect(*from, *id, 0);
            }
            x = 50;
            y = 51;
        }
        g.add_node(create_node_box_with_id([NodeType::MergeImage, NodeType::CropImage][kind], 3));
        g.connect(x, 3, 0);
        if kind == 0 { g.connect(y, 3, 1); g.set_node_attr_i32(3, "mode", 1); } else { set_crop(&mut g, 3, [0, 0, 2, 2]); }
        check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
        if again && first == 0 { check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 2); }
        r.push(out(&g));
        first += 1;
    }
    nothing_pending(&r[0], 20);
    same_stream(&r[0], &r[1], 30);
    match (kind, tx == 0.0 && ty == 0.0) { (0, true) => cover(1), (0, false) => cover(2), (1, true) => cover(3), _ => cover(4) }
}
/// any pixel data type becomes float first
#[no_mangle]
pub extern "C" fn vp_b01_types() {
    let i = Img { dw: [0, 0, 2, 1], disp: [0, 0, 2, 1], ch: 3, px: vec![0.0, 0.25, 0.5, 1.0, 0.125, 0.3] };
    let j = Img { dw: [0, 0, 1, 1], disp: [0, 0, 1, 1], ch: 3, px: vec![0.75, 0.2, 0.1] };
    let (a, b) = (TYPES[pick(1, 4)], TYPES[pick(2, 4)]);
    let (s, t) = (SPACES[pick(3, 2)], SPACES[pick(4, 2)]);
    files(vec![(i.clone(), plain(s), a), (j.clone(), plain(t), b)]);
    let f = |i: &Img, t: DataType| { let mut e = to_block(i); e.convert_into_data_type(t); e.convert_into_data_type(DataType::Float32); Img { px: e.as_slice_f32().to_vec(), ..i.clone() } };
    let (i, j) = (finished(&f(&i, a), s, None), finished(&f(&j, b), t, None));
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    let (x, y) = (source(&mut g, 1, None), source(&mut g, 2, None));
    if pick(5, 2) == 0 {
        g.add_node(create_node_box_with_id(NodeType::MergeImage, 3));
        g.connect(x, 3, 0);
        g.connect(y, 3, 1);
        g.set_node_attr_i32(3, "mode", 0);
        g.set_node_attr_f32(3, "mix", 0.5);
        check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
        expect(&out(&g), &merge(0, 0.5, &i, &j), 10);
        cover(1);
    } else {
        g.add_node(create_node_box_with_id(NodeType::CropImage, 3));
        g.connect(x, 3, 0);
        set_crop(&mut g, 3, [1, 0, 2, 2]);
        check(g.execute(3, &[1.0], &mut cache) == ExecuteStatus::Success, 2);
        expect(&out(&g), &cropped(&i, [1, 0, 2, 2]), 30);
        cover(2);
    }
    nothing_pending(&out(&g), 20);
}
/// a merge or crop of a merge or crop does not convert again
#[no_mangle]
pub extern "C" fn vp_b01_nested() {
    let a = Img::any(2, [0, 0, 1, 1], [0, 0, 1, 1], 4);
    let b = Img::any(3, [0, 0, 2, 1], [0, 0, 2, 1], 4);
    let (s, t) = (SPACES[pick(4, 3)], SPACES[pick(5, 3)]);
    let fix = pick(10, 2) == 1;
    let (a, b) = if fix { (Img::fixed(0.25, a.dw, a.disp, 4), Img::fixed(0.5, b.dw, b.disp, 4)) } else { (a, b) };
    let (oa, ob) = (if fix { Some(0.5) } else { None }, None);
    files(vec![(a.clone(), any_spec(20, s), DataType::Float32), (b.clone(), any_spec(30, t), DataType::Float32)]);
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity([0, 1 << 20][pick(9, 2)]);
    let (x, y) = (source(&mut g, 1, oa), source(&mut g, 2, ob));
    g.add_node(create_node_box_with_id(NodeType::MergeImage, 3));
    g.connect(x, 3, 0);
    g.connect(y, 3, 1);
    g.set_node_attr_i32(3, "mode", 0);
    let (fa, fb) = (finished(&a, s, oa), finished(&b, t, ob));
    let first = merge(0, 1.0, &fa, &fb);
    g.set_node_attr_f32(3, "mix", 1.0);
    let e;
    if pick(7, 2) == 0 {
        // (A + B) * A
        g.add_node(create_node_box_with_id(NodeType::MergeImage, 4));
        g.connect(3, 4, 0);
        g.connect(x, 4, 1);
        g.set_node_attr_i32(4, "mode", 2);
        g.set_node_attr_f32(4, "mix", 1.0);
        e = merge(2, 1.0, &first, &fa);
        cover(1);
    } else {
        g.add_node(create_node_box_with_id(NodeType::CropImage, 4));
        g.connect(3, 4, 0);
        set_crop(&mut g, 4, [1, 0, 2, 1]);
        e = cropped(&first, [1, 0, 2, 1]);
        cover(2);
    }
    check(g.execute(4, &[1.0], &mut cache) == ExecuteStatus::Success, 1);
    expect(&out(&g), &e, 10);
    nothing_pending(&out(&g), 20);
}
