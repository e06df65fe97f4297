//@ entry vp_k01_crop covers=1,2 time=300
//@ entry vp_k01_merge covers=1,2 time=300
//@ entry vp_k01_viewer covers=1,2 time=300
//@ entry vp_k01_resample covers=1,2 time=300
//@ entry vp_k01_graded covers=1,2 time=300
//@ entry vp_k01_moved covers=1,2 time=300
//@ entry vp_k01_rewire covers=1 time=300
//@ entry vp_k01_pending covers=1,2,3 time=300
//@ bound every pair of caching nodes (crop, merge of one or two inputs, viewer with any option, resample, or none) in a row behind a read image in another colour space, a pending grade and a pending transform or lens (fixed values), executed twice and in between at the first node
//@ bound three executions: a configuration, one changed in any one attribute (value symbolic over its whole type, window edges and file names over two or three values) or in the frame, and the first one again; one cache of symbolic capacity 0..400 bytes throughout
//@ bound scenes: read-crop, two reads-merge, read-grade-transform-viewer, read-resample, read-grade-crop, read-lens/transform-merge, rewired merge inputs; images of 1x1 to 2x2 pixels with symbolic values 0..=1 (fixed values in the viewer and grade scenes)
//@ assume equal 64-bit node hashes only for equal hashed bytes (the SipHash the hashes are made with is idealised)
use super::dsup::*;
use super::gsup::*;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;

fn files() {
    add_file(b'1', Img::any(101, [0, 0, 2, 1], [0, 0, 2, 2], 4));
    add_file(b'2', Img::any(102, [0, 0, 1, 2], [0, 0, 2, 2], 4));
    add_file(b'b', Img::any(103, [1, 1, 2, 2], [0, 0, 3, 2], 3));
}
fn fixed_files() {
    add_file(b'1', Img::fixed(0.125, [0, 0, 2, 1], [0, 0, 2, 2], 4));
    add_file(b'2', Img::fixed(0.1875, [0, 0, 1, 2], [0, 0, 2, 2], 4));
    add_file(b'b', Img::fixed(0.3125, [1, 1, 2, 2], [0, 0, 3, 2], 3));
}
fn cap() -> usize { range_u64(90, 0, 400) as usize }
const FRAMES: [f64; 2] = [1.0, 2.0];

/// A, then B = A with one change, then A again; each compared with a fresh graph without a cache.
fn aba(a: Scene, node: u64, change: &[(u64, &'static str, Val)]) {
    let mut b = a.clone();
    let k = pick(91, change.len() as u64 + 1);
    let (mut fa, mut fb) = (1.0, 1.0);
    if k < change.len() { let (n, at, v) = change[k]; b.set(n, at, v); } else { fb = 2.0; }
    let mut g = fresh(&a);
    let mut cache = create_cache_box_with_capacity(cap());
    against_fresh(&mut g, &mut cache, &a, node, fa, 100);
    for (id, n, v) in b.attrs.iter() { put(&mut g, *id, n, *v); }
    against_fresh(&mut g, &mut cache, &b, node, fb, 200);
    for (id, n, v) in a.attrs.iter() { put(&mut g, *id, n, *v); }
    against_fresh(&mut g, &mut cache, &a, node, fa, 300);
    cover(1);
    if cache.used_bytes() > 0 { cover(2); }
}

#[no_mangle]
pub extern "C" fn vp_k01_crop() {
    dsetup(); files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::CropImage)], &[(1, 2, 0)]);
    s.set(1, "file_path", S("/#"));
    s.set(1, "enable", I(1));
    s.set(1, "use_cache", I(any_i32(1)));
    s.set(2, "enable", I(1));
    s.set(2, "use_cache", I(any_i32(2)));
    for (n, v) in [("window_min_x", 0), ("window_min_y", -1), ("window_max_x", 2), ("window_max_y", 1)].iter() { s.set(2, n, I(*v)); }
    for (n, t) in [("reformat", 3), ("black_outside", 4), ("intersect", 5)].iter() { s.set(2, n, I(range_i32(*t, 0, 1))); }
    let v = any_i32(6);
    aba(s, 2, &[(1, "file_path", S("/b")), (1, "file_path", S("/x")), (1, "enable", I(v)), (2, "enable", I(v)), (2, "reformat", I(v)), (2, "black_outside", I(v)), (2, "intersect", I(v)),
                (2, "window_min_x", I(1)), (2, "window_min_y", I(0)), (2, "window_max_x", I(3)), (2, "window_max_y", I(0)), (2, "use_cache", I(v)), (1, "use_cache", I(v))]);
}

#[no_mangle]
pub extern "C" fn vp_k01_merge() {
    dsetup(); files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::ReadImage), (3, NodeType::MergeImage)], &[(1, 3, 0), (2, 3, 1)]);
    s.set(1, "file_path", S("/#"));
    s.set(2, "file_path", S("/b"));
    s.set(1, "enable", I(1));
    s.set(2, "enable", I(1));
    s.set(3, "enable", I(1));
    s.set(3, "use_cache", I(any_i32(1)));
    s.set(3, "mode", I(pick(2, 3) as i32));
    s.set(3, "mix", F(0.5));
    let v = range_i32(3, -1, 4);
    aba(s, 3, &[(1, "file_path", S("/2")), (2, "file_path", S("/1")), (2, "file_path", S("/x")), (1, "enable", I(v)), (2, "enable", I(v)), (3, "enable", I(v)), (3, "mode", I(v)), (3, "mix", F(any_f32(4))), (3, "use_cache", I(v))]);
}

#[no_mangle]
pub extern "C" fn vp_k01_viewer() {
    dsetup(); fixed_files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::Grade), (3, NodeType::Transform), (4, NodeType::Viewer)], &[(1, 2, 0), (2, 3, 0), (3, 4, 0)]);
    s.set(1, "file_path", S("/b"));
    s.set(2, "enable", I(1));
    s.set(2, "offset_r", F(0.25));
    s.set(3, "enable", I(1));
    s.set(3, "translate_x", F(1.0));
    s.set(4, "enable", I(1));
    s.set(4, "use_cache", I(any_i32(1)));
    s.set(4, "bake_option", I(pick(2, 4) as i32));
    s.set(4, "bake_pixel_data_type", I(0));
    s.set(4, "bake_color_space", S("Linear"));
    s.set(4, "crop_to_format", I(0));
    let v = range_i32(3, 0, 3);
    aba(s, 4, &[(1, "file_path", S("/1")), (2, "enable", I(0)), (2, "offset_r", F(0.5)), (3, "enable", I(0)), (3, "translate_x", F(2.0)), (4, "enable", I(v)), (4, "bake_option", I(v)), (4, "bake_pixel_data_type", I(v)),
                (4, "bake_color_space", S("sRGB")), (4, "crop_to_format", I(v)), (4, "use_cache", I(v))]);
}

#[no_mangle]
pub extern "C" fn vp_k01_resample() {
    dsetup(); files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::ResampleImage)], &[(1, 2, 0)]);
    s.set(1, "file_path", S("/#"));
    s.set(2, "enable", I(1));
    s.set(2, "use_cache", I(any_i32(1)));
    s.set(2, "factor", I(any_i32(2)));
    s.set(2, "interpolate", I(any_i32(3)));
    let (v, w) = (any_i32(4), any_i32(5));
    assume(w < 1000000);
    for (_, n, x) in s.attrs.iter() { if *n == "factor" { if let I(f) = x { assume(*f < 1000000); } } }
    aba(s, 2, &[(1, "file_path", S("/b")), (2, "enable", I(v)), (2, "factor", I(w)), (2, "interpolate", I(v)), (2, "use_cache", I(v))]);
}

#[no_mangle]
pub extern "C" fn vp_k01_graded() {
    dsetup(); fixed_files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::Grade), (3, NodeType::CropImage)], &[(1, 2, 0), (2, 3, 0)]);
    s.set(1, "file_path", S("/b"));
    for n in ["process_r", "process_g", "process_b", "process_a"].iter() { s.set(2, n, I(1)); }
    for n in ["reverse", "clamp_white", "premult"].iter() { s.set(2, n, I(0)); }
    for n in ["enable", "clamp_black"].iter() { s.set(2, n, I(1)); }
    let fs = ["black_point_r", "white_point_g", "lift_b", "gain_r", "multiply_g", "offset_b", "offset_r", "mix"];
    for n in fs.iter() { s.set(2, n, F(if n.starts_with("white") || n.starts_with("gain") || n.starts_with("mul") || n.starts_with("mix") { 1.0 } else { 0.0 })); }
    s.set(3, "window_max_x", I(2));
    s.set(3, "window_max_y", I(2));
    let v = range_i32(3, -1, 2);
    let mut ch: Vec<(u64, &'static str, Val)> = Vec::new();
    for n in ["enable", "process_r", "process_b", "reverse", "clamp_black", "clamp_white", "premult"].iter() { ch.push((2, n, I(v))); }
    for n in fs.iter() { ch.push((2, n, F(0.5))); }
    aba(s, 3, &ch);
}

#[no_mangle]
pub extern "C" fn vp_k01_moved() {
    dsetup(); files();
    let lens = pick(80, 2) == 1;
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, if lens { NodeType::LensDistort } else { NodeType::Transform }), (3, NodeType::ReadImage), (4, NodeType::MergeImage)], &[(1, 2, 0), (2, 4, 0), (3, 4, 1)]);
    unsafe { super::stubs::DISTORT = Some(bend); }
    s.set(1, "file_path", S("/1"));
    s.set(3, "file_path", S("/b"));
    s.set(2, "enable", I(1));
    let fs: &[&'static str] = if lens { &["distortion", "anamorphic_squeeze", "curvature_x", "curvature_y", "quartic_distortion", "lens_center_offset_x", "lens_center_offset_y"] }
             else { &["translate_x", "translate_y", "rotate", "rotate_center_x", "rotate_center_y", "scale_x", "scale_y", "pivot_x", "pivot_y"] };
    let flag = if lens { "direction" } else { "invert" };
    for n in fs.iter() { s.set(2, n, F(0.5)); }
    s.set(2, flag, I(0));
    let mut ch: Vec<(u64, &'static str, Val)> = Vec::new();
    ch.push((2, "enable", I(0)));
    ch.push((2, flag, I(1)));
    for n in fs.iter() { ch.push((2, n, F(0.75))); }
    aba(s, 4, &ch);
}
/// a stand-in lens: every parameter moves the point
fn bend(p: &super::stubs::Plugin, d: bool, x: f64, y: f64) -> (f64, f64) {
    let mut k = if d { 1.0 } else { -1.0 };
    let mut w = 1.0;
    for (_, v) in p.params.iter() { w = w * 2.0; k += v * w; }
    (x + k, y - k)
}

/// one caching node `id` of kind k behind `from`
fn caching(s: &mut Scene, k: usize, id: u64, from: u64) {
    let t = [NodeType::Null, NodeType::CropImage, NodeType::MergeImage, NodeType::MergeImage, NodeType::ResampleImage, NodeType::Viewer, NodeType::Viewer, NodeType::Viewer, NodeType::Viewer][k];
    s.nodes.push((id, t));
    s.edges.push((from, id, 0));
    match k {
        0 => (),
        1 => { for (n, v) in [("window_min_x", 0), ("window_min_y", 0), ("window_max_x", 2), ("window_max_y", 1), ("black_outside", 0)].iter() { s.set(id, n, I(*v)); } }
        2 => s.set(id, "mode", I(0)),
        3 => { s.edges.push((5, id, 1)); s.set(id, "mode", I(0)); }
        4 => s.set(id, "factor", I(2)),
        _ => { s.set(id, "bake_option", I(k as i32 - 5)); s.set(id, "bake_pixel_data_type", I(0)); s.set(id, "bake_color_space", S("b")); s.set(id, "crop_to_format", I(0)); }
    }
}
fn read_spaces(p: &String, i: &mut ImageShared) -> bool {
    let b = p.as_bytes()[p.len() - 1];
    let e = if b == b'1' { Img::fixed(0.125, [0, 0, 2, 2], [0, 0, 2, 2], 4) } else { Img::fixed(0.25, [1, 0, 3, 1], [0, 0, 3, 2], 4) };
    *i.pixel_block = to_block(&e);
    i.data_window = win(e.dw);
    i.display_window = win(e.disp);
    i.spec.color_space = if b == b'1' { "sRGB".to_string() } else { "Linear".to_string() };
    i.spec.gamma = 2.0;
    i.spec.pixel_aspect = 1.5;
    i.spec.unassociated_alpha = b == b'1';
    i.spec.dither = 3;
    true
}
#[no_mangle]
pub extern "C" fn vp_k01_pending() {
    dsetup(); fixed_files();
    unsafe { super::stubs::READ = Some(read_spaces); super::stubs::DISTORT = Some(bend); }
    let d = pick(1, 3);
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::Grade), (3, [NodeType::Null, NodeType::Transform, NodeType::LensDistort][d]), (5, NodeType::ReadImage)], &[(1, 2, 0), (2, 3, 0)]);
    s.set(1, "file_path", S("/1"));
    s.set(5, "file_path", S("/b"));
    s.set(2, "offset_r", F(0.5));
    if d == 1 { s.set(3, "translate_x", F(2.0)); }
    if d == 2 { s.set(3, "distortion", F(0.5)); }
    let (a, b) = (pick(2, 9), pick(3, 9));
    caching(&mut s, a, 6, 3);
    caching(&mut s, b, 7, 6);
    let mut g = fresh(&s);
    let mut cache = create_cache_box_with_capacity(1 << 20);
    let mut k = 0;
    while k < 3 {
        if k == 1 { against_fresh(&mut g, &mut cache, &s, 6, 1.0, 400); }
        against_fresh(&mut g, &mut cache, &s, 7, 1.0, 100 * (k + 1));
        k += 1;
    }
    cover(1 + d as u32);
}

/// Connections changed between executions with one cache.
#[no_mangle]
pub extern "C" fn vp_k01_rewire() {
    dsetup(); files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::ReadImage), (3, NodeType::CropImage), (4, NodeType::MergeImage), (5, NodeType::MergeImage)], &[]);
    s.set(1, "file_path", S("/1"));
    s.set(2, "file_path", S("/b"));
    s.set(3, "window_max_x", I(1));
    s.set(3, "window_max_y", I(1));
    s.set(4, "mode", I(0));
    s.set(5, "mode", I(0));
    let mut g = fresh(&s);
    let mut cache = create_cache_box_with_capacity([40, 100, 4000][pick(50, 3)]);
    let mut step = 0;
    let mut first = (0, 0, 0);
    while step < 3 {
        let mut t = s.clone();
        // 3 <- a, 4 <- (b, c), 5 <- (4, d)
        let (a, b, c) = if step == 2 && !THOROUGH { first } else { (1 + pick(20 + step, 2) as u64, 1 + pick(30 + step, 3) as u64, 2 + pick(40 + step, 2) as u64) };
        if step == 0 { first = (a, b, c); }
        let e = [(a, 3, 0u8), (b, 4, 0), (c, 4, 1), (4, 5, 0), (3, 5, 1)];
        for (x, y, n) in e.iter() { g.connect(*x, *y, *n); t.edges.push((*x, *y, *n)); }
        against_fresh(&mut g, &mut cache, &t, 5, 1.0, 100 * (step + 1));
        step += 1;
    }
    cover(1);
}
