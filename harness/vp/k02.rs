//@ entry vp_k02_read covers=1,2,3 time=300
//@ entry vp_k02_crop covers=1,2,3 time=300
//@ entry vp_k02_grade covers=1,2,3 time=300
//@ entry vp_k02_transform covers=1,2 time=300
//@ entry vp_k02_lens covers=1,2 time=300
//@ entry vp_k02_merge covers=1,2,3 time=300
//@ entry vp_k02_resample covers=1,2,3 time=300
//@ entry vp_k02_viewer covers=1,2,3 time=300
//@ entry vp_k02_shape covers=1,2 time=300
//@ entry vp_k02_types covers=1,2,3 time=300
//@ entry vp_k02_frame covers=1,2 time=300
//@ bound two configurations of one node (with its input images) differing in any one attribute: both values and all other attributes of the node symbolic over their whole types (window edges, factors, options, directions, modes and file names over a few values); frames; graphs of up to three nodes of different types
//@ assume equal 64-bit hashes only for equal hashed bytes (SipHash is idealised)
use super::dsup::*;
use super::gsup::*;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::stream::*;

fn run(s: &Scene, node: u64, frame: f64) -> (Box<StreamDataImplRc>, NodeStatus) {
    let mut g = fresh(s);
    let mut c = create_cache_box_with_capacity(0);
    check(g.execute(node, &[frame], &mut c) == ExecuteStatus::Success, 1);
    (out(&g), g.node_status(node))
}
/// two values of one attribute
type Ch = (u64, &'static str, Val, Val);
/// one of `ch` differs between the two configurations: same hash, then same output
fn differ(s: &Scene, node: u64, ch: &[Ch]) {
    let (id, name, v, w) = ch[pick(90, ch.len() as u64)];
    let (mut a, mut b) = (s.clone(), s.clone());
    a.set(id, name, v);
    b.set(id, name, w);
    let equal = match (v, w) { (I(x), I(y)) => x == y, (F(x), F(y)) => x.to_bits() == y.to_bits(), (S(x), S(y)) => x == y, _ => false };
    let ((x, _), (y, _)) = (run(&a, node, 1.0), run(&b, node, 1.0));
    if equal { check(x.hash() == y.hash(), 10); cover(1); return; }
    if x.hash() != y.hash() { cover(2); return; }
    same_stream(&x, &y, 20);
    cover(3);
}
fn fs(s: &mut Scene, id: u64, t: u32, names: &[&'static str], ch: &mut Vec<Ch>) { let mut k = t; for n in names.iter() { let v = F(any_f32(k)); s.set(id, n, v); ch.push((id, n, v, F(any_f32(k + 1)))); k += 2; } }
fn is(s: &mut Scene, id: u64, t: u32, names: &[&'static str], ch: &mut Vec<Ch>) { let mut k = t; for n in names.iter() { let v = I(any_i32(k)); s.set(id, n, v); ch.push((id, n, v, I(any_i32(k + 1)))); k += 2; } }
fn files() {
    dsetup();
    add_file(b'1', Img::fixed(0.125, [0, 0, 2, 1], [0, 0, 2, 2], 4));
    add_file(b'2', Img::fixed(0.1875, [0, 0, 1, 2], [0, 0, 2, 2], 4));
    add_file(b'b', Img::fixed(0.3125, [1, 1, 2, 2], [0, 0, 3, 2], 3));
}
fn one(t: NodeType) -> Scene { let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, t)], &[(1, 2, 0)]); s.set(1, "file_path", S("/1")); s }

#[no_mangle]
pub extern "C" fn vp_k02_read() {
    files();
    let mut s = Scene::new(&[(2, NodeType::ReadImage)], &[]);
    let mut ch = Vec::new();
    is(&mut s, 2, 10, &["enable", "use_cache"], &mut ch);
    let p = ["/1", "/2", "/x", "/#"];
    let (a, b) = (S(p[pick(1, 4)]), S(p[pick(2, 4)]));
    s.set(2, "file_path", a);
    ch.push((2, "file_path", a, b));
    differ(&s, 2, &ch);
}
#[no_mangle]
pub extern "C" fn vp_k02_crop() {
    files();
    let mut s = one(NodeType::CropImage);
    let mut ch = Vec::new();
    is(&mut s, 2, 10, &["enable", "use_cache", "reformat", "black_outside", "intersect"], &mut ch);
    for (n, v, w) in [("window_min_x", -1, 1), ("window_min_y", 0, 1), ("window_max_x", 2, 1), ("window_max_y", 1, 3)].iter() { s.set(2, n, I(*v)); ch.push((2, n, I(*v), I(*w))); }
    ch.push((1, "file_path", S("/1"), S("/b")));
    differ(&s, 2, &ch);
}
#[no_mangle]
pub extern "C" fn vp_k02_grade() {
    files();
    let mut s = one(NodeType::Grade); // a channel that is not processed, none, or any values
    let mut ch = Vec::new();
    is(&mut s, 2, 10, &["enable"], &mut ch);
    let k = pick(1, 6);
    for (i, n) in ["process_r", "process_g", "process_b", "process_a"].iter().enumerate() {
        let v = I(if k == 5 { any_i32(2 + i as u32) } else if k == 4 || k == i { 0 } else { 1 });
        s.set(2, n, v);
        ch.push((2, n, v, I(any_i32(6 + i as u32))));
    }
    s.set(2, "mix", F([1.0, 0.5][pick(9, 2)]));
    ch.push((2, "mix", F(any_f32(22)), F(any_f32(23))));
    for n in ["premult", "reverse", "clamp_black", "clamp_white"].iter() { s.set(2, n, I(0)); ch.push((2, n, I(0), I(any_i32(20)))); }
    fs(&mut s, 2, 30, &["black_point_r", "black_point_g", "black_point_b", "black_point_a", "white_point_r", "white_point_g", "white_point_b", "white_point_a",
        "lift_r", "lift_g", "lift_b", "lift_a", "gain_r", "gain_g", "gain_b", "gain_a", "multiply_r", "multiply_g", "multiply_b", "multiply_a",
        "offset_r", "offset_g", "offset_b", "offset_a", "gamma_r", "gamma_g", "gamma_b", "gamma_a"], &mut ch);
    differ(&s, 2, &ch);
}
#[no_mangle]
pub extern "C" fn vp_k02_transform() {
    files();
    let mut s = one(NodeType::Transform);
    let mut ch = Vec::new();
    is(&mut s, 2, 10, &["enable", "invert"], &mut ch);
    fs(&mut s, 2, 30, &["translate_x", "translate_y", "rotate", "rotate_center_x", "rotate_center_y", "scale_x", "scale_y", "pivot_x", "pivot_y"], &mut ch);
    differ(&s, 2, &ch);
}
#[no_mangle]
pub extern "C" fn vp_k02_lens() {
    files();
    let mut s = one(NodeType::LensDistort);
    let mut ch = Vec::new();
    is(&mut s, 2, 10, &["enable"], &mut ch);
    s.set(2, "direction", I(0));
    ch.push((2, "direction", I(pick(1, 2) as i32), I(pick(2, 2) as i32)));
    fs(&mut s, 2, 30, &["distortion", "anamorphic_squeeze", "curvature_x", "curvature_y", "quartic_distortion", "lens_center_offset_x", "lens_center_offset_y"], &mut ch);
    differ(&s, 2, &ch);
}
#[no_mangle]
pub extern "C" fn vp_k02_merge() {
    files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::ReadImage), (3, NodeType::MergeImage)], &[(1, 3, 0), (2, 3, 1)]);
    s.set(1, "file_path", S("/1"));
    s.set(2, "file_path", S("/b"));
    let mut ch = Vec::new();
    is(&mut s, 3, 10, &["enable", "use_cache"], &mut ch);
    fs(&mut s, 3, 30, &["mix"], &mut ch);
    let m = I(pick(1, 3) as i32);
    s.set(3, "mode", m);
    ch.push((3, "mode", m, I(pick(2, 3) as i32)));
    ch.push((1, "file_path", S("/1"), S("/2")));
    ch.push((2, "file_path", S("/b"), S("/1")));
    ch.push((1, "file_path", S("/1"), S("/x")));
    ch.push((2, "file_path", S("/b"), S("/x")));
    differ(&s, 3, &ch);
}
#[no_mangle]
pub extern "C" fn vp_k02_resample() {
    files();
    let mut s = one(NodeType::ResampleImage);
    let mut ch = Vec::new();
    is(&mut s, 2, 10, &["enable", "use_cache", "interpolate"], &mut ch);
    let f = range_i32(1, -2, 3);
    s.set(2, "factor", I(f));
    ch.push((2, "factor", I(f), I(range_i32(2, -2, 3))));
    ch.push((1, "file_path", S("/1"), S("/b")));
    differ(&s, 2, &ch);
}
#[no_mangle]
pub extern "C" fn vp_k02_viewer() {
    files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::Grade), (3, NodeType::Viewer)], &[(1, 2, 0), (2, 3, 0)]);
    s.set(1, "file_path", S("/1"));
    s.set(2, "offset_r", F(0.25));
    let mut ch = Vec::new();
    is(&mut s, 3, 10, &["enable", "use_cache", "crop_to_format"], &mut ch);
    let o = I(pick(1, 4) as i32);
    s.set(3, "bake_option", o);
    let t = [0, 2, 255];
    let d = I(t[pick(3, 3)]);
    s.set(3, "bake_pixel_data_type", d);
    s.set(3, "bake_color_space", S("b"));
    let mut k = 0;
    while k < 4 { ch.push((3, "bake_option", o, I(k))); k += 1; }
    for k in [0, 1, 2, 3, 255].iter() { ch.push((3, "bake_pixel_data_type", d, I(*k))); }
    ch.push((3, "bake_color_space", S("b"), S("sRGB")));
    ch.push((2, "offset_r", F(0.25), F(0.5)));
    ch.push((1, "file_path", S("/1"), S("/b")));
    differ(&s, 3, &ch);
}
/// a node of any type between a read and a crop node, enabled or not: what follows is told apart when it differs
#[no_mangle]
pub extern "C" fn vp_k02_types() {
    files();
    let t = [NodeType::Null, NodeType::CropImage, NodeType::Grade, NodeType::Transform, NodeType::ResampleImage, NodeType::Viewer, NodeType::LensDistort, NodeType::WriteImage, NodeType::MergeImage];
    let build = |k: u32| {
        let (a, e) = (t[pick(k, 9)], pick(k + 1, 2) as i32);
        let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, a), (3, NodeType::CropImage)], &[(1, 2, 0), (2, 3, 0)]);
        s.set(1, "file_path", S("/1"));
        s.set(3, "window_max_x", I(2));
        s.set(3, "window_max_y", I(2));
        if a != NodeType::Null { s.set(2, "enable", I(e)); }
        match a {
            NodeType::CropImage => { s.set(2, "window_max_x", I(1)); s.set(2, "window_max_y", I(1)); }
            NodeType::Grade => s.set(2, "offset_r", F(0.5)),
            NodeType::Transform => s.set(2, "translate_x", F(1.0)),
            NodeType::Viewer => { s.set(2, "bake_option", I(1)); s.set(2, "bake_color_space", S("b")); s.set(2, "bake_pixel_data_type", I(0)); }
            NodeType::ResampleImage => s.set(2, "factor", I(1)),
            NodeType::WriteImage => s.set(2, "execute", I(0)),
            _ => (),
        }
        s
    };
    let (s, u) = (build(10), build(20));
    let n = 2 + pick(30, 2) as u64;
    let (x, y) = (run(&s, n, 1.0).0, run(&u, n, 1.0).0);
    if x.hash() != y.hash() { cover(1); return; }
    same_stream(&x, &y, 20);
    if n == 2 { cover(2); } else { cover(3); }
}
/// graphs of different nodes, or of the same nodes connected differently
#[no_mangle]
pub extern "C" fn vp_k02_shape() {
    files();
    let t = [NodeType::Null, NodeType::CropImage, NodeType::Grade, NodeType::Transform, NodeType::ResampleImage, NodeType::Viewer, NodeType::LensDistort];
    let build = |k: u32| {
        let (a, b, m) = (t[pick(k, 7)], t[if THOROUGH { pick(k + 1, 7) } else { pick(k + 1, 2) }], pick(k + 2, 3));
        let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, a), (3, b), (4, NodeType::ReadImage), (5, NodeType::MergeImage)], &[(1, 2, 0), (2, 3, 0)]);
        s.set(1, "file_path", S("/1"));
        s.set(4, "file_path", S("/2"));
        for (i, n) in [(2, a), (3, b)].iter() {
            match *n {
                NodeType::CropImage => { s.set(*i, "window_max_x", I(1)); s.set(*i, "window_max_y", I(1)); }
                NodeType::Grade => s.set(*i, "offset_r", F(0.5)),
                NodeType::Transform => s.set(*i, "translate_x", F(1.0)),
                NodeType::Viewer => { s.set(*i, "bake_option", I(1)); s.set(*i, "bake_color_space", S("b")); s.set(*i, "bake_pixel_data_type", I(0)); }
                _ => (),
            }
        }
        match m { 0 => return (s, 3), 1 => { s.edges.push((3, 5, 0)); s.edges.push((4, 5, 1)); } _ => { s.edges.push((4, 5, 0)); s.edges.push((3, 5, 1)); } }
        (s, 5)
    };
    let ((s, m), (u, n)) = (build(10), build(20));
    let (x, y) = (run(&s, m, 1.0).0, run(&u, n, 1.0).0);
    if x.hash() != y.hash() { cover(1); return; }
    same_stream(&x, &y, 20);
    cover(2);
}
#[no_mangle]
pub extern "C" fn vp_k02_frame() {
    files();
    let mut s = Scene::new(&[(1, NodeType::ReadImage), (2, NodeType::Grade), (3, NodeType::CropImage)], &[(1, 2, 0), (2, 3, 0)]);
    s.set(1, "file_path", S(["/1", "/#", "/##"][pick(1, 3)]));
    s.set(2, "offset_r", F(0.5));
    s.set(3, "window_max_x", I(2));
    s.set(3, "window_max_y", I(2));
    let f = [1.0, 2.0, 1.25, 3.0];
    let n = 1 + pick(4, 3) as u64;
    let (x, y) = (run(&s, n, f[pick(2, 4)]).0, run(&s, n, f[pick(3, 4)]).0);
    if x.hash() != y.hash() { cover(1); return; }
    same_stream(&x, &y, 20);
    cover(2);
}
