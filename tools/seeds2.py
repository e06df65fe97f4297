import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import new
G = '''
fn node(g: &mut GraphImpl, t: NodeType, id: u64) { g.add_node(create_node_box_with_id(t, id)); }
fn read(g: &mut GraphImpl, id: u64, path: &str) { node(g, NodeType::ReadImage, id); g.set_node_attr_str(id, "file_path", path); }
fn px(g: &GraphImpl) -> Vec<f32> { g.output_stream().inner.inner().pixel_block().as_slice_f32().to_vec() }
fn one(name: &str, v: f32) -> String { vp_stubs::pic(name, [0, 0, 1, 1], [0, 0, 1, 1], 4, vec![v, v, v, v]) }
const OK: ExecuteStatus = ExecuteStatus::Success;
'''
new("g01-second-input", "G01", [("src/graph.rs", "        self.disconnect_input(dst_node_id, input_num);\n\n", "        if !self.graph.contains_edge(src_index, dst_index) {\n            self.disconnect_input(dst_node_id, input_num);\n        }\n\n")],
    "a source already connected to one input is connected to another input that is in use", "the other input then holds two connections",
    G + '''
#[test]
fn second() {
    let (a, b) = (one("a.exr", 0.25), one("b.exr", 0.5));
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    read(&mut g, 2, &b);
    node(&mut g, NodeType::Null, 3);
    g.connect(1, 3, 0);
    g.connect(2, 3, 1);
    g.connect(2, 3, 0);
    assert!(g.remove_node(2));
    g.execute(3, &[1.0], &mut c);
    assert_ne!(px(&g), vec![0.25; 4]);
}''')
new("g04-remove-clean", "G04", [("src/graph.rs", "            Some(_value) => {\n                self.state = GraphState::Dirty;\n                true\n", "            Some(_value) => {\n                if self.graph.edge_count() > 0 {\n                    self.state = GraphState::Dirty;\n                }\n                true\n")],
    "the last connected node pair loses a node after a successful execution", "the graph stays Clean although a node was removed",
    G + '''
#[test]
fn removed() {
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    let a = one("a.exr", 0.25);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::Null, 2);
    g.connect(1, 2, 0);
    assert!(g.execute(2, &[1.0], &mut c) == OK);
    assert!(g.state() == GraphState::Clean);
    assert!(g.remove_node(1));
    assert!(g.state() == GraphState::Dirty);
}''')
new("k01-merge-mix", "K01", [("src/node/merge_image.rs", "            HashableF32::new(self.mix).hash(state);\n", "            if self.mode != 1 {\n                HashableF32::new(self.mix).hash(state);\n            }\n")],
    "an Over merge executed with one mix and then another, with the cache on", "the image cached for the first mix is output for the second",
    G + '''
#[test]
fn mix() {
    let (a, b) = (one("a.exr", 0.25), one("b.exr", 0.5));
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(1000);
    read(&mut g, 1, &a);
    read(&mut g, 2, &b);
    node(&mut g, NodeType::MergeImage, 3);
    g.set_node_attr_i32(3, "mode", 1);
    g.connect(1, 3, 0);
    g.connect(2, 3, 1);
    g.set_node_attr_f32(3, "mix", 1.0);
    assert!(g.execute(3, &[1.0], &mut c) == OK);
    g.set_node_attr_f32(3, "mix", 0.5);
    assert!(g.execute(3, &[1.0], &mut c) == OK);
    assert_eq!(px(&g)[0], 0.25 + 0.5 * (0.75 * 0.5));
}''')
new("k02-transform-center", "K02", [("src/node/transform.rs", "        HashableF32::new(self.rotate_center_y).hash(state);\n", "        if self.rotate_center_x != 0.0 {\n            HashableF32::new(self.rotate_center_y).hash(state);\n        }\n")],
    "two transforms that differ in rotate_center_y only, with rotate_center_x 0", "both streams have the same hash though they deform differently",
    G + '''
#[test]
fn hash() {
    let a = one("a.exr", 0.25);
    let mut hashes = vec![];
    for y in [0.25f32, 0.75] {
        let mut g = create_graph_box();
        let mut c = create_cache_box_with_capacity(0);
        read(&mut g, 1, &a);
        node(&mut g, NodeType::Transform, 2);
        g.connect(1, 2, 0);
        g.set_node_attr_f32(2, "rotate", 30.0);
        g.set_node_attr_f32(2, "rotate_center_x", 0.0);
        g.set_node_attr_f32(2, "rotate_center_y", y);
        assert!(g.execute(2, &[1.0], &mut c) == OK);
        hashes.push(g.output_stream().inner.inner().hash());
    }
    assert_ne!(hashes[0], hashes[1]);
}''')
new("i01-above", "I01", [("src/pixelblock/pixelblock.rs", "let dst_offset_x = diff_window.min_x - crop_window.min_x;", "let dst_offset_x = (diff_window.min_x - crop_window.min_x).min(data_window.width() - 1);")],
    "a crop window that begins further left of the image than the image is wide", "the pixels move",
    G + '''
#[test]
fn crop() {
    let a = vp_stubs::pic("a.exr", [0, 0, 2, 1], [0, 0, 2, 1], 1, vec![0.25, 0.5]);
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::CropImage, 2);
    g.connect(1, 2, 0);
    g.set_node_attr_i32(2, "window_min_x", -3);
    g.set_node_attr_i32(2, "window_min_y", 0);
    g.set_node_attr_i32(2, "window_max_x", 2);
    g.set_node_attr_i32(2, "window_max_y", 1);
    g.set_node_attr_i32(2, "black_outside", 0);
    assert!(g.execute(2, &[1.0], &mut c) == OK);
    assert_eq!(px(&g), vec![0.0, 0.0, 0.0, 0.25, 0.5]);
}''')
new("a01-path-trim", "A01", [("src/node/write_image.rs", "\"file_path\" => self.file_path = value.to_string(),", "\"file_path\" => self.file_path = value.trim_end().to_string(),")],
    "a file path ending in a space", "the attribute does not read back as set",
    G + '''
#[test]
fn attr() {
    let mut g = create_graph_box();
    node(&mut g, NodeType::WriteImage, 1);
    g.set_node_attr_str(1, "file_path", "a b ");
    assert_eq!(g.get_node_attr_str(1, "file_path"), "a b ");
}''')
new("s01-half-frame", "S01", [("src/node/write_image.rs", "let frame_num = frame.round().trunc() as i32;\n    let path", "let frame_num = (frame + 0.5).trunc() as i32;\n    let path")],
    "a negative frame", "negative frames are written to the file of the frame after",
    G + '''
static mut PATH: String = String::new();
fn wr(p: &String, _i: &ImageShared, _c: &ImageCompression) -> bool { unsafe { PATH = p.clone(); } true }
#[test]
fn frame() {
    let a = one("a.exr", 0.25);
    unsafe { vp_stubs::WRITE = Some(wr); }
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::WriteImage, 2);
    g.connect(1, 2, 0);
    g.set_node_attr_i32(2, "execute", 1);
    g.set_node_attr_str(2, "file_path", "out.####.exr");
    assert!(g.execute(2, &[-3.0], &mut c) == OK);
    assert_eq!(unsafe { (*std::ptr::addr_of!(PATH)).as_str() }, "out.-003.exr");
}''')
new("o01-alpha-only", "O01", [("src/node/grade.rs", "(process_b != 0) || (process_a != 0));", "(process_b != 0));")],
    "a grade that processes the alpha channel only", "the alpha channel is not graded",
    G + '''
#[test]
fn alpha() {
    let a = one("a.exr", 0.25);
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::Grade, 2);
    g.connect(1, 2, 0);
    for n in ["process_r", "process_g", "process_b"] { g.set_node_attr_i32(2, n, 0); }
    g.set_node_attr_i32(2, "process_a", 1);
    g.set_node_attr_f32(2, "offset_a", 0.5);
    assert!(g.execute(2, &[1.0], &mut c) == OK);
    let mut p = px(&g);
    g.output_stream().inner.apply_color_ops(&mut p, 4);
    assert_eq!(p, vec![0.25, 0.25, 0.25, 0.75]);
}''')
new("d01-lens-curvature", "D01", [("src/deformer/tde4_classic.rs", "\"curvature_y\" => self.curvature_y = value,", "\"curvature_y\" => self.curvature_x = value,")],
    "a lens with a vertical curvature", "the vertical curvature acts as the horizontal one",
    G + '''
fn dist(p: &vp_stubs::Plugin, _d: bool, x: f64, y: f64) -> (f64, f64) {
    let get = |n: &str| p.params.iter().find(|e| e.0.contains(n)).map(|e| e.1).unwrap_or(0.0);
    (x + get("Curvature X"), y + 2.0 * get("Curvature Y"))
}
fn move_by(attr: &str) -> Vec<f32> {
    unsafe { vp_stubs::DISTORT = Some(dist); }
    let a = one("a.exr", 0.25);
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::LensDistort, 2);
    g.connect(1, 2, 0);
    g.set_node_attr_f32(2, attr, 0.25);
    assert!(g.execute(2, &[1.0], &mut c) == OK);
    let mut p = vec![0.25f32, 0.25, 0.0];
    let w = BBox2Df { min_x: -0.5, min_y: -0.5, max_x: 0.5, max_y: 0.5 };
    g.output_stream().inner.apply_deformers(&mut p, w, w);
    p
}
#[test]
fn lens() {
    assert_ne!(move_by("curvature_x")[0], 0.25);
    assert_ne!(move_by("curvature_y")[1], 0.25);
}''')
new("f01-unassociated", "F01", [("src/ops/bake.rs", "let unassociated_alpha = image_spec.unassociated_alpha();", "let unassociated_alpha = image_spec.unassociated_alpha() && num_channels > 4;")],
    "a viewer converts an image with unassociated alpha to another colour space", "the conversion treats the alpha as associated",
    G + '''
static mut SEEN: bool = false;
fn col(_p: &mut [f32], _w: i32, _h: i32, _c: i32, _a: i32, u: bool, _s: &str, _d: &str) -> bool { unsafe { SEEN |= u; } true }
fn rd(_p: &String, image: &mut ImageShared) -> bool {
    *image.pixel_block = PixelBlock::new(BlockSize::new(1, 1, 4), DataType::Float32);
    image.data_window = BBox2Di { min_x: 0, min_y: 0, max_x: 1, max_y: 1 };
    image.display_window = image.data_window;
    image.spec.set_unassociated_alpha(true);
    image.spec.set_color_space("Linear".to_string());
    true
}
#[test]
fn unassociated() {
    let a = one("a.exr", 0.25);
    unsafe { vp_stubs::READ = Some(rd); vp_stubs::COLOR = Some(col); }
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::Viewer, 2);
    g.connect(1, 2, 0);
    g.set_node_attr_i32(2, "bake_option", 1);
    g.set_node_attr_str(2, "bake_color_space", "sRGB");
    assert!(g.execute(2, &[1.0], &mut c) == OK);
    assert!(unsafe { SEEN });
}''')
new("w01-jfif", "W01", [("src/node/write_image.rs", "        || path_expanded.ends_with(\".jfi\")\n", "        || path_expanded.contains(\".jfi\")\n")],
    "a file that is no JPEG but has .jfi inside its name", "it is converted to sRGB",
    G + '''
static mut TO: String = String::new();
fn col(_p: &mut [f32], _w: i32, _h: i32, _c: i32, _a: i32, _u: bool, _s: &str, d: &str) -> bool { unsafe { TO = d.to_string(); } true }
#[test]
fn linear() {
    let a = one("a.exr", 0.25);
    unsafe { vp_stubs::COLOR = Some(col); }
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::WriteImage, 2);
    g.connect(1, 2, 0);
    g.set_node_attr_i32(2, "execute", 1);
    g.set_node_attr_str(2, "file_path", "out.jfi.exr");
    assert!(g.execute(2, &[1.0], &mut c) == OK);
    assert_ne!(unsafe { (*std::ptr::addr_of!(TO)).as_str() }, "sRGB");
}''')
new("r01-cached-window", "R01", [("src/node/read_image.rs", "cached_img.display_window,", "cached_img.data_window,")],
    "an image whose display window is not its data window is read a second time, from the cache", "the display window is wrong on a cache hit",
    G + '''
#[test]
fn window() {
    let a = vp_stubs::pic("a.exr", [1, 1, 2, 2], [0, 0, 4, 4], 4, vec![0.25; 4]);
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(1000);
    read(&mut g, 1, &a);
    for _ in 0..2 {
        assert!(g.execute(1, &[1.0], &mut c) == OK);
        assert_eq!(g.output_stream().inner.display_window().max_x, 4);
    }
}''')
new("x01-index-below", "X01", [("src/pixelblock/blocksize.rs", "if (index_x < 0) ||", "if (index < 0) ||")],
    "a position left of the image in any row but the first", "its index is that of a pixel at the end of the row above instead of -1",
    '''
#[test]
fn outside() {
    let b = BlockSize::new(2, 2, 3);
    assert_eq!(b.get_index(-1, 1), -1);
}''')
new("n01-negative-enable", "N01", [("src/node/grade.rs", "let has_work_to_do = enable == 1\n", "let has_work_to_do = enable != 0\n")],
    "an enable value that is neither 0 nor 1", "a node that counts as disabled acts",
    G + '''
#[test]
fn enable() {
    let a = one("a.exr", 0.25);
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    node(&mut g, NodeType::Grade, 2);
    g.connect(1, 2, 0);
    g.set_node_attr_i32(2, "enable", 2);
    g.set_node_attr_i32(2, "process_r", 1);
    g.set_node_attr_f32(2, "offset_r", 0.5);
    assert!(g.execute(2, &[1.0], &mut c) == OK);
    let mut p = px(&g);
    g.output_stream().inner.apply_color_ops(&mut p, 4);
    assert_eq!(p, vec![0.25; 4]);
}''')
new("m01-border", "M01", [("src/geom/plane.rs", "        let top_row = self.divisions_y - 1;\n", "        let top_row = self.divisions_x - 1;\n")],
    "a plane with more divisions one way than the other", "a border line runs inside the plane or beyond it",
    '''
#[test]
fn border() {
    let p = crate::geom::plane::create_geometry_plane_box(0.0, 0.0, 1.0, 1.0, 2, 4);
    let mut b = vec![0u32; p.calc_buffer_size_index_border_lines()];
    p.fill_buffer_index_border_lines(&mut b);
    let mut e: Vec<(u32, u32)> = b.chunks(2).map(|c| (c[0].min(c[1]), c[0].max(c[1]))).collect();
    e.sort();
    e.dedup();
    assert_eq!(e.len() * 2, b.len());
    assert!(e.contains(&(6, 7)));
}''')
new("l01-channels", "L01", [("src/colorlutimage.rs", "    hasher.write_i32(num_channels);\n    hasher.write(b\"Color Ops Hash\");", "    hasher.write_i32(num_channels.max(3));\n    hasher.write(b\"Color Ops Hash\");")],
    "a one-dimensional and a three-dimensional table of the same corrections from one cache", "the second request gets the table of the first",
    '''
#[test]
fn channels() {
    let s = StreamDataImplRc::new();
    let mut c = create_cache_box_with_capacity(100000);
    let a = crate::colorlutimage::get_color_ops_lut(&s, 2, 3, &mut c);
    let b = crate::colorlutimage::get_color_ops_lut(&s, 2, 1, &mut c);
    assert_eq!(a.pixel_block.num_channels(), 3);
    assert_eq!(b.pixel_block.num_channels(), 1);
}''')
new("p01-four-gigabytes", "P01", [("src/config.rs", "let capacity_bytes = (ram_bytes as f32 * ram_factor) as usize;", "let capacity_bytes = (ram_bytes as f32 * ram_factor) as u32 as usize;")],
    "a share of 4 GB or more", "the capacity is cut to 4 GB",
    '''
#[test]
fn share() {
    unsafe { vp_stubs::TOTAL_MEMORY = 1 << 36; }
    let d = std::env::var("VP_SCRATCH").unwrap();
    std::fs::write(format!("{}/c.yaml", d), "cache:\\n  ram_capacity_percent: 50.0\\nthreading:\\n  num_threads: 0\\n").unwrap();
    std::env::set_var("OPENCOMPGRAPH_CONFIG_PATH", &d);
    std::env::set_var("OCG_CONFIG_PATH", &d);
    let c = crate::config::get_config("c.yaml");
    assert_eq!(c.inner.cache_ram_capacity_bytes(), 1 << 35);
}''')
