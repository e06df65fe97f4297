import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import new
G = '''
fn node(g: &mut GraphImpl, t: NodeType, id: u64) { g.add_node(create_node_box_with_id(t, id)); }
fn read(g: &mut GraphImpl, id: u64, path: &str) { node(g, NodeType::ReadImage, id); g.set_node_attr_str(id, "file_path", path); }
fn px(g: &GraphImpl) -> Vec<f32> { g.output_stream().inner.inner().pixel_block().as_slice_f32().to_vec() }
const OK: ExecuteStatus = ExecuteStatus::Success;
'''
new("b01-other-window", "B01", [("src/node/merge_image.rs", "        &mut pixel_block_b,\n        display_window_b,\n", "        &mut pixel_block_b,\n        display_window_a,\n")],
    "the second image has another display window than the first, and a pending transform", "the second image is deformed in the frame of the first: not what finishing it before the merge gives",
    G + '''
fn run(first: bool) -> Vec<f32> {
    let a = vp_stubs::pic("a.exr", [0, 0, 2, 1], [0, 0, 2, 1], 4, vec![0.0; 8]);
    let b = vp_stubs::pic("b.exr", [0, 0, 4, 1], [0, 0, 8, 1], 4, (0..16).map(|i| i as f32).collect());
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    read(&mut g, 1, &a);
    read(&mut g, 2, &b);
    node(&mut g, NodeType::Transform, 3);
    g.set_node_attr_f32(3, "translate_x", 8.0);
    g.connect(2, 3, 0);
    node(&mut g, NodeType::Viewer, 5);
    g.set_node_attr_i32(5, "bake_option", 3);
    g.set_node_attr_i32(5, "bake_pixel_data_type", 0);
    g.set_node_attr_str(5, "bake_color_space", "Linear");
    g.set_node_attr_i32(5, "crop_to_format", 0);
    g.connect(3, 5, 0);
    node(&mut g, NodeType::MergeImage, 4);
    g.set_node_attr_i32(4, "mode", 0);
    g.connect(1, 4, 0);
    g.connect(if first { 5 } else { 3 }, 4, 1);
    assert!(g.execute(4, &[1.0], &mut c) == OK);
    px(&g)
}
#[test]
fn windows() { assert_eq!(run(false), run(true)); }''')
new("t01-sign", "T01", [("src/node/resample_image.rs", "let interpolate = attr_block.get_attr_i32(\"interpolate\") != 0;", "let interpolate = attr_block.get_attr_i32(\"interpolate\") != 0 && factor > 0;")],
    "an image is made smaller with interpolation", "the image is made smaller without interpolation",
    G + '''
static mut SEEN: Vec<(i32, bool)> = Vec::new();
fn rs(_s: &mut ImageShared, d: &mut ImageShared, n: i32, i: bool) -> bool {
    unsafe { (*std::ptr::addr_of_mut!(SEEN)).push((n, i)); }
    *d.pixel_block = PixelBlock::new(BlockSize::new(1, 1, 4), DataType::Float32);
    true
}
#[test]
fn resample() {
    let a = vp_stubs::pic("a.exr", [0, 0, 2, 1], [0, 0, 2, 1], 4, vec![0.0; 8]);
    unsafe { vp_stubs::RESAMPLE = Some(rs); }
    for f in [2, -2] {
        let mut g = create_graph_box();
        let mut c = create_cache_box_with_capacity(0);
        read(&mut g, 1, &a);
        node(&mut g, NodeType::ResampleImage, 2);
        g.connect(1, 2, 0);
        g.set_node_attr_i32(2, "factor", f);
        g.set_node_attr_i32(2, "interpolate", 1);
        assert!(g.execute(2, &[1.0], &mut c) == OK);
    }
    assert_eq!(unsafe { &*std::ptr::addr_of!(SEEN) }, &vec![(2, true), (-2, true)]);
}''')
