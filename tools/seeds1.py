import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import new
IMG = '''
fn image(bytes: i32) -> CachedImage {
    CachedImage { pixel_block: Rc::new(PixelBlock::new(BlockSize::new(bytes, 1, 1), DataType::UInt8)), spec: ImageSpec::new(),
        data_window: BBox2Di { min_x: 0, min_y: 0, max_x: bytes, max_y: 1 }, display_window: BBox2Di { min_x: 0, min_y: 0, max_x: bytes, max_y: 1 } }
}
'''
new("c01-zero-capacity", "C01", [("src/cache.rs", "        if value < self.used_bytes {\n", "        if value > 0 && value < self.used_bytes {\n")],
    "the capacity is lowered to exactly 0 while the cache holds something", "lowering the capacity to zero keeps every entry: more bytes used than allowed",
    IMG + '''
#[test]
fn zero() {
    let mut c = create_cache_box_with_capacity(100);
    c.insert(1, image(10));
    c.set_capacity_bytes(0);
    assert!(c.used_bytes() <= c.capacity_bytes());
}''')
new("c02-get-order", "C02", [("src/cache.rs", "self.lru_hash_map.get_refresh(key)", "self.lru_hash_map.get_mut(key)")],
    "an entry is looked up, and a later insert has to evict", "a lookup no longer refreshes an entry: the most recently used one is evicted",
    IMG + '''
#[test]
fn order() {
    let mut c = create_cache_box_with_capacity(20);
    c.insert(1, image(10));
    c.insert(2, image(10));
    assert!(c.get(&1).is_some());
    c.insert(3, image(10));
    assert!(c.get(&1).is_some());
    assert!(c.get(&2).is_none());
}''')
G = '''
fn node(g: &mut GraphImpl, t: NodeType, id: u64) { g.add_node(create_node_box_with_id(t, id)); }
fn first(g: &GraphImpl) -> f32 { g.output_stream().inner.inner().pixel_block().as_slice_f32()[0] }
'''
new("g02-stale-status", "G02", [("src/graph.rs", "                self.status = ExecuteStatus::Error;\n                warn!(\"Node id not found: id={}\", start_node_id);\n", "                warn!(\"Node id not found: id={}\", start_node_id);\n")],
    "an execution of an unknown node after a successful execution", "executing a node that does not exist reports the status of the previous execution",
    G + '''
#[test]
fn stale() {
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    node(&mut g, NodeType::Null, 1);
    assert!(g.execute(1, &[1.0], &mut c) == ExecuteStatus::Success);
    assert!(g.execute(7, &[1.0], &mut c) == ExecuteStatus::Error);
    assert!(g.execute_status() == ExecuteStatus::Error);
}''')
new("g03-over-alpha", "G03", [("src/ops/imagemerge.rs", "                    let mask = (1.0 - a_a) * mix;\n                    let r = r_a + (r_b * mask);\n                    let g = g_a + (g_b * mask);\n                    let b = b_a + (b_b * mask);\n                    let a = a_a + (a_b * mask);", "                    let mask = (1.0 - a_a) * mix;\n                    let r = r_a + (r_b * mask);\n                    let g = g_a + (g_b * mask);\n                    let b = b_a + (b_b * mask);\n                    let a = a_a + (a_b * (1.0 - a_a));")],
    "an Over merge of images with an alpha channel and a mix other than 1", "the alpha of an Over merge ignores the mix",
    G + '''
#[test]
fn over() {
    let a = vp_stubs::pic("a.exr", [0, 0, 1, 1], [0, 0, 1, 1], 4, vec![0.5, 0.5, 0.5, 0.25]);
    let b = vp_stubs::pic("b.exr", [0, 0, 1, 1], [0, 0, 1, 1], 4, vec![0.5, 0.25, 0.5, 0.5]);
    let mut g = create_graph_box();
    let mut c = create_cache_box_with_capacity(0);
    node(&mut g, NodeType::ReadImage, 1);
    node(&mut g, NodeType::ReadImage, 2);
    node(&mut g, NodeType::MergeImage, 3);
    g.set_node_attr_str(1, "file_path", &a);
    g.set_node_attr_str(2, "file_path", &b);
    g.set_node_attr_i32(3, "mode", 1);
    g.set_node_attr_f32(3, "mix", 0.5);
    g.connect(1, 3, 0);
    g.connect(2, 3, 1);
    assert!(g.execute(3, &[1.0], &mut c) == ExecuteStatus::Success);
    let s = g.output_stream().inner;
    let i = s.inner();
    assert_eq!(i.pixel_block().as_slice_f32()[3], 0.25 + 0.5 * (0.75 * 0.5));
}''')
