//! Graphs, images and a recursive reference evaluator shared by the graph properties.
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;
use crate::pixelblock::pixelblock::PixelBlock;
use crate::stream::*;
use std::rc::Rc;

pub type W = [i32; 4];
pub fn win(w: W) -> BBox2Di { BBox2Di { min_x: w[0], min_y: w[1], max_x: w[2], max_y: w[3] } }
pub fn arr(b: BBox2Di) -> W { [b.min_x, b.min_y, b.max_x, b.max_y] }

/// A float image: data window, display window, channels, pixels.
#[derive(Clone)]
pub struct Img { pub dw: W, pub disp: W, pub ch: usize, pub px: Vec<f32> }
impl Img {
    pub fn w(&self) -> i32 { self.dw[2] - self.dw[0] }
    pub fn h(&self) -> i32 { self.dw[3] - self.dw[1] }
    /// value at a position of the plane, 0 outside the data window (and for a channel the image does not have)
    pub fn at(&self, x: i32, y: i32, c: usize) -> f32 {
        if x < self.dw[0] || y < self.dw[1] || x >= self.dw[2] || y >= self.dw[3] || c >= self.ch { return 0.0; }
        self.px[(((y - self.dw[1]) * self.w() + (x - self.dw[0])) as usize) * self.ch + c]
    }
    /// symbolic pixel values in 0..=1
    pub fn any(t: u32, dw: W, disp: W, ch: usize) -> Img {
        let n = ((dw[2] - dw[0]) * (dw[3] - dw[1])) as usize * ch;
        let mut px = Vec::new();
        let mut i = 0;
        while i < n { px.push(pos_f32(t, 0.0, 1.0)); i += 1; }
        Img { dw, disp, ch, px }
    }
    /// distinct fixed pixel values
    pub fn fixed(seed: f32, dw: W, disp: W, ch: usize) -> Img {
        let n = ((dw[2] - dw[0]) * (dw[3] - dw[1])) as usize * ch;
        let mut px = Vec::new();
        let mut i = 0;
        while i < n { px.push(seed + 0.0625 * (i as f32)); i += 1; }
        Img { dw, disp, ch, px }
    }
    /// what a node without an image outputs: the colour bars
    pub fn bars() -> Img {
        Img { dw: [0, 0, 4, 4], disp: [0, 0, 4, 4], ch: 3, px: crate::data::COLOR_BARS.to_vec() }
    }
}
pub fn to_block(i: &Img) -> PixelBlock {
    let mut pb = PixelBlock::new(BlockSize::new(i.w(), i.h(), i.ch as i32), DataType::Float32);
    pb.as_mut_slice_f32().copy_from_slice(&i.px);
    pb
}

/// The files of the stand-in file system: the last byte of the path selects the image.
pub static mut FILES: Vec<(u8, Img)> = Vec::new();
pub fn file(name: u8) -> Option<&'static Img> {
    unsafe { let f = &*std::ptr::addr_of!(FILES); let mut i = 0; while i < f.len() { if f[i].0 == name { return Some(&f[i].1); } i += 1; } }
    None
}
fn read(path: &String, image: &mut ImageShared) -> bool {
    let b = path.as_bytes();
    if b.len() == 0 { return false; }
    match file(b[b.len() - 1]) {
        None => false,
        Some(i) => {
            *image.pixel_block = to_block(i);
            image.data_window = win(i.dw);
            image.display_window = win(i.disp);
            true
        }
    }
}
fn kind(path: &[u8]) -> u8 { if path.len() > 0 && file(path[path.len() - 1]).is_some() { 1 } else { 0 } }
pub fn setup() { unsafe { FILES = Vec::new(); stubs::READ = Some(read); stubs::FILE_KIND = Some(kind); stubs::READS = 0; } }
pub fn add_file(name: u8, i: Img) { unsafe { (*std::ptr::addr_of_mut!(FILES)).push((name, i)); } }

pub fn f32_at(b: &[u8], i: usize) -> f32 { f32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]) }
pub fn out(g: &GraphImpl) -> Box<StreamDataImplRc> { g.output_stream().inner }
/// the stream's image, when its pixels are 32-bit floats
pub fn stream_img(s: &StreamDataImplRc) -> Img {
    let (w, h, c) = (s.pixel_width(), s.pixel_height(), s.pixel_num_channels());
    check(s.pixel_data_type() == DataType::Float32, 900);
    let i = s.inner();
    let b = i.pixel_block();
    let px = b.as_slice_f32().to_vec();
    check(px.len() == (w * h * c) as usize, 901);
    Img { dw: arr(s.data_window()), disp: arr(s.display_window()), ch: c as usize, px }
}
/// the stream shows exactly the image `e`
pub fn expect(s: &StreamDataImplRc, e: &Img, id: u32) {
    let g = stream_img(s);
    check(g.dw == e.dw, id);
    check(g.disp == e.disp, id + 1);
    check(g.ch == e.ch && g.px.len() == e.px.len(), id + 2);
    check(s.pixel_width() == e.w() && s.pixel_height() == e.h(), id + 3);
    let mut ok = true;
    let mut i = 0;
    while i < e.px.len() { ok &= same(g.px[i], e.px[i]); i += 1; }
    check(ok, id + 4);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Read(u8), Null, Merge(i32, f32) }
pub struct RNode { pub id: u64, pub kind: Kind, pub alive: bool, pub ins: Vec<(u8, usize)> }
pub struct Ref { pub nodes: Vec<RNode> }
#[derive(Clone, Copy, PartialEq)]
pub struct Cycle;

pub fn merge(mode: i32, mix: f32, a: &Img, b: &Img) -> Img {
    let dw = [a.dw[0].min(b.dw[0]), a.dw[1].min(b.dw[1]), a.dw[2].max(b.dw[2]), a.dw[3].max(b.dw[3])];
    let mut px = Vec::new();
    let mut y = dw[1];
    while y < dw[3] {
        let mut x = dw[0];
        while x < dw[2] {
            let aa = a.at(x, y, 3);
            let mask = if mode == 1 { (1.0 - aa) * mix } else { mix };
            let mut c = 0;
            while c < b.ch {
                let (va, vb) = (a.at(x, y, c), b.at(x, y, c));
                px.push(if mode == 2 { va * (vb * mask) } else { va + (vb * mask) });
                c += 1;
            }
            x += 1;
        }
        y += 1;
    }
    Img { dw, disp: b.disp, ch: b.ch, px }
}

impl Ref {
    pub fn new() -> Ref { Ref { nodes: Vec::new() } }
    pub fn find(&self, id: u64) -> Option<usize> {
        let mut i = 0;
        while i < self.nodes.len() { if self.nodes[i].alive && self.nodes[i].id == id { return Some(i); } i += 1; }
        None
    }
    pub fn disconnect(&mut self, d: usize, input: u8) {
        let ins = &mut self.nodes[d].ins;
        let mut i = 0;
        while i < ins.len() { if ins[i].0 == input { ins.remove(i); } else { i += 1; } }
    }
    pub fn connect(&mut self, s: usize, d: usize, input: u8) {
        self.disconnect(d, input);
        let ins = &mut self.nodes[d].ins;
        let mut i = 0;
        while i < ins.len() && ins[i].0 < input { i += 1; }
        ins.insert(i, (input, s));
    }
    pub fn remove(&mut self, n: usize) {
        self.nodes[n].alive = false;
        self.nodes[n].ins.clear();
        let mut d = 0;
        while d < self.nodes.len() {
            let ins = &mut self.nodes[d].ins;
            let mut i = 0;
            while i < ins.len() { if ins[i].1 == n { ins.remove(i); } else { i += 1; } }
            d += 1;
        }
    }
    /// does following the connections upstream from n ever come back to a node on the way?
    pub fn cyclic(&self, n: usize, on: &mut Vec<usize>) -> bool {
        if on.contains(&n) { return true; }
        on.push(n);
        for (_, s) in self.nodes[n].ins.iter() { if self.cyclic(*s, on) { return true; } }
        on.pop();
        false
    }
    pub fn eval(&self, n: usize) -> Img {
        let d = &self.nodes[n];
        match d.kind {
            Kind::Read(f) => match file(f) { Some(i) => i.clone(), None => Img::bars() },
            Kind::Null => if d.ins.len() > 0 { self.eval(d.ins[0].1) } else { Img::bars() },
            Kind::Merge(mode, mix) => {
                if d.ins.len() == 0 { return Img::bars(); }
                let a = self.eval(d.ins[0].1);
                let b = if d.ins.len() > 1 { self.eval(d.ins[1].1) } else { Img::bars() };
                merge(mode, mix, &a, &b)
            }
        }
    }
}

/// The real graph and the reference, driven together.
pub struct Sys { pub g: Box<GraphImpl>, pub r: Ref, pub cache: Box<CacheImpl> }
impl Sys {
    pub fn new(cap: usize) -> Sys { Sys { g: create_graph_box(), r: Ref::new(), cache: create_cache_box_with_capacity(cap) } }
    pub fn add(&mut self, id: u64, kind: Kind) {
        let t = match kind { Kind::Read(_) => NodeType::ReadImage, Kind::Null => NodeType::Null, Kind::Merge(..) => NodeType::MergeImage };
        self.g.add_node(create_node_box_with_id(t, id));
        match kind {
            Kind::Read(f) => { let p = ["/", std::str::from_utf8(&[f]).unwrap()].concat(); self.g.set_node_attr_str(id, "file_path", &p); }
            Kind::Merge(m, x) => { self.g.set_node_attr_i32(id, "mode", m); self.g.set_node_attr_f32(id, "mix", x); }
            _ => (),
        }
        self.r.nodes.push(RNode { id, kind, alive: true, ins: Vec::new() });
    }
    pub fn connect(&mut self, s: u64, d: u64, input: u8) {
        self.g.connect(s, d, input);
        if let (Some(a), Some(b)) = (self.r.find(s), self.r.find(d)) { self.r.connect(a, b, input); }
    }
    pub fn disconnect(&mut self, d: u64, input: u8) {
        self.g.disconnect_input(d, input);
        if let Some(b) = self.r.find(d) { self.r.disconnect(b, input); }
    }
    pub fn remove(&mut self, n: u64, id: u32) {
        let e = self.r.find(n);
        check(self.g.remove_node(n) == e.is_some(), id);
        if let Some(i) = e { self.r.remove(i); }
    }
    /// execute node `n` and compare with the reference: ids id.. id+9
    pub fn run(&mut self, n: u64, frame: f64, id: u32) -> bool {
        let st = self.g.execute(n, &[frame], &mut self.cache);
        check(self.g.execute_status() == st, id + 8);
        match self.r.find(n) {
            None => { check(st == ExecuteStatus::Error, id + 5); false }
            Some(i) => {
                if self.r.cyclic(i, &mut Vec::new()) { check(st == ExecuteStatus::Error, id + 6); return false; }
                check(st == ExecuteStatus::Success, id + 7);
                check(self.g.state() == GraphState::Clean, id + 9);
                let e = self.r.eval(i);
                expect(&out(&self.g), &e, id);
                true
            }
        }
    }
}
