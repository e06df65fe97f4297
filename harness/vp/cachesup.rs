//! Cache driver shared by the two cache properties: runs symbolic histories of cache operations
//! against the real cache and a list-based reference.
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::pixelblock::pixelblock::PixelBlock;
use std::rc::Rc;

pub fn bbox(a: i32, b: i32, c: i32, d: i32) -> BBox2Di { BBox2Di { min_x: a, min_y: b, max_x: c, max_y: d } }

/// A cached image of `bytes` pixel bytes whose other fields carry `mark`.
pub fn image(bytes: usize, shape: usize, mark: i32) -> CachedImage {
    // the same number of bytes, as 8-bit pixels or as fewer, wider ones
    let mut pb = match shape {
        1 if bytes % 2 == 0 => PixelBlock::new(BlockSize::new((bytes / 2) as i32, 1, 1), DataType::UInt16),
        2 if bytes % 4 == 0 => PixelBlock::new(BlockSize::new(1, 1, (bytes / 4) as i32), DataType::Float32),
        3 if bytes % 2 == 0 => PixelBlock::new(BlockSize::new(1, (bytes / 2) as i32, 1), DataType::Half16),
        _ => PixelBlock::new(BlockSize::new(bytes as i32, 1, 1), DataType::UInt8),
    };
    if pb.data_type() == DataType::UInt8 { for v in pb.as_mut_slice_u8().iter_mut() { *v = mark as u8; } }
    let mut spec = ImageSpec::new();
    spec.set_gamma(mark as f32);
    CachedImage { pixel_block: Rc::new(pb), spec, data_window: bbox(mark, 1, 2, mark + 3), display_window: bbox(4, mark, mark + 5, 6) }
}

#[derive(Clone)]
pub struct Ref { pub cap: usize, pub items: Vec<(u64, usize, i32)> } // least recently used first
impl Ref {
    pub fn used(&self) -> usize { let mut n = 0; let mut i = 0; while i < self.items.len() { n += self.items[i].1; i += 1; } n }
    fn pos(&self, k: u64) -> Option<usize> { let mut i = 0; while i < self.items.len() { if self.items[i].0 == k { return Some(i); } i += 1; } None }
    fn shrink(&mut self, limit: usize) { while self.items.len() > 0 && self.used() > limit { self.items.remove(0); } }
    pub fn insert(&mut self, k: u64, n: usize, mark: i32) {
        if self.cap == 0 || n > self.cap { return; }
        if let Some(i) = self.pos(k) { self.items.remove(i); }
        let room = self.cap - n;
        self.shrink(room);
        self.items.push((k, n, mark));
    }
    pub fn get(&mut self, k: u64) -> Option<(usize, i32)> {
        let i = self.pos(k)?;
        let it = self.items.remove(i);
        self.items.push(it);
        Some((it.1, it.2))
    }
    pub fn set_cap(&mut self, v: usize) { self.cap = v; self.shrink(v); }
    pub fn evict(&mut self) -> bool { if self.items.len() == 0 { return false; } self.items.remove(0); true }
    pub fn evict_all(&mut self) { self.items.clear(); }
    pub fn evict_bytes(&mut self, n: usize) {
        let u = self.used();
        let limit = if n > u { 0 } else { u - n };
        self.shrink(limit);
    }
}

pub struct Sys { pub c: Box<CacheImpl>, pub r: Ref, pub keys: Vec<u64>, pub next: i32, pub content: bool, pub account: bool }
impl Sys {
    pub fn new(cap: usize, keys: Vec<u64>, account: bool, content: bool) -> Sys {
        Sys { c: create_cache_box_with_capacity(cap), r: Ref { cap, items: Vec::new() }, keys, next: 10, content, account }
    }
    pub fn insert(&mut self, k: u64, n: usize, shape: usize) {
        let m = self.next;
        self.next += 1;
        self.c.insert(k, image(n, shape, m));
        self.r.insert(k, n, m);
    }
    pub fn get(&mut self, k: u64) {
        let e = self.r.get(k);
        let g = self.c.get(&k);
        if self.content {
            match (g, e) {
                (Some(v), Some((n, m))) => {
                    check(v.data_window == bbox(m, 1, 2, m + 3) && v.display_window == bbox(4, m, m + 5, 6), 1);
                    check(v.spec.gamma() == m as f32, 6);
                    if v.pixel_block.data_type() == DataType::UInt8 { for x in v.pixel_block.as_slice_u8().iter() { check(*x == m as u8, 7); } }
                    check(v.pixel_block.size_bytes() == n && v.size_bytes() == n, 2);
                }
                (None, None) => (),
                (Some(_), None) => check(false, 3),
                (None, Some(_)) => check(false, 4),
            }
        }
    }
    /// what can be asked without disturbing the order
    pub fn observe(&mut self) {
        if self.account {
            check(self.c.used_bytes() == self.r.used(), 10);
            check(self.c.len() == self.r.items.len(), 11);
            check(self.c.capacity_bytes() == self.r.cap, 12);
            check(self.c.used_bytes() <= self.c.capacity_bytes(), 13);
        }
    }
    /// every key, and that nothing but the reference's entries is held
    pub fn finish(&mut self) {
        let mut i = 0;
        let mut total = 0;
        let mut n = 0;
        while i < self.keys.len() {
            let k = self.keys[i];
            if self.account { if let Some(v) = self.c.get(&k) { total += v.pixel_block.size_bytes(); n += 1; } } else { self.get(k); }
            i += 1;
        }
        if self.account {
            check(self.c.used_bytes() == total, 14);
            check(self.c.len() == n, 15);
        }
    }
}

fn size(t: u32) -> (usize, usize) { let s = [3usize, 8, 0][pick(t, 3)]; (s, 0) }

/// `n` arbitrary operations from the state reached so far
pub fn ops(s: &mut Sys, n: usize) {
    let mut i = 0;
    while i < n {
        match pick(20, 6) {
            0 => { let k = s.keys[pick(21, s.keys.len() as u64)]; let (b, sh) = size(22); cover(1); s.insert(k, b, sh); }
            1 => { let k = s.keys[pick(23, s.keys.len() as u64)]; cover(2); s.get(k); }
            2 => { let e = s.r.evict(); cover(3); let g = s.c.evict(); if s.content { check(g == e, 5); } }
            3 => { let n = range_u64(24, 0, 24) as usize; cover(4); s.r.evict_bytes(n); s.c.evict_bytes(n); }
            4 => { let v = range_u64(25, 0, 24) as usize; cover(5); s.r.set_cap(v); s.c.set_capacity_bytes(v); }
            _ => { cover(6); s.r.evict_all(); s.c.evict_all(); }
        }
        s.observe();
        i += 1;
    }
}
