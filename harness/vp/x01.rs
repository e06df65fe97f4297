//@ entry vp_x01_convert covers=1,2,3 time=300
//@ entry vp_x01_lossless8 covers=1 time=300
//@ entry vp_x01_lossless16 covers=1 time=300
//@ entry vp_x01_to_int covers=1,2,3 time=300
//@ entry vp_x01_half covers=1,2 time=300
//@ entry vp_x01_new covers=1 time=300
//@ entry vp_x01_resize covers=1,2,3 time=300
//@ entry vp_x01_index covers=1,2 time=300
//@ entry vp_x01_rows covers=1 time=300
//@ entry vp_x01_window covers=1,2,3 time=300
//@ entry vp_x01_area covers=1 time=300
//@ entry vp_x01_share covers=1 time=300
//@ entry vp_x01_large covers=1,2 time=300
//@ entry vp_x01_strip covers=1,2 time=300
//@ bound indexing also for widths 1920, 4097 and 65537 with any height and position up to 3000; conversion of strips of 300 pixels with fixed values and one symbolic one
//@ bound blocks of up to 3x3 pixels of 1 to 4 channels (indexing: every width up to 5 (thorough: 16), height up to 1000, position from -1000 to 1000) in every pixel data type with symbolic values; windows with symbolic 15-bit corners
//@ assume the half crate's own conversion between f16 and f32 is right (its software path is executed symbolically)
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cxxbridge::ffi::*;
use crate::pixelblock::datablock::*;
use crate::pixelblock::dataslice::*;
use crate::pixelblock::pixelblock::index::BlockIndex;
use crate::pixelblock::pixelblock::row::*;
use crate::pixelblock::pixelblock::PixelBlock;
use crate::pixelblock::utils::*;
use crate::stream::*;
use half::f16;
use std::rc::Rc;

const TYPES: [DataType; 4] = [DataType::Float32, DataType::Half16, DataType::UInt8, DataType::UInt16];
fn bytes_of(t: DataType) -> usize { match t { DataType::Float32 => 4, DataType::UInt8 => 1, _ => 2 } }
fn opaque(x: f32) -> f32 { let v = x; unsafe { std::ptr::read_volatile(&v) } }
/// raw values of the elements
fn raw(b: &PixelBlock, i: usize) -> u32 {
    match b.as_slice() {
        DataSlice::Float32(v) => v[i].to_bits(),
        DataSlice::Half16(v) => v[i].to_bits() as u32,
        DataSlice::UInt8(v) => v[i] as u32,
        DataSlice::UInt16(v) => v[i] as u32,
    }
}
fn fill(b: &mut PixelBlock, i: usize, x: u32) {
    match b.as_mut_slice() {
        DataSliceMut::Float32(v) => v[i] = f32::from_bits(x),
        DataSliceMut::Half16(v) => v[i] = f16::from_bits(x as u16),
        DataSliceMut::UInt8(v) => v[i] = x as u8,
        DataSliceMut::UInt16(v) => v[i] = x as u16,
    }
}
fn any_raw(t: u32, ty: DataType) -> u32 { match ty { DataType::Float32 => any_u32(t), DataType::UInt8 => any_u8(t) as u32, _ => any_u16(t) as u32 } }
/// `x` as a float between 0 and 1 for the integer types
fn value(x: u32, ty: DataType) -> f32 {
    match ty {
        DataType::Float32 => f32::from_bits(x),
        DataType::Half16 => f16::from_bits(x as u16).to_f32(),
        DataType::UInt8 => (x as u8) as f32 / opaque(255.0),
        _ => (x as u16) as f32 / opaque(65535.0),
    }
}
fn is(b: &PixelBlock, i: usize, v: f32) -> bool {
    match b.as_slice() {
        DataSlice::Float32(p) => same(p[i], v),
        DataSlice::Half16(p) => { let w = f16::from_f32(v); p[i].to_bits() == w.to_bits() || (p[i].is_nan() && w.is_nan()) }
        DataSlice::UInt8(p) => p[i] == (v * opaque(255.0)) as u8,
        DataSlice::UInt16(p) => p[i] == (v * opaque(65535.0)) as u16,
    }
}
/// every element is converted on its own, in place
#[no_mangle]
pub extern "C" fn vp_x01_convert() {
    let (from, to) = (TYPES[pick(1, 4)], TYPES[pick(2, 4)]);
    let (w, h, c) = [(1, 2, 1), (1, 1, 3), (0, 0, 4)][pick(3, 3)];
    let n = (w * h * c) as usize;
    let mut b = PixelBlock::new(BlockSize::new(w, h, c), from);
    let mut xs = Vec::new();
    let mut i = 0;
    while i < n { let x = any_raw(10 + i as u32, from); xs.push(x); fill(&mut b, i, x); i += 1; }
    b.convert_into_data_type(to);
    check(b.data_type() == to && b.width() == w && b.height() == h && b.num_channels() == c, 1);
    check(b.size_bytes() == n * bytes_of(to), 2);
    i = 0;
    while i < n {
        if from == to { check(raw(&b, i) == xs[i], 3); } else { check(is(&b, i, value(xs[i], from)), 4); }
        i += 1;
    }
    cover(if from == to { 1 } else if n == 0 { 2 } else { 3 });
}
fn one(ty: DataType, x: u32) -> PixelBlock { let mut b = PixelBlock::new(BlockSize::new(1, 1, 1), ty); fill(&mut b, 0, x); b }
/// 8 bits survive the way through float and 16 bits, in order
#[no_mangle]
pub extern "C" fn vp_x01_lossless8() {
    let x = any_u8(1);
    let mut b = one(DataType::UInt8, x as u32);
    b.convert_into_data_type(DataType::Float32);
    let f = b.as_slice_f32()[0];
    check(f >= 0.0 && f <= 1.0 && (x != 0 || f == 0.0) && (x != 255 || f == 1.0), 10);
    b.convert_into_data_type(DataType::UInt8);
    check(b.as_slice_u8()[0] == x, 11);
    let mut b = one(DataType::UInt8, x as u32);
    b.convert_into_data_type(DataType::UInt16);
    check(b.as_slice_u16()[0] as u32 == x as u32 * 257, 12);
    b.convert_into_data_type(DataType::UInt8);
    check(b.as_slice_u8()[0] == x, 13);
    cover(1);
}
#[no_mangle]
pub extern "C" fn vp_x01_lossless16() {
    let x = any_u16(1);
    let mut b = one(DataType::UInt16, x as u32);
    b.convert_into_data_type(DataType::Float32);
    let f = b.as_slice_f32()[0];
    check(f >= 0.0 && f <= 1.0 && (x != 0 || f == 0.0) && (x != 65535 || f == 1.0), 15);
    b.convert_into_data_type(DataType::UInt16);
    check(b.as_slice_u16()[0] == x, 16);
    cover(1);
}
/// floats outside 0..1 become the ends of the integer range, those inside keep their place
#[no_mangle]
pub extern "C" fn vp_x01_to_int() {
    let x = any_f32(1);
    let (mut a, mut b) = (one(DataType::Float32, x.to_bits()), one(DataType::Float32, x.to_bits()));
    a.convert_into_data_type(DataType::UInt8);
    b.convert_into_data_type(DataType::UInt16);
    let (p, q) = (a.as_slice_u8()[0], b.as_slice_u16()[0]);
    if x.is_nan() || x <= 0.0 { check(p == 0 && q == 0, 20); cover(1); }
    else if x >= 1.0 { check(p == 255 && q == 65535, 21); cover(2); }
    else {
        check(p as f32 <= x * opaque(255.0) && x * opaque(255.0) < p as f32 + 1.0, 22);
        check(q as f32 <= x * opaque(65535.0) && x * opaque(65535.0) < q as f32 + 1.0, 23);
        cover(3);
    }
}
/// a half is exactly representable as a float
#[no_mangle]
pub extern "C" fn vp_x01_half() {
    let x = any_u16(1);
    let nan = (x & 0x7c00) == 0x7c00 && (x & 0x3ff) != 0;
    let mut b = one(DataType::Half16, x as u32);
    check(b.as_slice_f16_fake().len() == 1 && b.as_slice_f16_fake()[0] == x, 25);
    b.convert_into_data_type(DataType::Float32);
    check(b.as_slice_f32()[0].is_nan() == nan, 26);
    b.convert_into_data_type(DataType::Half16);
    check(nan || raw(&b, 0) == x as u32, 27);
    let y = any_u16(2);
    b.as_mut_slice_f16_fake()[0] = y;
    check(raw(&b, 0) == y as u32, 28);
    cover(if nan { 1 } else { 2 });
}
/// new blocks are black, blocks made of given values hold them
#[no_mangle]
pub extern "C" fn vp_x01_new() {
    let ty = TYPES[pick(1, 4)];
    let (w, h, c) = (pick(2, 4) as i32, pick(3, 3) as i32, 1 + pick(4, 4) as i32);
    let n = (w * h * c) as usize;
    let b = PixelBlock::new(BlockSize::new(w, h, c), ty);
    check(b.width() == w && b.height() == h && b.num_channels() == c && b.size() == n && b.data_type() == ty, 30);
    check(b.size_bytes() == n * bytes_of(ty) && channel_size_bytes(ty) == bytes_of(ty) && ty.size_bytes() == bytes_of(ty), 31);
    let mut i = 0;
    while i < n { check(raw(&b, i) == 0, 32); i += 1; }
    let e = PixelBlock::empty(ty);
    check(e.width() == 0 && e.height() == 0 && e.num_channels() == 0 && e.size_bytes() == 0 && e.data_type() == ty, 33);
    let k = stride_num_channels(c, ty);
    check(k == if ty == DataType::Float32 { c as usize } else { 4 }, 34);
    let (x, y, z, a) = (any_f32(5), any_f32(6), any_f32(7), any_f32(8));
    let p = PixelBlock::new_constant_pixel_rgba_f32(x, y, z, a);
    let s = p.as_slice_f32();
    check(p.width() == 1 && p.height() == 1 && p.num_channels() == 4 && s.len() == 4, 35);
    check(same(s[0], x) && same(s[1], y) && same(s[2], z) && same(s[3], a), 36);
    let u = [any_u16(9), any_u16(10), any_u16(11)];
    let d = PixelBlock::from_datablock(BlockSize::new(1, 3, 1), DataBlock::from_slice_u16(&u));
    check(d.data_type() == DataType::UInt16 && d.as_slice_u16()[0] == u[0] && d.as_slice_u16()[1] == u[1] && d.as_slice_u16()[2] == u[2], 37);
    let v = [any_u8(12), any_u8(13)];
    let d = PixelBlock::from_datablock(BlockSize::new(2, 1, 1), DataBlock::from_slice_u8(&v));
    check(d.data_type() == DataType::UInt8 && d.as_slice_u8()[0] == v[0] && d.as_slice_u8()[1] == v[1], 38);
    cover(1);
}
/// resizing keeps the leading values of the same type, and the rest is 1.0
#[no_mangle]
pub extern "C" fn vp_x01_resize() {
    let (from, to) = (TYPES[pick(1, 4)], TYPES[pick(2, 4)]);
    let sizes = [(0, 0, 3), (2, 1, 1), (1, 2, 2), (3, 1, 3), (2, 2, 4)];
    let (s, t) = (sizes[pick(3, 5)], sizes[pick(4, 5)]);
    let (n, m) = ((s.0 * s.1 * s.2) as usize, (t.0 * t.1 * t.2) as usize);
    let mut b = PixelBlock::new(BlockSize::new(s.0, s.1, s.2), from);
    let mut xs = Vec::new();
    let mut i = 0;
    while i < n { let x = any_raw(10, from); xs.push(x); fill(&mut b, i, x); i += 1; }
    b.data_resize(BlockSize::new(t.0, t.1, t.2), to);
    check(b.width() == t.0 && b.height() == t.1 && b.num_channels() == t.2 && b.data_type() == to, 40);
    check(b.size_bytes() == m * bytes_of(to) && b.size() == m, 41);
    let one = match to { DataType::Float32 => 0x3f80_0000, DataType::Half16 => 0x3c00, DataType::UInt8 => 255, _ => 65535 };
    i = 0;
    while i < m {
        check(raw(&b, i) == if from == to && i < n { xs[i] } else { one }, 42);
        i += 1;
    }
    cover(if from != to { 1 } else if m > n { 2 } else { 3 });
}
/// positions and indices are each other's inverse; positions outside have none
#[no_mangle]
pub extern "C" fn vp_x01_index() {
    let c = 1 + pick(1, 4) as i32;
    let (w, h) = (pick(2, if THOROUGH { 17 } else { 6 }) as i32, range_i32(3, 0, 1000));
    let (x, y) = (range_i32(4, -1000, 1000), range_i32(5, -1000, 1000));
    let s = BlockSize::new(w, h, c);
    let inside = x >= 0 && x < w && y >= 0 && y < h;
    let i = s.get_index(x, y);
    check(get_pixel_index(w, h, c, w * c, x, y) == i, 50);
    if inside {
        check(i == ((y * w + x) * c) as isize, 51);
        check(i >= 0 && i as usize + c as usize <= s.size(), 52);
        check(s.get_xy(i as usize) == (x, y), 53);
        let k = range_i32(6, 0, c - 1);
        check(s.get_xy((i + k as isize) as usize) == (x, y), 54);
        let b = BlockIndex::from_xy(s, x as usize, y as usize);
        let u: usize = b.into();
        check(u == i as usize && b.column() == x as usize && b.row() == y as usize, 55);
        let b = BlockIndex::from_index(s, (i + k as isize) as usize);
        check(b.column() == x as usize && b.row() == y as usize, 56);
        cover(1);
    } else { check(i == -1, 57); cover(2); }
}
/// rows are the consecutive parts of the block
#[no_mangle]
pub extern "C" fn vp_x01_rows() {
    let (w, h, c) = (1 + pick(1, 3) as i32, pick(2, 4) as i32, 1 + pick(3, 4) as i32);
    let mut b = PixelBlock::new(BlockSize::new(w, h, c), DataType::Float32);
    let n = (w * c) as usize;
    let mut xs = Vec::new();
    let mut i = 0;
    while i < n * h as usize { let x = any_u32(5); xs.push(x); b.as_mut_slice_f32()[i] = f32::from_bits(x); i += 1; }
    let mut r = 0;
    for row in b.rows() {
        check(row.row_index == r && row.has_next(), 60);
        let s = row.as_slice();
        check(s.len() == n, 61);
        let mut k = 0;
        while k < n { check(s[k].to_bits() == xs[r * n + k] && row[k].to_bits() == xs[r * n + k], 62); k += 1; }
        let t = b.row(r);
        check(t.as_slice().len() == n && t[n - 1].to_bits() == xs[r * n + n - 1], 63);
        r += 1;
    }
    check(r == h as usize, 64);
    cover(1);
}
fn any_win(t: u32, neg: bool) -> BBox2Di {
    let (a, b) = (range_i32(t, -16384, 16383), range_i32(t + 1, -16384, 16383));
    let (c, d) = (range_i32(t + 2, -16384, 16383), range_i32(t + 3, -16384, 16383));
    assume(a <= c && b <= d);
    BBox2Di::new(a, b, c, d)
}
fn holds(w: &BBox2Di, x: i32, y: i32) -> bool { x >= w.min_x && x < w.max_x && y >= w.min_y && y < w.max_y }
/// a point is in the intersection when in both windows, and the union is the least window around both
#[no_mangle]
pub extern "C" fn vp_x01_window() {
    let (a, b) = (any_win(1, false), any_win(5, false));
    let (x, y) = (range_i32(9, -20000, 20000), range_i32(10, -20000, 20000));
    let i = BBox2Di::intersection(a, b);
    check(holds(&i, x, y) == (holds(&a, x, y) && holds(&b, x, y)), 70);
    check(i.width() >= 0 && i.height() >= 0, 71);
    let u = BBox2Di::combine(a, b);
    check(!(holds(&a, x, y) || holds(&b, x, y)) || holds(&u, x, y), 72);
    check(u.min_x == a.min_x.min(b.min_x) && u.min_y == a.min_y.min(b.min_y) && u.max_x == a.max_x.max(b.max_x) && u.max_y == a.max_y.max(b.max_y), 73);
    check(a.width() == a.max_x - a.min_x && a.height() == a.max_y - a.min_y, 74);
    let f = BBox2Df::from(a);
    check(f.min_x == a.min_x as f32 && f.min_y == a.min_y as f32 && f.max_x == a.max_x as f32 && f.max_y == a.max_y as f32, 75);
    if holds(&i, x, y) { cover(1); } else if holds(&u, x, y) { cover(2); } else { cover(3); }
}
/// size of a window
#[no_mangle]
pub extern "C" fn vp_x01_area() {
    let (w, h) = (pick(1, 6) as i32, range_i32(2, 0, 1000));
    let (x, y) = (range_i32(3, -16384, 16383), range_i32(4, -16384, 16383));
    let a = if any_u8(5) & 1 == 0 { BBox2Di::new(x, y, x + w, y + h) } else { BBox2Di::new(x, y, x + h, y + w) };
    check(a.area() == (w * h) as u32, 76);
    cover(1);
}
/// a stream's pixels are not changed through another stream sharing them
#[no_mangle]
pub extern "C" fn vp_x01_share() {
    let (x, y) = (any_f32(1), any_f32(2));
    let mut b = PixelBlock::new(BlockSize::new(1, 1, 1), DataType::Float32);
    b.as_mut_slice_f32()[0] = x;
    let mut s = StreamDataImpl::new();
    s.set_pixel_block(Rc::new(b));
    let mut t = s.clone();
    let held = s.pixel_block();
    t.pixel_block_as_mut().as_mut_slice_f32()[0] = y;
    let mut c = s.clone_pixel_block();
    c.as_mut_slice_f32()[0] = y;
    check(same(s.pixel_block().as_slice_f32()[0], x) && same(held.as_slice_f32()[0], x), 80);
    check(same(t.pixel_block().as_slice_f32()[0], y), 81);
    check(s.size_bytes() == 4 && t.size_bytes() == 4, 82);
    cover(1);
}
/// big images
#[no_mangle]
pub extern "C" fn vp_x01_large() {
    let c = [1, 4][pick(1, 2)];
    let (w, h) = ([1920, 4097, 65537][pick(2, 3)], range_i32(3, 1, 3000));
    let (x, y) = (range_i32(4, -1, 70000), range_i32(5, -1, 3000));
    let s = BlockSize::new(w, h, c);
    check(s.width() == w && s.height() == h && s.num_channels() == c && s.size() == w as usize * h as usize * c as usize, 80);
    let i = s.get_index(x, y);
    if x >= 0 && x < w && y >= 0 && y < h {
        check(i == (y as isize * w as isize + x as isize) * c as isize, 81);
        cover(1);
    } else { check(i == -1, 82); cover(2); }
}
#[no_mangle]
pub extern "C" fn vp_x01_strip() {
    let (from, to) = (TYPES[pick(1, 4)], TYPES[pick(2, 4)]);
    let (w, h) = [(300, 1), (1, 100)][pick(3, 2)];
    let n = (3 * w * h) as usize;
    let mut b = PixelBlock::new(BlockSize::new(w, h, 3), from);
    let mut xs = Vec::new();
    let mut i = 0;
    while i < n {
        // the half of this value, a float and the integers
        let k = (i as u32 * 37) % 251;
        let x = if from == DataType::Float32 { (k as f32 / 256.0).to_bits() } else if from == DataType::Half16 { 0x3000 + k } else { k };
        xs.push(x);
        fill(&mut b, i, x);
        i += 1;
    }
    b.convert_into_data_type(to);
    check(b.data_type() == to && b.width() == w && b.height() == h && b.num_channels() == 3 && b.size_bytes() == n * bytes_of(to), 83);
    i = 0;
    while i < n { check(if from == to { raw(&b, i) == xs[i] } else { is(&b, i, value(xs[i], from)) }, 84); i += 1; }
    // resized to fewer and more
    let mut r = PixelBlock::new(BlockSize::new(w, h, 3), from);
    i = 0;
    while i < n { fill(&mut r, i, xs[i]); i += 1; }
    r.data_resize(BlockSize::new(w + 1, h, 3), from);
    i = 0;
    while i < n { check(raw(&r, i) == xs[i], 85); i += 1; }
    if from == to { cover(1); } else { cover(2); }
}
