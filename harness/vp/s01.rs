//@ entry vp_s01_write covers=1,2,3,4 time=100
//@ entry vp_s01_read covers=1,2,3 time=100
//@ entry vp_s01_digits covers=1,2 time=100
//@ entry vp_s01_neg covers=1,2 time=100
//@ entry vp_s01_frames covers=1 time=100
//@ entry vp_s01_hash covers=1,2 time=100
//@ entry vp_s01_long covers=1,2,3 time=100
//@ bound padding of up to 12 characters, directories of 200 characters, and names outside ASCII, by choice, each with a symbolic ASCII character after the padding
//@ bound paths of up to 6 (thorough: 8) characters, each '#' or any other ASCII character except '$' and '~' (symbolic)
//@ bound every integer frame -9999..=99999 (symbolic) on padding of 1 to 5 characters; the extreme 32-bit frames and fractional frames by choice
//@ assume home-directory and environment-variable expansion ('~' and '$') is outside the claim
use super::dsup::*;
use super::gsup::*;
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::cxxbridge::ffi::*;
use crate::graph::*;
use crate::node::*;

static mut PATH: Option<Vec<u8>> = None;
fn note(p: &[u8]) { unsafe { PATH = Some(p.to_vec()); } }
fn write(p: &String, _i: &ImageShared, _c: &ImageCompression) -> bool { note(p.as_bytes()); true }
fn kind(_p: &[u8]) -> u8 { 1 }
fn read(p: &String, i: &mut ImageShared) -> bool { note(p.as_bytes()); i.pixel_block.data_resize(BlockSize::new(1, 1, 3), DataType::Float32); i.data_window = win([0, 0, 1, 1]); i.display_window = win([0, 0, 1, 1]); true }
fn seen() -> Vec<u8> { unsafe { (*std::ptr::addr_of_mut!(PATH)).take().unwrap() } }

/// decimal digits of v, at least `width` characters, zeros after the sign
fn number(v: i32, width: usize) -> Vec<u8> {
    let mut d = Vec::new();
    let mut m = (v as i64).abs();
    loop { d.push(b'0' + (m % 10) as u8); m /= 10; if m == 0 { break; } }
    let sign = if v < 0 { 1 } else { 0 };
    while d.len() + sign < width { d.push(b'0'); }
    if sign == 1 { d.push(b'-'); }
    d.reverse();
    d
}
/// the first run of '#' becomes the frame number
fn expanded(p: &[u8], frame: i32) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    let mut done = false;
    while i < p.len() {
        if p[i] == b'#' && !done {
            let mut n = 0;
            while i < p.len() && p[i] == b'#' { n += 1; i += 1; }
            for c in number(frame, n) { o.push(c); }
            done = true;
        } else { o.push(p[i]); i += 1; }
    }
    o
}
fn path(t: u32, max: usize) -> Vec<u8> {
    let n = pick(t, max as u64 + 1);
    let mut b = Vec::new();
    let mut i = 0;
    while i < n {
        if pick(t + 1, 2) == 0 { b.push(b'#'); } else { let c = any_u8(t + 2); assume(c != b'#' && c != b'$' && c != b'~' && c != 0 && c < 128); b.push(c); }
        i += 1;
    }
    b
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut ok = true; let mut i = 0; while i < a.len() { ok &= a[i] == b[i]; i += 1; } ok }
fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
const FRAMES: [i32; 6] = [7, -7, 1001, 0, i32::MIN, i32::MAX];

/// the file a write node writes
fn wrote(p: &[u8], frame: f64) -> Vec<u8> {
    unsafe { stubs::WRITE = Some(write); }
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::Null, 1));
    g.add_node(create_node_box_with_id(NodeType::WriteImage, 2));
    g.connect(1, 2, 0);
    g.set_node_attr_str(2, "file_path", text(p));
    check(g.execute(2, &[frame], &mut cache) == ExecuteStatus::Success, 1);
    check(same_bytes(g.get_node_attr_str(2, "file_path").as_bytes(), p), 2);
    seen()
}
#[no_mangle]
pub extern "C" fn vp_s01_write() {
    setup();
    let p = path(1, if THOROUGH { 8 } else { 5 });
    let f = FRAMES[pick(5, 6)];
    let e = expanded(&p, f);
    check(same_bytes(&wrote(&p, f as f64), &e), 10);
    if p.len() > 0 && e.len() == p.len() { cover(1); }
    if p.len() > 3 && p[0] == b'#' && p[1] != b'#' && p[2] == b'#' { cover(2); }
    if p.len() == 4 && p[1] == b'#' && p[2] == b'#' { cover(3); }
    if e.len() > p.len() + 8 { cover(4); }
}
/// the file a read node reads
#[no_mangle]
pub extern "C" fn vp_s01_read() {
    setup();
    unsafe { stubs::READ = Some(read); stubs::FILE_KIND = Some(kind); }
    let mut p = vec![b'/'];
    let n = 1 + pick(1, if THOROUGH { 5 } else { 4 });
    let mut i = 0;
    while i < n {
        if pick(2, 2) == 0 { p.push(b'#'); } else { let c = any_u8(3); assume(c != b'#' && c != b'$' && c != b'~' && c != b'/' && c != b'.' && c > 32 && c < 127); p.push(c); }
        i += 1;
    }
    let f = FRAMES[pick(5, 6)];
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.set_node_attr_str(1, "file_path", text(&p));
    check(g.execute(1, &[f as f64], &mut cache) == ExecuteStatus::Success, 1);
    check(g.node_status(1) == NodeStatus::Valid, 2);
    let e = expanded(&p, f);
    check(same_bytes(&seen(), &e), 10);
    cover(1);
    if p.len() > 2 && p[1] == b'#' && p[2] == b'#' { cover(2); }
    if e.len() == p.len() { cover(3); }
}
/// every frame number, every width
fn digits(lo: i32, hi: i32) {
    setup();
    let w = 1 + pick(1, 5);
    let mut p = vec![b'a'];
    let mut i = 0;
    while i < w { p.push(b'#'); i += 1; }
    p.push(b'.');
    let f = range_i32(2, lo, hi);
    let got = crate::pathutils::expand_string(text(&p).to_string(), f);
    // decode: the digits spell the frame, zero padded to the width
    let g = got.as_bytes();
    check(g.len() >= w + 2 && g[0] == b'a' && g[g.len() - 1] == b'.', 1);
    let d = &g[1..g.len() - 1];
    let neg = d[0] == b'-';
    let d = if neg { &d[1..] } else { d };
    let mut v: i32 = 0;
    let mut ok = true;
    let mut i = 0;
    while i < d.len() { ok &= d[i] >= b'0' && d[i] <= b'9'; v = v * 10 + (d[i].wrapping_sub(b'0')) as i32; i += 1; }
    check(ok, 2);
    check(neg == (f < 0), 3);
    check((if neg { -v } else { v }) == f, 4);
    // no longer than needed
    let len = d.len() + neg as usize;
    check(len == w || (len > w && d[0] != b'0'), 5);
    cover(1);
    if len > w { cover(2); }
}
#[no_mangle] pub extern "C" fn vp_s01_digits() { digits(0, if THOROUGH { 99999999 } else { 99999 }) }
#[no_mangle] pub extern "C" fn vp_s01_neg() { digits(if THOROUGH { -9999999 } else { -9999 }, -1) }
/// fractional frames are rounded to the nearest whole frame
#[no_mangle]
pub extern "C" fn vp_s01_frames() {
    setup();
    let (f, e) = [(1.0, 1), (1.25, 1), (1.49, 1), (1.75, 2), (-1.25, -1), (-1.75, -2), (0.25, 0), (-0.25, 0), (99.9, 100)][pick(1, 9)];
    let c = any_u8(2);
    assume(c > b'/' && c < 127 && c != b'~');
    let p = [c, b'#', b'#', b'#', c];
    check(same_bytes(&wrote(&p, f), &expanded(&p, e)), 1);
    cover(1);
}
/// what is read, and the hash of the stream, follow the frame exactly when the path has padding
#[no_mangle]
pub extern "C" fn vp_s01_hash() {
    setup();
    unsafe { stubs::READ = Some(read); stubs::FILE_KIND = Some(kind); }
    let p: &[u8] = if pick(1, 2) == 0 { b"/a#" } else { b"/ab" };
    let (f1, f2) = (1 + pick(2, 12) as i32, 1 + pick(3, 12) as i32);
    let mut g = create_graph_box();
    let mut cache = create_cache_box_with_capacity(0);
    g.add_node(create_node_box_with_id(NodeType::ReadImage, 1));
    g.set_node_attr_str(1, "file_path", text(p));
    check(g.execute(1, &[f1 as f64], &mut cache) == ExecuteStatus::Success, 1);
    let (a, h1) = (seen(), out(&g).hash());
    check(g.execute(1, &[f2 as f64], &mut cache) == ExecuteStatus::Success, 2);
    let (b, h2) = (seen(), out(&g).hash());
    let same = p[2] != b'#' || f1 == f2;
    check(same_bytes(&a, &b) == same, 3);
    check((h1 == h2) == same, 4);
    if same { cover(1); } else { cover(2); }
}
/// long and foreign names
#[no_mangle]
pub extern "C" fn vp_s01_long() {
    setup();
    let mut p = Vec::new();
    let k = pick(1, 3);
    match k { 0 => (), 1 => { p.push(b'/'); let mut i = 0; while i < 200 { p.push(b'd'); i += 1; } p.push(b'/'); } _ => for c in "/\u{e9}\u{65e5}\u{123}\u{1f600}".bytes() { p.push(c); } }
    let n = [0, 1, 4, 10, 12][pick(2, 5)];
    let mut i = 0;
    while i < n { p.push(b'#'); i += 1; }
    let c = any_u8(3);
    assume(c > b'/' && c < 127 && c != b'~' && c != b'#');
    p.push(c);
    if pick(4, 2) == 1 { for c in "\u{e9}.##".bytes() { p.push(c); } }
    let f = FRAMES[pick(5, 6)];
    check(same_bytes(&wrote(&p, f as f64), &expanded(&p, f)), 10);
    cover(1 + k as u32);
}
