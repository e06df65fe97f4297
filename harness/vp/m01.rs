//@ entry vp_m01_vertices covers=1,2 time=300
//@ entry vp_m01_faces covers=1 time=300
//@ entry vp_m01_lines covers=1 time=300
//@ entry vp_m01_divisions covers=1 time=300
//@ entry vp_m01_large covers=1,2,3 time=300
//@ bound and 2x300, 300x2 and 18x17 divisions
//@ bound planes of 2 to 7 (thorough: 11) divisions each way, any size and centre (symbolic floats); counts for up to 1000 divisions
use super::sup::*;
use crate::geom::plane::*;

const MAX: u64 = if THOROUGH { 10 } else { 6 };
fn opaque(x: f32) -> f32 { let v = x; unsafe { std::ptr::read_volatile(&v) } }
fn plane(x: u32, y: u32) -> Box<GeometryPlaneImpl> { create_geometry_plane_box(any_f32(1), any_f32(2), any_f32(3), any_f32(4), x, y) }
fn divisions() -> (u32, u32) { (2 + pick(11, MAX) as u32, 2 + pick(12, MAX) as u32) }
fn between(lo: f32, hi: f32, t: f32) -> f32 { (opaque(1.0) - t) * lo + t * hi }
/// vertices lie on a regular grid, row by row, and map onto the texture upside down
#[no_mangle]
pub extern "C" fn vp_m01_vertices() { let (dx, dy) = divisions(); if vertices(dx, dy) { cover(1); } else { cover(2); } }
fn vertices(dx: u32, dy: u32) -> bool {
    let (cx, cy, sx, sy) = (any_f32(1), any_f32(2), any_f32(3), any_f32(4));
    let p = create_geometry_plane_box(cx, cy, sx, sy, dx, dy);
    check(p.center_x().to_bits() == cx.to_bits() && p.center_y().to_bits() == cy.to_bits(), 1);
    check(p.size_x().to_bits() == sx.to_bits() && p.size_y().to_bits() == sy.to_bits(), 2);
    check(p.divisions_x() == dx && p.divisions_y() == dy, 3);
    let n = (dx * dy) as usize;
    check(p.calc_count_vertex_positions() == n && p.calc_count_vertex_uvs() == n, 4);
    check(p.calc_buffer_size_vertex_positions() == 3 * n && p.calc_buffer_size_vertex_uvs() == 2 * n, 5);
    let extra = pick(13, 2);
    let mut a = vec![7.0f32; 3 * n + extra];
    let mut b = vec![7.0f32; 2 * n + extra];
    check(p.fill_buffer_vertex_positions(&mut a) && p.fill_buffer_vertex_uvs(&mut b), 6);
    let (hx, hy) = (sx / 2.0, sy / 2.0);
    let (ux, uy) = (opaque(1.0) / opaque((dx - 1) as f32), opaque(1.0) / opaque((dy - 1) as f32));
    let mut i = 0;
    let mut r = 0;
    while r < dy {
        let mut c = 0;
        while c < dx {
            let (tx, ty) = (opaque(c as f32) * ux, opaque(r as f32) * uy);
            check(same(a[3 * i], between(-hx, hx, tx) - cx), 10);
            check(same(a[3 * i + 1], between(-hy, hy, ty) - cy), 11);
            check(a[3 * i + 2] == 0.0, 12);
            check(same(b[2 * i], tx), 13);
            check(same(b[2 * i + 1], opaque(1.0) - ty), 14);
            i += 1;
            c += 1;
        }
        r += 1;
    }
    if extra == 1 { check(a[3 * n] == 7.0 && b[2 * n] == 7.0, 15); }
    extra == 1
}
/// every cell is covered by two triangles of the same orientation
#[no_mangle]
pub extern "C" fn vp_m01_faces() { let (dx, dy) = divisions(); faces(dx, dy); cover(1); }
fn faces(dx: u32, dy: u32) {
    let p = plane(dx, dy);
    let n = ((dx - 1) * (dy - 1)) as usize;
    check(p.calc_buffer_size_index_tris() == 6 * n, 20);
    let mut a = vec![99u32; 6 * n + 1];
    check(p.fill_buffer_index_tris(&mut a), 21);
    check(a[6 * n] == 99, 22);
    let mut seen = vec![0u8; 2 * n];
    let mut t = 0;
    while t < 2 * n {
        let (u, v, w) = (a[3 * t], a[3 * t + 1], a[3 * t + 2]);
        check(u < dx * dy && v < dx * dy && w < dx * dy, 23);
        let (p0, p1, p2) = ((u % dx, u / dx), (v % dx, v / dx), (w % dx, w / dx));
        let (x, y) = (p0.0.min(p1.0).min(p2.0), p0.1.min(p1.1).min(p2.1));
        check(p0.0.max(p1.0).max(p2.0) == x + 1 && p0.1.max(p1.1).max(p2.1) == y + 1, 24);
        let area = (p1.0 as i32 - p0.0 as i32) * (p2.1 as i32 - p0.1 as i32) - (p2.0 as i32 - p0.0 as i32) * (p1.1 as i32 - p0.1 as i32);
        check(area == -1, 25);
        let cell = (y * (dx - 1) + x) as usize;
        let has = |q: (u32, u32)| p0 == q || p1 == q || p2 == q;
        let (tl, tr, bl, br) = (has((x, y)), has((x + 1, y)), has((x, y + 1)), has((x + 1, y + 1)));
        check(tl && br && (tr != bl), 27);
        seen[2 * cell + tr as usize] += 1;
        t += 1;
    }
    t = 0;
    while t < 2 * n { check(seen[t] == 1, 28); t += 1; }
}
/// the border is drawn once, and the wires are the edges of every cell
#[no_mangle]
pub extern "C" fn vp_m01_lines() { let (dx, dy) = divisions(); lines(dx, dy); cover(1); }
fn lines(dx: u32, dy: u32) {
    let p = plane(dx, dy);
    let n = (2 * (dx - 1) + 2 * (dy - 1)) as usize;
    check(p.calc_buffer_size_index_border_lines() == 2 * n, 30);
    let mut a = vec![99u32; 2 * n + 1];
    check(p.fill_buffer_index_border_lines(&mut a), 31);
    check(a[2 * n] == 99, 32);
    // horizontal and vertical edges seen
    let m = (dx * dy) as usize;
    let (mut hor, mut ver) = (vec![0u8; m], vec![0u8; m]);
    let mut i = 0;
    while i < n {
        let (u, v) = (a[2 * i].min(a[2 * i + 1]), a[2 * i].max(a[2 * i + 1]));
        check(v < m as u32, 33);
        if v == u + 1 && v / dx == u / dx { hor[u as usize] += 1; } else { check(v == u + dx, 34); ver[u as usize] += 1; }
        i += 1;
    }
    i = 0;
    while i < m {
        let (x, y) = (i as u32 % dx, i as u32 / dx);
        check(hor[i] == (x + 1 < dx && (y == 0 || y + 1 == dy)) as u8, 35);
        check(ver[i] == (y + 1 < dy && (x == 0 || x + 1 == dx)) as u8, 36);
        i += 1;
    }
    let n = ((dx - 1) * (dy - 1)) as usize;
    check(p.calc_buffer_size_index_wire_lines() == 8 * n, 40);
    let mut a = vec![99u32; 8 * n + 1];
    check(p.fill_buffer_index_wire_lines(&mut a), 41);
    check(a[8 * n] == 99, 42);
    // every edge once for each cell it borders
    let (mut hor, mut ver) = (vec![0u8; m], vec![0u8; m]);
    i = 0;
    while i < 4 * n {
        let (u, v) = (a[2 * i].min(a[2 * i + 1]), a[2 * i].max(a[2 * i + 1]));
        check(v < m as u32, 43);
        if v == u + 1 && v / dx == u / dx { hor[u as usize] += 1; } else { check(v == u + dx, 44); ver[u as usize] += 1; }
        i += 1;
    }
    i = 0;
    while i < m {
        let (x, y) = (i as u32 % dx, i as u32 / dx);
        check(hor[i] == if x + 1 == dx { 0 } else { (y > 0) as u8 + (y + 1 < dy) as u8 }, 45);
        check(ver[i] == if y + 1 == dy { 0 } else { (x > 0) as u8 + (x + 1 < dx) as u8 }, 46);
        i += 1;
    }
}
/// buffer sizes follow the divisions
#[no_mangle]
pub extern "C" fn vp_m01_divisions() {
    let mut p = plane(2, 3);
    let (dx, dy) = (2 + pick(11, 4) as u32, range_i32(12, 2, 1000) as u32);
    p.set_divisions_x(dx);
    check(p.divisions_x() == dx && p.divisions_y() == 3, 50);
    p.set_divisions_y(dy);
    check(p.divisions_x() == dx && p.divisions_y() == dy, 51);
    let (n, m) = ((dx * dy) as usize, ((dx - 1) * (dy - 1)) as usize);
    check(p.calc_buffer_size_vertex_positions() == 3 * n && p.calc_buffer_size_vertex_uvs() == 2 * n, 52);
    check(p.calc_buffer_size_index_tris() == 6 * m && p.calc_buffer_size_index_wire_lines() == 8 * m, 53);
    check(p.calc_buffer_size_index_border_lines() == 4 * ((dx - 1) + (dy - 1)) as usize, 54);
    let (a, b, c, d) = (any_f32(21), any_f32(22), any_f32(23), any_f32(24));
    p.set_center_x(a);
    p.set_center_y(b);
    p.set_size_x(c);
    p.set_size_y(d);
    check(p.center_x().to_bits() == a.to_bits() && p.center_y().to_bits() == b.to_bits(), 55);
    check(p.size_x().to_bits() == c.to_bits() && p.size_y().to_bits() == d.to_bits(), 56);
    check(p.divisions_x() == dx && p.divisions_y() == dy, 57);
    cover(1);
}
/// more vertices than fit a byte
#[no_mangle]
pub extern "C" fn vp_m01_large() {
    let k = pick(30, 3);
    let (dx, dy) = [(2, 300), (300, 2), (18, 17)][k];
    vertices(dx, dy);
    faces(dx, dy);
    lines(dx, dy);
    cover(1 + k as u32);
}
