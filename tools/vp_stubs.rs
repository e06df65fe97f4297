#![allow(dead_code, unused_variables, static_mut_refs)]
// Stand-ins for what lies outside the Rust crate: the C++ functions it calls (OpenImageIO,
// OpenColorIO, LDPK, system memory) and the file-system queries of the standard library.
// In a demonstration: reading yields whatever image the harness installed, writing
// hands the image to the harness, the file system contains what the harness says.
use crate::cxxbridge::ffi::*;

pub static mut READ: Option<fn(&String, &mut ImageShared) -> bool> = None;
pub static mut WRITE: Option<fn(&String, &ImageShared, &ImageCompression) -> bool> = None;
pub static mut RESAMPLE: Option<fn(&mut ImageShared, &mut ImageShared, i32, bool) -> bool> = None;
pub static mut COLOR: Option<fn(&mut [f32], i32, i32, i32, i32, bool, &str, &str) -> bool> = None;
pub static mut DISTORT: Option<fn(&Plugin, bool, f64, f64) -> (f64, f64)> = None;
pub static mut TOTAL_MEMORY: usize = 1 << 30;
pub static mut THREADS: i32 = 3;
pub static mut READS: u32 = 0;
pub static mut WRITES: u32 = 0;
pub static mut COLORS: u32 = 0;

#[export_name = "open_comp_graph$internal$cxxbridge1$ocio_print_color_spaces"]
pub extern "C" fn s_ocio_print() -> bool { true }

#[export_name = "open_comp_graph$internal$cxxbridge1$oiio_get_thread_count"]
pub extern "C" fn s_get_threads(n: &mut i32) -> bool { unsafe { *n = THREADS; } true }
#[export_name = "open_comp_graph$internal$cxxbridge1$oiio_set_thread_count"]
pub extern "C" fn s_set_threads(n: i32) -> bool { unsafe { THREADS = n; } true }
#[export_name = "open_comp_graph$internal$cxxbridge1$oiio_read_image"]
pub unsafe extern "C" fn s_read(path: &String, image: &mut ImageShared) -> bool {
    READS += 1;
    match READ { Some(f) => f(path, image), None => false }
}
#[export_name = "open_comp_graph$internal$cxxbridge1$oiio_write_image"]
pub unsafe extern "C" fn s_write(path: &String, image: &ImageShared, c: &ImageCompression) -> bool {
    WRITES += 1;
    match WRITE { Some(f) => f(path, image, c), None => true }
}
#[export_name = "open_comp_graph$internal$cxxbridge1$oiio_image_resample"]
pub unsafe extern "C" fn s_resample(src: &mut ImageShared, dst: &mut ImageShared, n: i32, i: bool) -> bool {
    match RESAMPLE { Some(f) => f(src, dst, n, i), None => false }
}
#[export_name = "open_comp_graph$internal$cxxbridge1$oiio_color_convert_inplace"]
pub unsafe extern "C" fn s_color(p: Fat, w: i32, h: i32, c: i32, a: i32, u: bool, s: Fat, d: Fat) -> bool {
    COLORS += 1;
    let px = std::slice::from_raw_parts_mut(p.p as *mut f32, p.n);
    let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(s.p, s.n));
    let d = std::str::from_utf8_unchecked(std::slice::from_raw_parts(d.p, d.n));
    match COLOR { Some(f) => f(px, w, h, c, a, u, s, d), None => true }
}
#[export_name = "open_comp_graph$internal$cxxbridge1$get_total_system_memory_as_bytes"]
pub unsafe extern "C" fn s_mem() -> usize { TOTAL_MEMORY }

// ---- LDPK plugin: remembers its parameters, distorts with a function of the harness.
pub struct Plugin { pub params: Vec<(String, f64)>, pub inited: bool }
impl Plugin {
    pub fn get(&self, name: &str) -> f64 { for (n, v) in self.params.iter() { if n == name { return *v; } } 0.0 }
}
#[export_name = "open_comp_graph$internal$cxxbridge1$ldpk_new_plugin"]
pub extern "C" fn s_ld_new() -> *mut Plugin { Box::into_raw(Box::new(Plugin { params: Vec::new(), inited: false })) }
#[repr(C)]
pub struct Fat { p: *const u8, n: usize }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_version_string"]
pub extern "C" fn s_ld_ver(_s: &Plugin) -> Fat { Fat { p: b"1".as_ptr(), n: 1 } }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_model_name"]
pub extern "C" fn s_ld_name(_s: &mut Plugin, _p: Fat) -> bool { true }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_num_parameters"]
pub extern "C" fn s_ld_num(_s: &mut Plugin, v: &mut i32) -> bool { *v = 13; true }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_parameter_name"]
pub extern "C" fn s_ld_pname(_s: &mut Plugin, _v: i32, _p: Fat) -> bool { false }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_parameter_type"]
pub extern "C" fn s_ld_ptype(_s: &mut Plugin, _p: Fat, v: &mut i32) -> bool { *v = 0; true }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_parameter_default_value_f64"]
pub extern "C" fn s_ld_pdef(_s: &mut Plugin, _p: Fat, v: &mut f64) -> bool { *v = 0.0; true }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_parameter_range"]
pub extern "C" fn s_ld_prange(_s: &mut Plugin, _p: Fat, a: &mut f64, b: &mut f64) -> bool { *a = -1.0; *b = 1.0; true }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$set_parameter_value_f64"]
pub unsafe extern "C" fn s_ld_set(s: &mut Plugin, p: Fat, v: f64) -> bool {
    let mut name = std::slice::from_raw_parts(p.p, p.n);
    while name.len() > 0 && name[name.len() - 1] == 0 { name = &name[..name.len() - 1]; }
    let name = std::str::from_utf8_unchecked(name);
    s.inited = false;
    for e in s.params.iter_mut() { if e.0 == name { e.1 = v; return true; } }
    s.params.push((name.to_string(), v));
    true
}
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$initialize_parameters"]
pub extern "C" fn s_ld_init(s: &mut Plugin) -> bool { s.inited = true; true }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$undistort"]
pub unsafe extern "C" fn s_ld_und(s: &mut Plugin, x: f64, y: f64, ox: &mut f64, oy: &mut f64) -> bool {
    let r = match DISTORT { Some(f) => f(s, false, x, y), None => (x, y) };
    *ox = r.0; *oy = r.1; true
}
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$distort"]
pub unsafe extern "C" fn s_ld_dis(s: &mut Plugin, x: f64, y: f64, ox: &mut f64, oy: &mut f64) -> bool {
    let r = match DISTORT { Some(f) => f(s, true, x, y), None => (x, y) };
    *ox = r.0; *oy = r.1; true
}
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$distort_with_guess"]
pub unsafe extern "C" fn s_ld_disg(s: &mut Plugin, x: f64, y: f64, _gx: f64, _gy: f64, ox: &mut f64, oy: &mut f64) -> bool { s_ld_dis(s, x, y, ox, oy) }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$provides_parameter_derivatives"]
pub extern "C" fn s_ld_der(_s: &mut Plugin) -> bool { false }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_bounding_box_undistort"]
pub extern "C" fn s_ld_bbu(_s: &mut Plugin, xa: f64, ya: f64, xb: f64, yb: f64, a: &mut f64, b: &mut f64, c: &mut f64, d: &mut f64, _nx: i32, _ny: i32) { *a = xa; *b = ya; *c = xb; *d = yb; }
#[export_name = "open_comp_graph$internal$cxxbridge1$OcgLdPluginBase$get_bounding_box_distort"]
pub extern "C" fn s_ld_bbd(_s: &mut Plugin, xa: f64, ya: f64, xb: f64, yb: f64, a: &mut f64, b: &mut f64, c: &mut f64, d: &mut f64, _nx: i32, _ny: i32) { *a = xa; *b = ya; *c = xb; *d = yb; }
#[export_name = "cxxbridge1$unique_ptr$open_comp_graph$internal$OcgLdPluginBase$null"]
pub unsafe extern "C" fn s_up_null(p: *mut *mut Plugin) { *p = std::ptr::null_mut(); }
#[export_name = "cxxbridge1$unique_ptr$open_comp_graph$internal$OcgLdPluginBase$raw"]
pub unsafe extern "C" fn s_up_raw(p: *mut *mut Plugin, raw: *mut Plugin) { *p = raw; }
#[export_name = "cxxbridge1$unique_ptr$open_comp_graph$internal$OcgLdPluginBase$get"]
pub unsafe extern "C" fn s_up_get(p: *const *mut Plugin) -> *mut Plugin { *p }
#[export_name = "cxxbridge1$unique_ptr$open_comp_graph$internal$OcgLdPluginBase$release"]
pub unsafe extern "C" fn s_up_rel(p: *mut *mut Plugin) -> *mut Plugin { let r = *p; *p = std::ptr::null_mut(); r }
#[export_name = "cxxbridge1$unique_ptr$open_comp_graph$internal$OcgLdPluginBase$drop"]
pub unsafe extern "C" fn s_up_drop(p: *mut *mut Plugin) { if !(*p).is_null() { drop(Box::from_raw(*p)); } }


// ---- images for a demonstration: files of the scratch directory
use crate::pixelblock::pixelblock::PixelBlock;
pub type Pic = (String, [i32; 4], [i32; 4], i32, Vec<f32>);
pub static mut PICS: Vec<Pic> = Vec::new();
fn read_pic(path: &String, image: &mut ImageShared) -> bool {
    for p in unsafe { PICS.iter() } {
        if path.ends_with(&p.0) {
            let mut b = PixelBlock::new(BlockSize::new(p.1[2] - p.1[0], p.1[3] - p.1[1], p.3), DataType::Float32);
            b.as_mut_slice_f32().copy_from_slice(&p.4);
            *image.pixel_block = b;
            image.data_window = BBox2Di { min_x: p.1[0], min_y: p.1[1], max_x: p.1[2], max_y: p.1[3] };
            image.display_window = BBox2Di { min_x: p.2[0], min_y: p.2[1], max_x: p.2[2], max_y: p.2[3] };
            return true;
        }
    }
    false
}
/// creates the (empty) file and tells the reader what it shows; returns its path
pub fn pic(name: &str, dw: [i32; 4], disp: [i32; 4], ch: i32, px: Vec<f32>) -> String {
    let d = std::env::var("VP_SCRATCH").unwrap();
    let path = format!("{}/{}", d, name);
    std::fs::write(&path, b"").unwrap();
    unsafe { READ = Some(read_pic); PICS.push((name.to_string(), dw, disp, ch, px)); }
    path
}
