//@ entry vp_p01_capacity covers=1,2,3 time=300
//@ entry vp_p01_cache covers=1,2 time=300
//@ entry vp_p01_default covers=1 time=300
//@ bound any configured percentage (32-bit float) and any thread count; any system memory below 2^48 bytes
//@ assume the configuration arrives as parsed values (the YAML parser is not part of the claim); system memory is a stand-in
use super::stubs;
use super::sup::*;
use crate::cache::*;
use crate::config::*;
use serde::de::value::{Error, MapDeserializer};
use serde::de::{Deserializer, IntoDeserializer, Visitor};
use serde::Deserialize;

#[derive(Clone)]
enum Y { M(Vec<(&'static str, Y)>), F(f32), G(f64), I(i64) }
impl<'de> IntoDeserializer<'de, Error> for Y { type Deserializer = Y; fn into_deserializer(self) -> Y { self } }
impl<'de> Deserializer<'de> for Y {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self { Y::M(m) => v.visit_map(MapDeserializer::new(m.into_iter())), Y::F(x) => v.visit_f32(x), Y::G(x) => v.visit_f64(x), Y::I(x) => v.visit_i64(x) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn config(p: Y, n: i64, swap: bool) -> ConfigImpl {
    let (a, b) = (("cache", Y::M(vec![("ram_capacity_percent", p)])), ("threading", Y::M(vec![("num_threads", Y::I(n))])));
    match ConfigImpl::deserialize(Y::M(if swap { vec![b, a] } else { vec![a, b] })) { Ok(c) => c, Err(_) => { check(false, 1); loop {} } }
}
/// the capacity is the configured share of the memory, between nothing and all of it
#[no_mangle]
pub extern "C" fn vp_p01_capacity() {
    let mem = range_u64(1, 0, (1 << 48) - 1) as usize;
    unsafe { stubs::TOTAL_MEMORY = mem; }
    let k = pick(5, 2);
    let p = if k == 0 { any_f32(2) } else { pos_f32(6, 1e-40, f32::from_bits(0x42c7ffff)) };
    if k == 0 { assume(!(p >= 1e-40 && p < 100.0)); }
    let c = config(Y::F(p), any_i32(3) as i64, pick(4, 2) == 1);
    let all = (mem as f32) as usize;
    let (f, n) = (c.cache_ram_capacity_percent(), c.cache_ram_capacity_bytes());
    if k == 0 && !(p >= 100.0) { check(f <= 1e-40 && f >= 0.0 && n == 0, 10); cover(1); }
    else if k == 0 { check(f == 1.0 && n == all, 11); cover(2); }
    else {
        check(f >= 0.0 && f <= 1.0 && same(f, p / 100.0), 12);
        check(n == (mem as f32 * (p / 100.0)) as usize, 13);
        cover(3);
    }
}
/// a cache of the configured capacity accepts images up to it
#[no_mangle]
pub extern "C" fn vp_p01_cache() {
    unsafe { stubs::TOTAL_MEMORY = [0, 1000, 1 << 34][pick(1, 3)]; }
    let k = pick(2, 4);
    let c = config(Y::I([-5, 0, 50, 400][k]), 1, false);
    let n = c.cache_ram_capacity_bytes();
    check(n <= unsafe { stubs::TOTAL_MEMORY }, 20);
    check(n == unsafe { stubs::TOTAL_MEMORY } * [0, 0, 1, 2][k] / 2, 21);
    let cache = create_cache_box_with_capacity(n);
    check(cache.capacity_bytes() == n && cache.used_bytes() == 0 && cache.len() == 0, 22);
    if n == 0 { cover(1); } else { cover(2); }
}
/// nothing is cached by default
#[no_mangle]
pub extern "C" fn vp_p01_default() {
    unsafe { stubs::TOTAL_MEMORY = any_u64(1) as usize; }
    let c = ConfigImpl::default();
    check(c.cache_ram_capacity_percent() == 0.0 && c.cache_ram_capacity_bytes() == 0, 30);
    cover(1);
}
