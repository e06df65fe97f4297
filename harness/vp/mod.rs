//! Verification harness, compiled into a mirror of the crate (never part of /repo).
//! One module per property; only the module of the property being checked is compiled.
#![allow(dead_code, unused_imports, unused_variables, unused_mut, non_snake_case)]
pub mod sup;
pub mod stubs;
#[cfg(any(vp_c01, vp_c02))]
pub mod cachesup;
#[cfg(vp_c01)]
pub mod c01;
#[cfg(vp_c02)]
pub mod c02;
#[cfg(not(any(vp_c01, vp_c02)))]
pub mod gsup;
#[cfg(not(any(vp_c01, vp_c02)))]
pub mod dsup;
#[cfg(any(vp_f01, vp_w01, vp_r01, vp_n01, vp_l01, vp_b01, vp_t01))]
pub mod csup;
#[cfg(vp_g01)]
pub mod g01;
#[cfg(vp_g02)]
pub mod g02;
#[cfg(vp_g03)]
pub mod g03;
#[cfg(vp_g04)]
pub mod g04;
#[cfg(vp_g05)]
pub mod g05;
#[cfg(vp_k01)]
pub mod k01;
#[cfg(vp_k02)]
pub mod k02;
#[cfg(vp_a01)]
pub mod a01;
#[cfg(vp_n01)]
pub mod n01;
#[cfg(vp_i01)]
pub mod i01;
#[cfg(vp_x01)]
pub mod x01;
#[cfg(vp_b01)]
pub mod b01;
#[cfg(vp_o01)]
pub mod o01;
#[cfg(vp_d01)]
pub mod d01;
#[cfg(vp_s01)]
pub mod s01;
#[cfg(vp_r01)]
pub mod r01;
#[cfg(vp_w01)]
pub mod w01;
#[cfg(vp_f01)]
pub mod f01;
#[cfg(vp_l01)]
pub mod l01;
#[cfg(vp_m01)]
pub mod m01;
#[cfg(vp_p01)]
pub mod p01;
#[cfg(vp_t01)]
pub mod t01;
