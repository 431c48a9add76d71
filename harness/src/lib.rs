// Generated by dv/gen_harness.py: thin exported entry points, one per public operation form.
#![allow(non_camel_case_types, unused_imports, dead_code, improper_ctypes_definitions)]
extern crate rand;
extern crate safecurves_rust as sc;
use sc::field::prime_field::*;
use sc::normalize::*;
use sc::pack::Pack;
use sc::curve::edwards::*;
use sc::curve::point::*;
use std::fmt::{Formatter, LowerHex, UpperHex};

/// A random number generator whose outputs are chosen by the caller: the given words first, then a fixed mixing sequence.
pub struct DRng { pub words: [u64; 16], pub pos: usize }
#[no_mangle]
#[inline(never)]
pub fn verif_next_u64(r: &mut DRng) -> u64 {
    let p = r.pos; r.pos += 1;
    if p < 16 { return r.words[p]; }
    let x = (p as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15); x ^ (x >> 29)   // keeps rejection sampling terminating
}
#[no_mangle]
#[inline(never)]
pub fn verif_next_u32(r: &mut DRng) -> u32 { (verif_next_u64(r) >> 16) as u32 }
impl rand::Rng for DRng {
    fn next_u32(&mut self) -> u32 { verif_next_u32(self) }
    fn next_u64(&mut self) -> u64 { verif_next_u64(self) }
}
#[no_mangle]
pub fn ref_fmt_lower(b: &u8, f: &mut Formatter) -> ::std::fmt::Result { f.write_fmt(format_args!("{:02x}", b)) }
#[no_mangle]
pub fn ref_fmt_upper(b: &u8, f: &mut Formatter) -> ::std::fmt::Result { f.write_fmt(format_args!("{:02X}", b)) }

pub mod f_221_3 {
    use super::*;
    use sc::field::mod_e221_3 as m;
    pub type F = m::Mod_e221_3; pub type M = m::Mod_e221_3_Mask;
    #[no_mangle] pub fn h_221_3_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_221_3_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_221_3_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_221_3_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_221_3_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_221_3_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_221_3_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_221_3_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_221_3_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_221_3_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_221_3_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_221_3_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_221_3_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_221_3_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_221_3_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_221_3_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_221_3_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_221_3_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_221_3_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_221_3_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_221_3_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_221_3_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_221_3_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_221_3_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_221_3_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_221_3_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_221_3_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_221_3_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_221_3_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_221_3_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_221_3_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_221_3_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_221_3_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_221_3_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_221_3_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_221_3_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_221_3_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_221_3_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_221_3_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_221_3_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_221_3_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_221_3_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_221_3_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_221_3_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_221_3_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_221_3_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_221_3_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_221_3_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_221_3_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_221_3_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_221_3_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_221_3_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_221_3_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_221_3_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_221_3_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_221_3_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_221_3_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_221_3_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_221_3_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_221_3_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_221_3_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_221_3_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_221_3_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_221_3_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_221_3_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_221_3_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_221_3_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_221_3_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_221_3_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_221_3_packed(a: &mut F, b: &mut [u8; 28]) { *b = a.packed(); }
    #[no_mangle] pub fn h_221_3_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_221_3_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_221_3_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_221_3_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_221_3_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_221_3_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_221_3_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_221_3_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_221_3_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_221_3_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_221_3_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_221_3_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_221_3_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_221_3_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_221_3_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_221_3_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_221_3_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_221_3_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_221_3_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_221_3_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_221_3_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_221_3_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_221_3_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_221_3_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_221_3_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_221_3_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_221_3_const_M_HALF(a: &mut F) { *a = m::M_HALF; }
    #[no_mangle] pub fn h_221_3_const_M221_BASE_X(a: &mut F) { *a = m::M221_BASE_X; }
    #[no_mangle] pub fn h_221_3_const_M221_BASE_Y(a: &mut F) { *a = m::M221_BASE_Y; }
    #[no_mangle] pub fn h_221_3_const_M221_ORDER(a: &mut F) { *a = m::M221_ORDER; }
}
pub mod f_222_117 {
    use super::*;
    use sc::field::mod_e222_117 as m;
    pub type F = m::Mod_e222_117; pub type M = m::Mod_e222_117_Mask;
    #[no_mangle] pub fn h_222_117_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_222_117_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_222_117_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_222_117_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_222_117_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_222_117_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_222_117_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_222_117_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_222_117_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_222_117_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_222_117_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_222_117_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_222_117_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_222_117_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_222_117_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_222_117_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_222_117_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_222_117_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_222_117_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_222_117_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_222_117_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_222_117_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_222_117_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_222_117_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_222_117_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_222_117_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_222_117_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_222_117_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_222_117_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_222_117_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_222_117_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_222_117_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_222_117_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_222_117_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_222_117_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_222_117_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_222_117_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_222_117_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_222_117_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_222_117_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_222_117_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_222_117_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_222_117_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_222_117_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_222_117_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_222_117_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_222_117_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_222_117_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_222_117_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_222_117_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_222_117_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_222_117_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_222_117_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_222_117_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_222_117_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_222_117_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_222_117_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_222_117_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_222_117_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_222_117_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_222_117_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_222_117_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_222_117_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_222_117_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_222_117_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_222_117_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_222_117_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_222_117_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_222_117_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_222_117_packed(a: &mut F, b: &mut [u8; 28]) { *b = a.packed(); }
    #[no_mangle] pub fn h_222_117_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_222_117_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_222_117_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_222_117_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_222_117_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_222_117_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_222_117_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_222_117_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_222_117_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_222_117_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_222_117_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_222_117_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_222_117_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_222_117_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_222_117_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_222_117_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_222_117_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_222_117_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_222_117_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_222_117_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_222_117_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_222_117_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_222_117_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_222_117_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_222_117_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_222_117_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_222_117_const_E222_D(a: &mut F) { *a = m::E222_D; }
    #[no_mangle] pub fn h_222_117_const_E222_BASE_X(a: &mut F) { *a = m::E222_BASE_X; }
    #[no_mangle] pub fn h_222_117_const_E222_BASE_Y(a: &mut F) { *a = m::E222_BASE_Y; }
    #[no_mangle] pub fn h_222_117_const_E222_ORDER(a: &mut F) { *a = m::E222_ORDER; }
}
pub mod f_251_9 {
    use super::*;
    use sc::field::mod_e251_9 as m;
    pub type F = m::Mod_e251_9; pub type M = m::Mod_e251_9_Mask;
    #[no_mangle] pub fn h_251_9_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_251_9_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_251_9_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_251_9_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_251_9_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_251_9_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_251_9_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_251_9_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_251_9_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_251_9_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_251_9_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_251_9_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_251_9_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_251_9_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_251_9_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_251_9_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_251_9_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_251_9_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_251_9_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_251_9_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_251_9_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_251_9_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_251_9_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_251_9_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_251_9_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_251_9_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_251_9_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_251_9_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_251_9_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_251_9_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_251_9_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_251_9_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_251_9_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_251_9_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_251_9_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_251_9_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_251_9_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_251_9_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_251_9_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_251_9_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_251_9_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_251_9_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_251_9_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_251_9_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_251_9_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_251_9_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_251_9_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_251_9_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_251_9_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_251_9_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_251_9_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_251_9_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_251_9_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_251_9_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_251_9_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_251_9_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_251_9_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_251_9_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_251_9_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_251_9_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_251_9_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_251_9_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_251_9_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_251_9_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_251_9_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_251_9_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_251_9_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_251_9_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_251_9_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_251_9_packed(a: &mut F, b: &mut [u8; 32]) { *b = a.packed(); }
    #[no_mangle] pub fn h_251_9_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_251_9_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_251_9_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_251_9_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_251_9_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_251_9_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_251_9_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_251_9_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_251_9_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_251_9_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_251_9_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_251_9_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_251_9_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_251_9_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_251_9_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_251_9_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_251_9_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_251_9_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_251_9_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_251_9_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_251_9_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_251_9_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_251_9_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_251_9_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_251_9_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_251_9_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_251_9_const_CURVE1174_D(a: &mut F) { *a = m::CURVE1174_D; }
    #[no_mangle] pub fn h_251_9_const_CURVE1174_BASE_X(a: &mut F) { *a = m::CURVE1174_BASE_X; }
    #[no_mangle] pub fn h_251_9_const_CURVE1174_BASE_Y(a: &mut F) { *a = m::CURVE1174_BASE_Y; }
    #[no_mangle] pub fn h_251_9_const_CURVE1174_ORDER(a: &mut F) { *a = m::CURVE1174_ORDER; }
}
pub mod f_255_19 {
    use super::*;
    use sc::field::mod_e255_19 as m;
    pub type F = m::Mod_e255_19; pub type M = m::Mod_e255_19_Mask;
    #[no_mangle] pub fn h_255_19_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_255_19_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_255_19_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_255_19_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_255_19_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_255_19_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_255_19_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_255_19_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_255_19_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_255_19_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_255_19_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_255_19_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_255_19_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_255_19_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_255_19_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_255_19_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_255_19_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_255_19_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_255_19_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_255_19_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_255_19_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_255_19_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_255_19_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_255_19_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_255_19_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_255_19_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_255_19_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_255_19_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_255_19_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_255_19_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_255_19_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_255_19_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_255_19_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_255_19_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_255_19_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_255_19_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_255_19_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_255_19_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_255_19_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_255_19_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_255_19_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_255_19_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_255_19_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_255_19_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_255_19_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_255_19_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_255_19_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_255_19_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_255_19_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_255_19_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_255_19_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_255_19_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_255_19_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_255_19_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_255_19_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_255_19_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_255_19_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_255_19_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_255_19_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_255_19_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_255_19_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_255_19_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_255_19_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_255_19_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_255_19_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_255_19_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_255_19_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_255_19_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_255_19_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_255_19_packed(a: &mut F, b: &mut [u8; 32]) { *b = a.packed(); }
    #[no_mangle] pub fn h_255_19_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_255_19_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_255_19_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_255_19_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_255_19_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_255_19_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_255_19_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_255_19_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_255_19_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_255_19_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_255_19_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_255_19_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_255_19_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_255_19_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_255_19_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_255_19_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_255_19_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_255_19_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_255_19_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_255_19_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_255_19_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_255_19_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_255_19_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_255_19_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_255_19_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_255_19_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_255_19_const_M_HALF(a: &mut F) { *a = m::M_HALF; }
    #[no_mangle] pub fn h_255_19_const_CURVE25519_BASE_X(a: &mut F) { *a = m::CURVE25519_BASE_X; }
    #[no_mangle] pub fn h_255_19_const_CURVE25519_BASE_Y(a: &mut F) { *a = m::CURVE25519_BASE_Y; }
    #[no_mangle] pub fn h_255_19_const_CURVE25519_ORDER(a: &mut F) { *a = m::CURVE25519_ORDER; }
}
pub mod f_382_105 {
    use super::*;
    use sc::field::mod_e382_105 as m;
    pub type F = m::Mod_e382_105; pub type M = m::Mod_e382_105_Mask;
    #[no_mangle] pub fn h_382_105_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_382_105_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_382_105_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_382_105_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_382_105_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_382_105_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_382_105_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_382_105_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_382_105_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_382_105_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_382_105_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_382_105_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_382_105_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_382_105_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_382_105_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_382_105_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_382_105_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_382_105_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_382_105_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_382_105_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_382_105_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_382_105_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_382_105_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_382_105_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_382_105_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_382_105_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_382_105_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_382_105_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_382_105_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_382_105_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_382_105_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_382_105_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_382_105_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_382_105_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_382_105_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_382_105_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_382_105_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_382_105_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_382_105_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_382_105_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_382_105_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_382_105_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_382_105_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_382_105_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_382_105_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_382_105_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_382_105_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_382_105_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_382_105_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_382_105_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_382_105_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_382_105_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_382_105_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_382_105_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_382_105_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_382_105_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_382_105_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_382_105_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_382_105_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_382_105_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_382_105_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_382_105_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_382_105_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_382_105_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_382_105_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_382_105_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_382_105_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_382_105_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_382_105_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_382_105_packed(a: &mut F, b: &mut [u8; 48]) { *b = a.packed(); }
    #[no_mangle] pub fn h_382_105_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_382_105_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_382_105_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_382_105_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_382_105_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_382_105_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_382_105_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_382_105_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_382_105_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_382_105_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_382_105_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_382_105_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_382_105_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_382_105_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_382_105_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_382_105_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_382_105_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_382_105_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_382_105_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_382_105_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_382_105_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_382_105_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_382_105_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_382_105_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_382_105_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_382_105_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_382_105_const_E382_D(a: &mut F) { *a = m::E382_D; }
    #[no_mangle] pub fn h_382_105_const_E382_BASE_X(a: &mut F) { *a = m::E382_BASE_X; }
    #[no_mangle] pub fn h_382_105_const_E382_BASE_Y(a: &mut F) { *a = m::E382_BASE_Y; }
    #[no_mangle] pub fn h_382_105_const_E382_ORDER(a: &mut F) { *a = m::E382_ORDER; }
}
pub mod f_383_187 {
    use super::*;
    use sc::field::mod_e383_187 as m;
    pub type F = m::Mod_e383_187; pub type M = m::Mod_e383_187_Mask;
    #[no_mangle] pub fn h_383_187_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_383_187_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_383_187_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_383_187_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_383_187_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_383_187_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_383_187_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_383_187_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_383_187_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_383_187_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_383_187_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_383_187_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_383_187_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_383_187_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_383_187_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_383_187_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_383_187_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_383_187_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_383_187_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_383_187_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_383_187_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_383_187_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_383_187_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_383_187_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_383_187_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_383_187_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_383_187_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_383_187_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_383_187_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_383_187_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_383_187_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_383_187_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_383_187_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_383_187_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_383_187_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_383_187_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_383_187_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_383_187_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_383_187_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_383_187_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_383_187_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_383_187_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_383_187_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_383_187_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_383_187_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_383_187_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_383_187_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_383_187_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_383_187_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_383_187_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_383_187_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_383_187_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_383_187_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_383_187_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_383_187_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_383_187_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_383_187_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_383_187_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_383_187_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_383_187_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_383_187_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_383_187_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_383_187_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_383_187_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_383_187_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_383_187_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_383_187_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_383_187_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_383_187_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_383_187_packed(a: &mut F, b: &mut [u8; 48]) { *b = a.packed(); }
    #[no_mangle] pub fn h_383_187_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_383_187_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_383_187_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_383_187_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_383_187_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_383_187_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_383_187_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_383_187_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_383_187_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_383_187_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_383_187_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_383_187_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_383_187_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_383_187_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_383_187_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_383_187_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_383_187_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_383_187_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_383_187_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_383_187_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_383_187_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_383_187_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_383_187_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_383_187_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_383_187_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_383_187_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_383_187_const_M_HALF(a: &mut F) { *a = m::M_HALF; }
    #[no_mangle] pub fn h_383_187_const_M383_BASE_X(a: &mut F) { *a = m::M383_BASE_X; }
    #[no_mangle] pub fn h_383_187_const_M383_BASE_Y(a: &mut F) { *a = m::M383_BASE_Y; }
    #[no_mangle] pub fn h_383_187_const_M383_ORDER(a: &mut F) { *a = m::M383_ORDER; }
    #[no_mangle] pub fn h_383_187_const_CURVE383187_BASE_X(a: &mut F) { *a = m::CURVE383187_BASE_X; }
    #[no_mangle] pub fn h_383_187_const_CURVE383187_BASE_Y(a: &mut F) { *a = m::CURVE383187_BASE_Y; }
    #[no_mangle] pub fn h_383_187_const_CURVE383187_ORDER(a: &mut F) { *a = m::CURVE383187_ORDER; }
}
pub mod f_414_17 {
    use super::*;
    use sc::field::mod_e414_17 as m;
    pub type F = m::Mod_e414_17; pub type M = m::Mod_e414_17_Mask;
    #[no_mangle] pub fn h_414_17_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_414_17_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_414_17_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_414_17_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_414_17_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_414_17_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_414_17_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_414_17_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_414_17_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_414_17_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_414_17_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_414_17_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_414_17_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_414_17_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_414_17_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_414_17_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_414_17_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_414_17_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_414_17_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_414_17_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_414_17_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_414_17_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_414_17_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_414_17_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_414_17_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_414_17_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_414_17_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_414_17_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_414_17_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_414_17_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_414_17_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_414_17_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_414_17_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_414_17_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_414_17_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_414_17_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_414_17_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_414_17_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_414_17_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_414_17_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_414_17_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_414_17_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_414_17_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_414_17_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_414_17_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_414_17_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_414_17_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_414_17_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_414_17_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_414_17_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_414_17_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_414_17_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_414_17_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_414_17_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_414_17_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_414_17_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_414_17_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_414_17_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_414_17_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_414_17_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_414_17_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_414_17_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_414_17_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_414_17_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_414_17_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_414_17_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_414_17_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_414_17_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_414_17_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_414_17_packed(a: &mut F, b: &mut [u8; 52]) { *b = a.packed(); }
    #[no_mangle] pub fn h_414_17_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_414_17_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_414_17_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_414_17_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_414_17_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_414_17_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_414_17_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_414_17_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_414_17_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_414_17_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_414_17_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_414_17_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_414_17_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_414_17_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_414_17_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_414_17_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_414_17_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_414_17_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_414_17_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_414_17_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_414_17_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_414_17_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_414_17_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_414_17_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_414_17_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_414_17_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_414_17_const_CURVE41417_D(a: &mut F) { *a = m::CURVE41417_D; }
    #[no_mangle] pub fn h_414_17_const_CURVE41417_BASE_X(a: &mut F) { *a = m::CURVE41417_BASE_X; }
    #[no_mangle] pub fn h_414_17_const_CURVE41417_BASE_Y(a: &mut F) { *a = m::CURVE41417_BASE_Y; }
    #[no_mangle] pub fn h_414_17_const_CURVE41417_ORDER(a: &mut F) { *a = m::CURVE41417_ORDER; }
}
pub mod f_511_187 {
    use super::*;
    use sc::field::mod_e511_187 as m;
    pub type F = m::Mod_e511_187; pub type M = m::Mod_e511_187_Mask;
    #[no_mangle] pub fn h_511_187_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_511_187_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_511_187_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_511_187_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_511_187_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_511_187_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_511_187_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_511_187_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_511_187_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_511_187_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_511_187_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_511_187_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_511_187_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_511_187_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_511_187_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_511_187_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_511_187_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_511_187_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_511_187_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_511_187_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_511_187_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_511_187_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_511_187_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_511_187_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_511_187_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_511_187_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_511_187_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_511_187_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_511_187_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_511_187_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_511_187_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_511_187_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_511_187_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_511_187_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_511_187_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_511_187_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_511_187_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_511_187_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_511_187_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_511_187_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_511_187_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_511_187_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_511_187_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_511_187_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_511_187_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_511_187_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_511_187_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_511_187_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_511_187_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_511_187_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_511_187_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_511_187_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_511_187_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_511_187_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_511_187_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_511_187_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_511_187_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_511_187_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_511_187_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_511_187_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_511_187_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_511_187_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_511_187_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_511_187_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_511_187_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_511_187_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_511_187_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_511_187_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_511_187_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_511_187_packed(a: &mut F, b: &mut [u8; 64]) { *b = a.packed(); }
    #[no_mangle] pub fn h_511_187_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_511_187_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_511_187_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_511_187_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_511_187_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_511_187_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_511_187_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_511_187_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_511_187_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_511_187_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_511_187_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_511_187_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_511_187_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_511_187_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_511_187_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_511_187_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_511_187_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_511_187_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_511_187_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_511_187_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_511_187_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_511_187_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_511_187_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_511_187_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_511_187_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_511_187_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_511_187_const_M_HALF(a: &mut F) { *a = m::M_HALF; }
    #[no_mangle] pub fn h_511_187_const_M511_BASE_X(a: &mut F) { *a = m::M511_BASE_X; }
    #[no_mangle] pub fn h_511_187_const_M511_BASE_Y(a: &mut F) { *a = m::M511_BASE_Y; }
    #[no_mangle] pub fn h_511_187_const_M511_ORDER(a: &mut F) { *a = m::M511_ORDER; }
}
pub mod f_521_1 {
    use super::*;
    use sc::field::mod_e521_1 as m;
    pub type F = m::Mod_e521_1; pub type M = m::Mod_e521_1_Mask;
    #[no_mangle] pub fn h_521_1_add_assign_ref(a: &mut F, b: &F) { *a += b; }
    #[no_mangle] pub fn h_521_1_add_assign_val(a: &mut F, b: &F) { *a += *b; }
    #[no_mangle] pub fn h_521_1_add_refs(a: &mut F, b: &F, c: &F) { *a = b + c; }
    #[no_mangle] pub fn h_521_1_add_vals(a: &mut F, b: &F, c: &F) { *a = *b + *c; }
    #[no_mangle] pub fn h_521_1_add_assign_i32(a: &mut F, b: i32) { *a += b; }
    #[no_mangle] pub fn h_521_1_add_ref_i32(a: &mut F, b: &F, c: i32) { *a = b + c; }
    #[no_mangle] pub fn h_521_1_add_val_i32(a: &mut F, b: &F, c: i32) { *a = *b + c; }
    #[no_mangle] pub fn h_521_1_add_i32_ref(a: &mut F, b: &F, c: i32) { *a = c + b; }
    #[no_mangle] pub fn h_521_1_add_assign_i16(a: &mut F, b: i16) { *a += b; }
    #[no_mangle] pub fn h_521_1_add_ref_i16(a: &mut F, b: &F, c: i16) { *a = b + c; }
    #[no_mangle] pub fn h_521_1_add_val_i16(a: &mut F, b: &F, c: i16) { *a = *b + c; }
    #[no_mangle] pub fn h_521_1_add_i16_ref(a: &mut F, b: &F, c: i16) { *a = c + b; }
    #[no_mangle] pub fn h_521_1_add_assign_i8(a: &mut F, b: i8) { *a += b; }
    #[no_mangle] pub fn h_521_1_add_ref_i8(a: &mut F, b: &F, c: i8) { *a = b + c; }
    #[no_mangle] pub fn h_521_1_add_val_i8(a: &mut F, b: &F, c: i8) { *a = *b + c; }
    #[no_mangle] pub fn h_521_1_add_i8_ref(a: &mut F, b: &F, c: i8) { *a = c + b; }
    #[no_mangle] pub fn h_521_1_sub_assign_ref(a: &mut F, b: &F) { *a -= b; }
    #[no_mangle] pub fn h_521_1_sub_assign_val(a: &mut F, b: &F) { *a -= *b; }
    #[no_mangle] pub fn h_521_1_sub_refs(a: &mut F, b: &F, c: &F) { *a = b - c; }
    #[no_mangle] pub fn h_521_1_sub_vals(a: &mut F, b: &F, c: &F) { *a = *b - *c; }
    #[no_mangle] pub fn h_521_1_sub_assign_i32(a: &mut F, b: i32) { *a -= b; }
    #[no_mangle] pub fn h_521_1_sub_ref_i32(a: &mut F, b: &F, c: i32) { *a = b - c; }
    #[no_mangle] pub fn h_521_1_sub_val_i32(a: &mut F, b: &F, c: i32) { *a = *b - c; }
    #[no_mangle] pub fn h_521_1_sub_assign_i16(a: &mut F, b: i16) { *a -= b; }
    #[no_mangle] pub fn h_521_1_sub_ref_i16(a: &mut F, b: &F, c: i16) { *a = b - c; }
    #[no_mangle] pub fn h_521_1_sub_val_i16(a: &mut F, b: &F, c: i16) { *a = *b - c; }
    #[no_mangle] pub fn h_521_1_sub_assign_i8(a: &mut F, b: i8) { *a -= b; }
    #[no_mangle] pub fn h_521_1_sub_ref_i8(a: &mut F, b: &F, c: i8) { *a = b - c; }
    #[no_mangle] pub fn h_521_1_sub_val_i8(a: &mut F, b: &F, c: i8) { *a = *b - c; }
    #[no_mangle] pub fn h_521_1_mul_assign_ref(a: &mut F, b: &F) { *a *= b; }
    #[no_mangle] pub fn h_521_1_mul_assign_val(a: &mut F, b: &F) { *a *= *b; }
    #[no_mangle] pub fn h_521_1_mul_refs(a: &mut F, b: &F, c: &F) { *a = b * c; }
    #[no_mangle] pub fn h_521_1_mul_vals(a: &mut F, b: &F, c: &F) { *a = *b * *c; }
    #[no_mangle] pub fn h_521_1_mul_assign_i32(a: &mut F, b: i32) { *a *= b; }
    #[no_mangle] pub fn h_521_1_mul_ref_i32(a: &mut F, b: &F, c: i32) { *a = b * c; }
    #[no_mangle] pub fn h_521_1_mul_val_i32(a: &mut F, b: &F, c: i32) { *a = *b * c; }
    #[no_mangle] pub fn h_521_1_mul_i32_ref(a: &mut F, b: &F, c: i32) { *a = c * b; }
    #[no_mangle] pub fn h_521_1_mul_assign_i16(a: &mut F, b: i16) { *a *= b; }
    #[no_mangle] pub fn h_521_1_mul_ref_i16(a: &mut F, b: &F, c: i16) { *a = b * c; }
    #[no_mangle] pub fn h_521_1_mul_val_i16(a: &mut F, b: &F, c: i16) { *a = *b * c; }
    #[no_mangle] pub fn h_521_1_mul_i16_ref(a: &mut F, b: &F, c: i16) { *a = c * b; }
    #[no_mangle] pub fn h_521_1_mul_assign_i8(a: &mut F, b: i8) { *a *= b; }
    #[no_mangle] pub fn h_521_1_mul_ref_i8(a: &mut F, b: &F, c: i8) { *a = b * c; }
    #[no_mangle] pub fn h_521_1_mul_val_i8(a: &mut F, b: &F, c: i8) { *a = *b * c; }
    #[no_mangle] pub fn h_521_1_mul_i8_ref(a: &mut F, b: &F, c: i8) { *a = c * b; }
    #[no_mangle] pub fn h_521_1_div_assign_ref(a: &mut F, b: &F) { *a /= b; }
    #[no_mangle] pub fn h_521_1_div_assign_val(a: &mut F, b: &F) { *a /= *b; }
    #[no_mangle] pub fn h_521_1_div_refs(a: &mut F, b: &F, c: &F) { *a = b / c; }
    #[no_mangle] pub fn h_521_1_div_vals(a: &mut F, b: &F, c: &F) { *a = *b / *c; }
    #[no_mangle] pub fn h_521_1_neg(a: &mut F, b: &F) { *a = -*b; }
    #[no_mangle] pub fn h_521_1_small_add_assign(a: &mut F, b: i32) { a.small_add_assign(b); }
    #[no_mangle] pub fn h_521_1_small_add(a: &mut F, b: &F, c: i32) { *a = b.small_add(c); }
    #[no_mangle] pub fn h_521_1_small_sub_assign(a: &mut F, b: i32) { a.small_sub_assign(b); }
    #[no_mangle] pub fn h_521_1_small_sub(a: &mut F, b: &F, c: i32) { *a = b.small_sub(c); }
    #[no_mangle] pub fn h_521_1_small_mul_assign(a: &mut F, b: i32) { a.small_mul_assign(b); }
    #[no_mangle] pub fn h_521_1_small_mul(a: &mut F, b: &F, c: i32) { *a = b.small_mul(c); }
    #[no_mangle] pub fn h_521_1_square(a: &mut F) { a.square(); }
    #[no_mangle] pub fn h_521_1_squared(a: &mut F, b: &F) { *a = b.squared(); }
    #[no_mangle] pub fn h_521_1_invert(a: &mut F) { a.invert(); }
    #[no_mangle] pub fn h_521_1_inverted(a: &mut F, b: &F) { *a = b.inverted(); }
    #[no_mangle] pub fn h_521_1_legendre(a: &mut F, b: &F) { *a = b.legendre(); }
    #[no_mangle] pub fn h_521_1_sqrt(a: &mut F, b: &F) { *a = b.sqrt(); }
    #[no_mangle] pub fn h_521_1_normalize(a: &mut F) { a.normalize(); }
    #[no_mangle] pub fn h_521_1_normalize_self_eq(a: &mut F, b: &F) -> bool { a.normalize_self_eq(b) }
    #[no_mangle] pub fn h_521_1_normalize_eq(a: &mut F, b: &mut F) -> bool { a.normalize_eq(b) }
    #[no_mangle] pub fn h_521_1_unpack(a: &mut F, b: &[u8]) { a.unpack(b); }
    #[no_mangle] pub fn h_521_1_unpacked(a: &mut F, b: &[u8]) { *a = F::unpacked(b); }
    #[no_mangle] pub fn h_521_1_pack(a: &mut F, b: &mut [u8]) { a.pack(b); }
    #[no_mangle] pub fn h_521_1_pack_normalized(a: &F, b: &mut [u8]) { a.pack_normalized(b); }
    #[no_mangle] pub fn h_521_1_packed(a: &mut F, b: &mut [u8; 66]) { *b = a.packed(); }
    #[no_mangle] pub fn h_521_1_nbytes() -> i32 { F::nbytes() }
    #[no_mangle] pub fn h_521_1_nbits() -> usize { F::nbits() }
    #[no_mangle] pub fn h_521_1_bit(a: &mut F, b: usize) -> bool { a.bit(b) }
    #[no_mangle] pub fn h_521_1_bit_normalized(a: &F, b: usize) -> bool { a.bit_normalized(b) }
    #[no_mangle] pub fn h_521_1_normalize_bitand(a: &mut F, b: &mut F) { a.normalize_bitand(b); }
    #[no_mangle] pub fn h_521_1_normalize_self_bitand(a: &mut F, b: &F) { a.normalize_self_bitand(b); }
    #[no_mangle] pub fn h_521_1_normalized_bitand(a: &mut F, b: &F) { a.normalized_bitand(b); }
    #[no_mangle] pub fn h_521_1_normalize_bitor(a: &mut F, b: &mut F) { a.normalize_bitor(b); }
    #[no_mangle] pub fn h_521_1_normalize_self_bitor(a: &mut F, b: &F) { a.normalize_self_bitor(b); }
    #[no_mangle] pub fn h_521_1_normalized_bitor(a: &mut F, b: &F) { a.normalized_bitor(b); }
    #[no_mangle] pub fn h_521_1_fill(a: &mut F, b: bool) { PrimeField::fill(a, b); }
    #[no_mangle] pub fn h_521_1_filled(a: &mut F, b: bool) { *a = <F as PrimeField>::filled(b); }
    #[no_mangle] pub fn h_521_1_mask_fill(a: &mut M, b: bool) { PrimeFieldMask::fill(a, b); }
    #[no_mangle] pub fn h_521_1_mask_filled(a: &mut M, b: bool) { *a = <M as PrimeFieldMask>::filled(b); }
    #[no_mangle] pub fn h_521_1_zero(a: &mut F) { *a = F::zero(); }
    #[no_mangle] pub fn h_521_1_one(a: &mut F) { *a = F::one(); }
    #[no_mangle] pub fn h_521_1_m_one(a: &mut F) { *a = F::m_one(); }
    #[no_mangle] pub fn h_521_1_modulus(a: &mut F) { *a = F::modulus(); }
    #[no_mangle] pub fn h_521_1_rand(a: &mut F, b: &mut DRng) { *a = <F as rand::Rand>::rand(b); }
    #[no_mangle] pub fn h_521_1_lower_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { LowerHex::fmt(a, b) }
    #[no_mangle] pub fn h_521_1_upper_hex(a: &F, b: &mut Formatter) -> ::std::fmt::Result { UpperHex::fmt(a, b) }
    #[no_mangle] pub fn h_521_1_debug_fmt(a: &F, b: &mut Formatter) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(a, b) }
    #[no_mangle] pub fn h_521_1_const_ZERO(a: &mut F) { *a = m::ZERO; }
    #[no_mangle] pub fn h_521_1_const_ONE(a: &mut F) { *a = m::ONE; }
    #[no_mangle] pub fn h_521_1_const_M_ONE(a: &mut F) { *a = m::M_ONE; }
    #[no_mangle] pub fn h_521_1_const_MODULUS(a: &mut F) { *a = m::MODULUS; }
    #[no_mangle] pub fn h_521_1_const_E521_D(a: &mut F) { *a = m::E521_D; }
    #[no_mangle] pub fn h_521_1_const_E521_BASE_X(a: &mut F) { *a = m::E521_BASE_X; }
    #[no_mangle] pub fn h_521_1_const_E521_BASE_Y(a: &mut F) { *a = m::E521_BASE_Y; }
    #[no_mangle] pub fn h_521_1_const_E521_ORDER(a: &mut F) { *a = m::E521_ORDER; }
}
pub mod c_e222 {
    use super::*;
    pub type C = sc::curve::e_222::E222;
    pub type P = EdwardsExtended<C>;
    pub type F = super::f_222_117::F;
    #[cfg(not(verif_nohooks))] #[inline] pub fn coords(p: &P) -> [F; 4] { p.verif_coords() }
    #[cfg(not(verif_nohooks))] #[inline] pub fn from_coords(c: [F; 4]) -> P { P::verif_from_coords(c) }
    #[cfg(verif_nohooks)] #[inline] pub fn coords(p: &P) -> [F; 4] { unsafe { ::std::mem::transmute_copy(p) } }
    #[cfg(verif_nohooks)] #[inline] pub fn from_coords(c: [F; 4]) -> P { unsafe { ::std::mem::transmute(c) } }
    #[no_mangle] pub fn h_e222_padd_assign_ref(a: &mut P, b: &P) { *a += b; }
    #[no_mangle] pub fn h_e222_padd_assign_val(a: &mut P, b: &P) { *a += *b; }
    #[no_mangle] pub fn h_e222_padd_refs(a: &mut P, b: &P, c: &P) { *a = b + c; }
    #[no_mangle] pub fn h_e222_padd_vals(a: &mut P, b: &P, c: &P) { *a = *b + *c; }
    #[no_mangle] pub fn h_e222_pzero(a: &mut P) { *a = P::zero(); }
    #[no_mangle] pub fn h_e222_pinit(a: &mut P, b: &F, c: &F) { a.init(*b, *c); }
    #[no_mangle] pub fn h_e222_pdouble(a: &mut P) { a.double(); }
    #[no_mangle] pub fn h_e222_pdoubled(a: &mut P, b: &P) { *a = b.doubled(); }
    #[no_mangle] pub fn h_e222_ptriple(a: &mut P) { a.triple(); }
    #[no_mangle] pub fn h_e222_ptripled(a: &mut P, b: &P) { *a = b.tripled(); }
    #[no_mangle] pub fn h_e222_pscalar_mult(a: &mut P, b: &mut F) { a.scalar_mult(b); }
    #[no_mangle] pub fn h_e222_pscalar_mult_normalized(a: &mut P, b: &F) { a.scalar_mult_normalized(b); }
    #[no_mangle] pub fn h_e222_pdval(a: &mut F) { *a = <C as EdwardsCurve>::d_val(); }
    #[no_mangle] pub fn h_e222_pcoords(a: &mut [F; 4], b: &P) { *a = coords(b); }
    #[no_mangle] pub fn h_e222_pfrom_coords(a: &mut P, b: &[F; 4]) { *a = from_coords([b[0], b[1], b[2], b[3]]); }
}
pub mod c_c1174 {
    use super::*;
    pub type C = sc::curve::curve1174::Curve1174;
    pub type P = EdwardsExtended<C>;
    pub type F = super::f_251_9::F;
    #[cfg(not(verif_nohooks))] #[inline] pub fn coords(p: &P) -> [F; 4] { p.verif_coords() }
    #[cfg(not(verif_nohooks))] #[inline] pub fn from_coords(c: [F; 4]) -> P { P::verif_from_coords(c) }
    #[cfg(verif_nohooks)] #[inline] pub fn coords(p: &P) -> [F; 4] { unsafe { ::std::mem::transmute_copy(p) } }
    #[cfg(verif_nohooks)] #[inline] pub fn from_coords(c: [F; 4]) -> P { unsafe { ::std::mem::transmute(c) } }
    #[no_mangle] pub fn h_c1174_padd_assign_ref(a: &mut P, b: &P) { *a += b; }
    #[no_mangle] pub fn h_c1174_padd_assign_val(a: &mut P, b: &P) { *a += *b; }
    #[no_mangle] pub fn h_c1174_padd_refs(a: &mut P, b: &P, c: &P) { *a = b + c; }
    #[no_mangle] pub fn h_c1174_padd_vals(a: &mut P, b: &P, c: &P) { *a = *b + *c; }
    #[no_mangle] pub fn h_c1174_pzero(a: &mut P) { *a = P::zero(); }
    #[no_mangle] pub fn h_c1174_pinit(a: &mut P, b: &F, c: &F) { a.init(*b, *c); }
    #[no_mangle] pub fn h_c1174_pdouble(a: &mut P) { a.double(); }
    #[no_mangle] pub fn h_c1174_pdoubled(a: &mut P, b: &P) { *a = b.doubled(); }
    #[no_mangle] pub fn h_c1174_ptriple(a: &mut P) { a.triple(); }
    #[no_mangle] pub fn h_c1174_ptripled(a: &mut P, b: &P) { *a = b.tripled(); }
    #[no_mangle] pub fn h_c1174_pscalar_mult(a: &mut P, b: &mut F) { a.scalar_mult(b); }
    #[no_mangle] pub fn h_c1174_pscalar_mult_normalized(a: &mut P, b: &F) { a.scalar_mult_normalized(b); }
    #[no_mangle] pub fn h_c1174_pdval(a: &mut F) { *a = <C as EdwardsCurve>::d_val(); }
    #[no_mangle] pub fn h_c1174_pcoords(a: &mut [F; 4], b: &P) { *a = coords(b); }
    #[no_mangle] pub fn h_c1174_pfrom_coords(a: &mut P, b: &[F; 4]) { *a = from_coords([b[0], b[1], b[2], b[3]]); }
}
pub mod c_e382 {
    use super::*;
    pub type C = sc::curve::e_382::E382;
    pub type P = EdwardsExtended<C>;
    pub type F = super::f_382_105::F;
    #[cfg(not(verif_nohooks))] #[inline] pub fn coords(p: &P) -> [F; 4] { p.verif_coords() }
    #[cfg(not(verif_nohooks))] #[inline] pub fn from_coords(c: [F; 4]) -> P { P::verif_from_coords(c) }
    #[cfg(verif_nohooks)] #[inline] pub fn coords(p: &P) -> [F; 4] { unsafe { ::std::mem::transmute_copy(p) } }
    #[cfg(verif_nohooks)] #[inline] pub fn from_coords(c: [F; 4]) -> P { unsafe { ::std::mem::transmute(c) } }
    #[no_mangle] pub fn h_e382_padd_assign_ref(a: &mut P, b: &P) { *a += b; }
    #[no_mangle] pub fn h_e382_padd_assign_val(a: &mut P, b: &P) { *a += *b; }
    #[no_mangle] pub fn h_e382_padd_refs(a: &mut P, b: &P, c: &P) { *a = b + c; }
    #[no_mangle] pub fn h_e382_padd_vals(a: &mut P, b: &P, c: &P) { *a = *b + *c; }
    #[no_mangle] pub fn h_e382_pzero(a: &mut P) { *a = P::zero(); }
    #[no_mangle] pub fn h_e382_pinit(a: &mut P, b: &F, c: &F) { a.init(*b, *c); }
    #[no_mangle] pub fn h_e382_pdouble(a: &mut P) { a.double(); }
    #[no_mangle] pub fn h_e382_pdoubled(a: &mut P, b: &P) { *a = b.doubled(); }
    #[no_mangle] pub fn h_e382_ptriple(a: &mut P) { a.triple(); }
    #[no_mangle] pub fn h_e382_ptripled(a: &mut P, b: &P) { *a = b.tripled(); }
    #[no_mangle] pub fn h_e382_pscalar_mult(a: &mut P, b: &mut F) { a.scalar_mult(b); }
    #[no_mangle] pub fn h_e382_pscalar_mult_normalized(a: &mut P, b: &F) { a.scalar_mult_normalized(b); }
    #[no_mangle] pub fn h_e382_pdval(a: &mut F) { *a = <C as EdwardsCurve>::d_val(); }
    #[no_mangle] pub fn h_e382_pcoords(a: &mut [F; 4], b: &P) { *a = coords(b); }
    #[no_mangle] pub fn h_e382_pfrom_coords(a: &mut P, b: &[F; 4]) { *a = from_coords([b[0], b[1], b[2], b[3]]); }
}
pub mod c_c41417 {
    use super::*;
    pub type C = sc::curve::curve41417::Curve41417;
    pub type P = EdwardsExtended<C>;
    pub type F = super::f_414_17::F;
    #[cfg(not(verif_nohooks))] #[inline] pub fn coords(p: &P) -> [F; 4] { p.verif_coords() }
    #[cfg(not(verif_nohooks))] #[inline] pub fn from_coords(c: [F; 4]) -> P { P::verif_from_coords(c) }
    #[cfg(verif_nohooks)] #[inline] pub fn coords(p: &P) -> [F; 4] { unsafe { ::std::mem::transmute_copy(p) } }
    #[cfg(verif_nohooks)] #[inline] pub fn from_coords(c: [F; 4]) -> P { unsafe { ::std::mem::transmute(c) } }
    #[no_mangle] pub fn h_c41417_padd_assign_ref(a: &mut P, b: &P) { *a += b; }
    #[no_mangle] pub fn h_c41417_padd_assign_val(a: &mut P, b: &P) { *a += *b; }
    #[no_mangle] pub fn h_c41417_padd_refs(a: &mut P, b: &P, c: &P) { *a = b + c; }
    #[no_mangle] pub fn h_c41417_padd_vals(a: &mut P, b: &P, c: &P) { *a = *b + *c; }
    #[no_mangle] pub fn h_c41417_pzero(a: &mut P) { *a = P::zero(); }
    #[no_mangle] pub fn h_c41417_pinit(a: &mut P, b: &F, c: &F) { a.init(*b, *c); }
    #[no_mangle] pub fn h_c41417_pdouble(a: &mut P) { a.double(); }
    #[no_mangle] pub fn h_c41417_pdoubled(a: &mut P, b: &P) { *a = b.doubled(); }
    #[no_mangle] pub fn h_c41417_ptriple(a: &mut P) { a.triple(); }
    #[no_mangle] pub fn h_c41417_ptripled(a: &mut P, b: &P) { *a = b.tripled(); }
    #[no_mangle] pub fn h_c41417_pscalar_mult(a: &mut P, b: &mut F) { a.scalar_mult(b); }
    #[no_mangle] pub fn h_c41417_pscalar_mult_normalized(a: &mut P, b: &F) { a.scalar_mult_normalized(b); }
    #[no_mangle] pub fn h_c41417_pdval(a: &mut F) { *a = <C as EdwardsCurve>::d_val(); }
    #[no_mangle] pub fn h_c41417_pcoords(a: &mut [F; 4], b: &P) { *a = coords(b); }
    #[no_mangle] pub fn h_c41417_pfrom_coords(a: &mut P, b: &[F; 4]) { *a = from_coords([b[0], b[1], b[2], b[3]]); }
}
pub mod c_e521 {
    use super::*;
    pub type C = sc::curve::e_521::E521;
    pub type P = EdwardsExtended<C>;
    pub type F = super::f_521_1::F;
    #[cfg(not(verif_nohooks))] #[inline] pub fn coords(p: &P) -> [F; 4] { p.verif_coords() }
    #[cfg(not(verif_nohooks))] #[inline] pub fn from_coords(c: [F; 4]) -> P { P::verif_from_coords(c) }
    #[cfg(verif_nohooks)] #[inline] pub fn coords(p: &P) -> [F; 4] { unsafe { ::std::mem::transmute_copy(p) } }
    #[cfg(verif_nohooks)] #[inline] pub fn from_coords(c: [F; 4]) -> P { unsafe { ::std::mem::transmute(c) } }
    #[no_mangle] pub fn h_e521_padd_assign_ref(a: &mut P, b: &P) { *a += b; }
    #[no_mangle] pub fn h_e521_padd_assign_val(a: &mut P, b: &P) { *a += *b; }
    #[no_mangle] pub fn h_e521_padd_refs(a: &mut P, b: &P, c: &P) { *a = b + c; }
    #[no_mangle] pub fn h_e521_padd_vals(a: &mut P, b: &P, c: &P) { *a = *b + *c; }
    #[no_mangle] pub fn h_e521_pzero(a: &mut P) { *a = P::zero(); }
    #[no_mangle] pub fn h_e521_pinit(a: &mut P, b: &F, c: &F) { a.init(*b, *c); }
    #[no_mangle] pub fn h_e521_pdouble(a: &mut P) { a.double(); }
    #[no_mangle] pub fn h_e521_pdoubled(a: &mut P, b: &P) { *a = b.doubled(); }
    #[no_mangle] pub fn h_e521_ptriple(a: &mut P) { a.triple(); }
    #[no_mangle] pub fn h_e521_ptripled(a: &mut P, b: &P) { *a = b.tripled(); }
    #[no_mangle] pub fn h_e521_pscalar_mult(a: &mut P, b: &mut F) { a.scalar_mult(b); }
    #[no_mangle] pub fn h_e521_pscalar_mult_normalized(a: &mut P, b: &F) { a.scalar_mult_normalized(b); }
    #[no_mangle] pub fn h_e521_pdval(a: &mut F) { *a = <C as EdwardsCurve>::d_val(); }
    #[no_mangle] pub fn h_e521_pcoords(a: &mut [F; 4], b: &P) { *a = coords(b); }
    #[no_mangle] pub fn h_e521_pfrom_coords(a: &mut P, b: &[F; 4]) { *a = from_coords([b[0], b[1], b[2], b[3]]); }
}
